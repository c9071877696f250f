// Deployment model: configuration, clients, upstream servers.
#include "world.h"
#include "oracle.h"
#include <algorithm>
#include <fnmatch.h>

Scn S;
std::vector<Query *> queries;
std::vector<UpResp *> upresps;
std::vector<ConfVer *> confs;
int life = 0;
bool crash_stop = false;
static std::map<Addr, Client *> udp_clients;
static uint32_t answer_serial = 0;

// ---------------------------------------------------------------- building blocks
Server *add_server(const char *ip, int port, bool tcp)
{
    Server *s = new Server;
    s->a = mkaddr(ip, port);
    s->tcp = tcp;
    s->idx = (int)S.servers.size();
    S.servers.push_back(s);
    return s;
}
std::vector<Group *> all_groups;
Group *add_group(bool tcp, std::vector<Server *> servers, std::vector<std::string> domains, bool parallel)
{
    Group *g = new Group;
    g->idx = (int)S.groups.size();
    g->tcp = tcp;
    g->servers = servers;
    g->domains = domains;
    g->parallel = parallel;
    for (Server *s : servers) s->groups.push_back(g);
    S.groups.push_back(g);
    all_groups.push_back(g);
    return g;
}
std::string zone_name(int i)
{
    static const char *z[] = {"alpha.test", "beta.test", "corp.example", "sub.corp.example", "gamma.net", "x.y.z.delta.org", "epsilon", "deep.sub.corp.example"};
    if (!S.zone_names.empty()) return S.zone_names[i % S.zone_names.size()];
    return z[i % 8];
}
std::string pick_name(uint32_t key)
{
    static const char kc[] = "acnexmr";
    int k = 0;
    if (S.kinds) {
        std::vector<int> ks;
        for (int i = 0; i < 7; i++) if (S.kinds & (1 << i)) ks.push_back(i);
        k = ks[ch_pick(S_OP, key, (int)ks.size())];
    }
    int lab = (int)ch_range(S_OP, key, 0, S.labels - 1);
    std::string zone = zone_name((int)ch_range(S_OP, key, 0, S.zones - 1));
    if (S.strict_names) { static int u = 0; return std::string(1, kc[k]) + "u" + std::to_string(++u) + "." + zone; }
    std::string n = std::string(1, kc[k]) + std::to_string(lab) + "." + zone;
    if (S.bare_ppm && ch_chance(S_OP, key, S.bare_ppm)) n = zone;
    if (S.extra_ppm && ch_chance(S_OP, key, S.extra_ppm)) n = S.extra_names[ch_pick(S_OP, key, (int)S.extra_names.size())];
    if (S.mixed_case && ch_chance(S_OP, key, 300000)) {
        uint64_t bits = (uint64_t)ch_range(S_OP, key, 0, 0xffff);
        for (size_t i = 0; i < n.size(); i++) if ((bits >> (i & 15)) & 1) n[i] = (char)toupper(n[i]);
    }
    return n;
}
int fresh_id(uint32_t key)
{
    if (S.collide_ppm && ch_chance(S_OP, key + 1, S.collide_ppm)) return (int)ch_range(S_OP, key + 2, 1, 3);
    return (int)ch_range(S_OP, key + 3, 0, 65535);
}
uint32_t kind_ttl(const std::string &name, int type)
{
    uint64_t h = 77;
    for (char c : name) h = hash64(h, (uint8_t)tolower(c));
    h = hash64(h, type);
    static const uint32_t lo[] = {300, 3600, 600, 86400}, sh[] = {1, 2, 3, 5, 8, 13, 20, 40}, mx[] = {1, 3, 7, 15, 30, 60, 90, 3600};
    switch (S.ttl_mode) {
    case 0: return lo[h % 4];
    case 1: return sh[h % 8];
    default: return mx[h % 8];
    }
}

// ---------------------------------------------------------------- clients
static void client_rx(Client *c, const Bytes &d, const Addr &src) { oracle_client_response(c, d, src); }

Client *add_udp_client(const Addr &a)
{
    Client *c = new Client;
    c->idx = (int)S.clients.size();
    c->a = a;
    S.clients.push_back(c);
    udp_clients[a] = c;
    actor_udp_bind(a, [](const Addr &, const Addr &, const Bytes &) {});
    return c;
}

static void tcp_client_data(Client *c, const Bytes &d)
{
    c->rx += d;
    while (c->rx.size() >= 2) {
        size_t n = get16(c->rx, 0);
        if (c->rx.size() < 2 + n) break;
        Bytes m = c->rx.substr(2, n);
        c->rx.erase(0, 2 + n);
        c->frames++;
        client_rx(c, m, c->target);
    }
}

Client *tcp_client_open(const Addr &from, const Addr &to)
{
    Client *c = new Client;
    c->idx = (int)S.clients.size();
    c->tcp = true;
    c->a = from;
    c->target = to;
    S.clients.push_back(c);
    c->peer = actor_tcp_connect(from, to);
    stat(ST_TCPCONN);
    c->peer->on_data = [c](const Bytes &d) { tcp_client_data(c, d); };
    c->peer->on_open = [c] { c->t_open = now; };
    c->peer->on_fail = [c] { c->failed = true; oracle_tcp_client_closed(c, true); };
    c->peer->on_close = [c] { c->failed = true; oracle_tcp_client_closed(c, false); };
    return c;
}

static const Bytes *tcp_rest;
Query *send_tcp_rest(Client *c, const Addr &to, const Bytes &wire, const Bytes &rest)
{
    tcp_rest = &rest;
    Query *q = send_wire(c, to, wire, false, false);
    tcp_rest = nullptr;
    return q;
}
Query *send_wire(Client *c, const Addr &to, const Bytes &wire, bool malformed, bool faults)
{
    Query *q = new Query;
    q->n = (int)queries.size();
    q->c = c;
    q->wire = wire;
    q->m = parse(wire);
    q->to = to;
    q->t_sent = now;
    q->malformed = malformed;
    q->life = life;
    queries.push_back(q);
    c->qs.push_back(q);
    stat(ST_QUERIES);
    if (malformed) { stat(ST_MALF); fault(F_MALFORMED); }
    trace("client%d sends query #%d id=%u %s %s%s to %s", c->idx, q->n, q->m.id, q->m.qname_raw.c_str(), type_name(q->m.qtype).c_str(), malformed ? " (malformed)" : "", to.str().c_str());
    if (c->tcp) {
        stat(ST_TCPQ);
        Bytes f;
        put16(f, (uint16_t)wire.size());
        f += wire;
        if (tcp_rest) f = *tcp_rest;
        peer_send(c->peer, f, 0, faults);
        // counted as arrived once the last byte can have reached the program
        q->arrivals.push_back(now);
        oracle_query_arrival(q, now);
    } else {
        actor_udp_send(c->a, to, wire, faults);
    }
    return q;
}

Query *send_query(Client *c, const Addr &to, const std::string &name, int type, bool edns, int id, bool faults)
{
    return send_wire(c, to, make_query((uint16_t)id, name, (uint16_t)type, edns), false, faults);
}

// ---------------------------------------------------------------- upstream answers
static Bytes uniq_rdata(int type, uint32_t ser)
{
    switch (type) {
    case T_A: return rd_a(0x32000000u + ser);
    case T_AAAA: return rd_aaaa(0x20010db800000000ull, ser);
    case T_TXT: { std::string t = "serial=" + std::to_string(ser); return Bytes(1, (char)t.size()) + t; }
    case T_HTTPS: { Bytes b("\0\1\0", 3); b.append("\0\4\0\4", 4); put32(b, 0x33000000u + ser); return b; }
    case T_SRV: { Bytes b; put16(b, 1); put16(b, 2); put16(b, 443); return b + wire_name("srv" + std::to_string(ser) + ".hosts.test"); }
    case T_SOA: { Bytes b = wire_name("ns" + std::to_string(ser) + ".hosts.test") + wire_name("root.hosts.test"); put32(b, ser); put32(b, 7200); put32(b, 600); put32(b, 86400); put32(b, 300); return b; }
    default: { Bytes b("opaque", 6); put32(b, ser); return b; }
    }
}
static void put_answer(Builder &b, int section, const std::string &owner, int type, uint32_t ttl, uint32_t ser)
{
    switch (type) {
    case T_CNAME: case T_PTR: case T_NS: b.rr_name(section, owner, (uint16_t)type, ttl, "", "t" + std::to_string(ser) + ".targets.test"); break;
    case T_MX: { Bytes p; put16(p, (uint16_t)(10 + ser % 40)); b.rr_name(section, owner, T_MX, ttl, p, "mx" + std::to_string(ser) + ".targets.test"); break; }
    default: b.rr(section, owner, (uint16_t)type, ttl, uniq_rdata(type, ser)); break;
    }
}

static Bytes choose_special_ip(uint32_t key, int type)
{
    // addresses the configuration talks about (block, substitution)
    std::vector<Bytes> v;
    for (auto &b : S.block_ip) if ((int)b.size() == (type == T_A ? 4 : 16)) v.push_back(b);
    for (ConfVer *c : confs) for (auto &p : c->subst) if ((int)p.first.size() == (type == T_A ? 4 : 16)) v.push_back(p.first);
    std::vector<const Net *> nets;
    for (auto &n : S.nets) if ((int)n.ip.size() == (type == T_A ? 4 : 16)) nets.push_back(&n);
    for (ConfVer *c : confs) for (auto &n : c->nets) if ((int)n.ip.size() == (type == T_A ? 4 : 16)) nets.push_back(&n);
    if (!nets.empty() && (v.empty() || ch_chance(S_UP, key + 1000, 600000))) {
        const Net *n = nets[ch_pick(S_UP, key + 1001, (int)nets.size())];
        Bytes ip = n->ip;
        // any address in the range, its first and last ones, and the ones next to it
        int how = ch_pick(S_UP, key + 1002, 5);
        for (int i = n->bits; i < (int)ip.size() * 8; i++) {
            bool bit = how == 1 ? false : how == 2 ? true : ch_chance(S_UP, key + 1003, 500000);
            ip[i / 8] = (char)((ip[i / 8] & ~(0x80 >> i % 8)) | (bit ? 0x80 >> i % 8 : 0));
        }
        if (how == 3) { int i = n->bits - 1 - ch_pick(S_UP, key + 1004, 4); ip[i / 8] = (char)(ip[i / 8] ^ (0x80 >> i % 8)); }
        return ip;
    }
    if (v.empty()) return "";
    return v[ch_pick(S_UP, key, (int)v.size())];
}

// Builds the answer of an upstream server; every answer carries fresh unique data.
static Bytes make_answer(Server *s, const Msg &q)
{
    Builder b(q.id, (uint16_t)(0x8080 | (q.flags & 0x0100)));
    if (q.qd == 1) b.question(q.qname_raw, q.qtype, q.qclass);
    std::string n = q.qname;
    char kind = n.empty() ? 'r' : n[0];
    uint32_t ttl = kind_ttl(n, q.qtype);
    bool opt = q.edns() && s->edns_ok;
    auto setflags = [&](uint16_t add) { uint16_t f = get16(b.b, 2) | add; b.b[2] = (char)(f >> 8); b.b[3] = (char)f; };
    if (ch_chance(S_UP, 7, 50000)) setflags(0x0400); // AA
    std::string zone = n.find('.') == std::string::npos ? "test" : n.substr(n.find('.') + 1);
    switch (kind) {
    case 'n': { // NXDOMAIN
        setflags(ch_chance(S_UP, 9, 200000) ? 2 : 3);
        if (ch_chance(S_UP, 8, 700000)) {
            Bytes soa = wire_name("ns1." + zone) + wire_name("root." + zone);
            put32(soa, ++answer_serial); put32(soa, 1); put32(soa, 2); put32(soa, 3); put32(soa, 4);
            b.rr(2, zone, T_SOA, 60, soa);
        }
        break;
    }
    case 'e': { // no data
        Bytes soa = wire_name("ns1." + zone) + wire_name("root." + zone);
        put32(soa, ++answer_serial); put32(soa, 1); put32(soa, 2); put32(soa, 3); put32(soa, 4);
        b.rr(2, zone, T_SOA, 60, soa);
        break;
    }
    case 'c': { // alias chain
        std::string owner = q.qname_raw;
        int hops = n.size() > 1 && (n[1] % 3 == 0) ? 2 : 1;
        if (q.qtype != T_CNAME) {
            for (int i = 0; i < hops; i++) {
                std::string t = (i == hops - 1 ? "a" : "b") + n.substr(1);
                b.rr_name(1, owner, T_CNAME, kind_ttl(n + std::to_string(i), T_CNAME), "", t);
                owner = t;
            }
            int k = 1 + (int)ch_range(S_UP, 6, 0, 2);
            uint32_t t2 = kind_ttl(owner, q.qtype);
            for (int i = 0; i < k; i++) put_answer(b, 1, owner, q.qtype, t2, ++answer_serial);
        } else b.rr_name(1, owner, T_CNAME, kind_ttl(n + "0", T_CNAME), "", (hops == 2 ? "b" : "a") + n.substr(1));
        break;
    }
    case 'x': { // large
        int k = q.qtype == T_CNAME ? 1 : 6 + (int)ch_range(S_UP, 6, 0, ch_chance(S_UP, 16, S.huge_ppm) ? 60 : 14);
        if (q.qtype == T_TXT) {
            uint32_t ser = ++answer_serial;
            Bytes t;
            std::string tag = "big=" + std::to_string(ser) + ";";
            size_t total = (size_t)ch_range(S_UP, 6, 100, 900);
            if (ch_chance(S_UP, 16, S.huge_ppm)) total = (size_t)ch_range(S_UP, 7, 900, 3200);
            std::string body = tag;
            while (body.size() < total) body += (char)('a' + body.size() % 26);
            for (size_t o = 0; o < body.size(); o += 200) { std::string p = body.substr(o, 200); t += (char)p.size(); t += p; }
            b.rr(1, q.qname_raw, T_TXT, ttl, t);
        } else for (int i = 0; i < k && b.b.size() < 3200; i++) put_answer(b, 1, q.qname_raw, q.qtype, ttl, ++answer_serial);
        break;
    }
    case 'm': { // with authority and additional sections
        put_answer(b, 1, q.qname_raw, q.qtype, ttl, ++answer_serial);
        if (ch_chance(S_UP, 17, 600000)) b.rr_name(2, zone, T_NS, 3600, "", "ns1." + zone);
        b.rr(3, "ns1." + zone, T_A, 3600, rd_a(0x33010000u + (uint32_t)(hash64(n.size(), zone.size()) & 0xffff)));
        break;
    }
    default: {
        int k = q.qtype == T_CNAME ? 1 : 1 + (int)ch_range(S_UP, 6, 0, 2);
        for (int i = 0; i < k; i++) {
            Bytes ip;
            if ((q.qtype == T_A || q.qtype == T_AAAA) && !after_calm && ch_chance(S_UP, 11, !S.addresses() && confs.back()->subst.empty() && confs.back()->nets.empty() ? 0 : 350000)) ip = choose_special_ip(12, q.qtype);
            if (!ip.empty()) b.rr(1, q.qname_raw, q.qtype, ttl, ip);
            else put_answer(b, 1, q.qname_raw, q.qtype, ttl, ++answer_serial);
        }
        if (!ch_chance(S_UP, 13, 900000)) {} else if (S.addresses() || !confs.back()->subst.empty() || !confs.back()->nets.empty()) put_answer(b, 1, q.qname_raw, T_TXT, ttl, ++answer_serial);
    }
    }
    if (opt) b.opt();
    return b.b;
}

static Bytes corrupt(Bytes w, uint32_t key)
{
    int k = (int)ch_range(S_UP, key, 0, 11);
    auto rnd = [&](int64_t n) { return (size_t)ch_range(S_UP, key + 1, 0, n - 1); };
    if (k == 10) { // around the limits of the program's buffers
        size_t total = 3000 + rnd(3000);
        Msg m = parse(w);
        int n = 0;
        while (w.size() + 30 < total) { Bytes t = Bytes(1, (char)200) + Bytes(200, 't'); if (w.size() + 230 > total) t = Bytes(1, (char)10) + Bytes(10, 't'); w += wire_name(""); put16(w, T_TXT); put16(w, 1); put32(w, 60); put16(w, (uint16_t)t.size()); w += t; n++; }
        n += get16(w, 10);
        w[10] = (char)(n >> 8);
        w[11] = (char)n;
        return w;
    }
    if (k == 11) { // aliases going round in circles
        Msg m = parse(w);
        if (!m.ok || !m.qend) return w;
        Bytes r = w.substr(0, m.qend), other = wire_name("loop.alpha.test");
        bool two = rnd(2);
        r[6] = 0; r[7] = (char)(two ? 2 : 1);
        r[8] = r[9] = r[10] = r[11] = 0;
        Bytes self("\xc0\x0c", 2);
        auto rr = [&](const Bytes &owner, const Bytes &target) { r += owner; put16(r, T_CNAME); put16(r, 1); put32(r, 300); put16(r, (uint16_t)target.size()); r += target; };
        rr(self, two ? other : self);
        if (two) rr(other, self);
        return r;
    }
    switch (k) {
    case 0: return w.substr(0, rnd((int64_t)w.size()));                       // truncated
    case 1: if (w.size() > 12) w[12 + rnd((int64_t)w.size() - 12)] = (char)rnd(256); return w;
    case 2: w[4 + rnd(8)] = (char)rnd(256); return w;                        // counts
    case 3: { Bytes r = w.substr(0, 12); put16(r, 0xc00c); put32(r, 0x00010001); return r; } // pointer to itself
    case 4: { size_t o = parse(w).qend; if (o && o + 2 < w.size()) { w[o] = (char)0xc0; w[o + 1] = (char)o; } return w; } // owner points to itself
    case 5: { Msg m = parse(w); if (!m.rrs.empty()) { size_t o = m.rrs[0].rdoff - 2; w[o] = (char)rnd(256); w[o + 1] = (char)rnd(256); } return w; }
    case 6: { Bytes r; size_t n = rnd(600); for (size_t i = 0; i < n; i++) r += (char)rnd(256); return r; }
    case 7: { for (int i = 0; i < 8; i++) w[rnd((int64_t)w.size())] = (char)rnd(256); return w; }
    case 8: { if (w.size() > 14) { w[12] = (char)(0xc0 | rnd(64)); w[13] = (char)rnd(256); } return w; }
    default: { Bytes r = w.substr(0, 2); r += Bytes("\x81\x80\0\1\0\xff\0\xff\0\xff", 10); for (size_t i = 0, n = rnd(900); i < n; i++) r += (char)(i % 7 ? rnd(256) : 0xc0); return r; }
    }
}

static UpResp *new_resp(Server *s, const Bytes &w, bool junk)
{
    UpResp *r = new UpResp;
    r->n = (int)upresps.size();
    r->wire = w;
    r->m = parse(w);
    r->srv = s;
    r->t_made = now;
    r->junk = junk || !r->m.ok;
    upresps.push_back(r);
    stat(ST_UPR);
    s->nr++;
    oracle_new_upstream_response(r);
    return r;
}

// ---- UDP upstream
static std::map<Bytes, std::vector<UpResp *>> by_wire;
void upstream_delivered(const Bytes &d, const Addr &from, bool tcp)
{
    auto it = by_wire.find(d);
    if (it == by_wire.end()) return;
    for (UpResp *r : it->second)
        if (r->srv->tcp == tcp && (tcp || r->srv->a == from)) { r->delivered.push_back(now); oracle_upstream_delivered(r); return; }
}
static void udp_reply(Server *s, const Addr &to, const Bytes &w, bool junk, usec delay)
{
    UpResp *r = new_resp(s, w, junk);
    by_wire[w].push_back(r);
    trace("server%d answers #u%d id=%u %s%s", s->idx, r->n, r->m.id, show(r->m).c_str(), junk ? " (junk)" : "");
    actor_udp_send(s->a, to, w, true, delay);
}
static void server_udp(Server *s, const Addr &from, const Bytes &d)
{
    s->nq++;
    s->q_times.push_back(now);
    Msg q = parse(d);
    if (!s->up) { fault(F_SERVERDOWN); return; }
    if (!q.ok || q.qr() || q.qd != 1) {
        if (q.ok && !q.qr() && ch_chance(S_UP, 40, 500000)) { Builder b(q.id, 0x8081); udp_reply(s, from, b.b, true, 500); }
        return;
    }
    if (ch_chance(S_UP, 0, s->drop)) { fault(F_UPLOSS); trace("server%d ignores the query", s->idx); return; }
    usec delay = ch_range(S_UP, 1, s->dmin, s->dmax);
    if (ch_chance(S_UP, 2, s->spoof)) {
        fault(F_SPOOF);
        Msg q2 = q;
        switch (ch_range(S_UP, 3, 0, 3)) {
        case 0: q2.id ^= (uint16_t)(1 << ch_range(S_UP, 4, 0, 15)); break;
        case 1: q2.qname_raw = pick_name(900); q2.qname = lower(q2.qname_raw); if (q2.qname == q.qname) q2.id ^= 1; break;
        case 2: q2.qtype = q.qtype == T_A ? T_AAAA : T_A; break;
        default: q2.id ^= 0x5555; q2.qname_raw = pick_name(900); q2.qname = lower(q2.qname_raw); break;
        }
        udp_reply(s, from, make_answer(s, q2), true, ch_range(S_UP, 5, 0, delay));
    }
    if (ch_chance(S_UP, 14, s->junk)) {
        fault(F_MALFORMED);
        Bytes w = corrupt(make_answer(s, q), 15);
        if (w.empty()) w = "x";
        udp_reply(s, from, w, true, ch_range(S_UP, 5, 0, delay));
        if (ch_chance(S_UP, 17, 500000)) return;
    }
    Bytes w = make_answer(s, q);
    udp_reply(s, from, w, false, delay);
    if (ch_chance(S_UP, 18, s->dup)) { fault(F_DUP); udp_reply(s, from, ch_chance(S_UP, 19, 500000) ? w : make_answer(s, q), false, delay + ch_range(S_UP, 20, 1, 50 * MS)); }
}

// ---- TCP upstream
struct TcpConn { Peer p; Server *s; Bytes rx; int served = 0; bool dead = false; usec last; std::deque<std::pair<Bytes, bool>> hold; };
void tcp_upstream_data(std::shared_ptr<TcpConn> c, const Bytes &d);
static void tcp_conn_idle(std::shared_ptr<TcpConn> c)
{
    if (c->dead || !c->s->idle_close_ms) return;
    usec lim = c->s->idle_close_ms * MS;
    ev_at(c->last + lim, [c, lim] {
        if (c->dead || c->p->closed) return;
        if (now - c->last >= lim) { c->dead = true; fault(F_PEERCLOSE); trace("server%d closes an idle connection", c->s->idx); peer_close(c->p); }
        else tcp_conn_idle(c);
    });
}
static void tcp_reply(std::shared_ptr<TcpConn> c, const Bytes &w, bool junk, usec delay)
{
    UpResp *r = new_resp(c->s, w, junk);
    by_wire[w].push_back(r);
    trace("server%d (tcp) answers #u%d %s", c->s->idx, r->n, show(r->m).c_str());
    Bytes f;
    put16(f, (uint16_t)w.size());
    f += w;
    ev_in(delay, [c, f, r] {
        if (c->dead || c->p->we_closed || c->p->closed) return;
        c->last = now;
        r->delivered.push_back(now);
        oracle_upstream_delivered(r);
        peer_send(c->p, f);
    });
}
std::shared_ptr<TcpConn> tcp_upstream_open(Peer p, Server *s)
{
    auto c = std::make_shared<TcpConn>();
    c->p = p;
    c->s = s;
    c->last = now;
    if (++s->live_conns > s->peak_conns) s->peak_conns = s->live_conns;
    stat(ST_UPTCPCONN);
    p->on_data = [c](const Bytes &d) { tcp_upstream_data(c, d); };
    p->on_close = [c] { c->dead = true; c->s->live_conns--; };
    tcp_conn_idle(c);
    return c;
}
void tcp_upstream_data(std::shared_ptr<TcpConn> c, const Bytes &d)
{
    Server *s = c->s;
    c->last = now;
    c->rx += d;
    while (c->rx.size() >= 2) {
        size_t n = get16(c->rx, 0);
        if (c->rx.size() < 2 + n) break;
        Bytes m = c->rx.substr(2, n);
        c->rx.erase(0, 2 + n);
        oracle_upstream_query(s, m, c->p->id);
        s->nq++;
        s->q_times.push_back(now);
        Msg q = parse(m);
        if (!s->up) { fault(F_SERVERDOWN); continue; }
        if (!q.ok || q.qr() || q.qd != 1) continue;
        c->served++;
        if (ch_chance(S_UP, 50, s->rst)) { fault(F_RST); trace("server%d resets the connection", s->idx); c->dead = true; peer_rst(c->p, ch_range(S_UP, 51, 0, 2 * MS)); return; }
        if (ch_chance(S_UP, 52, s->close_before)) { fault(F_PEERCLOSE); trace("server%d closes instead of answering", s->idx); c->dead = true; peer_close(c->p, ch_range(S_UP, 51, 0, 2 * MS)); return; }
        if (ch_chance(S_UP, 0, s->drop)) { fault(F_UPLOSS); trace("server%d ignores the query", s->idx); continue; }
        usec delay = ch_range(S_UP, 1, s->dmin, s->dmax);
        if (ch_chance(S_UP, 14, s->junk)) {
            fault(F_MALFORMED);
            Bytes w = corrupt(make_answer(s, q), 15);
            tcp_reply(c, w, true, delay);
            continue;
        }
        tcp_reply(c, make_answer(s, q), false, delay);
        if (ch_chance(S_UP, 53, s->close_after)) {
            fault(F_PEERCLOSE);
            ev_in(delay + ch_range(S_UP, 54, 1, 20 * MS), [c] { if (!c->dead) { c->dead = true; trace("server%d closes after answering", c->s->idx); peer_close(c->p); } });
        }
    }
}

// ---- SOCKS5 proxies
struct Proxy { Addr a; bool up = true; int refuse = 0, fail = 0, silent = 0, badver = 0; usec dmin = 200, dmax = 2000; };
static std::map<Addr, Proxy *> proxies;
void proxy_behaviour(const Addr &a, bool up, int refuse, int fail, int silent)
{
    auto it = proxies.find(a);
    if (it == proxies.end()) return;
    Proxy *p = it->second;
    p->up = up; p->refuse = refuse; p->fail = fail; p->silent = silent;
}
static Server *tcp_server_at(const Addr &a) { for (Server *s : S.servers) if (s->tcp && s->a == a) return s; return nullptr; }
static void proxy_accept(Proxy *px, Peer p)
{
    struct St { Bytes rx; int phase = 0; std::shared_ptr<TcpConn> up; };
    auto st = std::make_shared<St>();
    p->on_close = [] {};
    p->on_data = [px0 = px, p0 = p, st0 = st](const Bytes &d) {
        Proxy *px = px0; // this closure is replaced while it runs
        Peer p = p0;
        auto st = st0;
        st->rx += d;
        while (true) {
            if (st->phase == 0) {
                if (st->rx.size() < 3) return;
                if (st->rx.compare(0, 3, Bytes("\5\1\0", 3))) oracle_violation("socks-greeting", "proxy received a malformed SOCKS5 greeting: " + hex(st->rx));
                st->rx.erase(0, 3);
                st->phase = 1;
                if (!px->up || ch_chance(S_UP, 60, px->silent)) { fault(F_PROXYERR); st->phase = 9; return; }
                if (ch_chance(S_UP, 61, px->fail)) { fault(F_PROXYERR); peer_send(p, Bytes("\5\xff", 2), 500); st->phase = 9; return; }
                peer_send(p, Bytes("\5\0", 2), ch_range(S_UP, 62, px->dmin, px->dmax));
            } else if (st->phase == 1) {
                if (st->rx.size() < 5) return;
                const unsigned char *b = (const unsigned char *)st->rx.data();
                if (b[0] != 5 || b[1] != 1 || b[2] != 0) oracle_violation("socks-request", "proxy received a malformed SOCKS5 request: " + hex(st->rx));
                Addr dst;
                size_t need;
                if (b[3] == 3) {
                    need = 5 + b[4] + 2;
                    if (st->rx.size() < need) return;
                    std::string host = st->rx.substr(5, b[4]);
                    while (!host.empty() && host.back() == 0) host.pop_back();
                    unsigned char tmp[16];
                    bool ok = false;
                    for (Server *s : S.servers) if (s->tcp && s->a.ipstr() == host && s->a.port == get16(st->rx, need - 2)) { dst = s->a; ok = true; }
                    if (!ok) oracle_violation("socks-target", "proxy asked to connect to '" + host + "' port " + std::to_string(get16(st->rx, need - 2)) + ", which is no configured server");
                    (void)tmp;
                } else if (b[3] == 1) {
                    need = 10;
                    if (st->rx.size() < need) return;
                    dst.fam = AF_INET; memcpy(dst.ip, b + 4, 4); dst.port = get16(st->rx, 8);
                } else if (b[3] == 4) {
                    need = 22;
                    if (st->rx.size() < need) return;
                    dst.fam = AF_INET6; memcpy(dst.ip, b + 4, 16); dst.port = get16(st->rx, 20);
                } else oracle_violation("socks-request", "proxy received an unknown SOCKS5 address type: " + hex(st->rx));
                st->rx.erase(0, need);
                stat(ST_SOCKS);
                Server *s = tcp_server_at(dst);
                if (!s) oracle_violation("socks-target", "proxy asked to connect to " + dst.str() + ", which is no configured server");
                oracle_socks_target(px->a, s);
                if (ch_chance(S_UP, 60, px->silent)) { fault(F_PROXYERR); st->phase = 9; return; }
                if (!s->up || ch_chance(S_UP, 61, px->fail)) { fault(F_PROXYERR); peer_send(p, Bytes("\5\5\0\1\0\0\0\0\0\0", 10), 500, false); st->phase = 9; return; }
                st->phase = 2;
                st->up = tcp_upstream_open(p, s); // takes over on_data/on_close
                // the bound address, in any of the forms the protocol has
                Bytes bound = Bytes("\5\0\0\1\12\0\0\2", 8);
                switch (ch_range(S_UP, 63, 0, 4)) {
                case 0: bound = Bytes("\5\0\0\3", 4) + Bytes(1, 14) + "proxy.internal"; break;
                case 1: bound = Bytes("\5\0\0\4", 4) + Bytes(15, '\0') + "\1"; break;
                case 2: { size_t n = 1 + (size_t)ch_range(S_UP, 64, 0, 254); bound = Bytes("\5\0\0\3", 4) + Bytes(1, (char)n) + Bytes(n, 'p'); break; }
                default: break;
                }
                put16(bound, 1080);
                peer_send(p, bound, ch_range(S_UP, 62, px->dmin, px->dmax));
                if (!st->rx.empty()) { Bytes r; r.swap(st->rx); tcp_upstream_data(st->up, r); }
                return;
            } else return;
        }
    };
}

void wire_servers()
{
    udp_unreach = [](const Addr &to) {
        for (Server *s : S.servers) if (!s->tcp && s->a == to) return ch_chance(S_UP, 74, s->unreach);
        return false;
    };
    for (Server *s : S.servers) {
        if (!s->tcp) actor_udp_bind(s->a, [s](const Addr &from, const Addr &, const Bytes &d) { server_udp(s, from, d); });
        else {
            ListenActor l;
            l.decide = [s](const Addr &, usec &delay) {
                delay = ch_range(S_UP, 70, 100, 1500);
                if (!s->up) { fault(F_SERVERDOWN); return s->idx % 3 == 2 ? CV_UNREACH : s->idx % 3 ? CV_REFUSE : CV_BLACKHOLE; }
                if (ch_chance(S_UP, 71, s->refuse)) { fault(F_REFUSED); return CV_REFUSE; }
                if (ch_chance(S_UP, 73, s->unreach)) return CV_UNREACH;
                if (ch_chance(S_UP, 72, s->blackhole)) { fault(F_BLACKHOLE); return CV_BLACKHOLE; }
                return CV_ACCEPT;
            };
            l.on_accept = [s](Peer p) { oracle_direct_tcp(s); tcp_upstream_open(p, s); };
            actor_tcp_listen(s->a, l);
        }
    }
    for (Group *g : all_groups)
        for (Addr &a : g->proxies)
            if (!proxies.count(a)) {
                Proxy *px = new Proxy;
                px->a = a;
                proxies[a] = px;
                ListenActor l;
                l.decide = [px](const Addr &, usec &delay) {
                    delay = ch_range(S_UP, 70, 100, 1500);
                    if (!px->up) { fault(F_PROXYERR); return CV_BLACKHOLE; }
                    if (ch_chance(S_UP, 71, px->refuse)) { fault(F_REFUSED); return ch_chance(S_UP, 73, 300000) ? CV_UNREACH : CV_REFUSE; }
                    return CV_ACCEPT;
                };
                l.on_accept = [px](Peer p) { proxy_accept(px, p); };
                actor_tcp_listen(a, l);
            }
}

// ---------------------------------------------------------------- configuration
std::string HostRule::line() const
{
    switch (type) {
    case A: case AAAA: { Addr a; a.fam = type == A ? AF_INET : AF_INET6; memcpy(a.ip, ip.data(), ip.size()); return a.ipstr() + " " + pattern; }
    case CNAME: return target + " " + pattern;
    case EXCL: return "@@ " + pattern;
    default: return "<" + target + "> " + pattern;
    }
}
static std::string ipstr(const Bytes &b) { Addr a; a.fam = b.size() == 4 ? AF_INET : AF_INET6; memcpy(a.ip, b.data(), b.size()); return a.ipstr(); }
static std::string join(const std::vector<std::string> &v, const char *sep)
{
    std::string r;
    for (auto &s : v) { if (!r.empty()) r += sep; r += s; }
    return r;
}
static std::string addrlist(const std::vector<Server *> &v)
{
    std::vector<std::string> p;
    for (Server *s : v) p.push_back(s->a.port == 53 ? (s->a.fam == AF_INET6 ? "[" + s->a.ipstr() + "]" : s->a.ipstr()) : s->a.str());
    return join(p, ",");
}
static std::string proxylist(const Group *g)
{
    if (g->proxies.empty()) return "no";
    std::vector<std::string> p;
    for (auto &a : g->proxies) p.push_back(a.str());
    return join(p, ",");
}
std::string group_file(const Group *g)
{
    std::string r = std::string("PROTOCOL ") + (g->tcp ? "TCP" : "UDP") + "\nSERVER " + addrlist(g->servers) + "\nPARALLEL " + (g->parallel ? "ON" : "OFF") + "\n";
    if (g->tcp) r += "PROXY " + proxylist(g) + "\n";
    if (!g->list.empty()) r += "LIST " + g->list + "\n";
    for (size_t i = 0; i < g->domains.size(); i++) if (g->list.empty() || i % 2 == 0) r += g->domains[i] + "\n";
    return r;
}
static std::string group_list(const Group *g)
{
    std::string r;
    for (size_t i = 1; i < g->domains.size(); i += 2) r += g->domains[i] + "\n";
    return r;
}
std::string build_config()
{
    std::string c;
    auto line = [&](const std::string &l) { c += l + "\n"; };
    auto b = [](bool v) { return v ? std::string("true") : std::string("false"); };
    std::vector<std::string> l;
    for (auto &a : S.udp_local) l.push_back(a.str());
    line("UDPLocal " + join(l, ","));
    l.clear();
    for (auto &a : S.tcp_local) l.push_back(a.str());
    if (!l.empty()) line("TCPLocal " + join(l, ","));
    std::set<std::string> files;
    for (Group *g : S.groups) {
        if (!g->file.empty()) { if (files.insert(g->file).second) line("GroupFile " + g->file); continue; }
        if (g->tcp) line("TCPGroup " + addrlist(g->servers) + " " + join(g->domains, ",") + " " + (g->parallel ? "on" : "off") + " " + proxylist(g));
        else line("UDPGroup " + addrlist(g->servers) + " " + join(g->domains, ",") + " " + (g->parallel ? "on" : "off"));
    }
    line("EnableUDPtoTCP " + b(S.udp2tcp));
    line("EnableTCPtoUDP " + b(S.tcp2udp));
    line("TCPKeepAlive " + std::to_string(S.keepalive));
    line("UseCache " + b(S.cache));
    if (S.cache) {
        line("CacheSize " + std::to_string(S.cache_size));
        line("MemoryCache " + b(S.mem_cache));
        line("CacheFile /var/df/cache");
        line("CacheParallel " + b(S.cache_parallel));
        line("IgnoreTTL " + b(S.ignore_ttl));
        line("OverrideTTL " + std::to_string(S.override_ttl));
        line("MultipleTTL " + std::to_string(S.multiple_ttl));
        line("ReloadCache " + b(S.reload_cache));
        line("OverwriteCache " + b(S.overwrite_cache));
        for (auto &x : S.cache_control) line("CacheControl " + x);
    }
    if (!S.disabled_types.empty()) {
        std::vector<std::string> t;
        for (int x : S.disabled_types) t.push_back(std::to_string(x));
        line("DisabledType " + join(t, ","));
    }
    if (!S.disabled_domains.empty()) line("DisabledDomain " + join(S.disabled_domains, ","));
    if (!S.disabled_list.empty()) line("DisabledList " + S.disabled_list);
    for (auto &h : S.hosts) line("AppendHosts " + h.line());
    for (auto &u : S.host_urls) line("Hosts " + u);
    if (!S.host_urls.empty()) {
        line("HostsDownloadPath /var/df/hosts.txt");
        if (!S.hosts_script.empty()) line("HostsScript " + S.hosts_script);
    }
    line("HostsRetryInterval " + std::to_string(S.retry_interval));
    line("ModulesUpdateInterval " + std::to_string(S.update_interval));
    line("BlockIpv6WhenIpv4Exists " + b(S.block_v6));
    line("AP " + b(S.ap));
    bool nb = false, ns = false;
    for (auto &n : S.nets) (n.to.empty() ? nb : ns) = true;
    auto range = [](const Net &n) { return ipstr(n.ip) + "/" + std::to_string(n.bits); };
    if (!S.block_ip.empty() || nb) {
        std::vector<std::string> t;
        for (auto &x : S.block_ip) t.push_back(ipstr(x));
        for (auto &n : S.nets) if (n.to.empty()) t.push_back(range(n));
        line("BlockIP " + join(t, ","));
    }
    line("BlockNegativeResponse " + b(S.block_negative));
    if (!S.subst.empty() || ns) {
        std::string r = "IPSubstituting";
        bool first = true;
        for (auto &n : S.nets) if (!n.to.empty()) { r += (first ? " " : ",") + range(n) + " " + ipstr(n.to); first = false; }
        for (auto &p : S.subst) { r += (first ? " " : ",") + ipstr(p.first) + " " + ipstr(p.second); first = false; }
        line(r);
    }
    if (!S.subst_file.empty()) line("IPSubstitutingFile " + S.subst_file);
    for (auto &g : S.goodip) {
        line("GoodIPList " + g.first + " " + std::to_string(g.second.first));
        for (auto &ip : g.second.second) line("GoodIPListAddIP " + g.first + " " + ipstr(ip) + ":80");
    }
    line("DomainStatistic " + b(S.stats));
    if (S.stats) {
        line("DomainStatisticTempletFile /etc/df/template.html");
        line("StatisticUpdateInterval " + std::to_string(S.stat_interval));
    }
    line("LogOn " + b(S.log));
    if (S.log) { line("LogFileThresholdLength " + std::to_string(S.log_threshold)); line("LogFileFolder /var/log/df"); }
    c += S.conf_extra;
    return c;
}

std::string subst_file_text(const ConfVer &v)
{
    std::string r;
    for (auto &n : v.nets) r += ipstr(n.ip) + "/" + std::to_string(n.bits) + (n.bits % 2 ? " " : "\t") + ipstr(n.to) + "\n";
    for (auto &p : v.subst) if (!S.subst.count(p.first)) r += ipstr(p.first) + " " + ipstr(p.second) + "\n";
    return r;
}
std::string hosts_text(const std::vector<HostRule> &v)
{
    std::string r = "# hosts\n";
    for (auto &h : v) r += h.line() + "\n";
    return r;
}

void conf_files(const ConfVer &v)
{
    if (!S.disabled_list.empty()) {
        std::string t;
        for (auto &d : v.disabled) t += d + "\n";
        vfs_put(S.disabled_list, t);
    }
    for (Group *g : v.groups) if (!g->file.empty()) { vfs_put(g->file, group_file(g)); if (!g->list.empty()) vfs_put(g->list, group_list(g)); }
    if (!S.subst_file.empty()) vfs_put(S.subst_file, subst_file_text(v));
    for (auto &f : v.raw) vfs_put(f.first, f.second);
}
// Puts a new configuration version in place on disk; the program picks it up at its next update.
void conf_commit(ConfVer *v)
{
    v->n = (int)confs.size();
    v->from = now;
    confs.push_back(v);
    conf_files(*v);
    trace("configuration version %d on disk", v->n);
}

// ---------------------------------------------------------------- life cycle
void run_for(usec d)
{
    crash_stop = false;
    run_world(now + d, [] { return crash_now || prog_exited; });
    if (crash_now) crash_stop = true;
    if (prog_exited) violate("exit", "the program ended by itself (exit code %d)", prog_exit_code);
}

static void await_start(bool must)
{
    usec t0 = now;
    usec stalled0 = stalled_time, till = now;
    do { // time in which threads were made to stand still does not count
        till = t0 + 60 * SEC + (stalled_time - stalled0);
        run_world(till, [] { return prog_main_done || prog_exited || crash_now; });
    } while (!prog_main_done && !prog_exited && !crash_now && now < t0 + 60 * SEC + (stalled_time - stalled0) && now < t0 + 3600 * SEC);
    if (crash_now) { crash_stop = true; return; }
    if (prog_exited) { if (must) violate("start-failed", "the program exited during start-up with code %d", prog_exit_code); return; }
    if (!prog_main_done) violate("start-failed", "the program did not finish its start-up within 60 s");
    for (auto &a : S.udp_local) if (!net_prog_udp_bound(a) && must) violate("start-failed", "the program does not listen on %s", a.str().c_str());
    ready_at = now + 50 * MS;
    trace("program started in %lld us", (long long)(now - t0));
}

void world_start()
{
    vfs_put("/etc/df/config", build_config());
    if (S.stats) vfs_put("/etc/df/template.html", "<html><body><!-- INSERT HERE --></body></html>\n");
    trace("configuration:\n%s", build_config().c_str());
    tap_prog_send = [](const Addr &from, const Addr &to, const Bytes &d) {
        auto it = udp_clients.find(to);
        if (it != udp_clients.end()) { client_rx(it->second, d, from); return; }
        for (Server *s : S.servers) if (!s->tcp && s->a == to) { oracle_upstream_query(s, d, 0); return; }
        oracle_violation("stray-packet", "the program sent a packet to " + to.str() + ", which is neither a client nor a configured server: " + hex(d));
    };
    tap_prog_recv = [](const Addr &from, const Addr &to, const Bytes &d) {
        auto it = udp_clients.find(from);
        if (it != udp_clients.end()) {
            for (Query *q : it->second->qs)
                if (q->wire == d && q->to == to) {
                    // attribute to the first transmission that has the fewest arrivals
                    Query *best = q;
                    for (Query *r : it->second->qs) if (r->wire == d && r->to == to && r->arrivals.size() < best->arrivals.size()) best = r;
                    best->arrivals.push_back(now);
                    oracle_query_arrival(best, now);
                    return;
                }
            return;
        }
        upstream_delivered(d, from, false);
    };
    life = 1;
    prog_snapshot();
    prog_start({"dnsforwarder", "-f", "/etc/df/config", S.debug ? "-D" : "-q"});
    await_start(true);
}

void world_restart()
{
    prog_died();
    vfs_put("/etc/df/config", build_config());
    prog_restart_data();
    life++;
    oracle_new_life();
    trace("program restarted, life %d", life);
    prog_start({"dnsforwarder", "-f", "/etc/df/config", S.debug ? "-D" : "-q"});
    await_start(true);
}

void calm_all()
{
    net_calm();
    sys_calm();
    sched_calm();
    for (Server *s : S.servers) {
        s->drop = s->dup = s->junk = s->spoof = 0;
        s->edns_ok = true;
        s->refuse = s->blackhole = s->unreach = s->rst = s->close_after = s->close_before = 0;
        if (!s->up) { s->up = true; s->since = now; }
        s->dmin = 300; s->dmax = 1000;
    }
    for (auto &p : proxies) { p.second->up = true; p.second->refuse = p.second->fail = p.second->silent = 0; }
    trace("---- faults stop here ----");
}

usec tcp_cost()
{
    usec c = 0;
    for (Group *g : all_groups)
        if (g->tcp) // a parallel group waits up to five seconds for each connection that is not established
            c = std::max<usec>(c, 100 * MS + (usec)g->servers.size() * (200 + 100 * (usec)g->proxies.size()) * MS + (S.tcp_dead && g->parallel ? (usec)(g->servers.size() - 1) * 10 * SEC : 0));
    return c;
}
