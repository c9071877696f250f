// Scenarios: one workload and fault profile per property.
#include "oracle.h"
#include <algorithm>
#include <unistd.h>

#define CFG(lo, hi) ch_range(S_CFG, __LINE__, lo, hi)
#define CFGP(ppm) ch_chance(S_CFG, __LINE__, ppm)

extern void proxy_behaviour(const Addr &a, bool up, int refuse, int fail, int silent);
extern std::string group_file(const Group *g);
extern std::string subst_file_text(const ConfVer &v);
extern std::string hosts_text(const std::vector<HostRule> &v);

// what the profile of a property switches on
struct Prof {
    bool udp = true, tcp = false;          // client transports
    bool v6 = false;
    bool udp_groups = true, tcp_groups = false, proxies = false;
    bool cache = false;
    bool net_faults = true, up_faults = true, srv_down = true;
    bool tcp_faults = false;               // segmentation, resets, slow peers
    bool senderr = false, sockerr = false, allocs = false;
    bool malformed_clients = false, malformed_servers = false;
    bool clock = false;
    int strict_ppm = 400000;               // share of runs without any fault
    bool sched = true;
    int nops_lo = 20, nops_hi = 60;
    bool tcp_slow = false;
    bool long_gaps = false;
    bool reload = false, dyn_hosts = false;
    bool crash = false;
    int zones = 4;
    int slow_servers = 0; // how many ms a UDP server may take
};
static Prof P;
static ConfVer *base_conf;
static int opno = 0;
static std::vector<Addr> probe_from;
static std::vector<Client *> tcp_open;
static int tcp_ports = 20000;
static int64_t fds_base = -1;

static Addr client_addr(int i, bool v6)
{
    char b[64];
    if (v6) snprintf(b, sizeof b, "fd00::%x", 0x50 + i);
    else snprintf(b, sizeof b, "10.0.0.%d", 50 + i);
    return mkaddr(b, 30000 + i * 7);
}

// ---------------------------------------------------------------- swarm knobs
static void draw_sched()
{
    if (!P.sched) return;
    switch (CFG(0, 4)) {
    case 0: break;
    case 1: knobs.policy = 1; knobs.sys_switch_ppm = 100000; break;
    case 2: knobs.policy = 1; knobs.sys_switch_ppm = 300000; knobs.gap_log2 = (int)CFG(6, 12); break;
    case 3: knobs.policy = 2; knobs.sys_switch_ppm = 200000; knobs.gap_log2 = (int)CFG(8, 14); break;
    case 4: knobs.policy = 1; knobs.sys_switch_ppm = 200000; knobs.gap_log2 = (int)CFG(5, 9); break;
    }
}
static void stall_sites(int max_ms)
{
    if (CFGP(600000)) knobs.site_mod = 1 << CFG(7, 14);
    if (CFGP(500000)) knobs.lock_ppm = 1 << CFG(7, 17);
    knobs.site_skip = (int)CFG(0, 8);
    knobs.site_max = (int)CFG(1, 30);
    if (!knobs.stall_max) knobs.stall_max = CFG(1, max_ms) * MS;
}
static void draw_faults()
{
    if (S.no_faults) {
        // benign variation only
        net.jitter = CFG(0, 3) * MS;
        if (P.tcp_faults && CFGP(500000)) { net.seg_ppm = (int)CFG(0, 1000000); net.seg_gap = CFG(0, 30) * MS; }
        if (P.tcp_groups && CFGP(300000)) net.short_ppm = (int)CFG(0, 700000);
        // servers may take their time
        if (P.slow_servers) for (Server *s : S.servers) if (!s->tcp && CFGP(300000)) { s->dmin = CFG(0, P.slow_servers - 100) * MS; s->dmax = s->dmin + CFG(0, P.slow_servers * MS - s->dmin); }
        return;
    }
    if (P.net_faults) {
        if (CFGP(500000)) net.loss_ppm = (int)CFG(0, 250000);
        if (CFGP(500000)) net.dup_ppm = (int)CFG(0, 250000);
        if (CFGP(500000)) { net.delay_ppm = (int)CFG(0, 300000); net.big_delay = CFG(1, 4000) * MS; }
        net.jitter = CFG(0, 20) * MS;
        if (CFGP(150000)) net.queue_cap = (int)CFG(1, 8);
    }
    if (P.sched && CFGP(300000)) { knobs.stall_ppm = (int)CFG(0, 3000); knobs.stall_max = CFG(1, 3000) * MS; }
    if (P.sched && CFGP(400000)) stall_sites(3000);
    if (P.up_faults)
        for (Server *s : S.servers) {
            if (CFGP(400000)) s->drop = (int)CFG(0, 400000);
            if (CFGP(300000)) s->dup = (int)CFG(0, 300000);
            if (!s->tcp && CFGP(150000)) s->unreach = (int)CFG(0, 300000);
            if (CFGP(300000)) s->spoof = (int)CFG(0, 300000);
            if (CFGP(300000)) { s->dmin = CFG(0, 1000) * MS; s->dmax = s->dmin + CFG(0, 3000) * MS; }
        }
    if (P.malformed_servers)
        for (Server *s : S.servers) if (CFGP(700000)) s->junk = (int)CFG(0, 500000);
    if (P.tcp_groups && CFGP(300000)) net.short_ppm = (int)CFG(0, 700000);
    if (P.tcp_faults) {
        if (CFGP(600000)) { net.seg_ppm = (int)CFG(0, 1000000); net.seg_gap = CFG(0, 400) * MS; }
        for (Server *s : S.servers)
            if (s->tcp) {
                if (CFGP(400000)) s->refuse = (int)CFG(0, 300000);
                if (CFGP(300000)) s->blackhole = (int)CFG(0, 300000);
                if (CFGP(200000)) s->unreach = (int)CFG(0, 300000);
                if (CFGP(400000)) s->rst = (int)CFG(0, 200000);
                if (CFGP(400000)) s->close_before = (int)CFG(0, 300000);
            }
    }
    if (P.senderr) net.senderr_ppm = (int)CFG(0, 200000);
    if (P.sockerr) net.sockerr_ppm = (int)CFG(0, 200000);
    if (P.allocs) { sysk.alloc_ppm = (int)CFG(0, 20000); sysk.alloc_burst = CFGP(300000); }
}
static void draw_tcp_servers()
{
    for (Server *s : S.servers)
        if (s->tcp) {
            // legitimate server behaviour
            if (CFGP(400000)) s->idle_close_ms = (int)CFG(1500, 8000); // a fresh connection is used within half a second
            if (CFGP(300000)) s->close_after = (int)CFG(100000, 1000000);
        }
}

// ---------------------------------------------------------------- topology
static int nserver = 0;
static Server *mk_server(bool tcp, bool v6 = false)
{
    char b[64];
    nserver++;
    if (v6) snprintf(b, sizeof b, "fd00:9::%x", nserver);
    else snprintf(b, sizeof b, "192.0.2.%d", nserver);
    return add_server(b, ch_chance(S_CFG, 9000 + nserver, 200000) ? 5300 + nserver : 53, tcp);
}
static Group *mk_group(bool tcp, std::vector<std::string> domains, int maxsrv)
{
    int n = (int)CFG(1, maxsrv);
    bool v6 = P.v6 && CFGP(300000);
    std::vector<Server *> v;
    for (int i = 0; i < n; i++) v.push_back(mk_server(tcp, v6 && (!tcp || CFGP(600000)))); // (a UDP group keeps to one family)
    return add_group(tcp, v, domains, CFGP(400000));
}
static void simple_topology()
{
    S.udp_local = {mkaddr("10.0.0.1", 53)};
    if (P.v6 && CFGP(400000)) S.udp_local.push_back(mkaddr("fd00::1", 53));
    if (P.tcp) {
        S.tcp_local = {mkaddr("10.0.0.1", 53)};
        if (P.v6 && CFGP(300000)) S.tcp_local.push_back(mkaddr("fd00::1", 53));
    }
    S.zones = P.zones;
    if (P.udp_groups) mk_group(false, {"*"}, 3);
    if (P.tcp_groups) mk_group(true, {"*"}, 3);
    if (P.udp_groups && !P.tcp_groups && P.tcp) S.tcp2udp = true;
    if (!P.udp_groups && P.tcp_groups && P.udp) S.udp2tcp = true;
    if (P.udp_groups && P.tcp_groups) { S.tcp2udp = CFGP(300000); S.udp2tcp = CFGP(300000); }
    S.keepalive = (int)CFG(0, 6);
}
static void base_version()
{
    base_conf = new ConfVer;
    base_conf->from = 0;
    base_conf->sure = 0;
    base_conf->groups = S.groups;
    base_conf->subst = S.subst;
    confs.push_back(base_conf);
}
// Lists as long as they are in practice: this many more entries, which are asked for, too.
static int many = 0;
static std::string filler(int i) { return "a" + std::to_string(1000 + i) + ".fill.test"; }
static void draw_many(int ppm)
{
    if (!CFGP(ppm)) return;
    many = CFGP(500000) ? (int)CFG(20, 120) : (int)CFG(20, 500);
    for (int i = 0; i < many + many / 4; i++) S.extra_names.push_back(filler(i));
    S.extra_ppm = 250000;
}
static void add_many(std::vector<std::string> &v) // in any order, some left out
{
    if (!many) return;
    std::vector<std::string> r;
    size_t at = 0, step = v.empty() ? 0 : (size_t)many / v.size() + 1;
    int from = (int)CFG(0, many / 2);
    for (int i = 0; i < many; i++) {
        if (step && i % (int)step == 0 && at < v.size()) r.push_back(v[at++]);
        r.push_back(filler((from + i * 7) % (many + many / 4)));
    }
    while (at < v.size()) r.push_back(v[at++]);
    v = r;
}
static void mk_clients(int n)
{
    for (int i = 0; i < n; i++) {
        bool v6 = S.udp_local.size() > 1 && i % 2;
        add_udp_client(client_addr(i, v6));
    }
}
static Addr local_for(const Client *c)
{
    for (auto &a : c->tcp ? S.tcp_local : S.udp_local) if (a.fam == c->a.fam) return a;
    return S.udp_local[0];
}
static std::vector<Client *> udp_clients_list()
{
    std::vector<Client *> r;
    for (Client *c : S.clients) if (!c->tcp) r.push_back(c);
    return r;
}

// ---------------------------------------------------------------- operations
static int pick_type(uint32_t key)
{
    static const std::vector<int> def{T_A, T_AAAA, T_TXT, T_MX, T_HTTPS, T_PTR, T_NS, T_CNAME, T_SRV, T_SOA, T_ANY};
    const std::vector<int> &v = S.qtypes.empty() ? def : S.qtypes;
    if (S.qtypes.empty() && ch_chance(S_OP, key, 400000)) return T_A;
    return v[ch_pick(S_OP, key, (int)v.size())];
}
static Query *op_query(Client *c, uint32_t key)
{
    std::string n = pick_name(key);
    if (S.root_ppm && ch_chance(S_OP, key + 4, S.root_ppm)) n = "";
    int t = pick_type(key + 5);
    return send_query(c, local_for(c), n, t, ch_chance(S_OP, key + 6, S.edns_ppm), fresh_id(key + 7));
}
static Client *some_tcp(uint32_t key)
{
    std::vector<Client *> l;
    for (Client *c : tcp_open) if (!c->gone && !c->failed && !c->halfway && !c->malformed_sent) l.push_back(c);
    if (l.empty() || (l.size() < 5 && ch_chance(S_OP, key, 300000))) {
        int i = (int)ch_range(S_OP, key + 1, 0, 5);
        bool v6 = S.tcp_local.size() > 1 && i % 2;
        Addr a = client_addr(i, v6);
        a.port = (uint16_t)(tcp_ports++);
        Client *c = tcp_client_open(a, S.tcp_local[v6 ? 1 : 0]);
        tcp_open.push_back(c);
        return c;
    }
    return l[ch_pick(S_OP, key + 2, (int)l.size())];
}
static Bytes mangle_query(uint32_t key)
{
    Bytes w = make_query((uint16_t)ch_range(S_OP, key, 0, 65535), pick_name(key + 1), (uint16_t)pick_type(key + 2), ch_chance(S_OP, key + 3, 300000));
    auto rnd = [&](int64_t n) { return (size_t)ch_range(S_OP, key + 4, 0, n - 1); };
    switch (ch_range(S_OP, key + 5, 0, 14)) {
    case 0: return w.substr(0, rnd((int64_t)w.size()));
    case 1: w[12 + rnd((int64_t)w.size() - 12)] = (char)rnd(256); return w;
    case 2: w[2 + rnd(10)] = (char)rnd(256); return w;
    case 3: { Bytes r = w.substr(0, 12); put16(r, 0xc00c); put32(r, 0x00010001); return r; }            // name points to itself
    case 4: { Bytes r = w.substr(0, 12); put16(r, 0xc00e); put16(r, 0xc00c); put32(r, 0x00010001); return r; } // loop of two
    case 5: { Bytes r = w.substr(0, 12); for (int i = 0; i < 20; i++) { r += (char)60; for (int j = 0; j < 60; j++) r += 'q'; } r += '\0'; put32(r, 0x00010001); return r; } // name too long
    case 6: { Bytes r; size_t n = rnd(rnd(10) ? 1500 : 6000); for (size_t i = 0; i < n; i++) r += (char)rnd(256); return r; }
    case 7: w[5] = (char)(2 + rnd(200)); return w;                        // several questions
    case 8: w[5] = 0; return w;                                           // no question
    case 9: w[w.size() > 3 ? w.size() - 1 : 0] = 3; return w;             // class / trailing byte
    case 10: { Bytes r = w; size_t n = 1 + rnd(1400); for (size_t i = 0; i < n; i++) r += (char)rnd(256); return r; } // trailing junk
    case 11: w[2] |= (char)0x80; return w;                                // a response
    case 12: { Bytes r = w.substr(0, 12); r += (char)63; r += Bytes(rnd(63), 'z'); return r; } // label past the end
    case 13: { Bytes r = w.substr(0, 12); r += '\0'; put32(r, 0x00010003); return r; } // root, class CH
    default: { // a query that carries records already
        Builder b((uint16_t)rnd(65536), 0x0100);
        std::string n = pick_name(key + 1);
        b.question(n, T_A, 1);
        size_t section = 1 + rnd(3), total = rnd(6000);
        while (b.b.size() + 60 < total) b.rr((int)section, n, T_A, 60, Bytes("\x01\x02\x03\x04", 4));
        b.rr((int)section, n, T_TXT, 60, Bytes("\3abc", 4));
        return b.b;
    }
    }
}
static usec draw_gap(uint32_t key)
{
    switch (ch_range(S_OP, key, 0, P.long_gaps ? 11 : 7)) {
    case 0: case 1: case 2: return ch_range(S_OP, key + 1, 0, 2000);
    case 3: case 4: case 5: return ch_range(S_OP, key + 1, 0, 300) * MS;
    case 6: return ch_range(S_OP, key + 1, 0, 1500) * MS;
    case 7: return ch_range(S_OP, key + 1, 0, 4000) * MS;
    case 8: case 9: return ch_range(S_OP, key + 1, 1, 20) * SEC;
    default: return ch_range(S_OP, key + 1, 1, 130) * SEC;
    }
}

// Many queries while the program is reading its files again; called from an update.
static int reload_burst_ppm;
static void reload_burst()
{
    static uint32_t no;
    if (after_calm || !reload_burst_ppm || S.udp_local.empty() || (S.no_faults && tcp_cost())) return;
    uint32_t k = 400000000 + no++ * 16;
    if (!ch_chance(S_OP, k, reload_burst_ppm)) return;
    int n = (int)ch_range(S_OP, k + 1, 5, 40), at_life = life;
    usec spread = ch_chance(S_OP, k + 2, 500000) ? 500 : 20 * MS;
    for (int i = 0; i < n; i++) ev_in(ch_range(S_OP, k + 3, 0, spread), [k, at_life] {
        if (after_calm || life != at_life || crash_now) return;
        std::vector<Client *> uc = udp_clients_list();
        op_query(uc[ch_pick(S_OP, k + 4, (int)uc.size())], k + 5);
    });
}

static void workload(int nops, std::function<bool(uint32_t)> special = nullptr)
{
    std::vector<Client *> uc = udp_clients_list();
    // without faults every query has to be answered in time: do not ask a
    // TCP group more than it can serve
    const usec pace = S.no_faults ? tcp_cost() * 3 / 2 : 0;
    size_t before = queries.size();
    for (int i = 0; i < nops && !crash_stop; i++) {
        uint32_t k = 1000 + (opno++) * 32;
        usec gap = draw_gap(k);
        gap = std::max<usec>(gap, pace * (usec)(queries.size() - before));
        before = queries.size();
        if (gap) run_for(gap);
        if (crash_stop) return;
        if (S.cache && P.long_gaps && ch_chance(S_OP, k + 14, 30000)) {
            // many queries while expired records are being removed, which happens every 59 s
            usec t = life_start + (now - life_start) / (59 * SEC) * 59 * SEC + 59 * SEC;
            run_for(std::max<usec>(t - now - net.base - ch_range(S_OP, k + 15, 0, ch_chance(S_OP, k + 15, 500000) ? 3000 : 200), 0));
            int n = (int)ch_range(S_OP, k + 15, 5, 40);
            if (S.no_faults && usec(n) * tcp_cost() > 2 * SEC) n = 1;
            for (int j = 0; j < n && !crash_stop; j++) { op_query(uc[ch_pick(S_OP, k + 15, (int)uc.size())], k + 16); run_for(ch_range(S_OP, k + 15, 0, ch_chance(S_OP, k + 15, 500000) ? 300 : 20)); }
            continue;
        }
        if (!ch_chance(S_OP, k + 2, 950000)) continue;
        if (special && special(k + 16)) continue;
        if (!S.no_faults && P.srv_down && ch_chance(S_OP, k + 3, 40000)) {
            Server *s = S.servers[ch_pick(S_OP, k + 4, (int)S.servers.size())];
            s->up = !s->up;
            s->since = now;
            trace("server%d is now %s", s->idx, s->up ? "up" : "down");
            if (!s->up) fault(F_PARTITION);
            continue;
        }
        if (!S.no_faults && P.clock && ch_chance(S_OP, k + 3, 40000)) { clock_jump(ch_range(S_OP, k + 4, -30, 30) * SEC); fault(F_CLOCKJUMP); continue; }
        bool tcp = P.tcp && (!P.udp || ch_chance(S_OP, k + 5, 500000));
        if (P.malformed_clients && ch_chance(S_OP, k + 6, 300000)) {
            Bytes w = mangle_query(k + 7);
            Client *c;
            if (tcp) {
                c = some_tcp(k + 8);
                c->malformed_sent = true;
                if (ch_chance(S_OP, k + 9, 300000)) { // bad framing
                    Bytes f;
                    put16(f, (uint16_t)ch_range(S_OP, k + 10, 0, 65535));
                    f += w;
                    Query *q = send_wire(c, S.tcp_local[0], w, true);
                    (void)q;
                    peer_send(c->peer, f);
                    continue;
                }
            } else c = uc[ch_pick(S_OP, k + 8, (int)uc.size())];
            send_wire(c, local_for(c), w, true);
            continue;
        }
        if (tcp) {
            Client *c = some_tcp(k + 8);
            int n = 1 + (ch_chance(S_OP, k + 11, 300000) ? (int)ch_range(S_OP, k + 12, 1, 4) : 0);
            for (int j = 0; j < n; j++) op_query(c, k + 16 + j);
            if (ch_chance(S_OP, k + 13, 100000) && !S.no_faults) {
                // the client goes away, perhaps before the answers arrive
                fault(F_CLIENTGONE);
                c->gone = true;
                usec d = ch_range(S_OP, k + 14, 0, 2000) * 10;
                if (ch_chance(S_OP, k + 15, 500000)) peer_rst(c->peer, d); else peer_close(c->peer, d);
            }
            continue;
        }
        Client *c = uc[ch_pick(S_OP, k + 8, (int)uc.size())];
        if (S.retx_ppm && ch_chance(S_OP, k + 9, S.retx_ppm)) {
            // retransmission of an earlier query, or the same question from somebody else
            std::vector<Query *> l;
            for (Query *q : queries) if (!q->c->tcp && !q->malformed && now - q->t_sent < 15 * SEC && q->life == life) l.push_back(q);
            if (!l.empty()) {
                Query *q = l[ch_pick(S_OP, k + 10, (int)l.size())];
                Client *to = ch_chance(S_OP, k + 11, 500000) ? q->c : c;
                if (to->a.fam == q->to.fam) { send_wire(to, q->to, q->wire, false); continue; }
            }
        }
        int n = 1;
        if (S.burst_ppm && ch_chance(S_OP, k + 12, S.burst_ppm)) n = (int)ch_range(S_OP, k + 13, 2, 24);
        for (int j = 0; j < n; j++) op_query(uc[ch_pick(S_OP, k + 14, (int)uc.size())], k + 16 + (j % 8));
    }
}

// ---------------------------------------------------------------- final probes
// Once faults have stopped, every listening address and every zone must be
// answered again within a bounded time (retrying like a resolver does).
static void probe(bool tcp, const Addr &local, const std::string &zone, int type)
{
    static int pn = 0;
    Client *c = nullptr;
    usec t0 = now;
    for (int round = 0; round < S.probe_rounds; round++) {
        pn++;
        Addr a = client_addr(60 + pn % 100, local.fam == AF_INET6);
        a.port = (uint16_t)(50000 + pn);
        std::string name = "ap" + std::to_string(pn) + "." + zone;
        Query *q;
        if (tcp) {
            c = tcp_client_open(a, local);
            q = send_query(c, local, name, type, S.ap, 4000 + pn, false);
        } else {
            c = add_udp_client(a);
            q = send_query(c, local, name, type, S.ap, 4000 + pn, false);
        }
        q->final_probe = true;
        stat(ST_PROBES);
        usec end = now + S.probe_wait;
        run_world(end, [q] { return crash_now || prog_exited || !q->answers.empty(); });
        if (prog_exited) violate("exit", "the program ended by itself (exit code %d)", prog_exit_code);
        bool ok = !q->answers.empty();
        if (tcp) { c->gone = true; peer_close(c->peer); }
        if (ok) return;
    }
    violate("no-progress", "%s, %d %s queries for names under %s at %s went unanswered for %lld ms", after_calm ? "after all faults stopped" : "although one server of the group works", S.probe_rounds, tcp ? "TCP" : "UDP", zone.c_str(), local.str().c_str(), (long long)((now - t0) / 1000));
}
void final_probes()
{
    for (auto &l : S.udp_local) for (int z = 0; z < S.zones; z++) if (!oracle_circular("ap1." + zone_name(z))) probe(false, l, zone_name(z), T_A);
    for (auto &l : S.tcp_local) for (int z = 0; z < S.zones; z++) if (!oracle_circular("ap1." + zone_name(z))) probe(true, l, zone_name(z), T_A);
}
static void finish()
{
    calm_all();
    after_calm = true;
    // a TCP group serves its backlog one query at a time
    usec backlog = 0;
    if (tcp_cost()) for (Query *q : queries) if (q->life == life && q->answers.size() < q->arrivals.size()) backlog += tcp_cost();
    run_for(S.settle + backlog * 5 / 4);
    final_probes();
    run_for(1 * SEC);
    end_checks();
}

// ---------------------------------------------------------------- profiles
static void begin(std::function<void()> tweak = nullptr)
{
    if (!base_conf) base_version();
    conf_files(*base_conf);
    draw_sched();
    draw_faults();
    if (P.tcp_groups) draw_tcp_servers();
    wire_servers();
    if (tweak) tweak();
    world_start();
    run_for(100 * MS);
}
static void strict_draw() { S.no_faults = CFGP(P.strict_ppm); }
static Bytes ip4(int a, int b, int c, int d) { Bytes r; r += (char)a; r += (char)b; r += (char)c; r += (char)d; return r; }
static Bytes ip6(int n) { Bytes r = rd_aaaa(0x20010db8000000ffull, (uint64_t)n); return r; }

static void p_asker()
{
    P.tcp = CFGP(400000);
    P.tcp_groups = CFGP(300000);
    P.v6 = true;
    strict_draw();
    P.slow_servers = CFGP(300000) ? 900 : 0; // (the same question is asked again with the same ID while the first waits: one of the two contexts is then 2 s old)
    simple_topology();
    S.labels = (int)CFG(1, 4);
    S.zones = (int)CFG(1, 3);
    S.qtypes = {T_A, T_AAAA};
    S.kinds = 1 | 2 | 4;
    S.collide_ppm = (int)CFG(300000, 1000000);
    S.retx_ppm = 200000;
    S.burst_ppm = 300000;
    S.edns_ppm = (int)CFG(0, 500000);
    mk_clients((int)CFG(2, 6));
    begin();
    workload((int)CFG(20, 60));
    finish();
}

static void p_relay()
{
    P.tcp = CFGP(300000);
    P.tcp_groups = CFGP(400000);
    P.tcp_faults = true;
    P.v6 = true;
    S.huge_ppm = CFGP(400000) ? 300000 : 0;
    strict_draw();
    P.slow_servers = CFGP(300000) ? 1800 : 0;
    simple_topology();
    S.mixed_case = true;
    S.kinds = 0x7f;
    S.edns_ppm = 400000;
    S.root_ppm = 30000;
    S.burst_ppm = 100000;
    mk_clients(3);
    begin();
    workload((int)CFG(20, 60));
    finish();
}

// at most one answer per query, whatever the network and the servers repeat
static void p_once()
{
    P.tcp = CFGP(300000);
    P.tcp_groups = CFGP(200000);
    P.strict_ppm = 200000;
    strict_draw();
    P.slow_servers = CFGP(300000) ? 900 : 0;
    simple_topology();
    for (Group *g : S.groups) if (CFGP(700000)) g->parallel = true;
    S.labels = (int)CFG(1, 3);
    S.zones = (int)CFG(1, 2);
    S.qtypes = {T_A, T_AAAA, T_TXT};
    S.kinds = 1 | 2 | 4 | 8;
    S.collide_ppm = (int)CFG(0, 800000);
    S.retx_ppm = 350000;
    S.burst_ppm = 300000;
    S.cache = CFGP(300000);
    mk_clients((int)CFG(1, 4));
    begin([] {
        if (S.no_faults) return;
        if (CFGP(600000)) net.dup_ppm = (int)CFG(100000, 500000);
        for (Server *s : S.servers) if (CFGP(600000)) { s->dup = (int)CFG(100000, 600000); }
    });
    workload((int)CFG(20, 60));
    finish();
}

// service comes back once faults stop
static void p_live()
{
    P.tcp = CFGP(200000);
    P.v6 = true;
    P.strict_ppm = 250000;
    P.senderr = CFGP(300000);
    strict_draw();
    P.slow_servers = CFGP(300000) ? 1800 : 0;
    simple_topology();
    if (CFGP(400000)) { Group *g = mk_group(false, {zone_name(0)}, 3); (void)g; }
    S.kinds = 1 | 2 | 4;
    S.burst_ppm = 250000;
    S.retx_ppm = 150000;
    S.cache = CFGP(200000);
    P.long_gaps = CFGP(300000);
    mk_clients((int)CFG(1, 5));
    begin([] {
        if (S.no_faults) return;
        if (CFGP(300000)) for (Server *s : S.servers) if (CFGP(600000)) s->drop = 1000000; // total outage
    });
    workload((int)CFG(20, 80), [](uint32_t k) {
        if (S.no_faults || !ch_chance(S_OP, k, 60000)) return false;
        bool up = ch_chance(S_OP, k + 1, 500000);
        for (Server *s : S.servers) { s->up = up; s->since = now; }
        trace("all servers are now %s", up ? "up" : "down");
        if (!up) fault(F_PARTITION);
        return true;
    });
    finish();
}

static void p_tcpclients()
{
    P.tcp = true;
    P.udp = CFGP(300000);
    P.tcp_groups = CFGP(300000);
    P.tcp_faults = true;
    P.v6 = true;
    S.huge_ppm = CFGP(400000) ? 300000 : 0;
    strict_draw();
    simple_topology();
    S.kinds = 0x7f;
    S.edns_ppm = 200000;
    S.collide_ppm = (int)CFG(0, 600000);
    S.cache = CFGP(200000);
    mk_clients(2);
    begin([] {
        // an answer that does not fit in the send buffer ends the connection
        if (CFGP(200000) && !S.no_faults) net.sndbuf = (int)CFG(600, 4000);
    });
    workload((int)CFG(20, 60), [](uint32_t k) {
        if (!ch_chance(S_OP, k, 250000)) return false;
        Client *c;
        auto fresh = [&] {
            Addr a = client_addr((int)ch_range(S_OP, k + 1, 0, 5), false);
            a.port = (uint16_t)tcp_ports++;
            Client *n = tcp_client_open(a, S.tcp_local[0]);
            return n;
        };
        switch (ch_range(S_OP, k + 2, 0, 6)) {
        case 0: { // a client that never completes its message
            c = fresh();
            c->halfway = true;
            Bytes w = make_query(7, pick_name(k + 3), T_A, false), f;
            put16(f, (uint16_t)w.size());
            f += w;
            peer_send(c->peer, f.substr(0, (size_t)ch_range(S_OP, k + 4, 1, (int64_t)f.size() - 1)));
            fault(F_SLOWPEER);
            return true;
        }
        case 1: { // half-close after the query
            c = fresh();
            c->gone = true;
            op_query(c, k + 3);
            peer_shutdown(c->peer, ch_range(S_OP, k + 9, 0, 50) * MS);
            fault(F_CLIENTGONE);
            return true;
        }
        case 2: { // does not read its answers for a while
            c = fresh();
            c->slow = true;
            peer_read(c->peer, false);
            int n = (int)ch_range(S_OP, k + 3, 1, 12);
            for (int j = 0; j < n; j++) op_query(c, k + 4);
            usec d = ch_range(S_OP, k + 9, 10, 8000) * MS;
            Peer p = c->peer;
            ev_in(d, [p] { peer_read(p, true); });
            fault(F_SLOWPEER);
            return true;
        }
        case 3: { // goes away with answers pending; its port is used again at once
            c = fresh();
            op_query(c, k + 3);
            c->gone = true;
            usec d = ch_range(S_OP, k + 9, 0, 3000);
            if (ch_chance(S_OP, k + 8, 500000)) peer_rst(c->peer, d); else peer_close(c->peer, d);
            fault(F_CLIENTGONE);
            Client *o = fresh();
            tcp_open.push_back(o);
            op_query(o, k + 10);
            return true;
        }
        case 4: { // connects and says nothing
            c = fresh();
            c->halfway = true;
            return true;
        }
        case 5: { // query in two or three pieces, with other traffic in between
            c = fresh();
            Bytes w = make_query((uint16_t)ch_range(S_OP, k + 3, 0, 65535), pick_name(k + 4), T_A, false), f;
            put16(f, (uint16_t)w.size());
            f += w;
            size_t at = (size_t)ch_range(S_OP, k + 5, 1, (int64_t)f.size() - 1);
            usec d = ch_range(S_OP, k + 6, 1, 1500) * MS;
            // registered as sent when its last byte is
            peer_send(c->peer, f.substr(0, at), 0, false);
            c->halfway = true;
            Bytes rest = f.substr(at);
            ev_in(d, [c, w, rest] {
                if (c->failed) return;
                c->halfway = false;
                send_tcp_rest(c, c->target, w, rest);
            });
            fault(F_SEGMENT);
            return true;
        }
        default: { // a long pipeline
            c = some_tcp(k + 3);
            int n = (int)ch_range(S_OP, k + 6, 2, S.no_faults && P.tcp_groups ? 4 : 16);
            for (int j = 0; j < n; j++) op_query(c, k + 8);
            return true;
        }
        }
    });
    finish();
}

static void p_tcpup()
{
    P.tcp = CFGP(500000);
    P.udp_groups = false;
    P.tcp_groups = true;
    P.tcp_faults = true;
    P.v6 = true;
    S.huge_ppm = CFGP(400000) ? 300000 : 0;
    strict_draw();
    simple_topology();
    if (CFGP(300000)) { S.tcp2udp = true; P.udp_groups = true; }
    S.kinds = 0x7f;
    S.edns_ppm = 200000;
    S.collide_ppm = (int)CFG(0, 300000);
    mk_clients(3);
    begin();
    workload((int)CFG(15, 45));
    finish();
}

static void routing_topology(bool mixed, bool star_always)
{
    static const std::vector<std::string> items{"alpha.test", "beta.test", "corp.example", "sub.corp.example", "deep.sub.corp.example", "*.gamma.net", "test", "a1.alpha.test", "a2.sub.corp.example", "*corp.exa*", "?2.beta.test", "net", "c*.delta.org", "delta.org"};
    S.zone_names = {"alpha.test", "beta.test", "corp.example", "sub.corp.example", "deep.sub.corp.example", "gamma.net", "delta.org", "xalpha.test", "notcorp.example", "ub.corp.example", "other.zone", "alpha.test.evil"};
    S.zones = (int)S.zone_names.size();
    S.bare_ppm = 80000;
    S.labels = 4;
    int n = (int)CFG(2, 5);
    bool star = star_always || CFGP(600000);
    for (int i = 0; i < n; i++) {
        bool tcp = mixed && (CFGP(500000) || (i == 0 && !P.udp));
        std::vector<std::string> d;
        int k = (int)CFG(1, 4);
        for (int j = 0; j < k; j++) d.push_back(items[ch_pick(S_CFG, __LINE__, (int)items.size())]);
        std::sort(d.begin(), d.end());
        d.erase(std::unique(d.begin(), d.end()), d.end());
        if (star && i == n - 1) d = {"*"};
        bool file = CFGP(300000);
        if (file && !many) draw_many(120000);
        if (file && many) { add_many(d); std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); }
        Group *g = mk_group(tcp, d, 2);
        if (file) {
            g->file = "/etc/df/group" + std::to_string(i);
            if (CFGP(400000)) g->list = "/etc/df/list" + std::to_string(i);
        }
    }
}
static void p_routing()
{
    P.tcp = CFGP(300000);
    P.v6 = false;
    P.strict_ppm = 600000;
    strict_draw();
    S.udp_local = {mkaddr("10.0.0.1", 53)};
    if (P.tcp) { S.tcp_local = {mkaddr("10.0.0.1", 53)}; S.tcp2udp = true; }
    routing_topology(false, false);
    S.kinds = 1 | 2 | 4;
    S.mixed_case = CFGP(300000);
    S.root_ppm = 30000;
    S.cache = CFGP(150000);
    S.burst_ppm = 200000;
    mk_clients(3);
    begin();
    workload((int)CFG(30, 80));
    S.zones = 6;
    finish();
}
static void p_transport()
{
    P.tcp = true;
    P.tcp_groups = true;
    P.strict_ppm = 500000;
    strict_draw();
    S.udp_local = {mkaddr("10.0.0.1", 53)};
    S.tcp_local = {mkaddr("10.0.0.1", 53)};
    S.udp2tcp = CFGP(300000);
    S.tcp2udp = CFGP(300000);
    // one group of each kind for everything, then special ones
    mk_group(false, {"*"}, 2);
    mk_group(true, {"*"}, 2);
    routing_topology(true, false);
    S.kinds = 1 | 2 | 4;
    S.keepalive = (int)CFG(0, 6);
    mk_clients(3);
    begin();
    workload((int)CFG(15, 40));
    S.zones = 4;
    finish();
}

static void p_disabled()
{
    P.tcp = CFGP(300000);
    P.strict_ppm = 600000;
    strict_draw();
    P.slow_servers = CFGP(300000) ? 1800 : 0;
    simple_topology();
    S.zone_names = {"alpha.test", "beta.test", "corp.example", "sub.corp.example", "gamma.net", "xalpha.test", "notcorp.example"};
    S.zones = 7;
    static const std::vector<std::string> items{"alpha.test", "a1.beta.test", "sub.corp.example", "*.gamma.net", "corp.example", "?2.beta.test", "c*.corp.example", "a3.notcorp.example"};
    int n = (int)CFG(1, 3);
    for (int i = 0; i < n; i++) S.disabled_domains.push_back(items[ch_pick(S_CFG, __LINE__, (int)items.size())]);
    std::sort(S.disabled_domains.begin(), S.disabled_domains.end());
    S.disabled_domains.erase(std::unique(S.disabled_domains.begin(), S.disabled_domains.end()), S.disabled_domains.end());
    if (CFGP(300000)) S.disabled_domains.clear();
    auto dot = [](std::vector<std::string> &v) { for (auto &d : v) if (d.find_first_of("*?") == std::string::npos && CFGP(150000)) d = "." + d; };
    dot(S.disabled_domains);
    base_version();
    if (CFGP(600000)) {
        S.disabled_list = "/etc/df/disabled.txt";
        n = (int)CFG(1, 4);
        for (int i = 0; i < n; i++) base_conf->disabled.push_back(items[ch_pick(S_CFG, __LINE__, (int)items.size())]);
        dot(base_conf->disabled);
        draw_many(120000);
        add_many(base_conf->disabled);
    }
    if (CFGP(600000)) {
        static const std::vector<int> ty{T_AAAA, T_TXT, T_MX, T_HTTPS, T_ANY, T_PTR};
        n = (int)CFG(1, 3);
        for (int i = 0; i < n; i++) S.disabled_types.push_back(ty[ch_pick(S_CFG, __LINE__, (int)ty.size())]);
    }
    S.kinds = 1 | 2 | 4;
    S.edns_ppm = 200000;
    S.bare_ppm = 80000;
    S.root_ppm = 20000;
    S.mixed_case = CFGP(300000);
    S.cache = CFGP(200000);
    if (CFGP(200000)) { HostRule h{HostRule::A, "a1.alpha.test", ip4(10, 1, 1, 1), ""}; S.hosts.push_back(h); }
    mk_clients(3);
    begin();
    workload((int)CFG(30, 80));
    // probe only zones that are not disabled
    std::vector<std::string> z;
    for (auto &x : S.zone_names) if (!is_disabled("ap1." + x, T_A, *base_conf)) z.push_back(x);
    S.zone_names = z;
    S.zones = (int)z.size();
    finish();
}

// Ranges of addresses, each in a slot of its own, which they fill more or less.
static std::vector<int> net_slots;
static Net draw_net(bool block)
{
    Net n;
    if (net_slots.empty()) {
        for (int i = 0; i < 32; i++) net_slots.push_back(i);
        for (size_t i = 32; i > 1; i--) std::swap(net_slots[i - 1], net_slots[ch_pick(S_CFG, __LINE__, (int)i)]);
    }
    int slot = net_slots.back();
    net_slots.pop_back();
    if (slot < 16) {
        n.ip = ip4(65, slot * 16 + (int)CFG(0, 15), (int)CFG(0, 255), (int)CFG(0, 255));
        n.bits = (int)CFG(16, 31);
        if (!block) n.to = ip4(66, slot, (int)CFG(0, 255), (int)CFG(1, 250));
    } else {
        n.ip = rd_aaaa(0x20010db900000000ull | (uint64_t)slot << 16 | (uint64_t)CFG(0, 0xffff), (uint64_t)CFG(0, 0x7fffffff) << 33 | (uint64_t)CFG(0, 0x7fffffff));
        n.bits = (int)CFG(52, 127);
        if (!block) n.to = rd_aaaa(0x20010dba00000000ull | (uint64_t)slot, (uint64_t)CFG(1, 1000));
    }
    if (CFGP(400000)) { // written without the bits that do not count
        Bytes m = n.ip;
        for (int i = n.bits; i < (int)m.size() * 8; i++) m[i / 8] = (char)(m[i / 8] & ~(0x80 >> i % 8));
        n.ip = m;
    }
    return n;
}
static void p_block()
{
    P.tcp = CFGP(300000);
    P.tcp_groups = CFGP(250000);
    P.strict_ppm = 500000;
    strict_draw();
    simple_topology();
    for (Group *g : S.groups) if (CFGP(500000)) g->parallel = true;
    if (CFGP(700000)) {
        int n = (int)CFG(1, 4);
        for (int i = 0; i < n; i++) S.block_ip.push_back(CFGP(700000) ? ip4(60, 0, 0, (int)CFG(1, 8)) : ip6((int)CFG(1, 4)));
        std::sort(S.block_ip.begin(), S.block_ip.end());
        S.block_ip.erase(std::unique(S.block_ip.begin(), S.block_ip.end()), S.block_ip.end());
    }
    S.block_negative = CFGP(400000);
    if (CFGP(600000)) {
        int n = (int)CFG(1, 4);
        for (int i = 0; i < n; i++) {
            if (CFGP(750000)) S.subst[ip4(61, 0, 0, (int)CFG(1, 8))] = ip4(62, 0, 0, (int)CFG(1, 8));
            else S.subst[ip6((int)CFG(10, 14))] = ip6((int)CFG(20, 24));
        }
    }
    if (CFGP(500000)) {
        int n = CFGP(600000) ? (int)CFG(1, 4) : (int)CFG(1, 20);
        for (int i = 0; i < n; i++) S.nets.push_back(draw_net(CFGP(300000)));
        if (CFGP(300000)) { // an address of a range which has a rule of its own
            const Net &r = S.nets[CFG(0, n - 1)];
            Bytes a = r.ip;
            S.subst[a] = a.size() == 4 ? ip4(62, 0, 0, (int)CFG(1, 8)) : ip6((int)CFG(20, 24));
        }
    }
    base_version();
    if (CFGP(400000)) {
        S.subst_file = "/etc/df/subst.txt";
        int n = (int)CFG(1, 3);
        for (int i = 0; i < n; i++) base_conf->subst[ip4(63, 0, 0, (int)CFG(1, 8))] = ip4(64, 0, 0, (int)CFG(1, 8));
        if (CFGP(400000)) for (int i = (int)CFG(1, 6); i-- > 0;) base_conf->nets.push_back(draw_net(false));
    }
    S.kinds = 1 | 2 | 4 | 8 | 32;
    S.qtypes = {T_A, T_A, T_AAAA, T_TXT};
    S.edns_ppm = 200000;
    S.cache = CFGP(300000);
    mk_clients(3);
    begin();
    workload((int)CFG(30, 80));
    finish();
}

// ------------------------------------------------ cache
static void cache_common()
{
    S.cache = true;
    S.kinds = 1 | 2 | 4 | 8 | 32;
    S.labels = (int)CFG(1, 5);
    S.zones = (int)CFG(1, 3);
    S.qtypes = {T_A, T_A, T_AAAA, T_TXT, T_MX, T_CNAME, T_NS, T_PTR, T_HTTPS};
    P.long_gaps = true;
}
static void p_fresh()
{
    P.tcp = CFGP(250000);
    P.tcp_groups = CFGP(150000);
    P.strict_ppm = 400000;
    strict_draw();
    simple_topology();
    cache_common();
    S.ttl_mode = (int)CFG(1, 2);
    S.ignore_ttl = CFGP(100000);
    S.cache_parallel = CFGP(250000);
    if (CFGP(200000)) S.override_ttl = (int)CFG(0, 40);
    else if (CFGP(200000)) S.multiple_ttl = (int)CFG(2, 3);
    if (CFGP(200000)) S.block_ip.push_back(ip4(60, 0, 0, 1));
    S.edns_ppm = 200000;
    S.mixed_case = CFGP(150000);
    mk_clients(3);
    begin();
    workload((int)CFG(30, 90));
    finish();
}
static void p_complete()
{
    P.strict_ppm = 500000;
    strict_draw();
    simple_topology();
    cache_common();
    S.edns_ppm = 200000;
    S.track_cache = true;
    S.labels = (int)CFG(1, 3);
    S.zones = (int)CFG(1, 2);
    S.ttl_mode = (int)CFG(0, 2);
    S.ignore_ttl = CFGP(150000);
    if (CFGP(250000)) S.override_ttl = (int)CFG(0, 200);
    else if (CFGP(250000)) S.multiple_ttl = (int)CFG(2, 4);
    if (CFGP(400000)) {
        static const std::vector<std::string> doms{"alpha.test", "beta.test", "a1.alpha.test", "*.test", "c1.beta.test", "m*.alpha.test"};
        static const std::vector<std::string> acts{"orig", "nocache", "fixed 7", "fixed 100", "vari 2x+3", "vari 0x+20"};
        int n = (int)CFG(1, 3);
        std::set<std::string> used;
        for (int i = 0; i < n; i++) {
            std::string d = doms[ch_pick(S_CFG, __LINE__, (int)doms.size())];
            if (!used.insert(d).second) continue;
            S.cache_control.push_back(d + " " + (CFGP(250000) ? "$" : CFGP(250000) ? "$$" : "") + acts[ch_pick(S_CFG, __LINE__, (int)acts.size())]);
        }
        // how contagious the general TTL settings are is not documented: only names that answer for themselves
        if (S.override_ttl > -1 || S.multiple_ttl > 1) S.kinds = 1 | 16;
    }
    mk_clients(3);
    begin();
    workload((int)CFG(30, 90));
    finish();
}
// The same names again and again, after their records have expired: what fits once has to fit always.
static void p_rounds()
{
    S.no_faults = true;
    simple_topology();
    cache_common();
    S.track_cache = true;
    S.cache_size = 102400;
    S.override_ttl = (int)CFG(15, 70);
    S.mem_cache = CFGP(700000);
    S.overwrite_cache = true;
    std::vector<int> types{T_A, T_AAAA, T_TXT, T_MX};
    int labels = (int)CFG(4, 12), rounds = (int)CFG(4, 24);
    mk_clients(3);
    begin();
    run_for(200 * MS);
    for (int r = 0; r < rounds && !crash_stop; r++) {
        uint32_t k = 1000 + (opno++) * 32;
        int part = (int)ch_range(S_OP, k, 400000, 1000000);
        std::vector<std::pair<std::string, int>> todo;
        for (int l = 0; l < labels; l++) {
            if (ch_chance(S_OP, k + 1, part)) todo.push_back({"x" + std::to_string(l) + ".alpha.test", types[ch_pick(S_OP, k + 2, 2)]});
            if (ch_chance(S_OP, k + 1, part)) todo.push_back({(l % 3 ? "a" : "longer-name-here-a") + std::to_string(l) + ".beta.test", types[ch_pick(S_OP, k + 2, 4)]});
        }
        for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[ch_pick(S_OP, k + 3, (int)i)]);
        for (int again = 0; again < 2; again++) {
            for (auto &t : todo) {
                Client *c = S.clients[ch_pick(S_OP, k + 4, (int)S.clients.size())];
                send_query(c, local_for(c), t.first, t.second, false, fresh_id(k + 5));
                if (ch_chance(S_OP, k + 6, 300000)) run_for(ch_range(S_OP, k + 7, 0, 100) * MS);
            }
            run_for(3 * SEC);
        }
        run_for(S.override_ttl * SEC + ch_range(S_OP, k + 8, ch_chance(S_OP, k + 9, 800000) ? 60 : 0, 150) * SEC);
    }
    finish();
}
static void p_capacity()
{
    if (CFGP(250000)) return p_rounds();
    P.strict_ppm = 500000;
    P.tcp_groups = CFGP(100000);
    strict_draw();
    simple_topology();
    cache_common();
    S.cache_size = (int)CFG(102400, 110000);
    S.kinds = 1 | 2 | 16;
    S.labels = 400;
    S.zones = 4;
    S.qtypes = {T_A, T_TXT, T_AAAA};
    S.ttl_mode = CFGP(500000) ? 0 : 2;
    S.ignore_ttl = CFGP(200000);
    S.burst_ppm = 700000;
    P.long_gaps = CFGP(300000);
    S.mem_cache = CFGP(700000);
    S.overwrite_cache = true;
    // a set of records that together do not fit in an answer
    if (CFGP(150000)) { S.labels = 2; S.zones = 1; S.kinds = 16; S.qtypes = {T_TXT}; S.burst_ppm = 1000000; S.ttl_mode = 0; }
    mk_clients(3);
    begin();
    workload((int)CFG(40, 120));
    finish();
}

// ------------------------------------------------ crash and restart with a cache file
static void p_crash()
{
    P.strict_ppm = 400000;
    strict_draw();
    simple_topology();
    cache_common();
    S.mem_cache = false;
    S.reload_cache = true;
    S.overwrite_cache = true;
    S.ttl_mode = (int)CFG(0, 2);
    S.labels = (int)CFG(2, 60);
    S.cache_size = 102400 + (int)CFG(0, 1) * 900000;
    S.burst_ppm = 400000;
    P.long_gaps = CFGP(300000);
    mk_clients(3);
    begin();
    int lives = (int)CFG(2, 4);
    for (int l = 0; l < lives; l++) {
        if (l + 1 < lives) {
            switch (CFG(0, 2)) {
            case 0: crash_at_step(steps + (uint64_t)CFG(1, 200000)); break;
            case 1: crash_at_step(steps + (uint64_t)CFG(1, 20000)); break;
            default: break; // killed after the workload
            }
        }
        workload((int)CFG(8, 40));
        if (l + 1 < lives) {
            crash_at_step(0);
            fault(F_CRASH);
            trace("---- the program is killed ----");
            tcp_open.clear();
            if (CFGP(200000)) S.cache_size = 102400 + (int)CFG(0, 9) * 100000; // a file of another size is not used
            world_restart();
            run_for(100 * MS + CFG(0, 20) * SEC);
        }
    }
    finish();
}

// ------------------------------------------------ hosts
static void draw_hosts(std::vector<HostRule> &v, int n, int ver)
{
    static const std::vector<std::string> pats{"a0.alpha.test", "a1.alpha.test", "a2.beta.test", "*.corp.example", "a*.sub.corp.example", "c1.alpha.test", "a3.gamma.net", "?1.beta.test", "n1.gamma.net", "*.gamma.net", "a1.*.example"};
    for (int i = 0; i < n; i++) {
        HostRule h;
        h.pattern = pats[ch_pick(S_CFG, __LINE__, (int)pats.size())];
        switch (CFG(0, 7)) {
        case 0: case 1: case 2: case 3: h.type = HostRule::A; h.ip = ip4(70 + ver % 100, 0, (int)CFG(0, 3), (int)CFG(1, 250)); break;
        case 4: case 5: h.type = HostRule::AAAA; h.ip = ip6(1000 * (ver + 1) + (int)CFG(1, 250)); break;
        case 6: h.type = HostRule::EXCL; break;
        default: h.type = HostRule::A; h.ip = ip4(0, 0, 0, 0); break;
        }
        v.push_back(h);
    }
    if (many) {
        int m = (int)CFG(many / 2, many), from = (int)CFG(0, many / 4);
        size_t own = v.size();
        for (int i = 0; i < m; i++) {
            HostRule h;
            h.type = HostRule::A;
            h.pattern = filler(from + i);
            h.ip = ip4(70 + ver % 100, 1, i >> 8, i & 255);
            v.push_back(h);
        }
        for (size_t i = 0; i < own; i++) std::swap(v[i], v[ch_pick(S_CFG, __LINE__, (int)v.size())]);
    }
}
static void p_hosts()
{
    P.tcp = CFGP(300000);
    P.strict_ppm = 600000;
    strict_draw();
    simple_topology();
    S.zone_names = {"alpha.test", "beta.test", "corp.example", "sub.corp.example", "gamma.net"};
    S.zones = 5;
    S.labels = 4;
    S.kinds = 1 | 2 | 4;
    S.qtypes = {T_A, T_A, T_AAAA, T_TXT, T_MX, T_CNAME};
    S.block_v6 = CFGP(300000);
    draw_many(100000);
    draw_hosts(S.hosts, (int)CFG(1, 10), 0);
    S.edns_ppm = 200000;
    S.mixed_case = CFGP(250000);
    S.cache = CFGP(300000);
    mk_clients(3);
    begin();
    workload((int)CFG(30, 80));
    finish();
}

// ------------------------------------------------ downloaded hosts and reloads
static std::vector<ConfVer *> web_serving;   // version served at the moment, by URL index
static void set_sure(ConfVer *v, usec t) { if (t < v->sure) v->sure = t; }
static bool web_broken = false;
static int web_fail_ppm = 0, web_slow_ppm = 0;
static size_t n_urls = 1;
static bool fancy_hosts = false;
// The same rules as people write them: comments, blank lines, other spacing and line ends, and lines that are
// too long and therefore ignored, comments or not, whatever their tails look like.
static std::string decorate(const std::vector<HostRule> &v)
{
    std::string r;
    auto some = [](int ppm) { return CFGP(ppm); };
    auto too_long = [&] {
        static const std::vector<int> lens{318, 319, 320, 321, 445, 446, 447, 511, 512, 513, 638};
        size_t n = some(600000) ? (size_t)lens[ch_pick(S_CFG, __LINE__, (int)lens.size())] : (size_t)CFG(319, 900);
        std::string l = some(500000) ? "66.6.6.6 " : some(500000) ? "#" : "a1.alpha.test ";
        n = std::max<size_t>(n, 319);
        l += std::string(n - l.size(), 'x');
        if (some(600000)) l += std::string(some(500000) ? "\t" : " ") + "66.6.6.6 *.*.*";
        return l + "\n";
    };
    for (auto &h : v) {
        if (some(100000)) r += "\n";
        if (some(100000)) r += " \t\r\n";
        if (some(100000)) r += some(500000) ? "# 66.6.6.6 a1.alpha.test\n" : ";66.6.6.6 *\n";
        if (some(150000)) r += too_long();
        std::string l = h.line();
        if (some(200000)) { size_t p = l.find(' '); l.replace(p, 1, some(500000) ? "\t" : "   \t "); }
        if (some(150000)) l = "  " + l;
        if (some(150000)) l += " \t";
        if (some(150000)) l += some(500000) ? " # a comment ; or two" : "#" + std::string((size_t)CFG(1, 600), 'y');
        r += l + (some(100000) ? "\r\n" : "\n");
    }
    if (some(150000)) r += too_long();
    if (some(400000) && !r.empty()) r.pop_back();
    return r;
}
static std::string url_part(const ConfVer *v, size_t i)
{
    static std::map<std::pair<const ConfVer *, size_t>, std::string> made;
    std::vector<HostRule> h;
    for (size_t j = 0; j < v->dyn.size(); j++) if (v->src(j, n_urls) == i) h.push_back(v->dyn[j]);
    if (!fancy_hosts) return hosts_text(h);
    std::string &t = made[{v, i}];
    if (t.empty()) t = decorate(h);
    return t;
}
static void serve(ConfVer *v)
{
    for (size_t i = 0; i < n_urls; i++)
        if (S.host_urls[i].compare(0, 4, "file") == 0) {
            if (v->gone == (int)i) { vfs_remove(S.host_urls[i].substr(7)); fault(F_DOWNLOADERR); }
            else vfs_put(S.host_urls[i].substr(7), url_part(v, i));
        }
}
static ConfVer *next_version()
{
    ConfVer *v = new ConfVer;
    v->groups = confs.back()->groups;
    v->subst = S.subst;
    int n = (int)confs.size();
    if (!S.host_urls.empty()) draw_hosts(v->dyn, (int)CFG(0, 14), n);
    if (n_urls == 2 && CFGP(300000)) {
        int i = (int)CFG(0, 1);
        if (S.host_urls[i].compare(0, 4, "file") == 0) v->gone = i;
    }
    return v;
}
static void dyn_setup()
{
    on_rename = [](const std::string &to) { if (to == "/var/df/hosts.txt") { reload_times.push_back(now); reload_burst(); } };
    web_get = [](const std::string &url) {
        WebReply r;
        stat(ST_DOWNLOADS);
        size_t i = 0;
        for (size_t j = 0; j < S.host_urls.size(); j++) if (S.host_urls[j] == url) i = j;
        ConfVer *v = confs.back();
        r.body = url_part(v, i);
        r.dt = ch_range(S_ENV, 1, 1, 300) * MS;
        if (!after_calm && ch_chance(S_ENV, 2, web_slow_ppm)) r.dt = ch_range(S_ENV, 3, 1, 20) * SEC;
        if (!after_calm && (web_broken || ch_chance(S_ENV, 4, web_fail_ppm))) {
            fault(F_DOWNLOADERR);
            r.code = 7 + (int)ch_range(S_ENV, 5, 0, 30);
            r.fail_after = (size_t)ch_range(S_ENV, 6, 0, (int64_t)r.body.size());
        }
        return r;
    };
}
// hosts rules that give a name another one's addresses
static void p_redirect()
{
    P.tcp = CFGP(300000);
    P.tcp_groups = CFGP(250000);
    P.strict_ppm = 450000;
    strict_draw();
    bool late = !S.no_faults && CFGP(500000);
    P.slow_servers = CFGP(300000) ? 1500 : 0;
    simple_topology();
    if (CFGP(300000)) mk_group(false, {"beta.test"}, 2);
    S.zone_names = {"alpha.test", "beta.test", "corp.example", "gamma.net"};
    S.zones = 4;
    S.labels = (int)CFG(2, 4);
    S.kinds = 1 | 2 | 4 | 32;
    S.qtypes = {T_A, T_A, T_AAAA, T_AAAA, T_CNAME, T_TXT};
    S.block_v6 = CFGP(200000);
    // circles have no answer, but the program must survive them; otherwise rules point forward only
    bool circles = CFGP(250000);
    std::vector<std::string> src{"a0.alpha.test", "a?.alpha.test", "*.corp.example", "c0.beta.test", "a1.beta.test", "n1.gamma.net", "c2.alpha.test"};
    auto conc = [](std::string x) { for (char &ch : x) if (ch == '?') ch = '2'; if (x[0] == '*') x[0] = 'b'; return x; };
    std::vector<std::string> free_names{"a0.gamma.net", "a1.gamma.net", "c0.gamma.net", "c1.gamma.net", "n0.gamma.net", "a2.gamma.net", "m0.gamma.net"};
    for (size_t i = 0; i < src.size(); i++) {
        if (CFGP(300000)) continue;
        int n = CFGP(250000) ? 2 : 1;
        for (int j = 0; j < n; j++) {
            HostRule h;
            h.pattern = src[i];
            h.type = HostRule::CNAME;
            size_t to = (size_t)CFG(circles ? 0 : i + 1, (int)(src.size() + free_names.size()) - 1);
            h.target = to < src.size() ? conc(src[to]) : free_names[to - src.size()];
            S.hosts.push_back(h);
        }
    }
    for (int i = (int)CFG(0, 4); i-- > 0;) {
        HostRule h;
        h.pattern = CFGP(500000) ? free_names[CFG(0, 6)] : src[CFG(0, 6)];
        switch (CFG(0, 3)) {
        case 0: h.type = HostRule::EXCL; break;
        case 1: h.type = HostRule::AAAA; h.ip = ip6((int)CFG(1, 250)); break;
        default: h.type = HostRule::A; h.ip = ip4(70, 0, 0, (int)CFG(1, 250)); break;
        }
        S.hosts.push_back(h);
    }
    if (CFGP(350000)) { // some of the rules are in a hosts file instead
        S.host_urls.push_back("http://lists.example/h0");
        S.update_interval = (int)CFG(20, 200);
        S.retry_interval = 5;
        std::vector<HostRule> all;
        all.swap(S.hosts);
        n_urls = 1;
        base_version();
        for (auto &x : all) (CFGP(500000) ? base_conf->dyn : S.hosts).push_back(x);
        vfs_put("/var/df/hosts.txt", url_part(base_conf, 0));
        dyn_setup();
        reload_burst_ppm = CFGP(400000) ? 500000 : 0;
    }
    if (CFGP(250000)) S.disabled_domains.push_back(free_names[CFG(0, 6)]);
    S.edns_ppm = 200000;
    S.collide_ppm = CFGP(400000) ? (int)CFG(100000, 1000000) : 0;
    S.retx_ppm = 150000;
    S.burst_ppm = 250000;
    S.mixed_case = CFGP(250000);
    S.cache = CFGP(300000);
    mk_clients((int)CFG(2, 5));
    begin([late] {
        // answers so late that the question is forgotten, or its place taken by another
        if (late) for (Server *s : S.servers) { s->dmin = CFG(0, 12000) * MS; s->dmax = s->dmin + CFG(0, 12000) * MS; }
    });
    workload((int)CFG(30, 90));
    finish();
}

static void preload_hosts()
{
    draw_hosts(base_conf->dyn, (int)CFG(1, 12), 60);
    std::string t;
    for (size_t i = 0; i < n_urls; i++) t += url_part(base_conf, i) + "\n";
    vfs_put("/var/df/hosts.txt", t);
}
static void p_dynhosts()
{
    P.strict_ppm = 300000;
    P.tcp = CFGP(150000);
    strict_draw();
    simple_topology();
    S.zone_names = {"alpha.test", "beta.test", "corp.example", "sub.corp.example", "gamma.net"};
    S.zones = 5;
    S.labels = 4;
    S.kinds = 1 | 2 | 4;
    S.qtypes = {T_A, T_A, T_AAAA, T_TXT};
    n_urls = (size_t)CFG(1, 2);
    for (size_t i = 0; i < n_urls; i++) S.host_urls.push_back(CFGP(600000) ? "http://lists.example/h" + std::to_string(i) : "file:///etc/df/hosts" + std::to_string(i));
    S.update_interval = (int)CFG(5, 60);
    S.retry_interval = (int)CFG(1, 10);
    draw_many(100000);
    if (CFGP(400000)) draw_hosts(S.hosts, (int)CFG(1, 4), 50);
    base_version();
    fancy_hosts = CFGP(500000);
    bool preload = CFGP(600000);
    if (preload) preload_hosts();
    dyn_setup();
    reload_burst_ppm = CFGP(500000) ? 700000 : 0;
    if (CFGP(300000)) {
        S.hosts_script = "/etc/df/update.sh";
        run_script = [](const std::string &) { return ch_chance(S_OP, 303, 300000) ? 1 << 8 : 0; };
    }
    ConfVer *v = next_version();
    v->n = 1;
    confs.push_back(v);
    serve(v);
    if (!S.no_faults) { web_fail_ppm = (int)CFG(0, 700000); web_slow_ppm = (int)CFG(0, 300000); }
    S.cache = CFGP(150000);
    mk_clients(3);
    begin();
    if (!preload) stat(ST_RELOADS);
    int rounds = (int)CFG(1, 4);
    for (int r = 0; r < rounds && !crash_stop; r++) {
        workload((int)CFG(8, 30));
        if (!S.no_faults) web_broken = CFGP(200000);
        ConfVer *nv = next_version();
        conf_commit(nv);
        serve(nv);
        fault(F_RELOAD);
        stat(ST_RELOADS);
        run_for(CFG(0, 2 * S.update_interval) * SEC);
    }
    workload((int)CFG(4, 12));
    calm_all();
    after_calm = true;
    // the newest list must be in force one interval (and one retry) after the last failure
    run_for((2 * S.update_interval + 2 * S.retry_interval + 60) * SEC);
    set_sure(confs.back(), now);
    for (int i = 0; i < 24; i++) { op_query(udp_clients_list()[0], 500000 + i * 32); run_for(300 * MS); }
    finish();
}

// ------------------------------------------------ downloaded hosts and a program that is killed
static void p_durable()
{
    P.strict_ppm = 500000;
    strict_draw();
    simple_topology();
    S.zone_names = {"alpha.test", "beta.test", "corp.example", "sub.corp.example", "gamma.net"};
    S.zones = 5;
    S.labels = 4;
    S.kinds = 1 | 2 | 4;
    S.qtypes = {T_A, T_A, T_AAAA, T_TXT};
    n_urls = CFGP(250000) ? 2 : 1;
    for (size_t i = 0; i < n_urls; i++) S.host_urls.push_back(CFGP(500000) ? "http://lists.example/h" + std::to_string(i) : "file:///etc/df/hosts" + std::to_string(i));
    S.update_interval = (int)CFG(5, 30);
    S.retry_interval = (int)CFG(1, 10);
    draw_many(60000);
    if (CFGP(400000)) draw_hosts(S.hosts, (int)CFG(1, 4), 50);
    base_version();
    fancy_hosts = CFGP(300000);
    preload_hosts();
    dyn_setup();
    serve(base_conf);
    mk_clients(3);
    begin();
    auto settle = [] { // undisturbed for long enough for the newest list to be fetched
        web_broken = false;
        web_fail_ppm = web_slow_ppm = 0;
        serve(confs.back());
        run_for((2 * S.update_interval + 2 * S.retry_interval + 60) * SEC);
        if (!crash_stop) set_sure(confs.back(), now);
    };
    int lives = (int)CFG(2, 4);
    for (int l = 0; l < lives; l++) {
        if (CFGP(700000)) settle();
        web_fail_ppm = CFGP(400000) ? (int)CFG(0, 700000) : 0;
        web_slow_ppm = (int)CFG(0, 300000);
        web_broken = CFGP(250000);
        if (CFGP(300000)) for (auto &u : S.host_urls) if (u.compare(0, 4, "file") == 0 && CFGP(600000)) { S.sources_fail = true; vfs_remove(u.substr(7)); fault(F_DOWNLOADERR); trace("%s is missing", u.c_str()); }
        if (l + 1 < lives) {
            switch (CFG(0, 3)) {
            case 0: crash_at_step(steps + (uint64_t)CFG(1, 200000)); break;
            case 1: sysk.crash_fsop = CFG(0, 60); break;
            case 2: sysk.crash_fsop = CFG(0, 16); break;
            default: break; // killed after the workload
            }
        }
        for (int i = 0; i < 4 && !crash_stop; i++) { workload((int)CFG(1, 8)); run_for(CFG(0, 2 * S.update_interval) * SEC); }
        if (l + 1 < lives) {
            crash_at_step(0);
            sysk.crash_fsop = -1;
            fault(F_CRASH);
            trace("---- the program is killed ----");
            tcp_open.clear();
            if (CFGP(600000)) { ConfVer *v = next_version(); conf_commit(v); serve(v); stat(ST_RELOADS); }
            if (CFGP(300000)) { // what a download that was cut short by the kill leaves behind
                std::string t = url_part(confs[CFG(0, (int)confs.size() - 1)], 0);
                vfs_put(CFGP(700000) ? "/var/df/hosts.txt.tmp" : "/var/df/hosts.txt.tmp.tmp", t.substr(0, (size_t)CFG(0, (int)t.size())));
            }
            world_restart();
            run_for(100 * MS);
            workload((int)CFG(1, 8));
        }
    }
    calm_all();
    after_calm = true;
    settle();
    for (int i = 0; i < 24; i++) { op_query(udp_clients_list()[0], 500000 + i * 32); run_for(300 * MS); }
    finish();
}

// ------------------------------------------------ lists and server groups that change while the program runs
static std::vector<std::string> some_of(const std::vector<std::string> &items, int lo, int hi)
{
    std::vector<std::string> d;
    int n = (int)CFG(lo, hi);
    for (int i = 0; i < n; i++) d.push_back(items[ch_pick(S_CFG, __LINE__, (int)items.size())]);
    std::sort(d.begin(), d.end());
    d.erase(std::unique(d.begin(), d.end()), d.end());
    return d;
}
static void p_reload()
{
    P.tcp = CFGP(250000);
    P.tcp_groups = CFGP(300000);
    P.strict_ppm = 450000;
    P.srv_down = CFGP(500000);
    strict_draw();
    S.udp_local = {mkaddr("10.0.0.1", 53)};
    if (P.tcp) { S.tcp_local = {mkaddr("10.0.0.1", 53)}; S.tcp2udp = true; }
    if (P.tcp_groups) S.udp2tcp = true;
    S.zone_names = {"alpha.test", "beta.test", "corp.example", "sub.corp.example", "gamma.net", "delta.org"};
    S.zones = 6;
    S.labels = 3;
    static const std::vector<std::string> items{"alpha.test", "beta.test", "corp.example", "sub.corp.example", "*.gamma.net", "delta.org", "a1.alpha.test", "a0.beta.test", "c*.delta.org", "net"};
    static const std::vector<std::string> dis{"a0.alpha.test", "a1.beta.test", "c1.corp.example", "*2.gamma.net", "n1.delta.org", "a2.sub.corp.example", "a?.delta.org"};
    mk_group(false, {"*"}, 2);
    int files = (int)CFG(0, 3), versions = (int)CFG(2, 4);
    bool lists = CFGP(700000), substs = CFGP(600000);
    draw_many(80000);
    reload_burst_ppm = CFGP(500000) ? 700000 : 0;
    bool reload_groups = CFGP(850000), reload_lists = CFGP(850000), reload_substs = CFGP(850000);
    if (!reload_groups) S.conf_extra += "ReloadGroupFile false\n";
    if (!reload_lists) S.conf_extra += "ReloadDisabledList false\n";
    if (!reload_substs) S.conf_extra += "ReloadIPSubstituting false\n";
    if (lists) S.disabled_list = "/etc/df/disabled.txt";
    if (CFGP(300000)) S.disabled_domains = some_of(dis, 1, 2);
    if (substs) S.subst_file = "/etc/df/subst.txt";
    if (CFGP(300000)) S.subst[ip4(61, 0, 0, (int)CFG(1, 8))] = ip4(62, 0, 0, (int)CFG(1, 8));
    if (CFGP(200000)) S.block_ip.push_back(ip4(60, 0, 0, (int)CFG(1, 4)));
    S.block_negative = CFGP(150000);
    std::vector<Group *> fixed = S.groups;
    // all versions are drawn up front: their servers exist from the start
    std::vector<ConfVer *> vs;
    for (int i = 0; i < versions; i++) {
        ConfVer *v = new ConfVer;
        v->groups = fixed;
        for (int f = 0; f < files; f++) {
            Group *g = mk_group(P.tcp_groups && CFGP(300000), some_of(items, 1, 4), 2);
            g->file = "/etc/df/group" + std::to_string(f);
            if (f == 1) g->list = "/etc/df/list1";
            if (i > 0) S.groups.pop_back();
            v->groups.push_back(g);
        }
        if (lists) { v->disabled = some_of(dis, 0, 5); add_many(v->disabled); }
        v->subst = S.subst;
        if (substs) { int n = (int)CFG(0, 4); for (int j = 0; j < n; j++) v->subst[ip4(63, 0, 0, (int)CFG(1, 8))] = ip4(64, i, 0, (int)CFG(1, 250)); }
        if (substs && CFGP(300000)) { net_slots.clear(); for (int j = (int)CFG(1, 5); j-- > 0;) v->nets.push_back(draw_net(false)); }
        // what is not to be reloaded stays as it was at the start, whatever the files say later
        if (i > 0) {
            ConfVer w = *v;
            conf_files(w);
            auto freeze = [&](const std::string &file) { std::string t; if (vfs_get(file, t)) v->raw[file] = t; };
            if (!reload_groups) { for (Group *g : v->groups) if (!g->file.empty()) { freeze(g->file); if (!g->list.empty()) freeze(g->list); } v->groups = vs[0]->groups; }
            if (!reload_lists && lists) { freeze(S.disabled_list); v->disabled = vs[0]->disabled; }
            if (!reload_substs && substs) { freeze(S.subst_file); v->subst = vs[0]->subst; v->nets = vs[0]->nets; }
        }
        vs.push_back(v);
    }
    base_conf = vs[0];
    base_conf->from = base_conf->sure = 0;
    confs.push_back(base_conf);
    S.host_urls.push_back(CFGP(600000) ? "http://lists.example/h0" : "file:///etc/df/hosts0");
    S.update_interval = (int)CFG(10, 40);
    S.retry_interval = (int)CFG(2, 6);
    if (CFGP(500000)) {
        draw_hosts(base_conf->dyn, (int)CFG(1, 4), 60);
        vfs_put("/var/df/hosts.txt", hosts_text(base_conf->dyn));
    }
    for (ConfVer *v : vs) v->dyn = base_conf->dyn;
    serve(base_conf);
    dyn_setup();
    // A reload that began after the files were written brings them into force.
    const usec took = S.no_faults ? 1500 * MS : 40 * SEC;
    auto in_force = [took](ConfVer *v) { ev_in(took, [v] { set_sure(v, now); }); };
    static std::set<int> reloaders; // the threads of the updates; they go on to read the other files
    reloaders.clear();
    on_rename = [in_force](const std::string &to) {
        if (to != "/var/df/hosts.txt") return;
        reload_times.push_back(now);
        if (cur) reloaders.insert(cur->id);
        stat(ST_RELOADS);
        for (ConfVer *v : confs) if (v->sure == INF) in_force(v);
        reload_burst();
    };
    size_t next = 1;
    int broken = 0;
    bool scripted = CFGP(400000);
    auto commit = [&] {
        if (next >= vs.size()) return;
        ConfVer *v = vs[next];
        // a group file that makes no sense leaves the groups as they are
        bool can_break = reload_groups && files && confs.back()->sure <= now;
        if (can_break && ch_chance(S_OP, 300, 250000)) {
            static const std::vector<std::string> bad{"SERVER 192.0.2.77\nalpha.test\n", "PROTOCOL QUIC\nSERVER 192.0.2.77\nalpha.test\n", "PROTOCOL UDP\nPARALLEL ON\nalpha.test\n", "PROTOCOL TCP\nalpha.test\n"};
            v = new ConfVer(*v);
            std::vector<Group *> gs;
            for (Group *g : v->groups) if (!g->file.empty()) gs.push_back(g);
            for (Group *g : gs) { v->raw[g->file] = group_file(g); if (!g->list.empty()) v->raw.erase(g->list); }
            v->raw[gs[ch_pick(S_OP, 301, (int)gs.size())]->file] = bad[ch_pick(S_OP, 302, (int)bad.size())];
            v->groups = confs.back()->groups;
            broken++;
        } else next++;
        conf_commit(v);
        fault(F_RELOAD);
    };
    if (scripted) {
        S.hosts_script = "/etc/df/update.sh";
        run_script = [&](const std::string &) {
            if (ready_at > now) return 0;
            if (!after_calm && ch_chance(S_OP, 303, 400000)) commit();
            if (confs.back()->from == now) in_force(confs.back());
            if (after_calm || !ch_chance(S_OP, 304, 200000)) return 0;
            return 1 << 8;
        };
    }
    if (!S.no_faults) { web_fail_ppm = (int)CFG(0, 500000); web_slow_ppm = (int)CFG(0, 200000); }
    S.kinds = 1 | 2 | 4 | 32;
    S.qtypes = {T_A, T_A, T_AAAA, T_TXT};
    S.bare_ppm = 60000;
    S.cache = !substs && CFGP(150000);
    S.log = CFGP(400000);
    S.debug = CFGP(200000);
    S.burst_ppm = CFGP(500000) ? 300000 : 0;
    mk_clients(3);
    begin();
    for (int r = 0; r < 2 * versions && !crash_stop && (next < vs.size() || !r); r++) {
        workload((int)CFG(6, 20));
        if (!S.no_faults) web_broken = CFGP(200000);
        if (!scripted) {
            // the files are replaced between two updates, not while one is reading them one by one
            auto busy = [] { for (Fiber *f : fibers) if (reloaders.count(f->id) && f->state != Fiber::DONE) return true; return false; };
            while (busy()) run_for(200 * MS);
            commit();
        }
        if (CFGP(500000)) workload((int)CFG(6, 20));
        run_for(CFG(0, S.update_interval + 10) * SEC);
        if (CFGP(500000)) { run_for((S.update_interval + 5) * SEC); workload((int)CFG(6, 20)); }
    }
    calm_all();
    after_calm = true;
    run_for((2 * S.update_interval + 2 * S.retry_interval + 60) * SEC);
    if (confs.back()->sure == INF) violate("no-reload", "no update completed within %d s after all faults stopped", 2 * S.update_interval + 2 * S.retry_interval + 60);
    workload(20);
    // probe only zones that are not disabled
    std::vector<std::string> z;
    for (auto &x : S.zone_names) if (!is_disabled("ap1." + x, T_A, *confs.back())) z.push_back(x);
    S.zone_names = z;
    S.zones = (int)z.size();
    finish();
}

// ------------------------------------------------ malformed messages from clients and servers
static void p_malformed()
{
    P.tcp = CFGP(500000);
    P.tcp_groups = CFGP(400000);
    P.udp_groups = !P.tcp_groups || CFGP(500000);
    P.v6 = true;
    P.malformed_clients = CFGP(800000);
    P.malformed_servers = !P.malformed_clients || CFGP(700000);
    P.strict_ppm = P.malformed_servers ? 0 : 300000;
    P.net_faults = CFGP(300000);
    P.tcp_faults = CFGP(300000);
    P.up_faults = CFGP(300000);
    P.srv_down = false;
    S.huge_ppm = CFGP(400000) ? 300000 : 0;
    strict_draw();
    simple_topology();
    S.kinds = 0x7f;
    S.edns_ppm = 300000;
    S.collide_ppm = (int)CFG(0, 500000);
    S.cache = CFGP(500000);
    S.mem_cache = CFGP(800000);
    if (!S.mem_cache) S.overwrite_cache = true;
    S.log = CFGP(400000);
    S.debug = CFGP(200000);
    S.stats = CFGP(250000);
    if (CFGP(300000)) { S.block_ip.push_back(ip4(60, 0, 0, 1)); S.subst[ip4(61, 0, 0, 1)] = ip4(62, 0, 0, 1); S.block_negative = CFGP(300000); }
    if (CFGP(300000)) draw_hosts(S.hosts, (int)CFG(1, 6), 0);
    S.ap = !P.tcp_groups && CFGP(250000);
    P.long_gaps = CFGP(200000);
    mk_clients(3);
    begin();
    workload((int)CFG(20, 80));
    finish();
}

// ------------------------------------------------ the log and the page of statistics
struct LogEntry { char kind; std::string agent, type, name; int len; int count; };
static std::string STATPAGE;
static const char *LOG = "/var/log/df/dnsforwarder.log";
static std::map<std::string, std::string> log_kept; // files that were there before
static std::vector<usec> stat_writes;
static std::vector<LogEntry> read_log(std::map<std::string, int> &kinds)
{
    std::vector<std::string> files;
    std::string t;
    for (auto &f : vfs) if (f.first.compare(0, strlen(LOG), LOG) == 0 && !log_kept.count(f.first) && vfs_get(f.first, t)) files.push_back(f.first);
    std::vector<LogEntry> r;
    for (auto &f : files) {
        vfs_get(f, t);
        size_t i = 0;
        bool first = true, answer = false;
        if (!t.empty() && t.back() != '\n') violate("log-torn", "%s ends in the middle of a line: \"%s\"", f.c_str(), t.substr(t.size() > 60 ? t.size() - 60 : 0).c_str());
        while (i < t.size()) {
            size_t e = t.find('\n', i);
            if (e == std::string::npos) e = t.size();
            std::string l = t.substr(i, e - i);
            i = e + 1;
            auto digits = [&](const char *form) { for (size_t j = 0; form[j]; j++) if (j >= l.size() || (form[j] == '0' ? !isdigit((unsigned char)l[j]) : l[j] != form[j])) return false; return true; };
            if (!digits("0000/00/00 00:00:00 [")) {
                if (first || !answer || l.compare(0, 3, "   ")) violate("log-torn", "%s holds a line which is neither an entry nor a part of one: \"%s\"", f.c_str(), l.substr(0, 200).c_str());
                continue;
            }
            first = false;
            for (size_t j = 21; j + 20 < l.size(); j++) { // the start of another entry
                std::string keep = l;
                l = l.substr(j, 21);
                bool two = digits("0000/00/00 00:00:00 [");
                l = keep;
                if (two) violate("log-torn", "%s holds two entries in one line: \"%s\"", f.c_str(), l.substr(0, 200).c_str());
            }
            LogEntry x;
            x.kind = l[21];
            x.len = -1;
            answer = l.size() > 23 && l[22] == ']' && strchr("HCUTB", x.kind);
            if (l.size() < 25 || l[22] != ']') { answer = l.compare(20, 7, "[DEBUG]") == 0; continue; }
            std::vector<std::string> part;
            size_t j = 23;
            while (j < l.size() && l[j] == '[') {
                size_t q = l.find(']', j);
                if (q == std::string::npos) break;
                part.push_back(l.substr(j + 1, q - j - 1));
                j = q + 1;
            }
            if (x.kind == 'B') { kinds["B " + (part.size() > 1 ? part[1] : "")]++; continue; }
            if (part.size() != 3) { violate("log-torn", "%s holds a broken entry: \"%s\"", f.c_str(), l.substr(0, 200).c_str()); continue; }
            x.agent = part[0];
            x.type = part[1];
            x.name = part[2];
            std::string rest = l.substr(j);
            if (x.kind == 'R') answer = false;
            else if (sscanf(rest.c_str(), " : %d bytes", &x.len) == 1) ;
            else if (rest == " Timed out.") { x.kind = 't'; answer = false; }
            else if (rest.compare(0, 18, " An error occured ") == 0) { x.kind = 'e'; answer = false; }
            else { violate("log-torn", "%s holds a broken entry: \"%s\"", f.c_str(), l.substr(0, 200).c_str()); continue; }
            kinds[std::string(1, x.kind) + " " + x.name]++;
            r.push_back(x);
        }
    }
    for (auto &k : log_kept) if (!vfs_get(k.first, t) || t != k.second) violate("log-overwritten", "%s, which was there before, was changed", k.first.c_str());
    return r;
}
static std::vector<std::pair<int, usec>> killed_at; // life, time
// Every answer and refusal is in the log.
static void check_log(usec margin)
{
    static const std::map<uint16_t, std::string> tn{{T_A, "IPv4 address(A)"}, {T_AAAA, "IPv6 address(AAAA)"}, {T_TXT, "Text strings(TXT)"}};
    std::map<std::string, int> kinds, must, may, all, logged, known;
    std::vector<LogEntry> es = read_log(kinds);
    for (Query *q : queries) {
        if (q->malformed) continue;
        std::string n = q->name();
        for (char &ch : n) ch = (char)tolower(ch);
        std::string id = q->c->a.ipstr() + " " + n;
        all[id] += std::max(q->arrived, (int)q->answers.size()) + (q->c->tcp ? 1 : 0);
        for (size_t i = 0; i < q->answers.size(); i++) {
            bool sure = true;
            for (auto &k : killed_at) if (q->life == k.first && q->answers[i] > k.second - margin) sure = false;
            if (q->life == life && q->answers[i] > now - margin) sure = false;
            bool refused = (q->resp[i].size() == q->wire.size() && q->resp[i].compare(12, std::string::npos, q->wire, 12, std::string::npos) == 0);
            std::string ev = id + " " + (refused ? "*" : std::to_string(q->resp[i].size()));
            if (sure) must[ev]++;
            if (!q->c->tcp) may[ev]++;
        }
    }
    stat(ST_LOGLINES, es.size());
    for (auto &e : es) {
        if (e.agent.empty()) continue; // a query of the program's own
        std::string id = e.agent + " " + e.name;
        logged[id]++;
        known[id + " " + std::to_string(e.len)]++;
        known[id + " *"]++;
    }
    for (auto &m : must)
        if (known[m.first] < m.second) violate("log-lost", "%d answers (client, name, length: %s) were sent, but the log holds only %d", m.second, m.first.c_str(), known[m.first]);
    for (auto &l : logged)
        if (l.second > all[l.first]) violate("log-invented", "the log accounts for %d queries of %s, but only %d reached the program", l.second, l.first.c_str(), all[l.first]);
    // the page of this life
    if (!S.stats) return;
    std::string page;
    if (!vfs_get(STATPAGE, page) || page.empty()) return;
    stat(ST_STATPAGES, 1);
    struct Row { int v[7]; };
    std::map<std::string, Row> rows;
    Row sum{{0, 0, 0, 0, 0, 0, 0}}, told;
    size_t at = page.find("var InfoArray = ["), end;
    bool ok = at != std::string::npos && page.compare(0, 12, "<html><body>") == 0 && page.size() > 15 && page.compare(page.size() - 15, 15, "</body></html>\n") == 0;
    if (ok) at += 17;
    while (ok && at < page.size() && page[at] == '{') {
        char n[512];
        Row r;
        end = page.find('}', at);
        ok = end != std::string::npos && sscanf(page.substr(at, end - at + 1).c_str(), "{Domain:\"%500[^\"]\",Total:%d,RaF:%d,Hosts:%d,Cache:%d,UDP:%d,TCP:%d,BlockedMsg:%d}", n, &r.v[0], &r.v[1], &r.v[2], &r.v[3], &r.v[4], &r.v[5], &r.v[6]) == 8;
        if (!ok) break;
        at = end + 2;
        if (rows.count(n)) violate("page-wrong", "the page of statistics lists %s twice", n);
        if (r.v[0] != r.v[1] + r.v[2] + r.v[3] + r.v[4] + r.v[5]) violate("page-wrong", "the page of statistics does not add up for %s: %s", n, page.substr(at > 200 ? at - 200 : 0, 200).c_str());
        rows[n] = r;
        for (int i = 0; i < 7; i++) sum.v[i] += r.v[i];
    }
    end = page.find("var Sum = {");
    ok = ok && end != std::string::npos && sscanf(page.c_str() + end, "var Sum = { Total : %d,RaF : %d,Hosts : %d,Cache : %d,UDP : %d,TCP : %d,BlockedMsg : %d}", &told.v[0], &told.v[1], &told.v[2], &told.v[3], &told.v[4], &told.v[5], &told.v[6]) == 7;
    if (!ok) violate("page-wrong", "the page of statistics is broken: \"%s\"", page.substr(0, 300).c_str());
    for (int i = 0; i < 7; i++) if (ok && sum.v[i] != told.v[i]) violate("page-wrong", "the page of statistics gives %d as the sum of column %d, which is %d", told.v[i], i, sum.v[i]);
    auto n_of = [&](char k, const std::string &n) { auto it = kinds.find(std::string(1, k) + " " + n); return it == kinds.end() ? 0 : it->second; };
    for (auto &r : rows) {
        const int most[6] = {0, n_of('R', r.first) + n_of('t', r.first), n_of('H', r.first), n_of('C', r.first), n_of('U', r.first), n_of('T', r.first)};
        for (int i = 1; i < 6; i++)
            if (r.second.v[i] > most[i]) violate("page-wrong", "the page of statistics counts %d events in column %d for %s, but the log holds only %d", r.second.v[i], i, r.first.c_str(), most[i]);
        if (r.second.v[6] > n_of('B', r.first)) violate("page-wrong", "the page of statistics counts %d discarded messages for %s, but the log holds only %d", r.second.v[6], r.first.c_str(), n_of('B', r.first));
    }
    // what was answered while no page was being written is counted
    std::map<std::string, int> least;
    bool redirects = false;
    for (auto &h : S.hosts) if (h.type == HostRule::CNAME) redirects = true;
    for (Query *q : queries) {
        if (q->malformed || q->life != life) continue;
        std::string n = q->name();
        for (char &ch : n) ch = (char)tolower(ch);
        if (n_of('H', n) && redirects) continue;
        for (usec t : q->answers) {
            bool sure = t < stat_writes.back() - margin;
            for (usec x : stat_writes) if (x > t - margin && x < t + margin) sure = false;
            if (sure) least[n]++;
        }
    }
    for (auto &l : least)
        if (rows[l.first].v[0] < l.second) violate("page-wrong", "%d answers for %s were sent while no page of statistics was being written, but it counts only %d", l.second, l.first.c_str(), rows[l.first].v[0]);
}
static void p_log()
{
    const int lives = CFGP(500000) ? 1 : (int)CFG(2, 3);
    P.tcp = lives == 1 && CFGP(500000);
    P.tcp_groups = lives == 1 && CFGP(400000);
    strict_draw();
    P.slow_servers = CFGP(300000) ? 1500 : 0;
    simple_topology();
    S.labels = (int)CFG(1, 4);
    S.kinds = CFGP(500000) ? 0x7f : 1 | 2 | 4;
    S.qtypes = {T_A, T_A, T_AAAA, T_TXT};
    S.zone_names = {"alpha.test", "beta.test", "corp.example", "sub.corp.example", "gamma.net"};
    S.zones = 5;
    S.burst_ppm = CFGP(500000) ? 300000 : 0;
    S.cache = CFGP(500000);
    S.mem_cache = CFGP(500000);
    if (CFGP(600000)) draw_hosts(S.hosts, (int)CFG(1, 6), 0);
    if (CFGP(300000)) { S.block_ip.push_back(ip4(60, 0, 0, 1)); S.block_negative = CFGP(300000); }
    S.log = true;
    S.log_threshold = CFGP(500000) ? (int)CFG(100, 1500) : (int)CFG(1000, 20000);
    S.stats = CFGP(600000);
    S.stat_interval = CFGP(400000) ? (int)CFG(1, 3) : (int)CFG(1, 60);
    if (CFGP(300000)) { int n = (int)CFG(20, 200); for (int i = 0; i < n; i++) S.extra_names.push_back(filler(i)); S.extra_ppm = 500000; }
    S.debug = CFGP(150000);
    if (CFGP(400000))
        for (int i = (int)CFG(1, 4); i-- > 0;) { log_kept[LOG + ("." + std::to_string(CFG(1, 6)))] = "kept"; }
    for (auto &k : log_kept) vfs_put(k.first, k.second);
    on_stdio_write = [](const std::string &path) { if (path.size() > 14 && path.compare(path.size() - 14, 14, "statistic.html") == 0) { STATPAGE = path; stat_writes.push_back(now); } };
    mk_clients(3);
    begin();
    const usec margin = S.no_faults && !knobs.site_mod && !knobs.stall_ppm ? 1 * SEC : 15 * SEC;
    for (int l = 0; l < lives; l++) {
        if (l + 1 < lives)
            switch (CFG(0, 2)) {
            case 0: crash_at_step(steps + (uint64_t)CFG(1, 300000)); break;
            case 1: sysk.crash_fsop = CFG(0, 40); break;
            default: break;
            }
        for (int i = 0; i < 3 && !crash_stop; i++) { workload((int)CFG(3, 20)); run_for(CFG(0, 20) * SEC); }
        if (l + 1 < lives) {
            crash_at_step(0);
            sysk.crash_fsop = -1;
            fault(F_CRASH);
            trace("---- the program is killed ----");
            killed_at.push_back({life, now});
            tcp_open.clear();
            world_restart();
            run_for(100 * MS);
        }
    }
    finish();
    run_for(20 * SEC);
    if (S.stats) run_for((S.stat_interval + 1) * SEC);
    check_log(margin);
}

// ------------------------------------------------ TCP groups behind SOCKS5 proxies
static std::vector<Addr> all_proxies;
static void give_proxies(Group *g)
{
    int n = (int)CFG(1, 2);
    for (int i = 0; i < n; i++) {
        Addr a = mkaddr(("198.51.100." + std::to_string(1 + all_proxies.size())).c_str(), 1080 + (int)all_proxies.size());
        g->proxies.push_back(a);
        all_proxies.push_back(a);
    }
}
static void p_socks()
{
    P.tcp = CFGP(500000);
    P.tcp_groups = true;
    P.udp_groups = CFGP(200000);
    P.tcp_faults = true;
    P.v6 = true;
    S.huge_ppm = CFGP(400000) ? 300000 : 0;
    strict_draw();
    simple_topology();
    if (CFGP(300000)) mk_group(true, {zone_name(0)}, 2); // perhaps a direct one
    bool any = false;
    for (Group *g : S.groups) if (g->tcp && (CFGP(750000) || !any)) { give_proxies(g); any = true; }
    if (CFGP(200000)) for (Group *g : S.groups) if (g->tcp && !g->proxies.empty()) { g->proxies = {all_proxies[0]}; } // shared
    S.kinds = 0x7f;
    S.edns_ppm = 200000;
    S.collide_ppm = (int)CFG(0, 300000);
    mk_clients(3);
    begin([] {
        if (S.no_faults) return;
        for (auto &a : all_proxies)
            if (CFGP(500000)) proxy_behaviour(a, true, CFGP(400000) ? (int)CFG(0, 400000) : 0, CFGP(400000) ? (int)CFG(0, 400000) : 0, CFGP(300000) ? (int)CFG(0, 200000) : 0);
    });
    workload((int)CFG(12, 40), [](uint32_t k) {
        if (S.no_faults || !ch_chance(S_OP, k, 60000)) return false;
        Addr a = all_proxies[ch_pick(S_OP, k + 1, (int)all_proxies.size())];
        bool up = ch_chance(S_OP, k + 2, 400000);
        trace("proxy %s is now %s", a.str().c_str(), up ? "up" : "down");
        proxy_behaviour(a, up, 0, 0, 0);
        fault(F_PROXYERR);
        return true;
    });
    finish();
}

// ------------------------------------------------ resources stay bounded, phase after phase of the same load
static void p_resources()
{
    P.tcp = CFGP(600000);
    P.tcp_groups = CFGP(500000);
    P.udp_groups = !P.tcp_groups || CFGP(500000);
    P.tcp_faults = CFGP(700000);
    P.senderr = CFGP(200000);
    P.malformed_clients = CFGP(200000);
    P.malformed_servers = CFGP(200000);
    P.srv_down = CFGP(500000);
    P.strict_ppm = 200000;
    strict_draw();
    simple_topology();
    for (Group *g : S.groups) if (g->tcp && CFGP(250000)) give_proxies(g);
    S.labels = 4;
    S.zones = 2;
    S.kinds = 1 | 2 | 4 | 8;
    S.burst_ppm = 200000;
    S.retx_ppm = 100000;
    S.ttl_mode = 1;
    S.cache = CFGP(150000);
    S.log = CFGP(150000);
    S.log_threshold = 1024 * (int)CFG(1, 4);
    S.stats = CFGP(150000);
    if (CFGP(300000)) draw_hosts(S.hosts, (int)CFG(1, 6), 0);
        if (CFGP(300000)) {
        // lists that are fetched again and again
        S.host_urls.push_back("http://lists.example/h0");
        S.update_interval = (int)CFG(20, 200);
        S.retry_interval = (int)CFG(5, 30);
        base_version();
        ConfVer *v = next_version();
        v->n = 1;
        confs.push_back(v);
        dyn_setup();
        if (!S.no_faults) web_fail_ppm = (int)CFG(0, 500000);
    }
    mk_clients(4);
    begin();
    struct M { int64_t fds, blocks, bytes; };
    std::vector<M> ms;
    int phases = 12, per = (int)CFG(15, 45);
    for (int ph = 0; ph < phases && !crash_stop; ph++) {
        workload(per);
        for (Client *c : S.clients) if (c->tcp && !c->gone && !c->failed) { fault(F_CLIENTGONE); c->gone = true; peer_close(c->peer); }
        tcp_open.clear();
        // the servers come back, so that what has piled up gets done
        for (Server *s : S.servers) if (!s->up) { s->up = true; s->since = now; }
        run_for(300 * SEC);
        // a TCP module works off its queries one by one, and forgets old ones when it is idle
        for (int i = 0; i < 100 && net_pending_loopback(); i++) run_for(100 * SEC);
        if (net_pending_loopback()) { ms.clear(); break; }
        for (int i = 0; i < 2; i++) { op_query(udp_clients_list()[0], 700000 + ph * 64 + i * 32); run_for(3 * SEC); }
        run_for(30 * SEC);
        ms.push_back({net_open_fds(), alloc_live_count, (int64_t)alloc_live});
        trace("phase %d: %lld descriptors, %lld allocations, %lld bytes", ph, (long long)ms.back().fds, (long long)ms.back().blocks, (long long)ms.back().bytes);
        leak_report();
        stat(ST_PROBES);
    }
    // A leak keeps on taking; a high-water mark does not: every value of each third lies above every value of the third before it.
    auto grows = [&](int64_t M::*f, int64_t least, size_t steps) {
        size_t n = ms.size() / 3;
        auto ext = [&](size_t third, bool max) { int64_t r = ms[third * n].*f; for (size_t i = third * n; i < (third + 1) * n; i++) r = max ? std::max(r, ms[i].*f) : std::min(r, ms[i].*f); return r; };
        size_t ups = 0;
        for (size_t i = 1; i < ms.size(); i++) ups += ms[i].*f > ms[i - 1].*f;
        return ups >= steps && ext(1, false) - ext(0, true) >= least && ext(2, false) - ext(1, true) >= least;
    };
    if (ms.size() >= (size_t)phases) {
        auto list = [&](int64_t M::*f) { std::string r; for (auto &m : ms) r += " " + std::to_string(m.*f); return r; };
        if (grows(&M::fds, 2, 5)) violate("descriptor-leak", "open descriptors after each phase of the same load:%s", list(&M::fds).c_str());
        if (grows(&M::blocks, 4, 10)) violate("memory-leak", "live allocations after each phase of the same load:%s", list(&M::blocks).c_str());
        if (grows(&M::bytes, 1000, 10)) violate("memory-leak", "allocated bytes after each phase of the same load:%s", list(&M::bytes).c_str());
    }
    finish();
}

// ------------------------------------------------ memory, descriptors and sockets run short for a while
static void shortage(uint32_t k)
{
    auto level = [&](uint32_t i) { return (int)std::min<int64_t>(1000000, (int64_t)1 << ch_range(S_OP, k + i, 8, 20)); };
    int what = (int)ch_range(S_OP, k + 1, 1, 31);
    sysk.alloc_ppm = what & 1 ? level(2) : 0;
    net.sockerr_ppm = what & 2 ? level(3) : 0;
    net.senderr_ppm = what & 4 ? level(4) : 0;
    bool lists = !S.disabled_list.empty(); // a list or group file that cannot be opened is left out, as documented
    for (Group *g : S.groups) lists |= !g->file.empty();
    sysk.fopen_ppm = what & 8 && !lists ? level(5) : 0;
    sysk.disk_free = what & 16 ? ch_range(S_OP, k + 6, 0, 1000) : -1;
    net.recverr_ppm = ch_chance(S_OP, k + 7, 300000) ? std::min(300000, level(8)) : 0;
    trace("shortage: allocations %d, sockets %d, sends %d, files %d ppm, disk %lld bytes", sysk.alloc_ppm, net.sockerr_ppm, net.senderr_ppm, sysk.fopen_ppm, (long long)sysk.disk_free);
}
static void shortage_ends()
{
    trace("the shortage is over");
    sysk.alloc_ppm = sysk.fopen_ppm = net.sockerr_ppm = net.senderr_ppm = net.recverr_ppm = 0;
    sysk.disk_free = -1;
}
static void p_shortage()
{
    P.tcp = CFGP(400000);
    P.tcp_groups = CFGP(500000);
    P.udp_groups = !P.tcp_groups || CFGP(600000);
    P.tcp_faults = CFGP(300000);
    P.srv_down = CFGP(300000);
    P.net_faults = CFGP(300000);
    P.up_faults = CFGP(300000);
    P.strict_ppm = 0;
    P.long_gaps = CFGP(500000);
    strict_draw();
    simple_topology();
    for (Group *g : S.groups) if (g->tcp && CFGP(200000)) give_proxies(g);
    S.kinds = 1 | 2 | 4;
    S.burst_ppm = 200000;
    S.retx_ppm = 100000;
    S.labels = 5;
    S.cache = CFGP(300000);
    S.ttl_mode = 1;
    S.log = CFGP(200000);
    S.log_threshold = 1024 * (int)CFG(1, 4);
    S.stats = CFGP(200000);
    if (CFGP(300000)) draw_hosts(S.hosts, (int)CFG(1, 6), 0);
    bool reload = CFGP(500000);
    if (reload) {
        S.host_urls.push_back(CFGP(500000) ? "http://lists.example/h0" : "file:///etc/df/hosts0");
        S.update_interval = (int)CFG(5, 60);
        S.retry_interval = (int)CFG(1, 10);
        base_version();
        ConfVer *v = next_version();
        v->n = 1;
        confs.push_back(v);
        serve(v);
        // lists and groups that are read again at each update, to the same end
        static const std::vector<std::string> items{"alpha.test", "beta.test", "corp.example", "*.gamma.net", "a1.alpha.test"};
        if (CFGP(500000)) { Group *g = mk_group(P.tcp_groups && CFGP(300000), some_of(items, 1, 3), 2); g->file = "/etc/df/group0"; if (CFGP(400000)) g->list = "/etc/df/list0"; for (ConfVer *c : confs) c->groups = S.groups; }
        if (CFGP(500000)) { S.disabled_list = "/etc/df/disabled.txt"; auto d = some_of({"a0.alpha.test", "a1.beta.test", "*2.gamma.net", "c1.corp.example"}, 1, 4); for (ConfVer *c : confs) c->disabled = d; }
        dyn_setup();
    }
    mk_clients((int)CFG(1, 4));
    begin();
    static bool on;
    on = false;
    workload((int)CFG(20, 90), [](uint32_t k) {
        if (!ch_chance(S_OP, k, on ? 150000 : 60000)) return false;
        on = !on;
        if (on) shortage(k);
        else shortage_ends();
        return true;
    });
    finish();
}

struct PropDef { const char *id; void (*fn)(); const char *rule; const char *assume; };

// ------------------------------------------------ some servers of a group are dead for good
static void p_failover()
{
    bool seq = CFGP(400000); // groups that ask one server at a time
    P.tcp = CFGP(400000);
    P.tcp_groups = !seq && CFGP(500000);
    P.udp_groups = !P.tcp_groups || CFGP(600000);
    P.v6 = true;
    P.net_faults = P.up_faults = P.srv_down = false;
    S.no_faults = !seq;
    S.tcp_dead = P.tcp_groups;
    P.slow_servers = CFGP(300000) ? 1800 : 0;
    simple_topology();
    if (CFGP(400000)) mk_group(P.tcp_groups && CFGP(500000), {zone_name(0)}, 3);
    int n = 0;
    for (Group *g : S.groups) {
        // at least two servers in each group
        while (g->servers.size() < 2 || (g->servers.size() < 4 && ch_chance(S_CFG, 700 + n++, 300000)))
            g->servers.push_back(mk_server(g->tcp, g->servers[0]->a.fam == AF_INET6));
        if (seq) g->parallel = false;
        else if (!g->tcp) g->parallel = true;
    }
    S.kinds = 1 | 2 | 4;
    S.edns_ppm = 200000;
    S.burst_ppm = CFGP(300000) ? 200000 : 0;
    S.cache = CFGP(200000);
    static std::map<Server *, int> state; // 0 works, 1 dead
    state.clear();
    auto set = [](Group *g, Server *s, bool dead, uint32_t key) {
        state[s] = dead;
        s->drop = s->refuse = s->blackhole = s->unreach = 0;
        if (dead) {
            int how = g->tcp ? (int)ch_range(S_OP, key, 0, 3) : (int)ch_range(S_OP, key, 0, 1) * 2 + 1;
            if (g->tcp && !g->parallel && how == 1) how = 2; // it is asked only if it accepts the connection
            (how == 0 ? s->blackhole : how == 1 ? s->drop : how == 2 ? s->refuse : s->unreach) = 1000000;
            fault(F_PARTITION);
            trace("server%d is dead now (%s)", s->idx, how == 0 ? "does not respond to connections" : how == 1 ? "mute" : how == 2 ? "refuses connections" : "unreachable");
        } else trace("server%d works now", s->idx);
    };
    auto redraw = [set](Group *g, uint32_t key) {
        size_t alive = (size_t)ch_pick(S_OP, key, (int)g->servers.size());
        for (size_t i = 0; i < g->servers.size(); i++) set(g, g->servers[i], i != alive && ch_chance(S_OP, key + 1, 800000), key + 2);
    };
    mk_clients(3);
    begin([&] {
        for (Group *g : S.groups) redraw(g, 720);
        if (seq && P.sched && CFGP(300000)) { knobs.stall_ppm = (int)CFG(0, 2000); knobs.stall_max = CFG(1, 500) * MS; }
        if (seq && P.sched && CFGP(300000)) stall_sites(500);
    });
    if (!seq) {
        workload((int)CFG(20, 50), [set](uint32_t k) {
            if (!ch_chance(S_OP, k, 150000)) return false;
            // one works from the start to the end of each step: another comes up before it goes down
            Group *g = S.groups[ch_pick(S_OP, k + 1, (int)S.groups.size())];
            Server *s = g->servers[ch_pick(S_OP, k + 2, (int)g->servers.size())];
            size_t alive = 0;
            for (Server *o : g->servers) alive += !state[o];
            if (state[s]) { set(g, s, false, k + 3); return true; }
            if (alive < 2) return true;
            // what is under way has to end before a server goes down
            run_for(3 * SEC + 2 * tcp_cost());
            for (Query *q : queries) if (q->answers.size() < q->arrivals.size() && !q->c->gone) return true;
            if (g->tcp && !g->parallel) run_for((S.keepalive + 10) * SEC); // idle connections
            set(g, s, true, k + 3);
            return true;
        });
        finish();
        return;
    }
    int phases = (int)CFG(1, 4);
    for (int i = 0; i < phases; i++) {
        if (i) for (Group *g : S.groups) if (ch_chance(S_OP, 731, 700000)) redraw(g, 732);
        if (ch_chance(S_OP, 740, 600000)) workload((int)ch_range(S_OP, 741, 1, 15));
        if (ch_chance(S_OP, 742, 300000)) run_for(ch_range(S_OP, 743, 1, 40) * SEC);
        for (size_t j = 0; j < S.groups.size(); j++) {
            Group *g = S.groups[j];
            std::string zone = g->domains[0] == "*" ? zone_name(S.zones - 1) : g->domains[0];
            int rounds = S.probe_rounds;
            usec wait = S.probe_wait;
            S.probe_wait = 2500 * MS;
            S.probe_rounds = ((int)g->servers.size() + 1) * 4 + 4;
            probe(false, S.udp_local[0], zone, T_A);
            if (P.tcp) probe(true, S.tcp_local[0], zone, T_A);
            S.probe_rounds = rounds;
            S.probe_wait = wait;
        }
    }
    finish();
}

static const PropDef props[] = {
    {"P01", p_asker, "", ""},
    {"P02", p_relay, "", ""},
    {"P03", p_once, "", ""},
    {"P04", p_live, "", ""},
    {"P05", p_tcpclients, "", ""},
    {"P06", p_tcpup, "", ""},
    {"P07", p_routing, "", ""},
    {"P08", p_transport, "", ""},
    {"P09", p_disabled, "", ""},
    {"P10", p_block, "", ""},
    {"P11", p_fresh, "", ""},
    {"P12", p_complete, "", ""},
    {"P13", p_capacity, "", ""},
    {"P14", p_crash, "", ""},
    {"P15", p_hosts, "", ""},
    {"P16", p_dynhosts, "", ""},
    {"P17", p_malformed, "", ""},
    {"P18", p_resources, "", ""},
    {"P19", p_reload, "", ""},
    {"P20", p_socks, "", ""},
    {"P21", p_failover, "", ""},
    {"P22", p_shortage, "", ""},
    {"P23", p_durable, "", ""},
    {"P24", p_log, "", ""},
    {"P25", p_redirect, "", ""},
};
static const PropDef *find_prop(const std::string &p) { for (auto &d : props) if (p == d.id) return &d; return nullptr; }
void scenario(const std::string &prop)
{
    const PropDef *d = find_prop(prop);
    if (!d) { fprintf(stderr, "unknown property %s\n", prop.c_str()); _exit(3); }
    d->fn();
}
const char *prop_rule(const std::string &p) { const PropDef *d = find_prop(p); return d ? d->rule : ""; }
const char *prop_assumptions(const std::string &p) { const PropDef *d = find_prop(p); return d ? d->assume : ""; }
