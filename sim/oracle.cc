// Reference model of the forwarder and the checks against it.
#include "oracle.h"
#include <algorithm>
#include <fnmatch.h>

bool after_calm = false;
std::vector<usec> reload_times;
usec life_start = 0, ready_at = 0;
uint64_t relayed_total, cache_total, hosts_total, refused_total;
static std::map<int64_t, int64_t> wall_at; // change points: now -> wall_base

void oracle_violation(const char *kind, const std::string &msg) { violate(kind, "%s", msg.c_str()); }
std::string qdesc(const Query *q)
{
    std::string r = "query #" + std::to_string(q->n) + " (client " + std::to_string(q->c->idx) + (q->c->tcp ? " tcp " : " udp ") + q->c->a.str() + ", id " + std::to_string(q->m.id) + ", " + q->m.qname_raw + " " + type_name(q->m.qtype) + ")";
    return r;
}

// ---------------------------------------------------------------- configuration model
bool dom_match(const std::string &pat0, const std::string &name)
{
    std::string pat = pat0[0] == '.' ? pat0.substr(1) : pat0;
    if (pat.find_first_of("*?") != std::string::npos) return fnmatch(pat.c_str(), name.c_str(), 0) == 0;
    if (pat == name) return true;
    return name.size() > pat.size() && name[name.size() - pat.size() - 1] == '.' && !name.compare(name.size() - pat.size(), std::string::npos, pat);
}
static bool wild(const std::string &p) { return p.find_first_of("*?") != std::string::npos; }

std::vector<ConfVer *> confs_between(usec a, usec b)
{
    std::vector<ConfVer *> r;
    for (size_t i = 0; i < confs.size(); i++) {
        usec end = i + 1 < confs.size() ? confs[i + 1]->sure : INF;
        // a later version that is certainly in force ends all the earlier ones
        for (size_t j = i + 1; j < confs.size(); j++) end = std::min(end, confs[j]->sure);
        if (confs[i]->from <= b && end >= a) r.push_back(confs[i]);
    }
    return r;
}

bool is_disabled(const std::string &name, int type, const ConfVer &v)
{
    for (int t : S.disabled_types) if (t == type) return true;
    for (auto &d : S.disabled_domains) if (dom_match(d, name)) return true;
    for (auto &d : v.disabled) if (dom_match(d, name)) return true;
    return false;
}

static std::vector<Group *> route(const std::vector<Group *> &groups, const std::string &name, bool tcpreq, bool *fallback)
{
    auto fit = [&](Group *g) { return tcpreq ? (S.tcp2udp || g->tcp) : (S.udp2tcp || !g->tcp); };
    std::vector<Group *> r;
    // the longest matching plain suffix that fits
    size_t best = 0;
    bool have = false;
    for (Group *g : groups) {
        if (!fit(g)) continue;
        for (auto &d : g->domains)
            if (!wild(d) && dom_match(d, name)) {
                if (!have || d.size() > best) { have = true; best = d.size(); r.clear(); }
                if (d.size() == best) r.push_back(g);
            }
    }
    if (have) return r;
    for (Group *g : groups) if (fit(g)) for (auto &d : g->domains) if (wild(d) && d != "*" && dom_match(d, name)) r.push_back(g);
    if (!r.empty()) return r;
    for (Group *g : groups) if (fit(g)) for (auto &d : g->domains) if (d == "*") r.push_back(g);
    if (!r.empty()) return r;
    if (fallback) *fallback = true;
    return groups;
}
std::vector<Group *> permitted_groups(const std::string &name, bool tcpreq, usec from, usec to, bool *fallback)
{
    std::vector<Group *> r;
    for (ConfVer *v : confs_between(from, to))
        for (Group *g : route(v->groups, name, tcpreq, fallback)) r.push_back(g);
    return r;
}

// ---------------------------------------------------------------- hosts model
struct HostOut {
    enum K { NONE, REFUSED, ANSWER, RECURSE } k = NONE;
    int rtype = 0;
    std::vector<Bytes> alts;              // acceptable record data
    std::vector<std::string> targets;
};
static std::vector<std::vector<const HostRule *>> host_lists(const std::vector<HostRule> &rules, const std::string &name)
{
    std::vector<std::vector<const HostRule *>> r;
    std::vector<const HostRule *> ex;
    for (auto &h : rules) if (!wild(h.pattern) && h.pattern == name) ex.push_back(&h);
    if (!ex.empty()) { r.push_back(ex); return r; }
    std::map<std::string, std::vector<const HostRule *>> w;
    for (auto &h : rules) if (wild(h.pattern) && fnmatch(h.pattern.c_str(), name.c_str(), 0) == 0) w[h.pattern].push_back(&h);
    for (auto &p : w) r.push_back(p.second);
    if (r.empty()) r.push_back({});
    return r;
}
static bool has(const std::vector<const HostRule *> &l, HostRule::Type t) { for (auto *h : l) if (h->type == t) return true; return false; }
static HostOut host_eval(const std::vector<const HostRule *> &st, const std::vector<const HostRule *> &dy, int type)
{
    HostOut o;
    if (S.block_v6 && type == T_AAAA && (has(st, HostRule::A) || has(dy, HostRule::A) || has(st, HostRule::GOOD) || has(dy, HostRule::GOOD))) { o.k = HostOut::REFUSED; return o; }
    if (has(st, HostRule::EXCL) || has(dy, HostRule::EXCL)) return o;
    for (auto *l : {&st, &dy}) {
        auto pick = [&](HostRule::Type t) { for (auto *h : *l) if (h->type == t) o.alts.push_back(h->ip); };
        if (type != T_CNAME && has(*l, HostRule::CNAME)) {
            o.k = HostOut::RECURSE;
            for (auto *h : *l) if (h->type == HostRule::CNAME) o.targets.push_back(h->target);
            return o;
        }
        o.rtype = type;
        if (type == T_CNAME && has(*l, HostRule::CNAME)) {
            o.k = HostOut::ANSWER;
            for (auto *h : *l) if (h->type == HostRule::CNAME) o.alts.push_back(wire_name(lower(h->target)));
            return o;
        }
        if (type == T_A && has(*l, HostRule::A)) { o.k = HostOut::ANSWER; pick(HostRule::A); return o; }
        if (type == T_A && has(*l, HostRule::GOOD)) {
            bool any = false;
            for (auto *h : *l)
                if (h->type == HostRule::GOOD) {
                    auto it = S.goodip.find(h->target);
                    if (it != S.goodip.end() && !it->second.second.empty()) { any = true; for (auto &b : it->second.second) o.alts.push_back(b); }
                }
            if (any) { o.k = HostOut::ANSWER; return o; }
        }
        if (type == T_AAAA && has(*l, HostRule::AAAA)) { o.k = HostOut::ANSWER; pick(HostRule::AAAA); return o; }
        if (type == T_AAAA && has(*l, HostRule::A)) {
            o.k = HostOut::ANSWER;
            for (auto *h : *l) if (h->type == HostRule::A) o.alts.push_back(Bytes("\0\0\0\0\0\0\0\0\0\0\xff\xff", 12) + h->ip);
            return o;
        }
    }
    return o;
}
static std::vector<HostOut> host_outcomes(const std::string &name, int type, usec a, usec b)
{
    std::vector<HostOut> r;
    std::vector<ConfVer *> vs = confs_between(a, b);
    auto add = [&](const std::vector<HostRule> &dyn) {
        for (auto &s : host_lists(S.hosts, name))
            for (auto &d : host_lists(dyn, name)) r.push_back(host_eval(s, d, type));
    };
    for (ConfVer *v : vs) add(v->dyn);
    if (S.host_urls.size() == 2 && (vs.size() > 1 || S.sources_fail)) {
        // the two sources are fetched one after the other, each as it is then; one that fails is left out
        auto part = [](const ConfVer *v, size_t i) { std::vector<HostRule> h; for (size_t j = 0; j < v->dyn.size(); j++) if (v->src(j, 2) == i) h.push_back(v->dyn[j]); return h; };
        for (ConfVer *x : vs) {
            std::vector<HostRule> p0 = part(x, 0);
            for (ConfVer *y : vs)
                if (x != y) { std::vector<HostRule> q = p0, p1 = part(y, 1); q.insert(q.end(), p1.begin(), p1.end()); add(q); }
            if (S.sources_fail && x->gone != 1) add(p0);
            if (S.sources_fail && x->gone != 0) add(part(x, 1));
        }
    }
    // a reload between the individual look-ups of one query can mix two versions
    if (vs.size() > 1) r.push_back(HostOut());
    return r;
}

// Redirections that may never end are given up without an answer.
static bool circular(const std::string &name, int type, usec a, int depth = 0)
{
    if (S.hosts.empty() && S.host_urls.empty()) return false;
    if (depth >= 12) return true;
    for (auto &o : host_outcomes(name, type, a, now))
        for (auto &t : o.targets) if (circular(lower(t), type, a, depth + 1)) return true;
    return false;
}

bool oracle_circular(const std::string &name) { return circular(name, T_A, now); }

// ---------------------------------------------------------------- upstream answers
static Bytes transform(const UpResp *r, const ConfVer &v)
{
    if (!r->m.ok) return r->wire;
    Bytes w = r->wire;
    for (auto &rr : r->m.rrs)
        if (rr.section == 1 && rr.cls == 1 && (rr.type == T_A || rr.type == T_AAAA)) {
            auto it = v.subst.find(rr.rdata);
            if (it != v.subst.end() && it->second.size() == rr.rdlen) w.replace(rr.rdoff, rr.rdlen, it->second);
            else if (it == v.subst.end()) { // ranges come after single addresses
                for (auto &n : S.nets) if (n.has(rr.rdata) && !n.to.empty()) w.replace(rr.rdoff, rr.rdlen, n.to);
                for (auto &n : v.nets) if (n.has(rr.rdata)) w.replace(rr.rdoff, rr.rdlen, n.to);
            }
        }
    return w;
}
static bool must_block(const UpResp *r)
{
    if (!r->m.ok) return false;
    if (S.block_negative && r->m.rcode() != 0) return true;
    if (S.ap && !r->m.edns()) return true;
    for (auto &rr : r->m.rrs)
        if (rr.section == 1 && rr.cls == 1 && (rr.type == T_A || rr.type == T_AAAA)) {
            for (auto &b : S.block_ip) if (b == rr.rdata) return true;
            if (!S.nets.empty() && !confs.back()->subst.count(rr.rdata)) for (auto &n : S.nets) if (n.to.empty() && n.has(rr.rdata)) return true;
        }
    return false;
}
static std::map<std::string, std::vector<UpResp *>> resp_by_q; // "name type" -> responses
static std::string nkey(const std::string &n, int t) { return n + " " + std::to_string(t); }

void oracle_new_upstream_response(UpResp *r)
{
    r->blocked = must_block(r);
    if (r->blocked) stat(ST_BLOCKED);
    if (r->m.qd >= 1) resp_by_q[nkey(r->m.qname, r->m.qtype)].push_back(r);
}


// ---------------------------------------------------------------- bookkeeping
struct UpKey { std::map<Server *, int> sent; int total = 0; usec first = 0, last = 0; };
static std::map<std::string, UpKey> up_by_wire;              // upstream transmissions by exact bytes
static std::map<std::string, int> arrivals_by_wire, tcp_arrivals_by_wire;
static std::map<std::string, usec> up_seen;                  // "id name type" forwarded in this life, since when
static std::map<std::string, std::vector<Query *>> q_by_name; // lower-case name -> queries that arrived
static std::string mkey(int id, const std::string &n, int t) { return std::to_string(id) + " " + n + " " + std::to_string(t); }
static std::map<std::string, int> internal_sent;             // "target type" -> redirected queries sent
static std::vector<std::pair<std::vector<UpResp *>, Query *>> provisional; // one of these must turn out to be the answer to a pending query

// ---------------------------------------------------------------- cache model
struct CRec {
    std::string owner;
    int type = 0;
    Bytes rdata;
    int64_t ttl = 0;
    int64_t lo = 0, hi = -1; // wall seconds between which it was stored; hi < 0: not certain yet
    UpResp *src = nullptr;
    bool must = false;
    int64_t must_exp = 0;
    int life = 0;
    bool small = true;
    usec at = 0; // delivered
    bool asked = false;
    int64_t ahi() const { return hi >= 0 ? hi : lo + (src && src->srv && src->srv->tcp ? 150 : 15); } // a TCP module may be waiting for a connection when data arrives
};
static std::map<std::string, std::vector<CRec *>> cache;
static int64_t wsec() { return wall_us() / SEC; }
static std::map<const Query *, int64_t> arrival_wsec;
static bool cacheable(int t) { return t == T_A || t == T_AAAA || t == T_HTTPS || t == T_TXT || t == T_CNAME || t == T_PTR || t == T_NS || t == T_MX; }

struct TtlRule { std::string dom; int state; int64_t a, b; int infect; };
static const std::vector<TtlRule> &ttl_rules()
{
    static std::vector<TtlRule> r;
    static bool done = false;
    if (done) return r;
    done = true;
    for (auto &s : S.cache_control) {
        char d[128] = "", c[32] = "", arg[64] = "";
        sscanf(s.c_str(), "%127s %31s %63s", d, c, arg);
        TtlRule t{d, 0, 1, 0, 0};
        char *p = c;
        while (*p == '$') { t.infect++; p++; }
        if (!strcmp(p, "orig")) t.state = 0;
        else if (!strcmp(p, "nocache")) t.state = 1;
        else if (!strcmp(p, "fixed")) { t.state = 2; t.a = 0; t.b = atoll(arg); }
        else { t.state = 2; unsigned x = 0, y = 0; sscanf(arg, "%ux+%u", &x, &y); t.a = x; t.b = y; }
        r.push_back(t);
    }
    if (S.override_ttl > -1) r.push_back({"*", 2, 0, S.override_ttl, 0});
    else if (S.multiple_ttl > 1) r.push_back({"*", 2, S.multiple_ttl, 0, 0});
    return r;
}
static const TtlRule *ttl_find(const std::string &name)
{
    const TtlRule *best = nullptr;
    for (auto &r : ttl_rules()) if (!wild(r.dom) && dom_match(r.dom, name) && (!best || r.dom.size() > best->dom.size())) best = &r;
    if (best) return best;
    for (auto &r : ttl_rules()) if (wild(r.dom) && dom_match(r.dom, name)) return &r;
    return nullptr;
}
static int64_t ttl_eff(const std::string &qname, const std::string &owner, int64_t ttl)
{
    const TtlRule *q = ttl_find(qname), *u;
    if (q && q->infect == 0) u = q;
    else if (q && q->infect == 1) { u = ttl_find(owner); if (!u) u = q; }
    else u = ttl_find(owner);
    if (!u || u->state == 0) return ttl;
    if (u->state == 1) return 0;
    return (int64_t)(uint32_t)(u->a * ttl + u->b);
}

void oracle_upstream_delivered(UpResp *r)
{
    mix(r->n + 7000);
    if (!S.cache || r->blocked) return;
    for (ConfVer *v : confs_between(now, now)) {
        Msg m = v->subst.empty() && v->nets.empty() && S.nets.empty() ? r->m : parse(transform(r, *v));
        for (auto &rr : m.rrs) {
            if (rr.cls != 1 || !cacheable(rr.type)) continue;
            CRec *c = new CRec;
            c->owner = rr.name;
            c->type = rr.type;
            c->rdata = rr.rdata;
            c->ttl = ttl_eff(r->m.qname, rr.name, rr.ttl);
            c->lo = wsec();
            c->src = r;
            c->at = now;
            c->life = life;
            c->small = rr.rdata.size() + rr.name.size() < 300;
            cache[nkey(c->owner, c->type)].push_back(c);
        }
    }
}
static void cm_relayed(UpResp *r)
{
    if (!S.cache) return;
    int64_t w = wsec();
    for (auto &rr : r->m.rrs) {
        auto &v = cache[nkey(rr.name, rr.type)];
        for (CRec *c : v)
            if (c->src == r && c->hi < 0) {
                c->hi = w;
                if (c->ttl <= 0 || !c->small) continue;
                int64_t e = c->lo + c->ttl;
                for (CRec *o : v) if (o != c && o->rdata == c->rdata && o->ttl > 0 && o->lo <= c->lo && o->ahi() + o->ttl >= c->lo) e = std::min(e, o->lo + o->ttl);
                c->must = true;
                c->must_exp = e;
            }
    }
}
static bool crec_usable(const CRec *c) { return c->life == life || (!S.mem_cache && S.reload_cache); }
// An answer to a question that was not asked (yet) is not stored; it may have waited for the program a while, though.
static bool crec_asked(CRec *c)
{
    if (S.cache_parallel || c->asked) return true;
    if (c->life != life) return false;
    auto it = up_seen.find(mkey(c->src->m.id, c->src->m.qname, c->src->m.qtype));
    return c->asked = it != up_seen.end() && it->second <= c->at + (c->src->srv && c->src->srv->tcp ? 150 * SEC : knobs.stall_max ? 15 * SEC : SEC);
}
static bool cm_match(const RR &rr, int64_t sa, int64_t sn, std::vector<UpResp *> &src)
{
    std::vector<UpResp *> prov;
    for (CRec *c : cache[nkey(rr.name, rr.type)]) {
        if (c->rdata != rr.rdata || c->ttl <= 0 || !crec_usable(c) || !crec_asked(c)) continue;
        int64_t t = (int64_t)rr.ttl;
        if (S.ignore_ttl) { if (S.cache_parallel ? t < 1 || t > c->ttl : t != c->ttl) continue; } // parallel: lowered to the smallest
        else {
            int64_t hi = c->ttl - std::max<int64_t>(0, sa - c->ahi()), lo = c->ttl - (sn - c->lo);
            if (t < 1 || t > hi) continue;
            if (!S.cache_parallel && t < lo) continue;
        }
        if (c->hi >= 0) return true;
        prov.push_back(c->src);
    }
    src = prov;
    return !prov.empty();
}
static std::string cm_explain(const Query *q, const std::string &qname, int qtype, const std::vector<RR> &ans, bool cnames_only = false)
{
    auto it = arrival_wsec.find(q);
    int64_t sa = it == arrival_wsec.end() ? wsec() : it->second, sn = wsec();
    std::string cur = qname;
    size_t i = 0;
    std::vector<std::vector<UpResp *>> prov;
    std::set<std::string> seen;
    int finals = 0;
    for (; i < ans.size(); i++) {
        const RR &r = ans[i];
        if (r.name != cur) return "record " + std::to_string(i) + " is owned by " + r.name + ", expected " + cur;
        if (!(r.type == qtype || (r.type == T_CNAME && qtype != T_CNAME && !finals))) return "record of type " + type_name(r.type);
        std::vector<UpResp *> src;
        if (!cm_match(r, sa, sn, src)) return "no record that is still fresh was received for " + r.name + " " + type_name(r.type) + " with TTL " + std::to_string(r.ttl) + " data " + hex(r.rdata, 24);
        if (!src.empty()) prov.push_back(src);
        if (!seen.insert(std::to_string(r.type) + r.name + r.rdata).second) return "the same record twice";
        if (r.type == qtype) finals++;
        else cur = name_from_wire(r.rdata);
    }
    if (!finals && !cnames_only) return "no record of the requested type";
    for (auto &r : prov) provisional.push_back({r, (Query *)q});
    return "";
}
// records the cache certainly holds for the whole interval up to now; empty: no claim
static std::vector<const CRec *> cm_must(const Query *q, const std::string &name, int type, usec since)
{
    std::vector<const CRec *> out;
    if (!S.cache || !S.track_cache || S.cache_parallel || S.mixed_case || name.empty() || !cacheable(type)) return out;
    int64_t sn = wsec();
    auto it = arrival_wsec.find(q);
    int64_t sa = it == arrival_wsec.end() ? sn : it->second;
    std::string cur = name;
    size_t bytes = 0;
    auto musts = [&](const std::string &n, int t) {
        std::vector<const CRec *> v;
        for (CRec *c : cache[nkey(n, t)])
            if (c->must && c->life == life && c->hi < sa && (S.ignore_ttl || c->must_exp - sn >= 3)) {
                bool dup = false;
                for (auto *o : v) if (o->rdata == c->rdata) dup = true;
                if (!dup) v.push_back(c);
            }
        return v;
    };
    if (type != T_CNAME)
        for (int hop = 0; hop < 6; hop++) {
            std::set<Bytes> live;
            for (CRec *c : cache[nkey(cur, T_CNAME)]) if (crec_usable(c) && crec_asked(c) && c->ttl > 0 && (S.ignore_ttl || c->ahi() + c->ttl >= sa)) live.insert(c->rdata);
            if (live.empty()) break;
            auto m = musts(cur, T_CNAME);
            if (live.size() != 1 || m.size() != 1) return {};
            out.push_back(m[0]);
            for (CRec *c : cache[nkey(cur, T_CNAME)]) bytes += c->rdata.size() + cur.size() + 14;
            cur = name_from_wire(m[0]->rdata);
        }
    auto f = musts(cur, type);
    if (f.empty()) return {};
    for (auto *c : f) out.push_back(c);
    // the answer is put together from everything that may be stored, without compressed names, in a buffer of limited size
    for (CRec *c : cache[nkey(cur, type)]) bytes += c->rdata.size() + cur.size() + 14;
    if (bytes > 2400) return {};
    (void)since;
    return out;
}

// ---------------------------------------------------------------- queries
void oracle_query_arrival(Query *q, usec t)
{
    mix(q->n + 9000);
    if (q->life != life) { // sent to the previous process, arrives at this one
        q->life = life;
        q->arrivals = {t};
        q->answers.clear();
        q->resp.clear();
        q->how.clear();
        arrival_wsec.erase(q);
    }
    std::string w(q->wire);
    q->arrived++;
    arrivals_by_wire[w]++;
    if (q->c->tcp) tcp_arrivals_by_wire[w]++;
    if (!arrival_wsec.count(q)) { arrival_wsec[q] = wsec(); q_by_name[q->m.qname].push_back(q); }
    if (S.no_faults && now >= ready_at && !q->malformed && S.must_all && !q->c->gone && !q->c->slow) {
        usec slack = 0;
        for (Server *s : S.servers) slack = std::max(slack, s->dmax);
        slack = slack * (S.hosts.empty() && S.host_urls.empty() ? 1 : 3) + 2 * net.big_delay + net.jitter * 6 + 1500 * MS + (q->c->tcp ? 2 * net.seg_gap * 20 : 0);
        if (usec tc = tcp_cost()) slack += 30 * tc + 500 * MS + net.seg_gap * 40;
        size_t need = q->arrivals.size();
        q->must = true;
        stat(ST_MUSTANSWER);
        ev_at(t + slack, [q, need, slack, t] {
            if (q->answers.size() >= need || q->c->gone || q->c->malformed_sent || q->life != life) return;
            if (circular(q->m.qname, q->m.qtype, t)) return;
            // identical queries (same ID and question): an answer is credited to the oldest, though the oldest may have been lost without fault of the program
            size_t asked = 0, got = 0;
            for (Query *o : q->c->qs)
                if (!o->malformed && o->life == life && !o->arrivals.empty() && o->arrivals[0] <= t && o->m.id == q->m.id && o->m.qname == q->m.qname && o->m.qtype == q->m.qtype && o->m.qclass == q->m.qclass) {
                    got += o->answers.size();
                    for (usec x : o->arrivals) {
                        bool excused = !o->must;
                        for (usec y : reload_times) if (y >= x - 200 * MS && y <= x + slack) excused = true;
                        asked += x <= t && !excused;
                    }
                }
            if (got >= asked) return;
            // a reload replaces the modules; queries on their way through the old ones are lost
            for (usec x : reload_times) if (x >= t - 200 * MS && x <= now) return;
            for (UpResp *r : resp_by_q[nkey(q->m.qname, q->m.qtype)]) if (r->m.id == q->m.id && r->blocked && !r->delivered.empty()) return;
            // the same question with the same ID was asked before the servers got faster: the later one's answer went to the earlier one
            for (UpResp *r : resp_by_q[nkey(q->m.qname, q->m.qtype)]) if (r->m.id == q->m.id && r->delivered.empty()) return;
            // when more than eight answers had to be discarded, the program may open a new socket for that group; what is on its way to the old one is lost
            int discarded = 0;
            for (UpResp *r : upresps) discarded += r->blocked && !r->delivered.empty();
            if (discarded > 8) for (usec x : net_udp_closed()) if (x >= t - 200 * MS && x <= now) return;
            for (auto &o : host_outcomes(q->m.qname, q->m.qtype, q->arrivals[0], now))
                for (auto &tg : o.targets)
                    for (UpResp *r : resp_by_q[nkey(lower(tg), q->m.qtype)]) if (r->blocked) return;
            oracle_violation("no-answer", qdesc(q) + " got " + std::to_string(q->answers.size()) + " answer(s) for " + std::to_string(need) + " arrival(s) within " + std::to_string(slack / 1000) + " ms although nothing failed");
        });
    }
}
void oracle_tcp_client_closed(Client *c, bool failed_connect)
{
    mix(c->idx + 11000);
    if (c->gone || c->malformed_sent || c->halfway || c->slow) return;
    if (S.no_faults) {
        for (Query *q : c->qs)
            if (!q->malformed && q->answers.size() < q->arrivals.size() && !circular(q->m.qname, q->m.qtype, q->arrivals[0]))
                oracle_violation("tcp-closed", "the program " + std::string(failed_connect ? "refused" : "closed") + " the connection of TCP client " + std::to_string(c->idx) + " while " + qdesc(q) + " was unanswered");
    }
}

static bool echo_refused(const Query *q, const Bytes &d)
{
    Bytes e = q->wire;
    if (e.size() < 12) return false;
    e[2] = (char)(e[2] | 0x80);
    e[3] = (char)((e[3] | 0x80) & 0xf0);
    return e == d;
}

// Does one of the resolutions of (name,type) explain the answer records?
static bool explain_target(Query *q, const std::string &name, int type, const std::vector<RR> &ans, int rcode, int depth, UpResp *&used)
{
    usec a = q->arrivals[0];
    auto same = [](const RR &x, const RR &y) { return x.name == y.name && x.type == y.type && x.rdata == y.rdata && x.ttl == y.ttl; };
    auto keep = [](const RR &r) { return r.section == 1 && (r.type == T_A || r.type == T_AAAA || r.type == T_CNAME); };
    for (ConfVer *v : confs_between(a, now)) {
        if (is_disabled(name, type, *v)) { if (ans.empty() && !rcode) return true; }
        for (UpResp *r : resp_by_q[nkey(name, type)]) {
            if (r->blocked || r->delivered.empty() || !r->m.ok || r->used >= (int)r->delivered.size()) continue;
            Msg m = v->subst.empty() && v->nets.empty() && S.nets.empty() ? r->m : parse(transform(r, *v));
            std::vector<RR> want;
            for (auto &rr : m.rrs) if (keep(rr)) want.push_back(rr);
            if (want.size() != ans.size() || m.rcode() != rcode) continue;
            bool eq = true;
            for (size_t i = 0; i < want.size(); i++) if (!same(want[i], ans[i])) eq = false;
            if (eq) { if (!ans.empty() && (type == T_A || type == T_AAAA)) used = r; return true; } // (otherwise it could be any of several)
        }
    }
    for (auto &o : host_outcomes(name, type, a, now)) {
        if (o.k == HostOut::ANSWER && ans.size() == 1 && ans[0].type == o.rtype && ans[0].name == name && std::find(o.alts.begin(), o.alts.end(), ans[0].rdata) != o.alts.end()) return true;
        if (o.k == HostOut::REFUSED && ans.empty()) return true;
        if (o.k == HostOut::RECURSE && depth < 16 && !ans.empty() && ans[0].type == T_CNAME && ans[0].name == name)
            for (auto &t : o.targets)
                if (lower(t) == name_from_wire(ans[0].rdata) && explain_target(q, lower(t), type, std::vector<RR>(ans.begin() + 1, ans.end()), rcode, depth + 1, used)) return true;
    }
    if (S.cache && rcode == 0) {
        std::vector<RR> all = ans;
        if (cm_explain(q, name, type, all, type != T_A && type != T_AAAA && type != T_CNAME).empty()) return true; // only these types are taken over from the answer
    }
    return false;
}

// Tries to explain datagram d as the answer to q; returns the explanation or 0 and a reason.
static int explain(Query *q, const Bytes &d, const Msg &m, std::string &why)
{
    usec a = q->arrivals[0];
    const std::string &name = q->m.qname;
    int type = q->m.qtype;
    auto vers = confs_between(a, now);
    bool dis_all = true, dis_any = false;
    for (ConfVer *v : vers) { bool x = is_disabled(name, type, *v); dis_all &= x; dis_any |= x; }
    auto hosts = host_outcomes(name, type, a, now);
    bool h_none = false, h_ref = false;
    for (auto &o : hosts) { if (o.k == HostOut::NONE) h_none = true; if (o.k == HostOut::REFUSED) h_ref = true; }
    if (echo_refused(q, d)) {
        if (dis_any || h_ref) return H_REFUSED;
        why = "it was refused although no rule disables it";
        // an empty upstream answer has the same form, go on
    }
    if (dis_all) { why = "the domain or type is disabled, it must be refused"; return 0; }
    if (!m.ok && !h_none) { why = "malformed answer: " + m.why; return 0; }
    std::vector<RR> ans;
    int nopt = 0, others = 0;
    for (auto &r : m.rrs) { if (r.section == 1) ans.push_back(r); else if (r.type == T_OPT && r.section == 3) nopt++; else others++; }
    bool synth = m.ok && m.qr() && !m.tc() && (m.flags & 0x0080) && !others && nopt == (q->m.edns() ? 1 : 0) && m.end == d.size();
    // hosts
    for (auto &o : hosts)
        if (o.k == HostOut::ANSWER && synth && m.rcode() == 0 && !(m.flags & 0x0400) && ans.size() == 1 && ans[0].cls == 1 && ans[0].ttl == 60 && ans[0].type == o.rtype && ans[0].name == name &&
            std::find(o.alts.begin(), o.alts.end(), ans[0].rdata) != o.alts.end())
            return H_HOSTS;
    for (auto &o : hosts)
        if (o.k == HostOut::RECURSE && m.ok && m.qr() && !others && nopt == (q->m.edns() ? 1 : 0) && !ans.empty() && ans[0].type == T_CNAME && ans[0].name == name && ans[0].ttl == 60 && m.end == d.size())
            for (auto &t : o.targets)
                if (lower(t) == name_from_wire(ans[0].rdata)) {
                    UpResp *u = nullptr;
                    if (explain_target(q, lower(t), type, std::vector<RR>(ans.begin() + 1, ans.end()), m.rcode(), 0, u)) {
                        if (u) { u->used++; cm_relayed(u); }
                        return H_CNAME;
                    }
                    why = "the redirected answer matches no resolution of " + t;
                }
    if (!h_none) { if (why.empty()) why = "a hosts rule decides this name"; return 0; }
    // relay
    std::string w2;
    for (UpResp *r : resp_by_q[nkey(name, type)]) {
        if (r->delivered.empty()) continue;
        bool eq = false;
        for (ConfVer *v : vers) if (transform(r, *v) == d) eq = true;
        if (!eq) continue;
        if (r->blocked) { w2 = "answer #u" + std::to_string(r->n) + " of server " + std::to_string(r->srv->idx) + " had to be discarded by the block rules"; continue; }
        if (r->used >= (int)r->delivered.size()) { w2 = "answer #u" + std::to_string(r->n) + " was already passed on"; continue; }
        if (r->delivered.back() < a - (r->srv && r->srv->tcp ? 60 : 15) * SEC) { w2 = "answer #u" + std::to_string(r->n) + " arrived before the query"; continue; }
        r->used++;
        cm_relayed(r);
        return H_RELAY;
    }
    // cache
    if (S.cache && synth && m.rcode() == 0 && !(m.flags & 0x0400)) {
        std::string e = cm_explain(q, name, type, ans);
        if (e.empty()) {
            for (const CRec *c : cm_must(q, name, type, a)) {
                bool in = false;
                for (auto &r : ans) if (r.name == c->owner && r.type == c->type && r.rdata == c->rdata) in = true;
                if (!in) { why = "the cached answer lacks the record " + c->owner + " " + type_name(c->type) + " " + hex(c->rdata, 24) + " received earlier and still fresh"; return 0; }
            }
            return H_CACHE;
        }
        w2 += (w2.empty() ? "" : "; ") + std::string("as a cached answer: ") + e;
    }
    if (!w2.empty()) why = w2;
    if (why.empty()) why = "no upstream answer, cache entry or hosts rule explains it";
    return 0;
}

void oracle_client_response(Client *c, const Bytes &d, const Addr &src)
{
    stat(ST_RESPONSES);
    stat(ST_CHECKS);
    mix_bytes(d.data(), d.size());
    mix(c->idx);
    Msg m = parse(d);
    trace("client%d receives %zu bytes, id=%u %s", c->idx, d.size(), m.id, show(m).c_str());
    if (d.size() < 2) oracle_violation("garbage-answer", "client " + std::to_string(c->idx) + " received " + std::to_string(d.size()) + " byte(s)");
    uint16_t id = get16(d, 0);
    std::string why, best_why;
    Query *answered = nullptr, *cand = nullptr;
    bool idmatch = false;
    for (Query *q : c->qs) {
        if (q->malformed || q->life != life || q->arrivals.empty() || (!c->tcp && q->to != src)) continue;
        if (q->m.id != id) continue;
        idmatch = true;
        if (!(m.qd >= 1 && m.qname == q->m.qname && m.qtype == q->m.qtype && m.qclass == q->m.qclass)) continue;
        if (q->answers.size() >= q->arrivals.size()) { answered = q; continue; }
        why.clear();
        cand = q;
        int how = explain(q, d, m, why);
        if (how) {
            q->answers.push_back(now);
            q->resp.push_back(d);
            q->how.push_back(how);
            mix(how);
            static const char *hn[] = {"", "relay", "refused", "hosts", "cache", "cname"};
            trace("  -> answers query #%d (%s)", q->n, hn[how]);
            switch (how) {
            case H_RELAY: relayed_total++; stat(ST_NONTRIVIAL); break;
            case H_REFUSED: refused_total++; stat(ST_REFUSED); break;
            case H_HOSTS: hosts_total++; stat(ST_HOSTS); break;
            case H_CACHE: cache_total++; stat(ST_CACHEHITS); break;
            case H_CNAME: stat(ST_CNAME); break;
            }
            return;
        }
        if (best_why.empty()) best_why = why;
    }
    // answers to malformed queries are only held to the identifier and the asker
    for (Query *q : c->qs)
        if (q->malformed && q->life == life && !q->arrivals.empty() && q->wire.size() >= 2 && get16(q->wire, 0) == id && (q->answers.size() < q->arrivals.size() || c->tcp)) { // over TCP, a bad length can make two queries of one
            q->answers.push_back(now);
            for (UpResp *r : upresps) if (!r->delivered.empty() && r->used < (int)r->delivered.size() && r->wire == d) { r->used++; cm_relayed(r); break; }
            return;
        }
    if (cand) oracle_violation("wrong-answer", qdesc(cand) + " was answered wrongly: " + best_why + ": " + show(m) + " [" + hex(d, 200) + "]");
    if (answered) oracle_violation("extra-answer", qdesc(answered) + " arrived " + std::to_string(answered->arrivals.size()) + " time(s) and got a further answer: " + show(m));
    for (Client *o : S.clients)
        if (o != c)
            for (Query *q : o->qs)
                if (q->m.id == id && q->life == life && m.qd >= 1 && m.qname == q->m.qname && m.qtype == q->m.qtype && q->answers.size() < q->arrivals.size())
                    oracle_violation("wrong-client", "client " + std::to_string(c->idx) + " received an answer it did not ask for: id " + std::to_string(id) + " " + show(m) + "; it belongs to " + qdesc(q));
    if (idmatch) oracle_violation("wrong-question", "client " + std::to_string(c->idx) + " received an answer with identifier " + std::to_string(id) + " but for a question it did not ask: " + show(m));
    oracle_violation("unsolicited", "client " + std::to_string(c->idx) + " received an answer to nothing it asked: id " + std::to_string(id) + " " + show(m));
}

// ---------------------------------------------------------------- upstream side
static bool strip_ap(Bytes &d)
{
    // AP mode: an OPT record announcing 1280 bytes was appended
    static const Bytes opt("\0\0\x29\5\0\0\0\0\0\0\0", 11);
    if (d.size() < 12 + 11 || d.compare(d.size() - 11, 11, opt)) return false;
    uint16_t ar = get16(d, 10);
    if (!ar) return false;
    d.resize(d.size() - 11);
    ar--;
    d[10] = (char)(ar >> 8);
    d[11] = (char)ar;
    return true;
}

void oracle_upstream_query(Server *s, const Bytes &d0, uint64_t connid)
{
    stat(ST_UPQ);
    stat(ST_CHECKS);
    mix_bytes(d0.data(), d0.size());
    mix(s->idx);
    Msg m = parse(d0);
    trace("server%d (%s) is asked id=%u %s", s->idx, s->tcp ? "tcp" : "udp", m.id, show(m).c_str());
    Bytes d = d0;
    const bool ap = S.ap && !s->tcp; // only datagrams are changed
    bool stripped = ap && strip_ap(d);
    std::vector<Query *> cands;
    bool malf = false;
    std::string wkey;
    auto collect = [&](const Bytes &w, bool needs_no_edns) {
        for (Query *q : queries)
            // a malformed query may be cut or continued by wrong framing
            if (q->life == life && !q->arrivals.empty() && q->malformed && !q->wire.compare(0, std::min(w.size(), q->wire.size()), w, 0, std::min(w.size(), q->wire.size()))) malf = true;
            else if (q->life == life && !q->arrivals.empty() && q->wire == w) {
                if (q->malformed) malf = true;
                else if (!needs_no_edns || !q->m.edns()) cands.push_back(q);
            }
    };
    if (!m.ok || m.end != d0.size()) { collect(d0, false); if (stripped) collect(d, false); if (malf) { up_seen.emplace(mkey(m.id, m.qname, m.qtype), now); return; } cands.clear(); }
    if (ap) {
        if (stripped) collect(d, true);
        if (cands.empty()) { Msg mm = parse(d0); if (mm.edns()) collect(d0, false); }
    } else collect(d0, false);
    up_seen.emplace(mkey(m.id, m.qname, m.qtype), now);
    if (cands.empty() && malf) return;
    std::string name = m.qname;
    bool tcpreq = false, udpreq = false;
    usec a = now, alast = 0;
    int narr = 0;
    bool internal = false;
    if (!cands.empty()) {
        for (Query *q : cands) { a = std::min(a, q->arrivals[0]); alast = std::max(alast, q->arrivals.back()); narr += (int)q->arrivals.size(); (q->c->tcp ? tcpreq : udpreq) = true; }
        wkey = d0;
        // must not have been decided locally
        bool dis = true;
        for (ConfVer *v : confs_between(a, now)) dis &= is_disabled(name, m.qtype, *v);
        if (dis) oracle_violation("disabled-forwarded", qdesc(cands[0]) + " is disabled but was sent to server " + s->a.str());
        bool none = false;
        auto ho = host_outcomes(name, m.qtype, a, now);
        for (auto &o : ho) if (o.k == HostOut::NONE) none = true;
        if (!none) {
            // a redirect target can be asked for under its own name too
            oracle_violation("hosts-forwarded", qdesc(cands[0]) + " is decided by a hosts rule but was sent to server " + s->a.str());
        }
        // the cache certainly had an answer for every one of these arrivals
        if (S.cache && S.track_cache) {
            bool all = true;
            for (Query *q : cands) if (q->arrivals.size() != 1 || cm_must(q, name, m.qtype, a).empty()) all = false;
            if (all) oracle_violation("cache-missed", qdesc(cands[0]) + " was sent to server " + s->a.str() + " although the cache holds a fresh answer");
        }
    } else {
        // a redirected query on behalf of a hosts CNAME rule
        for (Query *q : queries) {
            if (q->life != life || q->malformed || q->arrivals.empty() || q->m.qtype != m.qtype) continue;
            bool old = now - q->arrivals.back() > 60 * SEC;
            std::set<std::string> seen;
            std::vector<std::string> todo{q->m.qname};
            for (size_t i = 0; i < todo.size() && i < 40; i++)
                for (auto &o : host_outcomes(todo[i], m.qtype, q->arrivals[0], now))
                    for (auto &t : o.targets) {
                        if (seen.insert(lower(t)).second) todo.push_back(lower(t));
                        if (lower(t) == name) { narr += (int)q->arrivals.size(); if (old) continue; internal = true; a = std::min(a, q->arrivals[0]); (q->c->tcp ? tcpreq : udpreq) = true; }
                    }
        }
        if (!internal) {
            // garbage in the program's buffers would show up here
            oracle_violation("unasked-upstream", "server " + s->a.str() + " received a query no client sent: " + (m.ok ? show(m) : m.why) + " [" + hex(d0, 200) + "]");
        }
        Bytes want = make_query(m.id, name, m.qtype, false);
        Bytes got = ap ? d : d0;
        if (lower(got) != lower(want)) oracle_violation("bad-redirect-query", "redirected query is not a plain question: " + hex(d0, 200));
        wkey = "internal " + nkey(name, m.qtype);
        bool dis = true, none = false;
        for (ConfVer *v : confs_between(a, now)) dis &= is_disabled(name, m.qtype, *v);
        if (dis) oracle_violation("disabled-forwarded", "redirect target " + name + " is disabled but was sent to server " + s->a.str());
        for (auto &o : host_outcomes(name, m.qtype, a, now)) if (o.k == HostOut::NONE) none = true;
        if (!none) oracle_violation("hosts-forwarded", "redirect target " + name + " is decided by a hosts rule but was sent to server " + s->a.str());
    }
    // routing
    bool fallback = false, ok = false;
    Group *via = nullptr;
    std::string allowed;
    for (int t = 0; t < 2; t++) {
        if (!(t ? tcpreq : udpreq)) continue;
        for (Group *g : permitted_groups(name, t, a, now, &fallback)) {
            for (Server *x : g->servers) {
                if (x == s && g->tcp == s->tcp) { ok = true; if (!via || g->parallel) via = g; }
                allowed += x->a.str() + (g->tcp ? "/tcp " : "/udp ");
            }
        }
    }
    if (!ok) oracle_violation("misrouted", "a query for " + name + " " + type_name(m.qtype) + (udpreq ? " (udp)" : " (tcp)") + " was sent to " + s->a.str() + (s->tcp ? "/tcp" : "/udp") + "; the configuration allows only: " + allowed);
    // amplification: at most one transmission per arrival (and server, for parallel groups)
    UpKey &u = up_by_wire[wkey];
    u.sent[s]++;
    u.total++;
    int lim_server = narr, lim_total = narr;
    if (via->parallel) {
        // a query can reach several groups when it arrived more than once
        for (int t = 0; t < 2; t++)
            for (Group *g : permitted_groups(name, t, a, now)) if (g->parallel) lim_total = std::max(lim_total, narr * (int)g->servers.size());
    } else {
        for (int t = 0; t < 2; t++)
            for (Group *g : permitted_groups(name, t, a, now)) if (g->parallel) { lim_total = std::max(lim_total, narr * (int)g->servers.size()); if (std::find(g->servers.begin(), g->servers.end(), s) != g->servers.end()) lim_server = narr; }
    }
    // over TCP a query is sent again when the server closes a kept connection instead of answering; there are no more of those than there once were connections
    auto tries = [](Server *x) { return 16 + 2 * x->peak_conns; };
    if (s->tcp) lim_server = narr * tries(s);
    int tcp_total = 0;
    for (auto &x : u.sent) if (x.first->tcp) { for (Server *y : S.servers) tcp_total += narr * (y->tcp ? tries(y) : 16); break; }
    lim_total = std::max(lim_total, tcp_total);
    if (confs_between(a, now).size() > 1) lim_total = INT32_MAX;
    if (!cands.empty()) // a redirected query's random ID may happen to be that of a client
    {
        bool target = false;
        for (auto &h : S.hosts) target |= h.type == HostRule::CNAME && lower(h.target) == name;
        for (ConfVer *v : confs_between(a, now)) for (auto &h : v->dyn) target |= h.type == HostRule::CNAME && lower(h.target) == name;
        if (target) { lim_server += 1; lim_total += (int)S.servers.size(); }
    }
    if (u.sent[s] > lim_server || u.total > lim_total)
        oracle_violation("upstream-duplicate", "a query for " + name + " that arrived " + std::to_string(narr) + " time(s) was sent upstream " + std::to_string(u.total) + " times (" + std::to_string(u.sent[s]) + " times to " + s->a.str() + ")");
}
void oracle_socks_target(const Addr &proxy, Server *s)
{
    for (Group *g : all_groups)
        if (g->tcp && std::find(g->servers.begin(), g->servers.end(), s) != g->servers.end() && std::find(g->proxies.begin(), g->proxies.end(), proxy) != g->proxies.end()) return;
    oracle_violation("wrong-proxy", "server " + s->a.str() + " was contacted through proxy " + proxy.str() + ", which is not configured for it");
}
void oracle_direct_tcp(Server *s)
{
    for (Group *g : all_groups) if (g->tcp && g->proxies.empty() && std::find(g->servers.begin(), g->servers.end(), s) != g->servers.end()) return;
    oracle_violation("proxy-bypassed", "server " + s->a.str() + " was contacted directly although a proxy is configured");
}
void oracle_new_life()
{
    life_start = now;
    ready_at = INF;
    for (auto &v : cache) for (CRec *c : v.second) if (c->life == life - 1) { c->life++; crec_asked(c); c->life--; }
    up_seen.clear();
    up_by_wire.clear();
    for (UpResp *r : upresps) { r->delivered.clear(); r->used = 0; }
    for (Client *c : S.clients) if (c->tcp) c->gone = true;
}

void end_checks()
{
    std::set<int> malformed_ids; // their answers may be lost with a connection that was closed
    for (Query *q : queries) if ((q->malformed || q->c->malformed_sent) && q->wire.size() >= 2) malformed_ids.insert(get16(q->wire, 0));
    if (!R->faults[F_SENDERR] && !R->faults[F_CRASH] && !S.cache_parallel && !R->faults[F_CLIENTGONE] && !R->faults[F_QUEUEFULL] && !R->faults[F_RELOAD])
        for (auto &p : provisional)
        {
            bool ok = false;
            for (UpResp *r : p.first) ok = ok || r->used || malformed_ids.count(r->m.id) || up_by_wire.count("internal " + nkey(r->m.qname, r->m.qtype));
            if (!ok) oracle_violation("unmatched-cached", qdesc(p.second) + " was answered from the cache with data of answer #u" + std::to_string(p.first[0]->n) + ", which was never the answer to a pending query");
        }
}
