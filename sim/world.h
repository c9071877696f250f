// The simulated deployment: clients, upstream servers, proxies, configuration,
// and the reference model / oracles that judge what the program does.
#pragma once
#include "dns.h"
#include "sys.h"

struct Group;
struct Query;

// An answer produced by an upstream server.
struct UpResp {
    int n = 0;
    Bytes wire;
    Msg m;
    struct Server *srv = nullptr;
    usec t_made = 0;
    std::vector<usec> delivered;   // times it was handed to the program
    int used = 0;                  // answers to clients explained by it
    bool junk = false;             // malformed, spoofed or otherwise not a plain answer
    bool blocked = false;          // must never reach a client (block rules)
    bool mayblock = false;
};

struct Server {
    Addr a;
    int idx = 0;
    bool tcp = false;
    std::vector<Group *> groups;
    bool up = true;
    usec since = 0;
    // behaviour, ppm unless noted
    int drop = 0, dup = 0, junk = 0, spoof = 0;
    usec dmin = 300, dmax = 2000;
    // tcp behaviour
    int refuse = 0, blackhole = 0, unreach = 0, rst = 0, close_after = 0, close_before = 0, idle_close_ms = 0, merge = 0;
    bool edns_ok = true;
    uint64_t nq = 0, nr = 0;
    std::vector<usec> q_times;
    int live_conns = 0, peak_conns = 0;
};

struct Group {
    int idx = 0;
    bool tcp = false;
    std::vector<Server *> servers;
    std::vector<std::string> domains;
    bool parallel = false;
    std::vector<Addr> proxies;
    std::string file;      // non-empty: loaded from this group file
    std::string list;      // its LIST file, if any
    usec from = 0, to = INF; // model validity (reloads)
};

struct HostRule {
    enum Type { A, AAAA, CNAME, EXCL, GOOD } type;
    std::string pattern;
    Bytes ip;
    std::string target;
    std::string line() const;
};

// a range of addresses which are blocked, or replaced by another one
struct Net {
    Bytes ip;
    int bits;
    Bytes to; // empty: blocked
    bool has(const Bytes &a) const
    {
        if (a.size() != ip.size()) return false;
        for (int i = 0; i < bits; i++) if (((a[i / 8] ^ ip[i / 8]) >> (7 - i % 8)) & 1) return false;
        return true;
    }
};
// the parts of the configuration that reloads can change
struct ConfVer {
    int n = 0;
    usec from = 0;              // earliest instant it may be in force
    usec sure = INF;            // certainly in force (exclusively) from here on
    std::vector<std::string> disabled;
    std::vector<HostRule> dyn;
    int gone = -1;             // a source of hosts that does not exist: it is left out
    size_t src(size_t j, size_t n) const { return gone >= 0 ? (size_t)(1 - gone) : j % n; } // source of the j-th of its rules
    std::vector<Group *> groups;
    std::map<Bytes, Bytes> subst;  // 4-byte address -> 4-byte address
    std::vector<Net> nets;         // apart from S.nets
    std::map<std::string, std::string> raw; // files whose text differs from what the fields above say
};

struct Client {
    int idx = 0;
    Addr a;
    bool tcp = false;
    Peer peer;
    Bytes rx;
    std::vector<Query *> qs;
    bool gone = false;           // closed / reset by us
    bool failed = false;
    Addr target;
    uint64_t frames = 0;
    bool malformed_sent = false; // we sent garbage on this connection
    bool halfway = false;        // an incomplete message is pending on this connection
    bool slow = false;
    usec t_open = -1;
};

struct Query {
    int n = 0;
    Client *c = nullptr;
    Bytes wire;
    Msg m;
    Addr to;
    usec t_sent = 0;
    std::vector<usec> arrivals;    // in its life
    int arrived = 0;               // in all lives
    std::vector<usec> answers;
    std::vector<Bytes> resp;
    std::vector<int> how;         // explanation of every answer
    bool must = false;            // an answer is required
    usec deadline = 0;
    bool malformed = false;       // not a well formed query: any or no answer
    int up_count = 0;             // upstream transmissions attributed to it
    int life = 0;
    std::string name() const { return m.qname; }
    bool final_probe = false;
    int must_cache = 0;           // cache must answer (model says so)
    std::vector<std::pair<uint16_t, Bytes>> must_records;
    uint64_t cver_lo = 0;
};

struct Scn {
    std::vector<Addr> udp_local, tcp_local;
    std::vector<Server *> servers;
    std::vector<Group *> groups;
    std::vector<Client *> clients;
    std::string conf_extra;
    bool udp2tcp = false, tcp2udp = false;
    int keepalive = 5;
    bool cache = false, cache_parallel = false, ignore_ttl = false, mem_cache = true, reload_cache = false, overwrite_cache = false;
    int cache_size = 1048576;
    int override_ttl = -1, multiple_ttl = 1;
    std::vector<std::string> cache_control;
    std::vector<int> disabled_types;
    std::vector<std::string> disabled_domains;   // static, from the configuration
    std::string disabled_list;                   // path of the file, "" none
    std::vector<HostRule> hosts;                 // AppendHosts
    std::vector<std::string> host_urls;
    std::string hosts_script;
    int update_interval = 18000, retry_interval = 30;
    bool sources_fail = false; // a source of hosts may go missing at any time
    bool block_v6 = false;
    bool ap = false;
    std::vector<Bytes> block_ip;
    bool block_negative = false;
    std::string subst_file;
    std::map<Bytes, Bytes> subst;                // static IPSubstituting
    std::vector<Net> nets;                       // and of ranges; they do not overlap
    bool addresses() const { return !block_ip.empty() || !nets.empty(); }
    bool stats = false;
    int stat_interval = 60;
    bool log = false;
    int log_threshold = 102400;
    bool debug = false;
    std::map<std::string, std::pair<int, std::vector<Bytes>>> goodip; // list -> interval, addresses

    // name space
    int zones = 4, labels = 6;
    std::vector<std::string> zone_names;
    bool mixed_case = false;
    int ttl_mode = 0;           // 0: long, 1: short, 2: mixed
    std::vector<int> qtypes;
    int kinds = 0;              // bit mask of name kinds in use
    int collide_ppm = 0;        // reuse of identifiers across clients
    int edns_ppm = 0;
    bool no_faults = false;     // strict run: everything must be answered in time
    bool strict_names = false;  // unique name per query
    bool must_all = true;
    int huge_ppm = 0;      // large answers that are very large
    bool tcp_dead = false; // some TCP servers cannot be reached
    usec duration = 20 * SEC;
    int nops = 40;
    usec settle = 25 * SEC;
    int probe_rounds = 4;
    usec probe_wait = 4 * SEC;
    int junk_client_ppm = 0;
    int burst_ppm = 0;
    int retx_ppm = 0;           // client retransmissions
    int root_ppm = 0;
    bool track_cache = false;
    int bare_ppm = 0;           // queries for the zone name itself
    std::vector<std::string> extra_names; // asked for with extra_ppm
    int extra_ppm = 0;
    int fin_ppm = 0, half_ppm = 0, slow_ppm = 0; // client behaviour over TCP
};
extern Scn S;
extern std::vector<Query *> queries;
extern std::vector<UpResp *> upresps;
extern std::vector<ConfVer *> confs;
extern int life;

// answers are attributed to one of these sources
enum How { H_RELAY = 1, H_REFUSED, H_HOSTS, H_CACHE, H_CNAME };

// building blocks
Server *add_server(const char *ip, int port, bool tcp);
Group *add_group(bool tcp, std::vector<Server *> servers, std::vector<std::string> domains, bool parallel);
Client *add_udp_client(const Addr &a);
Client *tcp_client_open(const Addr &from, const Addr &to);
Query *send_query(Client *c, const Addr &to, const std::string &name, int type, bool edns, int id, bool faults = true);
Query *send_wire(Client *c, const Addr &to, const Bytes &wire, bool malformed, bool faults = true);
Query *send_tcp_rest(Client *c, const Addr &to, const Bytes &wire, const Bytes &rest); // last piece of a message sent in pieces
void wire_servers();            // attach actors to the servers
std::string build_config();
void world_start();             // writes files, starts the program, waits until it listens
void world_restart();           // new life of the program
std::string pick_name(uint32_t key);
std::string zone_name(int i);
int fresh_id(uint32_t key);
void calm_all();
void final_probes();
void end_checks();
std::vector<Group *> permitted_groups(const std::string &name, bool tcpreq, usec from, usec to, bool *fallback = nullptr);
bool is_disabled(const std::string &name, int type, const ConfVer &v);
bool dom_match(const std::string &pat, const std::string &name);
std::vector<ConfVer *> confs_between(usec a, usec b);
void run_for(usec d);           // advance the world (stops on crash)
std::string qdesc(const Query *q);
extern bool crash_stop;         // run_for stopped because of a crash point
uint32_t kind_ttl(const std::string &name, int type);
void scenario(const std::string &prop);
void conf_commit(ConfVer *v);
void conf_files(const ConfVer &v);
extern std::vector<Group *> all_groups; // of every configuration version
usec tcp_cost();                // time a TCP group needs per query even when nothing fails (it polls its connections)
