// Deterministic simulation core: seeded choices, virtual time, fibers, events.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef int64_t usec;
static const usec MS = 1000, SEC = 1000000, INF = INT64_MAX / 4;

// ---------------------------------------------------------------- choices
// Every nondeterministic decision of a run is drawn from here.  Value 0 is
// always the benign / default decision, so dropping a recorded choice from a
// replay file simplifies the execution.
enum Stream : uint32_t {
    S_CFG = 1, // configuration and swarm knobs
    S_OP,      // workload operations (key = operation index)
    S_NET,     // packet delay, loss, duplication, segmentation
    S_UP,      // upstream behaviour
    S_SCHED,   // which runnable thread goes next
    S_PRE,     // preemption at instruction granularity (idx = step number)
    S_RAND,    // rand()
    S_FAULT,   // system call faults
    S_ALLOC,   // allocation faults
    S_STALL,   // thread stalls
    S_CRASH,   // crash points
    S_ENV,     // other environment (web, files, clock)
};
int64_t ch_range(Stream s, uint32_t key, int64_t lo, int64_t hi); // inclusive
bool ch_chance(Stream s, uint32_t key, int ppm);                    // parts per million
inline int ch_pick(Stream s, uint32_t key, int n) { return n <= 1 ? 0 : (int)ch_range(s, key, 0, n - 1); }

// ---------------------------------------------------------------- results
enum FaultKind {
    F_LOSS, F_DUP, F_DELAY, F_REORDER, F_UPLOSS, F_SPOOF, F_MALFORMED, F_SEGMENT, F_RST, F_REFUSED,
    F_BLACKHOLE, F_PARTITION, F_SERVERDOWN, F_SENDERR, F_RECVERR, F_UNREACH, F_SOCKERR, F_ALLOCFAIL, F_CLOCKJUMP, F_CRASH, F_POWERLOSS,
    F_STALL, F_PREEMPT, F_DISKFULL, F_FOPENERR, F_TORNFILE, F_DOWNLOADERR, F_SCRIPTERR, F_PEERCLOSE,
    F_SLOWPEER, F_PROXYERR, F_SHORTSEND, F_RELOAD, F_CLIENTGONE, F_QUEUEFULL, F_NKINDS
};
extern const char *fault_names[];
void fault(FaultKind k);

struct ChoiceRec { uint32_t stream, key, idx; int32_t pad; int64_t val; };
static const int MAX_CHOICES = 600000;
static const int MAX_TRACE = 1 << 20;

struct RunResult {
    int finished;        // run completed and all oracles evaluated
    int violated;
    int overflow;        // choice log overflowed
    char prop[8];
    char kind[96];
    char msg[3000];
    uint64_t hash;       // hash over the whole observable history
    uint64_t shape;      // hash over scheduling shape only
    uint64_t steps, switches, preempts;
    int64_t vtime;
    uint64_t faults[F_NKINDS];
    uint64_t stat[48];
    uint64_t progress;   // for wall-clock supervision
    int nchoices;
    int trace_len;
    ChoiceRec choices[MAX_CHOICES];
    char trace[MAX_TRACE];
};
extern RunResult *R;

enum StatId {
    ST_QUERIES, ST_RESPONSES, ST_UPQ, ST_UPR, ST_CACHEHITS, ST_HOSTS, ST_REFUSED, ST_CNAME, ST_TCPQ, ST_RELOADS, ST_LOGLINES, ST_STATPAGES,
    ST_DOWNLOADS, ST_LIVES, ST_CHECKS, ST_MUSTANSWER, ST_BLOCKED, ST_PROBES, ST_FILES, ST_SOCKS, ST_FAILOVER, ST_MALF, ST_NONTRIVIAL,
    ST_TCPCONN, ST_UPTCPCONN, ST_EXPIRED, ST_SUBST, ST_STATFILE, ST_N
};
extern const char *stat_names[];
inline void stat(StatId i, uint64_t n = 1) { R->stat[i] += n; }

struct RunSpec {
    std::string prop;     // property under check
    uint64_t seed = 0;
    bool explicit_mode = false; // replay: unlisted choices are 0
    bool tracing = false;
    std::vector<ChoiceRec> choices;
};
extern RunSpec spec;

// Reports a violation of the property under check and ends the run.
[[noreturn]] void violate(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);
void mix_bytes(const void *p, size_t n);
uint64_t hash64(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- time / events
extern usec now;
extern int64_t wall_base_us; // wall clock at now == 0, moved by clock jumps
inline int64_t wall_us() { return wall_base_us + now; }
void ev_at(usec t, std::function<void()> fn);
inline void ev_in(usec d, std::function<void()> fn) { ev_at(now + d, std::move(fn)); }
extern uint64_t world_ver; // bump when anything a blocked fiber may wait for changes

// ---------------------------------------------------------------- fibers
struct Fiber {
    int id = 0;
    void *sp = nullptr;
    char *stack = nullptr;
    size_t stack_size = 0;
    void *fake = nullptr;
    enum { READY, BLOCKED, DONE } state = READY;
    std::function<bool()> pred;
    usec deadline = INF;
    bool pred_ok = false;
    int err = 0;
    std::function<void()> entry;
    std::string name;
    uint64_t last_run = 0;
    uint32_t prio = 0;
    const void *waiting_lock = nullptr;
    usec blocked_since = 0;
    uint64_t run_steps = 0;
};
extern Fiber *cur; // nullptr when on the host stack
extern std::vector<Fiber *> fibers;
Fiber *spawn(const std::string &name, std::function<void()> entry);
bool block_until(std::function<bool()> pred, usec deadline);
void sleep_fiber(usec d);
void yield_point();      // potential switch, called by every seam
void fiber_exit();
void run_world(usec until, std::function<bool()> stop); // host only

struct SchedKnobs {
    int policy = 0;          // 0 fifo, 1 uniform, 2 pct
    int sys_switch_ppm = 0;  // switch probability at seams
    int gap_log2 = 0;        // mean log2 gap of instruction preemptions, 0 = none
    int stall_ppm = 0;       // stall probability at a preemption / seam switch
    usec stall_max = 0;
    int site_mod = 0;        // one in so many places of the program's code is one where threads stall,
    int site_skip = 0;       // once in 2^this times that they pass there,
    int site_max = 20;       // so many times in all
    int lock_ppm = 0;        // chance that taking or releasing a lock is soon followed by a stall (counts towards site_max)
    bool active = true;
};
extern SchedKnobs knobs;
extern usec stalled_time;
void lock_event(); // the running thread took or released a lock
void sched_calm(); // no more preemptions or stalls: round robin from now on
extern uint64_t steps;
void core_init();
void kill_all_fibers();
void crash_at_step(uint64_t s);
extern bool crash_now; // set when the process crash point was reached
