#include "core.h"
#include <cstdarg>
#include <algorithm>
#include <errno.h>
#include <queue>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/mman.h>
#include <unistd.h>

RunResult *R;
RunSpec spec;
usec now = 0;
int64_t wall_base_us = 1700000000LL * SEC;
uint64_t world_ver = 1;
Fiber *cur = nullptr;
std::vector<Fiber *> fibers;
SchedKnobs knobs;
uint64_t steps = 0;

const char *fault_names[] = {
    "udp_loss", "udp_duplicate", "delay", "reorder", "upstream_loss", "spoofed_packet", "malformed_packet", "tcp_segmentation",
    "tcp_rst", "tcp_refused", "tcp_blackhole", "partition", "server_down", "send_error", "receive_error", "unreachable", "socket_error", "alloc_failure",
    "clock_jump", "process_crash", "power_loss", "thread_stall", "preemption", "disk_full", "fopen_error", "torn_file",
    "download_error", "script_error", "peer_close", "slow_peer", "proxy_error", "short_send", "reload", "client_gone", "queue_full"};
const char *stat_names[] = {
    "client_queries", "client_responses", "upstream_queries", "upstream_responses", "cache_answers", "hosts_answers",
    "refused_answers", "cname_answers", "tcp_client_queries", "reloads", "log_entries_checked", "statistics_pages_checked", "downloads", "process_lives", "oracle_checks", "must_answer_checks",
    "blocked_responses", "goodip_probes", "file_writes", "socks_handshakes", "failovers", "malformed_inputs", "nontrivial_events",
    "tcp_client_connections", "tcp_upstream_connections", "expired_checks", "substitutions", "statistic_files"};

void fault(FaultKind k) { R->faults[k]++; }

static inline uint64_t splitmix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
uint64_t hash64(uint64_t a, uint64_t b) { return splitmix(splitmix(a) ^ (b * 0xD6E8FEB86659FD93ull)); }

void mix(uint64_t v) { R->hash = splitmix(R->hash ^ v) + v; }
void mix_bytes(const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *)p;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    mix(h);
}

// ---------------------------------------------------------------- choices
struct K3 { uint32_t s, k, i; bool operator==(const K3 &o) const { return s == o.s && k == o.k && i == o.i; } };
struct K3H { size_t operator()(const K3 &k) const { return hash64(((uint64_t)k.s << 32) | k.k, k.i); } };
static std::unordered_map<K3, int64_t, K3H> explicit_choices;
static std::unordered_map<uint64_t, uint32_t> choice_idx;
static std::set<uint32_t> pre_steps; // explicit preemption steps (sorted)

static void record(uint32_t s, uint32_t k, uint32_t i, int64_t v)
{
    if (R->nchoices >= MAX_CHOICES) { R->overflow = 1; return; }
    ChoiceRec &c = R->choices[R->nchoices++];
    c.stream = s; c.key = k; c.idx = i; c.pad = 0; c.val = v;
}

static int64_t draw(Stream s, uint32_t key, uint32_t idx, int64_t n)
{
    uint64_t h = hash64(spec.seed ^ ((uint64_t)s << 56), ((uint64_t)key << 32) | idx);
    return (int64_t)(h % (uint64_t)n);
}

int64_t ch_range(Stream s, uint32_t key, int64_t lo, int64_t hi)
{
    if (hi <= lo) return lo;
    uint32_t idx = choice_idx[((uint64_t)s << 32) | key]++;
    int64_t v;
    if (spec.explicit_mode) {
        auto it = explicit_choices.find(K3{s, key, idx});
        v = it == explicit_choices.end() ? 0 : it->second;
        if (v > hi - lo) v = hi - lo;
    } else {
        v = draw(s, key, idx, hi - lo + 1);
    }
    if (v) record(s, key, idx, v);
    return lo + v;
}

bool ch_chance(Stream s, uint32_t key, int ppm)
{
    uint32_t idx = choice_idx[((uint64_t)s << 32) | key]++;
    bool v;
    if (spec.explicit_mode) {
        auto it = explicit_choices.find(K3{s, key, idx});
        v = it != explicit_choices.end() && it->second;
    } else {
        if (ppm <= 0) return false;
        v = draw(s, key, idx, 1000000) < ppm;
    }
    if (v) record(s, key, idx, 1);
    return v;
}

// ---------------------------------------------------------------- reporting
void trace(const char *fmt, ...)
{
    if (!spec.tracing) return;
    if (R->trace_len > MAX_TRACE - 2000) return;
    char *p = R->trace + R->trace_len;
    int n = snprintf(p, 64, "%11.6f [%s] ", now / 1e6, cur ? cur->name.c_str() : "-");
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(p + n, 1500, fmt, ap);
    va_end(ap);
    p[n++] = '\n';
    R->trace_len = (int)std::min<long>(MAX_TRACE - 1, R->trace_len + n);
}

void violate(const char *kind, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = snprintf(R->msg, sizeof R->msg, "t=%.6fs: ", now / 1e6);
    vsnprintf(R->msg + n, sizeof(R->msg) - n, fmt, ap);
    va_end(ap);
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    snprintf(R->prop, sizeof R->prop, "%s", spec.prop.c_str());
    trace("VIOLATION %s: %s", kind, R->msg);
    R->violated = 1;
    R->vtime = now;
    R->steps = steps;
    _exit(0);
}

// ---------------------------------------------------------------- events
struct Ev { usec t; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;
static uint64_t ev_seq = 0;
static usec ev_next = INF;

void ev_at(usec t, std::function<void()> fn)
{
    if (t < now) t = now;
    evq.push(new Ev{t, ev_seq++, std::move(fn)});
    if (t < ev_next) ev_next = t;
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void *host_sp;
static void *host_fake;
static const void *host_bottom;
static size_t host_size;
static uint64_t run_counter = 0;
static uint64_t seen_ver = 0;
static uint64_t solo_ver = 0;
static usec solo_until = -1;
static uint64_t next_pre = UINT64_MAX;
static const uint64_t HANG_STEPS = 60000000ull;
static const uint64_t MAX_STEPS = 3000000000ull;
static const uint64_t MAX_SWITCHES = 6000000ull;

static void to_host()
{
    Fiber *f = cur;
    f->err = errno;
    __sanitizer_start_switch_fiber(f->state == Fiber::DONE ? nullptr : &f->fake, host_bottom, host_size);
    sim_switch(&f->sp, host_sp);
    __sanitizer_finish_switch_fiber(f->fake, &host_bottom, &host_size);
    errno = f->err;
}

static void fiber_main()
{
    __sanitizer_finish_switch_fiber(nullptr, &host_bottom, &host_size);
    errno = 0;
    cur->entry();
    fiber_exit();
}

void fiber_exit()
{
    trace("thread exits");
    cur->state = Fiber::DONE;
    world_ver++;
    to_host();
    abort();
}

Fiber *spawn(const std::string &name, std::function<void()> entry)
{
    Fiber *f = new Fiber;
    f->id = (int)fibers.size() + 1;
    f->name = name + "#" + std::to_string(f->id);
    f->entry = std::move(entry);
    f->stack_size = 512 * 1024;
    f->stack = (char *)mmap(nullptr, f->stack_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stack, 4096, PROT_NONE);
    f->stack += 4096;
    uintptr_t top = ((uintptr_t)f->stack + f->stack_size) & ~(uintptr_t)63;
    void **sp = (void **)top;
    *--sp = nullptr;             // alignment: at entry rsp % 16 == 8
    *--sp = (void *)fiber_main;  // ret target
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp = sp;
    f->prio = (uint32_t)ch_range(S_SCHED, 1000000 + f->id, 0, 1000000);
    f->last_run = ++run_counter;
    fibers.push_back(f);
    world_ver++;
    return f;
}

static void switch_to(Fiber *f)
{
    cur = f;
    f->last_run = ++run_counter;
    f->run_steps = steps;
    R->switches++;
    R->shape = hash64(R->shape, f->id);
    if ((R->switches & 1023) == 0) R->progress++;
    if (R->switches > MAX_SWITCHES) {
        cur = nullptr;
        violate("livelock", "more than %llu thread switches without the scenario finishing: some thread is spinning (last: %s)", (unsigned long long)MAX_SWITCHES, f->name.c_str());
    }
    __sanitizer_start_switch_fiber(&host_fake, f->stack, f->stack_size);
    sim_switch(&host_sp, f->sp);
    __sanitizer_finish_switch_fiber(host_fake, nullptr, nullptr);
    cur = nullptr;
    if (f->state == Fiber::DONE && f->stack) {
        // ASan: the stack memory is going away, clear its shadow
        __asan_unpoison_memory_region(f->stack, f->stack_size);
        munmap(f->stack - 4096, f->stack_size + 4096);
        f->stack = nullptr;
    }
}

uint64_t crash_step = UINT64_MAX;
bool crash_now = false;
static void arm_preempt2();
static uint64_t lock_at = UINT64_MAX; // step at which
static Fiber *lock_by;                // this thread stalls because it took or released a lock a little earlier
static void arm_preempt()
{
    arm_preempt2();
    if (crash_step < next_pre) next_pre = crash_step;
    if (lock_at < next_pre) next_pre = lock_at;
}
void crash_at_step(uint64_t s) { crash_step = s ? s : UINT64_MAX; arm_preempt(); }
static void arm_preempt2()
{
    if (spec.explicit_mode) {
        auto it = pre_steps.upper_bound((uint32_t)steps);
        next_pre = it == pre_steps.end() ? UINT64_MAX : *it;
        return;
    }
    if (!knobs.active || knobs.gap_log2 <= 0) { next_pre = UINT64_MAX; return; }
    uint64_t h = hash64(spec.seed ^ 0x5055ull, steps);
    // spread over several orders of magnitude around the mean
    int lg = knobs.gap_log2 - 3 + (int)(h % 6);
    if (lg < 2) lg = 2;
    next_pre = steps + 1 + (h >> 8) % (1ull << lg);
}

usec stalled_time; // by injected stalls, of all threads together
static bool at_site; // this place was chosen for stalls
static void maybe_stall()
{
    bool site = at_site;
    at_site = false;
    if (knobs.active || spec.explicit_mode) {
        if (ch_chance(S_STALL, 0, site ? 1000000 : knobs.stall_ppm)) {
            usec d = 1 * MS << ch_range(S_STALL, 1, 0, 12);
            if (d > knobs.stall_max) d = knobs.stall_max;
            fault(F_STALL);
            stalled_time += d;
            trace("stalled for %lld us", (long long)d);
            cur->state = Fiber::BLOCKED;
            cur->pred = nullptr;
            cur->deadline = now + d;
            to_host();
            return;
        }
    }
}

static void do_preempt()
{
    if (steps >= crash_step && cur) {
        crash_step = UINT64_MAX;
        crash_now = true;
        arm_preempt();
        trace("process crash injected at step %llu", (unsigned long long)steps);
        world_ver++;
        cur->state = Fiber::BLOCKED; // never resumed
        cur->deadline = INF;
        cur->pred = nullptr;
        to_host();
        abort();
    }
    if (steps >= lock_at) {
        lock_at = UINT64_MAX;
        if (!cur || cur != lock_by || !knobs.active) { arm_preempt(); return; }
        at_site = true;
    }
    record(S_PRE, 0, (uint32_t)steps, 1);
    R->preempts++;
    fault(F_PREEMPT);
    arm_preempt();
    if (!cur) return;
    now += 1;
    maybe_stall();
    cur->state = Fiber::READY;
    to_host();
}

void lock_event()
{
    if (!knobs.lock_ppm || !cur || spec.explicit_mode || !knobs.active || knobs.site_max <= 0 || lock_at != UINT64_MAX) return;
    uint64_t h = hash64(spec.seed ^ 0x10c4, steps);
    if (h % 1000000 >= (uint64_t)knobs.lock_ppm) return;
    knobs.site_max--;
    h = hash64(h, 1);
    lock_by = cur;
    lock_at = steps + 1 + (h >> 8) % (2ull << h % 9);
    if (lock_at < next_pre) next_pre = lock_at;
}
static bool site_stall()
{
    if (!cur || spec.explicit_mode || !knobs.active || knobs.site_max <= 0) return false;
    if (hash64(spec.seed ^ 0x57a11, steps) & ((1ull << knobs.site_skip) - 1)) return false;
    knobs.site_max--;
    at_site = true;
    do_preempt();
    at_site = false;
    return true;
}
static inline void step(void *pc)
{
    steps++;
    if (__builtin_expect(knobs.site_mod, 0) && hash64(spec.seed ^ 0x517e, (uint64_t)pc) % (uint64_t)knobs.site_mod == 0 && site_stall()) return;
    if (__builtin_expect(steps >= next_pre, 0)) { if (cur) do_preempt(); else arm_preempt(); }
    if (__builtin_expect((steps & 0xfffff) == 0, 0)) {
        R->progress++;
        if (cur && steps - cur->run_steps > HANG_STEPS) violate("hang", "thread %s ran %llu steps without blocking or making a system call: endless loop", cur->name.c_str(), (unsigned long long)HANG_STEPS);
        if (steps > MAX_STEPS) violate("livelock", "step limit reached (%s)", cur ? cur->name.c_str() : "host");
    }
}
extern "C" {
void __sanitizer_cov_trace_pc() { step(__builtin_return_address(0)); }
void __sanitizer_cov_load1(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_load2(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_load4(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_load8(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_load16(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_store1(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_store2(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_store4(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_store8(void *) { step(__builtin_return_address(0)); }
void __sanitizer_cov_store16(void *) { step(__builtin_return_address(0)); }
}

bool block_until(std::function<bool()> pred, usec deadline)
{
    Fiber *f = cur;
    f->state = Fiber::BLOCKED;
    f->pred = std::move(pred);
    f->deadline = deadline;
    f->pred_ok = false;
    f->blocked_since = now;
    world_ver++; // force one evaluation of the predicate
    to_host();
    f->pred = nullptr;
    f->waiting_lock = nullptr;
    bool ok = f->pred_ok;
    f->pred_ok = false; // a later sleep or stall of this thread must not inherit it
    return ok;
}

void sleep_fiber(usec d)
{
    if (d < 1) d = 1;
    if (solo_ver == world_ver && now + d < solo_until && now + d < ev_next) {
        now += d;
        cur->run_steps = steps;
        return;
    }
    Fiber *f = cur;
    f->state = Fiber::BLOCKED;
    f->pred = nullptr;
    f->deadline = now + d;
    to_host();
}

void yield_point()
{
    if (!cur) return;
    now += 1;
    cur->run_steps = steps;
    bool sw = ev_next <= now;
    if (!sw && (knobs.active || spec.explicit_mode) && ch_chance(S_SCHED, 2, knobs.sys_switch_ppm)) {
        maybe_stall();
        sw = true;
    }
    if (sw) {
        cur->state = Fiber::READY;
        to_host();
    }
}

void sched_calm()
{
    knobs.active = false;
    knobs.sys_switch_ppm = 0;
    knobs.stall_ppm = 0;
    knobs.site_mod = 0;
    knobs.lock_ppm = 0;
    if (!spec.explicit_mode) next_pre = UINT64_MAX;
}

void run_world(usec until, std::function<bool()> stop)
{
    std::vector<Fiber *> run;
    arm_preempt();
    while (true) {
        if (stop && stop()) return;
        while (!evq.empty() && evq.top()->t <= now) {
            Ev *e = evq.top();
            evq.pop();
            ev_next = evq.empty() ? INF : evq.top()->t;
            e->fn();
            delete e;
            if (stop && stop()) return;
        }
        bool recheck = seen_ver != world_ver;
        seen_ver = world_ver;
        run.clear();
        usec next = INF;
        for (Fiber *f : fibers) {
            if (f->state == Fiber::DONE) continue;
            if (f->state == Fiber::READY) { run.push_back(f); continue; }
            if (f->pred_ok) { run.push_back(f); continue; }
            if (recheck && f->pred && f->pred()) { f->pred_ok = true; run.push_back(f); continue; }
            if (f->deadline <= now) { run.push_back(f); continue; }
            if (f->deadline < next) next = f->deadline;
        }
        if (run.empty()) {
            if (ev_next < next) next = ev_next;
            if (next >= INF || next > until) { now = until; return; }
            now = next;
            continue;
        }
        if (now >= until) return;
        Fiber *pick;
        if (run.size() == 1) {
            pick = run[0];
            solo_ver = world_ver;
            solo_until = std::min(next, until);
        } else {
            solo_until = -1;
            std::sort(run.begin(), run.end(), [](Fiber *a, Fiber *b) { return a->last_run < b->last_run; });
            int i = 0;
            if (knobs.active || spec.explicit_mode) {
                if (spec.explicit_mode || knobs.policy == 1) i = ch_pick(S_SCHED, 0, (int)run.size());
                else if (knobs.policy == 2) {
                    for (size_t j = 1; j < run.size(); j++) if (run[j]->prio > run[i]->prio) i = (int)j;
                    // occasionally demote the winner
                    uint32_t h = (uint32_t)(hash64(spec.seed ^ 0x9c7ull, R->switches) >> 20);
                    if (h % 64 == 0) run[i]->prio = (uint32_t)(h >> 8) & 0xffff;
                    // recorded as a plain pick so that a replay needs no priorities
                    static uint32_t dummy;
                    (void)dummy;
                    uint32_t idx = choice_idx[((uint64_t)S_SCHED << 32) | 0]++;
                    if (i) record(S_SCHED, 0, idx, i);
                }
            }
            pick = run[i];
        }
        pick->state = Fiber::READY;
        switch_to(pick);
    }
}

void core_init()
{
    for (const ChoiceRec &c : spec.choices) {
        if (c.stream == S_PRE) pre_steps.insert(c.idx);
        else explicit_choices[K3{c.stream, c.key, c.idx}] = c.val;
    }
}


// Ends the current process life: every program thread vanishes at this instant.
void kill_all_fibers()
{
    for (Fiber *f : fibers) {
        if (f == cur) continue;
        if (f->stack) {
            __asan_unpoison_memory_region(f->stack, f->stack_size);
            munmap(f->stack - 4096, f->stack_size + 4096);
            f->stack = nullptr;
        }
        f->state = Fiber::DONE;
        f->pred = nullptr;
    }
    world_ver++;
}
