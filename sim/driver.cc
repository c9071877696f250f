// Seed search, minimisation, replay and evidence.
#include "world.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:abort_on_error=0:handle_segv=1:handle_abort=1:allocator_may_return_null=1:symbolize=0:print_stats=0:detect_odr_violation=0:handle_sigill=1:allow_user_segv_handler=0:max_malloc_fill_size=0:quarantine_size_mb=64";
}

static double wall()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}
static RunResult *map_result()
{
    void *p = mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return (RunResult *)p;
}
static void clear_result(RunResult *r) { memset(r, 0, offsetof(RunResult, choices)); r->trace[0] = 0; }

struct Outcome { bool bad = false; std::string kind, msg; };
struct Slot { RunResult *r; int errfd = -1; pid_t pid = 0; RunSpec sp; double t0 = 0, tprog = 0; uint64_t prog = 0; };

static std::string self_path;
static std::string symbolize(const std::string &rep)
{
    // turns "(/path/sim+0xabc)" frames into function names with one llvm-symbolizer call
    std::vector<std::string> addrs;
    std::istringstream is(rep);
    std::string l, out;
    std::vector<std::string> lines;
    while (std::getline(is, l)) lines.push_back(l);
    for (auto &x : lines) {
        size_t h = x.find('#');
        size_t p = x.find("+0x");
        if (h != std::string::npos && p != std::string::npos) addrs.push_back("0x" + x.substr(p + 3, x.find_first_of(") ", p) - p - 3));
    }
    if (addrs.empty()) return rep;
    std::string cmd = "addr2line -f -s -e '" + self_path + "'";
    for (auto &a : addrs) cmd += " " + a;
    cmd += " 2>/dev/null";
    FILE *f = popen(cmd.c_str(), "r");
    if (!f) return rep;
    std::vector<std::string> sym;
    char b[512];
    std::string fn;
    while (fgets(b, sizeof b, f)) {
        std::string s = b;
        while (!s.empty() && s.back() == '\n') s.pop_back();
        if (fn.empty()) fn = s; else { sym.push_back(fn + " " + s); fn.clear(); }
    }
    pclose(f);
    size_t k = 0;
    for (auto &x : lines) {
        size_t h = x.find('#');
        size_t p = x.find("+0x");
        if (h != std::string::npos && p != std::string::npos) {
            std::string n = x.substr(h, x.find(' ', h) - h);
            out += "  " + n + " " + (k < sym.size() ? sym[k] : "?") + "\n";
            k++;
        } else out += x + "\n";
    }
    return out;
}

static void start(Slot &s, const RunSpec &sp)
{
    clear_result(s.r);
    if (s.errfd < 0) { s.errfd = memfd_create("err", 0); }
    if (ftruncate(s.errfd, 0)) {}
    lseek(s.errfd, 0, SEEK_SET);
    s.sp = sp;
    s.t0 = s.tprog = wall();
    s.prog = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { s.pid = 0; return; }
    if (p == 0) {
        dup2(s.errfd, 2);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        R = s.r;
        spec = sp;
        core_init();
        scenario(sp.prop);
        R->finished = 1;
        R->steps = steps;
        R->vtime = now;
        _exit(0);
    }
    s.pid = p;
}
// returns true when the child has ended
static bool reap(Slot &s, Outcome &o, bool block, bool sym)
{
    int st;
    while (true) {
        pid_t p = waitpid(s.pid, &st, block ? 0 : WNOHANG);
        if (p == 0) {
            double t = wall();
            if (s.r->progress != s.prog) { s.prog = s.r->progress; s.tprog = t; }
            if (t - s.tprog > 240) { kill(s.pid, SIGKILL); s.r->overflow |= 2; }
            return false;
        }
        if (p < 0 && errno == EINTR) continue;
        break;
    }
    s.pid = 0;
    o = Outcome();
    if (s.r->violated) { o.bad = true; o.kind = s.r->kind; o.msg = s.r->msg; return true; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.r->finished) return true;
    std::string rep;
    char buf[65536];
    lseek(s.errfd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(s.errfd, buf, sizeof buf)) > 0) rep.append(buf, n);
    if (s.r->overflow & 2) { o.kind = "stuck"; o.msg = "the run made no progress for 240 s of real time"; o.bad = false; return true; }
    o.bad = true;
    size_t p = rep.find("AddressSanitizer:");
    if (p != std::string::npos) {
        std::string t = rep.substr(p + 18, rep.find_first_of(" \n", p + 18) - p - 18);
        o.kind = "memory:" + t;
        std::string cut = rep.substr(p, 2500);
        size_t e = cut.find("SUMMARY:");
        if (e != std::string::npos) cut = cut.substr(0, e);
        o.msg = sym ? symbolize(cut) : cut;
    } else if (WIFSIGNALED(st)) {
        o.kind = "signal:" + std::to_string(WTERMSIG(st));
        o.msg = "the program was killed by signal " + std::to_string(WTERMSIG(st)) + " " + rep.substr(0, 1000);
    } else {
        o.kind = "abort";
        o.msg = "the run ended with status " + std::to_string(st) + " " + rep.substr(0, 1000);
    }
    return true;
}
static Outcome run_one(Slot &s, const RunSpec &sp, bool sym = false)
{
    Outcome o;
    start(s, sp);
    if (!s.pid) { o.kind = "fork"; return o; }
    while (!reap(s, o, false, sym)) usleep(1000);
    return o;
}

// ---------------------------------------------------------------- replay files
static bool write_replay(const std::string &path, const RunSpec &sp, const Outcome &o)
{
    std::ofstream f(path);
    f << "dfsim-replay 1\nproperty " << sp.prop << "\nseed " << sp.seed << "\nkind " << o.kind << "\nchoices " << sp.choices.size() << "\n";
    for (auto &c : sp.choices) f << c.stream << " " << c.key << " " << c.idx << " " << c.val << "\n";
    f << "end\n";
    std::istringstream is(o.msg);
    std::string l;
    while (std::getline(is, l)) f << "# " << l << "\n";
    return (bool)f;
}
static bool read_replay(const std::string &path, RunSpec &sp, std::string &kind)
{
    std::ifstream f(path);
    std::string w, v;
    if (!(f >> w >> v) || w != "dfsim-replay") return false;
    size_t n = 0;
    while (f >> w) {
        if (w == "property") f >> sp.prop;
        else if (w == "seed") f >> sp.seed;
        else if (w == "kind") f >> kind;
        else if (w == "choices") { f >> n; break; }
    }
    sp.explicit_mode = true;
    for (size_t i = 0; i < n; i++) { ChoiceRec c{}; if (!(f >> c.stream >> c.key >> c.idx >> c.val)) return false; sp.choices.push_back(c); }
    return true;
}

// ---------------------------------------------------------------- minimisation
static RunSpec minimise(std::vector<Slot> &slots, const RunSpec &sp0, const Outcome &o, double budget)
{
    double end = wall() + budget;
    RunSpec best = sp0;
    auto try_batch = [&](const std::vector<RunSpec> &c) {
        // returns the index of a candidate that still fails the same way, or -1
        size_t k = std::min(slots.size(), c.size());
        for (size_t i = 0; i < k; i++) start(slots[i], c[i]);
        int hit = -1;
        for (size_t i = 0; i < k; i++) {
            Outcome x;
            if (!slots[i].pid) continue;
            while (!reap(slots[i], x, false, false)) {
                usleep(500);
                if (wall() > end + 5) kill(slots[i].pid, SIGKILL);
            }
            if (x.bad && x.kind == o.kind && hit < 0) hit = (int)i;
        }
        return hit;
    };
    for (uint32_t st : {(uint32_t)S_PRE, (uint32_t)S_STALL, (uint32_t)S_SCHED, (uint32_t)S_ALLOC, (uint32_t)S_FAULT, (uint32_t)S_NET, (uint32_t)S_RAND, (uint32_t)S_UP}) {
        if (wall() > end) return best;
        RunSpec c = best;
        c.choices.clear();
        for (auto &x : best.choices) if (x.stream != st) c.choices.push_back(x);
        if (c.choices.size() == best.choices.size()) continue;
        if (try_batch({c}) == 0) best = c;
    }
    size_t chunk = std::max<size_t>(1, best.choices.size() / 2);
    while (wall() < end) {
        bool any = false;
        size_t pos = 0;
        while (pos < best.choices.size() && wall() < end) {
            std::vector<RunSpec> c;
            std::vector<size_t> at;
            for (size_t p = pos; p < best.choices.size() && c.size() < slots.size(); p += chunk) {
                RunSpec x = best;
                x.choices.erase(x.choices.begin() + p, x.choices.begin() + std::min(best.choices.size(), p + chunk));
                c.push_back(x);
                at.push_back(p);
            }
            int h = try_batch(c);
            if (h >= 0) { best = c[h]; any = true; pos = at[h]; }
            else pos = at.back() + chunk;
        }
        if (chunk == 1) { if (!any) break; }
        else chunk = std::max<size_t>(1, chunk / 2);
    }
    return best;
}

// ---------------------------------------------------------------- evidence
static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

struct Known { std::string prop, kind, match, desc; };
static std::vector<Known> load_known(const std::string &path)
{
    // lines: open: property=<id> kind=<kind> match=<text>| <description>
    std::vector<Known> r;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 5, "open:")) continue;
        Known k;
        auto get = [&](const char *n) { size_t p = l.find(std::string(" ") + n + "="); if (p == std::string::npos) return std::string(); p += strlen(n) + 2; size_t e = !strcmp(n, "match") ? l.find('|', p) : l.find(' ', p); return l.substr(p, e == std::string::npos ? e : e - p); };
        k.prop = get("property");
        k.kind = get("kind");
        k.match = get("match");
        size_t b = l.find('|');
        k.desc = b == std::string::npos ? "" : l.substr(b + 1);
        r.push_back(k);
    }
    return r;
}

extern const char *prop_rule(const std::string &p);
extern const char *prop_assumptions(const std::string &p);

int main(int argc, char **argv)
{
    if (!getenv("DFSIM_NOASLR")) {
        personality(ADDR_NO_RANDOMIZE);
        setenv("DFSIM_NOASLR", "1", 1);
        unsetenv("ASAN_OPTIONS");
        execv("/proc/self/exe", argv);
    }
    {
        char b[4096];
        ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
        if (n > 0) self_path.assign(b, n);
    }
    signal(SIGPIPE, SIG_IGN);
    std::vector<std::string> a(argv + 1, argv + argc);
    if (a.empty()) { fprintf(stderr, "usage: sim run PROP SEED [-t] | check PROP ... | replay FILE [-t]\n"); return 2; }
    if (a[0] == "run") {
        RunSpec sp;
        sp.prop = a[1];
        sp.seed = strtoull(a[2].c_str(), 0, 10);
        bool tr = a.size() > 3;
        sp.tracing = tr;
        Slot s;
        s.r = map_result();
        Outcome o = run_one(s, sp, true);
        if (tr) fwrite(s.r->trace, 1, s.r->trace_len, stdout);
        printf("%s seed=%llu hash=%016llx shape=%016llx steps=%llu switches=%llu preempts=%llu vtime=%.3f choices=%d\n", o.bad ? ("BAD " + o.kind).c_str() : "ok", (unsigned long long)sp.seed, (unsigned long long)s.r->hash, (unsigned long long)s.r->shape, (unsigned long long)s.r->steps, (unsigned long long)s.r->switches, (unsigned long long)s.r->preempts, s.r->vtime / 1e6, s.r->nchoices);
        for (int i = 0; i < F_NKINDS; i++) if (s.r->faults[i]) printf(" %s=%llu", fault_names[i], (unsigned long long)s.r->faults[i]);
        for (int i = 0; i < ST_N; i++) if (s.r->stat[i]) printf(" %s=%llu", stat_names[i], (unsigned long long)s.r->stat[i]);
        printf("\n");
        if (o.bad) printf("%s\n", o.msg.c_str());
        return o.bad;
    }
    if (a[0] == "replay") {
        RunSpec sp;
        std::string kind;
        if (!read_replay(a[1], sp, kind)) { fprintf(stderr, "cannot read %s\n", a[1].c_str()); return 2; }
        sp.tracing = a.size() > 2;
        Slot s;
        s.r = map_result();
        Outcome o = run_one(s, sp, true);
        if (sp.tracing) fwrite(s.r->trace, 1, s.r->trace_len, stdout);
        if (o.bad && o.kind == kind) { printf("REPRODUCED property=%s kind=%s hash=%016llx\n%s\n", sp.prop.c_str(), kind.c_str(), (unsigned long long)s.r->hash, o.msg.c_str()); return 1; }
        printf("NOT-REPRODUCED property=%s expected=%s got=%s\n", sp.prop.c_str(), kind.c_str(), o.bad ? o.kind.c_str() : "ok");
        return 0;
    }
    if (a[0] != "check") return 2;
    std::string prop = a[1], evidence, replay_dir = ".", tier = "quick", known_file;
    uint64_t seed0 = 1;
    long runs = 200;
    double limit = 25;
    int jobs = 8;
    bool keep_going = false;
    for (size_t i = 2; i < a.size(); i++) {
        auto nx = [&] { return a[++i]; };
        if (a[i] == "--seed") seed0 = strtoull(nx().c_str(), 0, 10);
        else if (a[i] == "--runs") runs = atol(nx().c_str());
        else if (a[i] == "--wall") limit = atof(nx().c_str());
        else if (a[i] == "--jobs") jobs = atoi(nx().c_str());
        else if (a[i] == "--evidence") evidence = nx();
        else if (a[i] == "--replay-dir") replay_dir = nx();
        else if (a[i] == "--tier") tier = nx();
        else if (a[i] == "--known") known_file = nx();
        else if (a[i] == "--all") keep_going = true;
    }
    std::vector<Known> known = load_known(known_file);
    std::vector<Slot> slots(jobs);
    for (auto &s : slots) s.r = map_result();
    double t0 = wall();
    long next = 0, done = 0, stuck = 0, det_checked = 0, det_bad = 0;
    uint64_t tot_f[F_NKINDS] = {0}, runs_f[F_NKINDS] = {0}, tot_s[48] = {0}, steps_t = 0, switches_t = 0, pre_t = 0;
    double vtime = 0;
    std::set<uint64_t> shapes, hashes;
    std::map<std::string, int> kinds;
    std::set<std::string> known_hit;
    std::vector<std::string> samples;
    std::map<uint64_t, std::pair<uint64_t, uint64_t>> first_hash; // seed -> hash, shape (determinism)
    bool found = false;
    RunSpec vsp;
    Outcome vo;
    auto seed_of = [&](long i) { return seed0 * 1000003ull + (uint64_t)i; };
    // the first DET runs are executed twice to check determinism
    const long DET = std::min<long>(runs, 4);
    bool stop = false;
    long unrepro = 0;
    auto is_known = [&](const Outcome &o) {
        bool kn = false;
        for (auto &k : known)
            if ((k.prop == "*" || k.prop == prop) && k.kind == o.kind && (k.match.empty() || o.msg.find(k.match) != std::string::npos)) { kn = true; known_hit.insert(k.desc); }
        return kn;
    };
    auto search = [&] {
    while (true) {
        bool busy = false, idle = true;
        for (auto &s : slots) {
            if (s.pid) {
                Outcome o;
                if (!reap(s, o, false, true)) { busy = true; continue; }
                idle = false;
                done++;
                RunResult *r = s.r;
                for (int i = 0; i < F_NKINDS; i++) { tot_f[i] += r->faults[i]; runs_f[i] += r->faults[i] > 0; }
                for (int i = 0; i < ST_N; i++) tot_s[i] += r->stat[i];
                steps_t += r->steps; switches_t += r->switches; pre_t += r->preempts; vtime += r->vtime / 1e6;
                if (o.kind == "stuck") stuck++;
                if (!o.bad) { shapes.insert(r->shape); hashes.insert(r->hash); }
                auto it = first_hash.find(s.sp.seed);
                if (it != first_hash.end()) { det_checked++; if (it->second != std::make_pair(r->hash, r->shape)) { det_bad++; printf("NOTE nondeterministic run seed=%llu\n", (unsigned long long)s.sp.seed); } }
                else if ((long)first_hash.size() < DET) first_hash[s.sp.seed] = {r->hash, r->shape};
                if (samples.size() < 3 && !o.bad) {
                    char b[400];
                    snprintf(b, sizeof b, "seed %llu: %llu client queries, %llu answers, %llu upstream queries, %.1f s simulated, %llu switches, history hash %016llx", (unsigned long long)s.sp.seed, (unsigned long long)r->stat[ST_QUERIES], (unsigned long long)r->stat[ST_RESPONSES], (unsigned long long)r->stat[ST_UPQ], r->vtime / 1e6, (unsigned long long)r->switches, (unsigned long long)r->hash);
                    samples.push_back(b);
                }
                if (o.bad) {
                    bool kn = is_known(o);
                    kinds[o.kind]++;
                    if (!kn && keep_going) printf("seed %llu %s: %s\n", (unsigned long long)s.sp.seed, o.kind.c_str(), o.msg.substr(0, 600).c_str()), fflush(stdout);
                    if (!kn && !found) {
                        found = true;
                        vo = o;
                        vsp = s.sp;
                        vsp.explicit_mode = true;
                        vsp.choices.assign(r->choices, r->choices + r->nchoices);
                        if (!keep_going) stop = true;
                    }
                }
            }
            if (!s.pid && !stop && next < runs + DET && wall() - t0 < limit) {
                RunSpec sp;
                sp.prop = prop;
                sp.seed = seed_of(next < runs ? next : next - runs);
                if (next >= runs && !first_hash.count(sp.seed)) { next++; continue; }
                next++;
                start(s, sp);
                if (s.pid) busy = true;
                idle = false;
            }
        }
        if (!busy) break;
        if (stop) for (auto &s : slots) if (s.pid) kill(s.pid, SIGKILL), waitpid(s.pid, nullptr, 0), s.pid = 0;
        if (stop) break;
        if (idle) usleep(300);
    }
    };
    double el = 0;
    std::string replay;
    int rc = 0;
    // replays FILE in a fresh process; returns the history hash, or "" when it does not fail in the same way
    auto fresh_replay = [&](const std::string &file) {
        std::string h;
        FILE *f = popen(("'" + self_path + "' replay '" + file + "' 2>/dev/null").c_str(), "r");
        if (!f) return h;
        char b[256];
        if (fgets(b, sizeof b, f) && !strncmp(b, "REPRODUCED", 10)) h = b;
        while (fgets(b, sizeof b, f)) {}
        pclose(f);
        return h;
    };
    auto same_twice = [&](const std::string &file) { std::string a = fresh_replay(file), b = fresh_replay(file); return !a.empty() && a == b; };
    bool reported = false;
    while (true) {
        search();
        el = wall() - t0;
        if (!found || keep_going) break;
        // a violation is reported only when its recorded schedule fails in the same way, twice, in a fresh process
        mkdir(replay_dir.c_str(), 0777);
        replay = replay_dir + "/" + prop + "-" + std::to_string(vsp.seed) + ".replay";
        write_replay(replay, vsp, vo);
        if (!same_twice(replay)) {
            unrepro++;
            printf("NOTE not reproducible: kind=%s seed=%llu: %s\n", vo.kind.c_str(), (unsigned long long)vsp.seed, vo.msg.substr(0, 300).c_str());
            unlink(replay.c_str());
            found = false;
            stop = false;
            if (unrepro >= 8) break;
            continue;
        }
        RunSpec m = minimise(slots, vsp, vo, tier == "quick" ? 40 : 120);
        Outcome fin = run_one(slots[0], m, true);
        std::string note = "";
        bool min_ok = false;
        if (fin.bad && fin.kind == vo.kind && !is_known(fin)) {
            write_replay(replay, m, fin);
            min_ok = same_twice(replay);
        }
        if (min_ok) vo = fin;
        else { m = vsp; write_replay(replay, vsp, vo); note = " (not minimised)"; }
        printf("violation kind=%s seed=%llu choices=%zu (recorded %zu) reproduced_in_fresh_process=twice%s\n%s\n", vo.kind.c_str(), (unsigned long long)vsp.seed, m.choices.size(), vsp.choices.size(), note.c_str(), vo.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
        reported = true;
        rc = 1;
        break;
    }
    if (keep_going) rc = found;
    else if (!reported && unrepro) { printf("ERROR %ld violations did not reproduce from their recorded schedule\n", unrepro); rc = 3; }
    for (auto &k : known_hit) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str());
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed0 << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        f << "  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n";
        f << "  \"rule\": " << jstr(std::string("one evaluation = one whole simulated deployment run decided by one seed; a run is counted as distinct when the hash over its complete observable history (every packet, choice of answer and delivery) differs from all others. ") + prop_rule(prop)) << ",\n";
        f << "  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) f << (i ? ", " : "") << jstr(samples[i]);
        f << "],\n";
        f << "  \"distinct_schedules\": " << shapes.size() << ",\n  \"schedule_measure\": \"hash over the sequence of thread switches\",\n";
        f << "  \"runs_per_hour\": " << (long)(done / std::max(el, 0.001) * 3600) << ",\n  \"seeds\": [" << seed_of(0) << ", " << seed_of(std::max(0L, std::min(next, runs) - 1)) << "],\n";
        f << "  \"simulated_seconds\": " << (long)vtime << ",\n  \"thread_switches\": " << switches_t << ",\n  \"preemptions\": " << pre_t << ",\n  \"instrumented_steps\": " << steps_t << ",\n";
        f << "  \"determinism_rechecks\": " << det_checked << ",\n  \"determinism_mismatches\": " << det_bad << ",\n  \"runs_without_progress\": " << stuck << ",\n";
        f << "  \"faults_injected\": {";
        bool first = true;
        for (int i = 0; i < F_NKINDS; i++) if (tot_f[i]) { f << (first ? "" : ", ") << jstr(fault_names[i]) << ": {\"count\": " << tot_f[i] << ", \"runs\": " << runs_f[i] << "}"; first = false; }
        f << "},\n  \"observed\": {";
        first = true;
        for (int i = 0; i < ST_N; i++) if (tot_s[i]) { f << (first ? "" : ", ") << jstr(stat_names[i]) << ": " << tot_s[i]; first = false; }
        f << "},\n  \"real_code\": \"every C source file of the program's build list, compiled from /repo's working tree\",\n  \"stubbed\": \"libc sockets, threads, locks, clocks, files, memory allocator front end, rand, libcurl; clients, upstream servers, SOCKS5 proxies and web servers are simulated actors\"\n },\n";
        f << " \"assumptions\": [" << jstr(prop_assumptions(prop)) << "],\n \"wall_s\": " << el << ",\n \"violations\": " << (found ? 1 : 0) << "\n}\n";
    }
    printf("%s: %ld runs in %.1f s (%.0f runs/h), %zu distinct histories, %zu distinct schedules, %.0f s simulated%s\n", prop.c_str(), done, el, done / std::max(el, 0.001) * 3600, hashes.size(), shapes.size(), vtime, found ? " -- VIOLATED" : "");
    if (keep_going) for (auto &k : kinds) printf("  kind %s: %d\n", k.first.c_str(), k.second);
    return rc;
}
