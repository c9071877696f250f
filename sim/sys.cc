#include "sys.h"
#include "net.h"
#include <algorithm>
#include <cstdarg>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

SysKnobs sysk;
std::map<std::string, InodeP> vfs;
uint64_t fs_ops = 0;
uint64_t alloc_live = 0, alloc_peak = 0, allocs = 0;
int64_t alloc_live_count = 0;
std::function<WebReply(const std::string &)> web_get;
std::function<int(const std::string &)> run_script;
std::function<void(int)> on_exit_hook;
std::function<void(const std::string &)> on_file_written, on_rename, on_stdio_write;
bool prog_exited = false, prog_main_done = false;
int prog_exit_code = 0;

void sys_calm()
{
    sysk.alloc_ppm = 0;
    sysk.fopen_ppm = 0;
    sysk.disk_free = -1;
}

static std::string norm(const std::string &p)
{
    std::string r;
    for (char c : p) { if (c == '/' && !r.empty() && r.back() == '/') continue; r += c; }
    return r;
}
void vfs_put(const std::string &path, const std::string &data)
{
    InodeP i = std::make_shared<Inode>();
    i->data = data;
    vfs[norm(path)] = i;
}
void vfs_remove(const std::string &path) { vfs.erase(norm(path)); }
bool vfs_get(const std::string &path, std::string &data)
{
    auto it = vfs.find(norm(path));
    if (it == vfs.end()) return false;
    data = it->second->data;
    return true;
}

static bool crash_pending = false;
static void fs_op(const char *what, const char *path)
{
    fs_ops++;
    trace("fs %s %s", what, path);
    if (sysk.crash_fsop >= 0 && sysk.crash_fsop-- == 0) {
        fault(F_CRASH);
        crash_pending = true;
    }
}
// called at a point where it is safe to leave the fiber for good
static void crash_point()
{
    if (crash_pending && cur) {
        crash_pending = false;
        crash_now = true;
        trace("process crash injected after a file-system operation");
        world_ver++;
        block_until([] { return false; }, INF);
    }
}

ssize_t vf_read(VFileP vf, void *buf, size_t n)
{
    if (vf->pos >= vf->ino->data.size()) return 0;
    size_t k = std::min(n, vf->ino->data.size() - vf->pos);
    memcpy(buf, vf->ino->data.data() + vf->pos, k);
    vf->pos += k;
    return (ssize_t)k;
}
ssize_t vf_write(VFileP vf, const void *buf, size_t n)
{
    fs_op("write", vf->path.c_str());
    if (vf->append) vf->pos = vf->ino->data.size();
    if (sysk.disk_free >= 0) {
        size_t end = vf->pos + n, grow = end > vf->ino->data.size() ? end - vf->ino->data.size() : 0;
        if ((int64_t)grow > sysk.disk_free) {
            fault(F_DISKFULL);
            size_t can = n - (grow - (size_t)sysk.disk_free);
            if (can > n) can = 0;
            if (can == 0) { errno = ENOSPC; trace("disk full: %s", vf->path.c_str()); return -1; }
            n = can;
            grow = (size_t)sysk.disk_free;
        }
        sysk.disk_free -= (int64_t)grow;
    }
    std::string &d = vf->ino->data;
    if (d.size() < vf->pos + n) d.resize(vf->pos + n, 0);
    memcpy(&d[vf->pos], buf, n);
    vf->pos += n;
    return (ssize_t)n;
}

// ---------------------------------------------------------------- locks
struct LockState {
    int writer = 0;               // fiber id
    std::map<int, int> readers;
    bool dead = false;
};
static std::map<const void *, LockState> locks;

static void lock_touch(const void *l, const char *op)
{
    if (__asan_region_is_poisoned((void *)l, 4)) violate("memory-error", "%s on a lock in freed or invalid memory", op);
}
static void lock_wait(const void *l, std::function<bool()> can, const char *op)
{
    if (can()) return;
    if (!cur) return;
    cur->waiting_lock = l;
    usec t0 = now;
    while (!can() && now < t0 + 600 * SEC) block_until(can, t0 + 600 * SEC);
    if (!can()) violate("deadlock", "thread %s waited more than %lld s for a lock (%s)", cur->name.c_str(), (long long)((now - t0) / SEC), op);
}
static int me() { return cur ? cur->id : -1; }

static int wr_lock(const void *l, const char *op)
{
    yield_point();
    lock_touch(l, op);
    LockState *s = &locks[l];
    if (s->writer == me() && cur) {
        violate("deadlock", "thread %s acquires a lock it already holds (%s)", cur->name.c_str(), op);
    }
    lock_wait(l, [l] { LockState &s = locks[l]; return !s.writer && s.readers.empty(); }, op);
    locks[l].writer = me();
    lock_event();
    return 0;
}
static int rd_lock(const void *l, const char *op)
{
    yield_point();
    lock_touch(l, op);
    if (locks[l].writer == me() && cur) violate("deadlock", "thread %s read-locks a lock it holds for writing", cur->name.c_str());
    lock_wait(l, [l] { return !locks[l].writer; }, op);
    locks[l].readers[me()]++;
    lock_event();
    return 0;
}
static int un_lock(const void *l, const char *op)
{
    lock_touch(l, op);
    LockState &s = locks[l];
    if (s.writer) { s.writer = 0; }
    else {
        auto it = s.readers.find(me());
        if (it == s.readers.end()) it = s.readers.begin();
        if (it != s.readers.end() && --it->second == 0) s.readers.erase(it);
    }
    world_ver++;
    yield_point();
    lock_event();
    return 0;
}
static int try_lock(const void *l)
{
    yield_point();
    LockState &s = locks[l];
    if (s.writer || !s.readers.empty()) return EBUSY;
    s.writer = me();
    return 0;
}

// ---------------------------------------------------------------- threads
static std::map<unsigned long, Fiber *> threads;
static unsigned long thread_seq = 0;
static std::map<std::string, int> name_count;

// ---------------------------------------------------------------- stdio
static std::map<FILE *, int> stdio_fds;
static ssize_t ck_read(void *c, char *buf, size_t n) { return vf_read(*(VFileP *)c, buf, n); }
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
    ssize_t r = vf_write(*(VFileP *)c, buf, n);
    if (on_stdio_write) on_stdio_write((*(VFileP *)c)->path);
    return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *off, int wh)
{
    VFileP &f = *(VFileP *)c;
    int64_t p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (int64_t)f->pos + *off : (int64_t)f->ino->data.size() + *off;
    if (p < 0) { errno = EINVAL; return -1; }
    f->pos = (size_t)p;
    *off = p;
    return 0;
}
static int ck_close(void *c) { delete (VFileP *)c; return 0; }

// ---------------------------------------------------------------- mmap
struct Mapping { char *mem; size_t len; InodeP ino; };
static std::map<void *, Mapping> maps;
static void map_sync(const Mapping &m)
{
    size_t n = std::min(m.len, m.ino->data.size());
    for (size_t i = 0; i < n; i += 4096) {
        size_t k = std::min<size_t>(4096, n - i);
        memcpy(&m.ino->data[i], m.mem + i, k);
    }
}

// ---------------------------------------------------------------- process
extern "C" int df_main(int, char **);
extern "C" char __start_dfdata[], __stop_dfdata[], __start_dfbss[], __stop_dfbss[];
static std::string snap_data, snap_bss;
static __attribute__((noinline)) void raw_copy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void prog_snapshot()
{
    snap_data.resize(__stop_dfdata - __start_dfdata);
    raw_copy(&snap_data[0], __start_dfdata, snap_data.size());
    snap_bss.resize(__stop_dfbss - __start_dfbss);
    raw_copy(&snap_bss[0], __start_dfbss, snap_bss.size());
}
void prog_restart_data()
{
    raw_copy(__start_dfdata, snap_data.data(), snap_data.size());
    raw_copy(__start_dfbss, snap_bss.data(), snap_bss.size());
}
static std::vector<void (*)()> atexits;
void prog_died()
{
    for (auto &m : maps) map_sync(m.second);
    maps.clear();
    locks.clear();
    threads.clear();
    stdio_fds.clear();
    atexits.clear();
    name_count.clear();
    kill_all_fibers();
    net_process_died();
    alloc_live = 0;
    alloc_live_count = 0;
    crash_pending = false;
    crash_now = false;
    sysk.crash_fsop = -1;
}
void prog_start(const std::vector<std::string> &args)
{
    prog_exited = false;
    prog_main_done = false;
    stat(ST_LIVES);
    spawn("main", [args] {
        std::vector<char *> av;
        for (auto &a : args) av.push_back(strdup(a.c_str()));
        av.push_back(nullptr);
        int r = df_main((int)args.size(), av.data());
        prog_exited = true;
        prog_exit_code = r;
        trace("main returned %d", r);
        if (on_exit_hook) on_exit_hook(r);
        world_ver++;
    });
}

void clock_jump(int64_t us)
{
    fault(F_CLOCKJUMP);
    trace("wall clock jumps by %lld ms", (long long)(us / 1000));
    wall_base_us += us;
}

// ---------------------------------------------------------------- allocation
static bool alloc_fail(size_t n)
{
    allocs++;
    if (!sysk.alloc_ppm || !cur) return false;
    if (ch_chance(S_ALLOC, 0, sysk.alloc_ppm)) { fault(F_ALLOCFAIL); trace("allocation of %zu bytes fails", n); return true; }
    return false;
}
// SIM_LEAKS=file: where the live allocations come from (a development aid)
static std::set<void *> *leak_track = getenv("SIM_LEAKS") ? new std::set<void *> : nullptr;
void leak_report()
{
    if (!leak_track) return;
    std::map<std::string, std::pair<int, size_t>> h;
    for (void *p : *leak_track) {
        void *pcs[16];
        int tid;
        size_t n = __asan_get_alloc_stack(p, pcs, 16, &tid);
        std::string k;
        for (size_t i = 1; i < n && i < 9; i++) { char b[40]; snprintf(b, sizeof b, " %lx", (unsigned long)pcs[i] - 1); k += b; }
        h[k].first++;
        h[k].second += __sanitizer_get_allocated_size(p);
    }
    FILE *f = fopen(getenv("SIM_LEAKS"), "a");
    for (auto &x : h) fprintf(f, "LIVE %5d %8zu%s\n", x.second.first, x.second.second, x.first.c_str());
    fprintf(f, "LIVE ----\n");
    fclose(f);
}
static void acct_add(void *p)
{
    if (!p) return;
    if (leak_track) leak_track->insert(p);
    alloc_live += __sanitizer_get_allocated_size(p);
    alloc_live_count++;
    if (alloc_live > alloc_peak) alloc_peak = alloc_live;
}
static void acct_del(void *p)
{
    if (!p) return;
    if (leak_track) leak_track->erase(p);
    if (__sanitizer_get_ownership(p)) { size_t n = __sanitizer_get_allocated_size(p); alloc_live -= n < alloc_live ? n : alloc_live; alloc_live_count--; }
}

extern "C" {
void *sim_malloc(size_t n)
{
    if (alloc_fail(n)) { errno = ENOMEM; return nullptr; }
    void *p = malloc(n);
    acct_add(p);
    return p;
}
void *sim_calloc(size_t a, size_t b)
{
    if (alloc_fail(a * b)) { errno = ENOMEM; return nullptr; }
    void *p = calloc(a, b);
    acct_add(p);
    return p;
}
void *sim_realloc(void *q, size_t n)
{
    if (alloc_fail(n)) { errno = ENOMEM; return nullptr; }
    acct_del(q);
    void *p = realloc(q, n);
    acct_add(p);
    return p;
}
void sim_free(void *p)
{
    acct_del(p);
    free(p);
}
char *sim_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = (char *)sim_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}

// locks
int sim_pthread_spin_init(const void *l, int) { lock_touch(l, "init"); locks[l] = LockState(); return 0; }
int sim_pthread_spin_destroy(const void *l) { locks.erase(l); return 0; }
int sim_pthread_spin_lock(const void *l) { return wr_lock(l, "spin lock"); }
int sim_pthread_spin_trylock(const void *l) { return try_lock(l); }
int sim_pthread_spin_unlock(const void *l) { return un_lock(l, "spin unlock"); }
int sim_pthread_mutex_init(const void *l, const void *) { locks[l] = LockState(); return 0; }
int sim_pthread_mutex_destroy(const void *l) { locks.erase(l); return 0; }
int sim_pthread_mutex_lock(const void *l) { return wr_lock(l, "mutex lock"); }
int sim_pthread_mutex_trylock(const void *l) { return try_lock(l); }
int sim_pthread_mutex_unlock(const void *l) { return un_lock(l, "mutex unlock"); }
int sim_pthread_rwlock_init(const void *l, const void *) { lock_touch(l, "init"); locks[l] = LockState(); return 0; }
int sim_pthread_rwlock_destroy(const void *l) { locks.erase(l); return 0; }
int sim_pthread_rwlock_rdlock(const void *l) { return rd_lock(l, "read lock"); }
int sim_pthread_rwlock_wrlock(const void *l) { return wr_lock(l, "write lock"); }
int sim_pthread_rwlock_unlock(const void *l) { return un_lock(l, "rwlock unlock"); }
int sim_pthread_rwlock_trywrlock(const void *l) { return try_lock(l); }
int sim_pthread_rwlock_tryrdlock(const void *l)
{
    yield_point();
    if (locks[l].writer) return EBUSY;
    locks[l].readers[me()]++;
    return 0;
}
// condition variables (not used by the program today)
static std::map<const void *, uint64_t> conds;
int sim_pthread_cond_init(const void *c, const void *) { conds[c] = 0; return 0; }
int sim_pthread_cond_destroy(const void *) { return 0; }
int sim_pthread_cond_signal(const void *c) { conds[c]++; world_ver++; yield_point(); return 0; }
int sim_pthread_cond_broadcast(const void *c) { return sim_pthread_cond_signal(c); }
int sim_pthread_cond_wait(const void *c, const void *m)
{
    uint64_t v = conds[c];
    un_lock(m, "cond wait");
    block_until([c, v] { return conds[c] != v; }, INF);
    return wr_lock(m, "cond wait");
}
int sim_pthread_cond_timedwait(const void *c, const void *m, const struct timespec *ts)
{
    uint64_t v = conds[c];
    un_lock(m, "cond wait");
    usec dl = ts->tv_sec * SEC + ts->tv_nsec / 1000 - wall_base_us;
    bool ok = block_until([c, v] { return conds[c] != v; }, dl);
    wr_lock(m, "cond wait");
    return ok ? 0 : ETIMEDOUT;
}

// threads
int sim_pthread_create(pthread_t *t, const void *, void *(*fn)(void *), void *arg)
{
    yield_point();
    unsigned long id = ++thread_seq;
    if (__asan_region_is_poisoned(t, sizeof *t)) violate("memory-error", "pthread_create stores the thread handle into freed memory");
    Fiber *f = spawn("thread", [fn, arg] { fn(arg); });
    threads[id] = f;
    *t = (pthread_t)id;
    trace("pthread_create -> %s", f->name.c_str());
    yield_point();
    return 0;
}
int sim_pthread_detach(pthread_t t)
{
    if ((unsigned long)t == 0 || !threads.count((unsigned long)t)) violate("invalid-thread", "pthread_detach called with an invalid thread handle (crashes the process)");
    return 0;
}
int sim_pthread_join(pthread_t t, void **r)
{
    auto it = threads.find((unsigned long)t);
    if (it == threads.end()) violate("invalid-thread", "pthread_join called with an invalid thread handle");
    Fiber *f = it->second;
    block_until([f] { return f->state == Fiber::DONE; }, INF);
    if (r) *r = nullptr;
    return 0;
}
pthread_t sim_pthread_self(void) { for (auto &p : threads) if (p.second == cur) return (pthread_t)p.first; return (pthread_t)999999; }
int sim_pthread_cancel(pthread_t) { return 0; }
int sim_sched_yield(void) { sleep_fiber(1); return 0; }
void sim_pthread_exit(void *)
{
    if (cur && cur->id == 1) prog_main_done = true;
    if (cur && cur->name.compare(0, 4, "main") == 0) prog_main_done = true;
    fiber_exit();
}
long sim_syscall(long, ...) { return cur ? cur->id : 1; }
int sim_gettid(void) { return cur ? cur->id : 1; }

// time
time_t sim_time(time_t *t)
{
    time_t v = (time_t)(wall_us() / SEC);
    if (t) *t = v;
    return v;
}
int sim_clock_gettime(clockid_t c, struct timespec *ts)
{
    int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_us() : now + 1000 * SEC;
    ts->tv_sec = v / SEC;
    ts->tv_nsec = (v % SEC) * 1000;
    return 0;
}
int sim_gettimeofday(struct timeval *tv, void *)
{
    int64_t v = wall_us();
    tv->tv_sec = v / SEC;
    tv->tv_usec = v % SEC;
    return 0;
}
clock_t sim_clock(void) { return (clock_t)now; }
int sim_usleep(unsigned us) { yield_point(); sleep_fiber(us); return 0; }
unsigned sim_sleep(unsigned s) { yield_point(); sleep_fiber(s * SEC); return 0; }
int sim_nanosleep(const struct timespec *ts, struct timespec *rem)
{
    yield_point();
    sleep_fiber(ts->tv_sec * SEC + ts->tv_nsec / 1000);
    if (rem) rem->tv_sec = rem->tv_nsec = 0;
    return 0;
}

// randomness
void sim_srand(unsigned) {}
int sim_rand(void) { return (int)ch_range(S_RAND, 0, 0, 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned) {}
int sim_rand_r(unsigned *) { return sim_rand(); }

// process
int sim_atexit(void (*fn)()) { atexits.push_back(fn); return 0; }
void sim_exit(int code)
{
    prog_exited = true;
    prog_exit_code = code;
    trace("exit(%d)", code);
    if (on_exit_hook) on_exit_hook(code);
    world_ver++;
    block_until([] { return false; }, INF);
    abort();
}
void sim_abort(void) { violate("abort", "the program called abort()"); }
int sim_fork(void) { errno = ENOSYS; return -1; }
int sim_setsid(void) { return 1; }
mode_t sim_umask(mode_t) { return 022; }
int sim_system(const char *cmd)
{
    yield_point();
    sleep_fiber(2000);
    int r = run_script ? run_script(cmd) : 127 << 8;
    trace("system(%s) = %d", cmd, r);
    yield_point();
    return r;
}

// files
FILE *sim_fopen(const char *path0, const char *mode)
{
    yield_point();
    std::string path = norm(path0);
    bool rd = mode[0] == 'r', wr = mode[0] == 'w', ap = mode[0] == 'a', plus = strchr(mode, '+') != nullptr;
    if (sysk.fopen_ppm && ch_chance(S_FAULT, 30, sysk.fopen_ppm)) { fault(F_FOPENERR); errno = EMFILE; trace("fopen(%s,%s) fails (injected)", path.c_str(), mode); return nullptr; }
    auto it = vfs.find(path);
    if (it == vfs.end() && rd) { errno = ENOENT; return nullptr; }
    if (sysk.disk_free == 0 && it == vfs.end()) { fault(F_DISKFULL); errno = ENOSPC; return nullptr; }
    if (it != vfs.end() && it->second->dir) { errno = EISDIR; return nullptr; }
    InodeP ino;
    if (it == vfs.end()) { ino = std::make_shared<Inode>(); vfs[path] = ino; fs_op("create", path.c_str()); }
    else ino = it->second;
    if (wr) { fs_op("truncate", path.c_str()); ino->data.clear(); }
    VFileP vf = std::make_shared<VFile>();
    vf->ino = ino;
    vf->path = path;
    vf->append = ap;
    vf->writable = !rd || plus;
    int fd = vfd_alloc(vf);
    if (fd < 0) { errno = EMFILE; return nullptr; }
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(new VFileP(vf), mode, io);
    if (f) stdio_fds[f] = fd;
    crash_point();
    return f;
}
int sim_close(int);
int sim_fclose(FILE *f)
{
    yield_point();
    std::string path;
    bool w = false;
    auto it = stdio_fds.find(f);
    if (it != stdio_fds.end()) {
        VFileP vf = vfd_get(it->second);
        if (vf) { path = vf->path; w = vf->writable; }
        sim_close(it->second);
        stdio_fds.erase(it);
    } else if (f != stdout && f != stderr && f != stdin) {
        violate("memory-error", "fclose() of a stream that is not open (double close)");
    }
    int r = fclose(f);
    if (w && on_file_written) on_file_written(path);
    crash_point();
    return r;
}
static void chk_stream(FILE *f, const char *op)
{
    if (f == stdout || f == stderr || f == stdin) return;
    if (!stdio_fds.count(f)) violate("memory-error", "%s() on a stream that is not open (used after fclose)", op);
}
int sim_fflush(FILE *f)
{
    if (f) chk_stream(f, "fflush");
    int r = fflush(f);
    crash_point();
    return r;
}
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { chk_stream(f, "fwrite"); return fwrite(p, a, b, f); }
size_t sim_fread(void *p, size_t a, size_t b, FILE *f) { chk_stream(f, "fread"); return fread(p, a, b, f); }
int sim_fputs(const char *s, FILE *f) { chk_stream(f, "fputs"); return fputs(s, f); }
int sim_fputc(int c, FILE *f) { chk_stream(f, "fputc"); return fputc(c, f); }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { chk_stream(f, "fprintf"); return vfprintf(f, fmt, ap); }
int sim_fprintf(FILE *f, const char *fmt, ...)
{
    chk_stream(f, "fprintf");
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int sim_open(const char *path0, int flags, ...)
{
    yield_point();
    std::string path = norm(path0);
    auto it = vfs.find(path);
    if (it == vfs.end() && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
    InodeP ino;
    if (it == vfs.end()) { ino = std::make_shared<Inode>(); vfs[path] = ino; fs_op("create", path.c_str()); }
    else ino = it->second;
    if (flags & O_TRUNC) ino->data.clear();
    VFileP vf = std::make_shared<VFile>();
    vf->ino = ino;
    vf->path = path;
    vf->append = flags & O_APPEND;
    vf->flags = flags;
    crash_point();
    return vfd_alloc(vf);
}
off_t sim_lseek(int fd, off_t off, int wh)
{
    VFileP f = vfd_get(fd);
    if (!f) return -1;
    int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? (int64_t)f->pos + off : (int64_t)f->ino->data.size() + off;
    if (p < 0) { errno = EINVAL; return -1; }
    f->pos = (size_t)p;
    return p;
}
int sim_ftruncate(int fd, off_t n)
{
    VFileP f = vfd_get(fd);
    if (!f) return -1;
    f->ino->data.resize((size_t)n, 0);
    return 0;
}
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off)
{
    VFileP f = vfd_get(fd);
    if (!f) return -1;
    size_t p = f->pos;
    f->pos = (size_t)off;
    ssize_t r = vf_write(f, b, n);
    f->pos = p;
    return r;
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t off)
{
    VFileP f = vfd_get(fd);
    if (!f) return -1;
    size_t p = f->pos;
    f->pos = (size_t)off;
    ssize_t r = vf_read(f, b, n);
    f->pos = p;
    return r;
}
int sim_fsync(int) { yield_point(); return 0; }
int sim_msync(void *a, size_t, int) { auto it = maps.find(a); if (it != maps.end()) map_sync(it->second); return 0; }
void *sim_mmap(void *, size_t len, int prot, int flags, int fd, off_t)
{
    yield_point();
    if (flags & MAP_ANONYMOUS) return mmap(nullptr, len, prot, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    VFileP f = vfd_get(fd);
    if (!f) return MAP_FAILED;
    size_t total = (len + 4095) & ~(size_t)4095;
    char *m = (char *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t have = std::min(len, f->ino->data.size());
    memcpy(m, f->ino->data.data(), have);
    size_t valid = (f->ino->data.size() + 4095) & ~(size_t)4095;
    if (valid < total) mprotect(m + valid, total - valid, PROT_NONE); // SIGBUS beyond the end of file
    maps[m] = Mapping{m, len, f->ino};
    return m;
}
int sim_munmap(void *a, size_t n)
{
    yield_point();
    auto it = maps.find(a);
    if (it == maps.end()) return munmap(a, n);
    map_sync(it->second);
    munmap(a, (it->second.len + 4095) & ~(size_t)4095);
    maps.erase(it);
    return 0;
}
int sim_remove(const char *p)
{
    yield_point();
    std::string path = norm(p);
    if (!vfs.count(path)) { errno = ENOENT; return -1; }
    vfs.erase(path);
    fs_op("remove", path.c_str());
    crash_point();
    return 0;
}
int sim_unlink(const char *p) { return sim_remove(p); }
int sim_rename(const char *a, const char *b)
{
    yield_point();
    std::string x = norm(a), y = norm(b);
    auto it = vfs.find(x);
    if (it == vfs.end()) { errno = ENOENT; return -1; }
    vfs[y] = it->second;
    vfs.erase(x);
    fs_op("rename to", y.c_str());
    if (on_rename) on_rename(y);
    crash_point();
    return 0;
}
int sim_mkdir(const char *p, mode_t)
{
    std::string path = norm(p);
    if (vfs.count(path)) { errno = EEXIST; return -1; }
    InodeP i = std::make_shared<Inode>();
    i->dir = true;
    vfs[path] = i;
    return 0;
}
int sim_stat(const char *p, struct stat *st)
{
    auto it = vfs.find(norm(p));
    if (it == vfs.end()) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = it->second->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = (off_t)it->second->data.size();
    return 0;
}
int sim_fstat(int fd, struct stat *st)
{
    VFileP f = vfd_get(fd);
    if (!f) return -1;
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)f->ino->data.size();
    return 0;
}
int sim_access(const char *p, int)
{
    if (vfs.count(norm(p))) return 0;
    errno = ENOENT;
    return -1;
}

// libcurl
struct SimCurl { std::string url; size_t (*wf)(void *, size_t, size_t, void *) = nullptr; void *wd = nullptr; long timeout_ms = 0; bool failonerror = false; };
int sim_curl_global_init(long) { return 0; }
void sim_curl_global_cleanup(void) {}
void *sim_curl_easy_init(void) { return new SimCurl; }
void sim_curl_easy_cleanup(void *c) { delete (SimCurl *)c; }
int sim_curl_easy_setopt(void *c0, int opt, ...)
{
    SimCurl *c = (SimCurl *)c0;
    va_list ap;
    va_start(ap, opt);
    switch (opt) {
    case 10002: c->url = va_arg(ap, const char *); break;
    case 20011: c->wf = va_arg(ap, size_t (*)(void *, size_t, size_t, void *)); break;
    case 10001: c->wd = va_arg(ap, void *); break;
    case 13: c->timeout_ms = va_arg(ap, long) * 1000; break;
    case 155: c->timeout_ms = va_arg(ap, long); break;
    case 45: c->failonerror = va_arg(ap, long) != 0; break;
    default: break;
    }
    va_end(ap);
    return 0;
}
int sim_curl_easy_perform(void *c0)
{
    SimCurl *c = (SimCurl *)c0;
    yield_point();
    WebReply r;
    if (web_get) r = web_get(c->url);
    else r.code = 7;
    stat(ST_DOWNLOADS);
    if (c->timeout_ms && r.dt > c->timeout_ms * MS) { sleep_fiber(c->timeout_ms * MS); return 28; }
    sleep_fiber(r.dt / 2 + 1);
    size_t off = 0, lim = std::min(r.body.size(), r.fail_after);
    while (off < lim) {
        size_t k = std::min<size_t>(lim - off, (size_t)ch_range(S_ENV, 5, 64, 1024));
        size_t w = c->wf ? c->wf((void *)(r.body.data() + off), 1, k, c->wd) : sim_fwrite(r.body.data() + off, 1, k, (FILE *)c->wd);
        if (w != k) { trace("curl: write callback failed"); return 23; }
        off += k;
        yield_point();
        crash_point();
    }
    sleep_fiber(r.dt / 2 + 1);
    trace("curl %s -> %d (%zu bytes)", c->url.c_str(), r.code, off);
    return r.code;
}
const char *sim_curl_easy_strerror(int) { return "error"; }
} // extern C
