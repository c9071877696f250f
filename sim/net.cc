#include "net.h"
#include "sys.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sanitizer/asan_interface.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <algorithm>
#include <cstdarg>

NetKnobs net;
uint64_t net_peak_fds = 0;
const Addr PROG4 = mkaddr("10.0.0.1", 0), PROG6 = mkaddr("fd00::1", 0);
std::function<void(const Addr &, const Addr &, const Bytes &)> tap_prog_send, tap_prog_recv;

std::string Addr::ipstr() const
{
    char b[64] = "?";
    if (fam) inet_ntop(fam, ip, b, sizeof b);
    return b;
}
std::string Addr::str() const
{
    std::string s = ipstr();
    return (fam == AF_INET6 ? "[" + s + "]" : s) + ":" + std::to_string(port);
}
Addr mkaddr(const char *ip, int port)
{
    Addr a;
    a.fam = strchr(ip, ':') ? AF_INET6 : AF_INET;
    if (inet_pton(a.fam, ip, a.ip) != 1) { fprintf(stderr, "bad ip %s\n", ip); abort(); }
    a.port = (uint16_t)port;
    return a;
}
bool from_sa(const struct sockaddr *sa, socklen_t len, Addr &a)
{
    a = Addr();
    if (!sa || len < 2) return false;
    if (sa->sa_family == AF_INET && len >= sizeof(sockaddr_in)) {
        const sockaddr_in *s = (const sockaddr_in *)sa;
        a.fam = AF_INET;
        memcpy(a.ip, &s->sin_addr, 4);
        a.port = ntohs(s->sin_port);
        return true;
    }
    if (sa->sa_family == AF_INET6 && len >= 24) {
        const sockaddr_in6 *s = (const sockaddr_in6 *)sa;
        a.fam = AF_INET6;
        memcpy(a.ip, &s->sin6_addr, 16);
        a.port = ntohs(s->sin6_port);
        return true;
    }
    return false;
}
void to_sa(const Addr &a, struct sockaddr *sa, socklen_t *len)
{
    char buf[sizeof(sockaddr_in6)];
    memset(buf, 0, sizeof buf);
    socklen_t n;
    if (a.fam == AF_INET6) {
        sockaddr_in6 *s = (sockaddr_in6 *)buf;
        s->sin6_family = AF_INET6;
        memcpy(&s->sin6_addr, a.ip, 16);
        s->sin6_port = htons(a.port);
        n = sizeof *s;
    } else {
        sockaddr_in *s = (sockaddr_in *)buf;
        s->sin_family = AF_INET;
        memcpy(&s->sin_addr, a.ip, 4);
        s->sin_port = htons(a.port);
        n = sizeof *s;
    }
    if (sa && len) { memcpy(sa, buf, n < *len ? n : *len); *len = n; }
}

std::function<bool(const Addr &to)> udp_unreach;
void net_calm()
{
    net.loss_ppm = net.dup_ppm = net.delay_ppm = net.seg_ppm = net.senderr_ppm = net.recverr_ppm = net.sockerr_ppm = 0;
    net.jitter = 0;
}

// ---------------------------------------------------------------- objects
struct Sock;
typedef std::shared_ptr<Sock> SockP;
struct Dgram { Addr from; Bytes data; };

static std::map<Addr, Sock *> udp_bound, tcp_listen;
static std::map<Addr, UdpFn> udp_actors;
static std::map<Addr, ListenActor> tcp_actors;
static uint16_t next_eph = 32768;
static uint64_t peer_seq = 0;
static std::map<uint64_t, Peer> peers_by_sock; // program socket serial -> peer
static uint64_t sock_seq = 0;

struct PipeBuf { Bytes data; int readers = 0, writers = 0; };

struct Sock {
    enum Kind { UDP, TCP, PIPE_R, PIPE_W, VFILE } kind;
    uint64_t serial = ++sock_seq;
    int fam = AF_INET;
    bool nonblock = false;
    Addr bound, remote;
    bool is_bound = false, connected = false, listening = false, connecting = false;
    int backlog = 0;
    std::deque<Dgram> q;          // UDP
    Bytes rx;                     // TCP
    bool eof = false, rst = false, shut_wr = false, shut_rd = false;
    bool epipe = false;           // writes now fail
    bool outgoing = false;        // the program connected it
    int err = 0;                  // pending SO_ERROR
    std::deque<Peer> acceptq;
    int refusals = 0;
    Peer peer;
    usec rcvtimeo = 0, sndtimeo = 0;
    std::shared_ptr<PipeBuf> pipe;
    VFileP vf;
    bool torn = false;
    void teardown();
    ~Sock() { teardown(); }
    bool readable() const
    {
        switch (kind) {
        case UDP: return !q.empty() || err;
        case TCP:
            if (listening) return !acceptq.empty();
            if (connecting) return false;
            return !rx.empty() || eof || rst || err || shut_rd || !connected;
        case PIPE_R: return !pipe->data.empty() || pipe->writers == 0;
        default: return true;
        }
    }
    size_t space() const { return peer && peer->unread < (size_t)net.sndbuf ? net.sndbuf - peer->unread : 0; }
    bool writable() const
    {
        switch (kind) {
        case TCP:
            if (listening) return false;
            if (connecting) return false;
            if (err || rst || epipe || shut_wr || !connected) return true;
            return space() >= (size_t)net.sndbuf / 3 + 1 || space() >= 4096;
        case PIPE_W: return pipe->data.size() < 65536;
        default: return true;
        }
    }
};

static const int FD_LIMIT = 1024;
static std::vector<SockP> fdt(3);

static int fd_alloc(SockP s)
{
    for (size_t i = 3; i < fdt.size(); i++) if (!fdt[i]) { fdt[i] = s; goto ok; }
    if (fdt.size() >= (size_t)FD_LIMIT) { errno = EMFILE; return -1; }
    fdt.push_back(s);
ok:
    {
        int n = net_open_fds();
        if ((uint64_t)n > net_peak_fds) net_peak_fds = n;
    }
    for (size_t i = 3; i < fdt.size(); i++) if (fdt[i] == s) return (int)i;
    return -1;
}
static bool fd_available()
{
    if (fdt.size() < (size_t)FD_LIMIT) return true;
    for (size_t i = 3; i < fdt.size(); i++) if (!fdt[i]) return true;
    return false;
}
static SockP fd_get(int fd)
{
    if (fd < 0 || (size_t)fd >= fdt.size() || !fdt[fd]) { errno = EBADF; return nullptr; }
    return fdt[fd];
}
int vfd_alloc(VFileP vf)
{
    SockP s = std::make_shared<Sock>();
    s->kind = Sock::VFILE;
    s->vf = vf;
    return fd_alloc(s);
}
VFileP vfd_get(int fd)
{
    SockP s = fd_get(fd);
    if (s && s->kind == Sock::VFILE) return s->vf;
    if (s) errno = EBADF;
    return nullptr;
}
int net_open_fds() { int n = 0; for (size_t i = 3; i < fdt.size(); i++) n += !!fdt[i]; return n; }
int net_open_socks(int type)
{
    int n = 0;
    for (size_t i = 3; i < fdt.size(); i++) if (fdt[i] && ((type == SOCK_STREAM && fdt[i]->kind == Sock::TCP) || (type == SOCK_DGRAM && fdt[i]->kind == Sock::UDP))) n++;
    return n;
}

static void check_buf(const void *p, size_t n, const char *what)
{
    if (n && p && __asan_region_is_poisoned((void *)p, n))
        violate("memory-error", "%s called with a buffer of %zu bytes that reaches outside its object (heap/stack overflow or freed memory)", what, n);
}

// ---------------------------------------------------------------- delivery
static Sock *find_udp(const Addr &to)
{
    auto it = udp_bound.find(to);
    if (it != udp_bound.end()) return it->second;
    Addr any = to;
    memset(any.ip, 0, 16);
    it = udp_bound.find(any);
    if (it != udp_bound.end()) return it->second;
    return nullptr;
}
static bool is_prog_ip(const Addr &a)
{
    return a.loop() || !memcmp(a.ip, PROG4.ip, 16) || !memcmp(a.ip, PROG6.ip, 16) || a.any();
}
static bool deliver_to_prog(const Addr &from, const Addr &to, const Bytes &d)
{
    Sock *s = find_udp(to);
    if (!s) return false;
    if (s->connected && s->remote != from) return false;
    if ((int)s->q.size() >= net.queue_cap) { fault(F_QUEUEFULL); trace("udp %s -> %s dropped: receive queue full", from.str().c_str(), to.str().c_str()); return false; }
    s->q.push_back(Dgram{from, d});
    if (tap_prog_recv) tap_prog_recv(from, to, d);
    world_ver++;
    return true;
}

static usec path_delay(uint32_t key)
{
    usec d = net.base;
    if (net.jitter > 0) d += ch_range(S_NET, key, 0, net.jitter);
    if (net.delay_ppm && ch_chance(S_NET, key + 1, net.delay_ppm)) {
        usec x = ch_range(S_NET, key + 2, 1, net.big_delay);
        d += x;
        fault(F_DELAY);
    }
    return d;
}

bool net_prog_udp_bound(const Addr &to) { return find_udp(to) != nullptr; }
// datagrams the program has sent to itself and not read yet
size_t net_pending_loopback() { size_t n = 0; for (auto &b : udp_bound) if (b.first.loop()) n += b.second->q.size(); return n; }
size_t net_pending_rx(const Addr &to) { Sock *s = find_udp(to); return s ? s->q.size() : 0; }

void actor_udp_bind(const Addr &a, UdpFn fn) { udp_actors[a] = fn; }
void actor_udp_unbind(const Addr &a) { udp_actors.erase(a); }

void actor_udp_send(const Addr &from, const Addr &to, const Bytes &data, bool faults, usec extra)
{
    usec d = extra + (faults ? path_delay(10) : net.base);
    if (faults && ch_chance(S_NET, 20, net.loss_ppm)) { fault(F_LOSS); trace("net lost %s -> %s", from.str().c_str(), to.str().c_str()); return; }
    auto go = [from, to, data] {
        trace("udp %s -> %s (%zu bytes) arrives", from.str().c_str(), to.str().c_str(), data.size());
        deliver_to_prog(from, to, data);
    };
    ev_in(d, go);
    if (faults && ch_chance(S_NET, 21, net.dup_ppm)) { fault(F_DUP); ev_in(d + path_delay(13), go); }
}

static void prog_udp_out(const Addr &from, const Addr &to, const Bytes &data)
{
    if (is_prog_ip(to) && find_udp(to)) { deliver_to_prog(from, to, data); return; }
    if (tap_prog_send) tap_prog_send(from, to, data);
    mix_bytes(data.data(), data.size());
    mix(to.port ^ ((uint64_t)to.ip[3] << 32));
    if (!udp_actors.count(to)) { trace("udp %s -> %s (%zu bytes): nobody there", from.str().c_str(), to.str().c_str(), data.size()); return; }
    usec d = path_delay(30);
    if (ch_chance(S_NET, 40, net.loss_ppm)) { fault(F_UPLOSS); trace("net lost %s -> %s", from.str().c_str(), to.str().c_str()); return; }
    auto go = [from, to, data] {
        auto it = udp_actors.find(to);
        if (it != udp_actors.end()) { UdpFn f = it->second; f(from, to, data); }
    };
    ev_in(d, go);
    if (ch_chance(S_NET, 41, net.dup_ppm)) { fault(F_DUP); ev_in(d + path_delay(33), go); }
}

// ---------------------------------------------------------------- TCP
static Sock *peer_sock(const Peer &p) { return (Sock *)p->sock; }

static void rx_at(Peer p, usec delay, std::function<void()> fn)
{
    usec t = now + delay;
    if (t <= p->last_arrival) t = p->last_arrival + 1;
    p->last_arrival = t;
    ev_at(t, std::move(fn));
}

static void seg_deliver(Peer p, Bytes d)
{
    Sock *s = peer_sock(p);
    if (p->closed && !s) return;
    if (!s) { // program closed it: answer with RST
        if (!p->closed) { p->closed = true; p->by_rst = true; if (p->on_close) p->on_close(); }
        return;
    }
    if (s->rst) return;
    s->rx += d;
    world_ver++;
}

void peer_send(Peer p, const Bytes &data, usec delay, bool segment)
{
    if (p->we_closed || p->half) return;
    Bytes rest = data;
    usec d = delay + net.base + (net.jitter ? ch_range(S_NET, 50, 0, net.jitter) : 0);
    if (segment && rest.size() > 1 && ch_chance(S_NET, 51, net.seg_ppm)) {
        fault(F_SEGMENT);
        int parts = 0;
        while (rest.size() > 1 && parts++ < 6) {
            size_t lim = rest.size() - 1;
            // small cuts are the interesting ones: inside the length prefix or the header
            size_t cut = (size_t)ch_range(S_NET, 52, 1, ch_chance(S_NET, 54, 500000) ? (int64_t)lim : (int64_t)std::min<size_t>(lim, 3));
            Bytes a = rest.substr(0, cut);
            rest.erase(0, cut);
            rx_at(p, d, [p, a] { seg_deliver(p, a); });
            d += ch_range(S_NET, 53, 1, net.seg_gap > 1 ? net.seg_gap : 2);
            if (ch_chance(S_NET, 55, 500000)) break;
        }
    }
    rx_at(p, d, [p, rest] { seg_deliver(p, rest); });
}
void peer_close(Peer p, usec delay)
{
    if (p->we_closed) return;
    p->we_closed = true;
    rx_at(p, delay + net.base, [p] {
        Sock *s = peer_sock(p);
        if (s) { s->eof = true; world_ver++; }
    });
}
void peer_shutdown(Peer p, usec delay)
{
    if (p->we_closed || p->half) return;
    p->half = true;
    rx_at(p, delay + net.base, [p] {
        Sock *s = peer_sock(p);
        if (s) { s->eof = true; world_ver++; }
    });
}
void peer_rst(Peer p, usec delay)
{
    p->we_closed = true;
    rx_at(p, delay + net.base, [p] {
        Sock *s = peer_sock(p);
        if (s && !s->rst) { s->rst = true; s->rx.clear(); s->err = ECONNRESET; s->epipe = true; world_ver++; }
        p->sock = nullptr;
        if (s) s->peer = nullptr;
    });
}
void peer_read(Peer p, bool on)
{
    p->reading = on;
    if (on && !p->held.empty()) {
        Bytes h;
        h.swap(p->held);
        p->unread -= h.size();
        world_ver++;
        if (p->on_data) p->on_data(h);
    }
}

// program -> actor bytes
static void prog_tcp_out(Sock *s, const Bytes &d)
{
    Peer p = s->peer;
    p->unread += d.size();
    usec t = now + net.base + (net.jitter ? ch_range(S_NET, 60, 0, net.jitter) : 0);
    if (t <= p->last_rx) t = p->last_rx + 1;
    p->last_rx = t;
    mix_bytes(d.data(), d.size());
    ev_at(t, [p, d] {
        if (p->we_closed) { // data to a closed peer: it answers RST
            Sock *q = peer_sock(p);
            p->unread -= d.size();
            if (q) ev_in(net.base, [p] {
                Sock *q2 = peer_sock(p);
                if (q2) { q2->rst = true; q2->err = ECONNRESET; q2->epipe = true; q2->rx.clear(); world_ver++; }
            });
            return;
        }
        if (!p->reading) { p->held += d; return; }
        p->unread -= d.size();
        world_ver++;
        if (p->on_data) p->on_data(d);
    });
}
static void prog_tcp_close(Sock *s)
{
    Peer p = s->peer;
    if (!p) return;
    bool rst = !s->rx.empty();
    p->sock = nullptr;
    usec t = now + net.base;
    if (t <= p->last_rx) t = p->last_rx + 1;
    p->last_rx = t;
    ev_at(t, [p, rst] {
        if (p->closed) return;
        p->closed = true;
        p->by_rst = rst;
        if (p->on_close) p->on_close();
    });
}

void actor_tcp_listen(const Addr &a, ListenActor l) { tcp_actors[a] = l; }
void actor_tcp_unlisten(const Addr &a) { tcp_actors.erase(a); }

static Sock *find_listen(const Addr &to)
{
    auto it = tcp_listen.find(to);
    if (it != tcp_listen.end()) return it->second;
    Addr any = to;
    memset(any.ip, 0, 16);
    it = tcp_listen.find(any);
    return it == tcp_listen.end() ? nullptr : it->second;
}
bool net_prog_listening(const Addr &to) { return find_listen(to) != nullptr; }

static void try_syn(Peer p, int attempt)
{
    Sock *l = find_listen(p->remote);
    if (!l) { p->closed = true; if (p->on_fail) p->on_fail(); return; }
    if ((int)l->acceptq.size() > l->backlog) {
        if (attempt < 5) ev_in(SEC << attempt, [p, attempt] { if (!p->we_closed) try_syn(p, attempt + 1); });
        else { p->closed = true; if (p->on_fail) p->on_fail(); }
        return;
    }
    // the kernel completes the handshake; data may arrive before accept()
    Sock *ns = new Sock; // owned by the accept queue until accepted
    ns->kind = Sock::TCP;
    ns->fam = l->fam;
    ns->bound = p->remote;
    ns->remote = p->local;
    ns->connected = true;
    ns->peer = p;
    p->sock = ns;
    p->open = true;
    l->acceptq.push_back(p);
    world_ver++;
    ev_in(net.base, [p] { if (p->on_open && !p->we_closed) p->on_open(); });
}

Peer actor_tcp_connect(const Addr &from, const Addr &to, usec delay)
{
    Peer p = std::make_shared<TcpPeer>();
    p->id = ++peer_seq;
    p->local = from;
    p->remote = to;
    ev_in(delay + net.base, [p] { try_syn(p, 0); });
    return p;
}

static std::vector<usec> udp_closed;
const std::vector<usec> &net_udp_closed() { return udp_closed; }
void Sock::teardown()
{
    if (torn) return;
    torn = true;
    switch (kind) {
    case UDP:
        udp_closed.push_back(now);
        if (is_bound) { auto it = udp_bound.find(bound); if (it != udp_bound.end() && it->second == this) udp_bound.erase(it); }
        break;
    case TCP:
        if (listening) {
            auto it = tcp_listen.find(bound);
            if (it != tcp_listen.end() && it->second == this) tcp_listen.erase(it);
            for (auto &p : acceptq) { Sock *s = peer_sock(p); if (s) delete s; }
        }
        if (peer) prog_tcp_close(this);
        break;
    case PIPE_R: pipe->readers--; break;
    case PIPE_W: pipe->writers--; break;
    default: break;
    }
    world_ver++;
}

// Process death: every descriptor is closed by the kernel.
void net_process_died()
{
    std::vector<SockP> old;
    old.swap(fdt);
    fdt.resize(3);
    // threads that were killed inside a call still hold references to their sockets
    for (auto &s : old) if (s) s->teardown();
    old.clear();
    world_ver++;
}

// ---------------------------------------------------------------- system calls
static bool sock_fault(uint32_t key, int e)
{
    if (net.sockerr_ppm && ch_chance(S_FAULT, key, net.sockerr_ppm)) { fault(F_SOCKERR); trace("injected error %s in socket call", strerror(e)); errno = e; return true; }
    return false;
}

extern "C" {

int sim_socket(int domain, int type, int)
{
    yield_point();
    bool nb = type & SOCK_NONBLOCK;
    type &= 0xf;
    if (domain != AF_INET && domain != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
    if (sock_fault(1, ch_pick(S_FAULT, 2, 2) ? ENOBUFS : EMFILE)) return -1;
    SockP s = std::make_shared<Sock>();
    s->kind = type == SOCK_STREAM ? Sock::TCP : Sock::UDP;
    s->fam = domain;
    s->nonblock = nb;
    int fd = fd_alloc(s);
    trace("socket(%s) = %d", type == SOCK_STREAM ? "tcp" : "udp", fd);
    return fd;
}

static bool in_use(const Sock *s, const Addr &a)
{
    auto &m = s->kind == Sock::UDP ? udp_bound : tcp_listen;
    for (auto &e : m) {
        if (e.first.port != a.port || e.first.fam != a.fam) continue;
        if (e.first == a || e.first.any() || a.any()) return true;
    }
    return false;
}

int sim_bind(int fd, const struct sockaddr *sa, socklen_t len)
{
    yield_point();
    SockP s = fd_get(fd);
    if (!s) return -1;
    Addr a;
    if (!from_sa(sa, len, a) || a.fam != s->fam) { errno = EINVAL; return -1; }
    if (!is_prog_ip(a)) { errno = EADDRNOTAVAIL; return -1; }
    if (a.port == 0) a.port = next_eph++;
    if (in_use(s.get(), a)) { errno = EADDRINUSE; return -1; }
    if (sock_fault(3, EADDRINUSE)) return -1;
    s->bound = a;
    s->is_bound = true;
    if (s->kind == Sock::UDP) udp_bound[a] = s.get();
    trace("bind(%d, %s)", fd, a.str().c_str());
    return 0;
}

int sim_listen(int fd, int backlog)
{
    yield_point();
    SockP s = fd_get(fd);
    if (!s) return -1;
    s->listening = true;
    s->backlog = backlog;
    tcp_listen[s->bound] = s.get();
    return 0;
}

static void autobind(Sock *s)
{
    if (s->is_bound) return;
    Addr a;
    a.fam = s->fam;
    do { a.port = next_eph++; if (next_eph < 32768) next_eph = 32768; } while (in_use(s, a));
    s->bound = a;
    s->is_bound = true;
    if (s->kind == Sock::UDP) udp_bound[a] = s;
}
static Addr src_addr(const Sock *s, const Addr &to)
{
    Addr a = s->bound;
    if (a.any()) {
        Addr b = to.loop() ? (to.fam == AF_INET6 ? mkaddr("::1", 0) : mkaddr("127.0.0.1", 0)) : (to.fam == AF_INET6 ? PROG6 : PROG4);
        memcpy(a.ip, b.ip, 16);
    }
    return a;
}

int sim_accept(int fd, struct sockaddr *sa, socklen_t *len)
{
    yield_point();
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (!s->listening) { errno = EINVAL; return -1; }
    if (s->acceptq.empty()) {
        if (s->nonblock) { errno = EAGAIN; return -1; }
        block_until([s] { return !s->acceptq.empty(); }, INF);
    }
    if (sock_fault(4, ch_pick(S_FAULT, 5, 2) ? ECONNABORTED : EMFILE)) {
        // the client has given up; or the connection stays queued, though not for ever
        if (errno == ECONNABORTED || ++s->refusals % 50 == 0) {
            Peer g = s->acceptq.front();
            s->acceptq.pop_front();
            Sock *gs = peer_sock(g);
            if (gs) { SockP k(gs); int e = errno; k->teardown(); errno = e; }
        }
        return -1;
    }
    if (!fd_available()) { errno = EMFILE; return -1; } // the connection stays queued
    Peer p = s->acceptq.front();
    Sock *ns = peer_sock(p);
    SockP n;
    if (ns) n = SockP(ns);
    else { // reset while queued
        n = std::make_shared<Sock>();
        n->kind = Sock::TCP; n->fam = s->fam; n->connected = true; n->rst = true; n->err = ECONNRESET; n->epipe = true;
        n->bound = p->remote; n->remote = p->local;
    }
    int r = fd_alloc(n);
    s->acceptq.pop_front();
    p->fd_hint = r;
    if (sa) to_sa(p->local, sa, len);
    stat(ST_TCPCONN);
    trace("accept(%d) = %d from %s", fd, r, p->local.str().c_str());
    return r;
}
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags)
{
    int r = sim_accept(fd, sa, len);
    if (r >= 0 && (flags & SOCK_NONBLOCK)) fdt[r]->nonblock = true;
    return r;
}

int sim_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    yield_point();
    SockP s = fd_get(fd);
    if (!s) return -1;
    check_buf(sa, len, "connect");
    Addr to;
    if (!from_sa(sa, len, to) || to.fam != s->fam) { errno = EINVAL; return -1; }
    if (s->kind == Sock::UDP) {
        autobind(s.get());
        s->remote = to;
        s->connected = true;
        return 0;
    }
    if (s->connecting) { errno = EALREADY; return -1; }
    if (s->connected) { errno = EISCONN; return -1; }
    if (s->err) { errno = s->err; s->err = 0; return -1; }
    if (sock_fault(6, ENETUNREACH)) return -1;
    std::weak_ptr<Sock> w = s;
    auto it = tcp_actors.find(to);
    usec delay = net.base * 2;
    ConnVerdict v = CV_REFUSE;
    if (it != tcp_actors.end()) v = it->second.decide ? it->second.decide(to, delay) : CV_ACCEPT;
    else if (!is_prog_ip(to)) v = CV_BLACKHOLE;
    if (v == CV_UNREACH) { fault(F_UNREACH); trace("connect(%d, %s): unreachable", fd, to.str().c_str()); errno = ENETUNREACH; return -1; }
    s->remote = to;
    s->bound.fam = s->fam;
    if (!s->bound.port) s->bound.port = next_eph++;
    s->connecting = true;
    s->outgoing = true;
    trace("connect(%d, %s): %s after %lld us", fd, to.str().c_str(), v == CV_ACCEPT ? "accepted" : v == CV_REFUSE ? "refused" : "no answer", (long long)delay);
    if (v == CV_ACCEPT) {
        Addr from = src_addr(s.get(), to);
        from.port = s->bound.port;
        ev_in(delay, [w, to, from] {
            SockP q = w.lock();
            if (!q || !q->connecting) return;
            auto it = tcp_actors.find(to);
            q->connecting = false;
            if (it == tcp_actors.end()) { q->err = ECONNREFUSED; world_ver++; return; }
            q->connected = true;
            Peer p = std::make_shared<TcpPeer>();
            p->id = ++peer_seq;
            p->local = to;
            p->remote = from;
            p->open = true;
            p->sock = q.get();
            q->peer = p;
            world_ver++;
            stat(ST_UPTCPCONN);
            auto f = it->second.on_accept;
            if (f) f(p);
        });
    } else if (v == CV_REFUSE) {
        fault(F_REFUSED);
        ev_in(delay, [w] { SockP q = w.lock(); if (q && q->connecting) { q->connecting = false; q->err = ECONNREFUSED; world_ver++; } });
    } else {
        fault(F_BLACKHOLE);
        ev_in(127 * SEC, [w] { SockP q = w.lock(); if (q && q->connecting) { q->connecting = false; q->err = ETIMEDOUT; world_ver++; } });
    }
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
    block_until([s] { return !s->connecting; }, s->sndtimeo ? now + s->sndtimeo : INF);
    if (s->connecting) { errno = EINPROGRESS; return -1; }
    if (s->err) { errno = s->err; s->err = 0; return -1; }
    return 0;
}

ssize_t sim_sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *sa, socklen_t len)
{
    yield_point();
    check_buf(buf, n, "send");
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (s->kind == Sock::PIPE_R || s->kind == Sock::PIPE_W || s->kind == Sock::VFILE) { errno = ENOTSOCK; return -1; }
    if (s->kind == Sock::UDP) {
        Addr to;
        if (sa) {
            check_buf(sa, len, "sendto address");
            if (!from_sa(sa, len, to)) { errno = EINVAL; return -1; }
            if (to.fam != s->fam) { errno = s->fam == AF_INET6 ? EINVAL : EAFNOSUPPORT; return -1; }
        } else if (s->connected) to = s->remote;
        else { errno = EDESTADDRREQ; return -1; }
        if (n > 65507) { errno = EMSGSIZE; return -1; }
        if (to.port == 0) { errno = EINVAL; return -1; }
        bool internal = is_prog_ip(to) && find_udp(to);
        if (!internal && udp_unreach && udp_unreach(to)) { fault(F_UNREACH); trace("sendto(%d, %s): unreachable", fd, to.str().c_str()); errno = ENETUNREACH; return -1; }
        if (!internal && net.senderr_ppm && ch_chance(S_FAULT, 10, net.senderr_ppm)) {
            static const int es[] = {ENOBUFS, EPERM, ENETUNREACH, EHOSTUNREACH};
            errno = es[ch_pick(S_FAULT, 11, 4)];
            fault(F_SENDERR);
            trace("injected %s in sendto(%d, %s)", strerror(errno), fd, to.str().c_str());
            return -1;
        }
        autobind(s.get());
        prog_udp_out(src_addr(s.get(), to), to, Bytes((const char *)buf, n));
        return (ssize_t)n;
    }
    // TCP
    size_t done = 0;
    while (true) {
        if (s->err && !s->rst) { errno = s->err; s->err = 0; return done ? (ssize_t)done : -1; }
        if (s->epipe || s->shut_wr || s->rst) {
            if (done) return (ssize_t)done;
            if (s->err == ECONNRESET) { s->err = 0; errno = ECONNRESET; return -1; }
            if (!(flags & MSG_NOSIGNAL)) violate("sigpipe", "send() on a broken connection without MSG_NOSIGNAL: the process is killed by SIGPIPE");
            errno = EPIPE;
            return -1;
        }
        if (s->connecting) {
            if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
            block_until([s] { return !s->connecting; }, INF);
            continue;
        }
        if (!s->connected || !s->peer) {
            if (!(flags & MSG_NOSIGNAL)) violate("sigpipe", "send() on an unconnected socket without MSG_NOSIGNAL: the process is killed by SIGPIPE");
            errno = EPIPE;
            return -1;
        }
        size_t room = s->space();
        if (room == 0) {
            if (s->nonblock || (flags & MSG_DONTWAIT)) {
                if (done) return (ssize_t)done;
                errno = EAGAIN;
                return -1;
            }
            bool ok = block_until([s] { return s->space() > 0 || s->rst || s->epipe || s->err; }, s->sndtimeo ? now + s->sndtimeo : INF);
            if (!ok) { if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
            continue;
        }
        size_t k = std::min(room, n - done);
        if (s->outgoing && s->nonblock && k > 1 && net.short_ppm && ch_chance(S_NET, 60, net.short_ppm)) {
            fault(F_SHORTSEND);
            k = (size_t)ch_range(S_NET, 61, 1, (int64_t)k - 1);
            trace("send(%d): %zu of %zu bytes", fd, k, n);
            prog_tcp_out(s.get(), Bytes((const char *)buf + done, k));
            return (ssize_t)(done + k);
        }
        if (k < n - done) fault(F_SHORTSEND);
        if (s->outgoing) trace("send(%d): %zu bytes", fd, n);
        prog_tcp_out(s.get(), Bytes((const char *)buf + done, k));
        done += k;
        if (done == n) return (ssize_t)n;
    }
}
ssize_t sim_send(int fd, const void *buf, size_t n, int flags) { return sim_sendto(fd, buf, n, flags, nullptr, 0); }

ssize_t sim_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *sa, socklen_t *len)
{
    yield_point();
    check_buf(buf, n, "recv");
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (s->kind == Sock::PIPE_R || s->kind == Sock::PIPE_W || s->kind == Sock::VFILE) { errno = ENOTSOCK; return -1; }
    bool nb = s->nonblock || (flags & MSG_DONTWAIT);
    usec dl = s->rcvtimeo ? now + s->rcvtimeo : INF;
    if (s->kind == Sock::UDP) {
        if (s->q.empty()) {
            if (nb) { errno = EAGAIN; return -1; }
            if (!block_until([s] { return !s->q.empty(); }, dl)) { errno = EAGAIN; return -1; }
        }
        if (net.recverr_ppm && ch_chance(S_FAULT, 12, net.recverr_ppm)) {
            errno = ENOMEM;
            fault(F_RECVERR);
            trace("injected %s in recvfrom(%d)", strerror(errno), fd);
            return -1;
        }
        Dgram d = s->q.front();
        if (!(flags & MSG_PEEK)) s->q.pop_front();
        size_t k = std::min(n, d.data.size());
        memcpy(buf, d.data.data(), k);
        if (sa && len) { check_buf(sa, *len, "recvfrom address"); to_sa(d.from, sa, len); }
        return (ssize_t)((flags & MSG_TRUNC) ? d.data.size() : k);
    }
    if (s->listening) { errno = ENOTCONN; return -1; }
    size_t got = 0;
    while (true) {
        if (!s->rx.empty()) {
            size_t k = std::min(n - got, s->rx.size());
            memcpy((char *)buf + got, s->rx.data(), k);
            if (flags & MSG_PEEK) return (ssize_t)k;
            s->rx.erase(0, k);
            got += k;
            if (got == n || !(flags & MSG_WAITALL)) return (ssize_t)got;
        }
        if (n == 0) return 0;
        if (s->err) { if (got) return (ssize_t)got; errno = s->err; s->err = 0; return -1; }
        if (s->eof || s->rst || s->shut_rd) return (ssize_t)got;
        if (!s->connected && !s->connecting) { errno = ENOTCONN; return -1; }
        if (nb) { if (got) return (ssize_t)got; errno = EAGAIN; return -1; }
        if (!block_until([s] { return !s->rx.empty() || s->err || s->eof || s->rst; }, dl)) { if (got) return (ssize_t)got; errno = EAGAIN; return -1; }
    }
}
ssize_t sim_recv(int fd, void *buf, size_t n, int flags) { return sim_recvfrom(fd, buf, n, flags, nullptr, nullptr); }

ssize_t sim_sendmsg(int fd, const struct msghdr *m, int flags)
{
    Bytes b;
    for (size_t i = 0; i < (size_t)m->msg_iovlen; i++) { check_buf(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, "sendmsg"); b.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); }
    return sim_sendto(fd, b.data(), b.size(), flags, (const sockaddr *)m->msg_name, m->msg_namelen);
}
ssize_t sim_recvmsg(int fd, struct msghdr *m, int flags)
{
    size_t tot = 0;
    for (size_t i = 0; i < (size_t)m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
    Bytes b(tot, 0);
    socklen_t l = m->msg_namelen;
    ssize_t r = sim_recvfrom(fd, &b[0], tot, flags, (sockaddr *)m->msg_name, m->msg_name ? &l : nullptr);
    m->msg_namelen = l;
    if (r > 0) {
        size_t off = 0;
        for (size_t i = 0; i < (size_t)m->msg_iovlen && off < (size_t)r; i++) { size_t k = std::min<size_t>(m->msg_iov[i].iov_len, r - off); memcpy(m->msg_iov[i].iov_base, b.data() + off, k); off += k; }
    }
    return r;
}

int sim_close(int fd)
{
    yield_point();
    SockP s = fd_get(fd);
    if (!s) {
        trace("close(%d): EBADF", fd);
        if (fd > 2) violate("bad-close", "descriptor %d is closed although it is not open", fd);
        return -1;
    }
    trace("close(%d)", fd);
    fdt[fd] = nullptr;
    world_ver++;
    return 0;
}
int sim_shutdown(int fd, int how)
{
    yield_point();
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
    if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shut_wr) {
        s->shut_wr = true;
        Peer p = s->peer;
        if (p) ev_in(net.base, [p] { if (!p->closed) { p->closed = true; if (p->on_close) p->on_close(); } });
    }
    world_ver++;
    return 0;
}

int sim_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
int sim_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    int *arg = va_arg(ap, int *);
    va_end(ap);
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (req == FIONBIO) { s->nonblock = *arg != 0; return 0; }
    if (req == FIONREAD) { *arg = s->kind == Sock::UDP ? (s->q.empty() ? 0 : (int)s->q.front().data.size()) : (int)s->rx.size(); return 0; }
    errno = ENOTTY;
    return -1;
}
int sim_setsockopt(int fd, int level, int opt, const void *v, socklen_t len)
{
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && len >= sizeof(struct timeval)) {
        const struct timeval *tv = (const struct timeval *)v;
        usec t = tv->tv_sec * SEC + tv->tv_usec;
        (opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = t;
    }
    return 0;
}
int sim_getsockopt(int fd, int level, int opt, void *v, socklen_t *len)
{
    SockP s = fd_get(fd);
    if (!s) return -1;
    int r = 0;
    if (level == SOL_SOCKET && opt == SO_ERROR) { r = s->err; s->err = 0; }
    else if (level == SOL_SOCKET && opt == SO_TYPE) r = s->kind == Sock::TCP ? SOCK_STREAM : SOCK_DGRAM;
    if (len && *len >= sizeof(int)) { *(int *)v = r; *len = sizeof(int); }
    return 0;
}
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *len)
{
    SockP s = fd_get(fd);
    if (!s) return -1;
    Addr a = s->bound;
    if (!a.fam) a.fam = s->fam;
    to_sa(a, sa, len);
    return 0;
}
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (!s->connected) { errno = ENOTCONN; return -1; }
    to_sa(s->remote, sa, len);
    return 0;
}

int sim_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    yield_point();
    if (nfds > FD_SETSIZE) violate("fd-set-overflow", "select() called for descriptor %d, beyond what an fd_set can hold", nfds - 1);
    if (nfds < 0) { errno = EINVAL; return -1; }
    std::vector<std::pair<int, SockP>> rs, ws;
    for (int i = 0; i < nfds; i++) {
        bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w), c = e && FD_ISSET(i, e);
        if (!a && !b && !c) continue;
        SockP s = fd_get(i);
        if (!s) { trace("select: EBADF for fd %d", i); return -1; }
        if (a) rs.push_back({i, s});
        if (b) ws.push_back({i, s});
    }
    usec dl = INF, t0 = now;
    if (tv) {
        if (tv->tv_sec < 0 || tv->tv_usec < 0 ) { errno = EINVAL; return -1; }
        usec d = tv->tv_sec * SEC + tv->tv_usec;
        dl = now + d;
    }
    auto ready = [&rs, &ws] {
        for (auto &p : rs) if (p.second->readable()) return true;
        for (auto &p : ws) if (p.second->writable()) return true;
        return false;
    };
    if (!ready()) {
        if (dl > now) block_until(ready, dl);
    }
    int n = 0;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    for (auto &p : rs) if (p.second->readable()) { FD_SET(p.first, r); n++; }
    for (auto &p : ws) if (p.second->writable()) { FD_SET(p.first, w); n++; }
    if (tv) {
        usec left = dl - now;
        if (left < 0 || n == 0) left = 0;
        tv->tv_sec = left / SEC;
        tv->tv_usec = left % SEC;
    }
    (void)t0;
    return n;
}
int sim_pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *)
{
    struct timeval tv;
    if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; }
    return sim_select(nfds, r, w, e, ts ? &tv : nullptr);
}
int sim_poll(struct pollfd *p, nfds_t n, int timeout)
{
    yield_point();
    std::vector<SockP> ss(n);
    auto eval = [&]() {
        int c = 0;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            if (!ss[i]) { p[i].revents = POLLNVAL; c++; continue; }
            if ((p[i].events & POLLIN) && ss[i]->readable()) p[i].revents |= POLLIN;
            if ((p[i].events & POLLOUT) && ss[i]->writable()) p[i].revents |= POLLOUT;
            if (ss[i]->err || ss[i]->rst) p[i].revents |= POLLERR;
            if (p[i].revents) c++;
        }
        return c;
    };
    for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && (size_t)p[i].fd < fdt.size()) ss[i] = fdt[p[i].fd];
    int c = eval();
    if (c || timeout == 0) return c;
    block_until([&] { return eval() > 0; }, timeout < 0 ? INF : now + timeout * MS);
    return eval();
}

int sim_pipe(int fds[2])
{
    yield_point();
    SockP a = std::make_shared<Sock>(), b = std::make_shared<Sock>();
    a->kind = Sock::PIPE_R;
    b->kind = Sock::PIPE_W;
    a->pipe = b->pipe = std::make_shared<PipeBuf>();
    a->pipe->readers = a->pipe->writers = 1;
    int x = fd_alloc(a), y = fd_alloc(b);
    if (x < 0 || y < 0) { errno = EMFILE; return -1; }
    fds[0] = x;
    fds[1] = y;
    return 0;
}
int sim_pipe2(int fds[2], int) { return sim_pipe(fds); }

ssize_t sim_read(int fd, void *buf, size_t n)
{
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (s->kind == Sock::UDP || s->kind == Sock::TCP) return sim_recvfrom(fd, buf, n, 0, nullptr, nullptr);
    yield_point();
    check_buf(buf, n, "read");
    if (s->kind == Sock::VFILE) return vf_read(s->vf, buf, n);
    if (s->pipe->data.empty()) {
        if (s->pipe->writers == 0) return 0;
        if (s->nonblock) { errno = EAGAIN; return -1; }
        block_until([s] { return !s->pipe->data.empty() || s->pipe->writers == 0; }, INF);
    }
    size_t k = std::min(n, s->pipe->data.size());
    memcpy(buf, s->pipe->data.data(), k);
    s->pipe->data.erase(0, k);
    world_ver++;
    return (ssize_t)k;
}
ssize_t sim_write(int fd, const void *buf, size_t n)
{
    if (fd == 1 || fd == 2) return (ssize_t)n;
    SockP s = fd_get(fd);
    if (!s) return -1;
    if (s->kind == Sock::UDP || s->kind == Sock::TCP) return sim_sendto(fd, buf, n, 0, nullptr, 0);
    yield_point();
    check_buf(buf, n, "write");
    if (s->kind == Sock::VFILE) return vf_write(s->vf, buf, n);
    if (s->pipe->data.size() + n > 65536) block_until([s, n] { return s->pipe->data.size() + n <= 65536; }, INF);
    s->pipe->data.append((const char *)buf, n);
    world_ver++;
    return (ssize_t)n;
}
} // extern C
