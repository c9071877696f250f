// Simulated network stack: UDP, TCP, pipes, select, with Linux semantics.
#pragma once
#include "core.h"
#include <netinet/in.h>
#include <sys/socket.h>

typedef std::string Bytes;

struct Addr {
    int fam = 0; // AF_INET / AF_INET6 / 0
    unsigned char ip[16] = {0};
    uint16_t port = 0;
    bool operator==(const Addr &o) const { return fam == o.fam && port == o.port && !memcmp(ip, o.ip, 16); }
    bool operator!=(const Addr &o) const { return !(*this == o); }
    bool operator<(const Addr &o) const
    {
        if (fam != o.fam) return fam < o.fam;
        int c = memcmp(ip, o.ip, 16);
        return c ? c < 0 : port < o.port;
    }
    bool any() const { static const unsigned char z[16] = {0}; return !memcmp(ip, z, 16); }
    bool loop() const { return fam == AF_INET ? ip[0] == 127 : (ip[15] == 1 && !memcmp(ip, "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 15)); }
    std::string ipstr() const;
    std::string str() const;
};
Addr mkaddr(const char *ip, int port);
bool from_sa(const struct sockaddr *sa, socklen_t len, Addr &a);
void to_sa(const Addr &a, struct sockaddr *sa, socklen_t *len);

// ---- network knobs: all zero = perfect network
struct NetKnobs {
    int loss_ppm = 0, dup_ppm = 0, delay_ppm = 0;
    usec base = 200, jitter = 0, big_delay = 0;
    int seg_ppm = 0;        // probability that a TCP write is split into segments
    usec seg_gap = 0;       // largest gap between segments
    int recverr_ppm = 0;    // UDP recvfrom() errors
    int senderr_ppm = 0;    // UDP sendto() errors towards the network
    int sockerr_ppm = 0;    // socket()/bind/accept errors
    int queue_cap = 256;    // datagrams in a UDP receive queue
    int sndbuf = 65536;     // TCP send buffer
    int short_ppm = 0;      // writes to upstream TCP connections that take only a part
};
extern NetKnobs net;
void net_calm();

// ---- actors (outside the program)
typedef std::function<void(const Addr &from, const Addr &to, const Bytes &data)> UdpFn;
void actor_udp_bind(const Addr &a, UdpFn fn);
void actor_udp_unbind(const Addr &a);
// sends from an actor towards the program; loss/dup/delay applied unless raw
void actor_udp_send(const Addr &from, const Addr &to, const Bytes &data, bool faults = true, usec extra = 0);

struct TcpPeer {
    uint64_t id = 0;
    Addr local, remote;
    bool open = false, closed = false;   // closed: peer (program) closed or reset
    bool by_rst = false;
    bool we_closed = false;
    bool half = false;                  // we sent FIN but go on reading
    bool reading = true;
    std::function<void()> on_open;
    std::function<void(const Bytes &)> on_data;
    std::function<void()> on_close;
    std::function<void()> on_fail;      // connect refused
    void *sock = nullptr;               // program's socket (Sock*), when alive
    usec last_arrival = 0;              // ordering towards the program
    usec last_rx = 0;
    size_t unread = 0;                  // bytes sent by the program, not consumed by us
    Bytes held;                         // data held back while !reading
    int fd_hint = -1;
};
typedef std::shared_ptr<TcpPeer> Peer;
void peer_send(Peer p, const Bytes &data, usec delay = 0, bool segment = true); // respects ordering
void peer_close(Peer p, usec delay = 0);
void peer_shutdown(Peer p, usec delay = 0); // FIN, keeps reading
void peer_rst(Peer p, usec delay = 0);
void peer_read(Peer p, bool on);

enum ConnVerdict { CV_ACCEPT, CV_REFUSE, CV_BLACKHOLE, CV_UNREACH };
extern std::function<bool(const Addr &to)> udp_unreach; // there is no route to this address
struct ListenActor {
    std::function<ConnVerdict(const Addr &to, usec &delay)> decide;
    std::function<void(Peer)> on_accept; // called when established
};
void actor_tcp_listen(const Addr &a, ListenActor l);
void actor_tcp_unlisten(const Addr &a);
Peer actor_tcp_connect(const Addr &from, const Addr &to, usec delay = 0); // to the program

// ---- introspection
int net_open_fds();
void leak_report();
int net_open_socks(int type);
bool net_prog_listening(const Addr &to);
bool net_prog_udp_bound(const Addr &to);
size_t net_pending_loopback();
size_t net_pending_rx(const Addr &to);     // datagrams waiting for the program at that address
extern uint64_t net_peak_fds;
void net_process_died();
extern const Addr PROG4, PROG6;
// hooks for the oracle
const std::vector<usec> &net_udp_closed(); // when the program closed a UDP socket
extern std::function<void(const Addr &from, const Addr &to, const Bytes &d)> tap_prog_send;   // program -> network (UDP), before loss
extern std::function<void(const Addr &from, const Addr &to, const Bytes &d)> tap_prog_recv;   // delivered into the program's queue
