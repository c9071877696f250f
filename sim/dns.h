// Independent DNS message encoder / decoder used by actors and oracles.
#pragma once
#include "net.h"

enum { T_A = 1, T_NS = 2, T_CNAME = 5, T_SOA = 6, T_PTR = 12, T_MX = 15, T_TXT = 16, T_AAAA = 28, T_SRV = 33, T_OPT = 41, T_HTTPS = 65, T_ANY = 255, T_CAA = 257 };
struct RR {
    std::string name;    // lower case, no trailing dot
    uint16_t type = 0, cls = 1;
    uint32_t ttl = 0;
    Bytes rdata;         // canonical: names expanded to lower-case uncompressed wire form
    int section = 1;     // 1 answer, 2 authority, 3 additional
    size_t off = 0;      // offset of the record in the message
    size_t rdoff = 0, rdlen = 0;
};
struct Msg {
    bool ok = false;
    std::string why;
    uint16_t id = 0, flags = 0;
    int qd = 0, an = 0, ns = 0, ar = 0;
    std::string qname, qname_raw;
    uint16_t qtype = 0, qclass = 0;
    size_t qend = 0, end = 0;
    bool qr() const { return flags & 0x8000; }
    bool tc() const { return flags & 0x0200; }
    int rcode() const { return flags & 15; }
    std::vector<RR> rrs;
    bool edns() const { for (auto &r : rrs) if (r.type == T_OPT && r.section == 3) return true; return false; }
};
Msg parse(const Bytes &b);
std::string lower(std::string s);
Bytes wire_name(const std::string &n);
std::string name_from_wire(const Bytes &w); // canonical uncompressed
void put16(Bytes &b, uint16_t v);
void put32(Bytes &b, uint32_t v);
inline uint16_t get16(const Bytes &b, size_t o) { return ((uint8_t)b[o] << 8) | (uint8_t)b[o + 1]; }
inline uint32_t get32(const Bytes &b, size_t o) { return ((uint32_t)get16(b, o) << 16) | get16(b, o + 2); }
Bytes rd_a(uint32_t ip);                 // host order
Bytes rd_aaaa(uint64_t hi, uint64_t lo);

struct Builder {
    Bytes b;
    bool compress = true;
    std::map<std::string, size_t> names;
    Builder(uint16_t id, uint16_t flags) { put16(b, id); put16(b, flags); b.append(8, 0); }
    void name(const std::string &n);
    void question(const std::string &n, uint16_t t, uint16_t c = 1);
    // rdata_name: >=0 means rdata is prefix + a (compressible) name
    void rr(int section, const std::string &n, uint16_t t, uint32_t ttl, const Bytes &rdata, uint16_t cls = 1);
    void rr_name(int section, const std::string &n, uint16_t t, uint32_t ttl, const Bytes &prefix, const std::string &target, bool comp = true);
    void opt(uint16_t size = 1232);
    void bump(int idx) { uint16_t v = get16(b, 4 + 2 * idx) + 1; b[4 + 2 * idx] = (char)(v >> 8); b[5 + 2 * idx] = (char)v; }
};
Bytes make_query(uint16_t id, const std::string &name, uint16_t type, bool edns = false, bool rd = true);
std::string type_name(int t);
std::string hex(const Bytes &b, size_t max = 80);
std::string show(const Msg &m);
