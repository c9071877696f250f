#include "dns.h"
#include <algorithm>
#include <arpa/inet.h>

void put16(Bytes &b, uint16_t v) { b += (char)(v >> 8); b += (char)v; }
void put32(Bytes &b, uint32_t v) { put16(b, v >> 16); put16(b, (uint16_t)v); }
std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
Bytes wire_name(const std::string &n)
{
    Bytes b;
    size_t i = 0;
    while (i < n.size()) {
        size_t j = n.find('.', i);
        if (j == std::string::npos) j = n.size();
        b += (char)(j - i);
        b.append(n, i, j - i);
        i = j + 1;
    }
    b += '\0';
    return b;
}
std::string name_from_wire(const Bytes &w)
{
    std::string r;
    size_t i = 0;
    while (i < w.size() && w[i]) {
        if (!r.empty()) r += '.';
        r.append(w, i + 1, (uint8_t)w[i]);
        i += 1 + (uint8_t)w[i];
    }
    return r;
}
Bytes rd_a(uint32_t ip) { Bytes b; put32(b, ip); return b; }
Bytes rd_aaaa(uint64_t hi, uint64_t lo) { Bytes b; put32(b, hi >> 32); put32(b, (uint32_t)hi); put32(b, lo >> 32); put32(b, (uint32_t)lo); return b; }

static bool rd_name(const Bytes &b, size_t &o, std::string &out)
{
    size_t p = o;
    bool jumped = false;
    int hops = 0;
    out.clear();
    while (true) {
        if (p >= b.size()) return false;
        uint8_t l = (uint8_t)b[p];
        if (l == 0) { if (!jumped) o = p + 1; return true; }
        if ((l & 0xc0) == 0xc0) {
            if (p + 1 >= b.size() || ++hops > 64) return false;
            if (!jumped) o = p + 2;
            jumped = true;
            p = ((l & 0x3f) << 8) | (uint8_t)b[p + 1];
            continue;
        }
        if (l & 0xc0) return false;
        if (p + 1 + l > b.size()) return false;
        if (!out.empty()) out += '.';
        out.append(b, p + 1, l);
        if (out.size() > 255) return false;
        p += 1 + l;
    }
}

Msg parse(const Bytes &b)
{
    Msg m;
    if (b.size() < 12) { m.why = "shorter than a header"; return m; }
    m.id = get16(b, 0);
    m.flags = get16(b, 2);
    m.qd = get16(b, 4);
    m.an = get16(b, 6);
    m.ns = get16(b, 8);
    m.ar = get16(b, 10);
    size_t o = 12;
    for (int i = 0; i < m.qd; i++) {
        std::string n;
        if (!rd_name(b, o, n) || o + 4 > b.size()) { m.why = "bad question"; return m; }
        if (i == 0) { m.qname_raw = n; m.qname = lower(n); m.qtype = get16(b, o); m.qclass = get16(b, o + 2); }
        o += 4;
        if (i == 0) m.qend = o;
    }
    int cnt[3] = {m.an, m.ns, m.ar};
    for (int s = 0; s < 3; s++)
        for (int i = 0; i < cnt[s]; i++) {
            RR r;
            r.section = s + 1;
            r.off = o;
            std::string n;
            if (!rd_name(b, o, n) || o + 10 > b.size()) { m.why = "bad record owner"; return m; }
            r.name = lower(n);
            r.type = get16(b, o);
            r.cls = get16(b, o + 2);
            r.ttl = get32(b, o + 4);
            size_t len = get16(b, o + 8);
            o += 10;
            if (o + len > b.size()) { m.why = "record data past the end"; return m; }
            r.rdoff = o;
            r.rdlen = len;
            size_t p = o;
            Bytes raw = b.substr(o, len);
            auto nm = [&](Bytes &out) { std::string t; if (!rd_name(b, p, t) || p > o + len) return false; out += wire_name(lower(t)); return true; };
            bool good = true;
            switch (r.type) {
            case T_CNAME: case T_NS: case T_PTR: good = nm(r.rdata) && p == o + len; break;
            case T_MX: if (len < 3) { good = false; break; } r.rdata = raw.substr(0, 2); p += 2; good = nm(r.rdata) && p == o + len; break;
            case T_SOA: good = nm(r.rdata) && nm(r.rdata) && p + 20 == o + len; if (good) r.rdata += b.substr(p, 20); break;
            case T_A: good = len == 4; r.rdata = raw; break;
            case T_AAAA: good = len == 16; r.rdata = raw; break;
            default: r.rdata = raw;
            }
            if (!good) { m.why = "bad record data of type " + std::to_string(r.type); return m; }
            o += len;
            m.rrs.push_back(r);
        }
    m.end = o;
    m.ok = true;
    return m;
}

void Builder::name(const std::string &n)
{
    size_t i = 0;
    while (i < n.size()) {
        std::string rest = lower(n.substr(i));
        auto it = names.find(rest);
        if (compress && it != names.end()) { put16(b, 0xc000 | (uint16_t)it->second); return; }
        if (b.size() < 0x3fff && it == names.end()) names[rest] = b.size();
        size_t j = n.find('.', i);
        if (j == std::string::npos) j = n.size();
        b += (char)(j - i);
        b.append(n, i, j - i);
        i = j + 1;
    }
    b += '\0';
}
void Builder::question(const std::string &n, uint16_t t, uint16_t c)
{
    name(n);
    put16(b, t);
    put16(b, c);
    bump(0);
}
void Builder::rr(int section, const std::string &n, uint16_t t, uint32_t ttl, const Bytes &rdata, uint16_t cls)
{
    name(n);
    put16(b, t);
    put16(b, cls);
    put32(b, ttl);
    put16(b, (uint16_t)rdata.size());
    b += rdata;
    bump(section);
}
void Builder::rr_name(int section, const std::string &n, uint16_t t, uint32_t ttl, const Bytes &prefix, const std::string &target, bool comp)
{
    name(n);
    put16(b, t);
    put16(b, 1);
    put32(b, ttl);
    size_t lo = b.size();
    put16(b, 0);
    b += prefix;
    bool c = compress;
    compress = comp && c;
    name(target);
    compress = c;
    size_t len = b.size() - lo - 2;
    b[lo] = (char)(len >> 8);
    b[lo + 1] = (char)len;
    bump(section);
}
void Builder::opt(uint16_t size)
{
    b += '\0';
    put16(b, T_OPT);
    put16(b, size);
    put32(b, 0);
    put16(b, 0);
    bump(3);
}
Bytes make_query(uint16_t id, const std::string &name, uint16_t type, bool edns, bool rd)
{
    Builder q(id, rd ? 0x0100 : 0);
    q.question(name, type);
    if (edns) q.opt(4096);
    return q.b;
}
std::string type_name(int t)
{
    switch (t) {
    case T_A: return "A"; case T_NS: return "NS"; case T_CNAME: return "CNAME"; case T_SOA: return "SOA"; case T_PTR: return "PTR";
    case T_MX: return "MX"; case T_TXT: return "TXT"; case T_AAAA: return "AAAA"; case T_SRV: return "SRV"; case T_OPT: return "OPT";
    case T_HTTPS: return "HTTPS"; case T_ANY: return "ANY"; case T_CAA: return "CAA";
    }
    return "TYPE" + std::to_string(t);
}
std::string hex(const Bytes &b, size_t max)
{
    std::string r;
    char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%02x", (uint8_t)b[i]); r += t; }
    if (b.size() > max) r += "..";
    return r;
}
std::string show(const Msg &m)
{
    char t[128];
    snprintf(t, sizeof t, "id=%04x flags=%04x %s/%s", m.id, m.flags, m.qname.c_str(), type_name(m.qtype).c_str());
    std::string s = t;
    for (auto &r : m.rrs) {
        s += " {" + std::to_string(r.section) + " " + r.name + " " + type_name(r.type) + " ttl=" + std::to_string(r.ttl) + " ";
        if (r.type == T_A && r.rdata.size() == 4) { char ip[32]; inet_ntop(AF_INET, r.rdata.data(), ip, sizeof ip); s += ip; }
        else if (r.type == T_AAAA && r.rdata.size() == 16) { char ip[64]; inet_ntop(AF_INET6, r.rdata.data(), ip, sizeof ip); s += ip; }
        else if (r.type == T_CNAME || r.type == T_NS || r.type == T_PTR) s += name_from_wire(r.rdata);
        else s += hex(r.rdata, 16);
        s += "}";
    }
    if (!m.ok) s += " (malformed: " + m.why + ")";
    return s;
}
