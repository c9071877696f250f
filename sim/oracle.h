// Oracles: judge everything the program does on the wire.
#pragma once
#include "world.h"

void oracle_client_response(Client *c, const Bytes &d, const Addr &src);
void oracle_tcp_client_closed(Client *c, bool failed_connect);
void oracle_query_arrival(Query *q, usec t);
void oracle_new_upstream_response(UpResp *r);
void oracle_upstream_delivered(UpResp *r);
void oracle_upstream_query(Server *s, const Bytes &d, uint64_t connid);
[[noreturn]] void oracle_violation(const char *kind, const std::string &msg);
void oracle_socks_target(const Addr &proxy, Server *s);
void oracle_direct_tcp(Server *s);
bool oracle_circular(const std::string &name); // redirected for ever, not answered
void oracle_new_life();
extern bool after_calm;
extern usec life_start;
extern std::vector<usec> reload_times; // new hosts files put in place
extern usec ready_at;            // queries that arrive earlier find a program that is still starting
extern uint64_t relayed_total, cache_total, hosts_total, refused_total;
