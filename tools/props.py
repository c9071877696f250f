#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])], observe_at=observe, hook_needed=None), note=note))
UNIT = "The repository's tests cover only containers and helpers in isolation; none starts a front end, a server group or a second thread. "
SC = ["schedules", "inputs", "histories", "configurations", "fault_sequences"]

prop("P01", "Answers reach only the client that asked, with its identifier and question",
     "Every message a client receives carries the identifier and the question (name, type) of a query which that very client, from that address and port or over that connection, sent to that listening address and which was not answered yet. No answer, or part of one, ever goes to another client, however many queries with equal identifiers, names or types are pending at once and whatever the servers send.",
     SC, "all interleavings of the program's threads, all client mixes with colliding identifiers and names, all delays, losses, duplicates, late, swapped and forged upstream answers",
     UNIT + "Misdelivery needs several pending queries, colliding keys and particular arrival orders.",
     ["mcontext.c", "udpm.c", "tcpm.c", "iheader.c", "udpfrontend.c", "tcpfrontend.c", "dnscache.c"],
     [("pending-query table and its look-up by identifier, question", "mcontext.c ModuleContext_Add/ModuleContext_GenAnswerHeaderAndRemove"), ("per-message back address", "iheader.c IHeader_Fill, MsgContext_SendBack")],
     ["datagrams and TCP byte streams arriving at every simulated client"],
     "Client and server mixes are drawn per seed; identifiers and names collide with probability 0.3-1. UDP answers of servers are accepted by the program from any source address, which is not claimed here.")
prop("P02", "Queries and upstream answers are relayed byte for byte",
     "A query that is not answered locally reaches the selected servers with exactly the bytes the client sent, and the answer a client gets for it is exactly the bytes a selected server sent for it, whatever the size, record types, letter case of names, EDNS data or transports on either side; only configured address substitution changes it.",
     SC, "all valid queries and answers up to the message size limit, over UDP and TCP on both sides, any segmentation of the TCP streams, any thread schedule and network faults",
     UNIT + "Relay fidelity depends on stream segmentation, buffer reuse between messages and concurrency.",
     ["udpm.c", "tcpm.c", "iheader.c", "mmgr.c", "udpfrontend.c", "tcpfrontend.c", "mcontext.c"],
     [("TCP length framing", "tcpm.c TcpM_RecvWrapper, tcpfrontend.c TcpFrontend_Recv"), ("send back", "iheader.c MsgContext_SendBack")],
     ["bytes received by the simulated servers and clients"],
     "With the cache off and without block rules; answers of up to several kilobytes.")
prop("P03", "At most one answer per query, and no unsolicited message",
     "For each query a client sends it receives at most one answer, even when the network duplicates packets, a server answers several times, several servers of a parallel group answer, or the answer also becomes available from the cache. A client that asked nothing receives nothing, and a query is sent upstream at most once per selected server for each time it arrived.",
     SC, "all duplications on either side, all numbers and orders of repeated server answers, retransmissions by clients, parallel groups, all thread schedules",
     UNIT + "Duplicates appear only with repeated or racing upstream answers.",
     ["mcontext.c", "udpm.c", "tcpm.c", "mmgr.c", "dnscache.c"],
     [("an answered query is removed from the pending table", "mcontext.c ModuleContext_GenAnswerHeaderAndRemove")],
     ["messages at every client, counted against the arrivals of its queries", "queries at every server"],
     "Retransmission over TCP upstream (reconnects) is allowed up to a documented bound.")
prop("P04", "UDP service survives outages: queries are answered again once faults stop",
     "As long as a selected server answers and nothing is lost, every UDP query gets its answer. After any history of lost, delayed, duplicated or reordered packets, dead or flapping servers, send errors and stalls, new queries on every listening address for every zone are answered within a bounded time once the faults stop, without restarting the program.",
     SC, "all fault histories of the listed kinds and all thread schedules; bounded liveness after the last fault",
     UNIT + "Recovery after long outages involves timers, socket re-creation and server fail-over which no test runs.",
     ["udpm.c", "udpfrontend.c", "mcontext.c", "addresslist.c", "mmgr.c"],
     [("fail-over on time-out", "udpm.c SweepWorks, addresslist.c AddressList_Advance"), ("socket re-creation", "udpm.c UdpM_Works")],
     ["answers to every query in fault-free runs", "answers to probes after the faults have stopped"],
     "A crash, a hang, a deadlock or an exit of the program is a violation in every run of every property.")
prop("P05", "TCP clients: any segmentation, pipelining and slow or vanishing peers are served",
     "Every complete length-prefixed query on a client's TCP connection is answered on that connection with one correctly framed answer, however the bytes are split over segments, however many queries are pipelined, and whatever other clients do: stay silent, send incomplete messages, stop reading, half-close, reset, or vanish and have their connection slot reused.",
     SC, "all segmentations and pauses, all pipeline depths, all client misbehaviours of the listed kinds, all thread schedules",
     UNIT + "No test opens a TCP connection to the program.",
     ["tcpfrontend.c", "iheader.c", "mmgr.c", "udpm.c", "tcpm.c", "mcontext.c"],
     [("stream reassembly", "tcpfrontend.c TcpFrontend_Recv"), ("answering on the asker's connection", "iheader.c MsgContext_SendBack, IsSamePeer")],
     ["byte streams at every simulated TCP client"],
     "A client that stops reading may lose its connection; its queries are then not required to be answered.")
prop("P06", "TCP upstream: segments, idle closes and resets lose no query",
     "With TCP server groups, a query is answered whenever one of its servers accepts connections and answers: however the server's stream is segmented, however many answers share a segment, and although the server closes kept-alive connections when idle or after an answer. After refused, reset, black-holed or abruptly closed connections stop, service resumes within a bounded time, and bytes of one connection never complete a message of another.",
     SC, "all segmentations, all points at which a server closes, resets or ignores a connection, all thread schedules, keep-alive settings",
     UNIT + "Connection reuse and partial I/O never happen in a test.",
     ["tcpm.c", "socketpool.c", "mcontext.c", "addresslist.c"],
     [("connection pool and reuse", "tcpm.c TcpM_Connect_GetAvailable, TcpM_Connect_Recycle"), ("framing", "tcpm.c TcpM_RecvWrapper"), ("query sent again on a stale connection", "tcpm.c TcpM_Send_Actual")],
     ["streams at the simulated TCP servers", "answers at the clients"],
     "The program serves a TCP group serially; the load is paced to what it can serve in time.")
prop("P07", "A query goes to the server group its domain selects, and to no other",
     "A query is sent only to servers of the group with the longest configured domain suffix of its name, at label boundaries; failing that, to a group with a matching wildcard pattern, and failing that, to a catch-all group. This holds for groups from the configuration and from group files, while many queries of different groups are in flight and servers of any group fail.",
     SC, "all names against generated sets of suffix, wildcard and catch-all domains; thread schedules, bursts and server failures",
     UNIT + "The container tests sample a few patterns; routing through the running program, under load and failures, is never tested.",
     ["mmgr.c", "stringchunk.c", "stringlist.c"],
     [("selection of the group", "mmgr.c MMgr_Send, MappingAModule; stringchunk.c StringChunk_Domain_Match")],
     ["which simulated server receives each query"],
     "When no group fits, the program uses any group; nothing is claimed for that case.")
prop("P08", "UDP and TCP queries stay on their transport unless crossing is configured",
     "A query received over UDP is forwarded only to UDP groups unless UDP-to-TCP forwarding is enabled, and a query received over TCP only to TCP groups unless TCP-to-UDP forwarding is enabled, even when a group of the other kind matches the name better; the answer returns over the transport the query came by.",
     SC, "all mixes of UDP and TCP groups with overlapping domains, both crossing options, thread schedules and server failures",
     UNIT + "Transport selection needs the whole program.",
     ["mmgr.c", "iheader.c", "tcpfrontend.c", "udpfrontend.c"],
     [("fitting module", "mmgr.c ModuleFitRequest, MMgr_Send")],
     ["which simulated server, by transport, receives each query", "transport of each answer"],
     "Names for which a fitting group exists; the fallback for others is existing behaviour and not claimed.")
prop("P09", "Disabled domains and types are refused and never forwarded",
     "A query whose type is disabled, or whose name equals, lies under, or matches a wildcard of a disabled domain from the configuration or a list file, is answered at once with an empty refusal that repeats its identifier and question, and never reaches a server, the cache or the hosts rules; any other query is never refused.",
     SC, "all names and types against generated disabled domains, lists and types; UDP and TCP clients; thread schedules, faults and caches that already hold the name",
     UNIT + "Filtering is untested, and its interplay with cache, hosts and both transports needs the running program.",
     ["filter.c", "mmgr.c", "iheader.c", "stringchunk.c"],
     [("filter before everything else", "mmgr.c MMgr_Send, filter.c Filter_Out"), ("refusal", "iheader.c MsgContext_SendBackRefusedMessage")],
     ["answers at the clients, queries at the servers"],
     "Domain lists are compared case-insensitively on the query's side.")
prop("P10", "Blocked answers never reach clients; substituted addresses always do",
     "An upstream answer that contains a blocked address, or a negative response code when negative answers are blocked, is never passed on or cached; another server's acceptable answer to the same query still is. In every answer passed on or cached, each address with a configured substitute is replaced by it and nothing else is changed.",
     SC, "all sets of blocked and substituted IPv4 and IPv6 addresses, answers with several records, parallel groups where only some servers give blocked answers, schedules and faults",
     UNIT + "Needs several servers racing with different answers.",
     ["ipmisc.c", "ipchunk.c", "iheader.c", "udpm.c", "tcpm.c", "mcontext.c"],
     [("inspection of an answer", "ipmisc.c IPMisc_Process, MsgContext_IsBlocked")],
     ["answers at the clients against the servers' answers"],
     "Exact addresses; address patterns are configuration parsing.")
prop("P11", "Cached answers are correct and never older than their time to live",
     "Every answer that does not come from a server is made of records that a server sent for exactly that name and type (following CNAMEs), received earlier in answer to a pending query, with a remaining time to live not above what is left of the original one, and at least 1. An expired, blocked, disabled or never received record is never served.",
     SC, "all histories of queries, answers, pauses (seconds to minutes), late and forged answers, thread schedules (including the expiry task and concurrent stores)",
     UNIT + "Freshness depends on the passage of time and on concurrent expiry, storing and look-up.",
     ["dnscache.c", "cacheht.c", "cachettlcrtl.c", "dnsgenerator.c", "mmgr.c"],
     [("storing", "dnscache.c DNSCache_AddItemsToCache"), ("look-up", "dnscache.c DNSCache_GetByQuestion"), ("expiry", "dnscache.c DNSCacheTTLCountdown_Task")],
     ["cached answers at the clients against a reference cache holding every answer delivered"],
     "Clock runs forward. With IgnoreTTL the record's full TTL is expected.")
prop("P12", "A fresh record is answered from the cache, under the configured TTL policy",
     "Once an answer has been passed on, a query for a record in it is answered from the cache and not forwarded, with all the fresh records received for that name and type, until their time to live ends. Override, multiply, ignore and per-domain cache rules (including their inheritance through CNAMEs) determine that time to live exactly.",
     SC, "all generated rule sets and record types (A, AAAA, CNAME, PTR, NS, MX, TXT, HTTPS), histories of queries and pauses, thread schedules",
     UNIT + "Completeness must hold across time and concurrent expiry.",
     ["dnscache.c", "cachettlcrtl.c", "cacheht.c", "mmgr.c"],
     [("effective time to live", "cachettlcrtl.c CacheTtlCrtl_Get, dnscache.c DNSCache_AddItemsToCache"), ("look-up", "dnscache.c DNSCache_GetByQuestion")],
     ["queries at the servers while the reference cache certainly holds a fresh answer", "record sets and TTLs of cached answers"],
     "While the cache is far from full; records below 300 bytes.")
prop("P13", "A full cache stays correct and keeps serving",
     "When more records arrive than the cache can hold, every cached answer is still correct and fresh, every query is still answered, and nothing is corrupted, however many records are stored, expired and reused and whatever their sizes.",
     SC, "all sequences of stores, expiries and reuses far beyond the capacity; thread schedules; memory and file caches",
     UNIT + "Capacity pressure with concurrent expiry is never produced.",
     ["dnscache.c", "cacheht.c"],
     [("allocation and reuse of chunks", "dnscache.c DNSCache_GetAvailableChunk, cacheht.c")],
     ["cached answers at the clients against the reference cache", "address sanitizer on the program's code"],
     "Smallest permitted cache (102400 bytes).")
prop("P14", "A killed program restarts and its cache file yields only correct, fresh answers",
     "With a file cache that is reloaded, whatever the instant at which the program is killed, the next start succeeds, answers queries, and serves from the old file only records received before with their remaining time to live; time that passed while it was down counts.",
     ["crash_points", "schedules", "histories", "inputs", "configurations"], "all kill points in the middle of any memory access of the program, several lives, pauses between them",
     UNIT + "No test kills the program, and the cache file is written through a memory mapping.",
     ["dnscache.c", "cacheht.c"],
     [("recognition of a broken file", "dnscache.c IsBroken, IsReloadable, DNSCache_SetIntact")],
     ["answers of later lives against the reference cache of all lives"],
     "Process crash: the page cache, and with it the mapping's content, survives; power loss is not modelled (the program never syncs).")
prop("P15", "Static hosts rules decide exactly the names and types they cover",
     "A name covered by a static hosts rule for the asked type is answered from one of the matching rules with a time to live of 60 and never forwarded; exact names win over wildcards, excluded names are forwarded, an IPv4 rule also answers AAAA as a mapped address unless AAAA is blocked for it, and names or types without a rule are resolved normally.",
     SC, "all generated rule sets (IPv4, IPv6, wildcard, excluded), names, types and letter cases, with cache on and off, UDP and TCP, thread schedules and faults",
     UNIT + "Hosts rules are untested, and they are consulted by several threads.",
     ["hosts.c", "statichosts.c", "hostscontainer.c", "hostsutils.c", "mmgr.c"],
     [("look-up", "hosts.c Hosts_Try, hostscontainer.c HostsContainer_Find")],
     ["answers at the clients, queries at the servers"],
     "Any of several equal rules for a name is accepted.")
prop("P16", "Downloaded hosts lists are installed whole, kept on failure, picked up in time",
     "At every moment names are decided by exactly one complete downloaded version per source: a failed, truncated or slow download leaves the previous rules in force, a successful one replaces them, and queries during the switch see the old or the new rules but never neither, a mixture or garbage. A new version is in force one update interval (plus retries) after it becomes available, and the saved file is used at the next start.",
     SC, "all sequences of versions, download failures at any byte, slow downloads, one or two sources over HTTP or local files, queries and thread schedules around every switch",
     UNIT + "Needs a server for the lists, timers and concurrent queries.",
     ["dynamichosts.c", "downloader.c", "hosts.c", "hostscontainer.c", "timedtask.c"],
     [("download to a temporary file and replacement", "downloader.c GetFromInternet_MultiFiles, GetFromInternet_SingleFile"), ("switch", "dynamichosts.c DynamicHosts_Load")],
     ["answers at the clients around every reload"],
     "With several sources, a source that fails is left out (documented behaviour). Queries in flight while groups are replaced may go unanswered.")

exec(open(os.path.join(H, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(H, "tools", "props_more.py")) else None

P.sort(key=lambda p: p["id"])
NA = {}
NAREASON = {}
if os.path.exists(os.path.join(H, "tools", "na.py")): exec(open(os.path.join(H, "tools", "na.py")).read())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "note"}
        f.write(json.dumps(q) + "\n")
man = dict(version=1, setup_cmd="bin/setup.sh",
    hooks=dict(guard="none", enable="no hooks were added to /repo: the checks compile its sources unchanged and rename their libc and libcurl symbols in the object files (bin/build.sh)", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="bin/check.sh %s quick" % p["id"], thorough_cmd="bin/check.sh %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
        technique="deterministic simulation of the whole program with fault injection, seeded search, reference-model oracle", level="exploration",
        level_note="Seeded search over schedules, inputs and fault sequences of complete simulated deployments running the real program code; a clean batch is evidence, not proof. " + p["note"]) for p in P if p["id"] not in NAREASON],
    not_applicable=[dict(property=k, reason=v) for k, v in NAREASON.items()],
    notes="See DESIGN.md. known_findings.txt lists findings; replay a violation with bin/replay.sh FILE [-t].")
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
