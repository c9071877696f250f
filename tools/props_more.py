prop("P17", "No malformed message from any side corrupts, stalls or diverts service",
     "Whatever bytes clients or servers send over UDP or TCP - truncated, random, with looping or outlying compression pointers, with wrong counts, lengths or record data, with extra records, or badly framed - the program neither crashes, hangs nor touches memory outside its buffers; everyone else's queries are answered as if the message had not come, nothing of it is stored as an answer to another question, and what is sent back goes to its sender only.",
     SC, "all byte strings (mutations of valid messages, structured corruptions and random data) from clients and servers, over both transports and with every optional feature that parses messages, interleaved with valid traffic",
     UNIT + "The parsers are reached through buffers shared between messages and threads; the effect shows on other clients' traffic.",
     ["dnsparser.c", "iheader.c", "dnsgenerator.c", "dnscache.c", "tcpfrontend.c", "udpfrontend.c", "udpm.c", "tcpm.c", "ipmisc.c", "logs.c"],
     [("acceptance of a message", "iheader.c IHeader_Fill, dnsparser.c DnsSimpleParser_IsWellFormed"), ("framing of client streams", "tcpfrontend.c TcpFrontend_Recv"), ("record iteration", "dnsparser.c")],
     ["answers to the valid queries of every client", "address sanitizer and step bounds on the program's code"],
     "Whether and how a malformed query itself is answered is not claimed; queries on a TCP connection that carried a malformed one are not required to be answered.")
prop("P18", "No descriptor or memory is lost over time, whatever fails",
     "However long the program runs and whatever it meets - servers and proxies that refuse, swallow queries or go away silently, clients that vanish, malformed messages, lists that are downloaded and groups that are replaced again and again - the descriptors and the memory it holds after the same load do not keep growing, and no descriptor is closed twice.",
     SC, "all histories of repeated load with the listed faults, configurations with UDP and TCP groups, proxies, caches, logs, statistics and periodic reloads, thread schedules",
     UNIT + "Leaks per rare event need long histories; no test runs the program for more than a moment.",
     ["tcpm.c", "udpm.c", "socketpool.c", "socketpuller.c", "tcpfrontend.c", "bst.c", "mmgr.c", "dynamichosts.c", "hostscontainer.c", "filter.c", "ipmisc.c", "domainstatistic.c"],
     [("closing of unanswered and expired connections", "tcpm.c TcpM_CloseUnanswered, TcpM_Connect_GetAvailable"), ("freeing of replaced modules and rules", "tcpm.c TcpM_Cleanup, mmgr.c Modules_Update")],
     ["open descriptors, live allocations and allocated bytes of the program after each of twelve equal phases of load, each followed by a quiet period"],
     "High-water marks are not leaks: growth must persist through all thirds of the run. Bounded pools (idle connections, pending table) are allowed.")
prop("P19", "Changed lists and server groups take effect at the next update",
     "When the disabled list, the group files or the address substitution file change on disk while the program runs, the first update that begins after the change (after the hosts lists have been fetched and the HostsScript has run, whatever it returned) brings them into force as a whole: from then on names are refused, routed and rewritten as the new files say and never as the old ones; before, as the old ones say; settings that are not to be reloaded and those of the configuration file itself stay in force throughout; a group file that makes no sense leaves the server groups as they were; and service never stops.",
     SC, "all histories of file changes, downloads (failing, slow, repeated), scripts and client traffic; UDP and TCP groups with and without LIST files; the Reload* switches; thread schedules with queries under way in the modules being replaced",
     UNIT + "Replacing modules while their threads work is a race no single-threaded test can order.",
     ["mmgr.c", "filter.c", "ipmisc.c", "dynamichosts.c", "udpm.c", "tcpm.c", "stringchunk.c", "downloader.c", "timedtask.c"],
     [("order of an update", "dynamichosts.c GetHostsFromInternet_Thread"), ("replacement of the modules and their end", "mmgr.c Modules_Load, Modules_SafeCleanup"), ("replacement of the lists", "filter.c DisabledDomain_Init, ipmisc.c IpMiscMapping_Load")],
     ["servers asked, refusals and rewritten addresses, against a model that holds every version between the instant its files were written and the end of the first update begun afterwards", "final probes of every zone"],
     "Queries on their way through a module that is being replaced may be lost. Files are replaced whole, as an editor or a script does it. What happens when a listed file is missing is not claimed.")
prop("P20", "With a SOCKS5 proxy all TCP upstream traffic goes through it, and works",
     "Queries of a TCP group with proxies are sent through one of its proxies only, never directly; the proxy is asked, in well-formed SOCKS5, for the address and port of a configured server; and queries are answered whenever a proxy and a server work - whatever form and segmentation the proxy's replies have - and again within a bounded time after refusing, failing, silent or vanishing proxies recover.",
     SC, "all proxy behaviours of the listed kinds at every step of the negotiation, all reply address forms and segmentations, server faults behind the proxy, keep-alive settings, thread schedules",
     UNIT + "No test has a proxy.",
     ["tcpm.c", "socketpool.c", "socketpuller.c", "addresslist.c", "mmgr.c"],
     [("negotiation", "tcpm.c TcpM_ProxyPreparation"), ("connections to proxies and their reuse", "tcpm.c TcpM_Connect")],
     ["bytes received by the simulated proxies and, through them, by the servers", "answers at the clients"],
     "IPv4 and IPv6 servers; the program asks for addresses in the domain-name form.")
prop("P21", "A group keeps answering while one of its servers works",
     "Servers that are unreachable, refuse or stay mute for good do not stop a group: with parallel queries every query is answered as long as one server works; a TCP group without parallel queries answers every query as long as one server accepts connections; a UDP group without parallel queries, whichever of its servers are dead and however often that changes, answers a client that repeats its query within the time it takes to go through all of its servers.",
     SC, "all group sizes and all histories of which servers are dead and in which way, at least one working at any time, both transports, IPv4 and IPv6, thread schedules",
     UNIT + "The tests have one working server.",
     ["udpm.c", "tcpm.c", "addresslist.c", "mcontext.c", "socketpuller.c"],
     [("failover of UDP groups", "udpm.c SweepWorks, AddressList_Advance"), ("choice among TCP connections", "tcpm.c TcpM_Connect, TcpM_Send_Actual"), ("parallel sending", "udpm.c UdpM_Send")],
     ["an answer to every query in time, measured in simulated time", "probes repeated every 2.5 s, at most 4 per server and 8 more"],
     "Time per query: a parallel TCP group waits up to 5 s for each connection that does not come about, and works serially. Proxies are P20's subject.")
prop("P24", "The log and the statistics page account for what was answered",
     "With logging on, every answer and refusal sent to a client is recorded by one complete entry that names its client, type, name and size, and no entry accounts for a query that never arrived. Entries of concurrent threads are not mixed, and none is lost or overwritten when the file reaches its threshold length and is renamed, nor when the program is killed and started again, nor are older log files. The statistics page is complete whenever it is written, its rows and sums add up, it counts nothing that did not happen, and it misses nothing that was answered while no page was being written.",
     SC, "all generated schedules of the threads that log and count, thresholds from 100 bytes on, rotations beside older files, kills after any operation on files or at any step, client traffic over UDP and TCP with hosts rules, cache, refusals, blocked answers, long answers and up to 200 names, pages every 1 to 60 s",
     UNIT + "No test reads the log or the page.",
     ["logs.c", "domainstatistic.c", "dnsparser.c", "stringchunk.c", "udpm.c", "tcpm.c", "hosts.c", "dnscache.c", "filter.c"],
     [("entries and rotation", "logs.c Log_Print, CheckLength, ShowNormalMessage"), ("counting and the page", "domainstatistic.c DomainStatistic_Add, DomainStatistic_Works"), ("text of the answers", "dnsparser.c GetAllAnswers")],
     ["every log file at the end of the run, parsed entry by entry and matched with the answers at the clients over all lives", "the last page, parsed and matched with the log and with the answers of its life"],
     "The entry follows the answer: the last moments before a kill are excepted. Files of the log can be opened and written (a full disk may cost entries).")
prop("P25", "A name redirected by a hosts rule is answered with its target's addresses",
     "A query for a name that a hosts rule redirects to another name (CName redirection) is answered, to the client that sent it and under its own ID and question, with the redirection (time to live 60) followed by the address and CNAME records of the target as it is resolved at that time - by further redirections, other hosts rules, the cache, the disabled list or the servers - and never with those of another query; it is sent upstream only as a plain question for the target; and redirections that go round in circles cost nobody else's answers.",
     SC, "all generated rule sets with chains and circles of redirections, wildcards, alternatives, excluded and disabled targets; colliding IDs, repeated and simultaneous queries, answers later than the program waits, UDP and TCP clients, cache on and off, network faults, thread schedules",
     UNIT + "An answer meets its question again through a shared table, which only concurrent and late answers upset.",
     ["hosts.c", "hostsutils.c", "hostscontainer.c", "mcontext.c", "bst.c", "mmgr.c", "iheader.c"],
     [("redirection and return", "hosts.c Hosts_SocketLoop"), ("combined answer", "hostsutils.c HostsUtils_CombineRecursedResponse"), ("redirected question", "hostsutils.c HostsUtils_GenerateQuery")],
     ["answers at the clients, queries at the servers"],
     "For types other than A, AAAA and CNAME only the chain of names is claimed (records of other types are not taken over). Queries for names in a circle need no answer.")
prop("P22", "A shortage of memory, descriptors or disk costs only what it hits",
     "While allocations, sockets, connections, sends or file operations fail, or the disk is full, the program may lose the queries and the updates that meet the failure, but it neither crashes, hangs nor ends, gives no answer that is wrong or somebody else's, and keeps using its hosts rules, disabled domains, routing, cache and settings - old ones or, after a complete update, new ones, never part of them; once the shortage is over, queries are answered again and the updates resume.",
     SC, "all generated sequences of shortages (allocation, socket, accept, connect, send and open failures at rates from one in 4000 to all, and full disks) switched on and off under load, with UDP and TCP clients and groups, proxies, caches, logs, statistics, downloads, group files and disabled lists; thread schedules",
     UNIT + "No test makes a call fail, and what a failure leaves behind shows only in later traffic.",
     ["udpm.c", "tcpm.c", "logs.c", "mmgr.c", "filter.c", "dynamichosts.c", "hostscontainer.c", "stringchunk.c", "simpleht.c", "dnscache.c", "downloader.c", "tcpfrontend.c", "udpfrontend.c", "socketpuller.c"],
     [("sockets that cannot be had", "udpm.c UdpM_Works, tcpm.c TcpM_Connect"), ("updates that fail half way", "mmgr.c Modules_Load, filter.c DisabledDomain_Init, dynamichosts.c DynamicHosts_Load"), ("incomplete files", "downloader.c GetFromInternet_MultiFiles, utils.c CopyAFile")],
     ["answers at the clients and queries at the servers during and after each shortage, address sanitizer on the program's code", "probes of every zone after the last shortage"],
     "Shortages begin after the program has started: one that cannot get its memory at start-up may end. Files named in the configuration that cannot be opened are left out, as documented, so opening fails only where there are none. Failing thread creation is not injected.")
prop("P23", "Downloaded hosts rules survive the program being killed",
     "At whatever instant the program is killed - between any two operations on files, while it downloads, assembles or installs the hosts file, under load - and started again, it answers at once by the last hosts file that was completely installed: never by none, by a part of one or by a mixture of two. Sources that fail, break off or are missing do not replace what is in force, and once they work again the newest list is in force after an update, in every life.",
     SC, "all generated instants of death (after each operation on files and at random steps of the schedule), all histories of versions, failing, slow, truncated and missing sources over several lives, http and file sources, one and two sources, client traffic before and after",
     UNIT + "No test kills the program.",
     ["downloader.c", "utils.c", "dynamichosts.c", "hostscontainer.c", "readline.c", "timedtask.c"],
     [("assembly and installation of the file", "downloader.c GetFromInternet_MultiFiles, GetFromInternet_SingleFile; utils.c CopyAFile"), ("loading at the start", "dynamichosts.c DynamicHosts_Init, DynamicHosts_Load")],
     ["answers at the clients from the first instant of each life, against every version whose installation may have been completed", "strict answers by the newest version after quiet updates, and probes at the end"],
     "A kill of the process: what was written to files before stays. Power failures are not claimed (the program never syncs). With two sources a failing one is left out, as the program reports it.")
