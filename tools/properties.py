#!/usr/bin/env python3
"""Source of /verif/properties.jsonl. Run: python3 tools/properties.py > properties.jsonl"""
import json, sys
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A cached answer is only served to an equivalent query",
 "The cache answers from memory only when the new query asks for the same name (ignoring letter case), type and class, carries the same DNSSEC-OK and checking-disabled flags, and has the same EDNS client subnet and prefix length as the query that produced the stored answer. Every other query is sent upstream, and the reply always carries the asking query's own ID and question.",
 ["inputs", "histories"], "every pair of queries (names, types, classes, flags, client subnets) issued one after the other against an empty cache",
 "Tests try a handful of query pairs; a key that drops or merges one field only shows for the pair that differs in exactly that field.",
 ["cache.go", "lru-cache.go", "cache-memory.go", "cache-redis.go"],
 [("lru key", "question + DO + CD + client subnet under which an answer is stored", "lru-cache.go")],
 [("key construction", "lru-cache.go"), ("lookup before upstream", "cache.go")],
 ["answer returned by the cache resolver", "queries seen by the upstream"])

prop("C02", "Cached records never outlive their TTL and never gain TTL",
 "A record answered from the cache carries a TTL no larger than its original TTL minus the whole seconds it has been in the cache, and an answer is never served from the cache once its storage lifetime has passed. Ageing never wraps a TTL around to a huge value.",
 ["inputs", "histories"], "every TTL combination of the stored records and every elapsed time between store and lookup",
 "Elapsed-time and TTL boundaries (0, exactly equal, one second past, 32-bit limits) are too many to sample with a real clock.",
 ["cache.go", "cache-memory.go"],
 [("stored timestamp and expiry", "when an answer entered the cache and when it must leave", "cache.go")],
 [("TTL ageing on lookup", "cache.go"), ("expiry check", "cache.go")],
 ["answer returned by the cache resolver"])

prop("C03", "Only cacheable answers are stored, for no longer than allowed",
 "A truncated answer is never stored. A stored answer is kept no longer than the smallest TTL among its records, a negative answer without TTL information no longer than the configured negative TTL, server failures for at most five minutes when no smaller limit is configured, and an answer whose response code has a configured limit no longer than that limit.",
 ["inputs", "configurations"], "every response code, truncation flag, record TTL mix and limit configuration",
 "The lifetime is the minimum of several optional inputs; a wrong precedence is only visible for particular combinations of response code, TTLs and configuration.",
 ["cache.go"],
 [("expiry", "lifetime assigned to a stored answer", "cache.go")],
 [("store decision", "cache.go")],
 ["whether and how long a later identical query is answered without the upstream"])

prop("C04", "The in-memory cache is a bounded least-recently-used store",
 "With a capacity configured, the in-memory cache never holds more entries than that capacity, and when it must drop one it drops the entry that was stored or looked up least recently. Every entry that was stored, not dropped, not deleted and not expired is found by its key, and nothing else is.",
 ["histories", "inputs"], "every sequence of stores, lookups and deletions over a small key space and capacity",
 "Linked-list and index corruption depends on the operation history; tests replay a few fixed histories.",
 ["lru-cache.go", "cache-memory.go"],
 [("recency list", "doubly linked list ordered by last use", "lru-cache.go"), ("index", "key to list element", "lru-cache.go")],
 [("add/touch/get/resize/delete", "lru-cache.go")],
 ["lookup results and size after the history"])

prop("C05", "Replies never share state with stored answers or with each other",
 "Changing a reply that was handed out (its header, records or options) never changes what any later or concurrent query receives. This holds for answers from the cache, from shared in-flight lookups and from fixed-response resolvers.",
 ["inputs", "histories"], "every stored answer shape and every subsequent modification of a delivered reply",
 "Aliasing stays invisible until a consumer mutates the right field between two lookups; tests compare a single reply.",
 ["cache.go", "cache-memory.go", "lru-cache.go", "request-dedup.go", "static.go", "blocklist.go"],
 [("stored answer", "message or packed form kept for later queries", "lru-cache.go")],
 [("copy on delivery", "cache.go")],
 ["second reply after the first was modified"])

prop("C06", "A persisted cache entry is restored as it was stored or not used",
 "An answer written to a cache file or shared cache store and read back for the same question yields the same message, age and prefetch eligibility, so it is served exactly as if it had stayed in memory (a shared store may keep its age to the second). An entry that cannot be decoded or has an unknown format is treated as missing, and an entry is never used for a query that differs in name, type, class, DNSSEC flags or client subnet.",
 ["inputs"], "every stored answer and every byte string found in the backend in its place",
 "Round trips are checked for a few messages only; damaged entries form an unbounded input space.",
 ["cache-blob.go", "cache-redis.go", "lru-cache.go"],
 [("stored blob", "serialised form of key and answer", "cache-blob.go")],
 [("encode/decode", "cache-blob.go"), ("key of the stored entry", "cache-redis.go"), ("file format", "lru-cache.go")],
 ["answer returned after a reload"])

prop("C07", "Files are replaced atomically whatever point a write fails at",
 "When a cached list or cache file is rewritten and the write fails or the process stops at any point, the file under its final name still holds either its complete previous content or its complete new content. Leftover temporary files are cleaned up without ever removing any other file.",
 ["crash_points", "fault_sequences"], "every failing step and every crash point during a rewrite, and every directory content at the next start",
 "Tests cannot stop the process between two file operations or fail an arbitrary one.",
 ["atomicfile.go", "blocklistloader-http.go", "cache-memory.go"],
 [("final file", "name under which readers open the data", "atomicfile.go"), ("temporary file", "new content before it is complete", "atomicfile.go")],
 [("write, sync, rename", "atomicfile.go"), ("stale file sweep", "atomicfile.go")],
 ["file contents visible under the final name"])

prop("C08", "Cached non-existence only answers for the same name or names below it",
 "With the hardening option enabled, a query is answered from a stored name-does-not-exist answer of another name only if the query's name lies below that name and its class matches; a name that merely shares trailing characters is never affected. With the option disabled, only the exact name is.",
 ["inputs", "configurations"], "every stored non-existent name and every query name",
 "The label-boundary condition only fails for names that share a suffix in an unusual way.",
 ["cache.go", "lru-cache.go"],
 [("negative entries", "stored NXDOMAIN answers", "cache.go")],
 [("ancestor walk", "cache.go")],
 ["answer returned by the cache resolver"])

prop("Q01", "A reply from upstream is only used for the query it answers",
 "Every reply an upstream client returns carries the ID of the query that was sent, and its question names the same name, type and class. A reply whose question is missing or differs is reported as an error and never returned as an answer.",
 ["inputs"], "every query and every reply an upstream can send",
 "Upstreams in tests always answer the right question with the right ID.",
 ["validate.go", "pipeline.go", "dohclient.go", "doqclient.go", "odohclient.go"],
 [("transaction ID", "ID of the caller's query versus the ID on the wire", "pipeline.go")],
 [("question validation", "validate.go"), ("ID restoration", "pipeline.go")],
 ["message returned by the client"])

prop("Q02", "Pipelined queries are each completed once, with their own answer",
 "Queries in flight on one upstream connection always have distinct wire IDs. Each query is completed exactly once: with the reply bearing its wire ID, or with an error when it times out or the connection is lost; a reply never completes another query and a lost connection never leaves a query waiting or counted forever.",
 ["schedules", "histories", "fault_sequences"], "every order in which queries are added, answered, timed out and drained, and every choice of random IDs",
 "ID collisions and reply/timeout races occur once in thousands of runs.",
 ["pipeline.go"],
 [("in-flight table", "wire ID to waiting query", "pipeline.go")],
 [("add/get/delete/drain", "pipeline.go")],
 ["result delivered to each caller"])

prop("Q03", "Deduplicated queries share a lookup only when they are identical",
 "Two concurrent queries share one upstream lookup only if they have the same name, type, class, DNSSEC-OK and checking-disabled flags and client subnet. Every caller receives the shared result with its own query ID and question, in a message of its own, and once the lookup is finished the next query starts a new one.",
 ["schedules", "inputs"], "every pair of overlapping queries and every interleaving of their arrival and the upstream reply",
 "Needs two queries overlapping in time that differ in exactly one field.",
 ["request-dedup.go"],
 [("in-flight table", "key to running lookup", "request-dedup.go")],
 [("key construction", "request-dedup.go"), ("result fan-out", "request-dedup.go")],
 ["upstream queries", "reply to each caller"])

prop("G01", "Failover groups answer whenever a member can, trying each at most once",
 "For a query, a failover group (rotate, fail-back, random, load-balance) asks each of its members at most once, never anything else, and returns the first successful answer. It reports failure only after every member it may still use has failed. Refused and not-implemented responses always count as failure, server failures and empty answers exactly when configured so, and a member's decision to drop the query ends the search.",
 ["inputs", "configurations", "fault_sequences", "histories", "schedules"], "every pattern of member outcomes (answer, server failure, error, no answer), every group size and starting member, over several consecutive or concurrent queries",
 "The outcome depends on which members fail, the order, and the state earlier queries left behind.",
 ["failrotate.go", "failback.go", "random.go", "loadbalance.go", "fastest.go", "resolver.go"],
 [("active member", "index of the preferred member", "failrotate.go")],
 [("retry loop", "failrotate.go")],
 ["sequence of members asked", "result returned"])

prop("G02", "Groups keep using, switch and return to members as documented",
 "A round-robin group asks its members in strict cyclic order, one per query, also under concurrent queries. A rotating group stays on a member until it fails and then moves to the next one; a fail-back group returns to the first member after the configured period without failure and not before; the random group takes a failed member out only for the configured period and never loses or duplicates a member.",
 ["schedules", "histories", "fault_sequences"], "every sequence and interleaving of queries, failures and timer expiries",
 "State errors accumulate over histories and interleavings that tests do not produce.",
 ["roundrobin.go", "failrotate.go", "failback.go", "random.go"],
 [("active index", "preferred member", "failback.go"), ("available members", "members currently in the random group", "random.go")],
 [("error handling", "failback.go"), ("deactivate/reactivate", "random.go")],
 ["member asked by each query"])

prop("G03", "The fastest group returns the first usable answer",
 "A group that asks all members at once returns the earliest successful answer and reports failure only when every member has failed. A member that answers late or not at all never blocks the reply or replaces it.",
 ["schedules", "fault_sequences"], "every order of member replies and every pattern of failures",
 "Tests run with one or two fixed reply orders.",
 ["fastest.go"], [("reply channel", "member results in arrival order", "fastest.go")],
 [("collection loop", "fastest.go")], ["result returned"])

prop("G04", "Connection probing only reorders address records",
 "Reordering an answer by connection speed returns exactly the records of the upstream answer, each once; only the order of address records may change, with the fastest responding address ahead of the other addresses. When probing fails the answer is returned with all its records.",
 ["inputs", "schedules", "fault_sequences"], "every answer section and every probe outcome and completion order",
 "Depends on which probe completes first and on mixed answer sections.",
 ["fastest-tcp.go"], [("answer section", "records to reorder", "fastest-tcp.go")],
 [("probe and reorder", "fastest-tcp.go")], ["answer returned"])

prop("R01", "A router sends each query to the first route that matches, or fails",
 "A query is handled by the resolver of the first configured route all of whose conditions match and by no other route. When no route matches the query is not resolved and an error is returned.",
 ["inputs", "configurations"], "every route list, query and client up to the stated bounds",
 "Combinations of several routes with several conditions each are not enumerable by hand.",
 ["router.go", "route.go"], [("route list", "ordered routes", "router.go")],
 [("first match loop", "router.go")], ["resolver that receives the query"])

prop("R02", "A route matches exactly when every configured condition matches",
 "A route matches a query if and only if each configured condition holds: name pattern, query types, class, client network, client subnet option, DoH path, listener, server name, weekday and time of day. An inverted route matches exactly when the same route without inversion does not.",
 ["inputs", "configurations"], "every combination of configured conditions and every query, client and time",
 "Each condition is optional and they interact; unit tests cover a few combinations.",
 ["route.go"], [("conditions", "parsed route configuration", "route.go")],
 [("condition evaluation", "route.go")], ["match decision"])

prop("R03", "Time-of-day routes are active exactly inside their window",
 "A route limited to a time window matches from its start time up to its end time on the given day, for every start and end configured, and only then. Times that are not valid clock times and unknown weekday names are rejected when the configuration is loaded.",
 ["inputs", "configurations"], "every pair of window bounds, every time of day and every weekday",
 "There are 1440 possible times for each bound and each moment.",
 ["route.go"], [("window bounds", "after and before", "route.go")],
 [("comparison", "route.go"), ("parsing", "route.go")], ["match decision"])

prop("B01", "Allowed names pass, blocked names never reach the upstream",
 "A query whose name matches the allow list is always forwarded. Any other query whose name matches the block list is answered locally (or by the configured block resolver) and never forwarded to the normal upstream, and a query matching neither is forwarded unchanged.",
 ["inputs", "configurations"], "every combination of list matches, query type and optional alternative resolvers",
 "Precedence between lists and the response synthesis interact with query type and configuration.",
 ["blocklist.go", "blocklistdb-multi.go"], [("allow and block databases", "rule sets", "blocklist.go")],
 [("match order", "blocklist.go")], ["resolver that receives the query", "synthesised reply"])

prop("B02", "Domain rules match exactly the names they describe",
 "A plain rule matches only that name, a rule with a leading dot matches that name and everything below it, and a rule with a leading wildcard matches only names below it, in any letter case and always at label boundaries. The outcome does not depend on the order of the rules.",
 ["inputs", "configurations"], "every set of up to a few rules over a small alphabet, in every order, and every query name",
 "Rule interaction depends on which rule is inserted first and on partially overlapping names.",
 ["blocklistdb-domain.go"], [("rule tree", "nested labels", "blocklistdb-domain.go")],
 [("insert", "blocklistdb-domain.go"), ("match", "blocklistdb-domain.go")], ["match decision"])

prop("B03", "Hosts-file lists answer exactly the listed names with the listed addresses",
 "A hosts-format list matches a query name if and only if it is listed, ignoring letter case. Address queries are answered with the listed addresses of that family, unspecified addresses mean the name is blocked, and reverse lookups return the listed name.",
 ["inputs", "configurations"], "every small hosts list and query",
 "Mixed families, repeated names and order of lines interact.",
 ["blocklistdb-hosts.go", "blocklist.go"], [("name to addresses", "parsed hosts entries", "blocklistdb-hosts.go")],
 [("parse and match", "blocklistdb-hosts.go")], ["match decision and addresses"])

prop("B04", "An address matches a network list exactly when a network contains it",
 "An address is matched by a list of networks if and only if at least one listed network of its family contains it, for every prefix length, every order of rules, and both IPv4 and IPv6 notation of the same IPv4 address.",
 ["inputs", "configurations"], "every address and every pair of networks with symbolic bits and prefix lengths",
 "There are 2^32 and 2^128 addresses and overlapping prefixes at every length.",
 ["cidr-db.go", "ip-blocklist-trie.go", "ip-db-multi.go"], [("prefix tree", "bits of listed networks", "ip-blocklist-trie.go")],
 [("add/has", "ip-blocklist-trie.go")], ["match decision"])

prop("B05", "Replies with listed addresses or names are blocked or filtered",
 "A successful reply that contains a listed address (or, for name lists, any reply with a listed target name) is never returned unchanged: it is replaced as configured, or in filter mode exactly the listed records are removed and all others kept, unless no answer is left. A reply without listed content is returned unchanged; in inverted mode the roles of listed and other addresses and names are exchanged.",
 ["inputs", "configurations"], "every reply with a few records of mixed types in any section and every match pattern",
 "Filtering depends on position, type and combination of records.",
 ["response-blocklist-ip.go", "response-blocklist-name.go"], [("answer, authority and additional sections", "records checked", "response-blocklist-ip.go")],
 [("section filter", "response-blocklist-ip.go")], ["reply returned to the client"])

prop("B06", "Blocked clients are refused and all other clients are served",
 "A client whose address (or the address of its subnet option, when enabled and present) is on the client list never has its query forwarded to the normal upstream; it is refused or sent to the configured alternative. Every other client's query is forwarded unchanged.",
 ["inputs", "configurations"], "every client address, subnet option and list",
 "Interaction of subnet option and source address is rarely exercised.",
 ["client-blocklist.go"], [("client list", "networks", "client-blocklist.go")],
 [("check before forwarding", "client-blocklist.go")], ["resolver that receives the query"])

prop("B07", "A failed list refresh keeps the previous rules in force",
 "When loading a rule list fails and failures are tolerated, the rules of the last successful load stay in force; when they are not tolerated the error is reported and the running rules are not replaced. A refresh is atomic: every query is judged entirely by the old or entirely by the new rules.",
 ["fault_sequences", "histories", "schedules"], "every sequence of load successes and failures and every interleaving of refresh and queries",
 "Needs failures at particular loads in a sequence.",
 ["blocklistloader-http.go", "blocklistloader-local.go", "blocklist.go", "response-blocklist-ip.go"], [("last good rules", "kept for failed loads", "blocklistloader-http.go")],
 [("refresh", "blocklist.go")], ["rules in force after the sequence"])

prop("L01", "No client network exceeds its request limit within one window",
 "In every rate-limit window at most the configured number of queries from one client network is forwarded; all others are refused, dropped or sent to the alternative resolver. Queries from other networks never use up that budget, and every query within the budget is forwarded.",
 ["schedules", "inputs", "histories"], "every sequence and interleaving of queries, client addresses, prefix lengths and clock values",
 "Window boundaries race with concurrent queries.",
 ["rate-limiter.go"], [("current window", "window number", "rate-limiter.go"), ("counters", "queries per network", "rate-limiter.go")],
 [("count under lock", "rate-limiter.go")], ["queries seen by the upstream"])

prop("M01", "Processing a query never modifies the caller's message",
 "A resolver that rewrites queries (replace, client-subnet, option, validation, padding, size changes) leaves the message it was given exactly as it was. The upstream receives a separate message.",
 ["inputs", "configurations"], "every query and every modifier configuration",
 "Shared slices are modified only for particular option layouts.",
 ["replace.go", "ecs-modifier.go", "edns0-modifier.go", "dnssec.go", "dns64.go", "dnsclient.go", "truncate-retry.go", "prefetch.go"],
 [("query message", "owned by the caller", "resolver.go")], [("copy before change", "replace.go")],
 ["caller's message after the call"])

prop("M02", "Name replacement is undone in the reply and applied consistently",
 "The upstream is asked for the name produced by applying all replacement rules in order, and the reply's question and every answer record owned by the replaced name (in any letter case) carry the name the client asked for. Queries that no rule changes are passed through untouched.",
 ["inputs", "configurations"], "every query, rule set and reply up to the stated bounds",
 "The mapping back depends on record owners in all sections.",
 ["replace.go"], [("name pair", "asked and replaced name", "replace.go")], [("rewrite and restore", "replace.go")],
 ["query upstream", "reply to the client"])

prop("M03", "TTL limits are applied to every record and nothing else",
 "Every record of a reply that passes a TTL modifier has a TTL within the configured minimum and maximum, the minimum not being above the maximum (and equal to the selected value when a selection is configured). Nothing else in the reply changes and pseudo-records are left alone.",
 ["inputs", "configurations"], "every TTL, record mix and limit configuration",
 "TTL values span 32 bits and interact with limits and selection functions.",
 ["ttl-modifier.go"], [("record TTLs", "TTL per record", "ttl-modifier.go")], [("bounding", "ttl-modifier.go")],
 ["reply returned"])

prop("M04", "Client subnet handling reveals exactly what was configured",
 "After deletion no query leaves with a client subnet option. After adding, the query carries exactly one, holding the client's (or configured) address cut to the configured prefix; in privacy mode no address bits beyond the configured prefix are ever sent upstream. All other options are kept.",
 ["inputs", "configurations"], "every client address, family, existing option list and prefix length",
 "Leaks occur for particular families, prefix lengths and option orders.",
 ["ecs-modifier.go", "edns0-modifier.go"], [("options", "EDNS0 option list", "ecs-modifier.go")], [("modifier functions", "ecs-modifier.go")],
 ["query sent upstream"])

prop("M05", "DNS64 synthesises addresses per RFC 6052 and only when needed",
 "A synthesised IPv6 address is the configured prefix with the IPv4 address embedded as the standard prescribes for that prefix length, so that the IPv4 address can be recovered from it, and the record keeps the owner name and TTL of the address record it was made from. Synthesis happens only for IPv6 address queries whose real answer has no usable IPv6 address; all other answers pass unchanged.",
 ["inputs", "configurations"], "every IPv4 address and every allowed prefix and length",
 "Six embedding layouts times 2^32 addresses.",
 ["dns64.go"], [("prefix", "configured translation prefix", "dns64.go")], [("embedding", "dns64.go"), ("synthesis decision", "dns64.go")],
 ["reply returned"])

prop("M06", "Minimising and collapsing replies keeps the requested records",
 "A minimised reply keeps its header, question and answer section and carries no authority or additional records. A collapsed reply to a successful answer contains exactly the answer records of the requested type, renamed to the queried name, or the configured empty response code without records when there are none; replies that are not a success are left alone.",
 ["inputs", "configurations"], "every reply up to the stated bounds",
 "Depends on record mixes and chains.",
 ["response-minimize.go", "response-collapse.go"], [("reply sections", "records", "response-collapse.go")], [("filters", "response-collapse.go")],
 ["reply returned"])

prop("M07", "A truncated reply is retried, and no other reply is",
 "When the upstream reply is truncated the query is repeated unchanged with the alternative resolver and its result is returned; a reply that is not truncated, an error and a missing reply are returned as they are without a second query.",
 ["inputs", "fault_sequences"], "every reply and every outcome of the retry",
 "Outcome combinations of two resolvers.",
 ["truncate-retry.go"], [("truncation flag", "reply header", "truncate-retry.go")], [("retry", "truncate-retry.go")],
 ["queries upstream", "reply returned"])

prop("M08", "Fixed responders answer every query with its own question",
 "A static or template responder's reply always carries the asking query's ID and question, the configured response code, flags and records; answer records are owned by the queried name. Serving one client never alters the configured records or another client's reply.",
 ["inputs", "configurations", "histories"], "every query and configured record set",
 "State leaks need two queries and particular record layouts.",
 ["static.go", "static-template.go", "template.go"], [("configured records", "shared between replies", "static.go")], [("reply construction", "static.go")],
 ["reply returned"])

prop("W01", "Listeners only serve clients from the allowed networks",
 "When a listener has a list of allowed networks, a client whose address is outside all of them never gets its query resolved, on every listener type. Without a list every client is served.",
 ["inputs", "configurations"], "every client address and network list on each listener protocol",
 "Each protocol has its own handler; tests cover one or two.",
 ["listener.go", "dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go"],
 [("allowed networks", "listener option", "listener.go")], [("check before resolving", "dnslistener.go")],
 ["whether the resolver is called"])

prop("W02", "Every query gets the reply its outcome calls for, and bad ones never crash",
 "A listener answers with the resolver's reply, with a server failure when resolving failed, and with nothing when the resolver decided to drop the query. Messages without a question are rejected without being resolved, and no outcome of a resolver or message from a client stops the listener.",
 ["inputs", "fault_sequences"], "every incoming message and every resolver outcome on each listener protocol",
 "The dropped-query and malformed-query cases are rarely combined with each protocol.",
 ["dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go"],
 [("resolver outcome", "reply, error or drop", "resolver.go")], [("reply handling", "dnslistener.go")],
 ["bytes written to the client"])

prop("W03", "UDP replies fit the size the client can receive",
 "An unsigned reply sent over UDP is never larger than the buffer size the client advertised (512 bytes if it advertised none or less); when records had to be left out the truncation flag is set. Replies over stream transports are not truncated.",
 ["inputs"], "every advertised size and reply size",
 "The boundary depends on exact packed lengths.",
 ["dnslistener.go"], [("advertised size", "EDNS0 UDP size", "dnslistener.go")], [("truncation", "dnslistener.go")],
 ["bytes written to the client"])

prop("W04", "Encrypted messages are padded to blocks and plain ones carry no padding",
 "Queries with EDNS sent over TLS, DTLS or HTTPS are padded to a multiple of 128 bytes, and replies to clients using EDNS there to a multiple of 468 bytes within the size limit; padding from other hops is replaced, never added twice. Replies over plain transports carry no padding.",
 ["inputs"], "every message length and option list",
 "Off-by-a-few errors only show for particular lengths.",
 ["padding.go"], [("padding option", "EDNS0 option", "padding.go")], [("pad/strip", "padding.go")],
 ["length of the message on the wire"])

prop("W05", "Forwarded client addresses are believed only from the trusted proxy",
 "The client address used for access control and routing is the address of the connection, unless the connection comes from the configured trusted proxy network and names a client in its forwarding header (loopback entries of that header name the proxy itself and are skipped). Headers from any other sender are ignored.",
 ["inputs", "configurations"], "every connection address, proxy network and header content",
 "Spoofing needs a header from an untrusted address with particular content.",
 ["dohlistener.go"], [("client address", "address used for access control", "dohlistener.go")], [("address extraction", "dohlistener.go")],
 ["client address passed to the resolver"])

prop("W06", "Stream framing delivers each message whole or not at all",
 "A length-prefixed message is passed on only when all of the announced bytes arrived, however the bytes were split into reads. Nothing beyond the announced length is consumed or passed on.",
 ["inputs", "schedules"], "every announced length, payload and split into reads",
 "Read boundaries are chosen by the network.",
 ["doqlistener.go", "doqclient.go", "dtlslistener.go", "dohlistener.go"], [("read buffer", "bytes received but not consumed", "dtlslistener.go")],
 [("framed read", "doqlistener.go"), ("partial reads", "dtlslistener.go")],
 ["message handed to the resolver"])

prop("D01", "Only answers with an unbroken chain of valid signatures are accepted",
 "The validator accepts a signed answer only if every record set in it carries a currently valid signature by a key of its own zone whose chain of delegations, each authenticated by its parent, leads to a configured trust anchor. Forged or misdirected key, delegation or signature records never make another answer acceptable.",
 ["inputs", "histories"], "every answer and every key and delegation record an attacker can put into upstream replies",
 "Attacks combine genuine records of one zone with queries for another; tests use consistent zones.",
 ["dnssec/validator.go", "dnssec/keystore.go"], [("trusted keys", "authenticated keys per zone", "dnssec/keystore.go")],
 [("chain building", "dnssec/validator.go")], ["validation verdict"])

prop("D02", "Non-existence is only accepted with a proof that covers the question",
 "A reply without records for the question (or the end of its alias chain) is accepted as authentic only if authenticated denial records of the responsible zone prove that the name (and any wildcard for it) or the type does not exist, and one with records of a wildcard only if nothing closer exists. Denial records from the parent side of a zone cut, or expanded from a wildcard, never prove anything about other names. A true denial that comes with all of its zone's denial records is accepted.",
 ["inputs"], "every zone of a few names, every set of up to three of its denial records and every question",
 "Canonical ordering, wrap-around, wildcards and zone cuts combine in many ways.",
 ["dnssec/denial.go", "dnssec/denial_existence.go"], [("denial records", "NSEC and NSEC3 records", "dnssec/denial_existence.go")],
 [("coverage and closest encloser", "dnssec/denial_existence.go")], ["validation verdict"])

prop("D03", "Bogus answers become failures and only validated ones are marked so",
 "In enforcing mode an answer that fails validation is never returned: the client gets a server failure. The authenticated-data mark is set only on answers that were validated, and clients that did not ask for DNSSEC records do not receive them unless they asked for that type.",
 ["inputs", "configurations", "fault_sequences"], "every query flag combination, upstream reply and validation outcome",
 "Flag combinations of query and reply are not covered exhaustively.",
 ["dnssec.go"], [("validation outcome", "secure, insecure, bogus", "dnssec.go")], [("outcome handling", "dnssec.go")],
 ["reply returned"])

prop("X01", "Endpoint and host name checks accept exactly valid names",
 "An upstream endpoint is accepted only if its host is an IP address or a syntactically valid host name and its port is a decimal number no greater than 65535. A missing port is completed with the protocol's default without changing the host.",
 ["inputs", "configurations"], "every endpoint string up to the stated length",
 "Boundary strings (empty labels, over-long labels, brackets, zones) are numerous.",
 ["validate.go", "static_default_ports.go"], [("endpoint string", "configuration value", "validate.go")], [("validation", "validate.go")],
 ["accept/reject decision"])

prop("X02", "Prefetching only refreshes popular answers and never changes replies",
 "Background refreshing never alters, delays or replaces the reply given to a client. A refresh is only made when its condition holds: the same query was made at least the configured number of times, or its stored answer is about to expire and was long-lived enough. Refresh queries ask exactly the question, flags and subnet the client's query had.",
 ["histories", "schedules"], "every sequence of queries and refresh rounds",
 "Depends on hit counts and timing over many queries.",
 ["prefetch.go", "cache.go"], [("hit counts", "queries per name", "prefetch.go")], [("refresh loop", "prefetch.go")],
 ["queries seen by the upstream", "reply returned"])

prop("Q04", "A misbehaving upstream server only fails the query it was asked for",
 "Whatever an HTTPS or oblivious upstream returns (no reply, a late or endless one, any status, arbitrary or cut-off content, unusable keys), the query fails with an error within its time limit and nothing crashes. Queries made once the upstream behaves again are answered, and every response received is released.",
 ["inputs", "fault_sequences"], "every status, content and failure of the upstream, followed by correct behaviour",
 "Needs hostile content of particular shape, such as inconsistent lengths.",
 ["odohclient.go", "dohclient.go"], [("target keys", "keys of the oblivious target and when they expire", "odohclient.go")], [("reply decoding", "dohclient.go"), ("key retrieval", "odohclient.go")],
 ["answer or error returned"])

prop("K01", "Configured elements are connected exactly as the configuration says",
 "Starting with a configuration connects each group, router and listener to exactly the elements it names, regardless of the order they are written in. A reference to something missing or a cycle is reported as an error before any listener runs.",
 ["configurations"], "every set of references between the elements of a configuration",
 "The number of reference graphs is large and elements are kept in maps without order.",
 ["cmd/routedns/main.go"], [("element graph", "which element uses which", "cmd/routedns/main.go")], [("start-up order", "cmd/routedns/main.go")],
 ["answers of the started listeners", "start-up error"])

prop("K02", "Each configuration option has the effect documented for it",
 "Elements made from a configuration behave according to their documented options: list formats, alternative resolvers, limits, periods, prefixes, codes, routes' conditions and upstream client settings. Options that are not set have their documented defaults.",
 ["configurations", "inputs"], "every combination of the stated options and values",
 "Tests use few option combinations and mostly build elements without the configuration.",
 ["cmd/routedns/main.go", "cmd/routedns/resolver.go", "cmd/routedns/config.go"], [("options", "values read from the configuration", "cmd/routedns/config.go")],
 [("element construction", "cmd/routedns/main.go"), ("client construction", "cmd/routedns/resolver.go")],
 ["reply returned", "queries seen by the upstream"])

prop("K03", "A namespace-bound listener runs exactly while its namespace exists",
 "Once events settle, a listener bound to a network namespace is running if the namespace exists and stopped if it does not, whatever happened before: quick changes, failed starts, listeners that end by themselves. There is never more than one instance of it.",
 ["schedules", "histories", "fault_sequences"], "every sequence of changes, start failures and exits in every interleaving",
 "Depends on changes that come while the listener is being started or stopped.",
 ["cmd/routedns/main.go", "netns_watch_linux.go"], [("namespace state", "last state reported to a subscriber", "netns_watch_linux.go")],
 [("supervisor", "cmd/routedns/main.go"), ("watcher", "netns_watch_linux.go")], ["number of running listeners"])

prop("K04", "Sockets for a namespace are opened in it and nothing else is",
 "Code that opens a socket for a network namespace runs in that namespace or not at all, with failures reported. Afterwards the thread is back in the namespace it came from or is never used again, and no files stay open.",
 ["fault_sequences", "configurations"], "every failure of the system calls involved and every outcome of the code",
 "Failures of these calls cannot be provoked in tests and need privileges.",
 ["netns_linux.go"], [("thread namespace", "namespace the current thread is in", "netns_linux.go")], [("namespace switch", "netns_linux.go")],
 ["namespace in which sockets are opened"])

for p in P:
    sys.stdout.write(json.dumps(p) + "\n")
