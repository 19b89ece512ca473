#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the markers) from
properties.jsonl, the doc comments of the harnesses and the notes below."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (what is executed, oracle, what lies outside, mutants tried and caught, seconds and paths)
N = {
"B01": ("NewBlocklist, NewDomainDB, NewRegexpDB, Resolve", "a membership function written over the letters of the name; forwarding is observed at the stand-in upstreams, which record every query", "lists of other kinds (B02-B04 decide those), PTR queries", "allow list ignored, block resolver and upstream swapped, query altered on the way", "4 s, 800 paths"),
"B02": ("NewDomainDB with its trie, Match", "label-by-label comparison of rule and name, case folded, with the rule's kind", "longer labels and names, more than three rules", "wildcard also matching the name itself, suffix without label boundary, rule order dependence, case", "8 s, 43k paths"),
"B03": ("NewHostsDB, Match, the blocklist's spoofed replies", "scan of the list's lines", "MaxHosts limit, malformed addresses", "first or last address only, families swapped, reverse name of another entry", "5 s"),
"B04": ("NewCidrDB, the IP trie, MultiIPDB", "bit comparison of address and network under the mask", "more than two networks per family", "off-by-one prefix, early stop in the trie, family mix-up", "21 s, 80k paths, 80k assertions by the solver"),
"B05": ("ResponseBlocklistIP, ResponseBlocklistName", "listed-ness of each record is a free Boolean (or decided by the mask); the reply is compared record by record", "GeoIP and ASN databases", "one section skipped, inversion ignored, filter keeping or losing a record", "5 s, 21k paths"),
"B06": ("ClientBlocklist", "network containment by mask", "GeoIP databases", "first of two options ignored, subnet option used when off", "5 s"),
"B07": ("file and HTTP list loaders, RefreshXXX of all four blocklists with their locks", "after each refresh the rules in force are those of the last load that succeeded; in the concurrent harness the reply must be one that old or new rules give", "HTTP transport itself (stand-in), more than one refresh during a query", "rules replaced on error, partial list used, lock released between two lists, lock removed", "5 s"),
"C01": ("Cache.Resolve with the memory backend", "two queries may share an answer exactly if all parts of the key agree, computed on the queries; the second query reaching the upstream is the observable", "names longer than two letters", "each key component dropped in turn, prefix length dropped", "4 s"),
"C02": ("Cache.Resolve, ageing, expiry", "original TTL minus elapsed whole seconds in exact arithmetic on 32/64 bit vectors", "68 years and more, sections with more records", "ageing of one section left out, unsigned wrap, expiry compared the wrong way", "22 s"),
"C03": ("Cache.Resolve, storage decisions", "upper bound on the storage time computed from the records and the options", "TTLs of 0xffffffff count as none", "truncated answers stored, minimum taken over one section, limits ignored", "10 s"),
"C04": ("lruCache and the memory backend through Cache.Resolve", "an ordered list of keys kept by the harness", "capacities above 3", "lookup not moving to front, capacity off by one, expired entry counted or returned", "37 s, 85k paths"),
"C05": ("cache, hosts list, static responder", "the reply is overwritten in every field and option, the next one must be as the first", "record types outside the list", "missing copy in store, lookup and spoofed replies", "5 s"),
"C06": ("file format of the memory backend (through a model of encoding/json) and the Redis backend (against a modelled server, natively a real RESP server on a pipe)", "a second backend that kept the answer in memory", "JSON text itself (model), the Redis client library, EDNS-less versus EDNS key (a miss is allowed)", "version check, flags, timestamp, key parts dropped one at a time", "24 s, 27k paths"),
"C07": ("the atomic file writer, the list loader's local copy, the cache file, the start-up sweep, on an in-memory file system with volatile and durable content", "after each crash the durable content under the final name is the complete old or new one", "directory entry durability (rename is taken as atomic and ordered), file systems that reorder", "Sync left out or its error ignored, Flush error ignored, predictable temporary name, sweep by substring, by wrong age or of non-files", "6 s"),
"C08": ("Cache.Resolve with hardening", "label comparison that knows escaped dots", "names of more than two labels below the fixed one", "suffix compare, class ignored, option ignored", "4 s"),
"D01": ("dnssec validation chain: key and delegation lookups, signatures, trust anchor, with crypto replaced by a model in which a signature verifies only under its key over its exact data", "the harness knows which records are genuine; an accepted answer must consist of those", "hash collisions and broken cryptography, CSK zones, insecure delegations more than one label below, non-root anchors", "check of signer name, validity period, label count, key tag, DS digest, self-signature", "30 s, 22k paths"),
"D02": ("NSEC and NSEC3 proofs, wildcard answers, alias chains", "the zone's true content decides what may be accepted; completeness: a true denial with all records must be accepted", "deeper names, hash collisions, ANY queries, interior wildcard labels", "cover test at the ends of the chain, parent-side records, opt-out, closest encloser, wildcard proof", "150 s, 86k paths"),
"D03": ("DNSSEC resolver around the validator", "table of outcome by mode, flags and genuineness", "other reply codes from the validator's own lookups", "AD kept, bogus passed, signatures not stripped", "5 s"),
"G01": ("FailRotate, FailBack, Random, LoadBalance", "list of member outcomes; the members record who was asked", "more than 3 members, more than two queries", "retry of the same member, wrong success test, drop treated as failure", "45 s, 345k paths"),
"G02": ("RoundRobin, FailRotate, FailBack with its timer goroutine, Random", "index sequence kept by the harness; virtual clock", "more than two concurrent queries (round robin: three thorough)", "reset too early or late, member lost or duplicated, every lock removed in turn", "28 s, 140k paths"),
"G03": ("Fastest", "earliest successful answer in the order the members were released", "more than 3 (thorough 4) members", "error taken as answer, counting of failures, unbuffered channel", "7 s"),
"G04": ("FastestTCP with probes on stand-in connections", "multiset equality and position of the first responder", "real sockets", "record lost, duplicated, other types moved", "7 s"),
"L01": ("RateLimiter", "counter per network and window kept by the harness", "two windows at once, more than 5 queries", "window by lock order, prefix of wrong family, limit off by one, lock removed", "13 s"),
"M01": ("all modifying resolvers, groups, clients", "deep comparison of the message before and after", "template records (M08)", "each Copy removed in turn", "31 s, 150k paths"),
"M02": ("Replace", "regular expressions are executed as real code; the expected name is computed by the same rules applied by hand", "other expressions", "order of rules, case, authority section", "4 s"),
"M03": ("TTLModifier and its selection functions", "min/max/average in exact arithmetic", "more records", "one section skipped, OPT changed, limits swapped", "5 s"),
"M04": ("ECSModifier, EDNS0Modifier", "mask arithmetic and a list of expected options", "other option types", "mask off by one, option kept or duplicated, other options lost", "5 s"),
"M05": ("DNS64", "RFC 6052 table of byte positions", "other prefixes", "byte 8 not skipped, wrong prefix length, synthesis when AAAA exists", "5 s"),
"M06": ("ResponseMinimize, ResponseCollapse", "record lists computed by the harness", "other types", "section kept, type not filtered, name not renamed", "5 s"),
"M07": ("TruncateRetry", "comparison with both upstreams' results", "-", "retry on error or on untruncated replies", "4 s"),
"M08": ("StaticResolver, StaticTemplateResolver", "expected message built by the harness", "template functions outside the list", "shared records, missing owner, question of another query", "6 s"),
"Q01": ("all upstream clients over stand-in connections", "reply accepted only if ID and question agree", "TLS and QUIC layers (stand-ins)", "each comparison removed in turn", "22 s"),
"Q02": ("Pipeline", "table of sent wire IDs, completions counted", "more than 3 queries in flight", "ID reuse, lost completion on error, lock removed", "100 s, 297k paths"),
"Q03": ("RequestDedup", "key equality computed on the queries; lookups counted", "more than three callers", "key parts, late removal, shared message, lock removed", "10 s"),
"R01": ("Router", "first match computed by the harness", "more than 4 routes", "order, later match, fallthrough", "16 s"),
"R02": ("Route", "conjunction of conditions computed by the harness", "other patterns", "each condition skipped in turn, inversion of one condition only", "7 s"),
"R03": ("Route time windows and their parsing", "minutes of the day as integers", "time zones other than UTC, daylight saving", "off by one at either end, parse of 24:00, missing weekday", "12 s"),
"W01": ("all listeners' handlers", "network containment by mask", "accept loops of the sockets", "check missing in one listener, families", "8 s"),
"W02": ("all listeners' handlers", "outcome table", "HTTP/2 and QUIC libraries", "nil reply, missing question, error path", "6 s"),
"W03": ("DNSListener's handler", "packed length against the advertised size", "TSIG-signed replies", "size of the reply's own OPT used, network names", "20 s"),
"W04": ("padding of queries and replies", "length modulo block size", "-", "block size, padding kept, padding on plain", "13 s"),
"W05": ("DoH listener's client address", "entry list evaluated by the harness", "IPv6 proxies, other headers", "trusting any sender, first entry taken, loopback", "11 s"),
"W06": ("DoQ stream and DTLS framing", "announced length against delivered bytes", "-", "short read accepted, trailing bytes taken", "5 s"),
"X01": ("validEndpoint and the default port completion", "host and port grammar", "internationalised names", "label lengths, hyphens, port range", "5 s"),
"Q04": ("DoHClient, ODoHClient with the real decoder of oblivious configurations (symbolic runs: HPKE suite replaced by a key length check)", "a query with a bad reply fails, the next with a good one succeeds, bodies are closed", "HTTP transport itself, replies of 14 bytes and more that are not DNS (Q01 and W02 cover well-formed ones)", "length checks, missing timeout, unusable key list", "60 s"),
"K01": ("start() with the dependency graph library, instantiateGroup, instantiateRouter, listeners up to ListenAndServe", "walk over the references chosen; answers of the listener compared with the leaf the walk reaches", "TOML decoding, other listener protocols, admin listener", "dropped dependency edges, swapped references", "10 s"),
"K02": ("instantiateGroup, instantiateRouter, instantiateResolver and the elements they make", "documented meaning of each option, written from doc/configuration.md", "TOML decoding, list files and URLs, Lua, syslog, certificates, Redis backend", "swapped or ignored options, wrong defaults and units", "5 s"),
"K03": ("runNetNSSupervisor, stopNetNSListener, the namespace watcher with inotify replaced by reports made from the same directory state, WaitNetNSReady", "number of listeners running at rest against the state of the namespace", "inotify queue overflow, kernel mount propagation", "cancelled retries, missed events, state looked up outside the lock", "20 s"),
"K04": ("RunInNetNS, ListenInNetNS, ListenPacketInNetNS, ListenUDPInNetNS, DialInNetNS with setns, open and thread locking replaced by a model of a thread", "namespace of the modelled thread at each point", "xsocket servers, kernel behaviour of setns", "missing restore, unlock of a stuck thread, main thread's namespace used", "5 s"),
"X02": ("Prefetch with the real expiration-cache library, Cache refresh", "count of equal queries kept by the harness; replies compared before and after the refresh", "eviction in the library's store, concurrent clients", "threshold off by one, missing copy, trigger and eligibility", "8 s"),
}
# seeded changes not caught by the check of their own property as first written
CAUGHT = {
    "S07": "R02, after queries without a client address were added to it; missed before",
    "S12": "X02, after its upstream was made to change the query it is given; missed before",
}
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
docs = {}
for f in sorted(glob.glob(root + "/harness/*/*.go")):
    L = open(f).read().split("\n")
    for i, l in enumerate(L):
        m = re.match(r"func VF_([A-Z]\d\d)_(\w+)\(", l)
        if m:
            d, j = [], i - 1
            while L[j].startswith("//"):
                d.insert(0, L[j][2:].strip())
                j -= 1
            t = re.sub(r"^VF_\w+: ", "", " ".join(d))
            docs.setdefault(m[1], []).append((m[2], t))
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i not in docs:
        out.append("Not applicable, see below.\n")
        continue
    ex, oracle, outside, mut, cost = N[i]
    out.append(f"- Executed: {ex}.")
    out.append(f"- Oracle: {oracle}.")
    for n, t in docs[i]:
        out.append(f"- Bounds, `{n}`: {t}")
    out.append(f"- Outside: {outside}.")
    out.append(f"- Beyond tests: {p['why_tests_cant']}")
    out.append(f"- Aimed at: {mut}. Cost (quick): {cost}.\n")
def fill(s, name, text):
    a, b = f"<!-- {name} -->\n", "<!-- end -->" if name == "properties" else f"<!-- end {name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + text + "\n" + s[j:]

find = []
for l in open(root + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        find.append(f"- {m[1]} ({m[2]}): {m[3]}.")
seeds = ["| id | property | what it breaks | found by |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    sid = os.path.basename(os.path.dirname(f))
    res = CAUGHT.get(sid, m["property"])
    seeds.append(f"| {sid} | {m['property']} | {m['what_it_breaks']} | {res} |")
f = root + "/DESIGN.md"
s = open(f).read()
s = fill(s, "properties", "\n".join(out))
s = fill(s, "findings", "\n".join(find) + "\n")
s = fill(s, "seeds", "\n".join(seeds) + "\n")
open(f, "w").write(s)
