package main

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfLeaf is a responder that answers with the address 192.0.2.last.
func vfLeaf(last string) group {
	return group{Type: "static-responder", Answer: []string{"IN A 192.0.2." + last}}
}

// Two groups, a router with two routes and two fixed responders, every
// reference between them and from the listener being any of them or a missing
// one; elements handled in the order in which maps happen to list them.
func VF_K01_references() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	ids := []string{"s1", "s2", "g1", "g2", "r1", "gone"}
	ref := func(label string, n int) string { return ids[zzvf.Choose(label, n)] }
	cfg := config{
		Groups: map[string]group{
			"s1": vfLeaf("1"),
			"s2": vfLeaf("2"),
			"g1": {Type: "round-robin", Resolvers: []string{ref("g1", 6)}},
			"g2": {Type: "fail-back", Resolvers: []string{ref("g2", 6)}},
		},
		Routers: map[string]router{
			"r1": {Routes: []route{{Name: `^a\.`, Resolver: ref("r1.a", 6)}, {Resolver: ref("r1.b", 4)}}},
		},
		Listeners: map[string]listener{"l": {Address: "127.0.0.1:53", Protocol: "udp", Resolver: ref("l", 6)}},
	}
	refs := map[string][]string{
		"g1": cfg.Groups["g1"].Resolvers,
		"g2": cfg.Groups["g2"].Resolvers,
		"r1": {cfg.Routers["r1"].Routes[0].Resolver, cfg.Routers["r1"].Routes[1].Resolver},
	}
	good := cfg.Listeners["l"].Resolver != "gone"
	var walk func(id string, depth int)
	walk = func(id string, depth int) {
		if id == "gone" || depth > 4 {
			good = false
			return
		}
		for _, r := range refs[id] {
			walk(r, depth+1)
		}
	}
	for _, id := range []string{"g1", "g2", "r1"} {
		walk(id, 1)
	}
	var leaf func(id string, a bool) byte
	leaf = func(id string, a bool) byte {
		switch id {
		case "s1":
			return 1
		case "s2":
			return 2
		case "r1":
			if a {
				return leaf(refs[id][0], a)
			}
			return leaf(refs[id][1], a)
		}
		return leaf(refs[id][0], a)
	}
	used := false
	err := vfStart(cfg, func(s vfServers) {
		used = true
		if !good {
			return
		}
		for _, name := range []string{"a.test.", "b.test."} {
			r := s.ask("127.0.0.1:53", name, dns.TypeA)
			want := leaf(cfg.Listeners["l"].Resolver, name[0] == 'a')
			zzvf.Assert(r != nil && len(r.Answer) == 1 && r.Answer[0].(*dns.A).A.To4()[3] == want, "the query reaches the configured element")
		}
		zzvf.Cover("wired")
	})
	zzvf.Assert(good == (err == nil) && good == used, "a configuration is accepted exactly when its references exist and form no cycle")
	if !good {
		zzvf.Cover("rejected")
	}
}
