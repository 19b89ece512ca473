From a4dc5ea4cf03b431863e8641340603c01a08347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:08 +0000
Subject: [PATCH 01/34] fix: match IPv4 networks listed in IPv4-mapped IPv6
 notation

A rule such as ::ffff:192.0.2.0/120 was added to the IPv4 tree with all of
its 120 bits, so it never matched the listed addresses and matched 0.0.0.0
instead. A bare ::ffff:192.0.2.1 got a /32 suffix.
---
 cidr-db.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cidr-db.go b/cidr-db.go
index 611a9a0..9e25dcf 100644
--- a/cidr-db.go
+++ b/cidr-db.go
@@ -35,20 +35,26 @@ func NewCidrDB(name string, loader BlocklistLoader) (*CidrDB, error) {
 		}
 		// Append a mask suffix if there isn't one already
 		if !strings.Contains(r, "/") {
-			if strings.Contains(r, ".") { // ip4
-				r += "/32"
-			} else if strings.Contains(r, ":") { // ip6
+			if strings.Contains(r, ":") { // ip6, including IPv4-mapped like ::ffff:1.2.3.4
 				r += "/128"
+			} else if strings.Contains(r, ".") { // ip4
+				r += "/32"
 			}
 		}
 		ip, n, err := net.ParseCIDR(r)
 		if err != nil {
 			return nil, err
 		}
-		if addr := ip.To4(); addr == nil {
+		ones, bits := n.Mask.Size()
+		switch addr := ip.To4(); {
+		case addr == nil:
 			db.ip6.add(n)
-		} else {
+		case bits == 32:
 			db.ip4.add(n)
+		case ones >= 96: // IPv4 network in IPv4-mapped IPv6 notation
+			db.ip4.add(&net.IPNet{IP: n.IP.To4(), Mask: net.CIDRMask(ones-96, 32)})
+		default: // IPv6 network wider than the IPv4-mapped range
+			db.ip6.add(n)
 		}
 	}
 	return db, nil
-- 
2.43.0


From 090e8702a8747f84f320fbb76e7723644de9b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:35 +0000
Subject: [PATCH 02/34] fix: keep the owner name of A records in synthesized
 AAAA records

With a CNAME chain in the answer the synthesized records were owned by the
queried name, next to its CNAME, instead of by the end of the chain as
RFC 6147 section 5.1.7 requires.
---
 dns64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns64.go b/dns64.go
index 7317eb2..0228223 100644
--- a/dns64.go
+++ b/dns64.go
@@ -168,7 +168,7 @@ func (r *DNS64) synthesizeAAAA(aAnswer *dns.Msg, question dns.Question) []dns.RR
 				ipv6 := synthesizeIPv6(prefix, ipv4)
 				aaaa = append(aaaa, &dns.AAAA{
 					Hdr: dns.RR_Header{
-						Name:   question.Name,
+						Name:   rec.Hdr.Name,
 						Rrtype: dns.TypeAAAA,
 						Class:  question.Qclass,
 						Ttl:    rec.Hdr.Ttl,
-- 
2.43.0


From cddd744f19dac4ad964ea9e193b4209c3d6e312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:41 +0000
Subject: [PATCH 03/34] fix: map replaced names back regardless of letter case

Records whose owner name differed from the rewritten query name only in case
kept the internal name in the response.
---
 replace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/replace.go b/replace.go
index 9a42dc3..07848b4 100644
--- a/replace.go
+++ b/replace.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"regexp"
+	"strings"
 
 	"github.com/miekg/dns"
 )
@@ -85,9 +86,10 @@ func (r *Replace) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	}
 
 	// Now put the original name in all answer records that have the
-	// new name
+	// new name. Names are case-insensitive, and the upstream is free to
+	// respond with records that don't use the case of the query.
 	for _, answer := range a.Answer {
-		if answer.Header().Name == newName {
+		if strings.EqualFold(answer.Header().Name, newName) {
 			answer.Header().Name = oldName
 		}
 	}
-- 
2.43.0


From 3639c851c6c0d6eadb0f06f33371b74b9bb5d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:02 +0000
Subject: [PATCH 04/34] fix: reject host names with empty or over-long labels

---
 validate.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/validate.go b/validate.go
index 37fd408..3224870 100644
--- a/validate.go
+++ b/validate.go
@@ -36,10 +36,13 @@ func validHostname(name string) error {
 	name = strings.TrimSuffix(name, ".")
 	labels := strings.Split(name, ".")
 	for _, label := range labels {
+		if label == "" {
+			return fmt.Errorf("invalid hostname %q: empty label", name)
+		}
+		if len(label) > 63 {
+			return fmt.Errorf("invalid hostname %q: label too long", name)
+		}
 		for _, c := range label {
-			if label == "" {
-				return fmt.Errorf("invalid hostname %q: empty label", name)
-			}
 			if strings.HasPrefix(label, "-") || strings.HasSuffix(label, "-") {
 				return fmt.Errorf("invalid hostname %q: label can not start or end with -", name)
 			}
-- 
2.43.0


From 6cfadc94f48a1ad08081af462f05ec96a44872dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:47 +0000
Subject: [PATCH 05/34] fix: don't turn NODATA responses into NXDOMAIN when
 filtering response IPs

---
 response-blocklist-ip.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/response-blocklist-ip.go b/response-blocklist-ip.go
index 698c3a5..8a25aa9 100644
--- a/response-blocklist-ip.go
+++ b/response-blocklist-ip.go
@@ -148,9 +148,11 @@ func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo
 }
 
 func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	hadAnswers := len(answer.Answer) > 0
 	answer.Answer = r.filterRR(query, ci, answer.Answer)
-	// If there's nothing left after applying the filter, return NXDOMAIN or send to the alternative resolver
-	if len(answer.Answer) == 0 {
+	// If there's nothing left after applying the filter, return NXDOMAIN or send to the alternative resolver.
+	// Responses that didn't have any answers to begin with (NODATA) are not blocked.
+	if hadAnswers && len(answer.Answer) == 0 {
 		log := Log.With("qname", qName(query))
 		if r.BlocklistResolver != nil {
 			log.With(slog.String("resolver", r.BlocklistResolver.String())).Debug("no answers after filtering, forwarding to blocklist-resolver")
-- 
2.43.0


From 1228193e62144ffd64bb65bb917c681e32d7340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:46 +0000
Subject: [PATCH 06/34] fix: don't treat escaped dots as label separators below
 NXDOMAIN

---
 cache.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cache.go b/cache.go
index 792130d..0fb9fb8 100644
--- a/cache.go
+++ b/cache.go
@@ -4,7 +4,6 @@ import (
 	"expvar"
 	"math"
 	"math/rand"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -303,9 +302,8 @@ func (r *Cache) answerFromCache(q *dns.Msg) (*dns.Msg, bool, bool) {
 	if r.HardenBelowNXDOMAIN {
 		name := q.Question[0].Name
 		newQ := q.Copy()
-		fragments := strings.Split(name, ".")
-		for i := 1; i < len(fragments)-1; i++ {
-			newQ.Question[0].Name = strings.Join(fragments[i:], ".")
+		for i, end := dns.NextLabel(name, 0); !end; i, end = dns.NextLabel(name, i) {
+			newQ.Question[0].Name = name[i:]
 			if a, _, ok := r.backend.Lookup(newQ); ok {
 				if a.Rcode == dns.RcodeNameError {
 					return nxdomain(q), false, true
-- 
2.43.0


From 990a9d3a1c33a8f06bf280b39da71f663ba549be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:53 +0000
Subject: [PATCH 07/34] fix: give each spoofed blocklist reply its own copy of
 the address

---
 blocklist.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blocklist.go b/blocklist.go
index 6dd1ed0..6a5c687 100644
--- a/blocklist.go
+++ b/blocklist.go
@@ -4,6 +4,7 @@ import (
 	"expvar"
 	"log/slog"
 	"net"
+	"slices"
 	"sync"
 	"time"
 
@@ -159,7 +160,7 @@ func (r *Blocklist) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 					Class:  question.Qclass,
 					Ttl:    3600,
 				},
-				A: ip,
+				A: slices.Clone(ip),
 			})
 		} else if len(ip) == net.IPv6len && question.Qtype == dns.TypeAAAA {
 			spoof = append(spoof, &dns.AAAA{
@@ -169,7 +170,7 @@ func (r *Blocklist) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 					Class:  question.Qclass,
 					Ttl:    3600,
 				},
-				AAAA: ip,
+				AAAA: slices.Clone(ip),
 			})
 		}
 	}
-- 
2.43.0


From bdacec0e930b292dd4e432a732c31f7c6c2810f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:23 +0000
Subject: [PATCH 08/34] fix: enforce allowed-net on ODoH listeners

---
 odohlistener.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index c315081..3ccdddd 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -110,6 +110,10 @@ func (s *ODoHListener) Stop() error {
 }
 
 func (s *ODoHListener) ODoHproxyHandler(w http.ResponseWriter, r *http.Request) {
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	if r.Method != http.MethodPost {
 		http.Error(w, "only POST allowed", http.StatusMethodNotAllowed)
 		return
@@ -203,6 +207,10 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		http.Error(w, "only contentType oblivious-dns-message allowed", http.StatusMethodNotAllowed)
 		return
 	}
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	b, err := io.ReadAll(io.LimitReader(r.Body, 4096))
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From 245244f284e9aa1c1097813755f660f2b5acc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:09 +0000
Subject: [PATCH 09/34] fix: truncate replies of UDP listeners bound to an IP
 version

---
 dnslistener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnslistener.go b/dnslistener.go
index b93a6d8..49572f5 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -146,7 +146,8 @@ func listenHandler(id, protocol, addr string, r Resolver, allowedNet []*net.IPNe
 		}
 
 		// Check the response actually fits if the query was sent over UDP. If not, respond with TC flag.
-		if protocol == "udp" || protocol == "dtls" {
+		// The UDP listeners can be bound to an IP version ("udp4" or "udp6").
+		if strings.HasPrefix(protocol, "udp") || protocol == "dtls" {
 			maxSize := dns.MinMsgSize
 			if edns0 := req.IsEdns0(); edns0 != nil {
 				maxSize = int(edns0.UDPSize())
-- 
2.43.0


From 8130cd5587095c147e9538c2cda79419a3d73083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:49 +0000
Subject: [PATCH 10/34] fix: don't crash the DoQ listener on dropped queries

---
 doqlistener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doqlistener.go b/doqlistener.go
index 7c6458e..66b5676 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -268,6 +268,12 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		a.SetRcode(q, dns.RcodeServerFailure)
 	}
 
+	// A nil response from the resolvers means "drop", close the stream
+	if a == nil {
+		s.metrics.drop.Add(1)
+		return
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
-- 
2.43.0


From 6bff0ff09117340d1726fa7835a81b11b2454f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:08 +0000
Subject: [PATCH 11/34] fix: return DoH and ODoH responses with the ID of the
 query

---
 dohclient.go  | 3 +++
 odohclient.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dohclient.go b/dohclient.go
index 53a4297..61cb5e2 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -309,6 +309,9 @@ func (d *DoHClient) responseFromHTTP(q *dns.Msg, resp *http.Response) (*dns.Msg,
 		d.metrics.err.Add("unpack", 1)
 		return nil, err
 	}
+	// The HTTP exchange matches the response to the query, not the ID. Servers and
+	// caches may use a different one (RFC 8484 4.1), so restore the query's.
+	a.Id = q.Id
 	if err := validateResponseQuestion(q, a); err != nil {
 		d.metrics.err.Add("question", 1)
 		return nil, err
diff --git a/odohclient.go b/odohclient.go
index 8c43b45..cb984e8 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -132,6 +132,9 @@ func (d *ODoHClient) decodeProxyResponse(q *dns.Msg, resp *http.Response, queryC
 		d.proxy.metrics.err.Add("unpack", 1)
 		return nil, err
 	}
+	// The HTTP exchange matches the response to the query, not the ID. Servers and
+	// caches may use a different one (RFC 8484 4.1), so restore the query's.
+	a.Id = q.Id
 	if err := validateResponseQuestion(q, a); err != nil {
 		d.proxy.metrics.err.Add("question", 1)
 		return nil, err
-- 
2.43.0


From a0add1d39f71627c0364b21554c51826a60f50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:23 +0000
Subject: [PATCH 12/34] fix: determine the rate-limit window while holding the
 lock

---
 rate-limiter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rate-limiter.go b/rate-limiter.go
index 98b56f4..ac97fa9 100644
--- a/rate-limiter.go
+++ b/rate-limiter.go
@@ -78,12 +78,13 @@ func (r *RateLimiter) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	}
 	key := source.String()
 
-	// Calculate the current (fixed) window
-	windowID := time.Now().Unix() / int64(r.Window)
-
 	var reject bool
 	r.mu.Lock()
 
+	// Calculate the current (fixed) window. Done while holding the lock so that
+	// a query delayed on its way here can't go back to an earlier window.
+	windowID := time.Now().Unix() / int64(r.Window)
+
 	// If we have moved on to the next window, re-initialize the counters
 	if windowID != r.currWinID {
 		r.currWinID = windowID
-- 
2.43.0


From 80337c24fc8becd6468cbb9db572c02d9aa58192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:51 +0000
Subject: [PATCH 13/34] fix: do not join lookups that already finished

---
 request-dedup.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/request-dedup.go b/request-dedup.go
index ce551b4..8d27d97 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -120,12 +120,13 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	a, err := r.resolver.Resolve(q, ci)
 	req.answer = a
 	req.err = err
-	close(req.done) // release other goroutines waiting for the response
 
-	// No longer in flight
+	// No longer in flight. Removed before anyone gets the response, so that
+	// queries made after that start a new lookup.
 	r.mu.Lock()
 	delete(r.inflight, k)
 	r.mu.Unlock()
+	close(req.done) // release other goroutines waiting for the response
 
 	// Return a copy since it could be modified in the chain (i.e. in the listener)
 	// but it's also stored for other goroutines which need to copy it.
-- 
2.43.0


From dfd81d7d2cc227eaa63c6030db06f9487ec6b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:51 +0000
Subject: [PATCH 14/34] fix: do not share lookups between queries with
 different client subnet families

---
 request-dedup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request-dedup.go b/request-dedup.go
index 8d27d97..8ff9104 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -14,6 +14,7 @@ type dedupKey struct {
 	qclass      uint16
 	do          bool
 	cd          bool
+	ecs_family  uint16
 	ecs_ipv4    uint32
 	ecs_ipv6_hi uint64
 	ecs_ipv6_lo uint64
@@ -53,6 +54,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		ecsIPv4              uint32
 		ecsIPv6Lo, ecsIPv6Hi uint64
 		ecsMask              uint8
+		ecsFamily            uint16
 		do                   bool
 	)
 
@@ -65,6 +67,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			if !ok {
 				continue
 			}
+			ecsFamily = ecs.Family
 			switch ecs.Family {
 			case 1: // ip4
 				ecsIPv4 = byteToUint32(ecs.Address.To4())
@@ -82,6 +85,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		qclass:      q.Question[0].Qclass,
 		do:          do,
 		cd:          q.CheckingDisabled,
+		ecs_family:  ecsFamily,
 		ecs_ipv4:    ecsIPv4,
 		ecs_ipv6_hi: ecsIPv6Hi,
 		ecs_ipv6_lo: ecsIPv6Lo,
-- 
2.43.0


From c024fd4834418604e71962a260086b48d3247703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:45 +0000
Subject: [PATCH 15/34] fix: Treat a dropped DNSKEY or DS lookup as failed
 instead of crashing

---
 dnssec.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dnssec.go b/dnssec.go
index 091e3b9..efa1477 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -65,7 +65,11 @@ var defaultTrustAnchors = []TrustAnchor{
 func NewDNSSECValidator(id string, resolver Resolver, opt DNSSECValidatorOptions) (*DNSSECValidator, error) {
 	v := dnssec.NewValidator(
 		dnssec.WithResolver(func(q *dns.Msg) (*dns.Msg, error) {
-			return resolver.Resolve(q, ClientInfo{})
+			a, err := resolver.Resolve(q, ClientInfo{})
+			if err == nil && a == nil { // dropped
+				return nil, errors.New("no response from upstream")
+			}
+			return a, err
 		}),
 	)
 
-- 
2.43.0


From f3d2df20daad8f4c573affc8a35a42f6b177f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:24 +0000
Subject: [PATCH 16/34] fix: validate the rest of an answer that has records of
 an insecure zone

---
 dnssec/validator.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 10a019e..7597718 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -91,21 +91,33 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
+	// An RRset from an insecure zone doesn't make the rest of the answer
+	// insecure. Look at all of them, any bogus one fails the whole answer.
+	var insecure error
 	for key, rrset := range rrsets {
-		rrsigs := sigs[key]
-		if len(rrsigs) == 0 {
-			// Check if this is an insecure delegation by looking for DS in parent
-			zone := rrset[0].Header().Name
-			if err := v.checkInsecureDelegation(zone); err != nil {
-				return err
-			}
-			return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		if errors.Is(err, ErrInsecureDelegation) {
+			insecure = err
+			continue
 		}
-		if err := v.validateRRset(rrset, rrsigs); err != nil {
+		if err != nil {
 			return err
 		}
 	}
-	return nil
+	return insecure
+}
+
+// validateAnswerRRset validates one RRset of the answer section. It returns
+// ErrInsecureDelegation if the RRset is in a provably unsigned zone.
+func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
+	if len(rrsigs) > 0 {
+		return v.validateRRset(rrset, rrsigs)
+	}
+	// Check if this is an insecure delegation by looking for DS in parent
+	if err := v.checkInsecureDelegation(rrset[0].Header().Name); err != nil {
+		return err
+	}
+	return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
 }
 
 // checkInsecureDelegation walks the delegation chain from the root toward
-- 
2.43.0


From 6ca5358483355bdaffd63d26c0930983e4e08cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:14 +0000
Subject: [PATCH 17/34] fix: deny names and types only with NSEC records of the
 responsible zone

---
 dnssec/denial_existence.go | 55 ++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 482479d..070f6e6 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -118,7 +118,15 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if dns.CanonicalName(n.Hdr.Name) != qname {
 			continue
 		}
-		return !slices.Contains(n.TypeBitMap, qtype) && !slices.Contains(n.TypeBitMap, dns.TypeCNAME)
+		return bitmapProvesNODATA(n.TypeBitMap, qname, qtype)
+	}
+
+	// Empty non-terminal: the next name is below qname, so qname exists
+	// without any records.
+	for _, n := range nsecs {
+		if nsecSpans(n, qname) && isBelow(qname, n.NextDomain) {
+			return true
+		}
 	}
 
 	// Wildcard NODATA: qname has no exact match (an NSEC covers it) but the
@@ -132,12 +140,33 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 			if dns.CanonicalName(w.Hdr.Name) != wildcard {
 				continue
 			}
-			return !slices.Contains(w.TypeBitMap, qtype) && !slices.Contains(w.TypeBitMap, dns.TypeCNAME)
+			return bitmapProvesNODATA(w.TypeBitMap, wildcard, qtype)
 		}
 	}
 	return false
 }
 
+// bitmapProvesNODATA reports whether the type bitmap of an NSEC/NSEC3 matching
+// name proves that there are no records of the type. The parent side of a zone
+// cut only has authority over the DS type, and the child side over all others.
+// RFC 6840 §4.1, RFC 4035 §5.2.
+func bitmapProvesNODATA(bitmap []uint16, name string, qtype uint16) bool {
+	if qtype == dns.TypeDS {
+		if slices.Contains(bitmap, dns.TypeSOA) && name != "." {
+			return false
+		}
+	} else if isDelegation(bitmap) {
+		return false
+	}
+	return !slices.Contains(bitmap, qtype) && !slices.Contains(bitmap, dns.TypeCNAME)
+}
+
+// isDelegation reports whether an NSEC/NSEC3 type bitmap is that of the parent
+// side of a zone cut.
+func isDelegation(bitmap []uint16) bool {
+	return slices.Contains(bitmap, dns.TypeNS) && !slices.Contains(bitmap, dns.TypeSOA)
+}
+
 // nsecProvesNXDOMAIN proves that qname does not exist: an NSEC must cover it,
 // and an NSEC must cover the wildcard at the closest encloser (so no wildcard
 // could have synthesized an answer). RFC 4035 §5.4.
@@ -181,10 +210,26 @@ func nsecClosestEncloser(qname string, n *dns.NSEC) string {
 	return lastNLabels(qname, labels)
 }
 
-// nsecCovers reports whether the NSEC record spans qname in canonical order,
-// i.e. owner < qname < next, accounting for the wrap-around at the zone apex
-// where next <= owner. An exact owner match is not "covered".
+// nsecCovers reports whether the NSEC record proves that qname does not exist.
+// It has to span the name without the next name being below it (qname would be
+// an empty non-terminal). A delegation or DNAME says nothing about the names
+// below it, RFC 6840 §4.1.
 func nsecCovers(n *dns.NSEC, qname string) bool {
+	if isBelow(n.Hdr.Name, qname) && (isDelegation(n.TypeBitMap) || slices.Contains(n.TypeBitMap, dns.TypeDNAME)) {
+		return false
+	}
+	return nsecSpans(n, qname) && !isBelow(qname, n.NextDomain)
+}
+
+// isBelow reports whether child is a proper subdomain of parent.
+func isBelow(parent, child string) bool {
+	return dns.IsSubDomain(parent, child) && dns.CountLabel(child) > dns.CountLabel(parent)
+}
+
+// nsecSpans reports whether qname falls between the names of the NSEC record in
+// canonical order, i.e. owner < qname < next, accounting for the wrap-around at
+// the zone apex where next <= owner. An exact owner match is not "spanned".
+func nsecSpans(n *dns.NSEC, qname string) bool {
 	owner := dns.CanonicalName(n.Hdr.Name)
 	next := dns.CanonicalName(n.NextDomain)
 	qname = dns.CanonicalName(qname)
-- 
2.43.0


From 68a2e4ba744f68dd2157b910ac6260f305b5f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:59 +0000
Subject: [PATCH 18/34] fix: don't take existing names, zone cuts or opt-out
 spans for NSEC3 denials

---
 dnssec/denial_existence.go | 64 +++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 070f6e6..59b6da6 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -32,7 +32,10 @@ func (v *Validator) validateDenial(answer *dns.Msg) error {
 	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
 		return nil
 	}
-	if nsec3ProvesDenial(nsec3s, qname, qtype, answer.Rcode) {
+	if proven, optOut := nsec3ProvesDenial(nsec3s, qname, qtype, answer.Rcode); proven {
+		if optOut {
+			return fmt.Errorf("%w: %s is in an opt-out span", ErrInsecureDelegation, qname)
+		}
 		return nil
 	}
 
@@ -244,10 +247,12 @@ func nsecSpans(n *dns.NSEC, qname string) bool {
 }
 
 // nsec3ProvesDenial reports whether the authenticated NSEC3 records prove the
-// denial for the given response code.
-func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode int) bool {
+// denial for the given response code. optOut is set if the proof relies on an
+// opt-out span, in which case the name could still be that of an unsigned
+// delegation and the denial isn't authenticated (RFC 5155 §9.2).
+func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode int) (proven, optOut bool) {
 	if len(nsec3s) == 0 {
-		return false
+		return false, false
 	}
 	switch rcode {
 	case dns.RcodeNameError:
@@ -255,24 +260,24 @@ func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode in
 	case dns.RcodeSuccess:
 		return nsec3ProvesNODATA(nsec3s, qname, qtype)
 	}
-	return false
+	return false, false
 }
 
 // nsec3ProvesNODATA proves that qname exists but the queried type does not.
-func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
+func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) (proven, optOut bool) {
 	qname = dns.CanonicalName(qname)
 
 	// Direct match with the type (and CNAME) absent.
 	for _, r := range nsec3s {
 		if r.Match(qname) {
-			return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
+			return bitmapProvesNODATA(r.TypeBitMap, qname, qtype), false
 		}
 	}
 
 	// DS NODATA via opt-out: the name is covered by an opt-out NSEC3, proving
 	// no signed DS exists (RFC 5155 §6).
 	if qtype == dns.TypeDS && nsec3OptOutCovers(nsec3s, qname) {
-		return true
+		return true, true
 	}
 
 	// Wildcard NODATA: closest encloser exists, next closer is covered, and the
@@ -282,11 +287,11 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 		wildcard := "*." + ce
 		for _, r := range nsec3s {
 			if r.Match(wildcard) {
-				return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
+				return bitmapProvesNODATA(r.TypeBitMap, wildcard, qtype), nsec3OptOutCovers(nsec3s, nextCloser)
 			}
 		}
 	}
-	return false
+	return false, false
 }
 
 // nsec3ProvesNXDOMAIN proves qname does not exist via the closest encloser
@@ -294,50 +299,51 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 // next closer name, and a covering NSEC3 for the wildcard at the closest
 // encloser. Opt-out on the next closer admits an (insecure) delegation.
 // RFC 5155 §8.4, §8.7.
-func nsec3ProvesNXDOMAIN(nsec3s []*dns.NSEC3, qname string) bool {
+func nsec3ProvesNXDOMAIN(nsec3s []*dns.NSEC3, qname string) (proven, optOut bool) {
 	ce, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
 	if !ok {
-		return false
+		return false, false
 	}
 	if !nsec3CoverAny(nsec3s, nextCloser) {
-		return false
-	}
-	if nsec3CoverAny(nsec3s, "*."+ce) {
-		return true
+		return false, false
 	}
 	// Opt-out: the next closer is covered by an opt-out NSEC3, so the name may
 	// be an unsigned delegation; the negative answer is acceptable.
-	return nsec3OptOutCovers(nsec3s, nextCloser)
+	if nsec3OptOutCovers(nsec3s, nextCloser) {
+		return true, true
+	}
+	return nsec3CoverAny(nsec3s, "*."+ce), false
 }
 
 // nsec3ClosestEncloser finds the longest ancestor of qname matched by an NSEC3
 // record and returns it together with the next closer name (that ancestor with
 // one more label from qname). The closest encloser is always a proper ancestor
-// of qname.
+// of qname. A delegation or DNAME says nothing about the names below it,
+// RFC 5155 §8.3.
 func nsec3ClosestEncloser(nsec3s []*dns.NSEC3, qname string) (ce, nextCloser string, ok bool) {
 	qname = dns.CanonicalName(qname)
 	n := dns.CountLabel(qname)
 	for k := n - 1; k >= 0; k-- {
 		candidate := lastNLabels(qname, k)
-		if nsec3MatchAny(nsec3s, candidate) {
-			return candidate, lastNLabels(qname, k+1), true
+		for _, r := range nsec3s {
+			if r.Match(candidate) {
+				valid := !isDelegation(r.TypeBitMap) && !slices.Contains(r.TypeBitMap, dns.TypeDNAME)
+				return candidate, lastNLabels(qname, k+1), valid
+			}
 		}
 	}
 	return "", "", false
 }
 
-func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
-	for _, r := range nsec3s {
-		if r.Match(name) {
-			return true
-		}
-	}
-	return false
+// nsec3Covers reports whether the NSEC3 record proves that name does not exist.
+// Cover() includes the record's owner itself, which does exist.
+func nsec3Covers(r *dns.NSEC3, name string) bool {
+	return r.Cover(name) && !r.Match(name)
 }
 
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Cover(name) {
+		if nsec3Covers(r, name) {
 			return true
 		}
 	}
@@ -346,7 +352,7 @@ func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 
 func nsec3OptOutCovers(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Flags&1 == 1 && r.Cover(name) {
+		if r.Flags&1 == 1 && nsec3Covers(r, name) {
 			return true
 		}
 	}
-- 
2.43.0


From e56f16206fccdcb8e25d8c747577825c7ff5ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:02 +0000
Subject: [PATCH 19/34] fix: validate DNSSEC responses against the question
 that was asked

---
 dnssec.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dnssec.go b/dnssec.go
index efa1477..1d597cc 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -134,7 +134,11 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, nil
 	}
 
-	if err := r.validator.Validate(answer); err != nil {
+	// Validate the response to the question that was asked, whatever the
+	// upstream put into the response's own question section.
+	validated := *answer
+	validated.Question = q.Question
+	if err := r.validator.Validate(&validated); err != nil {
 		if errors.Is(err, dnssec.ErrInsecureDelegation) {
 			log.Debug("insecure delegation, passing through", "error", err)
 			stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
-- 
2.43.0


From 8b404811d84c29c04943076c6f8d5340192bcc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:42 +0000
Subject: [PATCH 20/34] fix: reject denial records expanded from wildcards

---
 dnssec/denial.go           | 6 +++++-
 dnssec/denial_existence.go | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dnssec/denial.go b/dnssec/denial.go
index 28f723e..378ec90 100644
--- a/dnssec/denial.go
+++ b/dnssec/denial.go
@@ -26,7 +26,11 @@ func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now ti
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		if !verifyAnyRRSIG(sigs[key], parentKeys, rrset, now) {
+		// An NSEC expanded from a wildcard says nothing about its new owner
+		rrsigs := slices.DeleteFunc(sigs[key], func(sig *dns.RRSIG) bool {
+			return isWildcardExpansion(rrset[0], sig)
+		})
+		if !verifyAnyRRSIG(rrsigs, parentKeys, rrset, now) {
 			continue
 		}
 		for _, rr := range rrset {
diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 59b6da6..41b8b7c 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -82,7 +82,7 @@ func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) (nse
 func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname string) bool {
 	for _, sig := range sigs {
 		signer := dns.CanonicalName(sig.SignerName)
-		if !dns.IsSubDomain(signer, qname) {
+		if !dns.IsSubDomain(signer, qname) || isWildcardExpansion(rrset[0], sig) {
 			continue
 		}
 		zsk, _, err := v.buildChainOfTrust(signer)
@@ -96,6 +96,13 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 	return false
 }
 
+// isWildcardExpansion reports whether the owner name of a record was expanded
+// from a wildcard according to its signature. RFC 4035 §5.3.4.
+func isWildcardExpansion(rr dns.RR, sig *dns.RRSIG) bool {
+	name := strings.TrimPrefix(rr.Header().Name, "*.")
+	return int(sig.Labels) < dns.CountLabel(name)
+}
+
 // nsecProvesDenial reports whether the authenticated NSEC records prove the
 // denial for the given response code.
 func nsecProvesDenial(nsecs []*dns.NSEC, qname string, qtype uint16, rcode int) bool {
-- 
2.43.0


From 974878500d777f9789951833e5137da3d37ea86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:29 +0000
Subject: [PATCH 21/34] fix: require a denial proof for responses that don't
 answer the question

---
 dnssec/denial_existence.go | 14 +++--------
 dnssec/validator.go        | 50 +++++++++++++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 41b8b7c..1d6b255 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -11,22 +11,14 @@ import (
 
 // validateDenial authenticates a negative response (NXDOMAIN or NODATA). It
 // verifies that the authority section carries signed NSEC/NSEC3 records that
-// chain to the trust anchor and that actually prove the absence of the queried
+// chain to the trust anchor and that actually prove the absence of the given
 // name/type. It returns nil when the denial is proven, ErrInsecureDelegation
 // when the queried name falls under a provably unsigned zone (so the unsigned
 // answer may be passed through), and an error otherwise (bogus).
 //
-// Without this, an attacker could forge an NXDOMAIN/NODATA with an empty
-// answer section to suppress a record (e.g. a DANE/CAA downgrade) and have it
+// Without this, an attacker could forge an NXDOMAIN/NODATA to suppress a record (e.g. a DANE/CAA downgrade) and have it
 // accepted as authentic.
-func (v *Validator) validateDenial(answer *dns.Msg) error {
-	if len(answer.Question) == 0 {
-		return fmt.Errorf("%w: response has no question", ErrDenialOfExistence)
-	}
-	q := answer.Question[0]
-	qname := dns.CanonicalName(q.Name)
-	qtype := q.Qtype
-
+func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16) error {
 	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname)
 
 	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 7597718..07b5373 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -85,10 +85,9 @@ func (v *Validator) SetAnchor(owner string, tag uint16, alg, digestType uint8, d
 // It groups the answer section into RRsets, finds covering RRSIGs,
 // and validates each signed RRset against a chain of trust.
 func (v *Validator) Validate(answer *dns.Msg) error {
-	if len(answer.Answer) == 0 {
-		return v.validateDenial(answer)
+	if len(answer.Question) == 0 {
+		return fmt.Errorf("%w: response has no question", ErrDenialOfExistence)
 	}
-
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
 	// An RRset from an insecure zone doesn't make the rest of the answer
@@ -104,9 +103,54 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 			return err
 		}
 	}
+
+	// Without records that answer the question, the response is a denial
+	q := answer.Question[0]
+	name, found := findAnswer(rrsets, sigs, q)
+	if !found || answer.Rcode != dns.RcodeSuccess {
+		if err := v.validateDenial(answer, name, q.Qtype); err != nil {
+			return err
+		}
+	}
 	return insecure
 }
 
+// findAnswer follows the CNAMEs in an answer section starting at the queried
+// name. It returns the name they lead to, and whether there are records of the
+// queried type at that name.
+func findAnswer(rrsets map[rrsetKey][]dns.RR, sigs map[rrsetKey][]*dns.RRSIG, q dns.Question) (string, bool) {
+	name := dns.CanonicalName(q.Name)
+	for range len(rrsets) + 1 {
+		if len(rrsets[rrsetKey{name, q.Qtype}]) > 0 {
+			return name, true
+		}
+		cname := rrsets[rrsetKey{name, dns.TypeCNAME}]
+		if len(cname) == 0 {
+			break
+		}
+		c, ok := cname[0].(*dns.CNAME)
+		if !ok {
+			break
+		}
+		name = dns.CanonicalName(c.Target)
+	}
+	switch q.Qtype {
+	case dns.TypeANY:
+		for key := range rrsets {
+			if key.name == name {
+				return name, true
+			}
+		}
+	case dns.TypeRRSIG:
+		for key := range sigs {
+			if key.name == name {
+				return name, true
+			}
+		}
+	}
+	return name, false
+}
+
 // validateAnswerRRset validates one RRset of the answer section. It returns
 // ErrInsecureDelegation if the RRset is in a provably unsigned zone.
 func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
-- 
2.43.0


From 068383294eafc36262abbaf8b418ec1714eb2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:37 +0000
Subject: [PATCH 22/34] fix: require a proof that a wildcard applies to the
 names it is expanded to

---
 dnssec/denial_existence.go | 12 ++++++++++++
 dnssec/validator.go        | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 1d6b255..ca6ab4f 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -95,6 +95,18 @@ func isWildcardExpansion(rr dns.RR, sig *dns.RRSIG) bool {
 	return int(sig.Labels) < dns.CountLabel(name)
 }
 
+// wildcardApplies reports whether the authority section proves that there is no
+// closer match for name than the wildcard below its last n labels.
+func (v *Validator) wildcardApplies(ns []dns.RR, name string, n int) bool {
+	nsecs, nsec3s := v.collectVerifiedDenialRecords(ns, name)
+	for _, r := range nsecs {
+		if nsecCovers(r, name) && dns.CountLabel(nsecClosestEncloser(name, r)) <= n {
+			return true
+		}
+	}
+	return nsec3CoverAny(nsec3s, lastNLabels(name, n+1))
+}
+
 // nsecProvesDenial reports whether the authenticated NSEC records prove the
 // denial for the given response code.
 func nsecProvesDenial(nsecs []*dns.NSEC, qname string, qtype uint16, rcode int) bool {
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 07b5373..584550c 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -94,7 +94,7 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 	// insecure. Look at all of them, any bogus one fails the whole answer.
 	var insecure error
 	for key, rrset := range rrsets {
-		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		err := v.validateAnswerRRset(answer, key, rrset, sigs[key])
 		if errors.Is(err, ErrInsecureDelegation) {
 			insecure = err
 			continue
@@ -153,9 +153,18 @@ func findAnswer(rrsets map[rrsetKey][]dns.RR, sigs map[rrsetKey][]*dns.RRSIG, q
 
 // validateAnswerRRset validates one RRset of the answer section. It returns
 // ErrInsecureDelegation if the RRset is in a provably unsigned zone.
-func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
+func (v *Validator) validateAnswerRRset(answer *dns.Msg, key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
 	if len(rrsigs) > 0 {
-		return v.validateRRset(rrset, rrsigs)
+		if err := v.validateRRset(rrset, rrsigs); err != nil {
+			return err
+		}
+		// A wildcard only applies if there is no closer match. RFC 4035 §5.3.4
+		for _, sig := range rrsigs {
+			if isWildcardExpansion(rrset[0], sig) && !v.wildcardApplies(answer.Ns, key.name, int(sig.Labels)) {
+				return fmt.Errorf("%w: wildcard expansion to %s", ErrDenialOfExistence, key.name)
+			}
+		}
+		return nil
 	}
 	// Check if this is an insecure delegation by looking for DS in parent
 	if err := v.checkInsecureDelegation(rrset[0].Header().Name); err != nil {
-- 
2.43.0


From 6351e9e0cfa03dc7f32d8e8f32390ea2c454aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:56 +0000
Subject: [PATCH 23/34] fix: don't pass on the upstream's AD flag for answers
 that weren't validated

---
 dnssec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dnssec.go b/dnssec.go
index 1d597cc..6eb4f47 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -128,6 +128,9 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, err
 	}
 
+	// Don't rely on the upstream's validation
+	answer.AuthenticatedData = false
+
 	// Only validate successful responses
 	if answer.Rcode != dns.RcodeSuccess && answer.Rcode != dns.RcodeNameError {
 		stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
-- 
2.43.0


From d6ddfad20bc3dba9e837d701864b046ad94e516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:33 +0000
Subject: [PATCH 24/34] fix: try every resolver of a failover group once per
 request

Concurrent requests move the active resolver, so a request could ask the
same resolver again and fail without having asked the others.
---
 failback.go   | 15 ++++++++++-----
 failrotate.go | 13 +++++++++----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/failback.go b/failback.go
index d66e9e5..e675c47 100644
--- a/failback.go
+++ b/failback.go
@@ -81,8 +81,13 @@ func (r *FailBack) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		err error
 		a   *dns.Msg
 	)
+	// Concurrent requests and the reset timer can change the active resolver at
+	// any time. Start with the active one and then go through the list
+	// independently of them, so that every resolver is tried once.
+	start := r.current()
 	for i := 0; i < len(r.resolvers); i++ {
-		resolver, active := r.current(i)
+		active := (start + i) % len(r.resolvers)
+		resolver := r.resolvers[active]
 		log.With("resolver", resolver.String()).Debug("forwarding query to resolver")
 		r.metrics.route.Add(resolver.String(), 1)
 		a, err = resolver.Resolve(q, ci)
@@ -102,16 +107,16 @@ func (r *FailBack) String() string {
 	return r.id
 }
 
-// Thread-safe method to return the currently active resolver.
-func (r *FailBack) current(attempt int) (Resolver, int) {
+// Thread-safe method to return the index of the currently active resolver.
+func (r *FailBack) current() int {
 	// With ResetAfter set to 0, simply iterate through the list of
 	// resolvers on a per-request basis.
 	if r.opt.ResetAfter == 0 {
-		return r.resolvers[attempt], attempt
+		return 0
 	}
 	r.mu.RLock()
 	defer r.mu.RUnlock()
-	return r.resolvers[r.active], r.active
+	return r.active
 }
 
 // Fail over to the next available resolver after receiving an error from i (the active). We
diff --git a/failrotate.go b/failrotate.go
index 745b793..3dc0621 100644
--- a/failrotate.go
+++ b/failrotate.go
@@ -53,8 +53,13 @@ func (r *FailRotate) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		err error
 		a   *dns.Msg
 	)
+	// Concurrent requests can change the active resolver at any time. Start with
+	// the active one and then go through the list independently of them, so that
+	// every resolver is tried once.
+	start := r.current()
 	for i := 0; i < len(r.resolvers); i++ {
-		resolver, active := r.current()
+		active := (start + i) % len(r.resolvers)
+		resolver := r.resolvers[active]
 		log.With("resolver", resolver.String()).Debug("forwarding query to resolver")
 		r.metrics.route.Add(resolver.String(), 1)
 		a, err = resolver.Resolve(q, ci)
@@ -74,11 +79,11 @@ func (r *FailRotate) String() string {
 	return r.id
 }
 
-// Thread-safe method to return the currently active resolver.
-func (r *FailRotate) current() (Resolver, int) {
+// Thread-safe method to return the index of the currently active resolver.
+func (r *FailRotate) current() int {
 	r.mu.RLock()
 	defer r.mu.RUnlock()
-	return r.resolvers[r.active], r.active
+	return r.active
 }
 
 // Fail over to the next available resolver after receiving an error from i (the active). We
-- 
2.43.0


From 4ef4790d8141f4390487e0b709b57ef2f8505904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:42 +0000
Subject: [PATCH 25/34] fix: don't fail back to the first resolver right after
 another failure

The reset timer could expire between a failover and the signal that restarts
the timer, which sent queries back to the first resolver at once.
---
 failback.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/failback.go b/failback.go
index e675c47..d402a62 100644
--- a/failback.go
+++ b/failback.go
@@ -144,9 +144,14 @@ func (r *FailBack) errorFrom(i int) {
 	// which would drift below zero over repeated rotations.
 	r.metrics.available.Set(int64(len(r.resolvers) - r.active))
 	Log.Info("failing over to resolver", slog.Group("details", slog.String("id", r.id), slog.String("resolver", r.resolvers[r.active].String())))
+	// Signal the timer to wait some more before switching back. This happens with
+	// the lock held so the timer can't switch back right after the failure.
+	select {
+	case r.failCh <- struct{}{}:
+	default: // already signalled
+	}
 	r.mu.Unlock()
 	r.metrics.failover.Add(1)
-	r.failCh <- struct{}{} // signal the timer to wait some more before switching back
 }
 
 // Set active=0 regularly after the reset timer has expired without further failures. Any failure,
@@ -163,6 +168,13 @@ func (r *FailBack) startResetTimer() chan struct{} {
 				}
 			case <-timer.C:
 				r.mu.Lock()
+				select {
+				case <-failCh: // there was another failure after the timer expired
+					r.mu.Unlock()
+					timer.Reset(r.opt.ResetAfter)
+					continue
+				default:
+				}
 				r.active = 0
 				// All resolvers are considered available again, regardless of
 				// how far the group had failed over.
-- 
2.43.0


From e4e6aa4a2f5e5724f03d3c9169c2a7adbbc33912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:23 +0000
Subject: [PATCH 26/34] fix: keep all addresses when moving the fastest one to
 the top

With three or more addresses of which the fastest was neither the first nor
the last, the reordered answer had it twice and lost another one.
---
 fastest-tcp.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/fastest-tcp.go b/fastest-tcp.go
index 1cd045e..9c65356 100644
--- a/fastest-tcp.go
+++ b/fastest-tcp.go
@@ -145,16 +145,19 @@ func (r *FastestTCP) probeFastest(log queryLogger, rrs []dns.RR) ([]dns.RR, erro
 	resultCh := r.probe(ctx, log, rrs)
 	select {
 	case res := <-resultCh:
-		// Re-order the list in-place to put the fastest at the top
+		if res.err != nil {
+			return nil, res.err
+		}
+		// Re-order the list in-place to put the fastest at the top, moving those
+		// before it down by one
 		rr := res.rr
-		err := res.err
 		for i := range rrs {
-			if rrs[i] == rr {
-				return rrs, err
-			}
 			rrs[i], rr = rr, rrs[i]
+			if rr == res.rr {
+				break
+			}
 		}
-		return rrs, err
+		return rrs, nil
 	case <-ctx.Done():
 		return nil, ctx.Err()
 	}
-- 
2.43.0


From ea45514b1683619debff452262778df3374013b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:56 +0000
Subject: [PATCH 27/34] fix: match all records of a response against the same
 blocklist

A refresh between two records let the first be matched by the old and the
second by the new rules, so a response blocked by either could pass.
---
 response-blocklist-ip.go   | 70 ++++++++++++++++++++++----------------
 response-blocklist-name.go | 16 ++++-----
 2 files changed, 47 insertions(+), 39 deletions(-)

diff --git a/response-blocklist-ip.go b/response-blocklist-ip.go
index 8a25aa9..058c2cc 100644
--- a/response-blocklist-ip.go
+++ b/response-blocklist-ip.go
@@ -82,15 +82,6 @@ func (r *ResponseBlocklistIP) String() string {
 	return r.id
 }
 
-// Match the IP against the blocklist while holding the lock. The refresh
-// loop closes the old database after swapping in a new one, so the match
-// must complete under the lock to never use a closed database.
-func (r *ResponseBlocklistIP) match(ip net.IP) (*BlocklistMatch, bool) {
-	r.mu.RLock()
-	defer r.mu.RUnlock()
-	return r.BlocklistDB.Match(ip)
-}
-
 func (r *ResponseBlocklistIP) refreshLoopBlocklist(refresh time.Duration) {
 	for {
 		time.Sleep(refresh)
@@ -114,6 +105,33 @@ func (r *ResponseBlocklistIP) refreshLoopBlocklist(refresh time.Duration) {
 }
 
 func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	ip, match, ok := r.findMatch(answer)
+	if !ok {
+		return answer, nil
+	}
+	log := logger(r.id, query, ci).With(
+		slog.String("list", match.GetList()),
+		slog.String("rule", match.GetRule()),
+		slog.String("ip", ip.String()),
+	)
+	if r.BlocklistResolver != nil {
+		log.With(slog.String("resolver", r.BlocklistResolver.String())).Debug("blocklist match, forwarding to blocklist-resolver")
+		return r.BlocklistResolver.Resolve(query, ci)
+	}
+	log.Debug("blocking response")
+	answer = nxdomain(query)
+	if err := r.EDNS0EDETemplate.Apply(answer, EDNS0EDEInput{query, match}); err != nil {
+		log.Warn("failed to apply edns0ede template", "error", err)
+	}
+	return answer, nil
+}
+
+// Returns the first IP in the response that should be blocked. The read-lock is
+// held throughout so that all IPs are matched against the same database, and
+// because the refresh loop closes the old database after swapping in a new one.
+func (r *ResponseBlocklistIP) findMatch(answer *dns.Msg) (net.IP, *BlocklistMatch, bool) {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
 	for _, records := range [][]dns.RR{answer.Answer, answer.Ns, answer.Extra} {
 		for _, rr := range records {
 			var ip net.IP
@@ -125,31 +143,17 @@ func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo
 			default:
 				continue
 			}
-			if match, ok := r.match(ip); ok != r.Inverted {
-				log := logger(r.id, query, ci).With(
-					slog.String("list", match.GetList()),
-					slog.String("rule", match.GetRule()),
-					slog.String("ip", ip.String()),
-				)
-				if r.BlocklistResolver != nil {
-					log.With(slog.String("resolver", r.BlocklistResolver.String())).Debug("blocklist match, forwarding to blocklist-resolver")
-					return r.BlocklistResolver.Resolve(query, ci)
-				}
-				log.Debug("blocking response")
-				answer = nxdomain(query)
-				if err := r.EDNS0EDETemplate.Apply(answer, EDNS0EDEInput{query, match}); err != nil {
-					log.Warn("failed to apply edns0ede template", "error", err)
-				}
-				return answer, nil
+			if match, ok := r.BlocklistDB.Match(ip); ok != r.Inverted {
+				return ip, match, true
 			}
 		}
 	}
-	return answer, nil
+	return nil, nil, false
 }
 
 func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	hadAnswers := len(answer.Answer) > 0
-	answer.Answer = r.filterRR(query, ci, answer.Answer)
+	r.filterSections(query, answer, ci)
 	// If there's nothing left after applying the filter, return NXDOMAIN or send to the alternative resolver.
 	// Responses that didn't have any answers to begin with (NODATA) are not blocked.
 	if hadAnswers && len(answer.Answer) == 0 {
@@ -161,9 +165,17 @@ func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo)
 		log.Debug("no answers after filtering, blocking response")
 		return nxdomain(query), nil
 	}
+	return answer, nil
+}
+
+// Removes the matching records from the response. As in findMatch, the read-lock
+// is held until all of them were matched.
+func (r *ResponseBlocklistIP) filterSections(query, answer *dns.Msg, ci ClientInfo) {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+	answer.Answer = r.filterRR(query, ci, answer.Answer)
 	answer.Ns = r.filterRR(query, ci, answer.Ns)
 	answer.Extra = r.filterRR(query, ci, answer.Extra)
-	return answer, nil
 }
 
 func (r *ResponseBlocklistIP) filterRR(query *dns.Msg, ci ClientInfo, rrs []dns.RR) []dns.RR {
@@ -179,7 +191,7 @@ func (r *ResponseBlocklistIP) filterRR(query *dns.Msg, ci ClientInfo, rrs []dns.
 			newRRs = append(newRRs, rr)
 			continue
 		}
-		if match, ok := r.match(ip); ok != r.Inverted {
+		if match, ok := r.BlocklistDB.Match(ip); ok != r.Inverted {
 			log := logger(r.id, query, ci).With(
 				slog.String("list", match.GetList()),
 				slog.String("rule", match.GetRule()),
diff --git a/response-blocklist-name.go b/response-blocklist-name.go
index f656afc..72a023d 100644
--- a/response-blocklist-name.go
+++ b/response-blocklist-name.go
@@ -61,15 +61,6 @@ func (r *ResponseBlocklistName) String() string {
 	return r.id
 }
 
-// Match the name against the blocklist while holding the lock to
-// synchronize with the refresh loop swapping the database.
-func (r *ResponseBlocklistName) match(msg *dns.Msg) (*BlocklistMatch, bool) {
-	r.mu.RLock()
-	defer r.mu.RUnlock()
-	_, _, match, ok := r.BlocklistDB.Match(msg)
-	return match, ok
-}
-
 func (r *ResponseBlocklistName) refreshLoopBlocklist(refresh time.Duration) {
 	for {
 		time.Sleep(refresh)
@@ -87,6 +78,11 @@ func (r *ResponseBlocklistName) refreshLoopBlocklist(refresh time.Duration) {
 }
 
 func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	// Match all names against the same database, even if the refresh loop swaps
+	// it in the meantime.
+	r.mu.RLock()
+	db := r.BlocklistDB
+	r.mu.RUnlock()
 	for _, records := range [][]dns.RR{answer.Answer, answer.Ns, answer.Extra} {
 		for _, rr := range records {
 			var name string
@@ -114,7 +110,7 @@ func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientIn
 			}
 			msg := new(dns.Msg)
 			msg.SetQuestion(name, 0)
-			if rule, ok := r.match(msg); ok != r.Inverted {
+			if _, _, rule, ok := db.Match(msg); ok != r.Inverted {
 				log := logger(r.id, query, ci).With("rule", rule.GetRule())
 				if r.BlocklistResolver != nil {
 					log.Debug("blocklist match, forwarding to blocklist-resolver", "resolver", r.BlocklistResolver)
-- 
2.43.0


From 690f2f503c8f050e681fe229175f4212dc064c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:02:38 +0000
Subject: [PATCH 28/34] fix: apply allowlist-format to static allowlists

---
 cmd/routedns/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 4270abe..1d8d8ad 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -573,7 +573,7 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		}
 		var allowlistDB rdns.BlocklistDB
 		if len(g.Allowlist) > 0 {
-			allowlistDB, err = newBlocklistDB(list{Format: g.BlocklistFormat}, g.Allowlist)
+			allowlistDB, err = newBlocklistDB(list{Format: g.AllowlistFormat}, g.Allowlist)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From f2d9a865181168d5c70d41dde67f7ef704c67561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:08:31 +0000
Subject: [PATCH 29/34] fix: don't miss namespace changes while subscribing

---
 netns_watch_linux.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netns_watch_linux.go b/netns_watch_linux.go
index da7abcd..5175374 100644
--- a/netns_watch_linux.go
+++ b/netns_watch_linux.go
@@ -149,9 +149,11 @@ func (w *netnsWatcher) dispatch(name string, state NetNSState) {
 
 func (w *netnsWatcher) subscribe(name string) (<-chan NetNSState, func()) {
 	s := &netnsSubscriber{name: name, ch: make(chan NetNSState, 16)}
-	state := currentNetNSState(name)
 
 	w.mu.Lock()
+	// Look up the current state with the lock held, otherwise an event that's
+	// dispatched before the subscriber is added would be missed.
+	state := currentNetNSState(name)
 	w.subs = append(w.subs, s)
 	// Deliver the current state immediately so the caller learns the
 	// namespace is absent even when /var/run/netns doesn't exist yet and the
-- 
2.43.0


From d5c06d036d67666a75d3c69281ee8704ed63a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:08:31 +0000
Subject: [PATCH 30/34] fix: restore the network namespace of the thread itself

---
 netns_linux.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netns_linux.go b/netns_linux.go
index 62e7567..7159fbf 100644
--- a/netns_linux.go
+++ b/netns_linux.go
@@ -55,8 +55,9 @@ func RunInNetNS(ns *NetNS, fn func() error) error {
 	runtime.LockOSThread()
 	defer runtime.UnlockOSThread()
 
-	// Save the current network namespace.
-	origNS, err := os.Open("/proc/self/ns/net")
+	// Save the current network namespace. It has to be that of this thread,
+	// /proc/self refers to the main thread which may be in another namespace.
+	origNS, err := os.Open("/proc/thread-self/ns/net")
 	if err != nil {
 		return fmt.Errorf("failed to open current netns: %w", err)
 	}
-- 
2.43.0


From 5020e9a4e300b018e61fe707e20ad00fb7c84056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:08:31 +0000
Subject: [PATCH 31/34] fix: don't reuse threads that fail to leave a network
 namespace

---
 netns_linux.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/netns_linux.go b/netns_linux.go
index 7159fbf..453a1a7 100644
--- a/netns_linux.go
+++ b/netns_linux.go
@@ -52,8 +52,15 @@ func RunInNetNS(ns *NetNS, fn func() error) error {
 		return fn()
 	}
 
+	// The thread is released unless it gets stuck in the target namespace. It
+	// then ends with the goroutine instead of being used by others.
+	stuck := false
 	runtime.LockOSThread()
-	defer runtime.UnlockOSThread()
+	defer func() {
+		if !stuck {
+			runtime.UnlockOSThread()
+		}
+	}()
 
 	// Save the current network namespace. It has to be that of this thread,
 	// /proc/self refers to the main thread which may be in another namespace.
@@ -76,7 +83,12 @@ func RunInNetNS(ns *NetNS, fn func() error) error {
 	}
 
 	// Always restore the original namespace before returning.
-	defer unix.Setns(int(origNS.Fd()), unix.CLONE_NEWNET) //nolint:errcheck
+	defer func() {
+		if err := unix.Setns(int(origNS.Fd()), unix.CLONE_NEWNET); err != nil {
+			Log.Error("failed to restore network namespace", "netns", ns.Name, "error", err)
+			stuck = true
+		}
+	}()
 
 	return fn()
 }
-- 
2.43.0


From a60607c2987fdafb1c0d2713e6b843a6ae387f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:19 +0000
Subject: [PATCH 32/34] fix: reject unusable ODoH configs instead of panicking

---
 odohclient.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/odohclient.go b/odohclient.go
index cb984e8..63ee658 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -2,9 +2,11 @@ package rdns
 
 import (
 	"context"
+	"encoding/binary"
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"net/http"
 	"net/url"
 	"sync"
@@ -180,11 +182,11 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to decode odohConfig: %w", err)
 		}
-		odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(configBytes)
+		config, err := parseODoHConfigs(configBytes)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal odohConfig: %w", err)
 		}
-		d.odohConfig = &odohConfigs.Configs[0]
+		d.odohConfig = config
 	} else if d.odohConfig == nil || time.Now().After(d.odohConfigExpiry) {
 		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey()
 	}
@@ -206,13 +208,29 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	if err != nil {
 		return nil, time.Time{}, err
 	}
-	odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(bodyBytes)
+	config, err := parseODoHConfigs(bodyBytes)
 	expiry := time.Now().Add(24 * time.Hour)
 
-	if err != nil || len(odohConfigs.Marshal()) < 1 {
+	if err != nil {
 		Log.Warn("Could not load the targets ODoH config")
 		return nil, time.Time{}, err
 	}
-	Log.Info("Successfully loaded ODoH config", "config", fmt.Sprintf("%x", odohConfigs.Marshal()))
-	return &odohConfigs.Configs[0], expiry, err
+	Log.Info("Successfully loaded ODoH config", "config", fmt.Sprintf("%x", bodyBytes))
+	return config, expiry, nil
+}
+
+// Returns the first usable config in a serialized list of ODoH configs. The
+// decoder relies on the lengths being consistent, so that's checked first.
+func parseODoHConfigs(b []byte) (*odoh.ObliviousDoHConfig, error) {
+	if len(b) < 2 || len(b) > math.MaxUint16-4 || len(b)-2 < int(binary.BigEndian.Uint16(b)) {
+		return nil, errors.New("invalid length of odoh config")
+	}
+	odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(b)
+	if err != nil {
+		return nil, err
+	}
+	if len(odohConfigs.Configs) == 0 {
+		return nil, errors.New("no supported odoh config")
+	}
+	return &odohConfigs.Configs[0], nil
 }
-- 
2.43.0


From e5a8d2c01433ae307ddc27fa2ee879928e4c0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:22 +0000
Subject: [PATCH 33/34] fix: apply the query timeout when loading ODoH configs

---
 odohclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 63ee658..10f42a5 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -195,7 +195,9 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 
 func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, error) {
 	var url string = "https://" + d.targetName + ":" + d.targetPort + ODOH_CONFIG_PATH
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
+	defer cancel()
+	req, err := http.NewRequestWithContext(ctx, http.MethodGet, url, nil)
 	if err != nil {
 		return nil, time.Time{}, err
 	}
@@ -204,6 +206,7 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	if err != nil {
 		return nil, time.Time{}, err
 	}
+	defer resp.Body.Close()
 	bodyBytes, err := readBoundedBody(resp.Body, maxDoHResponseSize)
 	if err != nil {
 		return nil, time.Time{}, err
-- 
2.43.0


From 12a13c911c73e64ad3e10cf54057edd8f15fb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:43 +0000
Subject: [PATCH 34/34] fix: don't add an ECS option without an address

---
 ecs-modifier.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecs-modifier.go b/ecs-modifier.go
index 1516145..3c6f78b 100644
--- a/ecs-modifier.go
+++ b/ecs-modifier.go
@@ -79,6 +79,12 @@ func ECSModifierAdd(addr net.IP, prefix4, prefix6 uint8) ECSModifierFunc {
 			sourceIP = ci.SourceIP
 		}
 
+		// Queries that aren't from a client, like those from prefetching, have
+		// no address to send.
+		if len(sourceIP) == 0 {
+			return
+		}
+
 		var (
 			family uint16
 			mask   uint8
-- 
2.43.0

