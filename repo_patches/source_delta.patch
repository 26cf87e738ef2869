From 76cfc35249a4aed60bb8fd8e51731a62c7e7ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:57 +0000
Subject: [PATCH 01/45] fix: do not treat an escaped dot as a label boundary
 below a cached NXDOMAIN

---
 cache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cache.go b/cache.go
index 792130d..e0ad65c 100644
--- a/cache.go
+++ b/cache.go
@@ -4,7 +4,6 @@ import (
 	"expvar"
 	"math"
 	"math/rand"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -303,9 +302,9 @@ func (r *Cache) answerFromCache(q *dns.Msg) (*dns.Msg, bool, bool) {
 	if r.HardenBelowNXDOMAIN {
 		name := q.Question[0].Name
 		newQ := q.Copy()
-		fragments := strings.Split(name, ".")
-		for i := 1; i < len(fragments)-1; i++ {
-			newQ.Question[0].Name = strings.Join(fragments[i:], ".")
+		labels := dns.Split(name) // start of each label, a "." in a label is escaped
+		for i := 1; i < len(labels); i++ {
+			newQ.Question[0].Name = name[labels[i]:]
 			if a, _, ok := r.backend.Lookup(newQ); ok {
 				if a.Rcode == dns.RcodeNameError {
 					return nxdomain(q), false, true
-- 
2.43.0


From 73f4a8d834340edef872f63fce7568bb03b1bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:01 +0000
Subject: [PATCH 02/45] fix: treat the Redis key prefix literally when flushing
 the cache

---
 cache-redis.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cache-redis.go b/cache-redis.go
index b183347..899b6ee 100644
--- a/cache-redis.go
+++ b/cache-redis.go
@@ -40,6 +40,9 @@ const (
 	flagPrefetchBit     = 1 << 0
 )
 
+// Escapes the characters that have a meaning in a Redis glob-style pattern.
+var redisGlobEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 // encodeCacheAnswer encodes a cacheAnswer into a compact binary format:
 // - byte 0: version (1)
 // - byte 1: flags (bit0: prefetchEligible)
@@ -217,10 +220,11 @@ func (b *redisBackend) Flush() {
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
 	defer cancel()
 	// DEL takes literal key names, not glob patterns, so iterate with
-	// SCAN and delete the matches in batches.
+	// SCAN and delete the matches in batches. The prefix is literal too.
+	pattern := redisGlobEscaper.Replace(b.opt.KeyPrefix) + "*"
 	var cursor uint64
 	for {
-		keys, next, err := b.client.Scan(ctx, cursor, b.opt.KeyPrefix+"*", 1000).Result()
+		keys, next, err := b.client.Scan(ctx, cursor, pattern, 1000).Result()
 		if err != nil {
 			Log.Error("failed to scan keys in redis", "error", err)
 			return
-- 
2.43.0


From a1740acc8ef9af511155777ab42a9d299546045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:01 +0000
Subject: [PATCH 03/45] fix: apply the query deadline to Redis reads and writes

---
 cache-redis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache-redis.go b/cache-redis.go
index 899b6ee..b9203c2 100644
--- a/cache-redis.go
+++ b/cache-redis.go
@@ -123,6 +123,9 @@ func decodeCacheAnswer(b []byte) (*cacheAnswer, error) {
 }
 
 func NewRedisBackend(opt RedisBackendOptions) *redisBackend {
+	// Without this the client ignores the deadlines set on the contexts below,
+	// and a stalled server holds up queries for its own, much longer, timeouts.
+	opt.RedisOptions.ContextTimeoutEnabled = true
 	b := &redisBackend{
 		client:        redis.NewClient(&opt.RedisOptions),
 		opt:           opt,
-- 
2.43.0


From 9848eacaa15701a45f46af2252593600c2c4899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:44 +0000
Subject: [PATCH 04/45] fix: try all fail-back resolvers when reset-after is
 negative

With a negative reset-after, which is documented as switching back
immediately, the reset timer moved the group back to the first resolver
in the middle of a query. That query was then sent to failing resolvers
again and never reached the remaining ones.
---
 failback.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/failback.go b/failback.go
index d66e9e5..f89ade5 100644
--- a/failback.go
+++ b/failback.go
@@ -104,9 +104,9 @@ func (r *FailBack) String() string {
 
 // Thread-safe method to return the currently active resolver.
 func (r *FailBack) current(attempt int) (Resolver, int) {
-	// With ResetAfter set to 0, simply iterate through the list of
+	// With ResetAfter set to 0 or less, simply iterate through the list of
 	// resolvers on a per-request basis.
-	if r.opt.ResetAfter == 0 {
+	if r.opt.ResetAfter <= 0 {
 		return r.resolvers[attempt], attempt
 	}
 	r.mu.RLock()
@@ -119,9 +119,9 @@ func (r *FailBack) current(attempt int) (Resolver, int) {
 // requests. Another request could have initiated the failover already. So ignore if i is not
 // (no longer) the active store.
 func (r *FailBack) errorFrom(i int) {
-	// If ResetAfter is set to 0, we fail-over to the next resolver, but
-	// only for this single request. It won't affect any other requests.
-	if r.opt.ResetAfter == 0 {
+	// If ResetAfter is set to 0 or less, we fail-over to the next resolver,
+	// but only for this single request. It won't affect any other requests.
+	if r.opt.ResetAfter <= 0 {
 		return
 	}
 	r.mu.Lock()
-- 
2.43.0


From 01295ee105369c0d21a16a55eae89f22faf7ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:50 +0000
Subject: [PATCH 05/45] fix: ask each resolver of a random group at most once
 per query

With a reset-after shorter than the time failing resolvers take, or a
negative one, resolvers were back in the group while the same query was
still being retried. If all of them failed, the query never ended.
---
 random.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/random.go b/random.go
index 6d648bb..3b9d976 100644
--- a/random.go
+++ b/random.go
@@ -3,6 +3,7 @@ package rdns
 import (
 	"errors"
 	"math/rand"
+	"slices"
 	"sync"
 	"time"
 
@@ -49,8 +50,11 @@ func NewRandom(id string, opt RandomOptions, resolvers ...Resolver) *Random {
 // Resolve a DNS query using a random resolver.
 func (r *Random) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	log := logger(r.id, q, ci)
+	// Resolvers that failed this query. They may be re-activated while the
+	// query is still being retried and must not be picked again.
+	var failed []Resolver
 	for {
-		resolver := r.pick()
+		resolver := r.pick(failed)
 		if resolver == nil {
 			log.Warn("no active resolvers left")
 			return nil, errors.New("no active resolvers left")
@@ -66,6 +70,7 @@ func (r *Random) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			"error", err)
 		r.metrics.failure.Add(resolver.String(), 1)
 		r.deactivate(resolver)
+		failed = append(failed, resolver)
 	}
 }
 
@@ -73,17 +78,26 @@ func (r *Random) String() string {
 	return r.id
 }
 
-// Pick a random resolver from the list of active ones.
-func (r *Random) pick() Resolver {
+// Pick a random resolver from the list of active ones, except those in exclude.
+func (r *Random) pick(exclude []Resolver) Resolver {
 	r.mu.RLock()
 	defer r.mu.RUnlock()
 	available := len(r.resolvers)
 	r.metrics.available.Set(int64(available))
 	r.metrics.failover.Add(1)
-	if available == 0 {
+	candidates := r.resolvers
+	if len(exclude) > 0 {
+		candidates = make([]Resolver, 0, available)
+		for _, resolver := range r.resolvers {
+			if !slices.Contains(exclude, resolver) {
+				candidates = append(candidates, resolver)
+			}
+		}
+	}
+	if len(candidates) == 0 {
 		return nil
 	}
-	return r.resolvers[rand.Intn(available)]
+	return candidates[rand.Intn(len(candidates))]
 }
 
 // Remove the resolver from the list of active ones and schedule it to
-- 
2.43.0


From 275a4f1d9c953a5e0fb998a594705bfb6b5cf681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:33 +0000
Subject: [PATCH 06/45] fix: tell client subnets of different families apart
 when merging queries

An all-zero IPv4 subnet and an all-zero IPv6 subnet of the same prefix
length had the same key, as had a subnet of length 0 and none at all, so
that one client was given the response meant for the other.
---
 request-dedup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request-dedup.go b/request-dedup.go
index ce551b4..0ec10e3 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -14,6 +14,7 @@ type dedupKey struct {
 	qclass      uint16
 	do          bool
 	cd          bool
+	ecs_family  uint16
 	ecs_ipv4    uint32
 	ecs_ipv6_hi uint64
 	ecs_ipv6_lo uint64
@@ -50,6 +51,7 @@ func NewRequestDedup(id string, resolver Resolver) *requestDedup {
 
 func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	var (
+		ecsFamily            uint16
 		ecsIPv4              uint32
 		ecsIPv6Lo, ecsIPv6Hi uint64
 		ecsMask              uint8
@@ -65,6 +67,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			if !ok {
 				continue
 			}
+			ecsFamily = ecs.Family
 			switch ecs.Family {
 			case 1: // ip4
 				ecsIPv4 = byteToUint32(ecs.Address.To4())
@@ -82,6 +85,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		qclass:      q.Question[0].Qclass,
 		do:          do,
 		cd:          q.CheckingDisabled,
+		ecs_family:  ecsFamily,
 		ecs_ipv4:    ecsIPv4,
 		ecs_ipv6_hi: ecsIPv6Hi,
 		ecs_ipv6_lo: ecsIPv6Lo,
-- 
2.43.0


From 3cb24b9f4a5635fd6bab39c6036bd8e330c4d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:56 +0000
Subject: [PATCH 07/45] fix: give synthesized AAAA records the owner name of
 the A record

Behind a chain of aliases they were given the name in the question, so the
response had an alias and an address for the same name and the end of the
chain had no address.
---
 dns64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns64.go b/dns64.go
index 7317eb2..0228223 100644
--- a/dns64.go
+++ b/dns64.go
@@ -168,7 +168,7 @@ func (r *DNS64) synthesizeAAAA(aAnswer *dns.Msg, question dns.Question) []dns.RR
 				ipv6 := synthesizeIPv6(prefix, ipv4)
 				aaaa = append(aaaa, &dns.AAAA{
 					Hdr: dns.RR_Header{
-						Name:   question.Name,
+						Name:   rec.Hdr.Name,
 						Rrtype: dns.TypeAAAA,
 						Class:  question.Qclass,
 						Ttl:    rec.Hdr.Ttl,
-- 
2.43.0


From acdbd046c70da35410ad0695d77952455e7a0494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:56 +0000
Subject: [PATCH 08/45] fix: don't add a client subnet when the client address
 isn't known

The option had no address, so the query could not be encoded and failed.
---
 ecs-modifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecs-modifier.go b/ecs-modifier.go
index 1516145..90a441e 100644
--- a/ecs-modifier.go
+++ b/ecs-modifier.go
@@ -78,6 +78,11 @@ func ECSModifierAdd(addr net.IP, prefix4, prefix6 uint8) ECSModifierFunc {
 		if sourceIP == nil {
 			sourceIP = ci.SourceIP
 		}
+		// Nothing to add if the client address isn't known, as is the case
+		// for queries that aren't made by a client (prefetch)
+		if sourceIP == nil {
+			return
+		}
 
 		var (
 			family uint16
-- 
2.43.0


From 16db329c5c08ba7aabe541bf7f9f96174a0547e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:56 +0000
Subject: [PATCH 09/45] fix: never claim a longer client subnet prefix than the
 client sent

The privacy operation raised the source prefix length of shorter subnets
to the configured one.
---
 ecs-modifier.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecs-modifier.go b/ecs-modifier.go
index 90a441e..4c5a4eb 100644
--- a/ecs-modifier.go
+++ b/ecs-modifier.go
@@ -171,12 +171,12 @@ func ECSModifierPrivacy(prefix4, prefix6 uint8) ECSModifierFunc {
 				beforeAddr = ecs.Address.To4()
 				afterAddr = beforeAddr.Mask(net.CIDRMask(int(prefix4), 32))
 				ecs.Address = afterAddr
-				ecs.SourceNetmask = prefix4
+				ecs.SourceNetmask = min(ecs.SourceNetmask, prefix4)
 			case 2: // ip6
 				beforeAddr = ecs.Address
 				afterAddr = beforeAddr.Mask(net.CIDRMask(int(prefix6), 128))
 				ecs.Address = afterAddr
-				ecs.SourceNetmask = prefix6
+				ecs.SourceNetmask = min(ecs.SourceNetmask, prefix6)
 			}
 			hasECS = true
 		}
-- 
2.43.0


From 48d48ba4e5ba7418b023aad31a2423a492e7dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:01 +0000
Subject: [PATCH 10/45] fix: keep all addresses when moving the fastest one to
 the front

When the fastest address was neither the first nor the last one, it ended up
in the response twice and the last address was lost.
---
 fastest-tcp.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fastest-tcp.go b/fastest-tcp.go
index 1cd045e..ec0c477 100644
--- a/fastest-tcp.go
+++ b/fastest-tcp.go
@@ -145,16 +145,18 @@ func (r *FastestTCP) probeFastest(log queryLogger, rrs []dns.RR) ([]dns.RR, erro
 	resultCh := r.probe(ctx, log, rrs)
 	select {
 	case res := <-resultCh:
+		if res.err != nil {
+			return nil, res.err
+		}
 		// Re-order the list in-place to put the fastest at the top
-		rr := res.rr
-		err := res.err
-		for i := range rrs {
-			if rrs[i] == rr {
-				return rrs, err
+		for i, rr := range rrs {
+			if rr == res.rr {
+				copy(rrs[1:i+1], rrs[:i])
+				rrs[0] = rr
+				break
 			}
-			rrs[i], rr = rr, rrs[i]
 		}
-		return rrs, err
+		return rrs, nil
 	case <-ctx.Done():
 		return nil, ctx.Err()
 	}
-- 
2.43.0


From 14055afa8822f0ff12943302d19c51d4acaf96ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:04 +0000
Subject: [PATCH 11/45] fix: ignore blank lines and comments in domain
 blocklists

A blank line in a domain list was loaded as a rule for the root name, so
queries for "." were blocked. Comment lines were loaded as rules as well.
---
 blocklistdb-domain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blocklistdb-domain.go b/blocklistdb-domain.go
index e036144..4009367 100644
--- a/blocklistdb-domain.go
+++ b/blocklistdb-domain.go
@@ -69,6 +69,9 @@ func newDomainDB(name string, loader BlocklistLoader, includeSubdomains bool) (*
 	root := make(node)
 	for _, r := range rules {
 		r = strings.TrimSpace(r)
+		if r == "" || strings.HasPrefix(r, "#") {
+			continue
+		}
 
 		// Strip trailing . in case the list has FQDN names with . suffixes.
 		r = strings.TrimSuffix(r, ".")
-- 
2.43.0


From 9d4d56afe4cbd0ca266eebbd360dd304a5cf9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:04 +0000
Subject: [PATCH 12/45] fix: match IPv4-mapped networks in CIDR blocklists

A network such as ::ffff:10.0.0.0/104 was put into the IPv4 tree with its
128-bit prefix and could never match.
---
 cidr-db.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cidr-db.go b/cidr-db.go
index 611a9a0..ca28283 100644
--- a/cidr-db.go
+++ b/cidr-db.go
@@ -41,11 +41,17 @@ func NewCidrDB(name string, loader BlocklistLoader) (*CidrDB, error) {
 				r += "/128"
 			}
 		}
-		ip, n, err := net.ParseCIDR(r)
+		_, n, err := net.ParseCIDR(r)
 		if err != nil {
 			return nil, err
 		}
-		if addr := ip.To4(); addr == nil {
+		// IPv4 networks in IPv4-mapped notation are looked up as IPv4
+		if ones, bits := n.Mask.Size(); bits == 128 && ones >= 96 {
+			if addr := n.IP.To4(); addr != nil {
+				n = &net.IPNet{IP: addr, Mask: net.CIDRMask(ones-96, 32)}
+			}
+		}
+		if len(n.IP) == net.IPv6len {
 			db.ip6.add(n)
 		} else {
 			db.ip4.add(n)
-- 
2.43.0


From fce121bc2d94d25e245c3ad8696b243b0af5666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:27 +0000
Subject: [PATCH 13/45] fix: DoH and ODoH clients return answers with the ID of
 the query

The ID in the response of a DoH upstream was passed on unchecked. A client
ignores an answer with an ID other than that of its query. All other
resolvers set the ID already.
---
 dohclient.go  | 3 +++
 odohclient.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/dohclient.go b/dohclient.go
index 53a4297..ff56b07 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -313,6 +313,9 @@ func (d *DoHClient) responseFromHTTP(q *dns.Msg, resp *http.Response) (*dns.Msg,
 		d.metrics.err.Add("question", 1)
 		return nil, err
 	}
+	// HTTP matches the response to the request, the ID in it carries no
+	// information. Make sure the answer has the ID of the query.
+	a.Id = q.Id
 	d.metrics.response.Add(rCode(a), 1)
 	return a, nil
 }
diff --git a/odohclient.go b/odohclient.go
index 8c43b45..f777c02 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -136,6 +136,7 @@ func (d *ODoHClient) decodeProxyResponse(q *dns.Msg, resp *http.Response, queryC
 		d.proxy.metrics.err.Add("question", 1)
 		return nil, err
 	}
+	a.Id = q.Id
 	d.proxy.metrics.response.Add(rCode(a), 1)
 	return a, nil
 }
-- 
2.43.0


From 3af26645568784aee37c3085b759ae5eccc2fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:57 +0000
Subject: [PATCH 14/45] fix: apply allowed-net to oblivious queries and proxy
 requests

The ODoH listener only checked the client's address for regular DoH
queries. Oblivious queries and requests to the proxy were accepted from
anywhere.
---
 odohlistener.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/odohlistener.go b/odohlistener.go
index c315081..b0a5864 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -120,6 +120,11 @@ func (s *ODoHListener) ODoHproxyHandler(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, "client not allowed", http.StatusForbidden)
+		return
+	}
+
 	host := r.URL.Query().Get("targethost")
 	if host == "" {
 		http.Error(w, "no targethost specified", http.StatusBadRequest)
@@ -231,16 +236,21 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
-	a, err := s.r.Resolve(q, ClientInfo{
-		Listener:      s.id,
-		TLSServerName: r.TLS.ServerName,
-		Protocol:      "odoh",
-		ListenerAddr:  s.addr,
-	})
-	if err != nil {
-		Log.Warn("failed to resolve", "error", err)
-		a = new(dns.Msg)
-		a.SetRcode(q, dns.RcodeServerFailure)
+	a := new(dns.Msg)
+	if isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		a, err = s.r.Resolve(q, ClientInfo{
+			Listener:      s.id,
+			TLSServerName: r.TLS.ServerName,
+			Protocol:      "odoh",
+			ListenerAddr:  s.addr,
+		})
+		if err != nil {
+			Log.Warn("failed to resolve", "error", err)
+			a = new(dns.Msg)
+			a.SetRcode(q, dns.RcodeServerFailure)
+		}
+	} else {
+		a.SetRcode(q, dns.RcodeRefused)
 	}
 
 	// A nil response from the resolvers means "drop", return blank response
-- 
2.43.0


From 09c1b41449f067639e4fbd2b8ddd500a5ee69aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:21 +0000
Subject: [PATCH 15/45] fix: apply the query timeout when fetching the ODoH
 target's key

Without it, a target that doesn't respond blocks this and all following
queries forever. Also close the body of the response.
---
 odohclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index f777c02..18a26ae 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -191,7 +191,9 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 
 func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, error) {
 	var url string = "https://" + d.targetName + ":" + d.targetPort + ODOH_CONFIG_PATH
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
+	defer cancel()
+	req, err := http.NewRequestWithContext(ctx, http.MethodGet, url, nil)
 	if err != nil {
 		return nil, time.Time{}, err
 	}
@@ -200,6 +202,7 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	if err != nil {
 		return nil, time.Time{}, err
 	}
+	defer resp.Body.Close()
 	bodyBytes, err := readBoundedBody(resp.Body, maxDoHResponseSize)
 	if err != nil {
 		return nil, time.Time{}, err
-- 
2.43.0


From 766d2b898c36ebb69db9ae12ed6864d71f21bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:41 +0000
Subject: [PATCH 16/45] fix: don't panic on ODoH target configs without a
 usable key

The first config of the list was used without checking if there is one,
so a target that only offers newer versions crashed the process. The
library also panics if an entry is longer than the list.
---
 odohclient.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/odohclient.go b/odohclient.go
index 18a26ae..f59d4e8 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"context"
+	"encoding/binary"
 	"encoding/hex"
 	"errors"
 	"fmt"
@@ -178,7 +179,7 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to decode odohConfig: %w", err)
 		}
-		odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(configBytes)
+		odohConfigs, err := unmarshalODoHConfigs(configBytes)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal odohConfig: %w", err)
 		}
@@ -207,13 +208,36 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	if err != nil {
 		return nil, time.Time{}, err
 	}
-	odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(bodyBytes)
+	odohConfigs, err := unmarshalODoHConfigs(bodyBytes)
 	expiry := time.Now().Add(24 * time.Hour)
 
-	if err != nil || len(odohConfigs.Marshal()) < 1 {
+	if err != nil {
 		Log.Warn("Could not load the targets ODoH config")
 		return nil, time.Time{}, err
 	}
 	Log.Info("Successfully loaded ODoH config", "config", fmt.Sprintf("%x", odohConfigs.Marshal()))
 	return &odohConfigs.Configs[0], expiry, err
 }
+
+// Decode a list of target configs, which has at least one supported config if
+// no error is returned. The structure is checked first because the library
+// panics if an entry extends beyond the end of the list.
+func unmarshalODoHConfigs(b []byte) (odoh.ObliviousDoHConfigs, error) {
+	if len(b) < 2 || len(b)-2 != int(binary.BigEndian.Uint16(b)) {
+		return odoh.ObliviousDoHConfigs{}, errors.New("invalid length of odoh configs")
+	}
+	for rest := b[2:]; len(rest) > 0; {
+		if len(rest) < 4 || len(rest)-4 < int(binary.BigEndian.Uint16(rest[2:])) {
+			return odoh.ObliviousDoHConfigs{}, errors.New("invalid length of odoh config")
+		}
+		rest = rest[4+int(binary.BigEndian.Uint16(rest[2:])):]
+	}
+	configs, err := odoh.UnmarshalObliviousDoHConfigs(b)
+	if err != nil {
+		return odoh.ObliviousDoHConfigs{}, err
+	}
+	if len(configs.Configs) == 0 {
+		return odoh.ObliviousDoHConfigs{}, errors.New("no supported odoh config")
+	}
+	return configs, nil
+}
-- 
2.43.0


From f22203e2187789d59696b6cfc4f5b978704f9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:25 +0000
Subject: [PATCH 17/45] fix: don't panic on malformed ODoH responses

The library that decodes them does not check all lengths, so that a few
bytes from the proxy were enough to crash the process.
---
 odohclient.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/odohclient.go b/odohclient.go
index f59d4e8..c75939b 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -118,14 +118,8 @@ func (d *ODoHClient) decodeProxyResponse(q *dns.Msg, resp *http.Response, queryC
 		}
 		return nil, err
 	}
-	odohQueryResponse, err := odoh.UnmarshalDNSMessage(rb)
+	decryptedResponse, err := d.decryptResponse(rb, queryContext)
 	if err != nil {
-		d.proxy.metrics.err.Add("decode", 1)
-		return nil, err
-	}
-	decryptedResponse, err := queryContext.OpenAnswer(odohQueryResponse)
-	if err != nil {
-		d.proxy.metrics.err.Add("decrypt", 1)
 		return nil, err
 	}
 	a := new(dns.Msg)
@@ -142,6 +136,28 @@ func (d *ODoHClient) decodeProxyResponse(q *dns.Msg, resp *http.Response, queryC
 	return a, nil
 }
 
+// Decode and decrypt an ODoH response message. The library doesn't check all the
+// lengths in the message and panics on some of those that are malformed.
+func (d *ODoHClient) decryptResponse(b []byte, queryContext odoh.QueryContext) (msg []byte, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			d.proxy.metrics.err.Add("decode", 1)
+			err = fmt.Errorf("malformed odoh response: %v", r)
+		}
+	}()
+	odohQueryResponse, err := odoh.UnmarshalDNSMessage(b)
+	if err != nil {
+		d.proxy.metrics.err.Add("decode", 1)
+		return nil, err
+	}
+	decryptedResponse, err := queryContext.OpenAnswer(odohQueryResponse)
+	if err != nil {
+		d.proxy.metrics.err.Add("decrypt", 1)
+		return nil, err
+	}
+	return decryptedResponse, nil
+}
+
 // Modify a DoH request for proxy-use. The URL and headers need to be updated.
 func (d *ODoHClient) customizeRequest(req *http.Request) {
 	req.Header.Set("content-type", ODOH_CONTENT_TYPE)
-- 
2.43.0


From 9d254aab5ff99f0da575704202d77c895090b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:17 +0000
Subject: [PATCH 18/45] fix: don't crash when a query received over DoQ is
 dropped

Resolvers return a nil response without an error to drop a query. The
DoQ listener tried to encode that.
---
 doqlistener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doqlistener.go b/doqlistener.go
index 7c6458e..66b5676 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -268,6 +268,12 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		a.SetRcode(q, dns.RcodeServerFailure)
 	}
 
+	// A nil response from the resolvers means "drop", close the stream
+	if a == nil {
+		s.metrics.drop.Add(1)
+		return
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
-- 
2.43.0


From 26b16c58c7accba49f5f62579d298f5cbc75bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:16 +0000
Subject: [PATCH 19/45] fix: accept UDP responses up to the size announced in
 the query

---
 dnsclient.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dnsclient.go b/dnsclient.go
index 3686a39..11e87ee 100644
--- a/dnsclient.go
+++ b/dnsclient.go
@@ -138,7 +138,9 @@ func (d GenericDNSClient) Dial(address string) (*dns.Conn, error) {
 
 	var (
 		conn = &dns.Conn{
-			UDPSize: 4096,
+			// Queries are sent with the size announced by the client, so
+			// be prepared for responses of any size.
+			UDPSize: dns.MaxMsgSize,
 		}
 		err error
 	)
-- 
2.43.0


From b13aa7385d861ee851bfe124f717094260c1dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:00 +0000
Subject: [PATCH 20/45] fix: read messages over 4096 bytes from DTLS
 connections

---
 dtlslistener.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtlslistener.go b/dtlslistener.go
index 48b17e3..916bfd7 100644
--- a/dtlslistener.go
+++ b/dtlslistener.go
@@ -96,6 +96,9 @@ func (l dtlsListener) Accept() (net.Conn, error) {
 	return &dtlsConn{Conn: conn}, err
 }
 
+// Largest amount of data in a DTLS record, which carries one DNS message.
+const maxDTLSRecordSize = 1 << 14
+
 // dtlsConn wraps a dtls.Conn to support partial read operations. While
 // github.com/pion/dtls/v3 returns a net.Conn, that Read() fails on
 // slices that are smaller than the data available. This wrapper adds a
@@ -112,7 +115,7 @@ func (c *dtlsConn) Read(b []byte) (int, error) {
 		err error
 	)
 	if c.buf == nil || c.buf.Len() == 0 {
-		tmp := make([]byte, 4096)
+		tmp := make([]byte, maxDTLSRecordSize)
 		n, err = c.Conn.Read(tmp)
 		c.buf = bytes.NewBuffer(tmp[:n])
 	}
-- 
2.43.0


From b3cab0e4de61004403c57f45da9c538db90298c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:38 +0000
Subject: [PATCH 21/45] fix: don't panic if a DNSKEY or DS lookup is dropped by
 the resolver

---
 dnssec/validator.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 10a019e..f5b4cdb 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -303,6 +303,16 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	return fetchedZSK, fetchedKSK, nil
 }
 
+// lookup sends a query to the resolver. Queries that were dropped, without
+// error or response, are reported as errors.
+func (v *Validator) lookup(q *dns.Msg) (*dns.Msg, error) {
+	a, err := v.resolver(q)
+	if err == nil && a == nil {
+		return nil, fmt.Errorf("no response for %s/%s", q.Question[0].Name, dns.TypeToString[q.Question[0].Qtype])
+	}
+	return a, err
+}
+
 // lookupDNSKEY queries for DNSKEY records for the given zone and returns
 // the ZSKs, KSKs, and RRSIGs from the response.
 func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*dns.RRSIG, err error) {
@@ -310,7 +320,7 @@ func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*d
 	q.SetQuestion(dns.CanonicalName(name), dns.TypeDNSKEY)
 	q.SetEdns0(4096, true)
 	q.MsgHdr.CheckingDisabled = true
-	a, err := v.resolver(q)
+	a, err := v.lookup(q)
 	if err != nil {
 		return nil, nil, nil, err
 	}
@@ -341,7 +351,7 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	q.SetQuestion(dns.CanonicalName(name), dns.TypeDS)
 	q.SetEdns0(4096, true)
 	q.MsgHdr.CheckingDisabled = true
-	a, err := v.resolver(q)
+	a, err := v.lookup(q)
 	if err != nil {
 		return nil, nil, nil, err
 	}
-- 
2.43.0


From a877085f0b85a16c2bd4d69d747f2ecc8bb79bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:41 +0000
Subject: [PATCH 22/45] fix: clear the AD bit of responses that were not
 validated

---
 dnssec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnssec.go b/dnssec.go
index 091e3b9..ab74d53 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -124,6 +124,10 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, err
 	}
 
+	// The AD bit is only set for responses validated here, don't trust the
+	// one from upstream.
+	answer.AuthenticatedData = false
+
 	// Only validate successful responses
 	if answer.Rcode != dns.RcodeSuccess && answer.Rcode != dns.RcodeNameError {
 		stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
-- 
2.43.0


From 0b636eab92a605c148b3ae893ad350c46e9b5af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:44 +0000
Subject: [PATCH 23/45] fix: validate all RRsets of answers that are in part
 from unsigned zones

---
 dnssec/validator.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index f5b4cdb..8507585 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -91,21 +91,32 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
+	// All RRsets have to be checked, even if one is in an unsigned zone.
+	var insecure error
 	for key, rrset := range rrsets {
-		rrsigs := sigs[key]
-		if len(rrsigs) == 0 {
-			// Check if this is an insecure delegation by looking for DS in parent
-			zone := rrset[0].Header().Name
-			if err := v.checkInsecureDelegation(zone); err != nil {
-				return err
-			}
-			return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		if errors.Is(err, ErrInsecureDelegation) {
+			insecure = err
+			continue
 		}
-		if err := v.validateRRset(rrset, rrsigs); err != nil {
+		if err != nil {
 			return err
 		}
 	}
-	return nil
+	return insecure
+}
+
+// validateAnswerRRset validates one RRset of the answer section.
+func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
+	if len(rrsigs) == 0 {
+		// Check if this is an insecure delegation by looking for DS in parent
+		zone := rrset[0].Header().Name
+		if err := v.checkInsecureDelegation(zone); err != nil {
+			return err
+		}
+		return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+	}
+	return v.validateRRset(rrset, rrsigs)
 }
 
 // checkInsecureDelegation walks the delegation chain from the root toward
-- 
2.43.0


From 36a00f6e17a206d2a5533d32a0aaa9cf729f0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:19 +0000
Subject: [PATCH 24/45] fix: validate zones with a single key or keys with
 other flags

---
 dnssec/denial_existence.go |  4 +--
 dnssec/validator.go        | 53 +++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 482479d..67173bd 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -82,11 +82,11 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 		if !dns.IsSubDomain(signer, qname) {
 			continue
 		}
-		zsk, _, err := v.buildChainOfTrust(signer)
+		keys, err := v.zoneKeys(signer)
 		if err != nil {
 			continue
 		}
-		if verifyRRSIG(sig, zsk, rrset, v.now()) == nil {
+		if verifyRRSIG(sig, keys, rrset, v.now()) == nil {
 			return true
 		}
 	}
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 8507585..55ff330 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -156,14 +156,14 @@ func (v *Validator) proveNoDS(zone string) (bool, error) {
 		return false, nil
 	}
 	parent := parentZone(zone)
-	parentZSK, _, err := v.buildChainOfTrust(parent)
+	parentKeys, err := v.zoneKeys(parent)
 	if err != nil {
 		if errors.Is(err, ErrInsecureDelegation) {
 			return true, nil
 		}
 		return false, err
 	}
-	if err := verifyDSDenial(resp, zone, parentZSK, v.now()); err != nil {
+	if err := verifyDSDenial(resp, zone, parentKeys, v.now()); err != nil {
 		return false, err
 	}
 	return true, nil
@@ -189,12 +189,12 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 			lastErr = fmt.Errorf("%w: %s cannot sign %s", ErrSignerOutOfBailiwick, signer, owner)
 			continue
 		}
-		zsk, _, err := v.buildChainOfTrust(signer)
+		keys, err := v.zoneKeys(signer)
 		if err != nil {
 			lastErr = err
 			continue
 		}
-		if err := verifyRRSIG(sig, zsk, rrset, v.now()); err != nil {
+		if err := verifyRRSIG(sig, keys, rrset, v.now()); err != nil {
 			lastErr = err
 			continue
 		}
@@ -203,6 +203,13 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 	return lastErr
 }
 
+// zoneKeys returns all validated keys of a zone. While zones often have separate
+// keys to sign keys and data, any zone key can sign data (RFC 4034 §2.1.1).
+func (v *Validator) zoneKeys(zone string) ([]*dns.DNSKEY, error) {
+	zsk, ksk, err := v.buildChainOfTrust(zone)
+	return slices.Concat(zsk, ksk), err
+}
+
 // buildChainOfTrust recursively builds a DNSSEC chain of trust from
 // the root trust anchor down to the specified zone. It returns the
 // validated ZSK and KSK for the zone.
@@ -215,20 +222,12 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Fetch DNSKEY records for this zone
-	fetchedZSK, fetchedKSK, dnsSigs, err := v.lookupDNSKEY(zone)
+	fetchedZSK, fetchedKSK, allKeys, dnsSigs, err := v.lookupDNSKEY(zone)
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to lookup DNSKEY for %s: %w", zone, err)
 	}
-	if len(fetchedKSK) == 0 {
-		return nil, nil, fmt.Errorf("%w: no KSK for %s", ErrNoKey, zone)
-	}
-
-	allKeys := make([]dns.RR, 0, len(fetchedZSK)+len(fetchedKSK))
-	for _, k := range fetchedZSK {
-		allKeys = append(allKeys, k)
-	}
-	for _, k := range fetchedKSK {
-		allKeys = append(allKeys, k)
+	if len(fetchedZSK)+len(fetchedKSK) == 0 {
+		return nil, nil, fmt.Errorf("%w: no keys for %s", ErrNoKey, zone)
 	}
 
 	// Obtain authenticated DS records for this zone — from the configured
@@ -250,13 +249,13 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		}
 
 		parent := parentZone(zone)
-		parentZSK, _, err := v.buildChainOfTrust(parent)
+		parentKeys, err := v.zoneKeys(parent)
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
 		}
 
 		if len(dsRecords) == 0 {
-			if err := verifyDSDenial(dsResp, zone, parentZSK, v.now()); err != nil {
+			if err := verifyDSDenial(dsResp, zone, parentKeys, v.now()); err != nil {
 				return nil, nil, err
 			}
 			return nil, nil, fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
@@ -271,7 +270,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		}
 		var verified bool
 		for _, dsSig := range dsSigs {
-			if err := verifyRRSIG(dsSig, parentZSK, dsRRset, v.now()); err == nil {
+			if err := verifyRRSIG(dsSig, parentKeys, dsRRset, v.now()); err == nil {
 				verified = true
 				break
 			}
@@ -284,9 +283,9 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	// RFC 4035 §5.2: the DNSKEY RRset must be signed by a key that itself
 	// chains to an authenticated DS. Restrict candidate signing keys to
 	// those matching a DS before accepting the self-signature.
-	trustedKSK := filterKeysByDS(fetchedKSK, dsRecords)
-	if len(trustedKSK) == 0 {
-		return nil, nil, fmt.Errorf("KSK doesn't match DS for %s: %w", zone, ErrDSMismatch)
+	trustedKeys := filterKeysByDS(slices.Concat(fetchedZSK, fetchedKSK), dsRecords)
+	if len(trustedKeys) == 0 {
+		return nil, nil, fmt.Errorf("key doesn't match DS for %s: %w", zone, ErrDSMismatch)
 	}
 
 	var sigSeen, sigVerified bool
@@ -295,7 +294,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 			continue
 		}
 		sigSeen = true
-		if err := verifyRRSIG(sig, trustedKSK, allKeys, v.now()); err == nil {
+		if err := verifyRRSIG(sig, trustedKeys, allKeys, v.now()); err == nil {
 			sigVerified = true
 			break
 		}
@@ -325,22 +324,24 @@ func (v *Validator) lookup(q *dns.Msg) (*dns.Msg, error) {
 }
 
 // lookupDNSKEY queries for DNSKEY records for the given zone and returns
-// the ZSKs, KSKs, and RRSIGs from the response.
-func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*dns.RRSIG, err error) {
+// the ZSKs, KSKs, all keys including those with other flags (e.g. revoked ones)
+// which are needed to verify the RRset, and RRSIGs from the response.
+func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, all []dns.RR, sigs []*dns.RRSIG, err error) {
 	q := new(dns.Msg)
 	q.SetQuestion(dns.CanonicalName(name), dns.TypeDNSKEY)
 	q.SetEdns0(4096, true)
 	q.MsgHdr.CheckingDisabled = true
 	a, err := v.lookup(q)
 	if err != nil {
-		return nil, nil, nil, err
+		return nil, nil, nil, nil, err
 	}
 	if a.Rcode != dns.RcodeSuccess {
-		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
+		return nil, nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
 	for _, rr := range a.Answer {
 		switch r := rr.(type) {
 		case *dns.DNSKEY:
+			all = append(all, r)
 			switch r.Flags {
 			case 257:
 				ksk = append(ksk, r)
-- 
2.43.0


From 638ebca2e78d364bd589dca12fdb6df77d7f8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:35 +0000
Subject: [PATCH 25/45] fix: validate zones delegated several labels below
 their parent and use trust anchors below the root

---
 dnssec/denial.go    |  54 ++++++++++++++------
 dnssec/validator.go | 117 ++++++++++++++++++++++++--------------------
 2 files changed, 102 insertions(+), 69 deletions(-)

diff --git a/dnssec/denial.go b/dnssec/denial.go
index 28f723e..a038775 100644
--- a/dnssec/denial.go
+++ b/dnssec/denial.go
@@ -16,17 +16,19 @@ import (
 var ErrBogusDenial = errors.New("dnssec: unauthenticated denial of DS")
 
 // verifyDSDenial checks that resp's authority section carries NSEC or NSEC3
-// records, signed by one of the supplied parent-zone keys, that prove no DS
-// RRset exists at name. RFC 4035 §5.2 / RFC 5155 §8.
-func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now time.Time) error {
+// records, signed by one of the supplied keys of the closest signed zone above
+// name, that prove it is a delegation for which no DS RRset exists.
+// RFC 4035 §5.2 / RFC 5155 §8.
+func verifyDSDenial(resp *dns.Msg, name, zone string, zoneKeys []*dns.DNSKEY, now time.Time) error {
 	name = dns.CanonicalName(name)
 	rrsets, sigs := groupRRsByTypeAndName(resp.Ns)
 
+	var nsec3s []*dns.NSEC3
 	for key, rrset := range rrsets {
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		if !verifyAnyRRSIG(sigs[key], parentKeys, rrset, now) {
+		if !verifyAnyRRSIG(sigs[key], zoneKeys, rrset, now) {
 			continue
 		}
 		for _, rr := range rrset {
@@ -36,12 +38,13 @@ func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now ti
 					return nil
 				}
 			case *dns.NSEC3:
-				if nsec3DeniesDS(r, name) {
-					return nil
-				}
+				nsec3s = append(nsec3s, r)
 			}
 		}
 	}
+	if nsec3DeniesDS(nsec3s, name, zone) {
+		return nil
+	}
 	return fmt.Errorf("%w for %s", ErrBogusDenial, name)
 }
 
@@ -55,14 +58,29 @@ func nsecDeniesDS(r *dns.NSEC, name string) bool {
 	return bitmapProvesInsecureDelegation(r.TypeBitMap)
 }
 
-// nsec3DeniesDS reports whether the NSEC3 record proves an insecure
+// nsec3DeniesDS reports whether the NSEC3 records of zone prove an insecure
 // delegation at name, either by an exact hash match with NS-but-no-DS, or by
-// an opt-out span covering the hashed name (RFC 5155 §6, §8.6).
-func nsec3DeniesDS(r *dns.NSEC3, name string) bool {
-	if r.Match(name) {
-		return bitmapProvesInsecureDelegation(r.TypeBitMap)
+// an opt-out span covering the hash of the next closer name, which is one label
+// below the closest ancestor of name that is in the zone (RFC 5155 §6, §8.6).
+func nsec3DeniesDS(nsec3s []*dns.NSEC3, name, zone string) bool {
+	for _, r := range nsec3s {
+		if r.Match(name) {
+			return bitmapProvesInsecureDelegation(r.TypeBitMap)
+		}
 	}
-	return r.Flags&1 != 0 && r.Cover(name)
+	next := name
+	for n := dns.CountLabel(name) - 1; n > dns.CountLabel(zone); n-- {
+		encloser := lastNLabels(name, n)
+		if i := slices.IndexFunc(nsec3s, func(r *dns.NSEC3) bool { return r.Match(encloser) }); i >= 0 {
+			// Names below a delegation aren't in this zone
+			if bitmapIsDelegation(nsec3s[i].TypeBitMap) {
+				return false
+			}
+			break
+		}
+		next = encloser
+	}
+	return nsec3OptOutCovers(nsec3s, next)
 }
 
 // bitmapProvesInsecureDelegation reports whether an NSEC/NSEC3 type bitmap at
@@ -70,7 +88,11 @@ func nsec3DeniesDS(r *dns.NSEC3, name string) bool {
 // absent. SOA present would mean we are at the child apex, not the parent
 // side of the cut.
 func bitmapProvesInsecureDelegation(bitmap []uint16) bool {
-	return slices.Contains(bitmap, dns.TypeNS) &&
-		!slices.Contains(bitmap, dns.TypeDS) &&
-		!slices.Contains(bitmap, dns.TypeSOA)
+	return bitmapIsDelegation(bitmap) && !slices.Contains(bitmap, dns.TypeDS)
+}
+
+// bitmapIsDelegation reports whether an NSEC/NSEC3 type bitmap is that of a
+// delegation point, on the parent side of the cut.
+func bitmapIsDelegation(bitmap []uint16) bool {
+	return slices.Contains(bitmap, dns.TypeNS) && !slices.Contains(bitmap, dns.TypeSOA)
 }
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 55ff330..bb28d5f 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -119,54 +119,59 @@ func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*
 	return v.validateRRset(rrset, rrsigs)
 }
 
-// checkInsecureDelegation walks the delegation chain from the root toward
-// name, returning ErrInsecureDelegation at the first cut where the parent
-// authentically proves (via signed NSEC/NSEC3) that no DS record exists.
+// checkInsecureDelegation walks the delegation chain from the closest trust
+// anchor toward name, returning ErrInsecureDelegation at the first cut where the
+// parent authentically proves (via signed NSEC/NSEC3) that no DS record exists.
 // An empty DS response without such proof is bogus, not insecure
 // (RFC 4035 §5.2, RFC 6840 §5.2).
 func (v *Validator) checkInsecureDelegation(name string) error {
 	name = dns.CanonicalName(name)
-	if name == "." {
-		return nil
-	}
-	labels := dns.SplitDomainName(name)
-	for i := len(labels) - 1; i >= 0; i-- {
-		zone := dns.Fqdn(strings.Join(labels[i:], "."))
-		insecure, err := v.proveNoDS(zone)
+	zone := v.closestAnchor(name)
+	for i := dns.CountLabel(zone) + 1; i <= dns.CountLabel(name); i++ {
+		child := lastNLabels(name, i)
+		signed, insecure, err := v.proveNoDS(child, zone)
 		if err != nil {
 			return err
 		}
 		if insecure {
-			return fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
+			return fmt.Errorf("%w: %s", ErrInsecureDelegation, child)
+		}
+		if signed {
+			zone = child
 		}
 	}
 	return nil
 }
 
-// proveNoDS returns true when zone has no DS RRset and that absence is
-// authenticated by the parent zone's signed NSEC/NSEC3. It returns false when
-// DS records are present, and an error when the absence cannot be
-// authenticated.
-func (v *Validator) proveNoDS(zone string) (bool, error) {
-	ds, _, resp, err := v.lookupDS(zone)
+// closestAnchor returns the longest name at or above name that has a trust
+// anchor, or the root if there is none.
+func (v *Validator) closestAnchor(name string) string {
+	for i := dns.CountLabel(name); i > 0; i-- {
+		if anchor := lastNLabels(name, i); len(v.ks.getDS(anchor)) > 0 {
+			return anchor
+		}
+	}
+	return "."
+}
+
+// proveNoDS returns insecure as true when name has no DS RRset and that absence
+// is authenticated by the signed NSEC/NSEC3 of the zone above it, proving that
+// it is an unsigned delegation. It returns signed as true if there are DS
+// records, and neither for names that aren't (proven to be) delegations. Zones
+// can be delegated several labels below their parent.
+func (v *Validator) proveNoDS(name, zone string) (signed, insecure bool, err error) {
+	ds, _, resp, err := v.lookupDS(name)
 	if err != nil {
-		return false, err
+		return false, false, err
 	}
 	if len(ds) > 0 {
-		return false, nil
+		return true, false, nil
 	}
-	parent := parentZone(zone)
-	parentKeys, err := v.zoneKeys(parent)
+	keys, err := v.zoneKeys(zone)
 	if err != nil {
-		if errors.Is(err, ErrInsecureDelegation) {
-			return true, nil
-		}
-		return false, err
+		return false, false, err
 	}
-	if err := verifyDSDenial(resp, zone, parentKeys, v.now()); err != nil {
-		return false, err
-	}
-	return true, nil
+	return false, verifyDSDenial(resp, name, zone, keys, v.now()) == nil, nil
 }
 
 // validateRRset validates a set of RRs against the provided RRSIGs by building
@@ -230,39 +235,30 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		return nil, nil, fmt.Errorf("%w: no keys for %s", ErrNoKey, zone)
 	}
 
-	// Obtain authenticated DS records for this zone — from the configured
-	// trust anchor for the root, or by recursing into the parent otherwise.
-	var dsRecords []*dns.DS
-	if zone == "." {
-		dsRecords = v.ks.getDS(".")
-		if len(dsRecords) == 0 {
+	// Obtain authenticated DS records for this zone — from a configured
+	// trust anchor, or by recursing into the parent otherwise.
+	dsRecords := v.ks.getDS(zone)
+	if len(dsRecords) == 0 {
+		if zone == "." {
 			return nil, nil, ErrNoTrustAnchor
 		}
-	} else {
-		var (
-			dsSigs []*dns.RRSIG
-			dsResp *dns.Msg
-		)
-		dsRecords, dsSigs, dsResp, err = v.lookupDS(zone)
+		var dsSigs []*dns.RRSIG
+		dsRecords, dsSigs, _, err = v.lookupDS(zone)
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to lookup DS for %s: %w", zone, err)
 		}
-
-		parent := parentZone(zone)
-		parentKeys, err := v.zoneKeys(parent)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
-		}
-
-		if len(dsRecords) == 0 {
-			if err := verifyDSDenial(dsResp, zone, parentKeys, v.now()); err != nil {
+		parent, ok := parentSigner(zone, dsSigs)
+		if !ok {
+			// No signed DS, valid only below an unsigned delegation
+			if err := v.checkInsecureDelegation(zone); err != nil {
 				return nil, nil, err
 			}
-			return nil, nil, fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
-		}
-		if len(dsSigs) == 0 {
 			return nil, nil, fmt.Errorf("%w: DS for %s", ErrNoSignature, zone)
 		}
+		parentKeys, err := v.zoneKeys(parent)
+		if err != nil {
+			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
+		}
 
 		dsRRset := make([]dns.RR, len(dsRecords))
 		for i, d := range dsRecords {
@@ -373,6 +369,9 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	)
 	if a.Rcode == dns.RcodeSuccess {
 		for _, rr := range a.Answer {
+			if dns.CanonicalName(rr.Header().Name) != dns.CanonicalName(name) {
+				continue
+			}
 			switch r := rr.(type) {
 			case *dns.DS:
 				ds = append(ds, r)
@@ -386,6 +385,18 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	return ds, sigs, a, nil
 }
 
+// parentSigner returns the parent of zone, which is the zone that signed its DS
+// records. It doesn't have to be just one label up.
+func parentSigner(zone string, dsSigs []*dns.RRSIG) (string, bool) {
+	for _, sig := range dsSigs {
+		signer := dns.CanonicalName(sig.SignerName)
+		if signer != zone && dns.IsSubDomain(signer, zone) {
+			return signer, true
+		}
+	}
+	return "", false
+}
+
 // parentZone returns the parent zone of the given zone name.
 // "example.com." → "com.", "com." → "."
 func parentZone(name string) string {
-- 
2.43.0


From 231e848ab33824e583729952002a084d7af01ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:35 +0000
Subject: [PATCH 26/45] fix: handle NSEC records for empty non-terminals

---
 dnssec/denial_existence.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 67173bd..64e4bf4 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -109,7 +109,8 @@ func nsecProvesDenial(nsecs []*dns.NSEC, qname string, qtype uint16, rcode int)
 }
 
 // nsecProvesNODATA proves that qname exists but the queried type does not, via
-// an NSEC matching qname whose bitmap lacks qtype, or via a wildcard NODATA.
+// an NSEC matching qname whose bitmap lacks qtype, via an NSEC showing that qname
+// is an empty non-terminal, or via a wildcard NODATA.
 func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 	qname = dns.CanonicalName(qname)
 
@@ -127,6 +128,10 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if !nsecCovers(cover, qname) {
 			continue
 		}
+		// Empty non-terminal: the next name is below qname.
+		if dns.IsSubDomain(qname, dns.CanonicalName(cover.NextDomain)) {
+			return true
+		}
 		wildcard := dns.CanonicalName("*." + nsecClosestEncloser(qname, cover))
 		for _, w := range nsecs {
 			if dns.CanonicalName(w.Hdr.Name) != wildcard {
@@ -148,6 +153,10 @@ func nsecProvesNXDOMAIN(nsecs []*dns.NSEC, qname string) bool {
 	covered := false
 	for _, n := range nsecs {
 		if nsecCovers(n, qname) {
+			// An empty non-terminal exists
+			if dns.IsSubDomain(qname, dns.CanonicalName(n.NextDomain)) {
+				return false
+			}
 			ce = nsecClosestEncloser(qname, n)
 			covered = true
 			break
-- 
2.43.0


From 4ef560e7f1ec97b11181f91a3d8f58149a733b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:37 +0000
Subject: [PATCH 27/45] fix: don't accept denials by records from above a zone
 cut or from several zones

---
 dnssec/denial.go           |   3 +-
 dnssec/denial_existence.go | 106 ++++++++++++++++++++++++-------------
 2 files changed, 69 insertions(+), 40 deletions(-)

diff --git a/dnssec/denial.go b/dnssec/denial.go
index a038775..56ab8ee 100644
--- a/dnssec/denial.go
+++ b/dnssec/denial.go
@@ -72,8 +72,7 @@ func nsec3DeniesDS(nsec3s []*dns.NSEC3, name, zone string) bool {
 	for n := dns.CountLabel(name) - 1; n > dns.CountLabel(zone); n-- {
 		encloser := lastNLabels(name, n)
 		if i := slices.IndexFunc(nsec3s, func(r *dns.NSEC3) bool { return r.Match(encloser) }); i >= 0 {
-			// Names below a delegation aren't in this zone
-			if bitmapIsDelegation(nsec3s[i].TypeBitMap) {
+			if bitmapExcludesBelow(nsec3s[i].TypeBitMap) {
 				return false
 			}
 			break
diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 64e4bf4..a799529 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -27,13 +27,14 @@ func (v *Validator) validateDenial(answer *dns.Msg) error {
 	qname := dns.CanonicalName(q.Name)
 	qtype := q.Qtype
 
-	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname)
-
-	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
-		return nil
-	}
-	if nsec3ProvesDenial(nsec3s, qname, qtype, answer.Rcode) {
-		return nil
+	// Records from different zones can't be combined into a proof
+	for zone, records := range v.collectVerifiedDenialRecords(answer.Ns, qname) {
+		if nsecProvesDenial(records.nsecs, qname, qtype, answer.Rcode) {
+			return nil
+		}
+		if nsec3ProvesDenial(records.nsec3s, zone, qname, qtype, answer.Rcode) {
+			return nil
+		}
 	}
 
 	// No authenticated proof of denial. Determine whether the name is in a
@@ -46,37 +47,50 @@ func (v *Validator) validateDenial(answer *dns.Msg) error {
 	return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, qname, dns.TypeToString[qtype])
 }
 
+// denialRecords are the authenticated NSEC and NSEC3 records of one zone.
+type denialRecords struct {
+	nsecs  []*dns.NSEC
+	nsec3s []*dns.NSEC3
+}
+
 // collectVerifiedDenialRecords returns the NSEC and NSEC3 records from the
 // authority section whose covering RRSIG is signed by a zone at or above qname
-// and chains to the trust anchor. Unsigned or unauthenticated records are
-// discarded so a forged proof cannot be used.
-func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) (nsecs []*dns.NSEC, nsec3s []*dns.NSEC3) {
+// and chains to the trust anchor, by zone. Unsigned or unauthenticated records
+// are discarded so a forged proof cannot be used.
+func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) map[string]*denialRecords {
+	zones := make(map[string]*denialRecords)
 	rrsets, sigs := groupRRsByTypeAndName(ns)
 	for key, rrset := range rrsets {
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		if !v.rrsetSignedFromAncestor(rrset, sigs[key], qname) {
+		zone, ok := v.rrsetSignedFromAncestor(rrset, sigs[key], qname)
+		if !ok {
 			continue
 		}
+		records, ok := zones[zone]
+		if !ok {
+			records = new(denialRecords)
+			zones[zone] = records
+		}
 		for _, rr := range rrset {
 			switch r := rr.(type) {
 			case *dns.NSEC:
-				nsecs = append(nsecs, r)
+				records.nsecs = append(records.nsecs, r)
 			case *dns.NSEC3:
-				nsec3s = append(nsec3s, r)
+				records.nsec3s = append(records.nsec3s, r)
 			}
 		}
 	}
-	return nsecs, nsec3s
+	return zones
 }
 
-// rrsetSignedFromAncestor reports whether any of the supplied RRSIGs
-// authenticates rrset under a signer at or above qname that chains to the trust
+// rrsetSignedFromAncestor returns the zone for which one of the supplied RRSIGs
+// authenticates rrset. It has to be at or above qname and chain to the trust
 // anchor. An NSEC/NSEC3 from an unrelated zone proves nothing about qname, so
 // the signer-bailiwick check is applied per signature; trying every RRSIG
 // tolerates a key rollover where the set carries more than one.
-func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname string) bool {
+func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname string) (string, bool) {
 	for _, sig := range sigs {
 		signer := dns.CanonicalName(sig.SignerName)
 		if !dns.IsSubDomain(signer, qname) {
@@ -87,10 +101,10 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 			continue
 		}
 		if verifyRRSIG(sig, keys, rrset, v.now()) == nil {
-			return true
+			return signer, true
 		}
 	}
-	return false
+	return "", false
 }
 
 // nsecProvesDenial reports whether the authenticated NSEC records prove the
@@ -119,7 +133,7 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if dns.CanonicalName(n.Hdr.Name) != qname {
 			continue
 		}
-		return !slices.Contains(n.TypeBitMap, qtype) && !slices.Contains(n.TypeBitMap, dns.TypeCNAME)
+		return bitmapDeniesType(n.TypeBitMap, qname, qtype)
 	}
 
 	// Wildcard NODATA: qname has no exact match (an NSEC covers it) but the
@@ -137,7 +151,7 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 			if dns.CanonicalName(w.Hdr.Name) != wildcard {
 				continue
 			}
-			return !slices.Contains(w.TypeBitMap, qtype) && !slices.Contains(w.TypeBitMap, dns.TypeCNAME)
+			return bitmapDeniesType(w.TypeBitMap, wildcard, qtype)
 		}
 	}
 	return false
@@ -192,7 +206,8 @@ func nsecClosestEncloser(qname string, n *dns.NSEC) string {
 
 // nsecCovers reports whether the NSEC record spans qname in canonical order,
 // i.e. owner < qname < next, accounting for the wrap-around at the zone apex
-// where next <= owner. An exact owner match is not "covered".
+// where next <= owner. An exact owner match is not "covered", nor are names
+// which the owner delegates elsewhere.
 func nsecCovers(n *dns.NSEC, qname string) bool {
 	owner := dns.CanonicalName(n.Hdr.Name)
 	next := dns.CanonicalName(n.NextDomain)
@@ -200,6 +215,10 @@ func nsecCovers(n *dns.NSEC, qname string) bool {
 	if qname == owner {
 		return false
 	}
+	// Names below a delegation or DNAME aren't in the zone (RFC 6840 §4.1)
+	if dns.IsSubDomain(owner, qname) && bitmapExcludesBelow(n.TypeBitMap) {
+		return false
+	}
 	if canonicalNameCmp(owner, next) < 0 {
 		return canonicalNameCmp(owner, qname) < 0 && canonicalNameCmp(qname, next) < 0
 	}
@@ -209,7 +228,7 @@ func nsecCovers(n *dns.NSEC, qname string) bool {
 
 // nsec3ProvesDenial reports whether the authenticated NSEC3 records prove the
 // denial for the given response code.
-func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode int) bool {
+func nsec3ProvesDenial(nsec3s []*dns.NSEC3, zone, qname string, qtype uint16, rcode int) bool {
 	if len(nsec3s) == 0 {
 		return false
 	}
@@ -217,25 +236,25 @@ func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode in
 	case dns.RcodeNameError:
 		return nsec3ProvesNXDOMAIN(nsec3s, qname)
 	case dns.RcodeSuccess:
-		return nsec3ProvesNODATA(nsec3s, qname, qtype)
+		return nsec3ProvesNODATA(nsec3s, zone, qname, qtype)
 	}
 	return false
 }
 
 // nsec3ProvesNODATA proves that qname exists but the queried type does not.
-func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
+func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, zone, qname string, qtype uint16) bool {
 	qname = dns.CanonicalName(qname)
 
 	// Direct match with the type (and CNAME) absent.
 	for _, r := range nsec3s {
 		if r.Match(qname) {
-			return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
+			return bitmapDeniesType(r.TypeBitMap, qname, qtype)
 		}
 	}
 
-	// DS NODATA via opt-out: the name is covered by an opt-out NSEC3, proving
-	// no signed DS exists (RFC 5155 §6).
-	if qtype == dns.TypeDS && nsec3OptOutCovers(nsec3s, qname) {
+	// DS NODATA via opt-out: the next closer name is covered by an opt-out
+	// NSEC3, proving no signed DS exists (RFC 5155 §6).
+	if qtype == dns.TypeDS && nsec3DeniesDS(nsec3s, qname, zone) {
 		return true
 	}
 
@@ -246,7 +265,7 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 		wildcard := "*." + ce
 		for _, r := range nsec3s {
 			if r.Match(wildcard) {
-				return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
+				return bitmapDeniesType(r.TypeBitMap, wildcard, qtype)
 			}
 		}
 	}
@@ -283,20 +302,31 @@ func nsec3ClosestEncloser(nsec3s []*dns.NSEC3, qname string) (ce, nextCloser str
 	n := dns.CountLabel(qname)
 	for k := n - 1; k >= 0; k-- {
 		candidate := lastNLabels(qname, k)
-		if nsec3MatchAny(nsec3s, candidate) {
-			return candidate, lastNLabels(qname, k+1), true
+		if i := slices.IndexFunc(nsec3s, func(r *dns.NSEC3) bool { return r.Match(candidate) }); i >= 0 {
+			// Names below a delegation or DNAME aren't in the zone
+			return candidate, lastNLabels(qname, k+1), !bitmapExcludesBelow(nsec3s[i].TypeBitMap)
 		}
 	}
 	return "", "", false
 }
 
-func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
-	for _, r := range nsec3s {
-		if r.Match(name) {
-			return true
-		}
+// bitmapDeniesType reports whether the type bitmap of an NSEC/NSEC3 at name
+// proves that there are no records of the queried type. At a delegation, only the
+// DS can be denied by the parent, and only by the parent (RFC 6840 §4.1, §4.4).
+func bitmapDeniesType(bitmap []uint16, name string, qtype uint16) bool {
+	if slices.Contains(bitmap, qtype) || slices.Contains(bitmap, dns.TypeCNAME) {
+		return false
 	}
-	return false
+	if qtype == dns.TypeDS {
+		return name == "." || !slices.Contains(bitmap, dns.TypeSOA)
+	}
+	return !bitmapIsDelegation(bitmap)
+}
+
+// bitmapExcludesBelow reports whether names below the one with this NSEC/NSEC3
+// type bitmap aren't part of the zone.
+func bitmapExcludesBelow(bitmap []uint16) bool {
+	return bitmapIsDelegation(bitmap) || slices.Contains(bitmap, dns.TypeDNAME)
 }
 
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
-- 
2.43.0


From b2412f9636687148b8ad9d785c4c125dce43583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:21 +0000
Subject: [PATCH 28/45] fix: check that validated answers match the question

---
 dnssec/denial_existence.go | 13 +++-----
 dnssec/validator.go        | 63 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index a799529..eb1856f 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -9,8 +9,8 @@ import (
 	"github.com/miekg/dns"
 )
 
-// validateDenial authenticates a negative response (NXDOMAIN or NODATA). It
-// verifies that the authority section carries signed NSEC/NSEC3 records that
+// validateDenial authenticates a negative response (NXDOMAIN or NODATA) for the
+// queried name, or the one it is an alias of. It verifies that the authority section carries signed NSEC/NSEC3 records that
 // chain to the trust anchor and that actually prove the absence of the queried
 // name/type. It returns nil when the denial is proven, ErrInsecureDelegation
 // when the queried name falls under a provably unsigned zone (so the unsigned
@@ -19,13 +19,8 @@ import (
 // Without this, an attacker could forge an NXDOMAIN/NODATA with an empty
 // answer section to suppress a record (e.g. a DANE/CAA downgrade) and have it
 // accepted as authentic.
-func (v *Validator) validateDenial(answer *dns.Msg) error {
-	if len(answer.Question) == 0 {
-		return fmt.Errorf("%w: response has no question", ErrDenialOfExistence)
-	}
-	q := answer.Question[0]
-	qname := dns.CanonicalName(q.Name)
-	qtype := q.Qtype
+func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16) error {
+	qname = dns.CanonicalName(qname)
 
 	// Records from different zones can't be combined into a proof
 	for zone, records := range v.collectVerifiedDenialRecords(answer.Ns, qname) {
diff --git a/dnssec/validator.go b/dnssec/validator.go
index bb28d5f..6986598 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -83,10 +83,15 @@ func (v *Validator) SetAnchor(owner string, tag uint16, alg, digestType uint8, d
 
 // Validate checks the DNSSEC signatures in a DNS response message.
 // It groups the answer section into RRsets, finds covering RRSIGs,
-// and validates each signed RRset against a chain of trust.
+// and validates each signed RRset against a chain of trust. The RRsets also
+// have to answer the question.
 func (v *Validator) Validate(answer *dns.Msg) error {
+	if len(answer.Question) == 0 {
+		return fmt.Errorf("%w: response has no question", ErrDenialOfExistence)
+	}
+	q := answer.Question[0]
 	if len(answer.Answer) == 0 {
-		return v.validateDenial(answer)
+		return v.validateDenial(answer, q.Name, q.Qtype)
 	}
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
@@ -94,6 +99,9 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 	// All RRsets have to be checked, even if one is in an unsigned zone.
 	var insecure error
 	for key, rrset := range rrsets {
+		if key.rrtype == dns.TypeCNAME && synthesized(rrset, rrsets) {
+			continue // the DNAME is validated instead
+		}
 		err := v.validateAnswerRRset(key, rrset, sigs[key])
 		if errors.Is(err, ErrInsecureDelegation) {
 			insecure = err
@@ -103,9 +111,60 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 			return err
 		}
 	}
+	if err := v.validateMatch(answer, rrsets); err != nil {
+		return err
+	}
 	return insecure
 }
 
+// validateMatch checks that the RRsets of the answer section, which are valid by
+// themselves, answer the question: there have to be records of the queried type
+// at the queried name, or at the one it is an alias of. If there are none, their
+// absence has to be proven.
+func (v *Validator) validateMatch(answer *dns.Msg, rrsets map[rrsetKey][]dns.RR) error {
+	q := answer.Question[0]
+	if q.Qtype == dns.TypeRRSIG {
+		return nil // signatures aren't signed
+	}
+	name := dns.CanonicalName(q.Name)
+	for range len(rrsets) + 1 {
+		for key := range rrsets {
+			if key.name == name && (key.rrtype == q.Qtype || q.Qtype == dns.TypeANY) {
+				if answer.Rcode != dns.RcodeSuccess {
+					return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, name, dns.TypeToString[q.Qtype])
+				}
+				return nil
+			}
+		}
+		alias, ok := rrsets[rrsetKey{name, dns.TypeCNAME}]
+		if !ok {
+			return v.validateDenial(answer, name, q.Qtype)
+		}
+		name = dns.CanonicalName(alias[0].(*dns.CNAME).Target)
+	}
+	return fmt.Errorf("%w: loop at %s", ErrDenialOfExistence, name)
+}
+
+// synthesized reports whether the CNAME follows from a DNAME in the answer, in
+// which case it isn't signed (RFC 6672 §5.3.1).
+func synthesized(cname []dns.RR, rrsets map[rrsetKey][]dns.RR) bool {
+	if len(cname) != 1 {
+		return false
+	}
+	name := dns.CanonicalName(cname[0].Header().Name)
+	target := dns.CanonicalName(cname[0].(*dns.CNAME).Target)
+	for key, rrset := range rrsets {
+		if key.rrtype != dns.TypeDNAME || key.name == name || key.name == "." || !dns.IsSubDomain(key.name, name) {
+			continue
+		}
+		prefix := strings.TrimSuffix(name, key.name)
+		if target == prefix+strings.TrimPrefix(dns.CanonicalName(rrset[0].(*dns.DNAME).Target), ".") {
+			return true
+		}
+	}
+	return false
+}
+
 // validateAnswerRRset validates one RRset of the answer section.
 func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
 	if len(rrsigs) == 0 {
-- 
2.43.0


From d25d3b846eee2e58cd55e496ce237709c2895286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:34 +0000
Subject: [PATCH 29/45] fix: an NSEC3 that matches a name doesn't deny that it
 exists

---
 dnssec/denial_existence.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index eb1856f..fec7d4f 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -324,9 +324,15 @@ func bitmapExcludesBelow(bitmap []uint16) bool {
 	return bitmapIsDelegation(bitmap) || slices.Contains(bitmap, dns.TypeDNAME)
 }
 
+// nsec3Covers reports whether the hash of name lies between the ones of the NSEC3.
+// Cover() alone also accepts the name that the record matches.
+func nsec3Covers(r *dns.NSEC3, name string) bool {
+	return r.Cover(name) && !r.Match(name)
+}
+
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Cover(name) {
+		if nsec3Covers(r, name) {
 			return true
 		}
 	}
@@ -335,7 +341,7 @@ func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 
 func nsec3OptOutCovers(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Flags&1 == 1 && r.Cover(name) {
+		if r.Flags&1 == 1 && nsec3Covers(r, name) {
 			return true
 		}
 	}
-- 
2.43.0


From 1cec30d5b77e54ec181cd5efb142c1ed9503f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:18 +0000
Subject: [PATCH 30/45] fix: don't mark denials that rely on opt-out as
 authentic

---
 dnssec/denial_existence.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index fec7d4f..0ce898e 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -28,6 +28,10 @@ func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16)
 			return nil
 		}
 		if nsec3ProvesDenial(records.nsec3s, zone, qname, qtype, answer.Rcode) {
+			// There may be an unsigned delegation (RFC 5155 §9.2)
+			if nsec3OptsOut(records.nsec3s, zone, qname) {
+				return fmt.Errorf("%w: opt-out for %s", ErrInsecureDelegation, qname)
+			}
 			return nil
 		}
 	}
@@ -339,6 +343,24 @@ func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	return false
 }
 
+// nsec3OptsOut reports whether qname is at or below a name that is covered by an
+// opt-out NSEC3 of the zone.
+func nsec3OptsOut(nsec3s []*dns.NSEC3, zone, qname string) bool {
+	matches := func(name string) bool {
+		return slices.ContainsFunc(nsec3s, func(r *dns.NSEC3) bool { return r.Match(name) })
+	}
+	for k := dns.CountLabel(qname); k > dns.CountLabel(zone); k-- {
+		name := lastNLabels(qname, k)
+		if matches(name) {
+			return false
+		}
+		if nsec3OptOutCovers(nsec3s, name) && (k-1 == dns.CountLabel(zone) || matches(lastNLabels(qname, k-1))) {
+			return true
+		}
+	}
+	return false
+}
+
 func nsec3OptOutCovers(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
 		if r.Flags&1 == 1 && nsec3Covers(r, name) {
-- 
2.43.0


From 73d15a12ce90fc53d80054bedf65a64ef5c36ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:20 +0000
Subject: [PATCH 31/45] fix: treat absent DS records as part of the parent zone

---
 dnssec/denial_existence.go |  2 +-
 dnssec/validator.go        | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 0ce898e..1684e37 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -40,7 +40,7 @@ func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16)
 	// signed zone at all: if a parent provably has no DS this is an insecure
 	// delegation and the unsigned negative answer may be passed through.
 	// Otherwise the unproven denial is bogus.
-	if err := v.checkInsecureDelegation(qname); err != nil {
+	if err := v.checkInsecureDelegation(delegationOf(qname, qtype)); err != nil {
 		return err
 	}
 	return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, qname, dns.TypeToString[qtype])
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 6986598..d65979a 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -169,7 +169,7 @@ func synthesized(cname []dns.RR, rrsets map[rrsetKey][]dns.RR) bool {
 func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
 	if len(rrsigs) == 0 {
 		// Check if this is an insecure delegation by looking for DS in parent
-		zone := rrset[0].Header().Name
+		zone := delegationOf(rrset[0].Header().Name, key.rrtype)
 		if err := v.checkInsecureDelegation(zone); err != nil {
 			return err
 		}
@@ -202,6 +202,15 @@ func (v *Validator) checkInsecureDelegation(name string) error {
 	return nil
 }
 
+// delegationOf returns the name to check delegations for to find out whether an
+// RRset is in an unsigned zone. DS records are part of the parent zone.
+func delegationOf(name string, rrtype uint16) string {
+	if rrtype == dns.TypeDS {
+		return lastNLabels(name, dns.CountLabel(name)-1)
+	}
+	return name
+}
+
 // closestAnchor returns the longest name at or above name that has a trust
 // anchor, or the root if there is none.
 func (v *Validator) closestAnchor(name string) string {
-- 
2.43.0


From 8aabdfac983474c7ec13a11f74c5f0a02b8cad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:05 +0000
Subject: [PATCH 32/45] fix: require proof that a wildcard applies to the name
 of an answer

---
 dnssec/denial_existence.go | 21 +++++++++++++++++++++
 dnssec/validator.go        | 34 ++++++++++++++++++++++++++--------
 2 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 1684e37..0494313 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -46,6 +46,27 @@ func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16)
 	return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, qname, dns.TypeToString[qtype])
 }
 
+// validateExpansion checks that a wildcard applies to owner, whose RRset has been
+// validated with the signature of the wildcard. There must not be another name
+// that is closer to owner (RFC 4035 §5.3.4, RFC 5155 §8.8).
+func (v *Validator) validateExpansion(ns []dns.RR, owner string, sig *dns.RRSIG) error {
+	nextCloser := lastNLabels(owner, int(sig.Labels)+1)
+	if records, ok := v.collectVerifiedDenialRecords(ns, owner)[dns.CanonicalName(sig.SignerName)]; ok {
+		for _, n := range records.nsecs {
+			if nsecCovers(n, owner) && dns.CountLabel(nsecClosestEncloser(owner, n)) <= int(sig.Labels) {
+				return nil
+			}
+		}
+		if nsec3OptOutCovers(records.nsec3s, nextCloser) {
+			return fmt.Errorf("%w: opt-out for %s", ErrInsecureDelegation, owner)
+		}
+		if nsec3CoverAny(records.nsec3s, nextCloser) {
+			return nil
+		}
+	}
+	return fmt.Errorf("%w: %s, instead of a wildcard", ErrDenialOfExistence, nextCloser)
+}
+
 // denialRecords are the authenticated NSEC and NSEC3 records of one zone.
 type denialRecords struct {
 	nsecs  []*dns.NSEC
diff --git a/dnssec/validator.go b/dnssec/validator.go
index d65979a..9ee477f 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -102,7 +102,7 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 		if key.rrtype == dns.TypeCNAME && synthesized(rrset, rrsets) {
 			continue // the DNAME is validated instead
 		}
-		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		err := v.validateAnswerRRset(key, rrset, sigs[key], answer.Ns)
 		if errors.Is(err, ErrInsecureDelegation) {
 			insecure = err
 			continue
@@ -165,8 +165,9 @@ func synthesized(cname []dns.RR, rrsets map[rrsetKey][]dns.RR) bool {
 	return false
 }
 
-// validateAnswerRRset validates one RRset of the answer section.
-func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
+// validateAnswerRRset validates one RRset of the answer section. If it comes from
+// a wildcard, the authority section has to prove that the wildcard applies.
+func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG, ns []dns.RR) error {
 	if len(rrsigs) == 0 {
 		// Check if this is an insecure delegation by looking for DS in parent
 		zone := delegationOf(rrset[0].Header().Name, key.rrtype)
@@ -175,7 +176,24 @@ func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*
 		}
 		return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
 	}
-	return v.validateRRset(rrset, rrsigs)
+	sig, err := v.validateRRset(rrset, rrsigs)
+	if err != nil {
+		return err
+	}
+	if isExpanded(sig, key.name) {
+		return v.validateExpansion(ns, key.name, sig)
+	}
+	return nil
+}
+
+// isExpanded reports whether the signature is that of a wildcard, rather than of
+// the owner of the RRset itself.
+func isExpanded(sig *dns.RRSIG, owner string) bool {
+	labels := dns.CountLabel(owner)
+	if strings.HasPrefix(owner, "*.") {
+		labels--
+	}
+	return int(sig.Labels) < labels
 }
 
 // checkInsecureDelegation walks the delegation chain from the closest trust
@@ -246,8 +264,8 @@ func (v *Validator) proveNoDS(name, zone string) (signed, insecure bool, err err
 // a chain of trust to each signer's DNSKEY. An RRset is accepted as soon as one
 // of its RRSIGs verifies; this tolerates ZSK rollovers, where the set carries
 // signatures from both the outgoing and incoming keys and only one is valid
-// against the currently-published DNSKEY RRset.
-func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
+// against the currently-published DNSKEY RRset. It returns the valid RRSIG.
+func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) (*dns.RRSIG, error) {
 	owner := dns.CanonicalName(rrset[0].Header().Name)
 	var lastErr error
 	for _, sig := range sigs {
@@ -271,9 +289,9 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 			lastErr = err
 			continue
 		}
-		return nil
+		return sig, nil
 	}
-	return lastErr
+	return nil, lastErr
 }
 
 // zoneKeys returns all validated keys of a zone. While zones often have separate
-- 
2.43.0


From 1e59f968332f5b511cc0c510f28de757be7ca09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:43 +0000
Subject: [PATCH 33/45] fix: don't accept the NSEC of a wildcard under another
 name

---
 dnssec/denial_existence.go | 4 ++++
 dnssec/validator.go        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 0494313..a63208e 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -116,6 +116,10 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 		if !dns.IsSubDomain(signer, qname) {
 			continue
 		}
+		// Wildcards don't apply to NSEC/NSEC3
+		if isExpanded(sig, dns.CanonicalName(rrset[0].Header().Name)) {
+			continue
+		}
 		keys, err := v.zoneKeys(signer)
 		if err != nil {
 			continue
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 9ee477f..b0f4f68 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -541,6 +541,10 @@ func verifyRRSIG(sig *dns.RRSIG, keys []*dns.DNSKEY, rrset []dns.RR, now time.Ti
 // signature checks out, tolerating multiple RRSIGs from a key rollover.
 func verifyAnyRRSIG(sigs []*dns.RRSIG, keys []*dns.DNSKEY, rrset []dns.RR, now time.Time) bool {
 	for _, sig := range sigs {
+		// Wildcards don't apply to NSEC/NSEC3
+		if isExpanded(sig, dns.CanonicalName(rrset[0].Header().Name)) {
+			continue
+		}
 		if verifyRRSIG(sig, keys, rrset, now) == nil {
 			return true
 		}
-- 
2.43.0


From b7c04a6d5ab418128118701a967ff0d64ec20941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:35 +0000
Subject: [PATCH 34/45] fix: accept NSEC records from both sides of a zone cut
 in one response

---
 dnssec/denial_existence.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index a63208e..4d03df1 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -84,16 +84,18 @@ func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) map[
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		zone, ok := v.rrsetSignedFromAncestor(rrset, sigs[key], qname)
-		if !ok {
-			continue
-		}
-		records, ok := zones[zone]
-		if !ok {
-			records = new(denialRecords)
-			zones[zone] = records
-		}
+		// There is one record per name and zone, but both sides of a zone cut
+		// have the same name.
 		for _, rr := range rrset {
+			zone, ok := v.rrsetSignedFromAncestor([]dns.RR{rr}, sigs[key], qname)
+			if !ok {
+				continue
+			}
+			records, ok := zones[zone]
+			if !ok {
+				records = new(denialRecords)
+				zones[zone] = records
+			}
 			switch r := rr.(type) {
 			case *dns.NSEC:
 				records.nsecs = append(records.nsecs, r)
-- 
2.43.0


From 608c5db2694d5f29820d43b83f9ffe3c692415df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:18 +0000
Subject: [PATCH 35/45] fix: verify the certificate of DoT servers for the name
 rather than the IP

---
 dnsclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dnsclient.go b/dnsclient.go
index 11e87ee..413ce2b 100644
--- a/dnsclient.go
+++ b/dnsclient.go
@@ -117,6 +117,9 @@ func (d GenericDNSClient) Dial(address string) (*dns.Conn, error) {
 	useTLS := strings.HasPrefix(network, "tcp") && strings.HasSuffix(network, "-tls")
 	network = strings.TrimSuffix(network, "-tls")
 
+	// The server is authenticated by the name in the endpoint
+	endpoint := address
+
 	dialer := d.Dialer
 	var localAddr net.IP
 	if dialer == nil {
@@ -186,7 +189,7 @@ func (d GenericDNSClient) Dial(address string) (*dns.Conn, error) {
 	}
 
 	if useTLS {
-		hostname, _, err := net.SplitHostPort(address)
+		hostname, _, err := net.SplitHostPort(endpoint)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2ac691530b0c7354d8095e707903b6c5849113ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:25 +0000
Subject: [PATCH 36/45] fix: use the configured server-name for DoQ, DoH over
 QUIC and with bootstrap addresses

---
 dohclient.go | 4 +++-
 doqclient.go | 4 +++-
 dotclient.go | 8 +++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/dohclient.go b/dohclient.go
index ff56b07..699598d 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -401,7 +401,9 @@ func dohQuicTransport(endpoint string, opt DoHClientOptions) (http.RoundTripper,
 
 	// enable TLS session caching for session resumption and 0-RTT
 	tlsConfig.ClientSessionCache = tls.NewLRUClientSessionCache(100)
-	tlsConfig.ServerName = u.Hostname()
+	if tlsConfig.ServerName == "" {
+		tlsConfig.ServerName = u.Hostname()
+	}
 
 	quicConfig := &quic.Config{
 		TokenStore: quic.NewLRUTokenStore(10, 10),
diff --git a/doqclient.go b/doqclient.go
index 458b64c..7c5cb77 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -83,7 +83,9 @@ func NewDoQClient(id, endpoint string, opt DoQClientOptions) (*DoQClient, error)
 	}
 
 	// quic-go requires the ServerName be set explicitly
-	tlsConfig.ServerName = host
+	if tlsConfig.ServerName == "" {
+		tlsConfig.ServerName = host
+	}
 
 	// enable TLS session caching for session resumption and 0-RTT
 	if opt.Use0RTT {
diff --git a/dotclient.go b/dotclient.go
index 1892a4c..d977ed2 100644
--- a/dotclient.go
+++ b/dotclient.go
@@ -69,7 +69,13 @@ func NewDoTClient(id, endpoint string, opt DoTClientOptions) (*DoTClient, error)
 		if err != nil {
 			return nil, errors.Wrapf(err, "failed to parse dot endpoint '%s'", endpoint)
 		}
-		client.TLSConfig.ServerName = host
+		if client.TLSConfig == nil {
+			client.TLSConfig = new(tls.Config)
+		}
+		if client.TLSConfig.ServerName == "" {
+			client.TLSConfig = client.TLSConfig.Clone()
+			client.TLSConfig.ServerName = host
+		}
 		endpoint = net.JoinHostPort(opt.BootstrapAddr, port)
 	}
 	return &DoTClient{
-- 
2.43.0


From 91dbfbc608006d12caa48c6e11126b6965c13947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:31 +0000
Subject: [PATCH 37/45] fix: verify the name in the certificate of DTLS servers

---
 cmd/routedns/resolver.go |  1 +
 dtlsclient.go            | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/cmd/routedns/resolver.go b/cmd/routedns/resolver.go
index 164240c..c8d918a 100644
--- a/cmd/routedns/resolver.go
+++ b/cmd/routedns/resolver.go
@@ -75,6 +75,7 @@ func instantiateResolver(id string, r resolver, resolvers map[string]rdns.Resolv
 		if err != nil {
 			return err
 		}
+		dtlsConfig.ServerName = r.ServerName
 		opt := rdns.DTLSClientOptions{
 			BootstrapAddr: r.BootstrapAddr,
 			LocalAddr:     net.ParseIP(r.LocalAddr),
diff --git a/dtlsclient.go b/dtlsclient.go
index 1cdee6c..2c27dab 100644
--- a/dtlsclient.go
+++ b/dtlsclient.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"context"
+	"crypto/x509"
 	"fmt"
 	"net"
 	"strconv"
@@ -60,11 +61,29 @@ func NewDTLSClient(id, endpoint string, opt DTLSClientOptions) (*DTLSClient, err
 	if err != nil {
 		return nil, err
 	}
+	// Authenticate the server by the name in the endpoint unless another one is configured.
+	dtlsConfig := dtls.Config{}
+	if opt.DTLSConfig != nil {
+		dtlsConfig = *opt.DTLSConfig
+	}
+	if dtlsConfig.ServerName == "" {
+		dtlsConfig.ServerName = host
+	}
+	// The library doesn't verify IPs.
+	if net.ParseIP(dtlsConfig.ServerName) != nil && dtlsConfig.VerifyPeerCertificate == nil {
+		dtlsConfig.VerifyPeerCertificate = func(_ [][]byte, chains [][]*x509.Certificate) error {
+			if len(chains) == 0 {
+				return nil // not verified
+			}
+			return chains[0][0].VerifyHostname(dtlsConfig.ServerName)
+		}
+	}
+	opt.DTLSConfig = &dtlsConfig
+
 	// If a bootstrap address was provided, we need to use the IP for the connection but the
 	// hostname in the TLS handshake.
 	var ip net.IP
 	if opt.BootstrapAddr != "" {
-		opt.DTLSConfig.ServerName = host
 		ip = net.ParseIP(opt.BootstrapAddr)
 		if ip == nil {
 			return nil, fmt.Errorf("failed to parse bootstrap address '%s'", opt.BootstrapAddr)
-- 
2.43.0


From 5d23e730e620839fa685a741623a3bac8f1045d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:58 +0000
Subject: [PATCH 38/45] fix: do not remove files that are not sockets to make
 room for the fd-server

---
 xsocketserver_linux.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsocketserver_linux.go b/xsocketserver_linux.go
index 10fc87c..2a9974c 100644
--- a/xsocketserver_linux.go
+++ b/xsocketserver_linux.go
@@ -102,6 +102,10 @@ func (s *XSocketServer) listen() (*net.UnixListener, error) {
 		} else if !errors.Is(derr, syscall.ECONNREFUSED) {
 			return nil, err
 		}
+		// Connections to files that aren't sockets are refused as well
+		if fi, serr := os.Lstat(s.path); serr != nil || fi.Mode().Type() != fs.ModeSocket {
+			return nil, err
+		}
 		Log.Info("removing stale socket", "socket", s.path)
 		if rerr := os.Remove(s.path); rerr != nil {
 			return nil, err
-- 
2.43.0


From 1f34ac5486977f3524f195559b61d9ba1a96177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:58 +0000
Subject: [PATCH 39/45] fix: return all bits of the extended rcode of OPT
 records in lua

---
 lua-opt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lua-opt.go b/lua-opt.go
index 62eeda9..f47d60f 100644
--- a/lua-opt.go
+++ b/lua-opt.go
@@ -50,7 +50,7 @@ func (s *LuaScript) RegisterOPTType() {
 			case "version":
 				L.Push(lua.LNumber(opt.Version()))
 			case "extended_rcode":
-				L.Push(lua.LNumber(uint8(opt.ExtendedRcode())))
+				L.Push(lua.LNumber(opt.ExtendedRcode()))
 			case "option":
 				table := L.CreateTable(len(opt.Option), 0)
 				for _, v := range opt.Option {
-- 
2.43.0


From 2d01b73994ea58389276f01db15abfd8f071ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:00 +0000
Subject: [PATCH 40/45] fix: make types, constants and resolvers available to
 lua scripts while they are loaded

---
 lua-script.go |  9 +++++++--
 lua.go        | 19 +++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lua-script.go b/lua-script.go
index eb9c10e..c5d5152 100644
--- a/lua-script.go
+++ b/lua-script.go
@@ -33,7 +33,8 @@ func LuaCompile(reader io.Reader, name string) (ByteCode, error) {
 
 // NewScriptFromByteCode creates a new lua script from bytecode. When sandbox
 // is true, only safe libraries are loaded (no io, os, debug, package, channel).
-func NewScriptFromByteCode(b ByteCode, sandbox bool) (*LuaScript, error) {
+// The setup functions are called before the script is loaded.
+func NewScriptFromByteCode(b ByteCode, sandbox bool, setup ...func(*LuaScript)) (*LuaScript, error) {
 	var L *lua.LState
 	if sandbox {
 		L = lua.NewState(lua.Options{SkipOpenLibs: true})
@@ -41,9 +42,13 @@ func NewScriptFromByteCode(b ByteCode, sandbox bool) (*LuaScript, error) {
 	} else {
 		L = lua.NewState()
 	}
+	s := &LuaScript{L: L}
+	for _, f := range setup {
+		f(s)
+	}
 	lfunc := L.NewFunctionFromProto(b.FunctionProto)
 	L.Push(lfunc)
-	return &LuaScript{L: L}, L.PCall(0, lua.MultRet, nil)
+	return s, L.PCall(0, lua.MultRet, nil)
 }
 
 // openSandboxedLibs opens only safe Lua libraries and removes dangerous base functions.
diff --git a/lua.go b/lua.go
index 02200c6..9c483af 100644
--- a/lua.go
+++ b/lua.go
@@ -98,11 +98,21 @@ func (r *Lua) Close() {
 }
 
 func (r *Lua) newScript() (*LuaScript, error) {
-	s, err := NewScriptFromByteCode(r.bytecode, !r.opt.NoSandbox)
+	s, err := NewScriptFromByteCode(r.bytecode, !r.opt.NoSandbox, r.registerTypes)
 	if err != nil {
 		return nil, err
 	}
 
+	// The script must contain a Resolve() function which is the entry point
+	if !s.HasFunction("Resolve") {
+		return nil, errors.New("no Resolve() function found in lua script")
+	}
+
+	return s, nil
+}
+
+// registerTypes makes types, constants and resolvers available to the script.
+func (r *Lua) registerTypes(s *LuaScript) {
 	// Register types and methods
 	s.RegisterConstants()
 	s.RegisterMessageType()
@@ -115,11 +125,4 @@ func (r *Lua) newScript() (*LuaScript, error) {
 
 	// Inject the resolvers into the state (so they can be used in the script)
 	s.InjectResolvers(r.resolvers)
-
-	// The script must contain a Resolve() function which is the entry point
-	if !s.HasFunction("Resolve") {
-		return nil, errors.New("no Resolve() function found in lua script")
-	}
-
-	return s, nil
 }
-- 
2.43.0


From e2789ac0dd4229cffd4d4e59c08867e612e354f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:26 +0000
Subject: [PATCH 41/45] fix: name types and rcodes in syslog which have no
 mnemonic by their number

---
 message.go | 2 +-
 syslog.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/message.go b/message.go
index 8a83fb0..b68e3a2 100644
--- a/message.go
+++ b/message.go
@@ -49,7 +49,7 @@ func qType(q *dns.Msg) string {
 	if len(q.Question) == 0 {
 		return ""
 	}
-	return dns.TypeToString[q.Question[0].Qtype]
+	return dns.Type(q.Question[0].Qtype).String()
 }
 
 // Reports whether an opcode may be acted on in QUIC 0-RTT data. RFC 9250 4.5
diff --git a/syslog.go b/syslog.go
index 8e98526..52d3fac 100644
--- a/syslog.go
+++ b/syslog.go
@@ -103,7 +103,7 @@ func (r *Syslog) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 				}
 			}
 		} else {
-			msg = fmt.Sprintf("id=%s qid=%d type=answer qtype=%s qname=%s rcode=%s", r.id, q.Id, qType(q), qName(q), dns.RcodeToString[a.Rcode])
+			msg = fmt.Sprintf("id=%s qid=%d type=answer qtype=%s qname=%s rcode=%s", r.id, q.Id, qType(q), qName(q), rCode(a))
 			if _, err := r.writer.Write([]byte(msg)); err != nil {
 				logger(r.id, q, ci).Warn("failed to send syslog",
 					"error", err)
-- 
2.43.0


From c95b71b2321a7106e2509bfdfa2100928d31c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:19 +0000
Subject: [PATCH 42/45] fix: use allowlist-format for static allowlists

A static allowlist of a blocklist-v2 group was parsed in the format of the
blocklist. The documented allowlist-format option had no effect.
---
 cmd/routedns/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 4270abe..1d8d8ad 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -573,7 +573,7 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		}
 		var allowlistDB rdns.BlocklistDB
 		if len(g.Allowlist) > 0 {
-			allowlistDB, err = newBlocklistDB(list{Format: g.BlocklistFormat}, g.Allowlist)
+			allowlistDB, err = newBlocklistDB(list{Format: g.AllowlistFormat}, g.Allowlist)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From a04b027917ae6388e3cf5911ef977fd6d8848a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:33 +0000
Subject: [PATCH 43/45] fix: prepare the counters of rate-limiters before the
 first window

---
 rate-limiter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rate-limiter.go b/rate-limiter.go
index 98b56f4..a1745ef 100644
--- a/rate-limiter.go
+++ b/rate-limiter.go
@@ -56,6 +56,7 @@ func NewRateLimiter(id string, resolver Resolver, opt RateLimiterOptions) *RateL
 		id:                 id,
 		resolver:           resolver,
 		RateLimiterOptions: opt,
+		counters:           make(map[string]*uint),
 		metrics: &RateLimiterMetrics{
 			query:  getVarInt("router", id, "query"),
 			exceed: getVarInt("router", id, "exceed"),
-- 
2.43.0


From 154bd88aea84bf81217aae8d73f342075b25ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:18 +0000
Subject: [PATCH 44/45] fix: limit the time a SOCKS5 proxy has to set up a
 connection, not how long the connection lasts

A proxy that accepted a connection and then said nothing blocked the resolver
for good, since there was no timeout for the handshake. The timeout for UDP
was one for the connection, so queries failed when it was used for longer.
---
 socks5.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/socks5.go b/socks5.go
index 4b74a79..f18e068 100644
--- a/socks5.go
+++ b/socks5.go
@@ -47,7 +47,13 @@ type Socks5DialerOptions struct {
 
 var _ Dialer = (*Socks5Dialer)(nil)
 
+// Time the proxy has to set up a connection if there's no TCPTimeout.
+const socks5HandshakeTimeout = 5 * time.Second
+
 func NewSocks5Dialer(addr string, opt Socks5DialerOptions) *Socks5Dialer {
+	if opt.TCPTimeout == 0 {
+		opt.TCPTimeout = socks5HandshakeTimeout
+	}
 	client, _ := socks5.NewClient(
 		addr,
 		opt.Username,
@@ -143,6 +149,21 @@ func (d *Socks5Dialer) Dial(network string, address string) (net.Conn, error) {
 
 	})
 
+	conn, err := d.dial(network)
+	if err != nil {
+		return nil, err
+	}
+	// The library puts its timeouts on the connection as a whole. They're meant
+	// for setting it up, how long it lasts is up to the caller.
+	if err := conn.SetDeadline(time.Time{}); err != nil {
+		conn.Close()
+		return nil, err
+	}
+	return conn, nil
+}
+
+// dial sets up a connection through the proxy.
+func (d *Socks5Dialer) dial(network string) (net.Conn, error) {
 	localAddr := selectLocalAddr(d.addr, d.opt.LocalAddr, d.opt.LocalAddrV4, d.opt.LocalAddrV6)
 	if localAddr != nil {
 		// The socks5 library resolves the source address with
-- 
2.43.0


From 9a6040a3d1bdfd3c46c58b9c5f294891d56acbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:25 +0000
Subject: [PATCH 45/45] fix: don't take names below a trust anchor as unsigned
 because a zone above it is

---
 dnssec/validator.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index b0f4f68..274bdcd 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -282,6 +282,12 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) (*dns.RRSIG
 		}
 		keys, err := v.zoneKeys(signer)
 		if err != nil {
+			// An unsigned zone above a trust anchor says nothing about names
+			// below the anchor.
+			anchor := v.closestAnchor(delegationOf(owner, sig.TypeCovered))
+			if errors.Is(err, ErrInsecureDelegation) && !dns.IsSubDomain(anchor, signer) {
+				err = fmt.Errorf("%w: %s cannot sign %s, below the trust anchor for %s", ErrSignerOutOfBailiwick, signer, owner, anchor)
+			}
 			lastErr = err
 			continue
 		}
@@ -333,7 +339,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to lookup DS for %s: %w", zone, err)
 		}
-		parent, ok := parentSigner(zone, dsSigs)
+		parent, ok := parentSigner(zone, v.closestAnchor(zone), dsSigs)
 		if !ok {
 			// No signed DS, valid only below an unsigned delegation
 			if err := v.checkInsecureDelegation(zone); err != nil {
@@ -472,11 +478,12 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 }
 
 // parentSigner returns the parent of zone, which is the zone that signed its DS
-// records. It doesn't have to be just one label up.
-func parentSigner(zone string, dsSigs []*dns.RRSIG) (string, bool) {
+// records. It doesn't have to be just one label up, but can't be above the
+// closest trust anchor.
+func parentSigner(zone, anchor string, dsSigs []*dns.RRSIG) (string, bool) {
 	for _, sig := range dsSigs {
 		signer := dns.CanonicalName(sig.SignerName)
-		if signer != zone && dns.IsSubDomain(signer, zone) {
+		if signer != zone && dns.IsSubDomain(signer, zone) && dns.IsSubDomain(anchor, signer) {
 			return signer, true
 		}
 	}
-- 
2.43.0

