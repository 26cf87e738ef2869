package conf

import (
	"fmt"

	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Case is a configuration and what happens to the program that uses it.
type Case struct {
	Conf  Config         `json:"conf"`
	Files map[string]int `json:"files,omitempty"` // elements that are not in the first file
	Steps []Step         `json:"steps"`
}

// Step is a query, or a restart of the program.
type Step struct {
	Restart string `json:"restart,omitempty"` // the signal that ends the program
	Via     string `json:"via,omitempty"`     // the listener
	Q       kit.Q  `json:"q"`
	Src     string `json:"src,omitempty"`  // address of the client
	SNI     string `json:"sni,omitempty"`  // server name
	Path    string `json:"path,omitempty"` // of the URL
	Method  string `json:"method,omitempty"`
	XFF     string `json:"xff,omitempty"`  // X-Forwarded-For
	Cert    bool   `json:"cert,omitempty"` // with a client certificate
}

var (
	kinds = []string{"www", "ads", "a", "b", "many", "cn1", "cn2", "nx1", "sf", "em", "fl0", "fl1", "fl2", "mt0", "mt1", "tc", "pr", "rf", "www2", "cn3", "many2"}
	zones = []string{"example.com.", "test.org.", "block.net."}
	types = []uint16{dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeTXT, dns.TypeMX, dns.TypePTR, dns.TypeNS, dns.TypeSRV, dns.TypeCNAME, dns.TypeHTTPS, dns.TypeANY}

	// Lists that sources can have, in files and on a web server.
	lists = map[string]string{
		"regexp":           "^ads\\.\n(^|\\.)block\\.net\\.$\n# ^www\n",
		"regexp2":          "many\n",
		"domain":           "test.org\n.block.net\n*.example.com\n",
		"domain2":          "ads.test.org\nwww.test.org\n",
		"domain-subdomain": "test.org\n# x\nwww.example.com\n",
		"hosts":            "0.0.0.0 ads.test.org\n192.0.2.7 www.example.com many.block.net\n:: b.test.org\n2001:db8::7 a.test.org\n",
		"mac":              "01:23:45:67:89:ab\n",
		"cidr":             "127.210.0.0/16\n2001:db8:1::/48\n127.0.0.2/32\n",
		"cidr2":            "127.220.0.0/16\n127.230.1.0/24\n127.0.0.3/32\n",
		"location":         "100\n303\n",
		"asn":              "64501\n",
		"lua":              "function Resolve(q, ci)\n return Resolvers[1]:resolve(q, ci)\nend\n",
		"empty":            "",
	}
	nameFormats = []string{"regexp", "domain", "domain-subdomain", "hosts", "mac", ""}
	ipFormats   = []string{"cidr", "", "location", "asn"}
)

// rules are static rules of a format.
func rules(t *rapid.T, format string) []string {
	switch format {
	case "domain", "domain-subdomain":
		return kit.List(t, "rules", 1, 3, func(t *rapid.T) string {
			return kit.Pick(t, "rule", ".block.net", "test.org", "*.example.com", "ads.test.org", "www.example.com", "example.com")
		})
	case "hosts":
		return kit.List(t, "rules", 1, 3, func(t *rapid.T) string {
			return kit.Pick(t, "rule", "0.0.0.0 ads.test.org", "192.0.2.9 www.example.com", "127.0.0.1 a.block.net b.block.net", "2001:db8::9 many.test.org", "0.0.0.0 www.block.net")
		})
	case "mac":
		return []string{"01:23:45:67:89:ab"}
	case "cidr":
		return kit.List(t, "rules", 1, 3, func(t *rapid.T) string {
			return kit.Pick(t, "rule", "127.210.0.0/16", "127.0.0.2/32", "127.220.1.0/24", "2001:db8::/47", "127.0.0.0/30", "127.230.0.0/16", "198.51.100.0/24")
		})
	case "location":
		return []string{kit.Pick(t, "place", "100", "200", "303", "404")}
	case "asn":
		return []string{kit.Pick(t, "asn", "64501", "64502")}
	}
	return kit.List(t, "rules", 1, 3, func(t *rapid.T) string {
		return kit.Pick(t, "rule", `^ads\.`, `(^|\.)block\.net\.$`, "many", `example\.com`, "^a", `^www\.test`)
	})
}

// sources are one to three lists from elsewhere.
func sources(t *rapid.T, ip bool) []List {
	return kit.List(t, "sources", 1, 3, func(t *rapid.T) List {
		var f string
		if ip {
			f = kit.Pick(t, "format", ipFormats...)
		} else {
			f = kit.Pick(t, "format", nameFormats...)
		}
		file := f
		if f == "" {
			file = "regexp"
			if ip {
				file = "cidr"
			}
		}
		if (file == "regexp" || file == "domain" || file == "cidr") && kit.Chance(t, "other", 40) {
			file += "2"
		}
		l := List{Format: f, Source: kit.Pick(t, "where", "{LISTS}/", "{WEB}/") + file}
		if kit.Chance(t, "named", 40) {
			l.Name = kit.Pick(t, "lname", "first", "second list")
		}
		if kit.Chance(t, "cached", 30) {
			l.CacheDir = "{DIR}"
		}
		if kit.Chance(t, "mayfail", 15) {
			l.AllowFailure = true
			if kit.Chance(t, "fails", 60) {
				l.Source += "-absent"
			}
		}
		return l
	})
}

func ede(t *rapid.T) *EDE {
	if !kit.Chance(t, "ede", 50) {
		return nil
	}
	return &EDE{Code: kit.Pick[uint16](t, "code", 15, 17, 0, 30), Text: kit.Pick(t, "text", "blocked", "{{ .Blocklist }}/{{ .BlocklistRule }}", "{{ .Question }} {{ .QuestionType }}", "")}
}

func maybe(t *rapid.T, label string, pct int, v string) string {
	if kit.Chance(t, label, pct) {
		return v
	}
	return ""
}

// genResolver draws a resolver for the server with a tag.
func genResolver(t *rapid.T, tag int, bootstrap bool) Resolver {
	s := Server{Tag: tag, Proto: kit.Pick(t, "proto", "udp", "tcp", "udp", "tcp", "udp", "tcp", "dot", "doh", "doq", "dtls", "doh3", "odoh")}
	r := Resolver{Protocol: s.Proto, To: &s}
	enc := s.Proto != "udp" && s.Proto != "tcp"
	host := "{UP}"
	if tag == 0 && kit.Chance(t, "std", 30) && s.Proto != "odoh" { // one server can be there
		s.Std = true
	}
	switch {
	case enc && s.Std:
		r.CA = "{CA}"
	case enc:
		r.CA = "{CA}"
		switch kit.Pick(t, "name", "ip", "ip", "name", "boot") {
		case "name":
			s.Name, r.ServerName = true, kit.Pick(t, "sname", "up.test", "other.test")
		case "boot":
			if s.Proto == "odoh" {
				break
			}
			s.Name, host = true, "up.test"
			if !bootstrap || kit.Chance(t, "baddr", 50) {
				r.BootstrapAddr = "{UP}"
			}
			if kit.Chance(t, "also", 30) {
				r.ServerName = "other.test"
			}
		}
		if kit.Chance(t, "auth", 25) {
			s.Auth, r.ClientCrt, r.ClientKey = true, "{CRT}", "{KEY}"
		}
	case bootstrap && kit.Chance(t, "byname", 60):
		host = "up.test"
	}
	if s.Proto != "odoh" {
		switch kit.Pick(t, "local", "", "", "", "any", "v4", "both") {
		case "any":
			r.LocalAddr = "127.0.0.7"
		case "v4":
			r.LocalAddrV4, r.LocalAddrV6 = "127.0.0.8", "::1"
		case "both":
			r.LocalAddr, r.LocalAddrV4 = "127.0.0.7", "127.0.0.8"
		}
	}
	if s.Proto == "udp" || s.Proto == "dtls" {
		r.UDPSize = kit.Pick[uint16](t, "udpsize", 0, 0, 1400, 4000)
	}
	r.QueryTimeout = kit.Pick(t, "secs", 30, 60)
	if kit.Chance(t, "bindif", 8) && s.Proto != "odoh" {
		r.BindIf = "lo"
	}
	switch s.Proto {
	case "udp", "tcp", "dot", "doh":
		if kit.Chance(t, "socks", 20) {
			r.Socks5 = fmt.Sprintf("{UP}:%d", socksPort)
			if kit.Chance(t, "login", 50) {
				r.Socks5User, r.Socks5Pass = kit.Pick(t, "user", "me", "you"), kit.Pick(t, "pass", "one", "two")
			}
			if host == "{UP}" && !s.Std && !enc && kit.Chance(t, "sname", 50) {
				host = "up.test" // which the proxy knows
			}
			r.Socks5Local = bootstrap && kit.Chance(t, "slocal", 40)
		}
	}
	port := fmt.Sprintf(":{PORT%d}", tag)
	if s.Std {
		port = ""
	}
	r.Address = host + port
	switch s.Proto {
	case "doh3":
		r.Protocol, r.Transport = "doh", "quic"
		fallthrough
	case "doh":
		r.Address = "https://" + host + port + "/dns-query"
		switch kit.Pick(t, "method", "", "POST", "GET", "idle") {
		case "POST":
			r.DoH = &DoH{Method: "POST"}
		case "GET":
			r.DoH = &DoH{Method: "GET", IdleTimeout: kit.Pick(t, "idle", 0, 30)}
			r.Address += "{?dns}"
		case "idle":
			r.DoH = &DoH{IdleTimeout: 20}
		}
		if s.Proto == "doh3" && r.DoH != nil && r.DoH.Method == "GET" {
			r.Use0RTT = kit.Chance(t, "0rtt", 30)
		}
	case "odoh":
		r.Address, r.Target = "", "https://"+host+port+"/dns-query"
		r.TargetConfig = maybe(t, "config", 50, "{ODOH}")
	case "doq":
		r.Use0RTT = kit.Chance(t, "0rtt", 20)
	}
	return r
}

// single are the types of groups with one resolver, and the other ones.
var (
	single = []string{"cache", "blocklist-v2", "blocklist", "response-blocklist-ip", "response-blocklist-name", "client-blocklist", "replace", "ttl-modifier",
		"truncate-retry", "request-dedup", "ecs-modifier", "edns0-modifier", "syslog", "prefetch", "response-minimize", "response-collapse", "rate-limiter",
		"query-log", "dnssec-validator", "dns64", "fastest-tcp", "response-blocklist-cidr"}
	several = []string{"round-robin", "fail-rotate", "fail-back", "lua"}
	none    = []string{"static-responder", "static-template", "drop"}
	chancy  = []string{"random", "load-balance", "fastest"} // with answers that vary
)

// genGroup draws a group of a type; other(k) gives elements it can use.
func genGroup(t *rapid.T, typ string, other func(label string) string) Group {
	g := Group{Type: typ}
	use := map[string]bool{}
	pick := func(label string) string { // an element that is not used yet in this group
		for i := 0; i < 3; i++ {
			if id := other(fmt.Sprint(label, i)); id != "" && !use[id] {
				use[id] = true
				return id
			}
		}
		return ""
	}
	extra := func(label string, pct int) string {
		if !kit.Chance(t, label, pct) {
			return ""
		}
		return pick(label + " to")
	}
	many := func() {
		n := kit.Int(t, "members", 1, 3)
		for i := 0; i < n; i++ {
			if id := pick(fmt.Sprint("member", i)); id != "" {
				g.Resolvers = append(g.Resolvers, id)
			}
		}
	}
	failing := func() {
		g.ServfailError, g.EmptyError = kit.Chance(t, "servfail", 50), kit.Chance(t, "empty", 50)
	}
	switch typ {
	case "static-responder", "static-template", "drop":
	case "round-robin", "fail-rotate", "fail-back", "lua", "random", "load-balance", "fastest":
		many()
	default:
		g.Resolvers = []string{pick("member")}
	}
	switch typ {
	case "fail-rotate":
		failing()
	case "fail-back", "random":
		failing()
		if kit.Chance(t, "reset", 50) {
			n := kit.Pick(t, "after", 1000, 60, 5000)
			g.ResetAfter = &n
		}
	case "load-balance":
		failing()
		g.FailurePenalty = kit.Pick(t, "penalty", 0, 1, 60)
	case "lua":
		switch kit.Pick(t, "script", "pass", "last", "count", "sandbox", "file") {
		case "pass":
			g.LuaScript = "function Resolve(q, ci)\n return Resolvers[1]:resolve(q, ci)\nend"
		case "last":
			g.LuaScript = "function Resolve(q, ci)\n return Resolvers[#Resolvers]:resolve(q, ci)\nend"
		case "count":
			g.LuaScript = "n = 0\nfunction Resolve(q, ci)\n n = n + 1\n local a = Message.new()\n a:set_reply(q)\n a.rcode = n % 16\n return a, nil\nend"
		case "sandbox":
			g.LuaScript = "function Resolve(q, ci)\n local a = Message.new()\n a:set_reply(q)\n if os ~= nil then a.rcode = 5 end\n return a, nil\nend"
		case "file":
			g.LuaSource = "{LISTS}/lua"
			if kit.Chance(t, "inline too", 20) {
				g.LuaScript = "function Resolve(q, ci)\n return nil, nil\nend"
			}
		}
		g.LuaConcurrency = kit.Pick(t, "concurrency", 0, 1, 2, 3)
		g.LuaNoSandbox = kit.Chance(t, "nosandbox", 40)
	case "blocklist":
		g.Format = kit.Pick(t, "format", nameFormats...)
		if kit.Chance(t, "static", 60) {
			g.Blocklist = rules(t, g.Format)
		} else {
			f := g.Format
			if f == "" {
				f = "regexp"
			}
			g.Source = kit.Pick(t, "where", "{LISTS}/", "{WEB}/") + f
			g.Refresh = kit.Pick(t, "refresh", 0, 5000)
		}
	case "blocklist-v2":
		if kit.Chance(t, "static", 55) {
			g.BlocklistFormat = kit.Pick(t, "format", nameFormats...)
			g.Blocklist = rules(t, g.BlocklistFormat)
		} else if kit.Chance(t, "sources", 90) {
			g.BlocklistSource = sources(t, false)
			g.BlocklistRefresh = kit.Pick(t, "refresh", 0, 5000)
		}
		switch kit.Pick(t, "allow", "", "static", "sources", "static") {
		case "static":
			g.AllowlistFormat = kit.Pick(t, "aformat", nameFormats...)
			g.Allowlist = rules(t, g.AllowlistFormat)
		case "sources":
			g.AllowlistSource = sources(t, false)
			g.AllowlistRefresh = kit.Pick(t, "arefresh", 0, 5000)
		}
		g.BlocklistResolver = extra("blocked", 35)
		g.AllowlistResolver = extra("allowed", 35)
		g.EDE = ede(t)
	case "response-blocklist-ip", "response-blocklist-cidr", "client-blocklist":
		if kit.Chance(t, "static", 55) {
			g.BlocklistFormat = kit.Pick(t, "format", ipFormats...)
			f := g.BlocklistFormat
			if f == "" {
				f = "cidr"
			}
			g.Blocklist = rules(t, f)
		} else {
			g.BlocklistSource = sources(t, true)
			g.BlocklistRefresh = kit.Pick(t, "refresh", 0, 5000)
		}
		g.LocationDB = "{LISTS}/geo.mmdb"
		g.BlocklistResolver = extra("blocked", 40)
		if typ == "client-blocklist" {
			g.UseECS = kit.Chance(t, "useecs", 50)
		} else {
			g.Filter, g.Inverted = kit.Chance(t, "filter", 40), kit.Chance(t, "inverted", 30)
			g.EDE = ede(t)
		}
	case "response-blocklist-name":
		if kit.Chance(t, "static", 55) {
			g.BlocklistFormat = kit.Pick(t, "format", nameFormats...)
			g.Blocklist = rules(t, g.BlocklistFormat)
		} else {
			g.BlocklistSource = sources(t, false)
			g.BlocklistRefresh = kit.Pick(t, "refresh", 0, 5000)
		}
		g.BlocklistResolver = extra("blocked", 40)
		g.Inverted = kit.Chance(t, "inverted", 30)
	case "replace":
		g.Replace = kit.List(t, "replace", 1, 3, func(t *rapid.T) Replace {
			return kit.Pick(t, "op", Replace{`^ads\.`, "www."}, Replace{`\.test\.org\.$`, ".example.com."}, Replace{`^(\w+)\.block\.`, "${1}x.example."}, Replace{"a", "b"})
		})
	case "ttl-modifier":
		g.TTLSelect = kit.Pick(t, "select", "", "lowest", "highest", "average", "first", "last")
		g.TTLMin = kit.Pick(t, "min", 0, 500, 2000)
		g.TTLMax = kit.Pick(t, "max", 0, 2500, 10000)
	case "truncate-retry":
		g.RetryResolver = pick("retry")
	case "fastest-tcp":
		g.Port = kit.Pick(t, "port", probePort, probePort+1)
		g.WaitAll = kit.Chance(t, "waitall", 50)
		g.SuccessTTLMin = kit.Pick(t, "ttlmin", 0, 4000)
	case "ecs-modifier":
		g.ECSOp = kit.Pick(t, "op", "add", "add-if-missing", "delete", "privacy", "")
		g.ECSAddress = kit.Pick(t, "addr", "", "192.0.2.77", "2001:db8:5::77")
		g.ECSPrefix4, g.ECSPrefix6 = kit.Pick(t, "p4", 24, 8, 32, 0), kit.Pick(t, "p6", 56, 64, 128, 0)
	case "edns0-modifier":
		g.EDNS0Op = kit.Pick(t, "op", "add", "delete", "")
		g.EDNS0Code = kit.Pick(t, "code", 65001, 26, 10)
		g.EDNS0Data = kit.Pick(t, "data", []int{1, 2, 3}, []int{255, 0, 128, 7, 8, 9}, nil)
	case "syslog":
		g.Network, g.Address = kit.Pick(t, "net", "udp", "tcp"), "{SYSLOG}"
		g.Priority = kit.Pick(t, "prio", "", "emergency", "alert", "critical", "error", "warning", "notice", "info", "debug")
		g.Tag = kit.Pick(t, "tag", "tag1", "dns")
		g.LogRequest, g.LogResponse, g.Verbose = kit.Chance(t, "req", 60), kit.Chance(t, "resp", 60), kit.Chance(t, "verb", 50)
	case "cache":
		switch kit.Pick(t, "backend", "", "", "memory", "memory", "file") {
		case "":
			g.CacheSize, g.GCPeriod = kit.Pick(t, "size", 0, 0, 1, 2), kit.Pick(t, "gc", 0, 100)
		case "memory":
			g.Backend = &Backend{Type: "memory", Size: kit.Pick(t, "size", 0, 0, 1, 2), GCPeriod: kit.Pick(t, "gc", 0, 100)}
		case "file":
			g.Backend = &Backend{Type: "memory", Filename: "{DIR}/cache-" + other("file"), SaveInterval: kit.Pick(t, "save", 0, 1000)}
		}
		g.NegativeTTL = kit.Pick(t, "negttl", 0, 300, 700)
		g.AnswerShuffle = kit.Pick(t, "shuffle", "", "", "round-robin", "random")
		g.Harden = kit.Chance(t, "harden", 40)
		if kit.Chance(t, "flush", 30) {
			g.FlushQuery = kit.Pick(t, "flushname", "flush.test.", "www.example.com.")
		}
		// Refreshes come at any time, so nothing else may depend on them.
		if leaf(g.Resolvers[0]) && g.AnswerShuffle == "" && kit.Chance(t, "prefetch", 40) {
			g.PrefetchTrigger, g.PrefetchElig = kit.Pick(t, "trigger", 500, 2000, 30000), kit.Pick(t, "elig", 0, 600, 4000)
		}
		if kit.Chance(t, "rcodes", 30) {
			g.RcodeMaxTTL = map[string]int{}
			for _, k := range []string{"0", "2", "3"} {
				if kit.Chance(t, "rcode"+k, 50) {
					g.RcodeMaxTTL[k] = kit.Pick(t, "maxttl", 100, 400)
				}
			}
		}
	case "prefetch":
		g.PrefetchWindow = kit.Pick(t, "window", "", "1h", "5m")
		g.PrefetchThreshold = kit.Pick(t, "threshold", 0, 3)
		g.PrefetchCacheSize, g.PrefetchMaxItems = kit.Pick(t, "csize", 0, 10), kit.Pick(t, "items", 0, 5)
	case "static-responder", "static-template":
		g.RCode = kit.Pick(t, "rcode", 0, 3, 5)
		an := []string{"IN A 192.0.2.1", "x. 300 IN AAAA 2001:db8::1", "other.test. 600 IN TXT \"a b\""}
		if typ == "static-template" {
			an = append(an, `{{ .Question }} 18 IN TXT "{{ .QuestionType }} {{ .QuestionClass }}"`, `{{ .Question }} IN CNAME {{ trimSuffix .Question "." }}.x.`)
		}
		g.Answer = kit.List(t, "an", 0, 2, func(t *rapid.T) string { return kit.Pick(t, "rr", an...) })
		g.NS = kit.List(t, "ns", 0, 1, func(t *rapid.T) string {
			return kit.Pick(t, "rr", "test. 500 IN NS ns.test.", "IN SOA a. b. 1 2 3 4 5")
		})
		g.Extra = kit.List(t, "ex", 0, 1, func(t *rapid.T) string {
			return kit.Pick(t, "rr", "ns.test. 500 IN A 192.0.2.53", "x. IN A 192.0.2.54")
		})
		g.Truncate = kit.Chance(t, "tc", 20)
		g.EDE = ede(t)
	case "response-collapse":
		g.NullRCode = kit.Pick(t, "null", 0, 3, 2)
	case "rate-limiter":
		g.Requests, g.Window = kit.Int(t, "requests", 1, 4), 1<<31
		g.Prefix4, g.Prefix6 = kit.Pick(t, "p4", 0, 32, 30, 16), kit.Pick(t, "p6", 0, 128)
		g.LimitResolver = extra("limit", 60)
	case "query-log":
		g.OutputFile, g.OutputFormat = "{DIR}/log-"+other("log"), kit.Pick(t, "format", "", "text", "json")
	case "dnssec-validator":
		g.Anchors = []Anchor{{Owner: "sec."}} // the rest is filled in
		g.LogOnly = kit.Chance(t, "logonly", 40)
	case "dns64":
		g.DNS64Prefix = kit.Pick(t, "prefixes", nil, []string{"2001:db8:64::/96"}, []string{"64:ff9b::/96", "2001:db8:65::/48"})
	}
	return g
}

func leaf(id string) bool { return len(id) == 2 && id[0] == 'r' }

func genRoute(t *rapid.T, to string) Route {
	r := Route{Resolver: to}
	for i := 0; i < 2; i++ {
		switch kit.Pick(t, fmt.Sprint("cond", i), "none", "types", "name", "source", "type", "class", "ecs", "day", "after", "before", "path", "listener", "sni") {
		case "types":
			r.Types = kit.List(t, "types", 1, 2, func(t *rapid.T) string { return kit.Pick(t, "rtype", "A", "AAAA", "TXT", "MX") })
		case "type":
			r.Type = kit.Pick(t, "rtype", "A", "AAAA", "MX")
		case "name":
			r.Name = kit.Pick(t, "re", `\.example\.com\.$`, `^ads\.`, `(?i)TEST`, "many")
		case "source":
			r.Source = kit.Pick(t, "net", "127.0.0.2/32", "127.0.0.0/24", "198.51.100.0/24", "::1/128")
		case "class":
			r.Class = kit.Pick(t, "class", "IN", "CH", "ANY")
		case "ecs":
			r.ECSSource = kit.Pick(t, "net", "10.0.0.0/8", "192.168.0.0/16", "2001:db8::/32", "0.0.0.0/0")
		case "day":
			r.Weekdays = kit.Pick(t, "days", []string{"mon", "tue", "wed", "thu", "fri", "sat", "sun"}, []string{"mon", "wed", "fri", "sun"}, []string{"tue", "thu", "sat"})
		case "after":
			r.After = kit.Pick(t, "time", "00:00", "00:01")
		case "before":
			r.Before = kit.Pick(t, "time", "00:00", "23:59")
		case "path":
			r.DoHPath = kit.Pick(t, "path", "^/dns-query$", "special", "^/$")
		case "listener":
			r.Listener = kit.Pick(t, "lid", "l0", "l[12]", "udp")
		case "sni":
			r.ServerName = kit.Pick(t, "sni", "one", `^two\.test$`)
		}
	}
	r.Invert = kit.Chance(t, "invert", 20)
	return r
}

func genListener(t *rapid.T, i int, to string) Listener {
	l := Listener{Protocol: kit.Pick(t, "lproto", "udp", "tcp", "udp", "tcp", "udp", "dot", "doh", "doh", "doq", "dtls", "doh3", "odoh", "admin"), Resolver: to}
	l.Address = fmt.Sprintf("{IP}:{L%d}", i)
	if i == 0 && kit.Chance(t, "lstd", 15) && l.Protocol != "doh3" && l.Protocol != "admin" {
		l.Address = "{IP}"
	}
	if kit.Chance(t, "allowed", 30) {
		l.AllowedNet = kit.List(t, "nets", 1, 2, func(t *rapid.T) string {
			return kit.Pick(t, "net", "127.0.0.0/30", "127.0.0.2/32", "198.51.100.0/24", "10.0.0.0/8", "::1/128")
		})
	}
	if l.Protocol == "admin" {
		l.AllowedNet, l.Resolver = nil, ""
	}
	if kit.Chance(t, "lbind", 5) {
		l.BindIf = "lo"
	}
	switch l.Protocol {
	case "udp", "tcp":
		l.IPVersion = kit.Pick(t, "ipv", 0, 0, 4)
		return l
	case "doh3":
		l.Protocol, l.Transport = "doh", "quic"
	case "admin":
		l.Transport = kit.Pick(t, "transport", "", "tcp", "quic")
	case "doh":
		if kit.Chance(t, "notls", 30) {
			l.NoTLS = true
		}
		l.Transport = kit.Pick(t, "transport", "", "tcp")
	case "odoh":
		l.KeySeed = kit.Pick(t, "seed", "414dd55667a0cdff72dfbbd8515a9e0a", "00112233445566778899aabbccddeeff")
		l.OdohMode = kit.Pick(t, "mode", "", "target", "dual", "proxy")
		l.AllowDoH = kit.Chance(t, "allowdoh", 50)
	case "dot":
		l.IPVersion = kit.Pick(t, "ipv", 0, 0, 4)
	}
	if l.Protocol == "doh" && kit.Chance(t, "proxied", 40) {
		l.Frontend = &Frontend{TrustedProxy: kit.Pick(t, "proxy", "127.0.0.0/30", "127.0.0.0/8", "127.0.0.3/32")}
	}
	if !l.NoTLS {
		l.ServerCrt, l.ServerKey = "{SRVCRT}", "{SRVKEY}"
		if kit.Chance(t, "mutual", 20) {
			l.MutualTLS, l.CA = true, "{CA}"
		}
	}
	return l
}

// genConfig draws a configuration with up to n groups.
func genConfig(t *rapid.T, n int) Config {
	c := Config{Resolvers: map[string]Resolver{}, Groups: map[string]Group{}, Routers: map[string]Router{}, Listeners: map[string]Listener{}}
	if kit.Chance(t, "bootstrap", 25) {
		c.Bootstrap = &Resolver{Address: "{UP}:{PORT3}", Protocol: kit.Pick(t, "bproto", "udp", "tcp"), To: &Server{Tag: bootTag}}
		c.Bootstrap.To.Proto = c.Bootstrap.Protocol
	}
	var ids []string
	plain := map[string]bool{}
	nr := kit.Int(t, "resolvers", 1, 3)
	for i := 0; i < nr; i++ {
		id := fmt.Sprint("r", i)
		c.Resolvers[id] = genResolver(t, i, c.Bootstrap != nil)
		ids = append(ids, id)
		if p := c.Resolvers[id].Protocol; p == "udp" || p == "tcp" {
			plain[id] = true
		}
	}
	serial := 0
	ng := kit.Int(t, "groups", 1, n)
	for i := 0; i < ng; i++ {
		id := fmt.Sprint(kit.Pick(t, "prefix", "g", "G.", "my group "), i)
		last := kit.Chance(t, "chain", 60)
		other := func(label string) string {
			if label == "file" || label == "log" {
				serial++
				return fmt.Sprint(serial)
			}
			if last {
				last = false
				return ids[len(ids)-1]
			}
			return kit.Pick(t, label, ids...)
		}
		switch kit.Pick(t, "what", "single", "single", "single", "several", "router", "none") {
		case "single":
			c.Groups[id] = genGroup(t, kit.Pick(t, "single", single...), other)
		case "several":
			c.Groups[id] = genGroup(t, kit.Pick(t, "several", several...), other)
		case "none":
			c.Groups[id] = genGroup(t, kit.Pick(t, "none", none...), other)
		case "router":
			var r Router
			for _, to := range kit.List(t, "routes", 1, 3, func(t *rapid.T) string { return kit.Pick(t, "to", ids...) }) {
				r.Routes = append(r.Routes, genRoute(t, to))
			}
			if kit.Chance(t, "default", 75) {
				r.Routes = append(r.Routes, Route{Resolver: kit.Pick(t, "to", ids...)})
			}
			c.Routers[id] = r
		}
		if g, ok := c.Groups[id]; ok && g.Type == "truncate-retry" && g.RetryResolver == "" { // no other element there
			g.Type = "response-minimize"
			c.Groups[id] = g
		}
		if g, ok := c.Groups[id]; ok && g.Type == "dnssec-validator" && !leaf(g.Resolvers[0]) { // its own queries differ from run to run
			g.Resolvers = []string{"r0"}
			c.Groups[id] = g
		}
		ids = append(ids, id)
	}
	if nr > 1 && !c.refreshes() && kit.Chance(t, "chancy", 15) {
		members := kit.List(t, "members", 2, 2, func(t *rapid.T) string { return fmt.Sprint("r", kit.Int(t, "m", 0, nr-1)) })
		if members[0] != members[1] && plain[members[0]] && plain[members[1]] {
			k := -1
			g := genGroup(t, kit.Pick(t, "type", chancy...), func(string) string { k++; return members[k%2] })
			g.Resolvers = members
			c.Groups["any"] = g
			c.Listeners["lany"] = Listener{Address: "{IP}:{L9}", Protocol: "tcp", Resolver: "any"}
		}
	}
	nl := kit.Int(t, "listeners", 1, 3)
	for i := 0; i < nl; i++ {
		to := ids[len(ids)-1]
		if kit.Chance(t, "elsewhere", 40) {
			to = kit.Pick(t, "to", ids...)
		}
		c.Listeners[fmt.Sprint("l", i)] = genListener(t, i, to)
	}
	if c.unordered() { // so no answer is the first one
		for id, g := range c.Groups {
			if g.TTLSelect == "first" || g.TTLSelect == "last" {
				g.TTLSelect = "lowest"
				c.Groups[id] = g
			}
		}
	}
	return c
}

func genCase(t *rapid.T) Case {
	c := Case{Conf: genConfig(t, 4)}
	if kit.Chance(t, "split", 40) {
		c.Files = map[string]int{}
		for _, id := range c.Conf.ids() {
			if n := kit.Int(t, "file", 0, 2); n > 0 {
				c.Files[id] = n
			}
		}
	}
	var via []string
	for _, id := range c.Conf.ids() {
		if id[:2] == "l:" {
			via = append(via, id[2:])
		}
	}
	names := kit.List(t, "names", 1, 4, func(t *rapid.T) string {
		if kit.Chance(t, "sec", 8) {
			return kit.Pick(t, "secname", "good.sec.", "bad.sec.", "also.sec.")
		}
		return kit.Pick(t, "kind", kinds...) + "." + kit.Pick(t, "zone", zones...)
	})
	names = append(names, "flush.test.", "below.nx1.example.com.", "nx1.example.com.")
	c.Steps = kit.List(t, "steps", 4, 24, func(t *rapid.T) Step {
		if kit.Chance(t, "restart", 3) {
			return Step{Restart: kit.Pick(t, "signal", "TERM", "INT", "HUP")}
		}
		s := Step{Via: kit.Pick(t, "via", via...), Src: fmt.Sprintf("127.0.%d.%d", kit.Pick(t, "src3", 0, 0, 0, 1), kit.Int(t, "src", 1, 6))}
		s.Q = kit.Q{Name: kit.Pick(t, "name", names...), Type: kit.Pick(t, "type", types...), RD: true, CD: kit.Chance(t, "cd", 10)}
		if kit.Chance(t, "class", 5) {
			s.Q.Class = dns.ClassCHAOS
		}
		if kit.Chance(t, "edns", 50) {
			e := &kit.E{Size: 1232, DO: kit.Chance(t, "do", 40)}
			if kit.Chance(t, "ecs", 40) {
				e.Opts = append(e.Opts, kit.Opt{ECS: kit.MaskedECS(t)})
				if e.Opts[0].ECS.Mask == 0 {
					e.Opts = nil
				} else {
					e.Opts[0].ECS.Scope = 0
				}
			}
			if kit.Chance(t, "mac", 30) {
				e.Opts = append(e.Opts, kit.Opt{Code: 65001, Data: kit.Pick(t, "hw", "0123456789ab", "0123456789ac")})
			}
			s.Q.EDNS = e
		}
		if c.Conf.Listeners[s.Via].ServerCrt != "" || c.Conf.Listeners[s.Via].Protocol == "doh" {
			s.SNI = kit.Pick(t, "sni", "", "one.test", "two.test")
			s.Path = kit.Pick(t, "path", "", "/dns-query", "/special", "/", "/proxy", "/.well-known/odohconfigs", "/routedns/vars")
			s.Method = kit.Pick(t, "method", "POST", "GET")
			if kit.Chance(t, "xff", 40) {
				s.XFF = kit.Pick(t, "client", "198.51.100.4", "10.1.1.1", "127.0.0.2", "2001:db8::4")
			}
			s.Cert = c.Conf.Listeners[s.Via].MutualTLS != kit.Chance(t, "cert", 15)
		}
		return s
	})
	return c
}
