package conf

import (
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/redis/go-redis/v9"
)

// reference builds the elements of a configuration with the library, as the
// documentation describes them.
type reference struct {
	c       Config
	made    map[string]rdns.Resolver
	close   []func()       // at the end
	running []func() error // stop listeners
	dropped atomic.Int64   // queries without a response
}

func secs(n int) time.Duration { return time.Duration(n) * time.Second }

// get returns an element; it is nil without a name.
func (b *reference) get(id string) (rdns.Resolver, error) {
	if id == "" {
		return nil, nil
	}
	if r, ok := b.made[id]; ok {
		return r, nil
	}
	var r rdns.Resolver
	var err error
	if x, ok := b.c.Resolvers[id]; ok {
		r, err = b.resolver(id, x)
	} else if x, ok := b.c.Groups[id]; ok {
		r, err = b.group(id, x)
	} else if x, ok := b.c.Routers[id]; ok {
		r, err = b.router(id, x)
	} else {
		err = fmt.Errorf("no element %q", id)
	}
	if err != nil {
		return nil, fmt.Errorf("%s: %w", id, err)
	}
	b.made[id] = r
	return r, nil
}

// endpoint is the address of a resolver with its port.
func (r Resolver) endpoint() string {
	if r.To != nil && r.To.Std {
		p := strconv.Itoa(stdPorts[r.To.Proto])
		if r.Protocol == "doh" {
			return strings.Replace(r.Address, "/dns-query", ":"+p+"/dns-query", 1)
		}
		return r.Address + ":" + p
	}
	return r.Address
}

func (b *reference) resolver(id string, r Resolver) (rdns.Resolver, error) {
	local, v4, v6 := net.ParseIP(r.LocalAddr), net.ParseIP(r.LocalAddrV4), net.ParseIP(r.LocalAddrV6)
	so := rdns.SocketOptions{BindInterface: r.BindIf}
	var ns *rdns.NetNS
	if r.XSocket != "" {
		ns = &rdns.NetNS{XSocket: r.XSocket}
	}
	var dialer rdns.Dialer
	if r.Socks5 != "" {
		dialer = rdns.NewSocks5Dialer(r.Socks5, rdns.Socks5DialerOptions{Username: r.Socks5User, Password: r.Socks5Pass, ResolveLocal: r.Socks5Local,
			UDPTimeout: 5 * time.Second, LocalAddr: local, LocalAddrV4: v4, LocalAddrV6: v6, NetNS: ns, SocketOptions: so})
	}
	timeout := secs(r.QueryTimeout)
	var t *tls.Config
	var err error
	switch r.Protocol {
	case "dot", "doh", "doq", "odoh":
		if t, err = rdns.TLSClientConfig(r.CA, r.ClientCrt, r.ClientKey, r.ServerName); err != nil {
			return nil, err
		}
	}
	var doh rdns.DoHClientOptions
	if r.Protocol == "doh" || r.Protocol == "odoh" {
		doh = rdns.DoHClientOptions{TLSConfig: t, BootstrapAddr: r.BootstrapAddr, Transport: r.Transport, LocalAddr: local, LocalAddrV4: v4, LocalAddrV6: v6,
			QueryTimeout: timeout, NetNS: ns, SocketOptions: so}
		if r.DoH != nil {
			doh.Method, doh.IdleTimeout = r.DoH.Method, secs(r.DoH.IdleTimeout)
		}
	}
	switch r.Protocol {
	case "udp", "tcp":
		return rdns.NewDNSClient(id, r.endpoint(), r.Protocol, rdns.DNSClientOptions{LocalAddr: local, LocalAddrV4: v4, LocalAddrV6: v6,
			UDPSize: r.UDPSize, QueryTimeout: timeout, Dialer: dialer, NetNS: ns, SocketOptions: so})
	case "dot":
		return rdns.NewDoTClient(id, r.endpoint(), rdns.DoTClientOptions{BootstrapAddr: r.BootstrapAddr, LocalAddr: local, LocalAddrV4: v4, LocalAddrV6: v6,
			TLSConfig: t, QueryTimeout: timeout, Dialer: dialer, NetNS: ns, SocketOptions: so})
	case "doq":
		return rdns.NewDoQClient(id, r.endpoint(), rdns.DoQClientOptions{BootstrapAddr: r.BootstrapAddr, LocalAddr: local, LocalAddrV4: v4, LocalAddrV6: v6,
			TLSConfig: t, QueryTimeout: timeout, Use0RTT: r.Use0RTT, NetNS: ns, SocketOptions: so})
	case "dtls":
		d, err := rdns.DTLSClientConfig(r.CA, r.ClientCrt, r.ClientKey)
		if err != nil {
			return nil, err
		}
		d.ServerName = r.ServerName
		return rdns.NewDTLSClient(id, r.endpoint(), rdns.DTLSClientOptions{BootstrapAddr: r.BootstrapAddr, LocalAddr: local, LocalAddrV4: v4, LocalAddrV6: v6,
			DTLSConfig: d, UDPSize: r.UDPSize, QueryTimeout: timeout, NetNS: ns, SocketOptions: so})
	case "doh":
		doh.Dialer, doh.Use0RTT = dialer, r.Use0RTT
		return rdns.NewDoHClient(id, r.endpoint(), doh)
	case "odoh":
		return rdns.NewODoHClient(id, r.endpoint(), r.Target, r.TargetConfig, doh)
	}
	return nil, fmt.Errorf("protocol %q", r.Protocol)
}

func loader(l List, rules []string) rdns.BlocklistLoader {
	switch {
	case len(rules) > 0:
		return rdns.NewStaticLoader(rules)
	case strings.HasPrefix(l.Source, "http:"):
		return rdns.NewHTTPLoader(l.Source, rdns.HTTPLoaderOptions{CacheDir: l.CacheDir, AllowFailure: l.AllowFailure})
	}
	return rdns.NewFileLoader(l.Source, rdns.FileLoaderOptions{AllowFailure: l.AllowFailure})
}

// names builds the list of names of a blocklist or allowlist.
func names(id, format string, rules []string, sources []List) (rdns.BlocklistDB, error) {
	one := func(name, format string, ld rdns.BlocklistLoader) (rdns.BlocklistDB, error) {
		switch format {
		case "", "regexp":
			return rdns.NewRegexpDB(name, ld)
		case "domain":
			return rdns.NewDomainDB(name, ld)
		case "domain-subdomain":
			return rdns.NewDomainSubdomainDB(name, ld)
		case "hosts":
			return rdns.NewHostsDB(name, ld)
		case "mac":
			return rdns.NewMACDB(name, ld)
		}
		return nil, fmt.Errorf("format %q", format)
	}
	if len(rules) > 0 {
		return one(id, format, loader(List{}, rules))
	}
	var dbs []rdns.BlocklistDB
	for _, s := range sources {
		name := s.Name
		if name == "" {
			name = s.Source
		}
		db, err := one(name, s.Format, loader(s, nil))
		if err != nil {
			return nil, err
		}
		dbs = append(dbs, db)
	}
	return rdns.NewMultiDB(dbs...)
}

// addresses builds the list of networks, places or systems of a blocklist.
func addresses(id, format, location string, rules []string, sources []List) (rdns.IPBlocklistDB, error) {
	one := func(name, format string, ld rdns.BlocklistLoader) (rdns.IPBlocklistDB, error) {
		switch format {
		case "", "cidr":
			return rdns.NewCidrDB(name, ld)
		case "location":
			return rdns.NewGeoIPDB(name, ld, location)
		case "asn":
			return rdns.NewASNDB(name, ld, location)
		}
		return nil, fmt.Errorf("format %q", format)
	}
	if len(rules) > 0 {
		return one(id, format, loader(List{}, rules))
	}
	var dbs []rdns.IPBlocklistDB
	for _, s := range sources {
		name := s.Name
		if name == "" {
			name = s.Source
		}
		db, err := one(name, s.Format, loader(s, nil))
		if err != nil {
			return nil, err
		}
		dbs = append(dbs, db)
	}
	return rdns.NewMultiIPDB(dbs...)
}

var selects = map[string]rdns.TTLSelectFunc{"": nil, "lowest": rdns.TTLSelectLowest, "highest": rdns.TTLSelectHighest, "average": rdns.TTLSelectAverage,
	"first": rdns.TTLSelectFirst, "last": rdns.TTLSelectLast, "random": rdns.TTLSelectRandom}

var priorities = map[string]int{"": 0, "emergency": 0, "alert": 1, "critical": 2, "error": 3, "warning": 4, "notice": 5, "info": 6, "debug": 7}

func (b *reference) group(id string, g Group) (rdns.Resolver, error) {
	var rs []rdns.Resolver
	for _, k := range g.Resolvers {
		r, err := b.get(k)
		if err != nil {
			return nil, err
		}
		rs = append(rs, r)
	}
	var others [4]rdns.Resolver
	for i, k := range []string{g.BlocklistResolver, g.AllowlistResolver, g.LimitResolver, g.RetryResolver} {
		r, err := b.get(k)
		if err != nil {
			return nil, err
		}
		others[i] = r
	}
	block, allow, limit, retry := others[0], others[1], others[2], others[3]
	reset := 60
	if g.ResetAfter != nil {
		reset = *g.ResetAfter
	}
	ede := EDE{}
	if g.EDE != nil {
		ede = *g.EDE
	}
	tpl, err := rdns.NewEDNS0EDETemplate(ede.Code, ede.Text)
	if err != nil {
		return nil, err
	}
	switch g.Type {
	case "round-robin":
		return rdns.NewRoundRobin(id, rs...), nil
	case "fail-rotate":
		return rdns.NewFailRotate(id, rdns.FailRotateOptions{ServfailError: g.ServfailError, EmptyError: g.EmptyError}, rs...), nil
	case "fail-back":
		return rdns.NewFailBack(id, rdns.FailBackOptions{ResetAfter: secs(reset), ServfailError: g.ServfailError, EmptyError: g.EmptyError}, rs...), nil
	case "random":
		return rdns.NewRandom(id, rdns.RandomOptions{ResetAfter: secs(reset), ServfailError: g.ServfailError, EmptyError: g.EmptyError}, rs...), nil
	case "fastest":
		return rdns.NewFastest(id, rs...), nil
	case "load-balance":
		return rdns.NewLoadBalance(id, rdns.LoadBalanceOptions{FailurePenalty: secs(g.FailurePenalty), ServfailError: g.ServfailError, EmptyError: g.EmptyError}, rs...), nil
	case "blocklist":
		db, err := names(id, g.Format, g.Blocklist, []List{{Name: id, Format: g.Format, Source: g.Source}})
		if err != nil {
			return nil, err
		}
		return rdns.NewBlocklist(id, rs[0], rdns.BlocklistOptions{BlocklistDB: db, BlocklistRefresh: secs(g.Refresh)})
	case "blocklist-v2":
		db, err := names(id, g.BlocklistFormat, g.Blocklist, g.BlocklistSource)
		if err != nil {
			return nil, err
		}
		adb, err := names("", g.AllowlistFormat, g.Allowlist, g.AllowlistSource)
		if err != nil {
			return nil, err
		}
		return rdns.NewBlocklist(id, rs[0], rdns.BlocklistOptions{BlocklistDB: db, BlocklistRefresh: secs(g.BlocklistRefresh), BlocklistResolver: block,
			AllowlistDB: adb, AllowlistRefresh: secs(g.AllowlistRefresh), AllowListResolver: allow, EDNS0EDETemplate: tpl})
	case "response-blocklist-ip", "response-blocklist-cidr":
		db, err := addresses(id, g.BlocklistFormat, g.LocationDB, g.Blocklist, g.BlocklistSource)
		if err != nil {
			return nil, err
		}
		return rdns.NewResponseBlocklistIP(id, rs[0], rdns.ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistRefresh: secs(g.BlocklistRefresh),
			BlocklistResolver: block, Filter: g.Filter, Inverted: g.Inverted, EDNS0EDETemplate: tpl})
	case "response-blocklist-name":
		db, err := names("", g.BlocklistFormat, g.Blocklist, g.BlocklistSource)
		if err != nil {
			return nil, err
		}
		return rdns.NewResponseBlocklistName(id, rs[0], rdns.ResponseBlocklistNameOptions{BlocklistDB: db, BlocklistRefresh: secs(g.BlocklistRefresh),
			BlocklistResolver: block, Inverted: g.Inverted})
	case "client-blocklist":
		db, err := addresses(id, g.BlocklistFormat, g.LocationDB, g.Blocklist, g.BlocklistSource)
		if err != nil {
			return nil, err
		}
		return rdns.NewClientBlocklist(id, rs[0], rdns.ClientBlocklistOptions{BlocklistDB: db, BlocklistRefresh: secs(g.BlocklistRefresh),
			BlocklistResolver: block, UseECS: g.UseECS})
	case "replace":
		var ops []rdns.ReplaceOperation
		for _, o := range g.Replace {
			ops = append(ops, rdns.ReplaceOperation{From: o.From, To: o.To})
		}
		return rdns.NewReplace(id, rs[0], ops...)
	case "ttl-modifier":
		return rdns.NewTTLModifier(id, rs[0], rdns.TTLModifierOptions{SelectFunc: selects[g.TTLSelect], MinTTL: uint32(g.TTLMin), MaxTTL: uint32(g.TTLMax)}), nil
	case "truncate-retry":
		return rdns.NewTruncateRetry(id, rs[0], retry, rdns.TruncateRetryOptions{}), nil
	case "request-dedup":
		return rdns.NewRequestDedup(id, rs[0]), nil
	case "fastest-tcp":
		return rdns.NewFastestTCP(id, rs[0], rdns.FastestTCPOptions{Port: g.Port, WaitAll: g.WaitAll, SuccessTTLMin: uint32(g.SuccessTTLMin)}), nil
	case "ecs-modifier":
		ip, p4, p6 := net.ParseIP(g.ECSAddress), uint8(g.ECSPrefix4), uint8(g.ECSPrefix6)
		f := map[string]rdns.ECSModifierFunc{"add": rdns.ECSModifierAdd(ip, p4, p6), "add-if-missing": rdns.ECSModifierAddIfMissing(ip, p4, p6),
			"delete": rdns.ECSModifierDelete, "privacy": rdns.ECSModifierPrivacy(p4, p6)}[g.ECSOp]
		return rdns.NewECSModifier(id, rs[0], f)
	case "edns0-modifier":
		var data []byte
		for _, v := range g.EDNS0Data {
			data = append(data, byte(v))
		}
		f := map[string]rdns.EDNS0ModifierFunc{"add": rdns.EDNS0ModifierAdd(uint16(g.EDNS0Code), data), "delete": rdns.EDNS0ModifierDelete(uint16(g.EDNS0Code))}[g.EDNS0Op]
		return rdns.NewEDNS0Modifier(id, rs[0], f)
	case "syslog":
		return rdns.NewSyslog(id, rs[0], rdns.SyslogOptions{Network: g.Network, Address: g.Address, Priority: priorities[g.Priority], Tag: g.Tag,
			LogRequest: g.LogRequest, LogResponse: g.LogResponse, Verbose: g.Verbose}), nil
	case "cache":
		return b.cache(id, g, rs[0])
	case "prefetch":
		var w time.Duration
		if g.PrefetchWindow != "" {
			if w, err = time.ParseDuration(g.PrefetchWindow); err != nil {
				return nil, err
			}
		}
		return rdns.NewPrefetch(id, rs[0], rdns.PrefetchOptions{PrefetchWindow: w, PrefetchThreshold: uint64(g.PrefetchThreshold),
			PrefetchCacheSize: g.PrefetchCacheSize, PrefetchMaxItems: g.PrefetchMaxItems}), nil
	case "static-responder", "static-template":
		opt := rdns.StaticResolverOptions{Answer: g.Answer, NS: g.NS, Extra: g.Extra, RCode: g.RCode, Truncate: g.Truncate, EDNS0EDETemplate: tpl}
		if g.Type == "static-template" {
			return rdns.NewStaticTemplateResolver(id, opt)
		}
		return rdns.NewStaticResolver(id, opt)
	case "response-minimize":
		return rdns.NewResponseMinimize(id, rs[0]), nil
	case "response-collapse":
		return rdns.NewResponseCollapse(id, rs[0], rdns.ResponseCollapseOptions{NullRCode: g.NullRCode}), nil
	case "drop":
		return rdns.NewDropResolver(id), nil
	case "rate-limiter":
		return rdns.NewRateLimiter(id, rs[0], rdns.RateLimiterOptions{Requests: uint(g.Requests), Window: uint(g.Window), Prefix4: uint8(g.Prefix4),
			Prefix6: uint8(g.Prefix6), LimitResolver: limit}), nil
	case "query-log":
		return rdns.NewQueryLogResolver(id, rs[0], rdns.QueryLogResolverOptions{OutputFile: g.OutputFile, OutputFormat: rdns.LogFormat(g.OutputFormat)})
	case "lua":
		script := g.LuaScript
		if g.LuaSource != "" {
			script = string(must(os.ReadFile(g.LuaSource)))
		}
		return rdns.NewLua(id, rdns.LuaOptions{Script: script, Concurrency: uint(g.LuaConcurrency), NoSandbox: g.LuaNoSandbox}, rs...)
	case "dnssec-validator":
		var as []rdns.TrustAnchor
		for _, a := range g.Anchors {
			as = append(as, rdns.TrustAnchor{Owner: a.Owner, KeyTag: a.KeyTag, Algorithm: a.Algorithm, DigestType: a.DigestType, Digest: a.Digest})
		}
		return rdns.NewDNSSECValidator(id, rs[0], rdns.DNSSECValidatorOptions{TrustAnchors: as, TrustAnchorURL: g.AnchorURL, LogOnly: g.LogOnly})
	case "dns64":
		return rdns.NewDNS64(id, rs[0], rdns.DNS64Options{Prefixes: g.DNS64Prefix})
	}
	return nil, fmt.Errorf("type %q", g.Type)
}

func (b *reference) cache(id string, g Group, r rdns.Resolver) (rdns.Resolver, error) {
	max := map[int]uint32{}
	for k, v := range g.RcodeMaxTTL {
		n, err := strconv.Atoi(k)
		if err != nil {
			return nil, err
		}
		max[n] = uint32(v)
	}
	opt := rdns.CacheOptions{GCPeriod: secs(g.GCPeriod), Capacity: g.CacheSize, NegativeTTL: uint32(g.NegativeTTL), CacheRcodeMaxTTL: max,
		HardenBelowNXDOMAIN: g.Harden, FlushQuery: g.FlushQuery, PrefetchTrigger: uint32(g.PrefetchTrigger), PrefetchEligible: uint32(g.PrefetchElig)}
	switch g.AnswerShuffle {
	case "random":
		opt.ShuffleAnswerFunc = rdns.AnswerShuffleRandom
	case "round-robin":
		opt.ShuffleAnswerFunc = rdns.AnswerShuffleRoundRobin
	}
	if k := g.Backend; k != nil {
		if k.Type == "redis" {
			opt.Backend = rdns.NewRedisBackend(rdns.RedisBackendOptions{KeyPrefix: k.Prefix, SyncSet: k.SyncSet, RedisOptions: redis.Options{
				Network: k.Network, Addr: k.Address, Username: k.Username, Password: k.Password, DB: k.DB, ContextTimeoutEnabled: true}})
		} else {
			m := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: k.Size, GCPeriod: secs(k.GCPeriod), Filename: k.Filename, SaveInterval: secs(k.SaveInterval)})
			opt.Backend = m
			b.close = append(b.close, func() { m.Close() })
		}
	}
	return rdns.NewCache(id, r, opt), nil
}

func (b *reference) router(id string, r Router) (rdns.Resolver, error) {
	out := rdns.NewRouter(id)
	for _, x := range r.Routes {
		to, err := b.get(x.Resolver)
		if err != nil {
			return nil, err
		}
		types := append([]string(nil), x.Types...)
		if x.Type != "" {
			types = append(types, x.Type)
		}
		p, err := rdns.NewRoute(x.Name, x.Class, types, x.Weekdays, x.Before, x.After, x.Source, x.ECSSource, x.DoHPath, x.Listener, x.ServerName, to)
		if err != nil {
			return nil, err
		}
		p.Invert(x.Invert)
		out.Add(p)
	}
	return out, nil
}

// at is the address of a listener with its port.
func (l Listener) at() string {
	if _, _, err := net.SplitHostPort(l.Address); err == nil {
		return l.Address
	}
	p := stdPorts[l.proto()]
	if l.Protocol == "odoh" {
		p = 443
	}
	return net.JoinHostPort(l.Address, strconv.Itoa(p))
}

// proto is the protocol and transport of a listener.
func (l Listener) proto() string {
	if l.Protocol == "doh" && l.Transport == "quic" {
		return "doh3"
	}
	return l.Protocol
}

func (b *reference) listener(id string, l Listener) (rdns.Listener, error) {
	r, err := b.get(l.Resolver)
	if err != nil {
		return nil, err
	}
	r = tap{r, &b.dropped}
	opt := rdns.ListenOptions{SocketOptions: rdns.SocketOptions{BindInterface: l.BindIf}}
	if l.XSocket != "" {
		opt.NetNS = &rdns.NetNS{XSocket: l.XSocket}
	}
	for _, s := range l.AllowedNet {
		_, n, err := net.ParseCIDR(s)
		if err != nil {
			return nil, err
		}
		opt.AllowedNet = append(opt.AllowedNet, n)
	}
	var t *tls.Config
	if l.ServerCrt != "" && !l.NoTLS && l.Protocol != "dtls" {
		if t, err = rdns.TLSServerConfig(l.CA, l.ServerCrt, l.ServerKey, l.MutualTLS); err != nil {
			return nil, err
		}
	}
	v := ""
	if l.IPVersion != 0 {
		v = strconv.Itoa(l.IPVersion)
	}
	switch l.Protocol {
	case "udp", "tcp":
		return rdns.NewDNSListener(id, l.at(), l.Protocol+v, opt, r), nil
	case "dot":
		return rdns.NewDoTListener(id, l.at(), "tcp"+v, rdns.DoTListenerOptions{TLSConfig: t, ListenOptions: opt}, r), nil
	case "doq":
		return rdns.NewQUICListener(id, l.at(), rdns.DoQListenerOptions{TLSConfig: t, ListenOptions: opt}, r), nil
	case "dtls":
		d, err := rdns.DTLSServerConfig(l.CA, l.ServerCrt, l.ServerKey, l.MutualTLS)
		if err != nil {
			return nil, err
		}
		return rdns.NewDTLSListener(id, l.at(), rdns.DTLSListenerOptions{DTLSConfig: d, ListenOptions: opt}, r), nil
	case "doh":
		o := rdns.DoHListenerOptions{TLSConfig: t, ListenOptions: opt, Transport: l.Transport, NoTLS: l.NoTLS}
		if l.Frontend != nil && l.Frontend.TrustedProxy != "" {
			if _, o.HTTPProxyNet, err = net.ParseCIDR(l.Frontend.TrustedProxy); err != nil {
				return nil, err
			}
		}
		return rdns.NewDoHListener(id, l.at(), o, r)
	case "odoh":
		return rdns.NewODoHListener(id, l.at(), rdns.ODoHListenerOptions{TLSConfig: t, KeySeed: l.KeySeed, OdohMode: l.OdohMode, AllowDoH: l.AllowDoH, ListenOptions: opt}, r)
	case "admin":
		return rdns.NewAdminListener(id, l.at(), rdns.AdminListenerOptions{TLSConfig: t, ListenOptions: opt, Transport: l.Transport})
	}
	return nil, fmt.Errorf("protocol %q", l.Protocol)
}
