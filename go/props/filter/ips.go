package filter

import (
	"fmt"
	"net"
	"os"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// ipDB builds the database of an address list.
func ipDB(name, format string, loader rdns.BlocklistLoader, geo string) (rdns.IPBlocklistDB, error) {
	switch format {
	case "cidr":
		return rdns.NewCidrDB(name, loader)
	case "location":
		return rdns.NewGeoIPDB(name, loader, geo)
	case "asn":
		return rdns.NewASNDB(name, loader, geo)
	}
	panic("verif: bad format " + format)
}

func ipDBs(lists []List, geo string) (rdns.IPBlocklistDB, error) {
	var dbs []rdns.IPBlocklistDB
	for i, l := range lists {
		db, err := ipDB(listName(i), l.Format, l.loader(), geo)
		if err != nil {
			return nil, err
		}
		dbs = append(dbs, db)
	}
	if len(dbs) == 1 {
		return dbs[0], nil
	}
	return rdns.NewMultiIPDB(dbs...)
}

// cidr parses an address rule; IPv4 networks written as IPv4-mapped ones are
// IPv4 networks.
func cidr(r string) *net.IPNet {
	r = strings.TrimSpace(r)
	if !strings.Contains(r, "/") {
		if strings.Contains(r, ":") {
			r += "/128"
		} else {
			r += "/32"
		}
	}
	_, n, err := net.ParseCIDR(r)
	if err != nil {
		panic("verif: " + err.Error())
	}
	if ones, bits := n.Mask.Size(); bits == 128 && ones >= 96 && n.IP.To4() != nil {
		n = &net.IPNet{IP: n.IP.To4(), Mask: net.CIDRMask(ones-96, 32)}
	}
	return n
}

// matchIP is the model of an address list.
func (l List) matchIP(ip net.IP, geo []GeoNet) hit {
	h := hit{rules: map[string]bool{}}
	at, _ := locate(geo, ip)
	for _, r := range l.Rules {
		if ignored(r) {
			continue
		}
		if l.Format == "cidr" {
			n := cidr(r)
			_, bits := n.Mask.Size()
			if (ip.To4() != nil) == (bits == 32) && n.Contains(ip) {
				h.rules[n.String()] = true
			}
			continue
		}
		r = strings.TrimSpace(strings.Split(r, "#")[0])
		for _, id := range at.ids(l.Format) {
			if id == r {
				h.rules[id] = true
			}
		}
	}
	h.ok = len(h.rules) > 0
	return h
}

func matchAllIP(lists []List, ip net.IP, geo []GeoNet) hit {
	for i, l := range lists {
		if h := l.matchIP(ip, geo); h.ok {
			h.list = listName(i)
			return h
		}
	}
	return hit{}
}

// Response is a response blocklist (on addresses or on names) and responses
// which go through it.
type Response struct {
	Lists    []List   `json:"lists"`
	Geo      []GeoNet `json:"geo,omitempty"`
	BlockRes bool     `json:"blockres,omitempty"`
	Filter   bool     `json:"filter,omitempty"`
	Inverted bool     `json:"inverted,omitempty"`
	EDE      uint16   `json:"ede,omitempty"`
	EDEText  string   `json:"edetext,omitempty"`
	Qs       []kit.Q  `json:"qs"`
	Rs       []kit.R  `json:"rs"` // upstream's response to each query
	Other    kit.R    `json:"other"`
}

// scratchGeo writes the location database of a case.
func scratchGeo(geo []GeoNet) (file string, done func(), err error) {
	if len(geo) == 0 {
		return "", func() {}, nil
	}
	dir, err := os.MkdirTemp("", "geo")
	if err != nil {
		return "", nil, err
	}
	file, err = writeMMDB(dir, geo)
	return file, func() { os.RemoveAll(dir) }, err
}

func (c Response) validLists() bool {
	for _, l := range c.Lists {
		if !l.valid() {
			return false
		}
	}
	return true
}

// upstream answers the n'th query with the n'th response.
func (c Response) resolvers() ups {
	u := newUps([]kit.R{{}, c.Other})
	u.all[0].F = func(n int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return c.Rs[n].Msg(q) }
	return u
}

func addr(rr dns.RR) net.IP {
	switch rr := rr.(type) {
	case *dns.A:
		return rr.A
	case *dns.AAAA:
		return rr.AAAA
	}
	return nil
}

func runResponseIP(x *kit.Ctx, c Response) error {
	geo, done, err := scratchGeo(c.Geo)
	if err != nil {
		return err
	}
	defer done()
	for _, l := range c.Lists {
		x.Label("%s", l.Format)
	}
	db, err := ipDBs(c.Lists, geo)
	if !c.validLists() {
		x.Label("invalid rule")
		if err == nil {
			return fmt.Errorf("a list with an invalid rule was loaded")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("valid lists were not loaded: %v", err)
	}
	defer db.Close()
	u := c.resolvers()
	opt := rdns.ResponseBlocklistIPOptions{BlocklistDB: db, Filter: c.Filter, Inverted: c.Inverted}
	if c.BlockRes {
		opt.BlocklistResolver = u.list[1]
	}
	if opt.EDNS0EDETemplate, err = rdns.NewEDNS0EDETemplate(c.EDE, c.EDEText); err != nil {
		return err
	}
	b, err := rdns.NewResponseBlocklistIP("b", u.list[0], opt)
	if err != nil {
		return err
	}
	x.LabelIf(c.Filter, "filter")
	x.LabelIf(c.Inverted, "inverted")
	for i, cq := range c.Qs {
		if err := c.one(x, b, u, cq, c.Rs[i], true); err != nil {
			return fmt.Errorf("query %d (%s %d): %w", i, cq.Name, cq.Type, err)
		}
	}
	return nil
}

func runResponseName(x *kit.Ctx, c Response) error {
	for _, l := range c.Lists {
		x.Label("%s", l.Format)
	}
	db, err := nameDBs(c.Lists)
	if !c.validLists() {
		x.Label("invalid rule")
		if err == nil {
			return fmt.Errorf("a list with an invalid rule was loaded")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("valid lists were not loaded: %v", err)
	}
	u := c.resolvers()
	opt := rdns.ResponseBlocklistNameOptions{BlocklistDB: db, Inverted: c.Inverted}
	if c.BlockRes {
		opt.BlocklistResolver = u.list[1]
	}
	if opt.EDNS0EDETemplate, err = rdns.NewEDNS0EDETemplate(c.EDE, c.EDEText); err != nil {
		return err
	}
	b, err := rdns.NewResponseBlocklistName("b", u.list[0], opt)
	if err != nil {
		return err
	}
	x.LabelIf(c.Inverted, "inverted")
	for i, cq := range c.Qs {
		if err := c.one(x, b, u, cq, c.Rs[i], false); err != nil {
			return fmt.Errorf("query %d (%s %d): %w", i, cq.Name, cq.Type, err)
		}
	}
	return nil
}

// names are the strings in a record which name lists are matched against.
func nameIn(rr dns.RR) (string, bool) {
	svcb := func(s *dns.SVCB) string {
		out := s.Target
		for _, v := range s.Value {
			out += " " + v.Key().String() + "=" + v.String()
		}
		return out
	}
	switch rr := rr.(type) {
	case *dns.CNAME:
		return rr.Target, true
	case *dns.MX:
		return rr.Mx, true
	case *dns.NS:
		return rr.Ns, true
	case *dns.PTR:
		return rr.Ptr, true
	case *dns.SRV:
		return rr.Target, true
	case *dns.SOA:
		return rr.Ns, true
	case *dns.TXT:
		return strings.Join(rr.Txt, " "), true
	case *dns.HTTPS:
		return svcb(&rr.SVCB), true
	case *dns.SVCB:
		return svcb(rr), true
	}
	return "", false
}

func (c Response) one(x *kit.Ctx, b rdns.Resolver, u ups, cq kit.Q, r kit.R, ips bool) error {
	q := cq.Msg()
	client := ci("192.0.2.7")
	before := u.counts()
	a, err := b.Resolve(q, client)
	if kit.Text(q) != kit.Text(cq.Msg()) {
		return fmt.Errorf("the client's query was changed")
	}
	q = cq.Msg()
	orig, oerr := r.Msg(q)
	pass := func() error {
		if err := u.wentTo(before, q, client, 0); err != nil {
			return err
		}
		return same(r, q, a, err)
	}
	if oerr != nil || orig == nil || ips && orig.Rcode != dns.RcodeSuccess {
		x.Label("nothing to check")
		return pass()
	}
	// Which records are to be blocked, and why?
	offends := func(rr dns.RR) (bool, hit) {
		if ips {
			ip := addr(rr)
			if ip == nil {
				return false, hit{}
			}
			h := matchAllIP(c.Lists, ip, c.Geo)
			return h.ok != c.Inverted, h
		}
		name, ok := nameIn(rr)
		if !ok {
			return false, hit{}
		}
		h := matchAll(c.Lists, name, 0, "")
		return h.ok != c.Inverted, h
	}
	var kept [3][]dns.RR
	var first *hit
	bad := 0
	for i, rrs := range [][]dns.RR{orig.Answer, orig.Ns, orig.Extra} {
		for _, rr := range rrs {
			off, h := offends(rr)
			if !off {
				kept[i] = append(kept[i], rr)
				continue
			}
			if first == nil {
				first = &h
			}
			bad++
			x.Label("offending record in section %d", i)
		}
	}
	if bad == 0 && !(c.Filter && len(orig.Answer) == 0) {
		x.Label("passed")
		return pass()
	}
	x.NonTrivial()
	blocked := func(withEDE bool) error {
		if c.BlockRes {
			x.Label("to blocklist-resolver")
			if err := u.wentTo(before, q, client, 0, 1); err != nil {
				return err
			}
			return same(c.Other, q, a, err)
		}
		x.Label("blocked")
		if err := u.wentTo(before, q, client, 0); err != nil {
			return err
		}
		if err := replied(q, a, err, dns.RcodeNameError, nil); err != nil {
			return err
		}
		if !withEDE || c.Inverted {
			return nil
		}
		return ede(q, a, c.EDE, c.EDEText, first.list, first.rules)
	}
	if !c.Filter {
		return blocked(true)
	}
	if len(kept[0]) == 0 {
		if len(orig.Answer) == 0 && bad == 0 && pass() == nil {
			return nil // the response had no answer to begin with
		}
		x.Label("nothing left")
		return blocked(false)
	}
	x.Label("filtered")
	if err := u.wentTo(before, q, client, 0); err != nil {
		return err
	}
	want := orig
	want.Answer, want.Ns, want.Extra = kept[0], kept[1], kept[2]
	if err != nil || kit.Text(a) != kit.Text(want) {
		return fmt.Errorf("got\n%s (%v)\nexpected the filtered\n%s", kit.Text(a), err, kit.Text(want))
	}
	return nil
}

// ---- clients ----

// Client is a client blocklist and clients.
type Client struct {
	Lists    []List   `json:"lists"`
	Geo      []GeoNet `json:"geo,omitempty"`
	BlockRes bool     `json:"blockres,omitempty"`
	UseECS   bool     `json:"useecs,omitempty"`
	From     []string `json:"from"` // client addresses
	Qs       []kit.Q  `json:"qs"`
	Answers  []kit.R  `json:"answers"`
}

func runClient(x *kit.Ctx, c Client) error {
	geo, done, err := scratchGeo(c.Geo)
	if err != nil {
		return err
	}
	defer done()
	for _, l := range c.Lists {
		x.Label("%s", l.Format)
	}
	db, err := ipDBs(c.Lists, geo)
	if err != nil {
		return fmt.Errorf("valid lists were not loaded: %v", err)
	}
	defer db.Close()
	u := newUps(c.Answers)
	opt := rdns.ClientBlocklistOptions{BlocklistDB: db, UseECS: c.UseECS}
	if c.BlockRes {
		opt.BlocklistResolver = u.list[1]
	}
	b, err := rdns.NewClientBlocklist("b", u.list[0], opt)
	if err != nil {
		return err
	}
	for i, cq := range c.Qs {
		q := cq.Msg()
		client := ci(c.From[i])
		if v4 := client.SourceIP.To4(); v4 != nil && i%2 == 1 {
			client.SourceIP = v4 // both representations occur
		}
		ip := client.SourceIP
		if c.UseECS && cq.EDNS != nil {
			for _, o := range cq.EDNS.Opts {
				if o.ECS != nil {
					ip = net.ParseIP(o.ECS.Addr)
					x.Label("address from ECS")
					break
				}
			}
		}
		h := hit{}
		if ip != nil {
			h = matchAllIP(c.Lists, ip, c.Geo)
		}
		x.LabelIf(ip == nil, "no address")
		before := u.counts()
		a, err := b.Resolve(q, client)
		if kit.Text(q) != kit.Text(cq.Msg()) {
			return fmt.Errorf("query %d: the client's query was changed", i)
		}
		q = cq.Msg()
		to, code := []int{0}, -1
		if h.ok {
			x.NonTrivial()
			x.Label("blocked")
			to, code = nil, dns.RcodeRefused
			if c.BlockRes {
				to, code = []int{1}, -1
			}
		}
		if err := u.wentTo(before, q, client, to...); err != nil {
			return fmt.Errorf("query %d from %s (match: %v): %w", i, client.SourceIP, h.ok, err)
		}
		if code < 0 {
			err = same(c.Answers[to[0]], q, a, err)
		} else {
			err = replied(q, a, err, code, nil)
		}
		if err != nil {
			return fmt.Errorf("query %d from %s: %w", i, client.SourceIP, err)
		}
	}
	return nil
}

// ---- generators ----

var prefixes4 = []int{8, 12, 16, 23, 24, 25, 30, 31, 32, 9, 1, 0}
var prefixes6 = []int{32, 48, 56, 60, 64, 112, 120, 127, 128, 16, 1, 0}

func genNet(t *rapid.T, host bool) string {
	v6 := kit.Chance(t, "net6", 40)
	var ip net.IP
	n, bits := 0, 32
	if v6 {
		ip = net.ParseIP(kit.IP6(t))
		n, bits = kit.Pick(t, "len6", prefixes6...), 128
		if n == 0 && !kit.Chance(t, "all6", 30) {
			n = 64
		}
	} else {
		ip = net.ParseIP(kit.IP4(t)).To4()
		n = kit.Pick(t, "len4", prefixes4...)
		if n <= 1 && !kit.Chance(t, "all4", 30) {
			n = 24
		}
	}
	if !host {
		ip = ip.Mask(net.CIDRMask(n, bits))
	}
	return fmt.Sprintf("%s/%d", ip, n)
}

func genCIDR(t *rapid.T, bad bool) string {
	switch kit.Int(t, "line", 0, 24) {
	case 23:
		return kit.Pick(t, "blank", "", " ")
	case 24:
		return kit.Pick(t, "comment", "# 10.0.0.0/8", "#0.0.0.0/0", " # ::/0")
	case 22:
		return dress(t, kit.IP(t)) // single address
	case 21:
		if strings.Contains(kit.Pick(t, "mapped", "y", "n"), "y") {
			return fmt.Sprintf("::ffff:%s/%d", kit.IP4(t), 96+kit.Pick(t, "lenm", 24, 32, 16, 8, 31))
		}
	}
	if bad && kit.Chance(t, "badrule", 50) {
		return kit.Pick(t, "bad", "10.0.0.0/33", "10.0.0", "::/129", "example.com", "10.0.0.256", "10.0.0.0/8 x", "fe80::1%eth0")
	}
	return dress(t, genNet(t, kit.Chance(t, "hostbits", 25)))
}

var places = []uint32{1, 2, 3, 77, 300, 70000, 6255148, 4294967295}

func genGeo(t *rapid.T) []GeoNet {
	return kit.List(t, "geo", 1, 8, func(t *rapid.T) GeoNet {
		pick := func(n string) uint32 { return kit.Pick(t, n, append([]uint32{0}, places...)...) }
		return GeoNet{Net: genNet(t, false), Continent: pick("continent"), Country: pick("country"), City: pick("city"), ASN: pick("asn"),
			Subs: kit.List(t, "subs", 0, 3, func(t *rapid.T) uint32 { return kit.Pick(t, "sub", places...) })}
	})
}

func genIPLists(t *rapid.T, bad bool) ([]List, []GeoNet) {
	var geo []GeoNet
	if kit.Chance(t, "located", 30) {
		geo = genGeo(t)
	}
	lists := kit.List(t, "lists", 1, 3, func(t *rapid.T) List {
		f := "cidr"
		if geo != nil {
			f = kit.Pick(t, "format", "cidr", "location", "location", "asn")
		}
		return List{Format: f, Rules: kit.List(t, "rules", 0, 6, func(t *rapid.T) string {
			if f == "cidr" {
				return genCIDR(t, bad)
			}
			return kit.Pick(t, "prepend", "", "", " ") + fmt.Sprint(kit.Pick(t, "place", places...)) + kit.Pick(t, "append", "", "", " # x", "#1")
		})}
	})
	return lists, geo
}

// aimIP draws an address in or near a network of the rules.
func aimIP(t *rapid.T, lists []List, geo []GeoNet, v6 bool) string {
	var nets []*net.IPNet
	wide := false // an IPv6 network which contains the IPv4-mapped addresses
	add := func(n *net.IPNet) {
		ones, bits := n.Mask.Size()
		if (bits == 128) == v6 {
			nets = append(nets, n)
		}
		wide = wide || bits == 128 && ones < 96 && n.Contains(net.ParseIP("::ffff:0:0").To16())
	}
	for _, l := range lists {
		for _, r := range l.Rules {
			if l.Format == "cidr" && !ignored(r) && (List{Format: "cidr", Rules: []string{r}}).valid() {
				add(cidr(r))
			}
		}
	}
	for _, g := range geo {
		add(cidr(g.Net))
	}
	draw := kit.IP4
	if v6 {
		draw = kit.IP6
	}
	if v6 && geo == nil && !wide && kit.Chance(t, "mapped", 5) {
		return "::ffff:" + kit.IP4(t)
	}
	s := draw(t)
	if len(nets) == 0 || !kit.Chance(t, "aimip", 70) {
		return s
	}
	n := kit.Pick(t, "net", nets...)
	ones, bits := n.Mask.Size()
	ip := append(net.IP(nil), n.IP...)
	if bits == 32 {
		ip = append(net.IP(nil), n.IP.To4()...)
	}
	set := func(i int, v byte) {
		ip[i/8] = ip[i/8]&^(1<<(7-i%8)) | v<<(7-i%8)
	}
	switch kit.Int(t, "near", 0, 5) {
	case 0, 1: // inside, host bits all set
		for i := ones; i < bits; i++ {
			set(i, 1)
		}
	case 2: // inside, one host bit set
		if ones < bits {
			set(kit.Int(t, "bit", ones, bits-1), 1)
		}
	case 3: // just outside: the last prefix bit flipped
		if ones > 0 {
			ip[(ones-1)/8] ^= 1 << (7 - (ones-1)%8)
		}
	case 4: // outside: some prefix bit flipped
		if ones > 0 {
			i := kit.Int(t, "flip", 0, ones-1)
			ip[i/8] ^= 1 << (7 - i%8)
		}
	}
	if bits == 128 && ip.To4() != nil {
		return s
	}
	return ip.String()
}

func genEDE(t *rapid.T) (uint16, string) {
	switch kit.Int(t, "ede", 0, 3) {
	case 1:
		return 15, ""
	case 2:
		return kit.Pick[uint16](t, "code", 0, 15, 17), "blocked"
	case 3:
		return kit.Pick[uint16](t, "code", 0, 15, 17), edeAll
	}
	return 0, ""
}

func genResponse(t *rapid.T, c *Response, rr func(t *rapid.T, owner string) string) {
	c.BlockRes = kit.Chance(t, "blockres", 30)
	c.Inverted = kit.Chance(t, "inverted", 30)
	c.EDE, c.EDEText = genEDE(t)
	c.Other = genAnswer(t, 1)
	n := kit.Int(t, "queries", 1, 4)
	for i := 0; i < n; i++ {
		q := kit.GenQ(t, 1, 3)
		c.Qs = append(c.Qs, q)
		if kit.Chance(t, "norecords", 8) {
			c.Rs = append(c.Rs, genAnswer(t, 0))
			continue
		}
		section := func(name string, hi int) []string {
			return kit.List(t, name, 0, hi, func(t *rapid.T) string { return rr(t, lower(q.Name)) })
		}
		r := kit.R{RA: true, AA: kit.Chance(t, "aa", 20), AD: kit.Chance(t, "rad", 20), An: section("an", 4), Ns: section("ns", 2), Ex: section("ex", 2)}
		r.Rcode = kit.Pick(t, "rcode", 0, 0, 0, 0, 0, 0, dns.RcodeNameError, dns.RcodeServerFailure)
		r.EDNS = kit.GenEDNS(t)
		c.Rs = append(c.Rs, r)
	}
}

func genResponseIP(t *rapid.T) Response {
	var c Response
	c.Lists, c.Geo = genIPLists(t, kit.Chance(t, "invalid", 4))
	c.Filter = kit.Chance(t, "filter", 40)
	genResponse(t, &c, func(t *rapid.T, owner string) string {
		head := fmt.Sprintf("%s %d IN ", owner, kit.TTL(t))
		switch kit.Int(t, "rr", 0, 5) {
		case 0:
			return kit.GenRR(t, owner, kit.Pick(t, "rrtype", dns.TypeCNAME, dns.TypeMX, dns.TypeTXT, dns.TypeNS), kit.TTL(t))
		case 1, 2:
			return head + "AAAA " + aimIP(t, c.Lists, c.Geo, true)
		}
		return head + "A " + aimIP(t, c.Lists, c.Geo, false)
	})
	return c
}

func genResponseName(t *rapid.T) Response {
	var c Response
	bad := kit.Chance(t, "invalid", 4)
	c.Lists = kit.List(t, "lists", 1, 3, func(t *rapid.T) List {
		return genNameList(t, kit.Pick(t, "format", "domain", "domain-subdomain", "regexp", "hosts"), 0, 6, bad)
	})
	genResponse(t, &c, func(t *rapid.T, owner string) string {
		head := fmt.Sprintf("%s %d IN ", owner, kit.TTL(t))
		n := aim(t, c.Lists)
		switch kit.Int(t, "rr", 0, 10) {
		case 0:
			return kit.GenRR(t, owner, kit.Pick(t, "rrtype", dns.TypeA, dns.TypeAAAA, dns.TypeCAA, dns.TypeDS), kit.TTL(t))
		case 1, 2:
			return head + "CNAME " + n
		case 3:
			return head + "MX 10 " + n
		case 4:
			return head + "NS " + n
		case 5:
			return head + "PTR " + n
		case 6:
			return head + "SRV 0 0 80 " + n
		case 7:
			return head + "HTTPS 1 " + n + kit.Pick(t, "params", "", ` alpn="h2"`, ` port="8443"`, ` alpn="h2" no-default-alpn`)
		case 8:
			return head + "TXT " + kit.Pick(t, "txt", `"`+n+`"`, `"`+strings.TrimSuffix(n, ".")+`"`, `"v=spf1 include:`+n+`"`, `"ads" "`+n+`"`)
		case 9:
			return head + "SOA " + n + " h.test. 1 2 3 4 5"
		}
		return head + "SVCB 1 " + n + kit.Pick(t, "params", "", ` alpn="h2"`, ` port="8443"`, ` alpn="h2" no-default-alpn`)
	})
	return c
}

func genClient(t *rapid.T) Client {
	var c Client
	c.Lists, c.Geo = genIPLists(t, false)
	c.BlockRes = kit.Chance(t, "blockres", 30)
	c.UseECS = kit.Chance(t, "useecs", 40)
	c.Answers = genAnswers(t, 2)
	n := kit.Int(t, "queries", 1, 6)
	for i := 0; i < n; i++ {
		q := kit.GenQ(t, 1, 3)
		if q.EDNS != nil {
			for j := range q.EDNS.Opts {
				if e := q.EDNS.Opts[j].ECS; e != nil {
					v6 := kit.Chance(t, "ecs6", 40)
					e.Addr, e.Mask = aimIP(t, c.Lists, c.Geo, v6), 32
					if v6 {
						e.Mask = 128
					}
					if strings.HasPrefix(e.Addr, "::ffff:") {
						e.Addr = "2001:db8::5"
					}
					if kit.Chance(t, "masked", 30) {
						if v6 {
							e.Mask = kit.Pick[uint8](t, "mask6", 0, 32, 56, 64)
						} else {
							e.Mask = kit.Pick[uint8](t, "mask4", 0, 8, 16, 24)
						}
						e.Addr = net.ParseIP(e.Addr).Mask(net.CIDRMask(int(e.Mask)+map[bool]int{false: 96}[v6], 128)).String()
					}
				}
			}
		}
		from := ""
		if !kit.Chance(t, "noaddr", 5) {
			from = aimIP(t, c.Lists, c.Geo, kit.Chance(t, "from6", 40))
		}
		c.Qs, c.From = append(c.Qs, q), append(c.From, from)
	}
	return c
}
