package filter

import (
	"encoding/hex"
	"fmt"
	"net"
	"reflect"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Query is a query blocklist and queries sent through it.
type Query struct {
	Block    []List  `json:"block"`
	Allow    []List  `json:"allow,omitempty"`
	BlockRes bool    `json:"blockres,omitempty"` // there is a blocklist-resolver
	AllowRes bool    `json:"allowres,omitempty"`
	EDE      uint16  `json:"ede,omitempty"`
	EDEText  string  `json:"edetext,omitempty"`
	Qs       []kit.Q `json:"qs"`
	Client   string  `json:"client,omitempty"`
	Answers  []kit.R `json:"answers"` // of upstream, blocklist-resolver and allowlist-resolver
}

const edeAll = "{{ .ID }} {{ .Question }} {{ .QuestionType }} {{ .QuestionClass }} [{{ .Blocklist }}] <{{ .BlocklistRule }}>"

func ci(client string) rdns.ClientInfo {
	return rdns.ClientInfo{SourceIP: net.ParseIP(client), Listener: "l", DoHPath: "/p", TLSServerName: "s"}
}

// ups are the resolvers around a blocklist.
type ups struct {
	all  []*kit.Up
	list []rdns.Resolver
}

func newUps(answers []kit.R) ups {
	var u ups
	for i, name := range []string{"upstream", "blocklist-resolver", "allowlist-resolver"} {
		if i >= len(answers) {
			break
		}
		up := kit.Const(name, answers[i])
		u.all = append(u.all, up)
		u.list = append(u.list, up)
	}
	return u
}

// counts are the calls made so far.
func (u ups) counts() []int {
	var n []int
	for _, up := range u.all {
		n = append(n, up.N())
	}
	return n
}

// wentTo checks that since the counts were taken the query went, as it was,
// to exactly the given resolvers, in any order.
func (u ups) wentTo(before []int, q *dns.Msg, c rdns.ClientInfo, want ...int) error {
	for i, up := range u.all {
		w := 0
		for _, j := range want {
			if i == j {
				w++
			}
		}
		if got := up.N() - before[i]; got != w {
			return fmt.Errorf("%s got %d queries, expected %d", up.ID, got, w)
		}
		for _, call := range up.Calls()[before[i]:] {
			if kit.Text(call.Q) != kit.Text(q) {
				return fmt.Errorf("%s got\n%s\nand not the query\n%s", up.ID, kit.Text(call.Q), kit.Text(q))
			}
			if !reflect.DeepEqual(call.CI, c) {
				return fmt.Errorf("%s got the query from %+v, not %+v", up.ID, call.CI, c)
			}
		}
	}
	return nil
}

// same checks that a response is what a resolver gave.
func same(r kit.R, q, a *dns.Msg, err error) error {
	want, werr := r.Msg(q)
	if (werr != nil) != (err != nil) || kit.Text(want) != kit.Text(a) {
		return fmt.Errorf("got\n%s (%v)\ninstead of the resolver's\n%s (%v)", kit.Text(a), err, kit.Text(want), werr)
	}
	return nil
}

// replied checks that a is an own reply to q with the code and answers.
func replied(q, a *dns.Msg, err error, rcode int, an []dns.RR) error {
	if err != nil || a == nil {
		return fmt.Errorf("got response %v, error %v; expected an own reply with code %d", a, err, rcode)
	}
	if err := kit.SameQuestion(q, a); err != nil {
		return err
	}
	if !a.Response || a.Rcode != rcode || a.Opcode != q.Opcode || a.RecursionDesired != q.RecursionDesired ||
		a.CheckingDisabled != q.CheckingDisabled || a.Truncated || a.AuthenticatedData || a.Authoritative || !a.RecursionAvailable {
		return fmt.Errorf("expected an own reply with code %d, got\n%s", rcode, kit.Text(a))
	}
	if len(a.Answer) != len(an) {
		return fmt.Errorf("got %d answers, expected %d:\n%s", len(a.Answer), len(an), kit.Text(a))
	}
	for i := range an {
		if kit.RRText(a.Answer[i]) != kit.RRText(an[i]) {
			return fmt.Errorf("answer %d is %s, expected %s", i, kit.RRText(a.Answer[i]), kit.RRText(an[i]))
		}
	}
	for _, rr := range append(append([]dns.RR(nil), a.Ns...), a.Extra...) {
		if rr.Header().Rrtype != dns.TypeOPT {
			return fmt.Errorf("unexpected record in own reply\n%s", kit.Text(a))
		}
	}
	return nil
}

// ede checks the extended error of a blocked query.
func ede(q, a *dns.Msg, code uint16, text string, list string, rules map[string]bool) error {
	e := kit.FindEDE(a)
	if code == 0 && text == "" {
		if e != nil {
			return fmt.Errorf("unexpected extended error\n%s", kit.Text(a))
		}
		return nil
	}
	if e == nil {
		return fmt.Errorf("no extended error in\n%s", kit.Text(a))
	}
	var want []string
	switch text {
	case "", "blocked":
		want = []string{text}
	case edeAll:
		for r := range rules {
			want = append(want, fmt.Sprintf("%d %s %s %s [%s] <%s>", q.Id, q.Question[0].Name, dns.TypeToString[q.Question[0].Qtype],
				dns.ClassToString[q.Question[0].Qclass], list, r))
		}
	}
	for _, w := range want {
		if e.ExtraText == w && e.InfoCode == code {
			return nil
		}
	}
	return fmt.Errorf("extended error is %d %q, expected %d and one of %q", e.InfoCode, e.ExtraText, code, want)
}

// macOf is the client MAC address in a query.
func macOf(q kit.Q) string {
	if q.EDNS == nil {
		return ""
	}
	mac := ""
	for _, o := range q.EDNS.Opts {
		if b, err := hex.DecodeString(o.Data); o.ECS == nil && o.Code == 65001 && err == nil && len(b) == 6 {
			mac = o.Data
		}
	}
	return mac
}

func runQuery(x *kit.Ctx, c Query) error {
	good := true
	for _, l := range append(append([]List(nil), c.Block...), c.Allow...) {
		good = good && l.valid()
		x.Label("%s", l.Format)
	}
	blockDB, err := nameDBs(c.Block)
	var allowDB rdns.BlocklistDB
	if err == nil && len(c.Allow) > 0 {
		allowDB, err = nameDBs(c.Allow)
	}
	if !good {
		x.Label("invalid rule")
		if err == nil {
			return fmt.Errorf("a list with an invalid rule was loaded")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("valid lists were not loaded: %v", err)
	}
	u := newUps(c.Answers)
	opt := rdns.BlocklistOptions{BlocklistDB: blockDB, AllowlistDB: allowDB}
	if c.BlockRes {
		opt.BlocklistResolver = u.list[1]
	}
	if c.AllowRes {
		opt.AllowListResolver = u.list[2]
	}
	if opt.EDNS0EDETemplate, err = rdns.NewEDNS0EDETemplate(c.EDE, c.EDEText); err != nil {
		return err
	}
	b, err := rdns.NewBlocklist("b", u.list[0], opt)
	if err != nil {
		return err
	}
	for i, cq := range c.Qs {
		if err := c.one(x, b, u, cq); err != nil {
			return fmt.Errorf("query %d (%s %d): %w", i, cq.Name, cq.Type, err)
		}
	}
	return nil
}

func (c Query) one(x *kit.Ctx, b rdns.Resolver, u ups, cq kit.Q) error {
	q := cq.Msg()
	mac := macOf(cq)
	allow := matchAll(c.Allow, cq.Name, cq.Type, mac)
	block := matchAll(c.Block, cq.Name, cq.Type, mac)
	before := u.counts()
	a, err := b.Resolve(q, ci(c.Client))
	if kit.Text(q) != kit.Text(cq.Msg()) {
		return fmt.Errorf("the client's query was changed")
	}
	q = cq.Msg()
	switch {
	case allow.ok:
		x.NonTrivial()
		x.Label("allowed")
		x.LabelIf(block.ok, "allowed although blocked")
		to := 0
		if c.AllowRes {
			to = 2
		}
		if err := u.wentTo(before, q, ci(c.Client), to); err != nil {
			return err
		}
		return same(c.Answers[to], q, a, err)
	case !block.ok:
		x.Label("no match")
		if err := u.wentTo(before, q, ci(c.Client), 0); err != nil {
			return err
		}
		return same(c.Answers[0], q, a, err)
	}
	x.NonTrivial()
	x.Label("blocked")
	if len(block.names) > 0 {
		x.Label("ptr")
		if err := u.wentTo(before, q, ci(c.Client)); err != nil {
			return err
		}
		var an []dns.RR
		for _, n := range block.names[:min(10, len(block.names))] {
			an = append(an, &dns.PTR{Hdr: dns.RR_Header{Name: cq.Name, Rrtype: dns.TypePTR, Class: dns.ClassINET, Ttl: 3600}, Ptr: dns.Fqdn(n)})
		}
		return replied(q, a, err, 0, an)
	}
	if c.BlockRes {
		x.Label("to blocklist-resolver")
		if err := u.wentTo(before, q, ci(c.Client), 1); err != nil {
			return err
		}
		return same(c.Answers[1], q, a, err)
	}
	if err := u.wentTo(before, q, ci(c.Client)); err != nil {
		return err
	}
	if len(block.ips) > 0 {
		x.Label("spoofed")
		ips := block.ips
		if len(ips) > 10 && a != nil { // long lists are cut
			ips = ips[:max(10, min(len(ips), len(a.Answer)))]
		}
		var an []dns.RR
		for _, ip := range ips {
			h := dns.RR_Header{Name: cq.Name, Rrtype: cq.Type, Class: q.Question[0].Qclass, Ttl: 3600}
			if cq.Type == dns.TypeA {
				an = append(an, &dns.A{Hdr: h, A: ip})
			} else {
				an = append(an, &dns.AAAA{Hdr: h, AAAA: ip})
			}
		}
		return replied(q, a, err, 0, an)
	}
	x.Label("nxdomain")
	if err := replied(q, a, err, dns.RcodeNameError, nil); err != nil {
		return err
	}
	return ede(q, a, c.EDE, c.EDEText, block.list, block.rules)
}

// genAnswer draws what a resolver answers.
func genAnswer(t *rapid.T, i int) kit.R {
	r := kit.R{RA: true, An: []string{fmt.Sprintf("who.test. 60 IN TXT \"resolver %d\"", i)}}
	switch kit.Int(t, "answer", 0, 9) {
	case 8:
		r = kit.R{Nil: true}
	case 9:
		r = kit.R{Err: "failed"}
	}
	return r
}

func genAnswers(t *rapid.T, n int) []kit.R {
	var out []kit.R
	for i := 0; i < n; i++ {
		out = append(out, genAnswer(t, i))
	}
	return out
}

func genQuery(formats []string, multi bool) func(t *rapid.T) Query {
	return func(t *rapid.T) Query {
		var c Query
		bad := kit.Chance(t, "invalid", 4)
		list := func(t *rapid.T) List {
			return genNameList(t, kit.Pick(t, "format", formats...), 0, 8, bad)
		}
		if multi {
			c.Block = kit.List(t, "block", 1, 3, list)
			c.Allow = kit.List(t, "allow", 0, 2, list)
			c.BlockRes = kit.Chance(t, "blockres", 25)
			c.AllowRes = kit.Chance(t, "allowres", 30)
		} else {
			c.Block = []List{genNameList(t, kit.Pick(t, "format", formats...), 1, 14, bad)}
		}
		if l := &c.Block[0]; l.Format == "hosts" && kit.Chance(t, "long", 8) {
			n := genName(t, 2, 2)
			for i := 1; i <= kit.Int(t, "copies", 9, 14); i++ {
				l.Rules = append(l.Rules, fmt.Sprintf(kit.Pick(t, "longkind", "192.0.2.%d ", "2001:db8::%d "), i)+n)
			}
		}
		if l := &c.Block[0]; l.Format == "hosts" && kit.Chance(t, "names", 8) {
			ip := kit.Pick(t, "hip", "127.0.0.1", "192.0.2.1", "::1", "2001:db8::1")
			for i := 1; i <= kit.Int(t, "copies", 9, 14); i++ {
				l.Rules = append(l.Rules, fmt.Sprintf("%s n%d.%s", ip, i, genName(t, 1, 2)))
			}
		}
		switch kit.Int(t, "ede", 0, 3) {
		case 1:
			c.EDE = 15
		case 2:
			c.EDE, c.EDEText = kit.Pick[uint16](t, "code", 0, 15, 17), "blocked"
		case 3:
			c.EDE, c.EDEText = kit.Pick[uint16](t, "code", 0, 15, 17), edeAll
		}
		c.Client = kit.Pick(t, "client", "192.0.2.7", "2001:db8::7", "")
		c.Answers = genAnswers(t, 3)
		all := append(append([]List(nil), c.Block...), c.Allow...)
		c.Qs = kit.List(t, "qs", 1, 6, func(t *rapid.T) kit.Q {
			q := kit.Q{
				Name:  aim(t, all),
				Type:  kit.Pick(t, "qtype", dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeAAAA, dns.TypeMX, dns.TypeTXT, dns.TypeHTTPS, dns.TypeANY, dns.TypeCNAME),
				Class: kit.Pick[uint16](t, "qclass", 0, 0, 0, 0, 0, dns.ClassCHAOS),
				ID:    rapid.Uint16().Draw(t, "id"),
				RD:    !kit.Chance(t, "nord", 20),
				CD:    kit.Chance(t, "cd", 20),
				AD:    kit.Chance(t, "ad", 15),
			}
			if kit.Chance(t, "ptr", 15) {
				ip := kit.Pick(t, "pip", "127.0.0.1", "127.0.0.2", "192.0.2.1", "10.0.0.1", "0.0.0.0", "::", "::1", "2001:db8::1", "fe80::1", "192.0.2.99", "2001:db8::99")
				rev, _ := dns.ReverseAddr(ip)
				q.Type, q.Name = dns.TypePTR, kit.CaseMix(t, rev)
			}
			if kit.Chance(t, "edns", 60) {
				q.EDNS = &kit.E{Size: kit.Pick[uint16](t, "size", 1232, 512, 4096), DO: kit.Chance(t, "do", 40)}
				if kit.Chance(t, "mac", 70) {
					o := kit.Opt{Code: 65001, Data: kit.Pick(t, "macdata", "0123456789ab", "0123456789ac", "ffffffffffff", "000000000000", "0123456789ad")}
					junk := kit.Opt{Code: 65001, Data: kit.Pick(t, "junk", "", "0123456789", "0123456789ab00", "ff")}
					other := kit.Opt{Code: 65002, Data: "0123456789ab"}
					q.EDNS.Opts = kit.Pick(t, "opts", []kit.Opt{o}, []kit.Opt{o}, []kit.Opt{o}, []kit.Opt{junk}, []kit.Opt{junk, o}, []kit.Opt{o, junk}, []kit.Opt{other, o}, []kit.Opt{other})
				}
				if kit.Chance(t, "ecs", 15) {
					q.EDNS.Opts = append(q.EDNS.Opts, kit.Opt{ECS: kit.GenECS(t)})
				}
			}
			return q
		})
		return c
	}
}
