// Package modify checks the elements that change queries or responses on
// their way.
package modify

import (
	"errors"
	"fmt"
	"net"
	"regexp"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Elem is one element in front of an upstream; the kind says which fields
// are used.
type Elem struct {
	Kind    string        `json:"kind"`
	Select  string        `json:"select,omitempty"`
	Min     uint32        `json:"min,omitempty"`
	Max     uint32        `json:"max,omitempty"`
	Replace []Replacement `json:"replace,omitempty"`
	Op      string        `json:"op,omitempty"`
	Addr    string        `json:"addr,omitempty"`
	P4      uint8         `json:"p4,omitempty"`
	P6      uint8         `json:"p6,omitempty"`
	Code    uint16        `json:"code,omitempty"`
	Data    []byte        `json:"data,omitempty"`
	Rcode   int           `json:"rcode,omitempty"`
	TC      bool          `json:"tc,omitempty"`
	An      []string      `json:"an,omitempty"`
	Ns      []string      `json:"ns,omitempty"`
	Ex      []string      `json:"ex,omitempty"`
	Forms   [3][]int      `json:"forms"` // template numbers of the three sections
	EDE     int           `json:"ede,omitempty"`
	EDEForm int           `json:"edeform,omitempty"`
	Prefix  []string      `json:"prefix,omitempty"`
}

// Replacement is a replace rule.
type Replacement struct {
	From string `json:"from"`
	To   string `json:"to"`
}

// Case is a query sent through a chain of elements to a scripted upstream.
type Case struct {
	Chain  []Elem  `json:"chain"` // outermost first
	Q      kit.Q   `json:"q"`
	Client string  `json:"client,omitempty"` // client address
	Script []kit.R `json:"script"`           // responses to successive upstream queries, over and over
	Retry  []kit.R `json:"retry,omitempty"`  // those of the retry resolver
	Again  int     `json:"again,omitempty"`  // how often the query is repeated
}

func (c Case) ci() rdns.ClientInfo {
	return rdns.ClientInfo{SourceIP: net.ParseIP(c.Client), Listener: "l", DoHPath: "/p", TLSServerName: "s"}
}

// respond builds a scripted response, in which the owner @ is the query name.
func respond(r kit.R, q *dns.Msg) (*dns.Msg, error) {
	sub := func(ss []string) []string {
		var out []string
		for _, s := range ss {
			if strings.HasPrefix(s, "@ ") {
				s = q.Question[0].Name + s[1:]
			}
			out = append(out, s)
		}
		return out
	}
	r.An, r.Ns, r.Ex = sub(r.An), sub(r.Ns), sub(r.Ex)
	return r.Msg(q)
}

type fn func(q *dns.Msg) (*dns.Msg, error)

// build makes the element in front of next. Elements that only pass on are
// there so that chains have more than modifiers in them.
func (e Elem) build(next, retry rdns.Resolver) (rdns.Resolver, error) {
	switch e.Kind {
	case "ttl":
		f := map[string]rdns.TTLSelectFunc{"": nil, "lowest": rdns.TTLSelectLowest, "highest": rdns.TTLSelectHighest, "average": rdns.TTLSelectAverage,
			"first": rdns.TTLSelectFirst, "last": rdns.TTLSelectLast, "random": rdns.TTLSelectRandom}[e.Select]
		return rdns.NewTTLModifier("ttl", next, rdns.TTLModifierOptions{SelectFunc: f, MinTTL: e.Min, MaxTTL: e.Max}), nil
	case "replace":
		var ops []rdns.ReplaceOperation
		for _, r := range e.Replace {
			ops = append(ops, rdns.ReplaceOperation{From: r.From, To: r.To})
		}
		return rdns.NewReplace("replace", next, ops...)
	case "ecs":
		var f rdns.ECSModifierFunc
		switch e.Op {
		case "add":
			f = rdns.ECSModifierAdd(net.ParseIP(e.Addr), e.P4, e.P6)
		case "add-if-missing":
			f = rdns.ECSModifierAddIfMissing(net.ParseIP(e.Addr), e.P4, e.P6)
		case "delete":
			f = rdns.ECSModifierDelete
		case "privacy":
			f = rdns.ECSModifierPrivacy(e.P4, e.P6)
		}
		return rdns.NewECSModifier("ecs", next, f)
	case "edns0":
		var f rdns.EDNS0ModifierFunc
		switch e.Op {
		case "add":
			f = rdns.EDNS0ModifierAdd(e.Code, e.Data)
		case "delete":
			f = rdns.EDNS0ModifierDelete(e.Code)
		}
		return rdns.NewEDNS0Modifier("edns0", next, f)
	case "truncate-retry":
		return rdns.NewTruncateRetry("retry", next, retry, rdns.TruncateRetryOptions{}), nil
	case "minimize":
		return rdns.NewResponseMinimize("min", next), nil
	case "collapse":
		return rdns.NewResponseCollapse("collapse", next, rdns.ResponseCollapseOptions{NullRCode: e.Rcode}), nil
	case "drop":
		return rdns.NewDropResolver("drop"), nil
	case "static":
		ede, err := rdns.NewEDNS0EDETemplate(uint16(e.EDE), e.edeText())
		if err != nil {
			return nil, err
		}
		return rdns.NewStaticResolver("static", rdns.StaticResolverOptions{Answer: e.An, NS: e.Ns, Extra: e.Ex, RCode: e.Rcode, Truncate: e.TC, EDNS0EDETemplate: ede})
	case "template":
		ede, err := rdns.NewEDNS0EDETemplate(uint16(e.EDE), e.edeText())
		if err != nil {
			return nil, err
		}
		o := rdns.StaticResolverOptions{RCode: e.Rcode, Truncate: e.TC, EDNS0EDETemplate: ede}
		for i, out := range []*[]string{&o.Answer, &o.NS, &o.Extra} {
			for _, n := range e.Forms[i] {
				*out = append(*out, forms[n].tpl)
			}
		}
		return rdns.NewStaticTemplateResolver("template", o)
	case "dns64":
		return rdns.NewDNS64("dns64", next, rdns.DNS64Options{Prefixes: e.Prefix})
	case "dedup":
		return rdns.NewRequestDedup("dedup", next), nil
	case "rotate":
		return rdns.NewFailRotate("rotate", rdns.FailRotateOptions{}, next), nil
	case "router":
		route, err := rdns.NewRoute("", "", nil, nil, "", "", "", "", "", "", "", next)
		if err != nil {
			return nil, err
		}
		r := rdns.NewRouter("router")
		r.Add(route)
		return r, nil
	case "limit":
		return rdns.NewRateLimiter("limit", next, rdns.RateLimiterOptions{Requests: 1 << 30}), nil
	}
	return nil, fmt.Errorf("verif: kind %q", e.Kind)
}

// model is what the element in front of next does.
func (e Elem) model(c Case, next, retry fn) fn {
	switch e.Kind {
	case "ttl":
		return func(q *dns.Msg) (*dns.Msg, error) {
			a, err := next(q)
			if err != nil || a == nil {
				return a, err
			}
			var all []*dns.RR_Header
			for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
				for _, rr := range s {
					if rr.Header().Rrtype != dns.TypeOPT {
						all = append(all, rr.Header())
					}
				}
			}
			if len(all) == 0 {
				return a, nil
			}
			v, sum := all[0].Ttl, uint64(0)
			for _, h := range all {
				sum += uint64(h.Ttl)
				if e.Select == "lowest" && h.Ttl < v || e.Select == "highest" && h.Ttl > v || e.Select == "last" {
					v = h.Ttl
				}
			}
			if e.Select == "average" {
				v = uint32(sum / uint64(len(all)))
			}
			for _, h := range all {
				if e.Select != "" {
					h.Ttl = v
				}
				if h.Ttl < e.Min {
					h.Ttl = e.Min
				}
				if e.Max > 0 && h.Ttl > e.Max {
					h.Ttl = e.Max
				}
			}
			return a, nil
		}
	case "replace":
		return func(q *dns.Msg) (*dns.Msg, error) {
			from := q.Question[0].Name
			to := e.rename(from)
			if to == from {
				return next(q)
			}
			q = q.Copy()
			q.Question[0].Name = to
			a, err := next(q)
			if err != nil || a == nil {
				return nil, err
			}
			a.Question[0].Name = from
			for _, rr := range a.Answer {
				if rr.Header().Name == to {
					rr.Header().Name = from
				}
			}
			return a, nil
		}
	case "ecs":
		return func(q *dns.Msg) (*dns.Msg, error) {
			q = q.Copy()
			e.ecs(c, q)
			return next(q)
		}
	case "edns0":
		return func(q *dns.Msg) (*dns.Msg, error) {
			q = q.Copy()
			if e.Op == "" {
				return next(q)
			}
			strip(q, func(o dns.EDNS0) bool { return o.Option() == e.Code })
			if e.Op == "add" {
				o := opt(q)
				o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: e.Code, Data: e.Data})
			}
			return next(q)
		}
	case "truncate-retry":
		return func(q *dns.Msg) (*dns.Msg, error) {
			a, err := next(q)
			if err == nil && a != nil && a.Truncated {
				return retry(q)
			}
			return a, err
		}
	case "minimize":
		return func(q *dns.Msg) (*dns.Msg, error) {
			a, err := next(q)
			if err == nil && a != nil {
				a.Ns, a.Extra = nil, nil
			}
			return a, err
		}
	case "collapse":
		return func(q *dns.Msg) (*dns.Msg, error) {
			a, err := next(q)
			if err != nil || a == nil || a.Rcode != 0 {
				return a, err
			}
			w := q.Question[0]
			var keep []dns.RR
			for _, rr := range a.Answer {
				if h := rr.Header(); h.Rrtype == w.Qtype && h.Class == w.Qclass {
					h.Name = w.Name
					keep = append(keep, rr)
				}
			}
			if len(keep) == 0 {
				return reply(q, e.Rcode), nil
			}
			a.Answer = keep
			return a, nil
		}
	case "drop":
		return func(q *dns.Msg) (*dns.Msg, error) { return nil, nil }
	case "static", "template":
		return func(q *dns.Msg) (*dns.Msg, error) {
			a := reply(q, e.Rcode)
			a.Authoritative, a.Truncated = true, e.TC
			if e.Kind == "static" {
				a.Answer, a.Ns, a.Extra = kit.RRs(e.An), kit.RRs(e.Ns), kit.RRs(e.Ex)
				for _, rr := range a.Answer {
					rr.Header().Name = q.Question[0].Name
				}
			} else {
				for i, out := range []*[]dns.RR{&a.Answer, &a.Ns, &a.Extra} {
					for _, n := range e.Forms[i] {
						if s, ok := forms[n].out(q); ok {
							if rr, err := dns.NewRR(s); err == nil {
								*out = append(*out, rr)
							}
						}
					}
				}
			}
			if e.EDE == 0 && e.edeText() == "" {
				return a, nil
			}
			if text, ok := edeForms[e.EDEForm].out(q); ok {
				a.Extra = append(a.Extra, &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT, Class: 4096},
					Option: []dns.EDNS0{&dns.EDNS0_EDE{InfoCode: uint16(e.EDE), ExtraText: text}}})
			}
			return a, nil
		}
	case "dns64":
		return func(q *dns.Msg) (*dns.Msg, error) {
			a, err := next(q)
			if o := q.IsEdns0(); q.Question[0].Qtype != dns.TypeAAAA || o != nil && o.Do() {
				return a, err
			}
			if err != nil || a == nil || a.Rcode != 0 {
				return a, err
			}
			for _, rr := range a.Answer {
				if rr.Header().Rrtype == dns.TypeAAAA {
					return a, nil
				}
			}
			qa := q.Copy()
			qa.Question[0].Qtype = dns.TypeA
			b, err := next(qa)
			if err != nil || b == nil || b.Rcode != 0 {
				return a, nil
			}
			var chain, made []dns.RR
			for _, rr := range b.Answer {
				switch r := rr.(type) {
				case *dns.CNAME:
					chain = append(chain, r)
				case *dns.A:
					for _, p := range e.prefixes() {
						made = append(made, &dns.AAAA{Hdr: dns.RR_Header{Name: r.Hdr.Name, Rrtype: dns.TypeAAAA, Class: q.Question[0].Qclass, Ttl: r.Hdr.Ttl}, AAAA: embed(p, r.A)})
					}
				}
			}
			if len(made) == 0 {
				return a, nil
			}
			m := reply(q, 0)
			m.RecursionAvailable = a.RecursionAvailable
			m.Answer, m.Ns, m.Extra = append(chain, made...), b.Ns, b.Extra
			return m, nil
		}
	}
	return next
}

func (e Elem) rename(name string) string {
	for _, r := range e.Replace {
		name = regexp.MustCompile(r.From).ReplaceAllString(name, r.To)
	}
	return name
}

func (e Elem) edeText() string { return edeForms[e.EDEForm].tpl }

func (e Elem) prefixes() []*net.IPNet {
	list := e.Prefix
	if len(list) == 0 {
		list = []string{"64:ff9b::/96"}
	}
	var out []*net.IPNet
	for _, s := range list {
		_, n, err := net.ParseCIDR(s)
		if err != nil {
			panic(err)
		}
		out = append(out, n)
	}
	return out
}

// embed puts an IPv4 address behind a prefix, leaving out bits 64 to 71.
func embed(p *net.IPNet, ip net.IP) net.IP {
	out := make(net.IP, 16)
	copy(out, p.IP.To16())
	n, _ := p.Mask.Size()
	at := n / 8
	for _, b := range ip.To4() {
		if at == 8 {
			at++
		}
		out[at] = b
		at++
	}
	return out
}

// reply is a response without records.
func reply(q *dns.Msg, rcode int) *dns.Msg {
	m := &dns.Msg{Question: []dns.Question{q.Question[0]}}
	m.Id, m.Response, m.Opcode, m.Rcode = q.Id, true, q.Opcode, rcode
	m.RecursionDesired, m.CheckingDisabled, m.RecursionAvailable = q.RecursionDesired, q.CheckingDisabled, true
	return m
}

// opt returns the OPT record and adds one if there is none.
func opt(q *dns.Msg) *dns.OPT {
	if q.IsEdns0() == nil {
		q.Extra = append(q.Extra, &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT, Class: 4096}})
	}
	return q.IsEdns0()
}

func strip(q *dns.Msg, match func(dns.EDNS0) bool) {
	o := q.IsEdns0()
	if o == nil {
		return
	}
	var keep []dns.EDNS0
	for _, p := range o.Option {
		if !match(p) {
			keep = append(keep, p)
		}
	}
	o.Option = keep
}

// ecs does to q what the element is configured for.
func (e Elem) ecs(c Case, q *dns.Msg) {
	isECS := func(o dns.EDNS0) bool { return o.Option() == dns.EDNS0SUBNET }
	mask := func(ip net.IP, family uint16, n uint8) net.IP {
		bits := 128
		if family == 1 {
			bits = 32
		}
		return ip.Mask(net.CIDRMask(int(n), bits))
	}
	switch e.Op {
	case "delete":
		strip(q, isECS)
	case "add", "add-if-missing":
		if o := q.IsEdns0(); o != nil && e.Op == "add-if-missing" {
			for _, p := range o.Option {
				if isECS(p) {
					return
				}
			}
		}
		strip(q, isECS)
		ip := net.ParseIP(e.Addr)
		if ip == nil {
			ip = net.ParseIP(c.Client)
		}
		if ip == nil {
			return // nothing is known that could be added
		}
		o := opt(q)
		if v4 := ip.To4(); v4 != nil {
			o.Option = append(o.Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: e.P4, Address: mask(v4, 1, e.P4)})
		} else {
			o.Option = append(o.Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 2, SourceNetmask: e.P6, Address: mask(ip, 2, e.P6)})
		}
	case "privacy":
		o := q.IsEdns0()
		if o == nil {
			return
		}
		for _, p := range o.Option {
			if s, ok := p.(*dns.EDNS0_SUBNET); ok {
				n := e.P6
				if s.Family == 1 {
					n = e.P4
				}
				if s.SourceNetmask > n {
					s.SourceNetmask = n
				}
				s.Address = mask(s.Address, s.Family, n)
			}
		}
	}
}

// form is a template with what it is known to make of a query.
type form struct {
	tpl string
	out func(q *dns.Msg) (string, bool)
}

func first(q *dns.Msg) string { return strings.Split(q.Question[0].Name, ".")[0] }

var forms = []form{
	{`{{ .Question }} 60 IN A 192.0.2.1`, func(q *dns.Msg) (string, bool) { return q.Question[0].Name + " 60 IN A 192.0.2.1", true }},
	{`. IN TXT "{{ .ID }} {{ .QuestionClass }} {{ .QuestionType }}"`, func(q *dns.Msg) (string, bool) {
		return fmt.Sprintf(`. 3600 IN TXT "%d %s %s"`, q.Id, dns.ClassToString[q.Question[0].Qclass], dns.TypeToString[q.Question[0].Qtype]), true
	}},
	{`{{ .Question }} IN A {{ replaceAll ( index ( split .Question "." ) 0 ) "-" "." }}`, func(q *dns.Msg) (string, bool) {
		return q.Question[0].Name + " 3600 IN A " + strings.ReplaceAll(first(q), "-", "."), true
	}},
	{`{{ .Question }} IN A {{ trimSuffix .Question ".rebind." }}`, func(q *dns.Msg) (string, bool) {
		return q.Question[0].Name + " 3600 IN A " + strings.TrimSuffix(q.Question[0].Name, ".rebind."), true
	}},
	{`x.test. 30 IN CNAME {{ trimPrefix .Question "www." }}`, func(q *dns.Msg) (string, bool) {
		return "x.test. 30 IN CNAME " + strings.TrimPrefix(q.Question[0].Name, "www."), true
	}},
	{`x.test. 30 IN CNAME {{ join (split .Question ".") "-" }}.test.`, func(q *dns.Msg) (string, bool) {
		return "x.test. 30 IN CNAME " + strings.Join(strings.Split(q.Question[0].Name, "."), "-") + ".test.", true
	}},
	{`{{ if eq .QuestionType "A" }}{{ .Question }} IN A 192.0.2.9{{ else }}{{ .Question }} IN AAAA 2001:db8::9{{ end }}`, func(q *dns.Msg) (string, bool) {
		if q.Question[0].Qtype == dns.TypeA {
			return q.Question[0].Name + " IN A 192.0.2.9", true
		}
		return q.Question[0].Name + " IN AAAA 2001:db8::9", true
	}},
	{`{{ .Question }} IN A {{ index ( split .Question "." ) 3 }}.1.1.1`, func(q *dns.Msg) (string, bool) {
		l := strings.Split(q.Question[0].Name, ".")
		if len(l) < 4 {
			return "", false
		}
		return q.Question[0].Name + " IN A " + l[3] + ".1.1.1", true
	}},
	{`fixed.test. 5 IN MX 10 mx.test.`, func(q *dns.Msg) (string, bool) { return "fixed.test. 5 IN MX 10 mx.test.", true }},
}

var edeForms = []form{
	{"", func(*dns.Msg) (string, bool) { return "", true }},
	{"Blocked because reasons", func(*dns.Msg) (string, bool) { return "Blocked because reasons", true }},
	{"{{ .Question }} is banned!", func(q *dns.Msg) (string, bool) { return q.Question[0].Name + " is banned!", true }},
	{"{{ .ID }}/{{ .QuestionType }}/{{ .QuestionClass }}{{ .Blocklist }}{{ .BlocklistRule }}", func(q *dns.Msg) (string, bool) {
		return fmt.Sprintf("%d/%s/%s", q.Id, dns.TypeToString[q.Question[0].Qtype], dns.ClassToString[q.Question[0].Qclass]), true
	}},
	{`{{ index ( split .Question "." ) 2 }}`, func(q *dns.Msg) (string, bool) {
		l := strings.Split(q.Question[0].Name, ".")
		if len(l) < 3 {
			return "", false
		}
		return l[2], true
	}},
}

// genScript draws the responses of an upstream.
func genScript(t *rapid.T, label string, q kit.Q, hi int) []kit.R {
	return kit.List(t, label, 1, hi, func(t *rapid.T) kit.R {
		r := kit.R{RA: kit.Chance(t, "ra", 80), AA: kit.Chance(t, "aa", 10), AD: kit.Chance(t, "ad", 15), TC: kit.Chance(t, "tc", 20)}
		switch kit.Int(t, "outcome", 0, 11) {
		case 0:
			return kit.R{Err: "no luck"}
		case 1:
			return kit.R{Nil: true}
		case 2:
			r.Rcode = kit.Pick(t, "rcode", 2, 3, 5)
		}
		owner := "@"
		for i := kit.Int(t, "cnames", 0, 2) * kit.Int(t, "chained", 0, 1); i > 0; i-- {
			to := kit.CaseMix(t, kit.Name(t, 1, 3))
			r.An = append(r.An, fmt.Sprintf("%s %d IN CNAME %s", owner, kit.TTL(t), to))
			owner = to
		}
		want := q.Type
		if want == dns.TypeANY || want == dns.TypeCNAME {
			want = dns.TypeTXT
		}
		for i := kit.Int(t, "answers", 0, 4); i > 0; i-- {
			typ := want
			if kit.Chance(t, "othertype", 35) {
				typ = kit.Pick(t, "type", dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeTXT, dns.TypeMX)
			}
			own := owner
			if kit.Chance(t, "otherowner", 10) {
				own = kit.Name(t, 1, 3)
			}
			r.An = append(r.An, kit.GenRR(t, own, typ, kit.TTL(t)))
		}
		r.Ns = kit.GenRRs(t, "ns", "z.test.", 0, 2, dns.TypeNS, dns.TypeSOA)
		r.Ex = kit.GenRRs(t, "ex", "n.test.", 0, 2, dns.TypeA, dns.TypeAAAA)
		r.EDNS = kit.GenEDNS(t)
		if kit.Chance(t, "optfirst", 10) && r.EDNS != nil {
			r.Ex = nil
		}
		return r
	})
}

func genQuery(t *rapid.T, types ...uint16) kit.Q {
	q := kit.GenQ(t, 0, 4)
	if len(types) > 0 && kit.Chance(t, "usual", 75) {
		q.Type = kit.Pick(t, "type", types...)
	}
	return q
}

// genCase draws cases with one of the kinds of elements.
func genCase(kinds ...string) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		e := genElem(t, kinds...)
		var types []uint16
		switch e.Kind {
		case "dns64":
			types = []uint16{dns.TypeAAAA}
		default:
			types = []uint16{dns.TypeA, dns.TypeAAAA}
		}
		c := Case{Chain: []Elem{e}, Q: genQuery(t, types...), Client: genClient(t)}
		c.fill(t)
		return c
	}
}

func genClient(t *rapid.T) string {
	if kit.Chance(t, "noclient", 5) {
		return ""
	}
	return kit.IP(t)
}

func (c *Case) fill(t *rapid.T) {
	for i, e := range c.Chain {
		switch e.Kind {
		case "template":
			if kit.Chance(t, "ipname", 30) {
				c.Q.Name = kit.Pick(t, "ipn", "192-168-1-12.rebind.", "192.168.1.12.rebind.", "www.a.test.", "10.0.0.1.rebind.", "1-2.test.", "a.b.c.7.d.")
			}
		case "replace":
			if kit.Chance(t, "renamed", 50) {
				c.Q.Name = kit.CaseMix(t, kit.Pick(t, "rn", "nam-12.", "www.a.test.", "a.test.", "b.a.com.", "nam-host.test.", "x.www.test."))
			}
		case "ecs":
			if e.Op == "privacy" && kit.Chance(t, "hasecs", 70) {
				c.Q.EDNS = &kit.E{Size: 1232, Opts: []kit.Opt{{ECS: kit.GenECS(t)}}}
				if kit.Chance(t, "two", 15) {
					c.Q.EDNS.Opts = append(c.Q.EDNS.Opts, kit.Opt{Code: 65001, Data: "01"}, kit.Opt{ECS: kit.GenECS(t)})
				}
			}
			if kit.Chance(t, "twice", 10) && c.Q.EDNS != nil {
				c.Q.EDNS.Opts = append(c.Q.EDNS.Opts, kit.Opt{ECS: kit.GenECS(t)})
			}
		case "edns0":
			if c.Q.EDNS != nil && kit.Chance(t, "has", 50) {
				for n := kit.Int(t, "hasn", 1, 2); n > 0; n-- {
					c.Q.EDNS.Opts = append(c.Q.EDNS.Opts, kit.Opt{Code: localCode(c.Chain[i].Code), Data: "0a0b"})
				}
				if kit.Chance(t, "rotate", 50) {
					c.Q.EDNS.Opts = append(c.Q.EDNS.Opts[1:], c.Q.EDNS.Opts[0])
				}
			}
		}
	}
	c.Script = genScript(t, "script", c.Q, 3)
	c.Retry = genScript(t, "retry", c.Q, 2)
	c.Again = kit.Int(t, "again", 0, 2)
}

// localCode avoids codes whose options are not kept as bytes by the harness.
func localCode(code uint16) uint16 {
	if code == dns.EDNS0SUBNET {
		return 65001
	}
	return code
}

var prefixes64 = []string{"64:ff9b::/96", "2001:db8:100::/40", "2001:db8::/32", "2001:db8:122::/48", "2001:db8:122:300::/56", "2001:db8:122:344::/64", "2001:db8:122:344::/96", "2001:db8:122:344:ff::/96", "2001:db8:ffff:ffff::1/64"}

func genElem(t *rapid.T, kinds ...string) Elem {
	e := Elem{Kind: kit.Pick(t, "kind", kinds...)}
	switch e.Kind {
	case "ttl":
		e.Select = kit.Pick(t, "select", "", "lowest", "highest", "average", "first", "last")
		e.Min = kit.Pick[uint32](t, "min", 0, 1, 30, 60, 300)
		e.Max = kit.Pick[uint32](t, "max", 0, 300, 301, 3600, 86400, 29, 5)
	case "replace":
		e.Replace = kit.List(t, "replace", 1, 3, func(t *rapid.T) Replacement {
			return kit.Pick(t, "rule",
				Replacement{`^(nam-\d+\.)$`, `${1}nam.internal.test.`},
				Replacement{`^www\.`, ``},
				Replacement{`\.test\.$`, `.com.`},
				Replacement{`\.com\.$`, `.test.`},
				Replacement{`a`, `b`},
				Replacement{`^(.)\.(.*)$`, `${2}${1}.`},
				Replacement{`^b\.`, `b.b.`},
				Replacement{`(?i)^WWW`, `web`},
			)
		})
	case "ecs":
		e.Op = kit.Pick(t, "op", "add", "add-if-missing", "delete", "privacy", "privacy", "")
		if kit.Chance(t, "fixed", 50) {
			e.Addr = kit.IP(t)
		}
		e.P4 = kit.Pick[uint8](t, "p4", 24, 0, 1, 8, 16, 31, 32)
		e.P6 = kit.Pick[uint8](t, "p6", 56, 0, 1, 48, 64, 127, 128)
	case "edns0":
		e.Op = kit.Pick(t, "op", "add", "delete", "")
		e.Code = kit.Pick[uint16](t, "code", 65001, 65002, 65534, 26, dns.EDNS0COOKIE, dns.EDNS0SUBNET)
		e.Data = []byte(kit.Pick(t, "data", "", "\x00", "abc", "\x52\x54\x00\xb6\x49\x60"))
	case "collapse":
		e.Rcode = kit.Pick(t, "null", 0, 3, 2, 5)
	case "static":
		e.Rcode = kit.Pick(t, "rcode", 0, 0, 0, 1, 2, 3, 5)
		e.TC = kit.Chance(t, "tc", 15)
		e.An = append(kit.GenRRs(t, "an", "o.test.", 0, 3), kit.Pick(t, "bare", nil, []string{"IN A 1.2.3.4"}, []string{`IN HINFO "RFC8482" "ANY obsoleted!"`}, []string{". 86400 IN A 1.2.3.4"})...)
		e.Ns = kit.GenRRs(t, "sns", "z.test.", 0, 2, dns.TypeNS, dns.TypeSOA)
		e.Ex = kit.GenRRs(t, "sex", "n.test.", 0, 2, dns.TypeA, dns.TypeAAAA)
		e.EDE = kit.Pick(t, "ede", 0, 0, 15, 1)
		e.EDEForm = kit.Int(t, "edeform", 0, len(edeForms)-1) * kit.Int(t, "edetext", 0, 1)
	case "template":
		e.Rcode = kit.Pick(t, "rcode", 0, 0, 0, 2, 3)
		e.TC = kit.Chance(t, "tc", 15)
		for i := range e.Forms {
			e.Forms[i] = kit.List(t, "forms", 0, 3, func(t *rapid.T) int { return kit.Int(t, "form", 0, len(forms)-1) })
		}
		e.EDE = kit.Pick(t, "ede", 0, 0, 15, 1)
		e.EDEForm = kit.Int(t, "edeform", 0, len(edeForms)-1) * kit.Int(t, "edetext", 0, 1)
	case "dns64":
		e.Prefix = kit.List(t, "prefixes", 0, 3, func(t *rapid.T) string { return kit.Pick(t, "prefix", prefixes64...) })
	}
	return e
}

// genChain draws cases with several elements.
func genChain(t *rapid.T) Case {
	c := Case{Q: genQuery(t, dns.TypeA, dns.TypeAAAA), Client: genClient(t)}
	c.Chain = kit.List(t, "chain", 2, 5, func(t *rapid.T) Elem {
		if kit.Chance(t, "final", 4) {
			return genElem(t, "static", "template", "drop")
		}
		e := genElem(t, "ttl", "replace", "ecs", "edns0", "truncate-retry", "minimize", "collapse", "dns64", "dedup", "rotate", "router", "limit", "dns64", "replace")
		e.Code = localCode(e.Code)
		return e
	})
	c.fill(t)
	return c
}

func sameErr(a, b error) bool {
	return (a == nil) == (b == nil) && (a == nil || a.Error() == b.Error() || errors.Is(a, b))
}

// run sends the query through the chain and compares what comes back, what
// the upstreams saw and what is left of the query with the models.
func run(x *kit.Ctx, c Case) error {
	script := func(rs []kit.R) (*kit.Up, fn, *[]string) {
		u := &kit.Up{ID: "up", F: func(n int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return respond(rs[n%len(rs)], q) }}
		var seen []string
		return u, func(q *dns.Msg) (*dns.Msg, error) {
			n := len(seen)
			seen = append(seen, kit.Text(q))
			return respond(rs[n%len(rs)], q)
		}, &seen
	}
	up, mup, seen := script(c.Script)
	retry, mretry, rseen := script(c.Retry)
	var r rdns.Resolver = up
	m := mup
	for i := len(c.Chain) - 1; i >= 0; i-- {
		e := c.Chain[i]
		next, err := e.build(r, retry)
		if err != nil {
			return fmt.Errorf("element %s: %v", e.Kind, err)
		}
		r, m = next, e.model(c, m, mretry)
		x.Label("%s", e.Kind)
	}
	differs := false
	for i := 0; i <= c.Again; i++ {
		in := c.Q.Msg()
		in.Id += uint16(i)
		before := kit.Text(in)
		want, werr := m(in.Copy())
		got, gerr := r.Resolve(in, c.ci())
		if after := kit.Text(in); after != before {
			return fmt.Errorf("query %d was changed:\n%sto\n%s", i, before, after)
		}
		if !sameErr(gerr, werr) {
			return fmt.Errorf("query %d ended in error %v, want %v", i, gerr, werr)
		}
		if werr == nil && kit.Text(got) != kit.Text(want) {
			return fmt.Errorf("query %d\n%s was answered\n%s\nwant\n%s", i, before, kit.Text(got), kit.Text(want))
		}
		if raw, err := respond(c.Script[(len(*seen)+len(c.Script)-1)%len(c.Script)], in); len(*seen) == 0 || err != nil || kit.Text(raw) != kit.Text(want) {
			differs = true
		}
		if len(*seen) > 0 && (*seen)[len(*seen)-1] != before {
			differs = true
		}
		for k, s := range []struct {
			u    *kit.Up
			want []string
		}{{up, *seen}, {retry, *rseen}} {
			calls := s.u.Calls()
			if len(calls) != len(s.want) {
				return fmt.Errorf("query %d: upstream %d has seen %d queries, want %d", i, k, len(calls), len(s.want))
			}
			for j, call := range calls {
				if kit.Text(call.Q) != s.want[j] {
					return fmt.Errorf("upstream %d got\n%s\nwant\n%s", k, kit.Text(call.Q), s.want[j])
				}
				if fmt.Sprint(call.CI) != fmt.Sprint(c.ci()) {
					return fmt.Errorf("upstream %d got client information %v, want %v", k, call.CI, c.ci())
				}
				if _, err := call.Q.Pack(); err != nil && kit.ValidName(call.Q.Question[0].Name) {
					return fmt.Errorf("upstream %d got a query that cannot be sent (%v): %s", k, err, kit.Text(call.Q))
				}
			}
		}
		// The response belongs to the caller.
		scribble(got)
	}
	if differs {
		x.NonTrivial()
	}
	return nil
}
