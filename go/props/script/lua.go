// Package script checks what scripts see and do, and what is logged.
package script

import (
	"encoding/hex"
	"fmt"
	"net"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// ---- values as Lua text ----

func luaStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == ' ' || c == '-' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, `\%03d`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func luaList[T any](vals []T, f func(T) string) string {
	var out []string
	for _, v := range vals {
		out = append(out, f(v))
	}
	return "{" + strings.Join(out, ", ") + "}"
}

// field is one readable field of a record.
type field struct {
	name string
	lit  string // Lua text of the value; "" when scripts have no access
	text string // the value as the dump in Lua prints it
}

// fields lists the fields of a record by its Go structure: the header, then
// all data fields in lower case, with those of embedded records.
func fields(rr dns.RR) []field {
	h := rr.Header()
	out := []field{
		{"name", luaStr(h.Name), h.Name},
		{"class", strconv.Itoa(int(h.Class)), strconv.Itoa(int(h.Class))},
		{"ttl", strconv.Itoa(int(h.Ttl)), strconv.Itoa(int(h.Ttl))},
	}
	return append(out, dataFields(reflect.ValueOf(rr).Elem())...)
}

func dataFields(v reflect.Value) []field {
	var out []field
	for i := 0; i < v.NumField(); i++ {
		sf := v.Type().Field(i)
		if sf.Name == "Hdr" {
			continue
		}
		if sf.Anonymous {
			out = append(out, dataFields(v.Field(i))...)
			continue
		}
		f := field{name: strings.ToLower(sf.Name)}
		switch x := v.Field(i).Interface().(type) {
		case string:
			f.lit, f.text = luaStr(x), x
		case uint8, uint16, uint32, uint64:
			f.lit = fmt.Sprint(x)
			f.text = f.lit
		case net.IP:
			f.lit, f.text = luaStr(x.String()), x.String()
			if x == nil {
				f.lit, f.text = "nil", "nil"
			}
		case []string:
			f.lit, f.text = luaList(x, luaStr), "{"+strings.Join(x, "|")+"}"
		case []uint16:
			num := func(n uint16) string { return strconv.Itoa(int(n)) }
			f.lit = luaList(x, num)
			f.text = "{" + strings.Join(strings.Split(strings.Trim(f.lit, "{}"), ", "), "|") + "}"
		}
		out = append(out, f)
	}
	return out
}

// records in presentation format, without the owner and TTL
var rdata = []string{
	"A 192.0.2.1", "AAAA 2001:db8::1", "CNAME a.test.", "DNAME b.test.", "MX 10 mail.test.", "NS ns.test.", "PTR p.test.",
	"TXT \"one\" \"two words\" \"\"", "SPF \"v=spf1\"", "SRV 1 2 3 srv.test.", "SOA ns.test. h.test. 1 2 3 4 5",
	"HINFO \"cpu\" \"os\"", "CAA 128 issue \"ca.test; x\"", "DS 65535 8 2 00112233", "CDS 1 8 2 00112233",
	"DNSKEY 257 3 8 AwEAAQ==", "CDNSKEY 256 3 13 AwEAAQ==",
	"RRSIG A 8 2 3600 20301231000000 20200101000000 12345 test. AwEAAQ==",
	"NSEC b.test. A MX RRSIG NSEC", "NSEC3 1 1 10 AABB 2T7B4G4VSA5SMI47K61MV5BV1A22BOJR A RRSIG", "NSEC3PARAM 1 0 10 AABB",
	"TLSA 3 1 1 00112233", "SMIMEA 3 1 1 00112233", "NAPTR 100 50 \"s\" \"http\" \"!x!y!\" r.test.", "SSHFP 1 2 00112233",
	"URI 10 1 \"https://u.test/\"", "RP m.test. t.test.", "AFSDB 1 afs.test.", "CERT PGP 1 2 AwEAAQ==", "OPENPGPKEY AwEAAQ==",
	"CSYNC 66 3 A NS AAAA", "ZONEMD 1 1 1 00112233445566778899001122334455", "NID 10 0014:4fff:ff20:ee64", "L32 10 10.1.2.0",
	"L64 10 2001:0db8:1140:1000", "LP 10 l.test.", "EUI48 00-00-5e-00-53-2a", "KX 10 kx.test.", "PX 10 m.test. x.test.",
	"DLV 1 8 2 00112233", "HTTPS 1 svc.test.", "SVCB 0 alias.test.", "RT 10 rt.test.", "LOC 42 21 54 N 71 6 18 W -24m 30m 10m 10m",
	"HTTPS 1 . alpn=\"h2\" port=\"8443\"", "APL 1:192.0.2.0/24", "TYPE65280 \\# 2 abcd",
}

func genRecord(t *rapid.T) string {
	return fmt.Sprintf("%s %d %s %s", kit.OddName(t, 1, 3), kit.Pick[uint32](t, "ttl", 60, 0, 1, 300, 1<<31-1, 1<<32-1),
		kit.Pick(t, "class", "IN", "IN", "IN", "CH"), kit.Pick(t, "rdata", rdata...))
}

func genRecords(t *rapid.T, label string, hi int) []string {
	return kit.List(t, label, 0, hi, genRecord)
}

// ---- EDNS options ----

// Option is one EDNS option as a script makes it.
type Option struct {
	Kind string   `json:"kind"`
	N    []uint64 `json:"n,omitempty"`
	S    string   `json:"s,omitempty"`
	Args int      `json:"args"` // how many fields the constructor gets; the rest are assigned
}

type optField struct {
	name string
	lit  string
	text string
}

func num(name string, n uint64) optField {
	s := strconv.FormatUint(n, 10)
	return optField{name, s, s}
}

func str(name, s string) optField { return optField{name, luaStr(s), s} }

func bytesField(name string, n []uint64) optField {
	f := func(n uint64) string { return strconv.FormatUint(n, 10) }
	var l []string
	for _, x := range n {
		l = append(l, f(x))
	}
	return optField{name, luaList(n, f), "{" + strings.Join(l, "|") + "}"}
}

// make gives the option in Go and its fields in the order of the constructor.
func (o Option) make() (dns.EDNS0, []optField) {
	n := append(append([]uint64(nil), o.N...), 0, 0, 0, 0, 0)
	var alg []uint8
	for _, x := range o.N {
		alg = append(alg, uint8(x))
	}
	switch o.Kind {
	case "COOKIE":
		s := hex.EncodeToString([]byte(o.S))
		return &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: s}, []optField{str("cookie", s)}
	case "NSID":
		s := hex.EncodeToString([]byte(o.S))
		return &dns.EDNS0_NSID{Code: dns.EDNS0NSID, Nsid: s}, []optField{str("nsid", s)}
	case "DAU":
		return &dns.EDNS0_DAU{Code: dns.EDNS0DAU, AlgCode: alg}, []optField{bytesField("algcode", o.N)}
	case "DHU":
		return &dns.EDNS0_DHU{Code: dns.EDNS0DHU, AlgCode: alg}, []optField{bytesField("algcode", o.N)}
	case "N3U":
		return &dns.EDNS0_N3U{Code: dns.EDNS0N3U, AlgCode: alg}, []optField{bytesField("algcode", o.N)}
	case "EDE":
		return &dns.EDNS0_EDE{InfoCode: uint16(n[0]), ExtraText: o.S}, []optField{num("infocode", n[0]), str("extratext", o.S)}
	case "ESU":
		return &dns.EDNS0_ESU{Code: dns.EDNS0ESU, Uri: o.S}, []optField{str("uri", o.S)}
	case "EXPIRE":
		return &dns.EDNS0_EXPIRE{Code: dns.EDNS0EXPIRE, Expire: uint32(n[0])}, []optField{num("expire", n[0])}
	case "LLQ":
		return &dns.EDNS0_LLQ{Code: dns.EDNS0LLQ, Version: uint16(n[0]), Opcode: uint16(n[1]), Error: uint16(n[2]), Id: n[3], LeaseLife: uint32(n[4])},
			[]optField{num("version", n[0]), num("opcode", n[1]), num("error", n[2]), num("id", n[3]), num("leaselife", n[4])}
	case "LOCAL":
		return &dns.EDNS0_LOCAL{Code: 65001 + uint16(n[0]), Data: []byte(o.S)}, []optField{num("code", 65001+n[0]), str("data", o.S)}
	case "PADDING":
		return &dns.EDNS0_PADDING{Padding: []byte(o.S)}, []optField{str("padding", o.S)}
	case "SUBNET4":
		ip := net.IPv4(192, 0, 2, 0)
		return &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 24, SourceScope: uint8(n[0]), Address: ip},
			[]optField{num("family", 1), num("sourcenetmask", 24), num("sourcescope", n[0]), str("address", ip.String())}
	case "SUBNET6":
		ip := net.ParseIP("2001:db8::")
		return &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 2, SourceNetmask: 56, SourceScope: uint8(n[0]), Address: ip},
			[]optField{num("family", 2), num("sourcenetmask", 56), num("sourcescope", n[0]), str("address", ip.String())}
	case "TCP_KEEPALIVE":
		return &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE, Timeout: uint16(n[0])}, []optField{num("timeout", n[0])}
	case "UL":
		return &dns.EDNS0_UL{Code: dns.EDNS0UL, Lease: uint32(n[0]), KeyLease: uint32(n[1])}, []optField{num("lease", n[0]), num("keylease", n[1])}
	}
	panic("verif: option " + o.Kind)
}

func (o Option) typ() string {
	return "EDNS0_" + strings.TrimRight(strings.TrimSuffix(o.Kind, "64"), func() string {
		if strings.HasPrefix(o.Kind, "SUBNET") {
			return "46"
		}
		return ""
	}())
}

// lua makes the option in a local variable.
func (o Option) lua(b *strings.Builder, v string) {
	_, fs := o.make()
	var args []string
	for i, f := range fs {
		if i < o.Args {
			args = append(args, f.lit)
		}
	}
	fmt.Fprintf(b, "  local %s = %s.new(%s)\n", v, o.typ(), strings.Join(args, ", "))
	for i, f := range fs {
		if i >= o.Args {
			fmt.Fprintf(b, "  %s.%s = %s\n", v, f.name, f.lit)
		}
	}
}

func genOption(t *rapid.T) Option {
	o := Option{
		Kind: kit.Pick(t, "kind", "EDE", "SUBNET4", "SUBNET6", "COOKIE", "PADDING", "NSID", "LOCAL", "DAU", "DHU", "N3U", "ESU", "EXPIRE", "LLQ", "TCP_KEEPALIVE", "UL"),
		S:    kit.Pick(t, "s", "abcdefgh", "x", "two words", "\x00\xff\\\""),
		N:    kit.List(t, "n", 1, 5, func(t *rapid.T) uint64 { return uint64(kit.Int(t, "v", 1, 255)) }),
		Args: kit.Int(t, "args", 0, 5),
	}
	if o.Kind == "COOKIE" {
		o.S = "abcdefgh"
	}
	if o.Kind == "EDE" || o.Kind == "ESU" {
		o.S = kit.Pick(t, "text", "blocked", "x", "two words")
	}
	if kit.Chance(t, "wide", 25) {
		switch o.Kind {
		case "EDE", "TCP_KEEPALIVE":
			o.N[0] = 65535
		case "EXPIRE", "UL":
			o.N[0] = 1<<32 - 1
		}
	}
	return o
}

// ---- a response made by a script ----

// Answer is a response which a script makes from nothing.
type Answer struct {
	Q       kit.Q    `json:"q"`
	Head    int      `json:"head"` // 0 set_reply, 1 set_question and id, 2 field by field, 3 questions of the query
	Rcode   int      `json:"rcode"`
	AA      bool     `json:"aa,omitempty"`
	RA      bool     `json:"ra,omitempty"`
	AD      bool     `json:"ad,omitempty"`
	RD      bool     `json:"rd,omitempty"`
	An      []string `json:"an,omitempty"`
	Ns      []string `json:"ns,omitempty"`
	Ex      []string `json:"ex,omitempty"`
	Step    []bool   `json:"step,omitempty"` // which records are made field by field
	EDNS    int      `json:"edns"`           // 0 none, 1 set_edns0, 2 OPT.new
	Size    uint16   `json:"size,omitempty"`
	DO      bool     `json:"do,omitempty"`
	Version uint8    `json:"version,omitempty"`
	ExtRc   int      `json:"ext_rc,omitempty"`
	Options []Option `json:"options,omitempty"`
	Only    bool     `json:"only,omitempty"` // return one value instead of two
	Names   bool     `json:"names,omitempty"`
}

// genRcode draws response codes; those above 15 take an OPT record.
func genRcode(t *rapid.T) int {
	if kit.Chance(t, "extended", 20) {
		return kit.Pick(t, "rcode", 16, 17, 23, 256, 4095)
	}
	return kit.Int(t, "rcode", 0, 15)
}

func genAnswer(t *rapid.T) Answer {
	c := Answer{
		Q:     kit.GenQ(t, 1, 3),
		Head:  kit.Int(t, "head", 0, 3),
		Rcode: genRcode(t),
		AA:    kit.Chance(t, "aa", 40), RA: kit.Chance(t, "ra", 40), AD: kit.Chance(t, "ad2", 40), RD: kit.Chance(t, "rd2", 40),
		An: genRecords(t, "an", 4), Ns: genRecords(t, "ns", 2), Ex: genRecords(t, "ex", 2),
		Step:  kit.List(t, "step", 0, 4, func(t *rapid.T) bool { return rapid.Bool().Draw(t, "s") }),
		EDNS:  kit.Int(t, "withedns", 0, 2),
		Only:  kit.Chance(t, "only", 20),
		Names: kit.Chance(t, "consts", 30),
	}
	if c.EDNS > 0 {
		c.Size = kit.Pick[uint16](t, "size", 1232, 0, 512, 65535)
		c.DO = rapid.Bool().Draw(t, "do")
		c.Version = kit.Pick[uint8](t, "ver", 0, 0, 1, 255)
		c.ExtRc = kit.Pick(t, "ext", 0, 0, 16, 240, 256, 4080)
		c.Options = kit.List(t, "options", 0, 3, genOption)
	}
	return c
}

func (c Answer) want() *dns.Msg {
	q := c.Q.Msg()
	m := new(dns.Msg)
	switch c.Head {
	case 0:
		m.SetReply(q)
	case 1:
		m.Id = q.Id
		m.RecursionDesired = true
		m.Question = []dns.Question{{Name: c.Q.Name, Qtype: c.Q.Type, Qclass: dns.ClassINET}}
		m.Response = true
	default:
		m.Id = q.Id
		m.Response = true
		m.RecursionDesired = c.RD
		m.Question = append([]dns.Question(nil), q.Question...)
	}
	m.Rcode = c.Rcode
	m.Authoritative, m.RecursionAvailable, m.AuthenticatedData = c.AA, c.RA, c.AD
	m.Answer, m.Ns, m.Extra = kit.RRs(c.An), kit.RRs(c.Ns), kit.RRs(c.Ex)
	if c.EDNS > 0 {
		o := new(dns.OPT)
		o.Hdr.Name, o.Hdr.Rrtype = ".", dns.TypeOPT
		o.Hdr.Class = c.Size
		o.Hdr.Ttl = uint32(c.ExtRc>>4)<<24 | uint32(c.Version)<<16
		if c.DO {
			o.Hdr.Ttl |= 1 << 15
		}
		for _, p := range c.Options {
			e, _ := p.make()
			o.Option = append(o.Option, e)
		}
		m.Extra = append(m.Extra, o)
	}
	return m
}

func luaRecord(b *strings.Builder, v string, rr dns.RR, step bool) bool {
	if _, ok := rr.(*dns.RFC3597); ok {
		return false
	}
	var head, rest []string
	for i, f := range fields(rr) {
		if f.lit == "" {
			return false
		}
		if step && i%2 == 0 {
			rest = append(rest, fmt.Sprintf("  %s.%s = %s\n", v, f.name, f.lit))
		} else {
			head = append(head, fmt.Sprintf("%s = %s", f.name, f.lit))
		}
	}
	rtype := fmt.Sprint(rr.Header().Rrtype)
	if step {
		rtype = "Type" + dns.TypeToString[rr.Header().Rrtype]
	}
	head = append(head, "rtype = "+rtype)
	fmt.Fprintf(b, "  local %s = RR.new({%s})\n%s", v, strings.Join(head, ", "), strings.Join(rest, ""))
	return true
}

// usable drops the records which scripts cannot make.
func usable(ss []string) []string {
	var out []string
	for _, s := range ss {
		var b strings.Builder
		if luaRecord(&b, "x", kit.RR(s), false) {
			out = append(out, s)
		}
	}
	return out
}

func (c Answer) script() string {
	var b strings.Builder
	b.WriteString("function Resolve(msg, ci)\n  local m = Message.new()\n")
	switch c.Head {
	case 0:
		b.WriteString("  m:set_reply(msg)\n")
	case 1:
		fmt.Fprintf(&b, "  m:set_question(msg.questions[1].name, msg.questions[1].qtype)\n  m.id = msg.id\n  m.response = true\n")
	case 2:
		fmt.Fprintf(&b, "  m.id = %d\n  m.response = true\n  m.recursion_desired = %v\n", c.Q.ID, c.RD)
		q := c.Q.Msg().Question[0]
		if q.Qclass == dns.ClassINET {
			fmt.Fprintf(&b, "  local q = Question.new(%s, %d)\n", luaStr(q.Name), q.Qtype)
		} else {
			fmt.Fprintf(&b, "  local q = Question.new()\n  q.name = %s\n  q.qclass = %d\n  q.qtype = %d\n", luaStr(q.Name), q.Qclass, q.Qtype)
		}
		b.WriteString("  m.questions = { q }\n")
	case 3:
		fmt.Fprintf(&b, "  m.id = msg.id\n  m.response = true\n  m.recursion_desired = %v\n  m.questions = msg.questions\n", c.RD)
	}
	rcode := strconv.Itoa(c.Rcode)
	if s, ok := dns.RcodeToString[c.Rcode]; c.Names && ok {
		rcode = "Rcode" + s
	}
	fmt.Fprintf(&b, "  m.rcode = %s\n  m.authoritative = %v\n  m.recursion_available = %v\n  m.authenticated_data = %v\n", rcode, c.AA, c.RA, c.AD)
	n := 0
	section := func(name string, ss []string, more ...string) {
		var vars []string
		for _, s := range ss {
			v := fmt.Sprintf("r%d", n)
			luaRecord(&b, v, kit.RR(s), n < len(c.Step) && c.Step[n])
			vars = append(vars, v)
			n++
		}
		vars = append(vars, more...)
		if len(vars) > 0 || name == "answer" {
			fmt.Fprintf(&b, "  m.%s = { %s }\n", name, strings.Join(vars, ", "))
		}
	}
	section("answer", c.An)
	section("ns", c.Ns)
	if c.EDNS > 0 {
		var vars []string
		for i, o := range c.Options {
			v := fmt.Sprintf("o%d", i)
			o.lua(&b, v)
			vars = append(vars, v)
		}
		if c.EDNS == 1 {
			section("extra", c.Ex)
			fmt.Fprintf(&b, "  m:set_edns0(%d, %v)\n  local opt = m:is_edns0()\n", c.Size, c.DO)
		} else {
			fmt.Fprintf(&b, "  local opt = OPT.new(%d, %v)\n", c.Size, !c.DO)
			fmt.Fprintf(&b, "  opt.do_bit = %v\n", c.DO)
			section("extra", c.Ex, "opt")
		}
		fmt.Fprintf(&b, "  opt.version = %d\n  opt.extended_rcode = %d\n  opt.option = { %s }\n", c.Version, c.ExtRc, strings.Join(vars, ", "))
	} else {
		section("extra", c.Ex)
	}
	if c.Only {
		b.WriteString("  return m\nend\n")
	} else {
		b.WriteString("  return m, nil\nend\n")
	}
	return b.String()
}

// same compares messages in presentation and wire format.
func same(got, want *dns.Msg) error {
	if g, w := kit.Text(got), kit.Text(want); g != w {
		return fmt.Errorf("got\n%s\nwant\n%s", g, w)
	}
	if got == nil {
		return nil
	}
	g, gerr := got.Pack()
	w, werr := want.Pack()
	if (gerr == nil) != (werr == nil) || string(g) != string(w) {
		return fmt.Errorf("got bytes %x (%v)\nwant      %x (%v)\nof\n%s", g, gerr, w, werr, kit.Text(want))
	}
	return nil
}

func runAnswer(x *kit.Ctx, c Answer) error {
	c.An, c.Ns, c.Ex = usable(c.An), usable(c.Ns), usable(c.Ex)
	script := c.script()
	r, err := rdns.NewLua("lua", rdns.LuaOptions{Script: script, Concurrency: 1})
	if err != nil {
		return fmt.Errorf("script is not accepted: %v\n%s", err, script)
	}
	defer r.Close()
	q := c.Q.Msg()
	got, err := r.Resolve(q, rdns.ClientInfo{SourceIP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return fmt.Errorf("script failed: %v\n%s", err, script)
	}
	if err := same(got, c.want()); err != nil {
		return fmt.Errorf("response of the script\n%s\n%v", script, err)
	}
	if err := same(q, c.Q.Msg()); err != nil {
		return fmt.Errorf("query changed: %v", err)
	}
	for _, o := range c.Options {
		x.Label("%s", o.Kind)
	}
	x.LabelIf(len(c.Step) > 0, "fields assigned")
	if len(c.An)+len(c.Ns)+len(c.Ex)+len(c.Options) > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---- what scripts read ----

// Read is a query and a response to it, all fields of which a script reads.
type Read struct {
	Q       kit.Q    `json:"q"`
	R       kit.R    `json:"r"`
	Options []Option `json:"options,omitempty"`
	ExtRc   int      `json:"ext_rc,omitempty"`
	IP      string   `json:"ip,omitempty"`
	Path    string   `json:"path,omitempty"`
	SNI     string   `json:"sni,omitempty"`
	Lst     string   `json:"listener,omitempty"`
	Proto   string   `json:"proto,omitempty"`
	Addr    string   `json:"addr,omitempty"`
	Top     bool     `json:"top,omitempty"` // constants are taken when the script is loaded
}

func genRead(t *rapid.T) Read {
	c := Read{Q: kit.GenQ(t, 1, 3)}
	c.R = kit.R{Rcode: genRcode(t), AA: kit.Chance(t, "aa", 40), RA: kit.Chance(t, "ra", 40), AD: kit.Chance(t, "ad2", 40),
		An: genRecords(t, "an", 4), Ns: genRecords(t, "ns", 2), Ex: genRecords(t, "ex", 2)}
	if kit.Chance(t, "redns", 70) {
		c.R.EDNS = &kit.E{Size: kit.Pick[uint16](t, "size", 1232, 0, 65535), DO: rapid.Bool().Draw(t, "do")}
		c.Options = kit.List(t, "options", 0, 3, genOption)
		c.ExtRc = kit.Pick(t, "ext", 0, 0, 16, 240, 256, 4080)
	}
	c.IP = kit.Pick(t, "ip", "192.0.2.7", "", "2001:db8::7", "127.0.0.1")
	c.Path = kit.Pick(t, "path", "", "/dns-query", "/x y")
	c.SNI = kit.Pick(t, "sni", "", "dns.test")
	c.Lst = kit.Pick(t, "listener", "", "l1")
	c.Proto = kit.Pick(t, "proto", "", "udp", "doh")
	c.Addr = kit.Pick(t, "addr", "", "127.0.0.1:53")
	c.Top = rapid.Bool().Draw(t, "top")
	return c
}

func (c Read) response(q *dns.Msg) *dns.Msg {
	m, _ := c.R.Msg(q)
	if o := m.IsEdns0(); o != nil {
		for _, p := range c.Options {
			e, _ := p.make()
			o.Option = append(o.Option, e)
		}
		o.Hdr.Ttl |= uint32(c.ExtRc>>4) << 24
	}
	return m
}

const dumper = `
local function show(v)
  if type(v) == "table" then
    local out = {}
    for i = 1, #v do out[i] = tostring(v[i]) end
    return "{" .. table.concat(out, "|") .. "}"
  end
  return tostring(v)
end
`

type reading struct{ expr, want string }

func readMsg(v string, m *dns.Msg) []reading {
	var out []reading
	add := func(e, format string, a ...any) { out = append(out, reading{v + e, fmt.Sprintf(format, a...)}) }
	add(".id", "%d", m.Id)
	add(".response", "%v", m.Response)
	add(".rcode", "%d", m.Rcode)
	add(".recursion_desired", "%v", m.RecursionDesired)
	add(".recursion_available", "%v", m.RecursionAvailable)
	add(".authoritative", "%v", m.Authoritative)
	add(".authenticated_data", "%v", m.AuthenticatedData)
	count := func(name string, n int) { out = append(out, reading{"#" + v + "." + name, strconv.Itoa(n)}) }
	count("questions", len(m.Question))
	for i, q := range m.Question {
		add(fmt.Sprintf(".questions[%d].name", i+1), "%s", q.Name)
		add(fmt.Sprintf(".questions[%d].qtype", i+1), "%d", q.Qtype)
		add(fmt.Sprintf(".questions[%d].qclass", i+1), "%d", q.Qclass)
	}
	for _, s := range []struct {
		name string
		rrs  []dns.RR
	}{{"answer", m.Answer}, {"ns", m.Ns}, {"extra", m.Extra}} {
		count(s.name, len(s.rrs))
		for i, rr := range s.rrs {
			at := fmt.Sprintf(".%s[%d]", s.name, i+1)
			add(at+".rtype", "%d", rr.Header().Rrtype)
			if _, ok := rr.(*dns.OPT); ok {
				continue
			}
			for _, f := range fields(rr) {
				if _, ok := rr.(*dns.RFC3597); ok && f.name == "rdata" {
					continue
				}
				if f.lit != "" {
					add(at+"."+f.name, "%s", f.text)
				}
			}
		}
	}
	return out
}

func runRead(x *kit.Ctx, c Read) error {
	ci := rdns.ClientInfo{SourceIP: net.ParseIP(c.IP), DoHPath: c.Path, TLSServerName: c.SNI, Listener: c.Lst, Protocol: c.Proto, ListenerAddr: c.Addr}
	q := c.Q.Msg()
	resp := c.response(q)
	all := append(readMsg("msg", q), readMsg("resp", resp)...)
	add := func(e, w string) { all = append(all, reading{e, w}) }
	ip := c.IP
	if ip == "" {
		ip = "nil"
	}
	add("ci.source_ip", ip)
	add("ci.doh_path", c.Path)
	add("ci.tls_server_name", c.SNI)
	add("ci.listener", c.Lst)
	add("ci.protocol", c.Proto)
	add("ci.listener_addr", c.Addr)
	add("BuildVersion", rdns.BuildVersion)
	if o := resp.IsEdns0(); o == nil {
		add("resp:is_edns0()", "nil")
	} else {
		add("resp:is_edns0().udp_size", fmt.Sprint(c.R.EDNS.Size))
		add("resp:is_edns0().do_bit", fmt.Sprint(c.R.EDNS.DO))
		add("resp:is_edns0().version", "0")
		add("resp:is_edns0().name", ".")
		add("resp:is_edns0().rtype", "41")
		add("resp:is_edns0().extended_rcode", fmt.Sprint(c.ExtRc&^15))
		add("#resp:is_edns0().option", fmt.Sprint(len(c.Options)))
		for i, p := range c.Options {
			e, fs := p.make()
			add(fmt.Sprintf("resp:is_edns0().option[%d].option", i+1), fmt.Sprint(e.Option()))
			for _, f := range fs {
				add(fmt.Sprintf("resp:is_edns0().option[%d].%s", i+1, f.name), f.text)
			}
		}
		n := len(resp.Extra)
		add(fmt.Sprintf("#resp.extra[%d].option", n), fmt.Sprint(len(c.Options)))
		for i, p := range c.Options {
			_, fs := p.make()
			add(fmt.Sprintf("resp.extra[%d].option[%d].%s", n, i+1, fs[0].name), fs[0].text)
		}
	}
	var b strings.Builder
	b.WriteString(dumper)
	consts := []reading{{"TypeAAAA", "28"}, {"TypeHTTPS", "65"}, {"ClassIN", "1"}, {"ClassCH", "3"}, {"RcodeNXDOMAIN", "3"}, {"RcodeREFUSED", "5"}, {"EDNS0SUBNET", "8"}, {"EDNS0EDE", "15"}, {"EDNS0PADDING", "12"}, {"EDNS0COOKIE", "10"}}
	if c.Top {
		for i, k := range consts {
			fmt.Fprintf(&b, "local k%d = %s\n", i, k.expr)
			add(fmt.Sprintf("k%d", i), k.want)
		}
		b.WriteString("local rec = RR.new({rtype = TypeA, name = \"a.test.\", a = \"192.0.2.9\"})\n")
		add("rec.a", "192.0.2.9")
	} else {
		all = append(all, consts...)
	}
	// Lua limits the registers of a function, so each value has a statement
	b.WriteString("function Resolve(msg, ci)\n  local resp, err = Resolvers[1]:resolve(msg, ci)\n  if err ~= nil then return nil, err end\n  local out = {}\n")
	for i, r := range all {
		fmt.Fprintf(&b, "  out[%d] = show(%s)\n", i+1, r.expr)
	}
	b.WriteString("  return nil, Error.new(table.concat(out, \"\\001\"))\nend\n")
	up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return c.response(q), nil }}
	r, err := rdns.NewLua("lua", rdns.LuaOptions{Script: b.String(), Concurrency: 1}, up)
	if err != nil {
		return fmt.Errorf("script is not accepted: %v\n%s", err, b.String())
	}
	defer r.Close()
	got, err := r.Resolve(q, ci)
	if got != nil || err == nil {
		return fmt.Errorf("script returned an error, Resolve got %v, %v", got, err)
	}
	vals := strings.Split(err.Error(), "\001")
	if len(vals) != len(all) {
		return fmt.Errorf("script failed: %v\n%s", err, b.String())
	}
	for i, r := range all {
		if vals[i] != r.want {
			return fmt.Errorf("%s is %q in the script, %q in\n%s\n%s", r.expr, vals[i], r.want, kit.Text(q), kit.Text(resp))
		}
	}
	if calls := up.Calls(); len(calls) != 1 {
		return fmt.Errorf("%d upstream queries", len(calls))
	} else if err := same(calls[0].Q, c.Q.Msg()); err != nil {
		return fmt.Errorf("upstream query: %v", err)
	} else if !reflect.DeepEqual(calls[0].CI, ci) {
		return fmt.Errorf("upstream got client info %+v, not %+v", calls[0].CI, ci)
	}
	x.LabelIf(c.Top, "constants at load time")
	x.LabelIf(len(c.Options) > 0, "options")
	x.LabelIf(c.IP == "", "no source")
	if len(c.R.An)+len(c.R.Ns)+len(c.R.Ex)+len(c.Options) > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---- queries and responses which scripts change ----

// Op is one change of a message.
type Op struct {
	Kind  string `json:"kind"`
	Sec   int    `json:"sec,omitempty"` // 0 answer, 1 ns, 2 extra
	I     int    `json:"i,omitempty"`
	N     int    `json:"n,omitempty"`
	S     string `json:"s,omitempty"`
	B     bool   `json:"b,omitempty"`
	Alias bool   `json:"alias,omitempty"`
}

var sections = []string{"answer", "ns", "extra"}

func section(m *dns.Msg, i int) *[]dns.RR {
	switch i {
	case 0:
		return &m.Answer
	case 1:
		return &m.Ns
	}
	return &m.Extra
}

func genOp(t *rapid.T) Op {
	o := Op{
		Kind: kit.Pick(t, "op", "ttl", "owner", "drop", "append", "move", "flag", "rcode", "qname", "qtype", "qclass", "edns", "size", "do", "nodo", "noopts", "option", "rdata", "id"),
		Sec:  kit.Int(t, "sec", 0, 2), I: kit.Int(t, "i", 0, 3), N: kit.Int(t, "n", 0, 300), B: rapid.Bool().Draw(t, "b"),
	}
	switch o.Kind {
	case "owner", "qname":
		o.S = kit.Name(t, 1, 3)
	case "append":
		o.S = kit.Pick(t, "rec", "new.test. 5 IN A 192.0.2.77", "new.test. 6 IN TXT \"t\"")
	case "flag":
		o.S = kit.Pick(t, "flag", "authoritative", "recursion_desired", "recursion_available", "authenticated_data", "response")
	case "rcode":
		o.N = genRcode(t)
	case "ttl":
		o.N = kit.Pick(t, "ttl", o.N, o.N, 86400, 1<<31, 1<<32-1)
	case "id", "qtype", "qclass", "edns", "size":
		o.N = kit.Pick(t, "large", o.N, o.N, 4096, 32768, 65535, o.N*200)
	}
	return o
}

// lua renders the change; apply is the same in Go.
func (o Op) lua(b *strings.Builder, v string) {
	sec := v + "." + sections[o.Sec]
	p := func(format string, a ...any) { fmt.Fprintf(b, "  "+format+"\n", a...) }
	switch o.Kind {
	case "ttl":
		p("if #%s > %d and %s[%d].rtype ~= TypeOPT then %s[%d].ttl = %d end", sec, o.I, sec, o.I+1, sec, o.I+1, o.N)
	case "owner":
		p("if #%s > %d and %s[%d].rtype ~= TypeOPT then %s[%d].name = %s end", sec, o.I, sec, o.I+1, sec, o.I+1, luaStr(o.S))
	case "rdata":
		p("for _, rr in ipairs(%s) do if rr.rtype == TypeA then rr.a = \"198.51.100.%d\" elseif rr.rtype == TypeMX then rr.preference = rr.preference + 1 end end", sec, o.N%256)
	case "drop":
		p("do local s = %s; if #s > %d then table.remove(s, %d); %s = s end end", sec, o.I, o.I+1, sec)
	case "append":
		var rb strings.Builder
		luaRecord(&rb, "rr", kit.RR(o.S), o.B)
		p("do %s local s = %s; table.insert(s, rr); %s = s end", strings.ReplaceAll(rb.String(), "\n", " "), sec, sec)
	case "move":
		p("%s = %s; %s = {}", v+".ns", v+".answer", v+".answer")
	case "flag":
		p("%s.%s = %v", v, o.S, o.B)
	case "rcode":
		p("%s.rcode = %d", v, o.N)
	case "id":
		p("%s.id = %d", v, o.N)
	case "qname":
		p("if #%s.questions > 0 then %s.questions[1].name = %s end", v, v, luaStr(o.S))
	case "qtype":
		p("if #%s.questions > 0 then %s.questions[1].qtype = %d end", v, v, o.N)
	case "qclass":
		p("if #%s.questions > 0 then local q = %s.questions[1]; q.qclass = %d end", v, v, o.N)
	case "edns":
		p("if %s:is_edns0() == nil then %s:set_edns0(%d, %v) end", v, v, o.N, o.B)
	case "size":
		p("do local o = %s:is_edns0(); if o then o.udp_size = %d end end", v, o.N)
	case "do", "nodo":
		p("do local o = %s:is_edns0(); if o then o.do_bit = %v end end", v, o.Kind == "do")
	case "noopts":
		p("do local o = %s:is_edns0(); if o then o.option = {} end end", v)
	case "option":
		p("do local o = %s:is_edns0(); if o then local l = o.option; l[#l + 1] = EDNS0_LOCAL.new(65001, \"x\"); o.option = l end end", v)
	}
}

func (o Op) apply(m *dns.Msg) {
	s := section(m, o.Sec)
	at := func() dns.RR {
		if o.I < len(*s) && (*s)[o.I].Header().Rrtype != dns.TypeOPT {
			return (*s)[o.I]
		}
		return nil
	}
	opt := m.IsEdns0()
	switch o.Kind {
	case "ttl":
		if rr := at(); rr != nil {
			rr.Header().Ttl = uint32(o.N)
		}
	case "owner":
		if rr := at(); rr != nil {
			rr.Header().Name = o.S
		}
	case "rdata":
		for _, rr := range *s {
			switch r := rr.(type) {
			case *dns.A:
				r.A = net.IPv4(198, 51, 100, byte(o.N%256))
			case *dns.MX:
				r.Preference++
			}
		}
	case "drop":
		if o.I < len(*s) {
			*s = append(append([]dns.RR(nil), (*s)[:o.I]...), (*s)[o.I+1:]...)
		}
	case "append":
		*s = append(append([]dns.RR(nil), *s...), kit.RR(o.S))
	case "move":
		m.Ns, m.Answer = m.Answer, nil
	case "flag":
		switch o.S {
		case "authoritative":
			m.Authoritative = o.B
		case "recursion_desired":
			m.RecursionDesired = o.B
		case "recursion_available":
			m.RecursionAvailable = o.B
		case "authenticated_data":
			m.AuthenticatedData = o.B
		case "response":
			m.Response = o.B
		}
	case "rcode":
		m.Rcode = o.N
	case "id":
		m.Id = uint16(o.N)
	case "qname":
		m.Question[0].Name = o.S
	case "qtype":
		m.Question[0].Qtype = uint16(o.N)
	case "qclass":
		m.Question[0].Qclass = uint16(o.N)
	case "edns":
		if opt == nil {
			m.Extra = append(m.Extra, kit.E{Size: uint16(o.N), DO: o.B}.RR())
		}
	case "size":
		if opt != nil {
			opt.Hdr.Class = uint16(o.N)
		}
	case "do":
		if opt != nil {
			opt.Hdr.Ttl |= 1 << 15
		}
	case "nodo":
		if opt != nil {
			opt.Hdr.Ttl &^= 1 << 15
		}
	case "noopts":
		if opt != nil {
			opt.Option = nil
		}
	case "option":
		if opt != nil {
			opt.Option = append(opt.Option, &dns.EDNS0_LOCAL{Code: 65001, Data: []byte("x")})
		}
	}
}

// Edit is a script which changes the query, asks a resolver, and changes the
// response.
type Edit struct {
	Q      kit.Q `json:"q"`
	R      kit.R `json:"r"`
	Up     int   `json:"up"`
	Before []Op  `json:"before,omitempty"`
	After  []Op  `json:"after,omitempty"`
	Twice  bool  `json:"twice,omitempty"` // the next query goes through the same state
}

func genEdit(t *rapid.T) Edit {
	c := Edit{Q: kit.GenQ(t, 1, 3), Up: kit.Int(t, "up", 1, 3)}
	c.R = kit.R{Rcode: kit.Int(t, "rcode", 0, 5), RA: true, AA: kit.Chance(t, "aa", 30),
		An: kit.GenRRs(t, "an", c.Q.Name, 0, 4), Ns: kit.GenRRs(t, "ns", c.Q.Name, 0, 2), Ex: kit.GenRRs(t, "ex", c.Q.Name, 0, 2), EDNS: kit.GenEDNS(t)}
	if kit.Chance(t, "fails", 10) {
		c.R = kit.R{Err: "upstream failed"}
	}
	c.Before = kit.List(t, "before", 0, 4, genOp)
	c.After = kit.List(t, "after", 0, 6, genOp)
	c.Twice = rapid.Bool().Draw(t, "twice")
	return c
}

func runEdit(x *kit.Ctx, c Edit) error {
	var b strings.Builder
	b.WriteString("function Resolve(msg, ci)\n")
	for _, o := range c.Before {
		o.lua(&b, "msg")
	}
	fmt.Fprintf(&b, "  local resp, err = Resolvers[%d]:resolve(msg, ci)\n  if err ~= nil then return nil, err end\n", c.Up)
	for _, o := range c.After {
		o.lua(&b, "resp")
	}
	b.WriteString("  return resp, err\nend\n")
	var ups []*kit.Up
	var rs []rdns.Resolver
	for i := 0; i < 3; i++ {
		u := kit.Const(fmt.Sprintf("up%d", i+1), c.R)
		ups = append(ups, u)
		rs = append(rs, u)
	}
	r, err := rdns.NewLua("lua", rdns.LuaOptions{Script: b.String(), Concurrency: 1}, rs...)
	if err != nil {
		return fmt.Errorf("script is not accepted: %v\n%s", err, b.String())
	}
	defer r.Close()
	rounds := 1
	if c.Twice {
		rounds = 2
	}
	for round := 0; round < rounds; round++ {
		wantQ := c.Q.Msg()
		for _, o := range c.Before {
			o.apply(wantQ)
		}
		want, wantErr := c.R.Msg(wantQ)
		if wantErr == nil {
			for _, o := range c.After {
				o.apply(want)
			}
		}
		ci := rdns.ClientInfo{SourceIP: net.IPv4(127, 0, 0, 1), Listener: "l"}
		got, err := r.Resolve(c.Q.Msg(), ci)
		for i, u := range ups {
			calls := u.Calls()
			if i != c.Up-1 {
				if len(calls) != 0 {
					return fmt.Errorf("resolver %d was asked instead of %d", i+1, c.Up)
				}
				continue
			}
			if len(calls) != round+1 {
				return fmt.Errorf("%d queries for resolver %d after %d", len(calls), c.Up, round+1)
			}
			if e := same(calls[round].Q, wantQ); e != nil {
				return fmt.Errorf("query of the script\n%s\n%v", b.String(), e)
			}
			if !reflect.DeepEqual(calls[round].CI, ci) {
				return fmt.Errorf("client info changed: %+v", calls[round].CI)
			}
		}
		if wantErr != nil {
			if got != nil || err == nil || err.Error() != wantErr.Error() {
				return fmt.Errorf("got %v, %v instead of error %q", got, err, wantErr)
			}
			x.Label("upstream fails")
			continue
		}
		if err != nil {
			return fmt.Errorf("script failed: %v\n%s", err, b.String())
		}
		if e := same(got, want); e != nil {
			return fmt.Errorf("response of the script\n%s\n%v", b.String(), e)
		}
	}
	x.LabelIf(len(c.Before) > 0, "query changed")
	x.LabelIf(len(c.After) > 0, "response changed")
	if len(c.Before)+len(c.After) > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---- outcomes of scripts, and their states ----

// Ask is one query for a script; the first label of the name says what the
// script does.
type Ask struct {
	What  string `json:"what"`
	At    int    `json:"at"`    // ms
	Delay int    `json:"delay"` // ms in the upstream
}

// Flow is a history of queries for one script.
type Flow struct {
	Conc uint  `json:"conc"`
	Asks []Ask `json:"asks"`
}

const flowScript = `
local count = 0
total = 0
function Resolve(msg, ci)
  count = count + 1
  total = total + 1
  local what = string.match(msg.questions[1].name, "^[^.]*")
  if what == "pass" then return Resolvers[1]:resolve(msg, ci) end
  if what == "counts" then
    return nil, Error.new(count .. " " .. total)
  end
  if what == "error" then return nil, Error.new("made up") end
  if what == "nothing" then return nil, nil end
  if what == "novalue" then return end
  if what == "both" then
    local m = Message.new()
    m:set_reply(msg)
    return m, Error.new("both")
  end
  if what == "raise" then error("raised") end
  if what == "raiseafter" then
    local resp, err = Resolvers[1]:resolve(msg, ci)
    error({})
  end
  if what == "nilindex" then local x = nil; return x.y, nil end
  if what == "number" then return 5, nil end
  if what == "string" then return "x", nil end
  if what == "table" then return {}, nil end
  if what == "bool" then return true, nil end
  if what == "questionmsg" then return msg.questions[1], nil end
  if what == "errmsg" then return Error.new("x"), nil end
  if what == "stringerr" then return nil, "x" end
  if what == "numbererr" then return nil, 7 end
  if what == "msgerr" then return nil, msg end
  if what == "field" then return msg.no_such_field, nil end
  if what == "setfield" then msg.no_such_field = 1; return msg, nil end
  if what == "type" then msg.id = "abc"; return msg, nil end
  if what == "list" then msg.answer = { 1 }; return msg, nil end
  if what == "qlist" then msg.questions = { msg }; return msg, nil end
  if what == "rtype" then return RR.new({ rtype = 64999 }), nil end
  if what == "ip" then RR.new({ rtype = TypeA, a = "not an address" }); return msg, nil end
  if what == "rrfield" then RR.new({ rtype = TypeA, name = "a.", nosuch = 1 }); return msg, nil end
  if what == "rrtype" then local r = RR.new({ rtype = TypeA }); r.rtype = TypeMX; return msg, nil end
  if what == "optlist" then local o = OPT.new(512, false); o.option = { msg }; return msg, nil end
  if what == "ciset" then ci.source_ip = "1.2.3.4"; return msg, nil end
  if what == "resolverarg" then return Resolvers[1]:resolve(msg) end
  if what == "resolverci" then return Resolvers[1]:resolve(msg, msg) end
  if what == "resolver9" then return Resolvers[9]:resolve(msg, ci) end
  if what == "panics" then return Resolvers[2]:resolve(msg, ci) end
  if what == "recurse" then return Resolve(msg, ci) .. "x", nil end
  if what == "caught" then
    local ok, e = pcall(function() return msg.no_such_field end)
    if ok then return nil, Error.new("no error") end
    return Resolvers[1]:resolve(msg, ci)
  end
  if what == "twice" then
    Resolvers[1]:resolve(msg, ci)
    return Resolvers[1]:resolve(msg, ci)
  end
  if what == "coroutine" then
    local co = coroutine.wrap(function() coroutine.yield(1); return 2 end)
    if co() + co() ~= 3 then return nil, Error.new("coroutine") end
    return Resolvers[1]:resolve(msg, ci)
  end
  return nil, Error.new("unknown " .. what)
end
`

var flowWhats = []string{"pass", "pass", "pass", "counts", "error", "nothing", "novalue", "both", "raise", "raiseafter", "nilindex", "number", "string", "table", "bool",
	"questionmsg", "errmsg", "stringerr", "numbererr", "msgerr", "field", "setfield", "type", "list", "qlist", "rtype", "ip", "rrfield", "rrtype", "optlist", "ciset",
	"resolverarg", "resolverci", "resolver9", "panics", "recurse", "caught", "twice", "coroutine"}

func genFlow(t *rapid.T) Flow {
	c := Flow{Conc: uint(kit.Int(t, "conc", 0, 4))}
	c.Asks = kit.List(t, "asks", 1, 12, func(t *rapid.T) Ask {
		return Ask{What: kit.Pick(t, "what", flowWhats...), At: 10 * kit.Int(t, "at", 0, 20), Delay: kit.Pick(t, "delay", 0, 35, 100, 1000)}
	})
	return c
}

func runFlow(x *kit.Ctx, c Flow) error {
	return kit.Closed(x, func() error {
		conc := int(c.Conc)
		if conc == 0 {
			conc = 4
		}
		var mu sync.Mutex
		busy, most := 0, 0
		up := &kit.Up{ID: "up"}
		var delays []int
		for _, a := range c.Asks {
			delays = append(delays, a.Delay)
		}
		up.F = func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			mu.Lock()
			busy++
			most = max(most, busy)
			mu.Unlock()
			time.Sleep(time.Duration(delays[q.Id]) * time.Millisecond)
			mu.Lock()
			busy--
			mu.Unlock()
			m := new(dns.Msg)
			m.SetReply(q)
			m.Answer = kit.RRs([]string{fmt.Sprintf("%s 60 IN TXT \"%d\"", q.Question[0].Name, q.Id)})
			return m, nil
		}
		bad := &kit.Up{ID: "bad", F: func(int, *dns.Msg, rdns.ClientInfo) (*dns.Msg, error) { panic("upstream panics") }}
		r, err := rdns.NewLua("lua", rdns.LuaOptions{Script: flowScript, Concurrency: c.Conc}, up, bad)
		if err != nil {
			return fmt.Errorf("script is not accepted: %v", err)
		}
		type res struct {
			m     *dns.Msg
			err   error
			start time.Duration
			end   time.Duration
		}
		out := make([]res, len(c.Asks))
		begin := time.Now()
		var wg sync.WaitGroup
		for i, a := range c.Asks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(a.At) * time.Millisecond)
				q := new(dns.Msg)
				q.SetQuestion(fmt.Sprintf("%s.q%d.test.", a.What, i), dns.TypeTXT)
				q.Id = uint16(i)
				out[i].start = time.Since(begin)
				out[i].m, out[i].err = r.Resolve(q, rdns.ClientInfo{SourceIP: net.IPv4(127, 0, 0, 1)})
				out[i].end = time.Since(begin)
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(time.Hour):
			return fmt.Errorf("queries without an answer after an hour")
		}
		synctest.Wait()
		// at most conc at a time; and nobody waits while a state is free
		asked := 0
		counts := map[int]bool{}
		recurse := false
		for _, a := range c.Asks {
			recurse = recurse || a.What == "recurse"
		}
		for i, a := range c.Asks {
			g := out[i]
			fail := func(format string, args ...any) error {
				return fmt.Errorf("query %d (%s): got %s, %v: %s", i, a.What, kit.Text(g.m), g.err, fmt.Sprintf(format, args...))
			}
			times := 0
			switch a.What {
			case "pass", "caught", "coroutine", "twice":
				times = 1
				if a.What == "twice" {
					times = 2
				}
				if g.err != nil || g.m == nil || g.m.Id != uint16(i) || len(g.m.Answer) != 1 || g.m.Answer[0].(*dns.TXT).Txt[0] != fmt.Sprint(i) {
					return fail("want the answer of the upstream")
				}
			case "error":
				if g.m != nil || g.err == nil || g.err.Error() != "made up" {
					return fail("want the error of the script")
				}
			case "counts":
				var n, m int
				if g.m != nil || g.err == nil {
					return fail("want counts")
				}
				if k, _ := fmt.Sscanf(g.err.Error(), "%d %d", &n, &m); k != 2 || n != m || n < 1 || n > len(c.Asks) && !recurse || conc == 1 && counts[n] {
					return fail("want counts")
				}
				counts[n] = true
			case "nothing", "novalue":
				if g.m != nil || g.err != nil {
					return fail("want neither a response nor an error")
				}
			case "both":
				if g.m == nil || g.err == nil || g.err.Error() != "both" {
					return fail("want response and error")
				}
			case "raiseafter":
				times = 1
				fallthrough
			default:
				if g.m != nil || g.err == nil {
					return fail("want an error")
				}
			}
			asked += times
		}
		if n := up.N(); n != asked {
			return fmt.Errorf("%d upstream queries, expected %d", n, asked)
		}
		if most > conc {
			return fmt.Errorf("%d scripts ran at the same time, the limit is %d", most, conc)
		}
		// A query finds a free state unless conc others are being worked on.
		for i, a := range c.Asks {
			d := time.Duration(a.Delay) * time.Millisecond
			switch a.What {
			case "pass", "caught", "coroutine", "raiseafter":
			case "twice":
				d *= 2
			default:
				d = 0
			}
			wait := out[i].end - out[i].start - d
			if wait < 0 {
				return fmt.Errorf("query %d (%s) took %v in the upstream", i, a.What, out[i].end-out[i].start)
			}
			if wait == 0 {
				continue
			}
			x.Label("waited for a state")
			// between start and start+wait, there must have been conc others busy all the time
			for at := out[i].start; at < out[i].start+wait; at += 5 * time.Millisecond {
				n := 0
				for j := range c.Asks {
					if j != i && out[j].start <= at && out[j].end > at {
						n++
					}
				}
				if n < conc {
					return fmt.Errorf("query %d (%s) waited %v, at %v only %d of %d scripts were busy", i, a.What, wait, at, n, conc)
				}
			}
		}
		// all states still work
		t0 := time.Now()
		up.F = func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			time.Sleep(time.Second)
			return new(dns.Msg), nil
		}
		for k := 0; k < conc; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				q := new(dns.Msg)
				q.SetQuestion("pass.end.test.", dns.TypeTXT)
				m, err := r.Resolve(q, rdns.ClientInfo{})
				mu.Lock()
				defer mu.Unlock()
				if m == nil || err != nil {
					asked = -1
				}
			}()
		}
		wg.Wait()
		if asked < 0 {
			return fmt.Errorf("a query failed after the others were done")
		}
		if e := time.Since(t0); e != time.Second {
			return fmt.Errorf("%d queries at the same time took %v instead of 1s: states are missing", conc, e)
		}
		x.NonTrivial()
		for _, a := range c.Asks {
			x.Label("%s", a.What)
		}
		r.Close()
		return nil
	})
}

// ---- loading, and what the sandbox keeps out ----

// Load is a script that may or may not be usable.
type Load struct {
	Kind    string `json:"kind"`
	Conc    uint   `json:"conc"`
	Sandbox bool   `json:"sandbox"`
	Name    string `json:"name,omitempty"`
	Path    string `json:"path,omitempty"`
}

var loadScripts = map[string]struct {
	script string
	ok     bool
}{
	"good":       {"function Resolve(msg, ci) return nil, nil end", true},
	"assigned":   {"Resolve = function(msg, ci) return nil, nil end", true},
	"empty":      {"", false},
	"other":      {"function resolve(msg, ci) return nil, nil end", false},
	"local":      {"local function Resolve(msg, ci) return nil, nil end", false},
	"value":      {"Resolve = 5", false},
	"syntax":     {"function Resolve(msg, ci) return nil, nil", false},
	"syntax2":    {"function Resolve(msg, ci) return nil nil end", false},
	"raises":     {"error('no')\nfunction Resolve(msg, ci) return nil, nil end", false},
	"raiseslate": {"function Resolve(msg, ci) return nil, nil end\nerror('no')", false},
	"nil":        {"local x = nil\nx.y = 1\nfunction Resolve(msg, ci) return nil, nil end", false},
}

var loadKinds = []string{"probe", "probe", "probe", "probe", "walk", "good", "assigned", "empty", "other", "local", "value", "syntax", "syntax2", "raises", "raiseslate", "nil"}

// names which a sandboxed script must not reach, and ones which it must
var forbidden = []string{"os", "io", "debug", "package", "channel", "dofile", "loadfile", "load", "loadstring", "module", "require"}
var allowed = []string{"string", "math", "table", "coroutine", "pairs", "ipairs", "tostring", "tonumber", "type", "pcall", "error", "select", "unpack", "setmetatable", "string.format", "table.concat", "math.floor", "coroutine.wrap",
	"Message", "Question", "RR", "OPT", "Error", "Resolvers", "EDNS0_EDE", "EDNS0_UL", "TypeA", "ClassIN", "RcodeNOERROR"}

var probes = map[string]string{
	"plain":     "return %s",
	"index":     "local v = _G; for w in string.gmatch(%q, '[^.]+') do v = v and v[w] end; return v",
	"rawget":    "local v = _G; for w in string.gmatch(%q, '[^.]+') do v = v and rawget(v, w) end; return v",
	"fenv":      "local v = getfenv(1); for w in string.gmatch(%q, '[^.]+') do v = v and v[w] end; return v",
	"fenv0":     "local v = getfenv(0); for w in string.gmatch(%q, '[^.]+') do v = v and v[w] end; return v",
	"coroutine": "return coroutine.wrap(function() local v = _G; for w in string.gmatch(%q, '[^.]+') do v = v and v[w] end; return v end)()",
	"pcall":     "local ok, r = pcall(function() local v = _G; for w in string.gmatch(%q, '[^.]+') do v = v and v[w] end; return v end); return r",
	"load":      "return early(%q)",
}

var probeNames = []string{"plain", "index", "rawget", "fenv", "fenv0", "coroutine", "pcall", "load"}

func genLoad(t *rapid.T) Load {
	c := Load{Kind: kit.Pick(t, "kind", loadKinds...), Conc: uint(kit.Int(t, "conc", 0, 3)), Sandbox: !kit.Chance(t, "open", 30)}
	if c.Kind == "probe" {
		if kit.Chance(t, "good", 40) {
			c.Name = kit.Pick(t, "allowed", allowed...)
		} else {
			c.Name = kit.Pick(t, "forbidden", forbidden...)
		}
		c.Path = kit.Pick(t, "path", probeNames...)
	}
	return c
}

const walkScript = `
function Resolve(msg, ci)
  local seen, found = {}, {}
  local function walk(v, name)
    if seen[v] then return end
    seen[v] = true
    if type(v) == "table" then
      for k, w in pairs(v) do
        found[#found + 1] = tostring(k)
        if type(w) == "table" or type(w) == "function" or type(w) == "userdata" then walk(w, tostring(k)) end
      end
    end
    if type(v) == "function" then
      local ok, env = pcall(getfenv, v)
      if ok and type(env) == "table" then walk(env, name) end
    end
    local mt = getmetatable(v)
    if mt ~= nil then walk(mt, name) end
  end
  walk(_G, "_G")
  walk(msg, "msg")
  walk(ci, "ci")
  walk("", "string")
  walk(coroutine.create(function() end), "thread")
  for i = 0, 3 do
    local ok, env = pcall(getfenv, i)
    if ok and type(env) == "table" then walk(env, "env") end
  end
  return nil, Error.new(table.concat(found, " "))
end
`

// names of functions which reach files, processes or the interpreter
var reach = []string{"dofile", "loadfile", "load", "loadstring", "module", "require", "os", "io", "debug", "package", "channel", "execute", "popen", "getenv", "setenv", "exit", "tmpname", "tmpfile", "loadlib", "loaders", "preload", "getinfo", "sethook", "getregistry"}

func runLoad(x *kit.Ctx, c Load) error {
	opt := rdns.LuaOptions{Concurrency: c.Conc, NoSandbox: !c.Sandbox}
	up := kit.Const("up", kit.R{})
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	resolve := func(script string) (string, error) {
		opt.Script = script
		r, err := rdns.NewLua("lua", opt, up)
		if err != nil {
			return "", fmt.Errorf("script is not accepted: %v\n%s", err, script)
		}
		defer r.Close()
		m, err := r.Resolve(q, rdns.ClientInfo{})
		if m != nil || err == nil {
			return "", fmt.Errorf("got %v, %v of\n%s", m, err, script)
		}
		return err.Error(), nil
	}
	x.NonTrivial()
	switch c.Kind {
	case "probe":
		body := fmt.Sprintf(probes[c.Path], c.Name)
		script := "local early = function(name) local v = _G; for w in string.gmatch(name, '[^.]+') do v = v and v[w] end; return v end\n" +
			"function Resolve(msg, ci)\n  local f = function() " + body + " end\n  return nil, Error.new(type(f()))\nend\n"
		got, err := resolve(script)
		if err != nil {
			return err
		}
		bad := false
		for _, f := range forbidden {
			bad = bad || f == c.Name
		}
		x.LabelIf(bad, "forbidden")
		if c.Sandbox && bad && got != "nil" {
			return fmt.Errorf("%s is a %s in the sandbox (%s)", c.Name, got, c.Path)
		}
		if !bad && got == "nil" {
			return fmt.Errorf("%s is missing (sandbox %v, %s)", c.Name, c.Sandbox, c.Path)
		}
		if !c.Sandbox && bad && got == "nil" {
			return fmt.Errorf("%s is missing without the sandbox (%s)", c.Name, c.Path)
		}
	case "walk":
		got, err := resolve(walkScript)
		if err != nil {
			return err
		}
		keys := strings.Fields(got)
		if len(keys) < 50 {
			return fmt.Errorf("walk found only %v", keys)
		}
		n := 0
		for _, k := range keys {
			for _, f := range reach {
				if k == f {
					n++
					if c.Sandbox {
						return fmt.Errorf("%q can be reached in the sandbox", k)
					}
				}
			}
		}
		if !c.Sandbox && n < 10 {
			return fmt.Errorf("without the sandbox only %d of the libraries are there", n)
		}
	default:
		s := loadScripts[c.Kind]
		opt.Script = s.script
		r, err := rdns.NewLua("lua", opt, up)
		if (err == nil) != s.ok {
			return fmt.Errorf("script %q: error %v", s.script, err)
		}
		if err == nil {
			if m, err := r.Resolve(q, rdns.ClientInfo{}); m != nil || err != nil {
				return fmt.Errorf("got %v, %v", m, err)
			}
			r.Close()
		}
	}
	x.Label("%s", c.Kind)
	x.LabelIf(!c.Sandbox, "no sandbox")
	return nil
}
