package kit

import (
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"
)

// Q describes a query.
type Q struct {
	Name   string `json:"name"`
	Type   uint16 `json:"type"`
	Class  uint16 `json:"class,omitempty"` // 0 means IN
	ID     uint16 `json:"id,omitempty"`
	RD     bool   `json:"rd,omitempty"`
	CD     bool   `json:"cd,omitempty"`
	AD     bool   `json:"ad,omitempty"`
	Opcode int    `json:"opcode,omitempty"`
	EDNS   *E     `json:"edns,omitempty"`
	More   []QQ   `json:"more,omitempty"` // further questions
}

// QQ is a question.
type QQ struct {
	Name  string `json:"name"`
	Type  uint16 `json:"type"`
	Class uint16 `json:"class,omitempty"`
}

// E describes an OPT record.
type E struct {
	Size uint16 `json:"size,omitempty"`
	DO   bool   `json:"do,omitempty"`
	Opts []Opt  `json:"opts,omitempty"`

	First bool `json:"first,omitempty"` // before the other additional records of a response
}

// Opt is one EDNS0 option; ECS ones are kept in parsed form.
type Opt struct {
	Code uint16 `json:"code,omitempty"`
	Data string `json:"data,omitempty"` // hex
	ECS  *ECS   `json:"ecs,omitempty"`
}

// ECS is an EDNS0 client subnet option.
type ECS struct {
	Addr  string `json:"addr"`
	Mask  uint8  `json:"mask"`
	Scope uint8  `json:"scope,omitempty"`
}

func class(c uint16) uint16 {
	if c == 0 {
		return dns.ClassINET
	}
	return c
}

// Msg builds the query.
func (q Q) Msg() *dns.Msg {
	m := new(dns.Msg)
	m.Id = q.ID
	m.RecursionDesired = q.RD
	m.CheckingDisabled = q.CD
	m.AuthenticatedData = q.AD
	m.Opcode = q.Opcode
	m.Question = []dns.Question{{Name: q.Name, Qtype: q.Type, Qclass: class(q.Class)}}
	for _, x := range q.More {
		m.Question = append(m.Question, dns.Question{Name: x.Name, Qtype: x.Type, Qclass: class(x.Class)})
	}
	if q.EDNS != nil {
		m.Extra = append(m.Extra, q.EDNS.RR())
	}
	return m
}

// RR builds the OPT record.
func (e E) RR() *dns.OPT {
	o := new(dns.OPT)
	o.Hdr.Name = "."
	o.Hdr.Rrtype = dns.TypeOPT
	o.SetUDPSize(e.Size)
	if e.DO {
		o.SetDo()
	}
	for _, p := range e.Opts {
		o.Option = append(o.Option, p.Option())
	}
	return o
}

// Option builds the EDNS0 option.
func (p Opt) Option() dns.EDNS0 {
	if p.ECS != nil {
		s := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, SourceNetmask: p.ECS.Mask, SourceScope: p.ECS.Scope}
		ip := net.ParseIP(p.ECS.Addr)
		if v4 := ip.To4(); v4 != nil && !strings.Contains(p.ECS.Addr, ":") {
			s.Family = 1
			s.Address = v4
		} else {
			s.Family = 2
			s.Address = ip
		}
		return s
	}
	data, err := hex.DecodeString(p.Data)
	if err != nil {
		panic(err)
	}
	switch p.Code {
	case dns.EDNS0COOKIE:
		return &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: p.Data}
	case dns.EDNS0PADDING:
		return &dns.EDNS0_PADDING{Padding: data}
	case dns.EDNS0NSID:
		return &dns.EDNS0_NSID{Code: dns.EDNS0NSID, Nsid: p.Data}
	}
	return &dns.EDNS0_LOCAL{Code: p.Code, Data: data}
}

// R describes a response (or an error, or no response at all).
type R struct {
	Err   string   `json:"err,omitempty"`
	Nil   bool     `json:"nil,omitempty"`
	Rcode int      `json:"rcode,omitempty"`
	AA    bool     `json:"aa,omitempty"`
	TC    bool     `json:"tc,omitempty"`
	RA    bool     `json:"ra,omitempty"`
	AD    bool     `json:"ad,omitempty"`
	An    []string `json:"an,omitempty"`
	Ns    []string `json:"ns,omitempty"`
	Ex    []string `json:"ex,omitempty"`
	EDNS  *E       `json:"edns,omitempty"`
	EDE   *uint16  `json:"ede,omitempty"`
}

// RR parses a record in presentation format.
func RR(s string) dns.RR {
	rr, err := dns.NewRR(s)
	if err != nil || rr == nil {
		panic(fmt.Sprintf("verif: bad RR %q: %v", s, err))
	}
	return rr
}

// RRs parses records.
func RRs(ss []string) []dns.RR {
	var out []dns.RR
	for _, s := range ss {
		out = append(out, RR(s))
	}
	return out
}

// Msg builds the response to q.
func (r R) Msg(q *dns.Msg) (*dns.Msg, error) {
	if r.Err != "" {
		return nil, errors.New(r.Err)
	}
	if r.Nil {
		return nil, nil
	}
	m := new(dns.Msg)
	m.Id = q.Id
	m.Response = true
	m.Opcode = q.Opcode
	m.RecursionDesired = q.RecursionDesired
	m.CheckingDisabled = q.CheckingDisabled
	m.Question = append(m.Question, q.Question...)
	m.Rcode = r.Rcode
	m.Authoritative = r.AA
	m.Truncated = r.TC
	m.RecursionAvailable = r.RA
	m.AuthenticatedData = r.AD
	m.Answer = RRs(r.An)
	m.Ns = RRs(r.Ns)
	m.Extra = RRs(r.Ex)
	if r.EDNS != nil || r.EDE != nil {
		e := r.EDNS
		if e == nil {
			e = &E{Size: 1232}
		}
		o := e.RR()
		if r.EDE != nil {
			o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: *r.EDE, ExtraText: "x"})
		}
		if e.First {
			m.Extra = append([]dns.RR{o}, m.Extra...)
		} else {
			m.Extra = append(m.Extra, o)
		}
	}
	return m, nil
}

// Call is one query seen by an upstream.
type Call struct {
	Q  *dns.Msg // a copy, as it was when the call came in
	CI rdns.ClientInfo
}

// Up is a scripted upstream resolver. F must build a new message every time.
type Up struct {
	ID    string
	F     func(n int, q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error)
	mu    sync.Mutex
	calls []Call
}

var _ rdns.Resolver = &Up{}

// Resolve implements rdns.Resolver.
func (u *Up) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	u.mu.Lock()
	n := len(u.calls)
	u.calls = append(u.calls, Call{Q: q.Copy(), CI: ci})
	u.mu.Unlock()
	return u.F(n, q, ci)
}

func (u *Up) String() string { return u.ID }

// Calls returns the calls made so far.
func (u *Up) Calls() []Call {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]Call(nil), u.calls...)
}

// N is the number of calls made so far.
func (u *Up) N() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return len(u.calls)
}

// Const returns an upstream that always answers with r.
func Const(id string, r R) *Up {
	return &Up{ID: id, F: func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return r.Msg(q) }}
}

// Text renders a message completely and comparably.
func Text(m *dns.Msg) string {
	if m == nil {
		return "<nil>"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "id=%d %s", m.Id, HeadText(m))
	return b.String()
}

// HeadText is Text without the message ID.
func HeadText(m *dns.Msg) string {
	if m == nil {
		return "<nil>"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "op=%d rcode=%d qr=%v aa=%v tc=%v rd=%v ra=%v z=%v ad=%v cd=%v\n", m.Opcode, m.Rcode, m.Response,
		m.Authoritative, m.Truncated, m.RecursionDesired, m.RecursionAvailable, m.Zero, m.AuthenticatedData, m.CheckingDisabled)
	for _, q := range m.Question {
		fmt.Fprintf(&b, "? %q %d %d\n", q.Name, q.Qtype, q.Qclass)
	}
	section := func(n string, rrs []dns.RR) {
		for _, rr := range rrs {
			fmt.Fprintf(&b, "%s %s\n", n, RRText(rr))
		}
	}
	section("an", m.Answer)
	section("ns", m.Ns)
	section("ex", m.Extra)
	return b.String()
}

// RRText renders a record; OPT ones with all their options.
func RRText(rr dns.RR) string {
	if rr == nil {
		return "<nil RR>"
	}
	if o, ok := rr.(*dns.OPT); ok {
		var b strings.Builder
		fmt.Fprintf(&b, "OPT size=%d do=%v ver=%d flags=%x", o.UDPSize(), o.Do(), o.Version(), o.Hdr.Ttl)
		for _, p := range o.Option {
			fmt.Fprintf(&b, " [%d %s]", p.Option(), OptText(p))
		}
		return b.String()
	}
	return rr.String()
}

// OptText renders the content of an EDNS0 option.
func OptText(p dns.EDNS0) string {
	switch e := p.(type) {
	case *dns.EDNS0_SUBNET:
		return fmt.Sprintf("fam=%d src=%d scope=%d addr=%s", e.Family, e.SourceNetmask, e.SourceScope, e.Address)
	case *dns.EDNS0_PADDING:
		return fmt.Sprintf("pad=%d", len(e.Padding))
	case *dns.EDNS0_EDE:
		return fmt.Sprintf("ede=%d %q", e.InfoCode, e.ExtraText)
	case *dns.EDNS0_LOCAL:
		return hex.EncodeToString(e.Data)
	}
	return p.String()
}

// SortedTexts renders records and sorts them (for comparison as multisets).
func SortedTexts(rrs []dns.RR) []string {
	out := make([]string, 0, len(rrs))
	for _, rr := range rrs {
		out = append(out, RRText(rr))
	}
	sort.Strings(out)
	return out
}

// FindEDE returns the extended error of a message.
func FindEDE(m *dns.Msg) *dns.EDNS0_EDE {
	if o := m.IsEdns0(); o != nil {
		for _, p := range o.Option {
			if e, ok := p.(*dns.EDNS0_EDE); ok {
				return e
			}
		}
	}
	return nil
}

// ---- generators ----

// Pick draws one of the values.
func Pick[T any](t *rapid.T, name string, vals ...T) T {
	return rapid.SampledFrom(vals).Draw(t, name)
}

// Chance is true in some of the draws, and shrinks to false. As small numbers are
// drawn more often, these are about pct percent if that is little, but 27 if it
// is 50, and 58 if it is 90.
func Chance(t *rapid.T, name string, pct int) bool {
	return rapid.IntRange(0, 99).Draw(t, name) >= 100-pct
}

// Odds is true in pct percent of the draws, and shrinks to false.
func Odds(t *rapid.T, name string, pct int) bool {
	n := 0
	for range 7 {
		n *= 2
		if rapid.Bool().Draw(t, name) {
			n++
		}
	}
	return n >= 128-(128*pct+50)/100
}

// Int draws from a closed range.
func Int(t *rapid.T, name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, name) }

// List draws a list of lo..hi elements.
func List[T any](t *rapid.T, name string, lo, hi int, f func(t *rapid.T) T) []T {
	return rapid.SliceOfN(rapid.Custom(f), lo, hi).Draw(t, name)
}

// CaseMix flips the case of letters in a name.
func CaseMix(t *rapid.T, name string) string {
	if !Chance(t, "mixcase", 35) {
		return name
	}
	mask := rapid.Uint64().Draw(t, "casemask")
	b := []byte(name)
	n := 0
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			if mask&(1<<(n%64)) != 0 {
				b[i] = c - 32
			}
			n++
		}
	}
	return string(b)
}

// Labels used for names: few enough that related names come up often.
var Labels = []string{"a", "b", "c", "www", "ab", "x-1", "_tcp", "9"}

// Name draws a fully qualified lower-case name of lo..hi labels.
func Name(t *rapid.T, lo, hi int) string {
	n := Int(t, "labels", lo, hi)
	if n == 0 {
		return "."
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i == n-1 {
			b.WriteString(Pick(t, "tld", "test", "com", "a"))
		} else {
			b.WriteString(Pick(t, "label", Labels...))
		}
		b.WriteByte('.')
	}
	return b.String()
}

// OddName is Name, with now and then an unusual but valid name.
func OddName(t *rapid.T, lo, hi int) string {
	if !Chance(t, "odd", 6) {
		return Name(t, lo, hi)
	}
	switch Int(t, "oddkind", 0, 4) {
	case 0:
		return strings.Repeat("l", 63) + "." + Name(t, 1, 2)
	case 1:
		l := strings.Repeat("m", 61)
		return l + "." + l + "." + l + "." + l + ".test."
	case 2:
		return `a\.b.` + Name(t, 1, 2)
	case 3:
		return `\000\255x.` + Name(t, 1, 2)
	}
	return "*." + Name(t, 1, 2)
}

// QTypes are the usual query types.
var QTypes = []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeMX, dns.TypeTXT, dns.TypeCNAME, dns.TypeNS, dns.TypePTR, dns.TypeSRV, dns.TypeSOA, dns.TypeHTTPS, dns.TypeANY, 65280}

// IP4 draws an IPv4 address from few enough ones that prefixes collide.
func IP4(t *rapid.T) string {
	return fmt.Sprintf("%d.%d.%d.%d", Pick(t, "o1", 10, 192, 127, 1, 255, 0), Pick(t, "o2", 0, 168, 1, 255, 128), Pick(t, "o3", 0, 1, 2, 127, 128, 255), rapid.IntRange(0, 255).Draw(t, "o4"))
}

// IP6 draws an IPv6 address.
func IP6(t *rapid.T) string {
	ip := net.ParseIP(Pick(t, "p6", "2001:db8::", "2001:db8:0:1::", "2001:db8:ffff::", "fe80::", "::", "64:ff9b::"))
	b := []byte(ip)
	b[6] = Pick[byte](t, "b6", 0, 0, 1, 128, 255)
	b[7] = Pick[byte](t, "b7", 0, 1, 255)
	b[15] = byte(rapid.IntRange(0, 255).Draw(t, "b15"))
	b[14] = Pick[byte](t, "b14", 0, 0, 0, 1)
	return net.IP(b).String()
}

// IP draws an address of either family.
func IP(t *rapid.T) string {
	if rapid.Bool().Draw(t, "v6") {
		return IP6(t)
	}
	return IP4(t)
}

// GenECS draws a client subnet option.
func GenECS(t *rapid.T) *ECS {
	if rapid.Bool().Draw(t, "ecs6") {
		return &ECS{Addr: IP6(t), Mask: Pick[uint8](t, "m6", 56, 0, 1, 48, 64, 127, 128), Scope: Pick[uint8](t, "sc", 0, 0, 56)}
	}
	return &ECS{Addr: IP4(t), Mask: Pick[uint8](t, "m4", 24, 0, 1, 8, 16, 31, 32), Scope: Pick[uint8](t, "sc", 0, 0, 24)}
}

// MaskedECS is GenECS with the host bits of the address cleared, as a client
// that follows the RFC sends it and as it comes off the wire.
func MaskedECS(t *rapid.T) *ECS {
	e := GenECS(t)
	ip := net.ParseIP(e.Addr)
	if v4 := ip.To4(); v4 != nil && !strings.Contains(e.Addr, ":") {
		e.Addr = v4.Mask(net.CIDRMask(int(e.Mask), 32)).String()
	} else {
		e.Addr = ip.Mask(net.CIDRMask(int(e.Mask), 128)).String()
	}
	if strings.Count(e.Addr, ":") == 0 && e.Mask > 32 {
		e.Mask = 32
	}
	return e
}

// GenEDNS draws an OPT record, or nil.
func GenEDNS(t *rapid.T) *E {
	if !Chance(t, "edns", 60) {
		return nil
	}
	e := &E{Size: Pick[uint16](t, "size", 1232, 512, 4096, 0, 65535, 511), DO: Chance(t, "do", 40)}
	if Chance(t, "ecs", 35) {
		e.Opts = append(e.Opts, Opt{ECS: GenECS(t)})
	}
	if Chance(t, "cookie", 20) {
		e.Opts = append(e.Opts, Opt{Code: dns.EDNS0COOKIE, Data: "0011223344556677"})
	}
	if Chance(t, "local", 20) {
		e.Opts = append(e.Opts, Opt{Code: Pick[uint16](t, "lcode", 65001, 65002, 26), Data: Pick(t, "ldata", "", "01", "0123456789ab")})
	}
	if Chance(t, "pad", 10) {
		e.Opts = append(e.Opts, Opt{Code: dns.EDNS0PADDING, Data: "000000"})
	}
	if len(e.Opts) > 1 && Chance(t, "rot", 40) {
		e.Opts = append(e.Opts[1:], e.Opts[0])
	}
	e.First = Chance(t, "first", 30)
	return e
}

// GenQ draws a query for a name of the given depth.
func GenQ(t *rapid.T, lo, hi int) Q {
	return Q{
		Name:  CaseMix(t, OddName(t, lo, hi)),
		Type:  Pick(t, "qtype", QTypes...),
		Class: Pick[uint16](t, "qclass", 0, 0, 0, 0, 0, 0, dns.ClassCHAOS, dns.ClassANY),
		ID:    rapid.Uint16().Draw(t, "id"),
		RD:    !Chance(t, "nord", 20),
		CD:    Chance(t, "cd", 20),
		AD:    Chance(t, "ad", 15),
		EDNS:  GenEDNS(t),
	}
}

// TTL draws a TTL with the interesting boundaries in it.
func TTL(t *rapid.T) uint32 {
	return Pick[uint32](t, "ttl", 60, 0, 1, 2, 5, 10, 30, 59, 61, 300, 301, 3600, 86400, 604800, 1<<31-1)
}

// RRTypes are the record types GenRR can draw.
var RRTypes = []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeCNAME, dns.TypeMX, dns.TypeTXT, dns.TypeNS, dns.TypePTR, dns.TypeSRV, dns.TypeSOA, dns.TypeHTTPS, dns.TypeCAA, dns.TypeDS}

// GenRR draws a record of the type in presentation format.
func GenRR(t *rapid.T, owner string, typ uint16, ttl uint32) string {
	head := fmt.Sprintf("%s %d IN ", owner, ttl)
	switch typ {
	case dns.TypeA:
		return head + "A " + IP4(t)
	case dns.TypeAAAA:
		return head + "AAAA " + IP6(t)
	case dns.TypeCNAME:
		return head + "CNAME " + CaseMix(t, Name(t, 1, 4))
	case dns.TypeMX:
		return head + fmt.Sprintf("MX %d %s", Int(t, "pref", 0, 20), Name(t, 1, 3))
	case dns.TypeTXT:
		return head + fmt.Sprintf("TXT %q", Pick(t, "txt", "", "v=spf1 -all", "a b c", "tracker.ads.test", "x"))
	case dns.TypeNS:
		return head + "NS " + CaseMix(t, Name(t, 1, 3))
	case dns.TypePTR:
		return head + "PTR " + CaseMix(t, Name(t, 1, 3))
	case dns.TypeSRV:
		return head + fmt.Sprintf("SRV 0 5 %d %s", Int(t, "port", 0, 65535), Name(t, 1, 3))
	case dns.TypeSOA:
		return head + fmt.Sprintf("SOA %s %s 1 2 3 4 %d", Name(t, 1, 3), "h."+Name(t, 1, 2), TTL(t))
	case dns.TypeHTTPS:
		return head + fmt.Sprintf("HTTPS 1 %s alpn=\"h2\"", Name(t, 0, 3))
	case dns.TypeHINFO:
		return head + `HINFO "RFC8482" ""`
	case dns.TypeCAA:
		return head + `CAA 0 issue "ca.test"`
	case dns.TypeDS:
		return head + "DS 1 8 2 0011223344556677889900112233445566778899001122334455667788990011"
	}
	return head + fmt.Sprintf("TYPE%d \\# 2 abcd", typ)
}

// GenRRs draws lo..hi records with owners related to name.
func GenRRs(t *rapid.T, label, name string, lo, hi int, types ...uint16) []string {
	if len(types) == 0 {
		types = RRTypes
	}
	return List(t, label, lo, hi, func(t *rapid.T) string {
		owner := name
		if Chance(t, "other", 25) {
			owner = Name(t, 1, 3)
		}
		return GenRR(t, owner, Pick(t, "rrtype", types...), TTL(t))
	})
}

// SameQuestion says whether m is a well-formed reply to exactly the query q.
func SameQuestion(q, m *dns.Msg) error {
	if m.Id != q.Id {
		return fmt.Errorf("reply has ID %d, the query %d", m.Id, q.Id)
	}
	if !m.Response || m.Opcode != q.Opcode || m.RecursionDesired != q.RecursionDesired && q.Opcode == dns.OpcodeQuery {
		return fmt.Errorf("reply has the flags of\n%sthe query is\n%s", Text(m), Text(q))
	}
	if len(m.Question) != len(q.Question) {
		return fmt.Errorf("reply has %d questions, the query %d", len(m.Question), len(q.Question))
	}
	for i := range q.Question {
		if m.Question[i] != q.Question[i] {
			return fmt.Errorf("reply has question %v, the query %v", m.Question[i], q.Question[i])
		}
	}
	return nil
}

// ValidName says whether a fully qualified name can be put on the wire.
func ValidName(s string) bool {
	n, err := dns.PackDomainName(s, make([]byte, 300), 0, nil, false)
	_, ok := dns.IsDomainName(s)
	return err == nil && ok && n <= 255 && strings.HasSuffix(s, ".")
}
