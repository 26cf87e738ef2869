package sec

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/miekg/dns"
)

// World describes all zones there are, the first being the root.
type World struct {
	Zones []Zone `json:"zones"`
	Recs  []Rec  `json:"recs"`
}

// Zone is one zone.
type Zone struct {
	Name   string `json:"name"`
	Signed bool   `json:"signed,omitempty"`
	DS     bool   `json:"ds,omitempty"` // the parent has its DS records
	Anchor bool   `json:"anchor,omitempty"`
	NSEC3  bool   `json:"nsec3,omitempty"`
	OptOut bool   `json:"optout,omitempty"`
	Iter   uint16 `json:"iter,omitempty"`
	Salt   string `json:"salt,omitempty"`
	Alg    uint8  `json:"alg,omitempty"`
	CSK    bool   `json:"csk,omitempty"`    // one key for everything
	Spare  bool   `json:"spare,omitempty"`  // a further published key
	Odd    uint16 `json:"odd,omitempty"`    // flags of a further published key
	Roll   bool   `json:"roll,omitempty"`   // signed by a further, unpublished key as well
	Twin   bool   `json:"twin,omitempty"`   // a further published key with the tag of the one that signs
	Decoys int    `json:"decoys,omitempty"` // further signatures nobody can use
	Last   bool   `json:"last,omitempty"`   // of which are after the right one
	Other  uint8  `json:"other,omitempty"`  // digest type of a further DS record
	// the attacker has a key with the same tag
	EvilTwin bool `json:"eviltwin,omitempty"`

	Digest uint8  `json:"digest,omitempty"`
	TTL    uint32 `json:"ttl,omitempty"` // of the keys
	Epoch  int    `json:"epoch,omitempty"`
}

// Rec is a set of records.
type Rec struct {
	Name   string `json:"name"`
	Type   uint16 `json:"type"`
	N      int    `json:"n,omitempty"`
	Target string `json:"target,omitempty"` // CNAME, DNAME
}

type zone struct {
	Zone
	idx    int
	parent *zone
	secure bool
	names  map[string]map[uint16][]dns.RR // by canonical name
	chain  []string                       // NSEC: names in order; NSEC3: hashes in order
	owner  map[string]string              // NSEC3: hash to name
}

type world struct {
	zones []*zone
	from  uint32 // validity of signatures
	to    uint32
	sigs  map[string][]*dns.RRSIG
}

func labels(name string) []string { return dns.SplitDomainName(dns.CanonicalName(name)) }

func raw(label string) []byte {
	buf := make([]byte, 300)
	n, err := dns.PackDomainName(label+".", buf, 0, nil, false)
	if err != nil {
		panic(fmt.Sprintf("label %q: %v", label, err))
	}
	return buf[1 : n-1]
}

// before tells if name a comes before name b in the order of names.
func before(a, b string) bool {
	x, y := labels(a), labels(b)
	for i, j := len(x)-1, len(y)-1; ; i, j = i-1, j-1 {
		if j < 0 {
			return false
		}
		if i < 0 {
			return true
		}
		if c := bytes.Compare(raw(x[i]), raw(y[j])); c != 0 {
			return c < 0
		}
	}
}

func under(parent, name string) bool { return dns.IsSubDomain(parent, name) }

func up(name string) string {
	l := labels(name)
	if len(l) <= 1 {
		return "."
	}
	return strings.Join(l[1:], ".") + "."
}

func join(label, name string) string {
	if name == "." {
		return label + "."
	}
	return label + "." + name
}

func (w World) build(from, to uint32) *world {
	out := &world{from: from, to: to, sigs: map[string][]*dns.RRSIG{}}
	for i, z := range w.Zones {
		z.Name = dns.CanonicalName(z.Name)
		out.zones = append(out.zones, &zone{Zone: z, idx: i, names: map[string]map[uint16][]dns.RR{}})
	}
	for _, z := range out.zones {
		if z.Name != "." {
			z.parent = out.zoneFor(up(z.Name))
		}
	}
	for _, z := range out.zones {
		s := z.Signed
		for p := z; s && p != nil; p = p.parent {
			if p.Anchor {
				break
			}
			s = p.Signed && (p.parent == nil || p.DS && p.parent.Signed)
		}
		z.secure = s
		z.add(&dns.SOA{Hdr: z.hdr(z.Name, dns.TypeSOA), Ns: join("ns", z.Name), Mbox: join("mail", z.Name), Serial: 1, Minttl: 60})
		z.add(&dns.NS{Hdr: z.hdr(z.Name, dns.TypeNS), Ns: join("ns", z.Name)})
		if z.Signed {
			for _, k := range z.keys() {
				z.add(k)
			}
		}
		if p := z.parent; p != nil {
			p.add(&dns.NS{Hdr: z.hdr(z.Name, dns.TypeNS), Ns: join("ns", z.Name)})
			if z.Signed && z.DS {
				p.add(z.ds())
				if z.Other != 0 {
					p.add(&dns.DS{Hdr: z.hdr(z.Name, dns.TypeDS), KeyTag: z.ds().KeyTag, Algorithm: z.Alg, DigestType: z.Other, Digest: strings.Repeat("5a", 32)})
				}
			}
		}
	}
	for _, r := range w.Recs {
		out.addRec(r)
	}
	for _, z := range out.zones {
		z.order()
	}
	return out
}

func (z *zone) hdr(name string, t uint16) dns.RR_Header {
	ttl := uint32(60)
	if t == dns.TypeDNSKEY {
		ttl = z.TTL
	}
	return dns.RR_Header{Name: name, Rrtype: t, Class: dns.ClassINET, Ttl: ttl}
}

func (z *zone) add(rr dns.RR) {
	n := dns.CanonicalName(rr.Header().Name)
	if z.names[n] == nil {
		z.names[n] = map[uint16][]dns.RR{}
	}
	z.names[n][rr.Header().Rrtype] = append(z.names[n][rr.Header().Rrtype], rr)
}

// addRec adds records unless there cannot be such records.
func (w *world) addRec(r Rec) {
	name := dns.CanonicalName(r.Name)
	z := w.zoneFor(name)
	ls := labels(name)
	if len(ls) > 0 && ls[0] == "*" && len(ls) == 1 {
		return // not supported by the library
	}
	for i, l := range ls {
		if strings.HasPrefix(l, "*") && (i > 0 || l != "*") {
			return
		}
	}
	types := z.names[name]
	if types[r.Type] != nil {
		return
	}
	switch r.Type {
	case dns.TypeCNAME:
		if len(types) > 0 {
			return
		}
	default:
		if types[dns.TypeCNAME] != nil {
			return
		}
	}
	// nothing below a DNAME
	if r.Type == dns.TypeDNAME {
		if name == "." || ls[0] == "*" {
			return
		}
		for _, o := range w.zones {
			for n := range o.names {
				if n != name && under(name, n) {
					return
				}
			}
		}
		if under(name, dns.CanonicalName(r.Target)) {
			return
		}
	}
	for n := name; n != z.Name; {
		n = up(n)
		if z.names[n][dns.TypeDNAME] != nil {
			return
		}
	}
	h := z.hdr(r.Name, r.Type)
	for i := 0; i < max(1, r.N); i++ {
		switch r.Type {
		case dns.TypeA:
			z.add(&dns.A{Hdr: h, A: []byte{10, byte(z.idx), byte(len(z.names)), byte(i + 1)}})
		case dns.TypeTXT:
			z.add(&dns.TXT{Hdr: h, Txt: []string{fmt.Sprint("text ", name, i)}})
		case dns.TypeMX:
			z.add(&dns.MX{Hdr: h, Preference: uint16(i), Mx: "Mail." + strings.TrimPrefix(z.Name, ".")})
		case dns.TypeCNAME:
			if i == 0 {
				z.add(&dns.CNAME{Hdr: h, Target: r.Target})
			}
		case dns.TypeDNAME:
			if i == 0 {
				z.add(&dns.DNAME{Hdr: h, Target: r.Target})
			}
		default:
			panic("type")
		}
	}
}

// zoneFor returns the zone that has the data of the name.
func (w *world) zoneFor(name string) *zone {
	var best *zone
	for _, z := range w.zones {
		if under(z.Name, name) && (best == nil || len(labels(z.Name)) > len(labels(best.Name))) {
			best = z
		}
	}
	return best
}

func (w *world) zoneForType(name string, t uint16) *zone {
	z := w.zoneFor(name)
	if t == dns.TypeDS && dns.CanonicalName(name) == z.Name && z.parent != nil {
		return z.parent
	}
	return z
}

func (z *zone) key(role string) keyPair {
	flags := uint16(256)
	switch role {
	case "ksk":
		flags = 257
	case "zsk":
		if z.CSK {
			return z.key("ksk")
		}
	case "odd":
		flags = z.Odd
	}
	return keyFor(z.Alg, flags, fmt.Sprint(role, z.idx, "/", z.Epoch))
}

// twin returns another key with the tag of the one in the role, if one is known.
func (z *zone) twin(whose, role string) (keyPair, bool) {
	flags := uint16(256)
	if role == "zsk" && z.CSK {
		role = "ksk"
	}
	if role == "ksk" {
		flags = 257
	}
	n, ok := twins[fmt.Sprint(whose, " ", role, z.idx)]
	if !ok || z.Alg != dns.ED25519 || z.Epoch != 0 {
		return keyPair{}, false
	}
	k, own := keyFor(z.Alg, flags, fmt.Sprint(whose, " twin ", n)), z.key(role)
	if k.key.KeyTag() != own.key.KeyTag() {
		panic("not a twin")
	}
	return k, true
}

func (z *zone) keys() []*dns.DNSKEY {
	var out []*dns.DNSKEY
	if z.Twin {
		for _, role := range []string{"ksk", "zsk"} {
			if role == "zsk" && z.CSK {
				break
			}
			if k, ok := z.twin("kind", role); ok {
				out = append(out, k.at(z.Name, z.TTL))
			}
		}
	}
	out = append(out, z.key("ksk").at(z.Name, z.TTL))
	if !z.CSK {
		out = append(out, z.key("zsk").at(z.Name, z.TTL))
	}
	if z.Spare {
		out = append(out, z.key("spare").at(z.Name, z.TTL))
	}
	if z.Odd != 0 {
		out = append(out, z.key("odd").at(z.Name, z.TTL))
	}
	return out
}

func (z *zone) ds() *dns.DS {
	ds := z.key("ksk").at(z.Name, 60).ToDS(z.Digest)
	ds.Hdr.Ttl = 60
	return ds
}

// sign returns the signatures of the records by their zone.
func (w *world) sign(z *zone, rrs []dns.RR) []dns.RR {
	if !z.Signed {
		return nil
	}
	h := rrs[0].Header()
	id := fmt.Sprint(z.idx, " ", dns.CanonicalName(h.Name), " ", h.Rrtype)
	sigs, ok := w.sigs[id]
	if !ok {
		role := "zsk"
		if h.Rrtype == dns.TypeDNSKEY {
			role = "ksk"
		}
		if z.Roll {
			sigs = append(sigs, z.key("gone").sign(z.Name, w.from, w.to, rrs))
		}
		right := z.key(role).sign(z.Name, w.from, w.to, rrs)
		var decoys []*dns.RRSIG
		if z.Decoys&1 != 0 && z.secure { // of a zone elsewhere
			decoys = append(decoys, keyFor(dns.ED25519, 256, "elsewhere").sign("elsewhere.", w.from, w.to, rrs))
		}
		if z.Decoys&2 != 0 { // expired
			decoys = append(decoys, z.key(role).sign(z.Name, w.from-864000, w.from, rrs))
		}
		if z.Decoys&4 != 0 { // broken
			c := dns.Copy(right).(*dns.RRSIG)
			w.alter(c, Op{})
			decoys = append(decoys, c)
		}
		if z.Last {
			sigs = append(append(sigs, right), decoys...)
		} else {
			sigs = append(append(sigs, decoys...), right)
		}
		w.sigs[id] = sigs
	}
	var out []dns.RR
	for _, s := range sigs {
		out = append(out, dns.Copy(s))
	}
	return out
}

// order forms the chain of names.
func (z *zone) order() {
	z.chain, z.owner = nil, map[string]string{}
	seen := map[string]bool{}
	for n, types := range z.names {
		if z.NSEC3 && z.OptOut && n != z.Name && types[dns.TypeNS] != nil && types[dns.TypeDS] == nil {
			continue
		}
		seen[n] = true
	}
	if !z.NSEC3 {
		for n := range seen {
			z.chain = append(z.chain, n)
		}
		sort.Slice(z.chain, func(i, j int) bool { return before(z.chain[i], z.chain[j]) })
		return
	}
	for n := range z.names { // empty names in between
		for n != z.Name {
			n = up(n)
			seen[n] = true
		}
	}
	for n := range seen {
		h := dns.HashName(n, dns.SHA1, z.Iter, z.Salt)
		z.owner[h] = n
		z.chain = append(z.chain, h)
	}
	sort.Strings(z.chain)
}

func (z *zone) bitmap(name string) []uint16 {
	var out []uint16
	types := z.names[name]
	for t := range types {
		if name != z.Name && types[dns.TypeNS] != nil && t != dns.TypeNS && t != dns.TypeDS {
			continue
		}
		out = append(out, t)
	}
	if len(out) > 0 && (types[dns.TypeNS] == nil || name == z.Name || types[dns.TypeDS] != nil || !z.NSEC3) {
		out = append(out, dns.TypeRRSIG)
	}
	if !z.NSEC3 {
		out = append(out, dns.TypeNSEC)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// proof returns the record that matches (or covers) the name, nil if there is none.
func (z *zone) proof(name string, match bool) dns.RR {
	name = dns.CanonicalName(name)
	if !z.NSEC3 {
		i := sort.Search(len(z.chain), func(i int) bool { return !before(z.chain[i], name) })
		exact := i < len(z.chain) && z.chain[i] == name
		if exact != match {
			return nil
		}
		if !exact {
			i = (i + len(z.chain) - 1) % len(z.chain)
		}
		n := z.chain[i]
		return &dns.NSEC{Hdr: z.hdr(n, dns.TypeNSEC), NextDomain: z.chain[(i+1)%len(z.chain)], TypeBitMap: z.bitmap(n)}
	}
	h := dns.HashName(name, dns.SHA1, z.Iter, z.Salt)
	i := sort.SearchStrings(z.chain, h)
	exact := i < len(z.chain) && z.chain[i] == h
	if exact != match {
		return nil
	}
	if !exact {
		i = (i + len(z.chain) - 1) % len(z.chain)
	}
	h = z.chain[i]
	r := &dns.NSEC3{
		Hdr: z.hdr(join(strings.ToLower(h), z.Name), dns.TypeNSEC3), Hash: dns.SHA1, Iterations: z.Iter,
		SaltLength: uint8(len(z.Salt) / 2), Salt: z.Salt, HashLength: 20, NextDomain: z.chain[(i+1)%len(z.chain)],
		TypeBitMap: z.bitmap(z.owner[h]),
	}
	if z.OptOut {
		r.Flags = 1
	}
	return r
}

// exists tells if there are records at or below the name.
func (z *zone) exists(name string) bool {
	for n := range z.names {
		if under(name, n) {
			return true
		}
	}
	return false
}

func (z *zone) encloser(name string) (ce, next string) {
	name = dns.CanonicalName(name)
	for next = name; ; next = ce {
		ce = up(next)
		if z.exists(ce) {
			return
		}
	}
}

type kind int

const (
	hasData kind = iota
	hasAlias
	hasDNAME
	noData
	noName
)

// look finds the data of one name. From is the name of the records in the zone.
func (w *world) look(name string, t uint16) (k kind, z *zone, from string, rrs []dns.RR) {
	name = dns.CanonicalName(name)
	z = w.zoneForType(name, t)
	for n := name; n != z.Name; {
		n = up(n)
		if d := z.names[n][dns.TypeDNAME]; d != nil {
			return hasDNAME, z, n, d
		}
	}
	from = name
	if !z.exists(name) {
		ce, _ := z.encloser(name)
		from = join("*", ce)
		if z.names[from] == nil {
			return noName, z, "", nil
		}
	}
	if rrs = z.names[from][t]; rrs != nil {
		return hasData, z, from, rrs
	}
	if rrs = z.names[from][dns.TypeCNAME]; rrs != nil {
		return hasAlias, z, from, rrs
	}
	return noData, z, from, nil
}

// rename returns copies of the records with another owner.
func rename(rrs []dns.RR, name string) []dns.RR {
	var out []dns.RR
	for _, rr := range rrs {
		rr = dns.Copy(rr)
		rr.Header().Name = name
		out = append(out, rr)
	}
	return out
}

// swap returns the name below owner moved below target.
func swap(name, owner, target string) string {
	l := dns.SplitDomainName(name)
	l = l[:len(l)-len(labels(owner))]
	out := strings.Join(l, ".") + "."
	if target != "." {
		out += target
	}
	return out
}

// answer returns the right response to a query.
func (w *world) answer(q *dns.Msg) *dns.Msg {
	m := new(dns.Msg)
	m.SetReply(q)
	m.RecursionAvailable = true
	w.fill(m, q.Question[0].Name, q.Question[0].Qtype)
	if o := q.IsEdns0(); o != nil {
		m.SetEdns0(1232, o.Do())
	}
	return m
}

func (w *world) fill(m *dns.Msg, name string, t uint16) {
	have := map[string]bool{}
	prove := func(z *zone, rr dns.RR) {
		if rr == nil || !z.Signed || have[rr.String()] {
			return
		}
		have[rr.String()] = true
		m.Ns = append(m.Ns, rr)
		m.Ns = append(m.Ns, w.sign(z, []dns.RR{rr})...)
	}
	soa := func(z *zone) {
		rrs := z.names[z.Name][dns.TypeSOA]
		m.Ns = append(m.Ns, rename(rrs, z.Name)...)
		m.Ns = append(m.Ns, w.sign(z, rrs)...)
	}
	for i := 0; i < 8; i++ {
		k, z, from, rrs := w.look(name, t)
		if k == hasDNAME {
			d := rrs[0].(*dns.DNAME)
			m.Answer = append(m.Answer, rename(rrs, d.Hdr.Name)...)
			m.Answer = append(m.Answer, w.sign(z, rrs)...)
			target := swap(name, from, d.Target)
			if _, ok := dns.IsDomainName(target); !ok || len(target) > 250 {
				m.Rcode = dns.RcodeYXDomain
				return
			}
			m.Answer = append(m.Answer, &dns.CNAME{Hdr: z.hdr(name, dns.TypeCNAME), Target: target})
			name = target
			if t == dns.TypeCNAME {
				return
			}
			continue
		}
		if rrs != nil {
			m.Answer = append(m.Answer, rename(rrs, name)...)
			m.Answer = append(m.Answer, rename(w.sign(z, rrs), name)...)
		}
		ce, next := "", ""
		wild := from != dns.CanonicalName(name)
		if wild {
			ce, next = z.encloser(name)
			if z.NSEC3 {
				if rrs == nil {
					prove(z, z.proof(ce, true))
				}
				prove(z, z.proof(next, false))
			} else {
				prove(z, z.proof(name, false))
			}
		}
		switch k {
		case hasData:
			return
		case hasAlias:
			name = rrs[0].(*dns.CNAME).Target
			continue
		case noData:
			if wild {
				prove(z, z.proof(from, true))
			} else if p := z.proof(name, true); p != nil {
				prove(z, p)
			} else if z.NSEC3 { // delegation left out of the chain
				ce, next = dns.CanonicalName(name), dns.CanonicalName(name)
				for z.Signed && z.proof(ce, true) == nil {
					next, ce = ce, up(ce)
				}
				if z.Signed {
					prove(z, z.proof(ce, true))
					prove(z, z.proof(next, false))
				}
			} else {
				prove(z, z.proof(name, false))
			}
		case noName:
			prove(z, z.proof(join("*", ce), false))
			m.Rcode = dns.RcodeNameError
		}
		soa(z)
		return
	}
	m.Answer, m.Ns, m.Rcode = nil, nil, dns.RcodeServerFailure // a loop
}

// free tells if anyone can make up data of the name: it is not in a zone that
// is known to be signed, or may be a delegation that is left out of the chain.
func (w *world) free(name string, t uint16) bool {
	z := w.zoneForType(name, t)
	if !z.secure {
		return true
	}
	if z.NSEC3 && z.OptOut {
		return z.proof(name, true) == nil
	}
	return false
}
