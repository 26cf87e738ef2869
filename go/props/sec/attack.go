package sec

import (
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/miekg/dns"
)

// Op is a change to a response.
type Op struct {
	At   string `json:"at,omitempty"` // "": to the query, "key": DNSKEY lookups, "ds": DS lookups of the name
	For  string `json:"for,omitempty"`
	Op   string `json:"op"`
	Zone int    `json:"zone,omitempty"`
	I    int    `json:"i,omitempty"`
	J    int    `json:"j,omitempty"`
	Name string `json:"name,omitempty"`
	Type uint16 `json:"type,omitempty"`
}

// harmless changes leave a response valid.
var harmless = []string{"ttl", "reverse", "case", "extra", "resign-same"}

var (
	answerOps = []string{"addsig", "sibling", "wildcard", "wildcard", "unsign", "drop", "alter", "add", "resign", "replay", "chain", "expand", "data", "empty", "sigs", "rcode", "own", "forge", "unsigned", "ttl", "reverse", "case", "extra"}
	keyOps    = []string{"addsig", "evilkeys", "addkey", "alter", "drop", "unsign", "resign", "fail", "refuse", "none", "empty", "replay"}
	dsOps     = []string{"addsig", "evilnsec", "evilnsec", "others", "evilds", "empty", "alter", "drop", "unsign", "resign", "replay", "chain", "expand", "data", "fail", "refuse", "none", "rcode", "nsec"}
)

var errLost = errors.New("lost")

// evil returns the attacker's key for a zone, which may have the same tag as the
// zone's own.
func (z *zone) evil() keyPair {
	if z.EvilTwin {
		if k, ok := z.twin("evil", "ksk"); ok {
			return k
		}
	}
	return keyFor(z.Alg, 257, "evil "+z.Name)
}

// apply changes the response m. All records of m are its own.
func (w *world) apply(m *dns.Msg, op Op) (*dns.Msg, error) {
	qname, qtype := m.Question[0].Name, m.Question[0].Qtype
	z := w.zones[op.Zone%len(w.zones)]
	pick := func() *dns.RR {
		n := len(m.Answer) + len(m.Ns)
		if n == 0 {
			return nil
		}
		i := op.I % n
		if i < len(m.Answer) {
			return &m.Answer[i]
		}
		return &m.Ns[i-len(m.Answer)]
	}
	switch op.Op {
	case "unsign":
		not := func(rr dns.RR) bool { return rr.Header().Rrtype == dns.TypeRRSIG }
		if op.I%2 == 0 {
			m.Answer = slices.DeleteFunc(m.Answer, not)
		} else {
			m.Ns = slices.DeleteFunc(m.Ns, not)
		}
	case "drop":
		if p := pick(); p != nil {
			rr := *p
			same := func(o dns.RR) bool { return o == rr }
			m.Answer = slices.DeleteFunc(m.Answer, same)
			m.Ns = slices.DeleteFunc(m.Ns, same)
		}
	case "alter":
		if p := pick(); p != nil {
			w.alter(*p, op)
		}
	case "add":
		if p := pick(); p != nil {
			rr := dns.Copy(*p)
			w.alter(rr, op)
			m.Answer = append(m.Answer, rr)
		}
	case "resign", "resign-same":
		if p := pick(); p != nil {
			if sig, ok := (*p).(*dns.RRSIG); ok {
				w.resign(m, sig.Hdr.Name, sig.TypeCovered, op)
			} else {
				w.resign(m, (*p).Header().Name, (*p).Header().Rrtype, op)
			}
		}
	case "replay":
		o := new(dns.Msg)
		w.fill(o, op.Name, op.Type)
		m.Answer, m.Ns, m.Rcode = o.Answer, o.Ns, o.Rcode
	case "chain":
		if len(z.chain) > 0 && z.Signed {
			n := z.chain[op.I%len(z.chain)]
			if z.NSEC3 {
				n = z.owner[n]
			}
			rr := z.proof(n, true)
			m.Ns = append(m.Ns, rr)
			m.Ns = append(m.Ns, w.sign(z, []dns.RR{rr})...)
		}
	case "expand": // the one of a wildcard, under a name it stands for
		i := slices.IndexFunc(z.chain, func(n string) bool { return strings.HasPrefix(n, "*.") })
		if i >= 0 && z.Signed && !z.NSEC3 {
			rr := z.proof(z.chain[i], true)
			sig := w.sign(z, []dns.RR{rr})
			n := join([]string{"0", "a", "b", "ab", "c"}[op.J%5], z.chain[i][2:])
			m.Ns = append(m.Ns, rename([]dns.RR{rr}, n)...)
			m.Ns = append(m.Ns, rename(sig, n)...)
		}
	case "nsec": // all of the zone
		if z.Signed {
			for _, n := range z.chain {
				if z.NSEC3 {
					n = z.owner[n]
				}
				rr := z.proof(n, true)
				m.Ns = append(m.Ns, rr)
				m.Ns = append(m.Ns, w.sign(z, []dns.RR{rr})...)
			}
		}
	case "others": // all of the zone but the one of the name
		w.others(m, z, qname)
	case "wildcard": // the data of a wildcard above the name
		for n := dns.CanonicalName(qname); n != "."; {
			n = up(n)
			star := join("*", n)
			o := w.zoneFor(star)
			if rrs := o.names[star][qtype]; len(rrs) > 0 && o.Signed {
				m.Rcode = 0
				m.Answer = append(rename(rrs, qname), rename(w.sign(o, rrs), qname)...)
				m.Ns = nil
				w.others(m, o, qname)
				break
			}
		}
	case "sibling": // signed by a zone the name only looks to be below
		for _, o := range w.zones {
			if o.Signed && o.Name != "." && strings.HasSuffix(dns.CanonicalName(qname), o.Name) && !under(o.Name, qname) {
				m.Rcode = 0
				m.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: qname, Rrtype: dns.TypeA, Class: dns.ClassINET, Ttl: 60}, A: []byte{6, 6, 6, 9}}}
				m.Answer = append(m.Answer, o.key("zsk").sign(o.Name, w.from, w.to, m.Answer))
				break
			}
		}
	case "addsig": // further signatures, all bad
		for _, section := range []*[]dns.RR{&m.Answer, &m.Ns} {
			var more []dns.RR
			for _, rr := range *section {
				if rr.Header().Rrtype == dns.TypeRRSIG {
					c := dns.Copy(rr)
					w.alter(c, op)
					more = append(more, c)
				}
			}
			if op.I%2 == 0 {
				*section = append(*section, more...)
			} else {
				*section = append(more, *section...)
			}
		}
	case "evilnsec": // a made up proof that there is no DS record
		m.Answer, m.Ns, m.Rcode = nil, nil, 0
		if parent := w.zoneForType(qname, dns.TypeDS); parent.NSEC3 {
			h := dns.HashName(qname, dns.SHA1, parent.Iter, parent.Salt)
			m.Ns = append(m.Ns, &dns.NSEC3{
				Hdr: dns.RR_Header{Name: join(strings.ToLower(h), parent.Name), Rrtype: dns.TypeNSEC3, Class: dns.ClassINET, Ttl: 60}, Hash: dns.SHA1, Iterations: parent.Iter,
				SaltLength: uint8(len(parent.Salt) / 2), Salt: parent.Salt, HashLength: 20, NextDomain: strings.Repeat("V", 32), TypeBitMap: []uint16{dns.TypeNS},
			})
		} else {
			m.Ns = append(m.Ns, &dns.NSEC{
				Hdr: dns.RR_Header{Name: qname, Rrtype: dns.TypeNSEC, Class: dns.ClassINET, Ttl: 60}, NextDomain: parent.Name, TypeBitMap: []uint16{dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC},
			})
		}
		if op.I%4 != 0 {
			h := m.Ns[0].Header()
			w.resign(m, h.Name, h.Rrtype, Op{Zone: op.Zone, J: op.J})
		}
	case "data":
		var names []string
		for n := range z.names {
			names = append(names, n)
		}
		sort.Strings(names)
		n := names[op.I%len(names)]
		var types []int
		for t := range z.names[n] {
			if n == z.Name || z.names[n][dns.TypeNS] == nil || t == dns.TypeDS {
				types = append(types, int(t))
			}
		}
		if len(types) > 0 {
			sort.Ints(types)
			rrs := z.names[n][uint16(types[op.J%len(types)])]
			m.Answer = append(m.Answer, rename(rrs, n)...)
			m.Answer = append(m.Answer, w.sign(z, rrs)...)
		}
	case "own": // all of the answer under the queried name
		for _, rr := range m.Answer {
			rr.Header().Name = qname
		}
	case "empty":
		m.Answer = nil
	case "sigs":
		m.Answer = slices.DeleteFunc(m.Answer, func(rr dns.RR) bool { return rr.Header().Rrtype != dns.TypeRRSIG })
	case "rcode":
		m.Rcode = []int{dns.RcodeNameError, dns.RcodeSuccess}[op.I%2]
	case "forge":
		h := dns.RR_Header{Name: qname, Rrtype: qtype, Class: dns.ClassINET, Ttl: 60}
		switch qtype {
		case dns.TypeA:
			m.Answer = []dns.RR{&dns.A{Hdr: h, A: []byte{6, 6, 6, 6}}}
		case dns.TypeTXT:
			m.Answer = []dns.RR{&dns.TXT{Hdr: h, Txt: []string{"forged"}}}
		default:
			h.Rrtype = dns.TypeCNAME
			m.Answer = []dns.RR{&dns.CNAME{Hdr: h, Target: op.Name}}
		}
		m.Rcode = 0
		if op.J%4 != 0 {
			w.resign(m, qname, h.Rrtype, Op{Zone: op.Zone, J: op.J})
		}
	case "unsigned":
		m.Answer = append(m.Answer, &dns.A{Hdr: dns.RR_Header{Name: op.Name, Rrtype: dns.TypeA, Class: dns.ClassINET, Ttl: 60}, A: []byte{6, 6, 6, 7}})
	case "ttl":
		for _, rr := range append(slices.Clone(m.Answer), m.Ns...) {
			rr.Header().Ttl /= 2
		}
	case "reverse":
		slices.Reverse(m.Answer)
		slices.Reverse(m.Ns)
	case "case":
		for _, rr := range append(slices.Clone(m.Answer), m.Ns...) {
			rr.Header().Name = strings.ToUpper(rr.Header().Name)
		}
	case "extra":
		m.Extra = append(m.Extra, &dns.A{Hdr: dns.RR_Header{Name: op.Name, Rrtype: dns.TypeA, Class: dns.ClassINET, Ttl: 60}, A: []byte{6, 6, 6, 8}})
	case "evilkeys", "addkey":
		k := z.evil()
		if op.Op == "evilkeys" {
			m.Answer, m.Rcode = nil, 0
		}
		m.Answer = append(m.Answer, k.at(qname, 60))
		if op.J%3 != 0 || op.Op == "evilkeys" {
			w.resign(m, qname, dns.TypeDNSKEY, Op{Zone: op.Zone, J: []int{2, 6}[op.J%2]})
		}
	case "evilds":
		ds := z.evil().at(qname, 60).ToDS(dns.SHA256)
		if op.J%2 == 0 {
			m.Answer = nil
		}
		ds.Hdr.Ttl = 60
		m.Answer, m.Rcode = append(m.Answer, ds), 0
		if op.I%4 != 0 {
			w.resign(m, qname, dns.TypeDS, Op{Zone: op.Zone, J: op.I})
		}
	case "fail":
		return nil, errLost
	case "refuse":
		m.Rcode, m.Answer, m.Ns = []int{dns.RcodeServerFailure, dns.RcodeRefused, dns.RcodeNameError, dns.RcodeNotImplemented, dns.RcodeFormatError, dns.RcodeNotAuth}[op.I%6], nil, nil
	case "none":
		return nil, nil
	default:
		panic(op.Op)
	}
	return m, nil
}

// others adds all proofs of the zone but the one of the name itself.
func (w *world) others(m *dns.Msg, z *zone, qname string) {
	if !z.Signed {
		return
	}
	for _, n := range z.chain {
		if z.NSEC3 {
			n = z.owner[n]
		}
		if n == dns.CanonicalName(qname) {
			continue
		}
		rr := z.proof(n, true)
		m.Ns = append(m.Ns, rr)
		m.Ns = append(m.Ns, w.sign(z, []dns.RR{rr})...)
	}
}

// alter changes the data of a record.
func (w *world) alter(rr dns.RR, op Op) {
	z := w.zones[op.Zone%len(w.zones)]
	switch r := rr.(type) {
	case *dns.A:
		r.A = []byte{6, 6, 6, byte(op.J)}
	case *dns.TXT:
		r.Txt = append(slices.Clone(r.Txt), "more")
	case *dns.MX:
		r.Preference += 7
	case *dns.CNAME:
		r.Target = op.Name
	case *dns.DNAME:
		r.Target = op.Name
	case *dns.NS:
		r.Ns = join("evil", r.Ns)
	case *dns.SOA:
		r.Serial++
	case *dns.DS:
		switch op.J % 3 {
		case 0:
			r.Digest = flip(r.Digest)
		case 1:
			r.KeyTag++
		case 2:
			*r = *z.evil().at(r.Hdr.Name, r.Hdr.Ttl).ToDS(dns.SHA256)
		}
	case *dns.DNSKEY:
		switch op.J % 2 {
		case 0:
			*r = *z.evil().at(r.Hdr.Name, r.Hdr.Ttl)
		case 1:
			r.Flags ^= 1
		}
	case *dns.NSEC:
		switch op.J % 2 {
		case 0:
			r.TypeBitMap = r.TypeBitMap[len(r.TypeBitMap)-1:]
		case 1:
			r.NextDomain = op.Name
		}
	case *dns.NSEC3:
		switch op.J % 3 {
		case 0:
			r.TypeBitMap = nil
		case 1:
			r.NextDomain = strings.Repeat("V", 32)
		case 2:
			r.Flags ^= 1
		}
	case *dns.RRSIG:
		switch op.J % 8 {
		case 0:
			b := []byte(r.Signature)
			b[3] = map[bool]byte{true: 'A', false: 'B'}[b[3] != 'A']
			r.Signature = string(b)
		case 1:
			r.KeyTag++
		case 2:
			r.SignerName = z.Name
		case 3:
			r.Expiration += 1000
		case 4:
			r.Inception -= 1000
		case 5:
			r.Labels--
		case 6:
			r.OrigTtl++
		case 7:
			r.Algorithm ^= 3
		}
	}
}

func flip(hexDigits string) string {
	b := []byte(strings.ToLower(hexDigits))
	b[0] = map[bool]byte{true: '0', false: '1'}[b[0] != '0']
	return string(b)
}

// resign replaces the signatures of a set of records.
func (w *world) resign(m *dns.Msg, name string, t uint16, op Op) {
	if strings.HasPrefix(name, "*.") && len(labels(name)) == 1 {
		return // the library cannot
	}
	z := w.zones[op.Zone%len(w.zones)]
	for _, section := range []*[]dns.RR{&m.Answer, &m.Ns} {
		var set []dns.RR
		for _, rr := range *section {
			if rr.Header().Rrtype == t && rr.Header().Name == name {
				set = append(set, rr)
			}
		}
		if len(set) == 0 {
			continue
		}
		own, had := w.zoneForType(name, t), false
		for _, rr := range *section {
			if s, ok := rr.(*dns.RRSIG); ok && s.Hdr.Name == name && s.TypeCovered == t {
				for _, z := range w.zones {
					if z.Name == dns.CanonicalName(s.SignerName) {
						own, had = z, int(s.Labels)+strings.Count(name, "*") >= len(labels(name)) // else a wildcard's
					}
				}
			}
		}
		role := "zsk"
		if t == dns.TypeDNSKEY {
			role = "ksk"
		}
		if !own.Signed {
			own = w.zones[0]
		}
		k, signer, from, to := own.key(role), own.Name, w.from, w.to
		tag := k.key.KeyTag()
		how := op.J % 11
		if op.Op == "resign-same" {
			if !had {
				continue
			}
			how = 5
		} else if how == 5 || (how == 3 || how == 4) && (under(w.any(z).Name, name) || !z.Signed) {
			how = 6 // a zone, or one above it, can sign what it wants
		}
		switch how {
		case 0, 10: // expired
			from, to = w.from-864000, w.from
		case 1: // not valid yet
			from, to = w.to, w.to+864000
		case 2: // someone else's key under the tag of the real one
			k = own.evil()
		case 3: // another zone's
			k, signer = w.any(z).key("zsk"), w.any(z).Name
			tag = k.key.KeyTag()
		case 4: // another zone's key, in the name of the right one
			k = w.any(z).key("zsk")
			tag = k.key.KeyTag()
		case 5: // same again
		case 6: // someone else's key
			k = own.evil()
			tag = k.key.KeyTag()
		case 7: // someone else's key, in the name of another zone
			k, signer = z.evil(), z.Name
			tag = k.key.KeyTag()
		case 8: // a published key that is no zone key
			if own.Odd != 0 {
				k = own.key("odd")
				tag = k.key.KeyTag()
			} else {
				k = own.evil()
			}
		case 9: // the key before the last change of keys
			k = keyFor(own.Alg, k.key.Flags, fmt.Sprint(map[bool]string{true: "ksk", false: role}[own.CSK], own.idx, "/", own.Epoch-1))
			tag = k.key.KeyTag()
		}
		if tag == 0 {
			tag = 1
		}
		sig := k.sign(signer, from, to, set)
		sig.KeyTag = tag
		*section = slices.DeleteFunc(*section, func(rr dns.RR) bool {
			s, ok := rr.(*dns.RRSIG)
			return ok && s.Hdr.Name == name && s.TypeCovered == t
		})
		// the tag is part of what is signed
		if k.key.KeyTag() != tag {
			sig = signAs(k, tag, signer, from, to, set)
		}
		*section = append(*section, sig)
	}
}

func signAs(k keyPair, tag uint16, zone string, from, to uint32, rrs []dns.RR) *dns.RRSIG {
	sig := &dns.RRSIG{
		Hdr:       dns.RR_Header{Name: rrs[0].Header().Name, Rrtype: dns.TypeRRSIG, Class: dns.ClassINET, Ttl: rrs[0].Header().Ttl},
		Algorithm: k.key.Algorithm, KeyTag: tag, SignerName: zone, Inception: from, Expiration: to,
	}
	if err := sig.Sign(k.signer, rrs); err != nil {
		panic(err)
	}
	return sig
}

func (w *world) any(z *zone) *zone {
	if z.Signed {
		return z
	}
	return w.zones[0]
}
