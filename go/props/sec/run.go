package sec

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// Case is a sequence of queries to a validator.
type Case struct {
	World   World  `json:"world"`
	LogOnly bool   `json:"logonly,omitempty"`
	Wrong   bool   `json:"wrong,omitempty"` // there is also a trust anchor nobody has the key of
	Steps   []Step `json:"steps"`
}

// Step is a query.
type Step struct {
	After int    `json:"after,omitempty"` // s
	Roll  []int  `json:"roll,omitempty"`  // zones that change their keys before
	Name  string `json:"name"`
	Type  uint16 `json:"type"`
	EDNS  bool   `json:"edns,omitempty"`
	DO    bool   `json:"do,omitempty"`
	CD    bool   `json:"cd,omitempty"`
	AD    bool   `json:"ad,omitempty"` // upstream sets AD
	Fail  string `json:"fail,omitempty"`
	Ops   []Op   `json:"ops,omitempty"`
}

var zoneNames = []string{"a.", "b.", "test.", "a.test.", "b.test.", "a.b.test.", "c.a.test.", "x.c.a.test.", "b.a.", "z.test.", "\\200.test.", "y.z.test."}
var alphabet = []string{"a", "b", "c", "www", "*", "x", "\\200", "_t", "A"}

func genWorld(t *rapid.T) World {
	var w World
	n := kit.Int(t, "zones", 1, 5)
	names := append([]string{"."}, kit.List(t, "names", n, n, func(t *rapid.T) string { return kit.Pick(t, "name", zoneNames...) })...)
	for i, name := range names {
		if slices.Contains(names[:i], name) {
			continue
		}
		z := Zone{Name: name, Signed: true, DS: true, TTL: kit.Pick[uint32](t, "ttl", 3600, 60, 5), Digest: kit.Pick[uint8](t, "digest", dns.SHA256, dns.SHA384, dns.SHA1)}
		if i > 0 {
			z.Signed = kit.Odds(t, "signed", 80)
			z.DS = kit.Odds(t, "ds", 90)
			z.Anchor = z.Signed && kit.Odds(t, "anchor", 12)
		} else {
			z.Anchor = true
		}
		z.Alg = kit.Pick[uint8](t, "alg", dns.ED25519, dns.ED25519, dns.ED25519, dns.ECDSAP256SHA256, dns.ECDSAP384SHA384, dns.RSASHA256, dns.RSASHA512)
		z.CSK = kit.Odds(t, "csk", 25)
		z.Spare = kit.Odds(t, "spare", 15)
		z.Odd = kit.Pick[uint16](t, "odd", 0, 0, 0, 0, 385, 0x0001, 0x0080)
		z.Roll = kit.Odds(t, "roll", 10)
		z.Twin = kit.Odds(t, "twin", 15)
		z.EvilTwin = kit.Odds(t, "eviltwin", 40)
		if kit.Odds(t, "decoys", 15) {
			z.Decoys, z.Last = kit.Int(t, "which", 1, 7), kit.Odds(t, "last", 50)
		}
		z.Other = kit.Pick[uint8](t, "other", 0, 0, 0, 0, 0, 0, 1, 3, 5, 250)
		if z.NSEC3 = i > 0 && kit.Odds(t, "nsec3", 50); z.NSEC3 { // the library cannot do this for the root
			z.OptOut = kit.Odds(t, "optout", 30)
			z.Iter = kit.Pick[uint16](t, "iter", 0, 1, 5)
			z.Salt = kit.Pick(t, "salt", "", "AB", "0011223344")
		}
		w.Zones = append(w.Zones, z)
	}
	for i := range w.Zones {
		for _, above := range w.Zones {
			// Such a zone might rightly deny that there is the one with an anchor
			if above.OptOut && above.Name != w.Zones[i].Name && under(above.Name, w.Zones[i].Name) {
				w.Zones[i].Anchor = false
			}
		}
	}
	w.Recs = kit.List(t, "recs", 2, 12, func(t *rapid.T) Rec {
		r := Rec{Name: genName(t, w), Type: kit.Pick(t, "type", dns.TypeA, dns.TypeTXT, dns.TypeCNAME, dns.TypeMX, dns.TypeDNAME), N: kit.Int(t, "n", 1, 3)}
		if r.Type == dns.TypeCNAME || r.Type == dns.TypeDNAME {
			r.Target = genName(t, w)
		}
		return r
	})
	if r := kit.Pick(t, "starred", w.Recs...); len(labels(r.Name)) > 1 && kit.Odds(t, "star", 30) {
		w.Recs = append(w.Recs, Rec{Name: join("*", up(r.Name)), Type: kit.Pick(t, "startype", dns.TypeA, dns.TypeTXT, dns.TypeMX), N: 1})
	}
	return w
}

// genName draws a name in one of the zones.
func genName(t *rapid.T, w World) string {
	if len(w.Recs) > 0 && kit.Odds(t, "near", 60) {
		n := kit.Pick(t, "rec", w.Recs...).Name
		switch kit.Int(t, "how", 0, 4) {
		case 0:
			return up(n)
		case 1:
			if len(n) < 100 {
				return join(kit.Pick(t, "label", alphabet...), n)
			}
		case 2:
			if len(labels(n)) > 1 {
				return join(kit.Pick(t, "label", alphabet...), up(n))
			}
		}
		return n
	}
	n := w.Zones[kit.Int(t, "zone", 0, len(w.Zones)-1)].Name
	if n == "." && len(w.Zones) > 1 && kit.Odds(t, "lower", 50) {
		n = w.Zones[kit.Int(t, "lowerzone", 1, len(w.Zones)-1)].Name
	}
	if n != "." && kit.Odds(t, "stuck", 7) {
		return kit.Pick(t, "letter", "a", "x", "b") + n
	}
	for range kit.Int(t, "depth", 0, 3) {
		n = join(kit.Pick(t, "label", alphabet...), n)
	}
	return n
}

// Which kind of changes are drawn.
const (
	none = 1 << iota
	positive
	negative
	unsigned
	keys
)

func gen(kinds int) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{World: genWorld(t)}
		c.LogOnly = kit.Odds(t, "logonly", 4)
		c.Wrong = kit.Odds(t, "wrong", 15)
		var all []int
		for i, k := range []int{none, positive, negative, unsigned, keys} {
			if kinds&k != 0 {
				all = append(all, 1<<i)
			}
		}
		c.Steps = kit.List(t, "steps", 1, 4, func(t *rapid.T) Step {
			return genStep(t, c.World, kit.Pick(t, "kind", all...))
		})
		return c
	}
}

func genStep(t *rapid.T, w World, kind int) Step {
	s := Step{Name: kit.CaseMix(t, genName(t, w)), After: kit.Pick(t, "after", 0, 0, 0, 4, 6, 59, 61, 3599, 3601, 100000)}
	s.Type = kit.Pick(t, "qtype", dns.TypeA, dns.TypeA, dns.TypeTXT, dns.TypeMX, dns.TypeCNAME, dns.TypeDS, dns.TypeDNSKEY, dns.TypeNS, dns.TypeSOA, dns.TypeAAAA)
	if kit.Odds(t, "known", 50) {
		r := kit.Pick(t, "known rec", w.Recs...)
		s.Type, s.Name = r.Type, r.Name
		if r.Type == dns.TypeCNAME && kit.Odds(t, "follow", 70) {
			s.Type = dns.TypeA
		}
		if s.Type == dns.TypeDNAME || strings.HasPrefix(s.Name, "*") {
			if s.Type == dns.TypeDNAME {
				s.Type = dns.TypeA
			}
			s.Name = join(kit.Pick(t, "sub", alphabet...), strings.TrimPrefix(s.Name, "*."))
		}
		s.Name = kit.CaseMix(t, s.Name)
	}
	if s.EDNS = kit.Odds(t, "edns", 60); s.EDNS {
		s.DO = kit.Odds(t, "do", 60)
	}
	s.CD = kit.Odds(t, "cd", 10)
	s.AD = kit.Odds(t, "ad", 30)
	if kit.Odds(t, "doroll", 8) && len(w.Zones) > 1 {
		s.Roll = []int{kit.Int(t, "rollzone", 1, len(w.Zones)-1)}
	}
	op := func(ops ...string) Op {
		return Op{Op: kit.Pick(t, "op", ops...), Zone: kit.Int(t, "zone", 0, len(w.Zones)-1), I: kit.Int(t, "i", 0, 20), J: kit.Int(t, "j", 0, 11), Name: genName(t, w), Type: s.Type}
	}
	own := func() Op { // of the zone of the name
		o := op("forge")
		best := -1
		for i, z := range w.Zones {
			if l := len(labels(z.Name)); under(z.Name, s.Name) && l > best {
				best, o.Zone = l, i
			}
		}
		return o
	}
	add := func(o Op) { s.Ops = append(s.Ops, o) }
	lookup := func(at string, ops ...string) Op {
		o := op(ops...)
		o.At = at
		o.For = w.Zones[kit.Int(t, "for", 0, len(w.Zones)-1)].Name
		if kit.Odds(t, "forname", 30) {
			o.For = dns.CanonicalName(s.Name)
			for range kit.Int(t, "ups", 0, 2) {
				o.For = up(o.For)
			}
		}
		if at == "ds" {
			o.Type = dns.TypeDS
		} else {
			o.Type = dns.TypeDNSKEY
		}
		return o
	}
	switch kind {
	case none:
		if kit.Odds(t, "harmless", 30) {
			add(op(harmless...))
		}
		if kit.Odds(t, "failing", 8) {
			s.Fail = kit.Pick(t, "fail", "error", "nil", "SERVFAIL", "REFUSED", "YXDOMAIN")
		}
	case positive:
		if kit.Odds(t, "otherfirst", 35) {
			o := op("replay")
			add(o)
			if kit.Odds(t, "renamed", 40) {
				add(op("own"))
			}
		}
		for range kit.Int(t, "nops", 1, 3) {
			add(op(answerOps...))
		}
	case negative:
		if kit.Odds(t, "hide", 20) { // what there is of the zone, but for the name
			if kit.Odds(t, "there", 50) {
				r := kit.Pick(t, "what", w.Recs...)
				s.Name, s.Type = r.Name, r.Type
			}
			o := own()
			for _, what := range []string{"empty", "rcode", "others"} {
				o.Op = what
				add(o)
			}
			break
		}
		if kit.Odds(t, "emptied", 70) {
			o := op("empty")
			add(o)
		}
		if kit.Odds(t, "othernegative", 30) {
			o := op("replay")
			o.Type = kit.Pick(t, "otype", s.Type, dns.TypeA, dns.TypeDS, dns.TypeAAAA)
			add(o)
		}
		if kit.Odds(t, "setrcode", 60) {
			add(op("rcode"))
		}
		if kit.Odds(t, "all", 40) {
			for i := range w.Zones {
				o := op("nsec")
				o.Zone = i
				add(o)
			}
		} else {
			for range kit.Int(t, "nops", 0, 4) {
				o := op("others", "addsig", "chain", "chain", "expand", "expand", "alter", "unsign", "drop", "resign")
				if kit.Odds(t, "same", 60) {
					o.Zone = own().Zone
				}
				add(o)
			}
		}
	case unsigned:
		if kit.Odds(t, "forged", 60) {
			o := own()
			o.J = 0
			add(o)
		} else if kit.Odds(t, "unsign", 50) {
			add(op("unsign"))
		}
		if kit.Odds(t, "with", 30) {
			add(op("unsigned"))
		}
		for range kit.Int(t, "nops", 1, 3) {
			add(lookup("ds", dsOps...))
		}
	case keys:
		o := own()
		o.J = kit.Pick(t, "signedby", 2, 6, 6, 6, 7, 3, 9)
		add(o)
		z := o.Zone
		if kit.Odds(t, "takeover", 25) { // everything about the zone is the attacker's
			for _, what := range []string{"evilds", "evilkeys"} {
				o := lookup(map[string]string{"evilds": "ds", "evilkeys": "key"}[what], what)
				o.For, o.Zone, o.J = dns.CanonicalName(w.Zones[z].Name), z, 6
				add(o)
				if kit.Odds(t, "moresigs", 50) {
					o.Op, o.J = "addsig", kit.Int(t, "badly", 0, 7)
					add(o)
				}
			}
			break
		}
		for range kit.Int(t, "nops", 1, 3) {
			if kit.Odds(t, "dsop", 50) {
				o := lookup("ds", dsOps...)
				if kit.Odds(t, "same", 70) {
					o.For, o.Zone = dns.CanonicalName(w.Zones[z].Name), z
				}
				add(o)
			} else {
				o := lookup("key", keyOps...)
				if kit.Odds(t, "same", 70) {
					o.For, o.Zone = dns.CanonicalName(w.Zones[z].Name), z
				}
				add(o)
			}
		}
	}
	return s
}

func (c Case) honest(s Step) bool {
	for _, op := range s.Ops {
		if !slices.Contains(harmless, op.Op) {
			return false
		}
	}
	return true
}

// run asks a validator and checks what it returns against what is true.
func run(x *kit.Ctx, c Case) error {
	return kit.Closed(x, func() error {
		zones := slices.Clone(c.World.Zones)
		start := time.Now()
		w := World{zones, c.World.Recs}.build(uint32(start.Unix()-3600), uint32(start.Unix()+30*86400))

		var (
			step  Step
			first bool
			sent  *dns.Msg
			log   []string
		)
		up := &kit.Up{ID: "up", F: func(_ int, q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			time.Sleep(time.Millisecond)
			name, t := q.Question[0].Name, q.Question[0].Qtype
			m := w.answer(q)
			m.AuthenticatedData = step.AD
			at := ""
			if !first {
				at = map[uint16]string{dns.TypeDS: "ds", dns.TypeDNSKEY: "key"}[t]
				log = append(log, fmt.Sprint(dns.TypeToString[t], " ", name))
			} else {
				first = false
				switch step.Fail {
				case "error":
					return nil, errLost
				case "nil":
					return nil, nil
				case "":
				default:
					m.Rcode = dns.StringToRcode[step.Fail]
				}
			}
			var err error
			for _, op := range step.Ops {
				if op.At == at && (at == "" || dns.CanonicalName(op.For) == dns.CanonicalName(name)) && m != nil && err == nil {
					m, err = w.apply(m, op)
				}
			}
			if m != nil {
				m = m.Copy()
			}
			if at == "" && m != nil {
				sent = m.Copy()
			}
			return m, err
		}}
		v, err := rdns.NewDNSSECValidator("validator", up, c.options(w))
		if err != nil {
			return err
		}
		unsettled := time.Time{}
		var changed []int
		for i, s := range c.Steps {
			step = s
			time.Sleep(time.Duration(s.After) * time.Second)
			if len(s.Roll) > 0 {
				for _, n := range s.Roll {
					n %= len(zones)
					if zones[n].Anchor || !zones[n].Signed {
						continue
					}
					zones[n].Epoch++
					changed = append(changed, n)
					if t := time.Now().Add(time.Duration(zones[n].TTL+2) * time.Second); t.After(unsettled) {
						unsettled = t
					}
				}
			}
			// signatures are renewed
			now := time.Now()
			w = World{zones, c.World.Recs}.build(uint32(now.Unix()-3600), uint32(now.Unix()+30*86400))
			q := new(dns.Msg)
			q.SetQuestion(s.Name, s.Type)
			q.Id = uint16(100 + i)
			q.CheckingDisabled = s.CD
			if s.EDNS {
				q.SetEdns0(1232, s.DO)
			}
			before := kit.Text(q)
			ci := rdns.ClientInfo{Listener: "l", SourceIP: []byte{10, 0, 0, 1}}
			first, sent, log = true, nil, nil
			n := up.N()
			got, err := v.Resolve(q, ci)
			synctest.Wait()
			if s := kit.Text(q); s != before {
				return fmt.Errorf("step %d: the query was changed from\n%s\nto\n%s", i, before, s)
			}
			calls := up.Calls()[n:]
			if len(calls) == 0 {
				return fmt.Errorf("step %d: the query was not sent upstream", i)
			}
			if err := checkSent(s, q, calls[0], ci); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if err := judge(x, w, c, s, q, sent, got, err, time.Now().Before(unsettled) && len(changed) > 0); err != nil {
				return fmt.Errorf("step %d (%s %s): %w\nlookups: %s", i, s.Name, dns.TypeToString[s.Type], err, strings.Join(log, ", "))
			}
		}
		return nil
	})
}

// runTogether asks a validator several questions at once.
func runTogether(x *kit.Ctx, c Case) error {
	return kit.Closed(x, func() error {
		start := time.Now()
		w := c.World.build(uint32(start.Unix()-3600), uint32(start.Unix()+30*86400))
		var mu sync.Mutex
		up := &kit.Up{ID: "up", F: func(n int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			time.Sleep(time.Duration(n%7+1) * time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			return w.answer(q).Copy(), nil
		}}
		v, err := rdns.NewDNSSECValidator("validator", up, c.options(w))
		if err != nil {
			return err
		}
		for round := range 2 {
			got, errs := make([]*dns.Msg, len(c.Steps)), make([]error, len(c.Steps))
			qs := make([]*dns.Msg, len(c.Steps))
			for i, s := range c.Steps {
				qs[i] = new(dns.Msg)
				qs[i].SetQuestion(s.Name, s.Type)
				qs[i].Id = uint16(100 + i)
				if s.EDNS {
					qs[i].SetEdns0(1232, s.DO)
				}
				go func() { got[i], errs[i] = v.Resolve(qs[i], rdns.ClientInfo{}) }()
			}
			time.Sleep(time.Minute)
			synctest.Wait()
			for i, s := range c.Steps {
				q := qs[i].Copy()
				q.SetEdns0(1232, true)
				sent := w.answer(q)
				if err := judge(x, w, c, s, qs[i], sent, got[i], errs[i], false); err != nil {
					return fmt.Errorf("round %d, step %d (%s %s): %w", round, i, s.Name, dns.TypeToString[s.Type], err)
				}
			}
			time.Sleep(2 * time.Minute)
		}
		return nil
	})
}

// genTogether draws right responses only.
func genTogether(t *rapid.T) Case {
	c := Case{World: genWorld(t)}
	c.Steps = kit.List(t, "steps", 2, 8, func(t *rapid.T) Step {
		s := genStep(t, c.World, none)
		s.Ops, s.Fail, s.Roll, s.After, s.AD, s.CD = nil, "", nil, 0, false, false
		return s
	})
	return c
}

// options returns those of the validator of the case.
func (c Case) options(w *world) rdns.DNSSECValidatorOptions {
	opt := rdns.DNSSECValidatorOptions{LogOnly: c.LogOnly}
	add := func(z string, ds *dns.DS) {
		opt.TrustAnchors = append(opt.TrustAnchors, rdns.TrustAnchor{Owner: z, Digest: ds.Digest, KeyTag: ds.KeyTag, Algorithm: ds.Algorithm, DigestType: ds.DigestType})
	}
	for _, z := range w.zones {
		if z.Anchor {
			add(z.Name, z.ds())
		}
	}
	if c.Wrong {
		add(".", keyFor(dns.ED25519, 257, "unused").at(".", 60).ToDS(dns.SHA256))
	}
	return opt
}

// checkSent checks the query that goes upstream.
func checkSent(s Step, q *dns.Msg, call kit.Call, ci rdns.ClientInfo) error {
	o := call.Q.IsEdns0()
	if o == nil || !o.Do() {
		return fmt.Errorf("query without DO sent upstream: %s", kit.Text(call.Q))
	}
	if !reflect.DeepEqual(call.CI, ci) {
		return fmt.Errorf("client information sent upstream: %+v", call.CI)
	}
	a, b := *call.Q, *q
	a.Extra, b.Extra = nil, nil
	if kit.Text(&a) != kit.Text(&b) {
		return fmt.Errorf("query sent upstream as %s", kit.Text(call.Q))
	}
	return nil
}

// stripped returns the response as it is passed on to the client.
func stripped(s Step, m *dns.Msg) *dns.Msg {
	m = m.Copy()
	if s.DO {
		return m
	}
	for _, section := range []*[]dns.RR{&m.Answer, &m.Ns, &m.Extra} {
		*section = slices.DeleteFunc(*section, func(rr dns.RR) bool {
			switch t := rr.Header().Rrtype; t {
			case dns.TypeRRSIG, dns.TypeNSEC, dns.TypeNSEC3:
				return t != s.Type
			case dns.TypeOPT:
				return !s.EDNS
			}
			return false
		})
	}
	if o := m.IsEdns0(); o != nil {
		o.Hdr.Ttl &^= 1 << 15
	}
	return m
}

func judge(x *kit.Ctx, w *world, c Case, s Step, q, sent, got *dns.Msg, err error, unsettled bool) error {
	honest := c.honest(s)
	if sent == nil { // no response
		if s.Fail == "error" && !errors.Is(err, errLost) || s.Fail == "nil" && (got != nil || err != nil) {
			return fmt.Errorf("%s: got %v, %v", s.Fail, got, err)
		}
		return nil
	}
	if err != nil {
		return err
	}
	if got == nil {
		return errors.New("dropped")
	}
	if err := kit.SameQuestion(q, got); err != nil {
		return err
	}
	failed := got.Rcode == dns.RcodeServerFailure && sent.Rcode != dns.RcodeServerFailure
	if !failed {
		want, have := stripped(s, sent), got.Copy()
		want.AuthenticatedData, have.AuthenticatedData = false, false
		if a, b := kit.Text(want), kit.Text(have); a != b {
			return fmt.Errorf("upstream's response\n%s\nwas returned as\n%s", a, b)
		}
	} else if got.AuthenticatedData || len(got.Answer)+len(got.Ns) > 0 {
		return fmt.Errorf("failure response with data: %s", kit.Text(got))
	}
	if sent.Rcode != dns.RcodeSuccess && sent.Rcode != dns.RcodeNameError {
		x.Label("other rcode")
		if failed || got.AuthenticatedData {
			return fmt.Errorf("response code %d: returned as %s", sent.Rcode, kit.Text(got))
		}
		return nil
	}
	lie := w.lie(sent, q.Question[0].Name, s.Type)
	x.LabelIf(lie != nil, "false response")
	x.LabelIf(lie == nil && !honest, "changed, but still true")
	x.LabelIf(s.Ops == nil, "right response")
	secure, maybe := w.secured(q.Question[0].Name, s.Type)
	x.LabelIf(lie == nil && secure, "secure")
	x.LabelIf(lie == nil && !secure, "insecure")
	x.LabelIf(lie == nil && len(sent.Answer) == 0, "denial")
	x.LabelIf(unsettled, "keys just changed")
	if lie != nil || secure && len(w.zones) > 1 {
		x.NonTrivial()
	}
	if unsettled {
		// the validator may have the previous keys
		if honest && lie != nil {
			return fmt.Errorf("harness: %w", lie)
		}
		return nil
	}
	switch {
	case c.LogOnly:
		if failed {
			return errors.New("failed in spite of log-only")
		}
		if got.AuthenticatedData && lie != nil {
			return fmt.Errorf("marked as authentic: %w\n%s", lie, kit.Text(sent))
		}
	case lie != nil:
		x.LabelIf(failed, "rejected")
		if !failed {
			return fmt.Errorf("accepted (AD=%v): %w\n%s", got.AuthenticatedData, lie, kit.Text(sent))
		}
	case honest && failed:
		return fmt.Errorf("rejected a right response:\n%s", kit.Text(sent))
	}
	if !failed && !maybe {
		if got.AuthenticatedData && !secure {
			return fmt.Errorf("marked as authentic, but insecure:\n%s", kit.Text(sent))
		}
		if honest && !got.AuthenticatedData && secure {
			return fmt.Errorf("not marked as authentic:\n%s", kit.Text(sent))
		}
	}
	return nil
}

// secured tells if all that the answer to a query consists of is in signed
// zones. Maybe: something may be a delegation left out of the chain of names.
func (w *world) secured(name string, t uint16) (secure, maybe bool) {
	secure = true
	for range 9 {
		k, z, from, rrs := w.look(name, t)
		if !z.secure {
			return false, maybe
		}
		if w.free(name, t) && k != hasDNAME {
			return false, false
		}
		switch k {
		case hasAlias:
			name = rrs[0].(*dns.CNAME).Target
		case hasDNAME:
			name = swap(name, from, rrs[0].(*dns.DNAME).Target)
			if t == dns.TypeCNAME {
				return
			}
		default:
			return
		}
	}
	return false, true
}

// lie returns what is wrong about a response, nil if it is true or about names
// of which anything can be said.
func (w *world) lie(m *dns.Msg, qname string, qtype uint16) error {
	type id struct {
		name string
		t    uint16
	}
	sets := map[id][]string{}
	alias := map[string]string{}
	for _, rr := range m.Answer {
		h := rr.Header()
		if h.Rrtype == dns.TypeRRSIG {
			continue
		}
		i := id{dns.CanonicalName(h.Name), h.Rrtype}
		sets[i] = append(sets[i], dataText(rr))
		if r, ok := rr.(*dns.CNAME); ok {
			alias[i.name] = r.Target
		}
	}
	for i, have := range sets {
		if w.free(i.name, i.t) {
			continue
		}
		var want []string
		switch k, _, from, rrs := w.look(i.name, i.t); {
		case k == hasData:
			for _, rr := range rrs {
				want = append(want, dataText(rr))
			}
		case k == hasDNAME && i.t == dns.TypeCNAME:
			r := rename(rrs, i.name)[0].(*dns.DNAME)
			want = []string{dataText(&dns.CNAME{Hdr: dns.RR_Header{Name: i.name, Rrtype: i.t, Class: 1}, Target: swap(i.name, from, r.Target)})}
		default:
			return fmt.Errorf("there is no %s record at %s", dns.TypeToString[i.t], i.name)
		}
		slices.Sort(have)
		slices.Sort(want)
		if have, want := slices.Compact(slices.Clone(have)), slices.Compact(want); !slices.Equal(have, want) {
			return fmt.Errorf("%s records at %s are %v", dns.TypeToString[i.t], i.name, want)
		}
	}
	name := dns.CanonicalName(qname)
	for range 10 {
		if w.free(name, qtype) {
			return nil
		}
		if sets[id{name, qtype}] != nil {
			if m.Rcode != dns.RcodeSuccess {
				return fmt.Errorf("there is %s", name)
			}
			return nil
		}
		if to, ok := alias[name]; ok {
			name = dns.CanonicalName(to)
			continue
		}
		k, _, _, _ := w.look(name, qtype)
		switch {
		case k == noName:
			return nil
		case k == noData && m.Rcode == dns.RcodeSuccess:
			return nil
		case k == noData:
			return fmt.Errorf("there is %s", name)
		default:
			return fmt.Errorf("there are %s records at %s, or an alias", dns.TypeToString[qtype], name)
		}
	}
	return nil
}

func dataText(rr dns.RR) string {
	rr = dns.Copy(rr)
	rr.Header().Name, rr.Header().Ttl = ".", 0
	return strings.ToLower(rr.String())
}
