package modify

import (
	"fmt"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/props/cache"
)

func scribble(m *dns.Msg) { cache.Scribble(m) }

// Random is a response with TTLs to be replaced by a random one.
type Random struct {
	Min  uint32 `json:"min"`
	Max  uint32 `json:"max"`
	Q    kit.Q  `json:"q"`
	R    kit.R  `json:"r"`
	Many int    `json:"many"`
}

func genRandom(t *rapid.T) Random {
	c := Random{Min: kit.Pick[uint32](t, "min", 0, 1, 60, 3600), Q: genQuery(t), Many: kit.Int(t, "many", 1, 40)}
	c.Max = c.Min + kit.Pick[uint32](t, "over", 0, 1, 2, 10, 1000)
	if kit.Chance(t, "nomax", 20) {
		c.Max = 0
	}
	c.R = genScript(t, "script", c.Q, 1)[0]
	return c
}

func runRandom(x *kit.Ctx, c Random) error {
	up := kit.Const("up", kit.R{})
	up.F = func(_ int, q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return respond(c.R, q) }
	r, err := Elem{Kind: "ttl", Select: "random", Min: c.Min, Max: c.Max}.build(up, nil)
	if err != nil {
		return err
	}
	max := c.Max
	if max == 0 {
		max = 1<<32 - 1
	}
	seen := map[uint32]bool{}
	for i := 0; i < c.Many; i++ {
		q := c.Q.Msg()
		want, werr := respond(c.R, q)
		got, gerr := r.Resolve(q, rdns.ClientInfo{})
		if !sameErr(gerr, werr) {
			return fmt.Errorf("error %v, want %v", gerr, werr)
		}
		if want == nil {
			if got != nil {
				return fmt.Errorf("got %s, want no response", kit.Text(got))
			}
			return nil
		}
		var ttl *uint32
		for k, s := range [][]dns.RR{got.Answer, got.Ns, got.Extra} {
			w := [][]dns.RR{want.Answer, want.Ns, want.Extra}[k]
			if len(w) != len(s) {
				return fmt.Errorf("got\n%s\nfrom\n%s", kit.Text(got), kit.Text(want))
			}
			for j, rr := range s {
				h := rr.Header()
				if h.Rrtype == dns.TypeOPT {
					continue
				}
				if ttl == nil {
					v := h.Ttl
					ttl = &v
				}
				if h.Ttl != *ttl || h.Ttl < c.Min || h.Ttl > max {
					return fmt.Errorf("TTL %d not in %d..%d or not the same for all in\n%s", h.Ttl, c.Min, max, kit.Text(got))
				}
				w[j].Header().Ttl = h.Ttl
			}
		}
		if kit.Text(got) != kit.Text(want) {
			return fmt.Errorf("more than TTLs was changed:\n%s\nto\n%s", kit.Text(want), kit.Text(got))
		}
		if ttl == nil {
			return nil
		}
		seen[*ttl] = true
	}
	if c.Many >= 20 && max-c.Min >= 10 && len(seen) == 1 {
		return fmt.Errorf("the same TTL %d times from %d..%d", c.Many, c.Min, max)
	}
	if c.Many > 1 {
		x.NonTrivial()
	}
	return nil
}
