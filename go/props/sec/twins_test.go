package sec

import (
	"fmt"
	"os"
	"sync"
	"testing"

	"github.com/miekg/dns"
)

// TestTwins finds keys with the tags of others.
func TestTwins(t *testing.T) {
	if os.Getenv("TWINS") == "" {
		t.Skip()
	}
	var wg sync.WaitGroup
	for _, whose := range []string{"evil", "kind"} {
		for _, role := range []string{"ksk", "zsk"} {
			for idx := range 6 {
				wg.Go(func() {
					z := &zone{Zone: Zone{Alg: dns.ED25519}, idx: idx}
					k := z.key(role).key
					for n := idx * 10000000; ; n++ {
						o := keyFor(dns.ED25519, k.Flags, fmt.Sprint(whose, " twin ", n))
						if o.key.KeyTag() == k.KeyTag() && o.key.PublicKey != k.PublicKey {
							fmt.Printf("\t%q: %d,\n", fmt.Sprint(whose, " ", role, idx), n)
							return
						}
					}
				})
			}
		}
	}
	wg.Wait()
}
