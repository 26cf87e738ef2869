// Package filter checks the blocklists: which queries, responses and clients
// they match, what happens to those, and how their rules are reloaded.
package filter

import (
	"fmt"
	"net"
	"regexp"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"pgregory.net/rapid"

	"verif/kit"
)

// List is a rule list as written in a configuration or file.
type List struct {
	Format string   `json:"format"`
	Rules  []string `json:"rules"`
}

// hit is what a name list says about a query.
type hit struct {
	ok    bool
	list  string
	rules map[string]bool // rules which may be reported
	ips   []net.IP        // to spoof
	names []string        // for PTR queries
}

func listName(i int) string { return fmt.Sprintf("list-%d", i) }

// loader gives the rules of a list to the code under test.
func (l List) loader() rdns.BlocklistLoader {
	return rdns.NewStaticLoader(append([]string(nil), l.Rules...))
}

// nameDB builds the database of a name list.
func nameDB(name, format string, loader rdns.BlocklistLoader) (rdns.BlocklistDB, error) {
	switch format {
	case "domain":
		return rdns.NewDomainDB(name, loader)
	case "domain-subdomain":
		return rdns.NewDomainSubdomainDB(name, loader)
	case "regexp":
		return rdns.NewRegexpDB(name, loader)
	case "hosts":
		return rdns.NewHostsDB(name, loader)
	case "mac":
		return rdns.NewMACDB(name, loader)
	}
	panic("verif: bad format " + format)
}

// nameDBs builds the database of several name lists.
func nameDBs(lists []List) (rdns.BlocklistDB, error) {
	var dbs []rdns.BlocklistDB
	for i, l := range lists {
		db, err := nameDB(listName(i), l.Format, l.loader())
		if err != nil {
			return nil, err
		}
		dbs = append(dbs, db)
	}
	if len(dbs) == 1 {
		return dbs[0], nil
	}
	return rdns.NewMultiDB(dbs...)
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// under says whether name is base or, with sub, below it.
func under(name, base string) (equal, below bool) {
	return name == base, strings.HasSuffix(name, "."+base)
}

func ignored(r string) bool {
	r = strings.TrimSpace(r)
	return r == "" || r[0] == '#'
}

// valid says whether the rules can be loaded.
func (l List) valid() bool {
	for _, r := range l.Rules {
		if ignored(r) {
			continue
		}
		r = strings.TrimSpace(r)
		switch l.Format {
		case "domain", "domain-subdomain":
			if i := strings.LastIndex(r, "*"); i > 0 || i == 0 && len(r) > 1 && r[1] != '.' {
				return false
			}
		case "regexp":
			if _, err := regexp.Compile(r); err != nil {
				return false
			}
		case "mac":
			if _, err := net.ParseMAC(r); err != nil || len(r) != 17 || strings.Contains(r, "-") {
				return false
			}
		case "cidr":
			if !strings.Contains(r, "/") {
				if net.ParseIP(r) == nil {
					return false
				}
			} else if _, _, err := net.ParseCIDR(r); err != nil {
				return false
			}
		}
	}
	return true
}

// match is the model of a name list. The name is the one to look up, which
// for responses need not be the one in the question.
func (l List) match(name string, qtype uint16, mac string) hit {
	h := hit{rules: map[string]bool{}}
	name = lower(name)
	bare := strings.TrimSuffix(name, ".")
	for _, r := range l.Rules {
		if ignored(r) {
			continue
		}
		r = strings.TrimSpace(r)
		switch l.Format {
		case "domain", "domain-subdomain":
			r = lower(strings.TrimSuffix(r, "."))
			switch {
			case strings.HasPrefix(r, "*."):
				if _, below := under(bare, r[2:]); below {
					h.rules[r] = true
				}
			case strings.HasPrefix(r, "."):
				if eq, below := under(bare, r[1:]); eq || below {
					h.rules[r] = true
				}
			case l.Format == "domain":
				if eq, _ := under(bare, r); eq {
					h.rules[r] = true
				}
			default:
				if eq, below := under(bare, r); eq || below {
					h.rules["."+r] = true
					h.rules[r] = true
				}
			}
		case "regexp":
			if regexp.MustCompile(r).MatchString(name) {
				h.rules[r] = true
			}
		case "mac":
			if hw, _ := net.ParseMAC(r); mac != "" && fmt.Sprintf("%x", []byte(hw)) == mac {
				h.rules[mac] = true
			}
		case "hosts":
			f := strings.Fields(r)
			if len(f) < 2 {
				continue
			}
			ip := net.ParseIP(f[0])
			if qtype == dns.TypePTR {
				if rev, err := dns.ReverseAddr(f[0]); err == nil && rev == name {
					h.names = append(h.names, f[1:]...)
					h.rules["*"] = true
				}
				continue
			}
			for _, n := range f[1:] {
				if lower(strings.TrimSuffix(n, ".")) != bare {
					continue
				}
				h.rules[bare] = true
				if v4 := ip.To4() != nil; !ip.IsUnspecified() && (v4 && qtype == dns.TypeA || !v4 && qtype == dns.TypeAAAA) {
					h.ips = append(h.ips, ip)
				}
			}
		}
	}
	h.ok = len(h.rules) > 0
	return h
}

// matchAll is the model of several lists: the first one with a match counts.
func matchAll(lists []List, name string, qtype uint16, mac string) hit {
	for i, l := range lists {
		if h := l.match(name, qtype, mac); h.ok {
			h.list = listName(i)
			return h
		}
	}
	return hit{}
}

// ---- generators ----

var labels = []string{"a", "b", "ads", "www", "x-1", "_dmarc", "9", "xn--80ak6aa92e"}

func genName(t *rapid.T, lo, hi int) string {
	n := kit.Int(t, "labels", lo, hi)
	var ls []string
	for i := 0; i < n; i++ {
		if i == n-1 {
			ls = append(ls, kit.Pick(t, "tld", "com", "test", "a"))
		} else {
			ls = append(ls, kit.Pick(t, "label", labels...))
		}
	}
	return strings.Join(ls, ".")
}

// dress adds what does not change the meaning of a rule.
func dress(t *rapid.T, r string) string {
	switch kit.Int(t, "dress", 0, 9) {
	case 7:
		return " " + r
	case 8:
		return r + "\t "
	case 9:
		return "\t" + r + "\r"
	}
	return r
}

func genNameRule(t *rapid.T, format string, bad bool) string {
	switch kit.Int(t, "line", 0, 30) {
	case 29:
		return kit.Pick(t, "blank", "", "  ", "\t")
	case 30:
		return kit.Pick(t, "comment", "# comment", "#com", "  # ads.com", "#.com", "# a.com.", "# *.a.com, b*")
	}
	switch format {
	case "domain", "domain-subdomain":
		r := kit.Pick(t, "prefix", "", "", "", ".", ".", "*.", "*.") + kit.CaseMix(t, genName(t, 1, 4))
		if bad && kit.Chance(t, "badrule", 50) {
			r = kit.Pick(t, "bad", "a*.com", "a.*.com", "*a.com", "**.com", "a.com*", "*.*.com")
		}
		if kit.Chance(t, "dot", 20) {
			r += "."
		}
		return dress(t, r)
	case "regexp":
		if bad && kit.Chance(t, "badrule", 50) {
			return kit.Pick(t, "bad", "(", "a[", "*.com", "(?P<")
		}
		n := regexp.QuoteMeta(genName(t, 1, 3))
		switch kit.Int(t, "re", 0, 9) {
		case 0:
			return dress(t, `(^|\.)`+n+`\.$`)
		case 1:
			return dress(t, `^`+n+`\.$`)
		case 2:
			return dress(t, n)
		case 3:
			return dress(t, `(?i)^`+strings.ToUpper(n)+`\.`)
		case 4:
			return dress(t, `^[a-z]+\.`+n+`\.$`)
		case 5:
			return dress(t, `^(ads|www)[0-9]*\.`)
		case 6:
			return dress(t, `^\.$`)
		case 7:
			return dress(t, `^`+n+`$`) // never matches: names end with a dot
		case 8:
			return dress(t, kit.Pick(t, "param", `alpn=`, `=$`, `alpn$`, ` port=8443`))
		}
		return dress(t, strings.ToUpper(n)+`\.$`) // nor does this: names are in lower case
	case "mac":
		if bad && kit.Chance(t, "badrule", 50) {
			return kit.Pick(t, "bad", "01:23:45:67:89", "01-23-45-67-89-ab", "0123456789ab", "01:23:45:67:89:zz", "01:23:45:67:89-ab", "01-23:45:67:89:ab", "01:23:45:6 :89:ab", "01:23:45:67:89:ab:cd:ef")
		}
		return dress(t, kit.Pick(t, "mac", "01:23:45:67:89:ab", "01:23:45:67:89:AC", "ff:ff:ff:ff:ff:ff", "00:00:00:00:00:00"))
	case "hosts":
		ip := kit.Pick(t, "hip", "127.0.0.1", "127.0.0.2", "192.0.2.1", "10.0.0.1", "0.0.0.0", "::", "::1", "2001:db8::1", "2001:DB8::2", "fe80::1")
		names := kit.List(t, "names", 1, 3, func(t *rapid.T) string { return kit.CaseMix(t, genName(t, 1, 3)) + kit.Pick(t, "dot", "", "", "", ".") })
		return dress(t, ip+kit.Pick(t, "sep", " ", "\t", "   ")+strings.Join(names, kit.Pick(t, "sep2", " ", "\t")))
	}
	panic(format)
}

func genNameList(t *rapid.T, format string, lo, hi int, bad bool) List {
	return List{Format: format, Rules: kit.List(t, "rules", lo, hi, func(t *rapid.T) string { return genNameRule(t, format, bad) })}
}

// aim draws a name that is close to one the rules are about.
func aim(t *rapid.T, lists []List) string {
	var bases []string
	for _, l := range lists {
		for _, r := range l.Rules {
			if ignored(r) {
				continue
			}
			switch l.Format {
			case "domain", "domain-subdomain":
				bases = append(bases, strings.Trim(strings.TrimSpace(r), ".*"))
			case "hosts":
				if f := strings.Fields(r); len(f) > 1 {
					bases = append(bases, strings.TrimSuffix(f[1+len(r)%(len(f)-1)], "."))
				}
			}
		}
	}
	n := genName(t, 0, 4)
	if len(bases) > 0 && kit.Chance(t, "aim", 75) {
		n = lower(kit.Pick(t, "base", bases...))
		switch kit.Int(t, "aimed", 0, 8) {
		case 0, 1, 2:
			n = kit.Pick(t, "sub", labels...) + "." + n
		case 3:
			n = kit.Pick(t, "glue", "x", "-", "9") + n // same ending, other label
		case 4:
			if i := strings.Index(n, "."); i >= 0 {
				n = n[i+1:]
			}
		case 5:
			n = genName(t, 2, 3) + "." + n
		}
	}
	if strings.ContainsAny(n, "*") || strings.Contains(n, "..") {
		n = strings.ReplaceAll(strings.ReplaceAll(n, "*", "s"), "..", ".")
	}
	return kit.CaseMix(t, strings.TrimPrefix(n, ".")) + "."
}
