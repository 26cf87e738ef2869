package filter

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
)

// GeoNet is a network in a location database.
type GeoNet struct {
	Net       string   `json:"net"`
	Continent uint32   `json:"continent,omitempty"`
	Country   uint32   `json:"country,omitempty"`
	City      uint32   `json:"city,omitempty"`
	Subs      []uint32 `json:"subs,omitempty"`
	ASN       uint32   `json:"asn,omitempty"`
}

// The format is described at https://maxmind.github.io/MaxMind-DB/.

type mmNode struct {
	kids [2]*mmNode
	leaf int // 1-based number of the network
	num  int
}

func mmCtl(typ, size int) []byte {
	if size >= 29 {
		if size >= 285 {
			panic("verif: value too long")
		}
		return append(mmType(typ, 29), byte(size-29))
	}
	return mmType(typ, size)
}

func mmType(typ, size int) []byte {
	if typ >= 8 {
		return []byte{byte(size), byte(typ - 7)}
	}
	return []byte{byte(typ<<5 | size)}
}

func mmString(s string) []byte { return append(mmCtl(2, len(s)), s...) }

func mmUint(typ int, v uint64) []byte {
	var b []byte
	for ; v > 0; v >>= 8 {
		b = append([]byte{byte(v)}, b...)
	}
	return append(mmCtl(typ, len(b)), b...)
}

type mmPair struct {
	k string
	v []byte
}

func mmMap(kv ...mmPair) []byte {
	b := mmCtl(7, len(kv))
	for _, p := range kv {
		b = append(append(b, mmString(p.k)...), p.v...)
	}
	return b
}

func mmArray(vs ...[]byte) []byte {
	b := mmCtl(11, len(vs))
	for _, v := range vs {
		b = append(b, v...)
	}
	return b
}

func (g GeoNet) data() []byte {
	id := func(v uint32) []byte { return mmMap(mmPair{"geoname_id", mmUint(6, uint64(v))}) }
	var kv []mmPair
	if g.Continent != 0 {
		kv = append(kv, mmPair{"continent", id(g.Continent)})
	}
	if g.Country != 0 {
		kv = append(kv, mmPair{"country", id(g.Country)})
	}
	if g.City != 0 {
		kv = append(kv, mmPair{"city", id(g.City)})
	}
	if len(g.Subs) > 0 {
		var vs [][]byte
		for _, s := range g.Subs {
			vs = append(vs, id(s))
		}
		kv = append(kv, mmPair{"subdivisions", mmArray(vs...)})
	}
	if g.ASN != 0 {
		kv = append(kv, mmPair{"autonomous_system_number", mmUint(6, uint64(g.ASN))}, mmPair{"autonomous_system_organization", mmString("org")})
	}
	return mmMap(kv...)
}

// prefix is a network as bits in the IPv6 space, with IPv4 at ::/96.
func prefix(s string) ([16]byte, int) {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic("verif: " + err.Error())
	}
	var b [16]byte
	ones, bits := n.Mask.Size()
	if bits == 32 {
		copy(b[12:], n.IP.To4())
		return b, ones + 96
	}
	copy(b[:], n.IP.To16())
	return b, ones
}

func bitAt(b [16]byte, i int) int { return int(b[i/8]>>(7-i%8)) & 1 }

// writeMMDB writes a location database.
func writeMMDB(dir string, nets []GeoNet) (string, error) {
	order := make([]int, len(nets))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool {
		_, pa := prefix(nets[order[a]].Net)
		_, pb := prefix(nets[order[b]].Net)
		return pa < pb
	})
	root := &mmNode{}
	for _, i := range order { // shorter prefixes first
		b, n := prefix(nets[i].Net)
		p := root
		for k := 0; k < n; k++ {
			if p.kids[0] == nil && p.kids[1] == nil {
				for j := range p.kids {
					p.kids[j] = &mmNode{leaf: p.leaf}
				}
				p.leaf = 0
			}
			p = p.kids[bitAt(b, k)]
		}
		p.leaf = i + 1 // nothing below yet; the later of equal ones stays
	}
	if root.kids[0] == nil { // the root must be a node
		for j := range root.kids {
			root.kids[j] = &mmNode{leaf: root.leaf}
		}
	}
	var nodes []*mmNode
	var walk func(p *mmNode)
	walk = func(p *mmNode) {
		if p.kids[0] == nil {
			return
		}
		p.num = len(nodes)
		nodes = append(nodes, p)
		walk(p.kids[0])
		walk(p.kids[1])
	}
	walk(root)
	var data bytes.Buffer
	var offsets []int
	for _, g := range nets {
		offsets = append(offsets, data.Len())
		data.Write(g.data())
	}
	var out bytes.Buffer
	for _, p := range nodes {
		for _, k := range p.kids {
			v := uint32(len(nodes))
			if k.kids[0] != nil {
				v = uint32(k.num)
			} else if k.leaf > 0 {
				v = uint32(len(nodes) + 16 + offsets[k.leaf-1])
			}
			binary.Write(&out, binary.BigEndian, v)
		}
	}
	out.Write(make([]byte, 16))
	out.Write(data.Bytes())
	out.WriteString("\xab\xcd\xefMaxMind.com")
	out.Write(mmMap(
		mmPair{"node_count", mmUint(6, uint64(len(nodes)))},
		mmPair{"record_size", mmUint(5, 32)},
		mmPair{"ip_version", mmUint(5, 6)},
		mmPair{"database_type", mmString("Verif")},
		mmPair{"languages", mmArray(mmString("en"))},
		mmPair{"binary_format_major_version", mmUint(5, 2)},
		mmPair{"binary_format_minor_version", mmUint(5, 0)},
		mmPair{"build_epoch", mmUint(9, 1)},
		mmPair{"description", mmMap(mmPair{"en", mmString("verif")})},
	))
	name := filepath.Join(dir, "geo.mmdb")
	return name, os.WriteFile(name, out.Bytes(), 0600)
}

// locate finds the most specific network of an address, with IPv4 at ::/96.
func locate(nets []GeoNet, ip net.IP) (GeoNet, bool) {
	var a [16]byte
	if v4 := ip.To4(); v4 != nil {
		copy(a[12:], v4)
	} else {
		copy(a[:], ip)
	}
	best, found := -1, GeoNet{}
	for _, g := range nets {
		b, n := prefix(g.Net)
		in := true
		for i := 0; i < n; i++ {
			in = in && bitAt(a, i) == bitAt(b, i)
		}
		if in && n >= best {
			best, found = n, g
		}
	}
	return found, best >= 0
}

// ids are the locations, or the AS number, of a network.
func (g GeoNet) ids(format string) []string {
	var out []string
	add := func(vs ...uint32) {
		for _, v := range vs {
			if v != 0 {
				out = append(out, fmt.Sprint(v))
			}
		}
	}
	if format == "asn" {
		add(g.ASN)
	} else {
		add(g.Continent, g.Country, g.City)
		add(g.Subs...)
	}
	return out
}

// WriteMMDB writes a location database to a directory.
func WriteMMDB(dir string, nets []GeoNet) (string, error) { return writeMMDB(dir, nets) }
