package sec

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"fmt"
	"math/big"
	"sync"

	"github.com/miekg/dns"
)

type keyPair struct {
	signer crypto.Signer
	key    dns.DNSKEY // without owner
}

var keyPairs sync.Map

// keyFor returns the same key whenever it is called with the same arguments.
func keyFor(alg uint8, flags uint16, what string) keyPair {
	type id struct {
		alg   uint8
		flags uint16
		what  string
	}
	if k, ok := keyPairs.Load(id{alg, flags, what}); ok {
		return k.(keyPair)
	}
	k := keyPair{key: dns.DNSKEY{
		Hdr:   dns.RR_Header{Rrtype: dns.TypeDNSKEY, Class: dns.ClassINET},
		Flags: flags, Protocol: 3, Algorithm: alg,
	}}
	seed := sha512.Sum512([]byte(what))
	var pub []byte
	switch alg {
	case dns.ED25519:
		p := ed25519.NewKeyFromSeed(seed[:32])
		k.signer, pub = p, p.Public().(ed25519.PublicKey)
	case dns.ECDSAP256SHA256, dns.ECDSAP384SHA384:
		curve, size := elliptic.P256(), 32
		if alg == dns.ECDSAP384SHA384 {
			curve, size = elliptic.P384(), 48
		}
		d := append([]byte{}, seed[:size]...)
		d[0] &= 0x7f
		p, err := ecdsa.ParseRawPrivateKey(curve, d)
		if err != nil {
			panic(err)
		}
		b, err := p.PublicKey.Bytes()
		if err != nil {
			panic(err)
		}
		k.signer, pub = p, b[1:]
	case dns.RSASHA256, dns.RSASHA512:
		p := rsaKey(what)
		e := big.NewInt(int64(p.E)).Bytes()
		k.signer, pub = p, append(append([]byte{byte(len(e))}, e...), p.N.Bytes()...)
	default:
		panic("algorithm")
	}
	k.key.PublicKey = base64.StdEncoding.EncodeToString(pub)
	if k.key.KeyTag() == 0 { // can't be signed with
		k = keyFor(alg, flags, what+"'")
	}
	got, _ := keyPairs.LoadOrStore(id{alg, flags, what}, k)
	return got.(keyPair)
}

// rsaKey returns the same 1024 bit key each time it's asked for.
func rsaKey(what string) *rsa.PrivateKey {
	one := big.NewInt(1)
	p := &rsa.PrivateKey{PublicKey: rsa.PublicKey{E: 65537}}
	phi := big.NewInt(1)
	for n := 0; len(p.Primes) < 2; n++ {
		h := sha512.Sum512(fmt.Appendf(nil, "%s %d", what, n))
		h[0] |= 0xc0
		h[63] |= 1
		f := new(big.Int).SetBytes(h[:])
		less := new(big.Int).Sub(f, one)
		if !f.ProbablyPrime(20) || new(big.Int).GCD(nil, nil, less, big.NewInt(65537)).Cmp(one) != 0 {
			continue
		}
		p.Primes = append(p.Primes, f)
		phi.Mul(phi, less)
	}
	p.N = new(big.Int).Mul(p.Primes[0], p.Primes[1])
	p.D = new(big.Int).ModInverse(big.NewInt(65537), phi)
	p.Precompute()
	if err := p.Validate(); err != nil {
		panic(err)
	}
	return p
}

func (k keyPair) at(zone string, ttl uint32) *dns.DNSKEY {
	d := k.key
	d.Hdr.Name, d.Hdr.Ttl = zone, ttl
	return &d
}

// sign returns a signature of the records by k for the zone.
func (k keyPair) sign(zone string, from, to uint32, rrs []dns.RR) *dns.RRSIG {
	sig := &dns.RRSIG{
		Hdr:        dns.RR_Header{Name: rrs[0].Header().Name, Rrtype: dns.TypeRRSIG, Class: dns.ClassINET, Ttl: rrs[0].Header().Ttl},
		Algorithm:  k.key.Algorithm,
		KeyTag:     k.key.KeyTag(),
		SignerName: zone,
		Inception:  from, Expiration: to,
	}
	if err := sig.Sign(k.signer, rrs); err != nil {
		panic(err)
	}
	return sig
}

func digest(s string) []byte { h := sha256.Sum256([]byte(s)); return h[:] }
