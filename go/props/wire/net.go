// Package wire checks listeners and resolvers: what goes over the network.
package wire

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rdns "github.com/folbricht/routedns"
)

// patience is how long anything that has to happen may take.
const patience = 60 * time.Second

// here is an address of the loopback network that no other process uses, so
// that ports can be picked without looking.
var here = Near(0)

// Near returns the k-th of four such addresses.
func Near(k int) string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 16+p>>14&127, p>>6&255, p&63*4+k)
}

var lastPort atomic.Int32

func port() int { return 10000 + int(lastPort.Add(1)%20000) }

// scratch is a directory for certificates.
var scratch = sync.OnceValue(func() string {
	d, err := os.MkdirTemp("", "wire")
	if err != nil {
		panic(err)
	}
	return d
})

// authority issues certificates.
type authority struct {
	name string
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	file string
}

var serial atomic.Int64

func writePEM(name, typ string, der []byte) string {
	f := filepath.Join(scratch(), name)
	if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0600); err != nil {
		panic(err)
	}
	return f
}

func newAuthority(name string) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serial.Add(1)), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2120, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &authority{name: name, cert: cert, key: key, file: writePEM(name+".ca", "CERTIFICATE", der)}
}

// pair is a certificate with its key in files.
type pair struct {
	crt, key string
	tls      tls.Certificate
}

// issue makes a certificate for names and addresses.
func (a *authority) issue(names []string, expired, client bool) pair {
	t := &x509.Certificate{
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2120, 1, 1, 0, 0, 0, 0, time.UTC),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	if expired {
		t.NotAfter = time.Date(1995, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	if client {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	}
	for _, s := range names {
		if ip := net.ParseIP(s); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, s)
		}
	}
	_, p := sign(a, t)
	return p
}

// sign makes a certificate, signed by itself without an authority.
func sign(a *authority, t *x509.Certificate) (*x509.Certificate, pair) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	n := serial.Add(1)
	t.SerialNumber, t.Subject = big.NewInt(n), pkix.Name{CommonName: "c" + fmt.Sprint(n)}
	parent, by := t, key
	if a != nil {
		parent, by = a.cert, a.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, by)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	k, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		panic(err)
	}
	return cert, pair{
		crt: writePEM(fmt.Sprintf("%d.crt", n), "CERTIFICATE", der),
		key: writePEM(fmt.Sprintf("%d.key", n), "EC PRIVATE KEY", k),
		tls: tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key},
	}
}

func (a *authority) pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(a.cert)
	return p
}

// The authority and certificate that are used where they do not matter.
var (
	ourCA   = sync.OnceValue(func() *authority { return newAuthority("ours") })
	ourCert = sync.OnceValue(func() pair {
		return ourCA().issue([]string{"dns.test", "alt.test", "localhost", here, "127.0.0.1", "::1"}, false, false)
	})
)

// Transports.
const (
	UDP  = "udp"
	TCP  = "tcp"
	DoT  = "dot"
	DTLS = "dtls"
	DoQ  = "doq"
	DoH  = "doh"
	DoH3 = "doh3"
)

var transports = []string{UDP, TCP, DoT, DTLS, DoQ, DoH, DoH3}

func datagrams(proto string) bool {
	return proto == UDP || proto == DTLS || proto == DoQ || proto == DoH3
}

func tlsServer() *tls.Config {
	c, err := rdns.TLSServerConfig("", ourCert().crt, ourCert().key, false)
	if err != nil {
		panic(err)
	}
	return c
}

// newListener builds a listener.
func newListener(proto, id, addr string, opt rdns.ListenOptions, r rdns.Resolver) (rdns.Listener, error) {
	switch proto {
	case UDP, TCP:
		return rdns.NewDNSListener(id, addr, proto, opt, r), nil
	case DoT:
		return rdns.NewDoTListener(id, addr, "", rdns.DoTListenerOptions{ListenOptions: opt, TLSConfig: tlsServer()}, r), nil
	case DTLS:
		c, err := rdns.DTLSServerConfig("", ourCert().crt, ourCert().key, false)
		if err != nil {
			return nil, err
		}
		return rdns.NewDTLSListener(id, addr, rdns.DTLSListenerOptions{ListenOptions: opt, DTLSConfig: c}, r), nil
	case DoQ:
		return rdns.NewQUICListener(id, addr, rdns.DoQListenerOptions{ListenOptions: opt, TLSConfig: tlsServer()}, r), nil
	case DoH:
		return rdns.NewDoHListener(id, addr, rdns.DoHListenerOptions{ListenOptions: opt, TLSConfig: tlsServer()}, r)
	case DoH3:
		return rdns.NewDoHListener(id, addr, rdns.DoHListenerOptions{ListenOptions: opt, Transport: "quic", TLSConfig: tlsServer()}, r)
	}
	panic("transport " + proto)
}

// start runs a listener until it accepts traffic. The function that is
// returned stops it, without waiting.
func start(l rdns.Listener, addr string, datagram bool) (func(), error) {
	failed := make(chan error, 1)
	go func() { failed <- l.Start() }()
	for t0 := time.Now(); !bound(addr, datagram); time.Sleep(200 * time.Microsecond) {
		select {
		case err := <-failed:
			return nil, fmt.Errorf("listener on %s did not start: %v", addr, err)
		default:
		}
		if time.Since(t0) > patience {
			return nil, fmt.Errorf("listener on %s did not start in %v", addr, patience)
		}
	}
	return func() { go l.Stop() }, nil
}

// bound says if a socket of the given kind waits at an address.
func bound(addr string, datagram bool) bool {
	if !datagram {
		c, err := net.Dial("tcp", addr)
		if err != nil {
			return false
		}
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
		return true
	}
	host, prt, err := net.SplitHostPort(addr)
	if err != nil {
		panic(err)
	}
	var p int
	fmt.Sscan(prt, &p)
	file := "/proc/net/udp"
	ip := net.ParseIP(host)
	var want string
	if v4 := ip.To4(); v4 != nil {
		want = fmt.Sprintf(" %02X%02X%02X%02X:%04X ", v4[3], v4[2], v4[1], v4[0], p)
	} else {
		file += "6"
		want = " "
		for i := 0; i < 16; i += 4 {
			want += fmt.Sprintf("%02X%02X%02X%02X", ip[i+3], ip[i+2], ip[i+1], ip[i])
		}
		want += fmt.Sprintf(":%04X ", p)
	}
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		if i := strings.Index(line, want); i >= 0 && i <= 10 {
			return true
		}
	}
	return false
}
