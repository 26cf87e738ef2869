package conf

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sync"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"

	"verif/props/wire"
)

// Reply is a response, or something else that came in place of it.
type reply struct {
	m     *dns.Msg
	other string
	err   error
}

func (r reply) none() bool { return r.m == nil && r.other == "" }

var (
	roots = sync.OnceValue(func() *x509.CertPool {
		p := x509.NewCertPool()
		p.AppendCertsFromPEM(must(os.ReadFile(wire.CA())))
		return p
	})
	clientPair = sync.OnceValue(func() tls.Certificate { return must(tls.LoadX509KeyPair(clientCert().Crt, clientCert().Key)) })
)

// ask sends the query of a step to a listener at an address.
func (s Step) ask(ctx context.Context, l Listener, addr string, id uint16) reply {
	q := s.Q.Msg()
	q.Id = id
	m, other, err := s.send(ctx, l, addr, q)
	if err != nil {
		return reply{err: err}
	}
	if m != nil && m.Id != id && l.Protocol != "doq" {
		other = fmt.Sprintf("response with ID %d to a query with ID %d", m.Id, id)
	}
	return reply{m: m, other: other}
}

func (s Step) tls(host string, protos ...string) *tls.Config {
	c := &tls.Config{RootCAs: roots(), ServerName: host, NextProtos: protos}
	if s.SNI != "" {
		c.ServerName = s.SNI
	}
	if s.Cert {
		c.Certificates = []tls.Certificate{clientPair()}
	}
	return c
}

func (s Step) send(ctx context.Context, l Listener, addr string, q *dns.Msg) (*dns.Msg, string, error) {
	host, _, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, "", err
	}
	ip := net.ParseIP(s.Src)
	until, _ := ctx.Deadline()
	proto := l.proto()
	if proto == "admin" && l.Transport == "quic" {
		proto = "doh3"
	}
	unframe := func(r io.Reader) (*dns.Msg, string, error) {
		var n uint16
		if err := binary.Read(r, binary.BigEndian, &n); err != nil {
			return nil, "", err
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, "", err
		}
		m := new(dns.Msg)
		err := m.Unpack(b)
		return m, "", err
	}
	frame := func(w io.Writer) error {
		b, err := q.Pack()
		if err == nil {
			_, err = w.Write(append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...))
		}
		return err
	}
	tcp := &net.Dialer{LocalAddr: &net.TCPAddr{IP: ip}}
	switch proto {
	case "udp":
		c, err := (&net.Dialer{LocalAddr: &net.UDPAddr{IP: ip}}).DialContext(ctx, "udp", addr)
		if err != nil {
			return nil, "", err
		}
		defer c.Close()
		stop := context.AfterFunc(ctx, func() { c.Close() })
		defer stop()
		k := &dns.Conn{Conn: c, UDPSize: 65535}
		if err := k.WriteMsg(q); err != nil {
			return nil, "", err
		}
		m, err := k.ReadMsg()
		return m, "", err
	case "tcp", "dot":
		c, err := tcp.DialContext(ctx, "tcp", addr)
		if err != nil {
			return nil, "", err
		}
		c.(*net.TCPConn).SetLinger(0)
		defer c.Close()
		stop := context.AfterFunc(ctx, func() { c.Close() })
		defer stop()
		rw := c
		if proto == "dot" {
			rw = tls.Client(c, s.tls(host, "dot"))
		}
		if err := frame(rw); err != nil {
			return nil, "", err
		}
		return unframe(rw)
	case "doh", "odoh", "admin":
		if l.Protocol == "odoh" && s.Path == "" {
			return s.oblivious(addr, host, q)
		}
		h := &http.Transport{DialContext: tcp.DialContext, TLSClientConfig: s.tls(host), ForceAttemptHTTP2: s.Method == "POST", DisableKeepAlives: true}
		defer h.CloseIdleConnections()
		return s.request(ctx, h, l, addr, q)
	}
	u, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		return nil, "", err
	}
	pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip})
	if err != nil {
		return nil, "", err
	}
	defer pc.Close()
	if proto == "dtls" {
		d := &dtls.Config{RootCAs: roots(), ServerName: host, ExtendedMasterSecret: dtls.RequireExtendedMasterSecret}
		if s.SNI != "" {
			d.ServerName = s.SNI
		}
		if s.Cert {
			d.Certificates = []tls.Certificate{clientPair()}
		}
		c, err := dtls.Client(pc, u, d)
		if err == nil {
			err = c.HandshakeContext(ctx)
		}
		if err != nil {
			return nil, "", err
		}
		defer c.Close()
		c.SetDeadline(until)
		stop := context.AfterFunc(ctx, func() { c.Close() })
		defer stop()
		if err := frame(c); err != nil {
			return nil, "", err
		}
		b := make([]byte, 70000)
		n, err := c.Read(b)
		if err != nil {
			return nil, "", err
		}
		return unframe(bytes.NewReader(b[:n]))
	}
	tr := &quic.Transport{Conn: pc}
	defer tr.Close()
	if proto == "doh3" {
		h := &http3.Transport{TLSClientConfig: s.tls(host, "h3"), Dial: func(ctx context.Context, _ string, t *tls.Config, c *quic.Config) (*quic.Conn, error) {
			return tr.DialEarly(ctx, u, t, c)
		}}
		defer h.Close()
		return s.request(ctx, h, l, addr, q)
	}
	conn, err := tr.Dial(ctx, u, s.tls(host, "doq"), nil)
	if err != nil {
		return nil, "", err
	}
	defer conn.CloseWithError(0, "")
	stop := context.AfterFunc(ctx, func() { conn.CloseWithError(0, "") })
	defer stop()
	st, err := conn.OpenStreamSync(ctx)
	if err != nil {
		return nil, "", err
	}
	q.Id = 0
	if err := frame(st); err != nil {
		return nil, "", err
	}
	st.Close()
	return unframe(st)
}

// request sends an HTTP request.
func (s Step) request(ctx context.Context, h http.RoundTripper, l Listener, addr string, q *dns.Msg) (*dns.Msg, string, error) {
	url := "https://" + addr
	if l.NoTLS {
		url = "http://" + addr
	}
	path := s.Path
	if path == "" {
		path = "/dns-query"
	}
	b, err := q.Pack()
	if err != nil {
		return nil, "", err
	}
	var body io.Reader
	if s.Method == "GET" {
		path += "?dns=" + base64.RawURLEncoding.EncodeToString(b)
	} else {
		body = bytes.NewReader(b)
	}
	r, err := http.NewRequestWithContext(ctx, s.Method, url+path, body)
	if err != nil {
		return nil, "", err
	}
	r.Header.Set("Content-Type", "application/dns-message")
	r.Header.Set("Accept", "application/dns-message")
	if s.XFF != "" {
		r.Header.Set("X-Forwarded-For", s.XFF)
	}
	resp, err := h.RoundTrip(r)
	if err != nil {
		return nil, "", err
	}
	defer resp.Body.Close()
	b, err = io.ReadAll(resp.Body)
	if err != nil {
		return nil, "", err
	}
	typ := resp.Header.Get("Content-Type")
	if resp.StatusCode == 200 && typ == "application/dns-message" && s.Path != "/.well-known/odohconfigs" {
		m := new(dns.Msg)
		err := m.Unpack(b)
		return m, "", err
	}
	if s.Path == "/routedns/vars" && json.Valid(b) {
		b = []byte("JSON")
	}
	return nil, fmt.Sprintf("status %d %s %q", resp.StatusCode, typ, b), nil
}

var clients sync.Mutex

// oblivious sends a query with ODoH.
func (s Step) oblivious(addr, host string, q *dns.Msg) (*dns.Msg, string, error) {
	opt := rdns.DoHClientOptions{TLSConfig: s.tls(host), LocalAddr: net.ParseIP(s.Src), QueryTimeout: patience}
	clients.Lock() // its counters have names
	c, err := rdns.NewODoHClient("client", "", "https://"+addr+"/dns-query", "", opt)
	clients.Unlock()
	if err != nil {
		return nil, "", err
	}
	m, err := c.Resolve(q, rdns.ClientInfo{})
	return m, "", err
}
