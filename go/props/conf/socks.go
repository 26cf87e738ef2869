package conf

import (
	"bytes"
	"io"
	"net"
	"strings"

	"verif/props/wire"
)

// socksPort is where there is a SOCKS5 proxy for each side.
const socksPort = 9983

// proxied is the address from which a proxy connects. It depends on everything
// the client has told it, so the servers see if that is right.
func proxied(k side, what ...string) net.IP {
	h := hash(strings.ReplaceAll(strings.Join(what, " "), upIP[k], "{UP}"))
	return net.IPv4(127, 7, byte(h>>8), byte(h)|1)
}

func serveSocks(k side, ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			socks(k, c)
		}()
	}
}

func socks(k side, c net.Conn) {
	b := make([]byte, 512)
	str := func() (string, bool) { // with the length in front
		if _, err := io.ReadFull(c, b[:1]); err != nil {
			return "", false
		}
		n := int(b[0])
		_, err := io.ReadFull(c, b[:n])
		return string(b[:n]), err == nil
	}
	if _, err := io.ReadFull(c, b[:1]); err != nil {
		return
	}
	methods, ok := str()
	if !ok {
		return
	}
	var user, pass string
	if strings.Contains(methods, "\x02") {
		c.Write([]byte{5, 2})
		if _, err := io.ReadFull(c, b[:1]); err != nil {
			return
		}
		if user, ok = str(); !ok {
			return
		}
		if pass, ok = str(); !ok {
			return
		}
		c.Write([]byte{1, 0})
	} else {
		c.Write([]byte{5, 0})
	}
	if _, err := io.ReadFull(c, b[:3]); err != nil {
		return
	}
	cmd := b[1]
	to, err := wire.ReadSocksAddress(c)
	if err != nil {
		return
	}
	from, _, _ := net.SplitHostPort(c.RemoteAddr().String())
	at := func(addr string) (string, string) { // where it is, and the host as it was given
		host, port, _ := net.SplitHostPort(addr)
		if host == "up.test" {
			return net.JoinHostPort(upIP[k], port), host
		}
		return addr, host
	}
	switch cmd {
	case 1:
		dst, host := at(to)
		d := net.Dialer{LocalAddr: &net.TCPAddr{IP: proxied(k, "tcp", methods, user, pass, host, from)}}
		u, err := d.Dial("tcp", dst)
		if err != nil {
			c.Write([]byte{5, 5, 0, 1, 0, 0, 0, 0, 0, 0})
			return
		}
		defer u.Close()
		c.Write([]byte{5, 0, 0, 1, 0, 0, 0, 0, 0, 0})
		go func() {
			io.Copy(u, c)
			u.Close()
		}()
		io.Copy(c, u)
	case 3:
		in, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(upIP[k])})
		if err != nil {
			return
		}
		defer in.Close()
		go relay(k, in, at, methods, user, pass, from)
		c.Write(append([]byte{5, 0, 0}, wire.SocksAddress(upIP[k], uint16(in.LocalAddr().(*net.UDPAddr).Port))...))
		io.Copy(io.Discard, c)
	}
}

// relay passes datagrams on in both directions until in is closed.
func relay(k side, in *net.UDPConn, at func(string) (string, string), what ...string) {
	out := map[string]*net.UDPConn{}
	defer func() {
		for _, u := range out {
			u.Close()
		}
	}()
	b := make([]byte, 65536)
	for {
		n, client, err := in.ReadFromUDP(b)
		if err != nil {
			return
		}
		r := bytes.NewReader(b[3:max(n, 3)])
		to, err := wire.ReadSocksAddress(r)
		if err != nil {
			continue
		}
		u := out[to]
		if u == nil {
			dst, host := at(to)
			ua, err := net.ResolveUDPAddr("udp4", dst)
			if err != nil {
				continue
			}
			local := proxied(k, append([]string{"udp", host, client.IP.String()}, what...)...)
			if u, err = net.DialUDP("udp4", &net.UDPAddr{IP: local}, ua); err != nil {
				continue
			}
			out[to] = u
			head := append([]byte{0, 0, 0}, wire.SocksAddress(ua.IP.String(), uint16(ua.Port))...)
			go func() {
				b := make([]byte, 65536)
				for {
					n, err := u.Read(b)
					if err != nil {
						return
					}
					in.WriteToUDP(append(head[:len(head):len(head)], b[:n]...), client)
				}
			}()
		}
		rest, _ := io.ReadAll(r)
		u.Write(rest)
	}
}
