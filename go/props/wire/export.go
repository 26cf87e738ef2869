package wire

import (
	"encoding/binary"
	"net"

	rdns "github.com/folbricht/routedns"
	"golang.org/x/sys/unix"
)

// Patience is how long anything that has to happen may take.
const Patience = patience

// Files are the names of files with a certificate and its key.
type Files struct{ Crt, Key string }

// CA returns the file with the certificate of the authority.
func CA() string { return ourCA().file }

// Issue makes a certificate for names and addresses.
func Issue(names []string, client bool) Files {
	p := ourCA().issue(names, false, client)
	return Files{p.crt, p.key}
}

// Start runs a listener until it accepts traffic.
func Start(l rdns.Listener, addr string, datagram bool) (func(), error) {
	return start(l, addr, datagram)
}

// Bound says if a socket of the given kind waits at an address.
func Bound(addr string, datagram bool) bool { return bound(addr, datagram) }

// Scratch is a directory for files, to be removed in the end.
func Scratch() string { return scratch() }

// FdFrom asks an fd-server for a socket and says if there was one.
func FdFrom(path string, domain, kind int) (bool, error) {
	c, err := net.DialUnix("unixpacket", nil, &net.UnixAddr{Name: path, Net: "unixpacket"})
	if err != nil {
		return false, err
	}
	defer c.Close()
	b := append([]byte("XS01"), make([]byte, 12)...)
	binary.BigEndian.PutUint32(b[4:], uint32(domain))
	binary.BigEndian.PutUint32(b[8:], uint32(kind))
	_, fds, err := fdAsk(c, b)
	for _, fd := range fds {
		unix.Close(fd)
	}
	return len(fds) > 0, err
}
