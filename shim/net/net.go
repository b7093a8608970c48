// Package net is a recording UDP socket and a scripted TCP connection.
package net

import (
	"errors"
	"io"
	"syscall"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

type neterr struct {
	s       string
	timeout bool
}

func (e *neterr) Error() string   { return e.s }
func (e *neterr) Timeout() bool   { return e.timeout }
func (e *neterr) Temporary() bool { return e.timeout }
func (e *neterr) Is(target error) bool {
	return e.timeout && target == os.ErrDeadlineExceeded || e.s == ErrClosed.Error() && target == ErrClosed ||
		e.s == "connection refused" && target == error(syscall.ECONNREFUSED)
}

// ErrClosed is what an operation on a closed socket fails with.
var ErrClosed error = errors.New("use of closed network connection")

// ---- control

// Datagrams are the datagrams sent so far, over all sockets.
var Datagrams [][]byte

// Dests are the destinations of the datagrams.
var Dests []string

// UDPWriteFault may make a datagram fail; it is not recorded then.
var UDPWriteFault func(b []byte) error

// UDPDials counts DialUDP calls; UDPDialFault may make them fail.
var UDPDials int
var UDPDialFault func(addr string) error

// UDPOpen counts the open sockets.
var UDPOpen int

// UDPYield makes writes points of possible context switches.
var UDPYield bool

// TCPDialer supplies the TCP connections; nil means connection refused.
var TCPDialer func(addr string) *TCPConn

// DialTimes are the virtual times (ns) of the TCP connection attempts; DialAddrs their targets.
var DialTimes []int64
var DialAddrs []string

// ---- addresses

func ResolveUDPAddr(network, address string) (*UDPAddr, error) {
	host, port, err := split(address)
	if err != nil {
		return nil, err
	}
	return &UDPAddr{IP: ParseIP(host), Port: port, Zone: host}, nil
}

func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	host, port, err := split(address)
	if err != nil {
		return nil, err
	}
	return &TCPAddr{IP: ParseIP(host), Port: port, Zone: host}, nil
}

func split(a string) (string, int, error) {
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] == ':' {
			p := 0
			for _, c := range []byte(a[i+1:]) {
				if c < '0' || c > '9' {
					return "", 0, &neterr{s: "invalid port"}
				}
				p = p*10 + int(c-'0')
				if p > 65535 {
					return "", 0, &neterr{s: "invalid port"}
				}
			}
			return a[:i], p, nil
		}
	}
	return "", 0, &neterr{s: "missing port in address"}
}

type addr struct{ s string }

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return a.s }

// ---- UDP

type UDPConn struct {
	raddr  string
	closed bool
	dialed bool
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// NewUDP is a socket for harnesses.
func NewUDP(dest string) *UDPConn { return &UDPConn{raddr: dest} }

func DialUDP(network string, laddr, raddr *UDPAddr) (*UDPConn, error) {
	UDPDials++
	d := raddr.Zone + ":" + itoa(raddr.Port)
	if UDPDialFault != nil {
		if e := UDPDialFault(d); e != nil {
			return nil, e
		}
	}
	UDPOpen++
	return &UDPConn{raddr: d, dialed: true}, nil
}

func (c *UDPConn) Write(b []byte) (int, error) {
	closed := c.closed // of no connection: panics, as the real one does
	if UDPYield {
		vrt.Yield()
	}
	if closed || c.closed {
		return 0, &neterr{s: "use of closed network connection"}
	}
	if UDPWriteFault != nil {
		if e := UDPWriteFault(b); e != nil {
			return 0, e
		}
	}
	if len(b) > 65507 {
		return 0, &neterr{s: "message too long"}
	}
	Datagrams = append(Datagrams, append([]byte{}, b...))
	Dests = append(Dests, c.raddr)
	return len(b), nil
}
func (c *UDPConn) Read(b []byte) (int, error)          { return 0, io.EOF }
func (c *UDPConn) Close() error {
	if c.dialed && !c.closed {
		UDPOpen--
	}
	c.closed = true
	return nil
}
func (c *UDPConn) LocalAddr() Addr                     { return addr{"127.0.0.1:1"} }
func (c *UDPConn) RemoteAddr() Addr { // of no connection: panics, as the real one does
	return addr{c.raddr}
}
func (c *UDPConn) SetDeadline(t time.Time) error       { return nil }
func (c *UDPConn) SetReadDeadline(t time.Time) error   { return nil }
func (c *UDPConn) SetWriteDeadline(t time.Time) error  { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error          { return nil }
func (c *UDPConn) SetReadBuffer(n int) error           { return nil }

// ---- TCP

// TCPConn reads In and records Out.
type TCPConn struct {
	In      []byte
	Pos     int
	Chunk   int // largest read served at once; 0: no limit
	Out     []byte
	Closed  bool
	Closes  int
	// AtEnd is called when the input is used up; it may extend In, or tell the read's error.
	AtEnd      func(c *TCPConn) error
	WriteFault func(n int) error
	Deadlines  int
	NoDelay    bool
	Laddr      string
	ReadDL     int64        // virtual time (ns) of the read deadline, 0: none
	DLFault    func() error // may make setting a deadline fail
}

func (c *TCPConn) Read(b []byte) (int, error) {
	if c.Closed {
		return 0, &neterr{s: "use of closed network connection"}
	}
	if len(b) == 0 {
		return 0, nil
	}
	for c.Pos >= len(c.In) {
		if c.AtEnd == nil {
			return 0, io.EOF
		}
		if e := c.AtEnd(c); e != nil {
			return 0, e
		}
	}
	n := len(b)
	if c.Chunk > 0 && n > c.Chunk {
		n = c.Chunk
	}
	n = copy(b[:n], c.In[c.Pos:])
	c.Pos += n
	return n, nil
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if c.Closed {
		return 0, &neterr{s: "use of closed network connection"}
	}
	if c.WriteFault != nil {
		if e := c.WriteFault(len(b)); e != nil {
			return 0, e
		}
	}
	c.Out = append(c.Out, b...)
	return len(b), nil
}

func (c *TCPConn) Close() error {
	if c == nil {
		return &neterr{s: "invalid argument"}
	}
	c.Closes++
	c.Closed = true
	return nil
}
func (c *TCPConn) CloseWrite() error { return nil }
func (c *TCPConn) LocalAddr() Addr {
	if c.Laddr != "" {
		return addr{c.Laddr}
	}
	return addr{"10.0.0.5:40000"}
}
func (c *TCPConn) RemoteAddr() Addr                             { return addr{"10.0.0.1:6100"} }
func (c *TCPConn) SetDeadline(t time.Time) error                { return c.SetReadDeadline(t) }
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	c.Deadlines++
	c.ReadDL = 0
	if !t.IsZero() {
		c.ReadDL = t.UnixNano()
	}
	if c.DLFault != nil {
		return c.DLFault()
	}
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error           { return nil }
func (c *TCPConn) SetNoDelay(b bool) error                      { return nil }
func (c *TCPConn) SetKeepAlive(b bool) error                    { return nil }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error     { return nil }
func (c *TCPConn) SetLinger(n int) error                        { return nil }
func (c *TCPConn) SetReadBuffer(n int) error                    { return nil }
func (c *TCPConn) SetWriteBuffer(n int) error                   { return nil }

// ErrTimeout is a read deadline that has passed.
var ErrTimeout error = &neterr{s: "i/o timeout", timeout: true}

// DialLimits are the timeouts (ns) given to the connection attempts, 0: none.
var DialLimits []int64

func dial(network, address string, limit int64) (Conn, error) {
	DialLimits = append(DialLimits, limit)
	DialTimes = append(DialTimes, vrt.NowNS())
	DialAddrs = append(DialAddrs, address)
	if TCPDialer != nil {
		if c := TCPDialer(address); c != nil {
			return c, nil
		}
	}
	return nil, &neterr{s: "connection refused"}
}

func Dial(network, address string) (Conn, error) { return dial(network, address, 0) }
func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return dial(network, address, int64(d))
}
func DialTCP(network string, l, r *TCPAddr) (*TCPConn, error) {
	c, e := dial(network, r.Zone+":"+itoa(r.Port), 0)
	if e != nil {
		return nil, e
	}
	return c.(*TCPConn), nil
}


func LookupHost(h string) ([]string, error)    { return []string{h}, nil }
func InterfaceAddrs() ([]Addr, error)          { return nil, nil }

// ParseIP is the textual IP parser (the real one needs run-time support the engine does not have).
func ParseIP(s string) IP {
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			return parse4(s)
		}
		if s[i] == ':' {
			return parse6(s)
		}
	}
	return nil
}

func parse4(s string) IP {
	var b [4]byte
	n, digits, v := 0, 0, 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			if digits == 0 || n > 3 {
				return nil
			}
			b[n] = byte(v)
			n++
			digits, v = 0, 0
			continue
		}
		if s[i] < '0' || s[i] > '9' || (digits > 0 && v == 0) {
			return nil
		}
		v = v*10 + int(s[i]-'0')
		digits++
		if v > 255 {
			return nil
		}
	}
	if n != 4 {
		return nil
	}
	return IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, b[0], b[1], b[2], b[3]}
}

func parse6(s string) IP {
	ip := make(IP, 16)
	var groups [8]int
	n, dbl := 0, -1
	i := 0
	if len(s) >= 2 && s[0] == ':' && s[1] == ':' {
		dbl = 0
		i = 2
	}
	for i < len(s) {
		start, v := i, 0
		for i < len(s) && s[i] != ':' {
			c := s[i]
			switch {
			case c >= '0' && c <= '9':
				v = v<<4 | int(c-'0')
			case c >= 'a' && c <= 'f':
				v = v<<4 | int(c-'a'+10)
			case c >= 'A' && c <= 'F':
				v = v<<4 | int(c-'A'+10)
			case c == '.' && n <= 6:
				p := parse4(s[start:])
				if p == nil {
					return nil
				}
				groups[n] = int(p[12])<<8 | int(p[13])
				groups[n+1] = int(p[14])<<8 | int(p[15])
				n += 2
				i = len(s)
				v = -1
			default:
				return nil
			}
			if v < 0 {
				break
			}
			i++
		}
		if v < 0 {
			break
		}
		if i == start || i-start > 4 || n > 7 {
			return nil
		}
		groups[n] = v
		n++
		if i == len(s) {
			break
		}
		i++
		if i == len(s) {
			return nil
		}
		if s[i] == ':' {
			if dbl >= 0 {
				return nil
			}
			dbl = n
			i++
		}
	}
	if (dbl < 0 && n != 8) || (dbl >= 0 && n > 7) {
		return nil
	}
	k := 0
	for g := 0; g < 8; g++ {
		v := 0
		if dbl < 0 || g < dbl {
			v = groups[g]
		} else if g >= dbl+8-n {
			v = groups[g-(8-n)]
		}
		ip[k], ip[k+1] = byte(v>>8), byte(v)
		k += 2
	}
	return ip
}
