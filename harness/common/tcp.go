package hcommon

import (
	"io"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

// Enc writes the wire format. It shares no code with the agent.
type Enc struct{ B []byte }

func (e *Enc) U8(v byte) *Enc { e.B = append(e.B, v); return e }
func (e *Enc) I32(v int32) *Enc {
	u := uint32(v)
	e.B = append(e.B, byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
	return e
}
func (e *Enc) I64(v int64) *Enc {
	e.I32(int32(v >> 32))
	return e.I32(int32(v))
}
func (e *Enc) Text(s string) *Enc {
	switch {
	case len(s) <= 253:
		e.U8(byte(len(s)))
	case len(s) <= 65535:
		e.U8(255).U8(byte(len(s) >> 8)).U8(byte(len(s)))
	default:
		e.U8(254).I32(int32(len(s)))
	}
	e.B = append(e.B, s...)
	return e
}

// Param is a parameter of a command: a text, or a number if Text is "".
type Param struct {
	Key  string
	Text string
	Num  int64
}

// MapPack writes a map pack.
func (e *Enc) MapPack(params ...Param) *Enc {
	e.U8(10)
	if len(params) == 0 {
		e.U8(0)
	} else {
		e.U8(1).U8(byte(len(params)))
	}
	for _, p := range params {
		e.Text(p.Key)
		if p.Text != "" {
			e.U8(50).Text(p.Text)
		} else {
			e.U8(20).U8(8).I64(p.Num)
		}
	}
	return e
}

// Server is the collector's side of the agent's TCP session.
type Server struct {
	Conn    *net.TCPConn // the current connection, nil before the first
	Refuse  bool         // refuse connections
	Chunk   int          // deliver at most this many bytes at a time
	Hangup  bool         // end the connection when the requests are used up
	Conns   []*net.TCPConn
	Greeted bool // the beginning of the current connection was read
	Dialed  func() // called before a connection is accepted
	Accepted func(*net.TCPConn)
	Reads   int          // how many requests were waited for
	pending [][]byte
	idle    bool
	read    int
}

// NewServer accepts the agent's TCP connections.
func NewServer() *Server {
	s := &Server{}
	net.TCPDialer = func(string) *net.TCPConn {
		if s.Refuse {
			return nil
		}
		s.read, s.idle, s.pending, s.Greeted = 0, false, nil, false
		if s.Dialed != nil {
			s.Dialed()
		}
		s.Conn = &net.TCPConn{Chunk: s.Chunk, AtEnd: s.more}
		s.Conns = append(s.Conns, s.Conn)
		if s.Accepted != nil {
			s.Accepted(s.Conn)
		}
		return s.Conn
	}
	return s
}

func (s *Server) more(c *net.TCPConn) error {
	s.Reads++
	for len(s.pending) == 0 {
		s.idle = true
		if s.Hangup {
			return io.EOF
		}
		if c.ReadDL > 0 && vrt.NowNS() >= c.ReadDL {
			return net.ErrTimeout
		}
		vrt.Sleep(100000000)
		if c.Closed {
			return net.ErrTimeout
		}
	}
	s.idle = false
	c.In = append(c.In, s.pending[0]...)
	s.pending = s.pending[1:]
	return nil
}

// Hello waits for an open session whose beginning was not read yet, and returns the object hash it is for.
func (s *Server) Hello() int32 {
	for i := 0; i < 1000 && !(s.Conn != nil && !s.Conn.Closed && s.idle); i++ {
		vrt.RunFor(100)
	}
	vrt.Assert(s.Conn != nil && !s.Conn.Closed && s.idle, "tcp: the agent does not come back to the collector")
	vrt.Assert(!s.Greeted, "tcp: there is no new session")
	s.Greeted = true
	h := HelloOf(s.Conn)
	s.read = 8
	return h
}

// HelloOf returns the object hash a session is for.
func HelloOf(c *net.TCPConn) int32 {
	d := Dec{B: c.Out}
	vrt.Assert(d.I32() == -889319422, "tcp: the session does not begin with the agent's marker") // 0xCAFE1002
	return d.I32()
}

func (s *Server) wait(c *net.TCPConn) {
	for i := 0; i < 1000; i++ {
		vrt.RunFor(100)
		if c.Closed || s.Conn == c && s.idle {
			return
		}
	}
	vrt.Fail("tcp: the agent does not come back to the collector")
}

// Request is a framed command.
func Request(cmd string, params ...Param) []byte {
	b := (&Enc{}).Text(cmd).MapPack(params...).B
	return append((&Enc{}).I32(int32(len(b))).B, b...)
}

// Send sends bytes and does not wait for an answer.
func (s *Server) Send(b []byte) {
	s.idle = false
	s.pending = append(s.pending, b)
}

// Raw sends bytes and returns everything the agent answers in the current session.
func (s *Server) Raw(b []byte) []byte {
	c, from := s.Conn, s.read
	s.Send(b)
	s.wait(c)
	if s.Conn == c {
		s.read = len(c.Out)
	}
	return c.Out[from:]
}

// Call sends a command and returns the pack it is answered with, nil if there is none.
func (s *Server) Call(cmd string, params ...Param) *Val {
	d := Dec{B: s.Raw(Request(cmd, params...))}
	var v *Val
	if f := d.U8(); f == 3 {
		n := d.I32()
		e := Dec{B: d.take(int(n))}
		v = e.Map()
		vrt.Assert(e.Left() == 0, "tcp: bytes left in the answer's pack")
		vrt.Assert(d.U8() == 4, "tcp: the answer has no end")
	} else {
		vrt.Assert(f == 4, "tcp: the answer has no end")
	}
	vrt.Assert(d.Left() == 0, "tcp: bytes after the end of the answer")
	return v
}

// Blobs sends a command and returns the blobs it is answered with.
func (s *Server) Blobs(cmd string, params ...Param) [][]byte {
	d := Dec{B: s.Raw(Request(cmd, params...))}
	var r [][]byte
	for {
		f := d.U8()
		if f == 4 {
			break
		}
		vrt.Assert(f == 3, "tcp: the answer is not framed")
		r = append(r, d.Blob())
	}
	vrt.Assert(d.Left() == 0, "tcp: bytes after the end of the answer")
	return r
}

// Map reads a map pack.
func (d *Dec) Map() *Val {
	vrt.Assert(d.U8() == 10, "wire: not a map pack")
	v := &Val{Tag: 80}
	n := d.Decimal()
	for i := int64(0); i < n; i++ {
		v.Keys = append(v.Keys, d.Text())
		v.List = append(v.List, d.Value())
	}
	return v
}
