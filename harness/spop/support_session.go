package spop

import (
	"context"
	"errors"
	"net"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

const vsymMilli = int(time.Millisecond)

// vsymListener hands prepared connections to Agent.Serve.
type vsymListener struct {
	conns  chan net.Conn
	closed chan struct{}
	shut   bool
}

func (l *vsymListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *vsymListener) Close() error {
	if !l.shut {
		l.shut = true
		close(l.closed)
	}
	return nil
}

func (l *vsymListener) Addr() net.Addr { return &vsymConn{} }

// vsymAgent is an agent with prepared connections.
type vsymAgent struct {
	l   *vsymListener
	end chan error
}

func vsymServe(base context.Context, h func(context.Context, *encoding.ActionWriter, *encoding.Message), conns ...*vsymConn) *vsymAgent {
	a := &vsymAgent{l: &vsymListener{conns: make(chan net.Conn), closed: make(chan struct{})}, end: make(chan error, 1)}
	agent := &Agent{BaseContext: base, Handler: HandlerFunc(h)}
	go func() { a.end <- agent.Serve(a.l) }()
	for _, c := range conns {
		a.l.conns <- c
	}
	return a
}

func (a *vsymAgent) connect(c *vsymConn) { a.l.conns <- c }

func vsymBE32(v uint32) []byte {
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func vsymCat(bs ...[]byte) []byte {
	n := 0
	for _, b := range bs {
		n += len(b)
	}
	out := make([]byte, n)
	pos := 0
	for _, b := range bs {
		pos = vsym.Put(out, pos, b)
	}
	return out
}

// vsymFrame is a frame on the wire.
func vsymFrame(typ byte, flags uint32, stream, id uint64, payload ...[]byte) []byte {
	body := vsymCat(append([][]byte{{typ}, vsymBE32(flags), vsym.RefVarint(stream), vsym.RefVarint(id)}, payload...)...)
	return vsymCat(vsymBE32(uint32(len(body))), body)
}

func vsymStr(s string) []byte {
	return vsymCat(vsym.RefVarint(uint64(len(s))), []byte(s))
}

// vsymKVStr is a key/value pair with a string.
func vsymKVStr(name, val string) []byte {
	return vsymCat(vsymStr(name), []byte{8}, vsymStr(val))
}

// vsymKVU32 is a key/value pair with an unsigned 32-bit number.
func vsymKVU32(name string, v uint32) []byte {
	return vsymCat(vsymStr(name), []byte{3}, vsym.RefVarint(uint64(v)))
}

// vsymHelloFrame is a HAPROXY-HELLO.
func vsymHelloFrame(size uint32) []byte {
	return vsymFrame(1, 1, 0, 0, vsymKVStr("supported-versions", "2.0"), vsymKVU32("max-frame-size", size), vsymKVStr("capabilities", ""))
}

// vsymMessage is a message of a NOTIFY frame; args are encoded pairs.
func vsymMessage(name string, args ...[]byte) []byte {
	return vsymCat(append([][]byte{vsymStr(name), {byte(len(args))}}, args...)...)
}

// vsymAck is the ACK with the given actions.
func vsymAck(stream, id uint64, actions ...[]byte) []byte {
	return vsymFrame(103, 1, stream, id, actions...)
}

// vsymSetVar is a set-var action with a number.
func vsymSetVar(scope byte, name string, v int64) []byte {
	return vsymCat([]byte{1, 3, scope}, vsymStr(name), []byte{4}, vsym.RefVarint(uint64(v)))
}

// vsymFrames cuts what was written to a connection into frames; rest is what
// remains.
func vsymFrames(out []byte) (frames [][]byte, rest []byte) {
	for len(out) >= 4 {
		n := int(uint32(out[0])<<24|uint32(out[1])<<16|uint32(out[2])<<8|uint32(out[3])) + 4
		if n < 4 || n > len(out) {
			break
		}
		frames = append(frames, out[:n])
		out = out[n:]
	}
	return frames, out
}

// vsymReplies are the frames behind the AGENT-HELLO of a session.
func vsymReplies(c *vsymConn) [][]byte {
	frames, rest := vsymFrames(c.out)
	vsym.Assert(len(rest) == 0, "torn frame on the wire")
	vsym.Assert(len(frames) > 0 && frames[0][4] == 101, "no AGENT-HELLO")
	return frames[1:]
}

// vsymMessages says whether b is a list of complete messages, and gives their
// number and names.
func vsymMessages(b []byte) (names []byte, n int, ok bool) {
	for vsym.Fork(len(b) > 0) {
		l, a := vsym.RefDecode(b)
		if vsym.Fork(a <= 0 || l >= uint64(len(b)-a)) {
			return names, n, false
		}
		names = vsymCat(names, b[:a+int(l)])
		b = b[a+int(l):]
		count := b[0]
		b = b[1:]
		n++
		for ; vsym.Fork(count > 0); count-- {
			// an entry takes at least two bytes
			used := vsymKV(b)
			if vsym.Fork(used < 0) {
				return names, n, false
			}
			b = b[used:]
		}
	}
	return names, n, true
}

// vsymKV is the length of the pair at the start of b, -1 if there is none.
func vsymKV(b []byte) int {
	l, n := vsym.RefDecode(b)
	if vsym.Fork(n <= 0 || l >= uint64(len(b)-n)) {
		return -1
	}
	pos := n + int(l)
	t := b[pos] & 15
	pos++
	rest := len(b) - pos
	switch {
	case vsym.Fork(t <= 1):
		return pos
	case vsym.Fork(t <= 5):
		_, n := vsym.RefDecode(b[pos:])
		if n <= 0 {
			return -1
		}
		return pos + n
	case vsym.Fork(t == 6):
		if rest < 4 {
			return -1
		}
		return pos + 4
	case vsym.Fork(t == 7):
		if rest < 16 {
			return -1
		}
		return pos + 16
	case vsym.Fork(t <= 9):
		l, n := vsym.RefDecode(b[pos:])
		if vsym.Fork(n <= 0 || l > uint64(rest-n)) {
			return -1
		}
		return pos + n + int(l)
	}
	return -1
}

// vsymSink takes what is written to it, up to failAt bytes if that is not
// negative.
type vsymSink struct {
	out    []byte
	failAt int
	failed bool
}

var vsymSinkErr = errors.New("sink is full")

func (s *vsymSink) Write(p []byte) (int, error) {
	vsym.Assert(!s.failed, "write behind a failed one")
	if s.failAt >= 0 && len(s.out)+len(p) > s.failAt {
		n := s.failAt - len(s.out)
		s.out = append(s.out, p[:n]...)
		s.failed = true
		return n, vsymSinkErr
	}
	s.out = append(s.out, p...)
	return len(p), nil
}
