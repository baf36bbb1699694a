package spop

import (
	"io"
	"net"
	"os"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// vsymConn is one connection of a remote peer: it delivers prepared input and
// records what is written to it.
type vsymConn struct {
	in     []byte
	cuts   []int // positions at which a read ends
	onebyt bool  // every read returns a single byte
	end    error // what follows the input; nil: reads block until the connection is closed

	out    []byte
	closed chan struct{}
	nclose int
	feed   chan []byte // further input, nil if none
	wait   bool        // a read waits for further input
	writes []vsymWrite
	tries  int           // calls of Write
	slow   bool          // a write is taken up in parts
	failAt int           // writes fail from this offset on, if positive
	once   bool          // only one write fails
	hold   chan struct{} // writes wait for it if it is not nil

	rdl, wdl vsymDeadline
}

// vsymDeadline is the time at which reads or writes give up.
type vsymDeadline struct {
	timer  *time.Timer
	passed chan struct{}
}

func (d *vsymDeadline) set(t time.Time) {
	if d.timer != nil && !d.timer.Stop() {
		d.passed = nil // it has passed
	}
	d.timer = nil
	ch := d.passed
	if ch == nil {
		ch = make(chan struct{})
		d.passed = ch
	}
	if t.IsZero() {
		return
	}
	d.timer = time.AfterFunc(time.Until(t), func() { close(ch) })
}

func (d *vsymDeadline) stop() {
	if d.timer != nil {
		d.timer.Stop()
	}
}

func (d *vsymDeadline) isOver() bool {
	select {
	case <-d.passed:
		return true
	default:
		return false
	}
}

type vsymWrite struct {
	b  []byte
	at time.Duration
}

func vsymNewConn(in []byte) *vsymConn {
	c := &vsymConn{in: in, end: io.EOF, closed: make(chan struct{})}
	c.rdl.passed, c.wdl.passed = make(chan struct{}), make(chan struct{})
	return c
}

func (c *vsymConn) isClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

func (c *vsymConn) Read(p []byte) (int, error) {
	if c.isClosed() {
		return 0, net.ErrClosed
	}
	if c.rdl.timer != nil && c.rdl.isOver() {
		return 0, os.ErrDeadlineExceeded
	}
	if len(c.in) == 0 && c.feed != nil {
		c.wait = true
		select {
		case c.in = <-c.feed:
			c.wait = false
		case <-c.closed:
			return 0, net.ErrClosed
		case <-c.rdl.passed:
			return 0, os.ErrDeadlineExceeded
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		if c.end == nil {
			select {
			case <-c.closed:
				return 0, net.ErrClosed
			case <-c.rdl.passed:
				return 0, os.ErrDeadlineExceeded
			}
		}
		return 0, c.end
	}
	n := len(c.in)
	if len(c.cuts) > 0 {
		if c.cuts[0] < n && c.cuts[0] > 0 {
			n = c.cuts[0]
		}
		c.cuts = c.cuts[1:]
	}
	if c.onebyt {
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *vsymConn) Write(p []byte) (int, error) {
	c.tries++
	if c.hold != nil {
		select {
		case <-c.hold:
		case <-c.closed:
		case <-c.wdl.passed:
		}
	}
	if c.isClosed() {
		return 0, net.ErrClosed
	}
	if c.wdl.timer != nil && c.wdl.isOver() {
		return 0, os.ErrDeadlineExceeded
	}
	if c.failAt > 0 && len(c.out)+len(p) > c.failAt {
		n := c.failAt - len(c.out)
		if n < 0 {
			n = 0
		}
		c.out = append(c.out, p[:n]...)
		if c.once {
			c.failAt = 0
		}
		return n, io.ErrClosedPipe
	}
	c.writes = append(c.writes, vsymWrite{append([]byte(nil), p...), vsym.Now()})
	if c.slow && len(p) > 1 {
		c.out = append(c.out, p[:1]...)
		vsym.Yield()
		if c.isClosed() {
			return 1, net.ErrClosed
		}
		c.out = append(c.out, p[1:]...)
		vsym.Yield()
		return len(p), nil
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *vsymConn) Close() error {
	c.nclose++
	if c.nclose == 1 {
		close(c.closed)
		c.rdl.stop()
		c.wdl.stop()
	}
	return nil
}

func (c *vsymConn) Network() string      { return "vsym" }
func (c *vsymConn) String() string       { return "vsym" }
func (c *vsymConn) LocalAddr() net.Addr  { return c }
func (c *vsymConn) RemoteAddr() net.Addr { return c }

func (c *vsymConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *vsymConn) SetReadDeadline(t time.Time) error {
	if c.isClosed() {
		return net.ErrClosed
	}
	c.rdl.set(t)
	return nil
}

func (c *vsymConn) SetWriteDeadline(t time.Time) error {
	if c.isClosed() {
		return net.ErrClosed
	}
	c.wdl.set(t)
	return nil
}

// segment chooses how the input of at most max bytes is split into reads.
func (c *vsymConn) segment(max int) {
	ways := 3
	if max > 1000 {
		ways = 2
	}
	switch vsym.Choose("segmentation", ways) {
	case 1:
		c.cuts = []int{vsym.Int("cut", 1, max)}
	case 2:
		c.onebyt = true
	}
}
