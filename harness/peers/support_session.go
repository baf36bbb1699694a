package peers

import (
	"context"
	"net"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

const (
	vsymMilli = int(time.Millisecond)
	vsymSec   = int(time.Second)
)

// vsymListener hands prepared connections to Peer.Serve.
type vsymListener struct {
	conns chan net.Conn
	done  chan struct{}
}

func (l *vsymListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *vsymListener) Close() error   { return nil }
func (l *vsymListener) Addr() net.Addr { return &vsymConn{} }

type vsymCall struct {
	hello     *Handshake
	e         *sticktable.EntryUpdate
	def       *sticktable.Definition
	afterStop bool
	outAt     int // bytes on the wire at the time of the call
}

// vsymHandler records the calls of one session.
type vsymHandler struct {
	conn     *vsymConn
	calls    []vsymCall
	closed   int
	ctx      context.Context
	onHello  func(context.Context)
	onUpdate func(context.Context)
	busy     bool // a call is in progress
	overlap  bool // Close was called while another call was in progress
}

func (h *vsymHandler) HandleUpdate(ctx context.Context, e *sticktable.EntryUpdate) {
	h.busy = true
	h.ctx = ctx
	c := vsymCall{e: e, def: e.StickTable, afterStop: h.closed > 0}
	if h.conn != nil {
		c.outAt = len(h.conn.out)
	}
	h.calls = append(h.calls, c)
	if h.onUpdate != nil {
		h.onUpdate(ctx)
	}
	h.busy = false
}

func (h *vsymHandler) HandleHandshake(ctx context.Context, hs *Handshake) {
	h.busy = true
	h.ctx = ctx
	c := vsymCall{hello: hs, afterStop: h.closed > 0}
	if h.conn != nil {
		c.outAt = len(h.conn.out)
	}
	h.calls = append(h.calls, c)
	if h.onHello != nil {
		h.onHello(ctx)
	}
	h.busy = false
}

func (h *vsymHandler) Close() error {
	h.closed++
	if h.busy {
		h.overlap = true
	}
	return nil
}

// vsymServe runs a peer with a handler per connection.
func vsymServe(base context.Context, hs []*vsymHandler, conns ...*vsymConn) {
	l := &vsymListener{conns: make(chan net.Conn), done: make(chan struct{})}
	next := 0
	p := &Peer{BaseContext: base, HandlerSource: func() Handler {
		h := hs[next]
		next++
		return h
	}}
	go func() { _ = p.Serve(l) }()
	for i, c := range conns {
		hs[i].conn = c
		l.conns <- c
	}
}

const vsymHello = "HAProxyS 2.1\nlocal\nremote 12 3\n"

// vsymMsg is a peer message.
func vsymMsg(class, typ byte, payload ...[]byte) []byte {
	out := []byte{class, typ}
	if typ < 128 {
		return out
	}
	n := 0
	for _, p := range payload {
		n += len(p)
	}
	out = append(out, vsym.RefVarint(uint64(n))...)
	for _, p := range payload {
		out = append(out, p...)
	}
	return out
}

func vsymBE32(v uint32) []byte {
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// vsymDef is a table definition message.
func vsymDef(id byte, name string, keyType, keyLen byte, dataBits uint64, expiry byte, params ...byte) []byte {
	return vsymMsg(10, 0x82, []byte{id, byte(len(name))}, []byte(name), []byte{keyType, keyLen}, vsym.RefVarint(dataBits), []byte{expiry}, params)
}

func vsymSendSwitch(id uint64) func(context.Context) {
	return func(ctx context.Context) {
		vsym.Assert(WriterFromContext(ctx).SendTableSwitch(id) == nil, "sending fails")
	}
}

// vsymSplit cuts what was written to a connection into messages.
func vsymSplit(out []byte) (msgs [][]byte) {
	vsym.Assert(len(out) >= 4 && string(out[:4]) == "200\n", "status is missing or torn")
	out = out[4:]
	for len(out) > 0 {
		vsym.Assert(len(out) >= 2, "message is torn")
		n := 2
		if out[1] >= 128 {
			l, used := vsym.RefDecode(out[2:])
			vsym.Assert(used > 0 && uint64(len(out)-2-used) >= l, "message is torn")
			n = 2 + used + int(l)
		}
		msgs = append(msgs, out[:n])
		out = out[n:]
	}
	return
}

// vsymPush runs a session whose handler uses its writer.
func vsymPush(use func(conn *vsymConn, w *Writer)) *vsymConn {
	conn := vsymNewConn([]byte(vsymHello))
	conn.end = nil
	done := false
	h := &vsymHandler{onHello: func(ctx context.Context) {
		use(conn, WriterFromContext(ctx))
		done = true
	}}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(done, "sending blocks or panics")
	return conn
}
