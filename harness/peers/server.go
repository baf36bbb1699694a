package peers

import (
	"context"
	"errors"
	"net"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vsymGate is a listener that may fail.
type vsymGate struct {
	conns  chan net.Conn
	fail   chan error
	closed chan struct{}
	shut   bool
}

var vsymAcceptErr = errors.New("out of descriptors")

func (l *vsymGate) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case err := <-l.fail:
		return nil, err
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *vsymGate) Close() error {
	if !l.shut {
		l.shut = true
		close(l.closed)
	}
	return nil
}

func (l *vsymGate) Addr() net.Addr { return vsymGateAddr{} }

type vsymGateAddr struct{}

func (vsymGateAddr) Network() string { return "vsym" }
func (vsymGateAddr) String() string  { return "gate:1" }

type vsymClient struct {
	conn   *vsymConn
	ctx    context.Context
	held   chan struct{} // the handler waits for it
	hellos int
	calls  int
	sent   int
	silent bool // the hello is not complete
	part   int
}

func (c *vsymClient) HandleHandshake(ctx context.Context, h *Handshake) {
	c.hellos++
	c.ctx = ctx
}

func (c *vsymClient) HandleUpdate(ctx context.Context, e *sticktable.EntryUpdate) {
	c.calls++
	if c.held != nil {
		<-c.held
	}
}

func (c *vsymClient) Close() error { return nil }

// A peer that serves any number of sessions while the listener works, until its
// listener fails or its base context ends.
//
//vsym C35 name:peer quick:steps=5 thorough:steps=7 sync expect:served,behind,base,failed,after,default,unread,silent time:60/400
func VSym_PeerLifecycle() {
	l := &vsymGate{conns: make(chan net.Conn), fail: make(chan error), closed: make(chan struct{})}
	var clients []*vsymClient
	var next *vsymClient
	a := &Peer{HandlerSource: func() Handler { return next }}
	var cancel context.CancelFunc
	if vsym.Choose("base", 2) == 1 {
		a.BaseContext, cancel = context.WithCancel(context.Background())
	} else {
		vsym.Cover("default")
	}
	var result error
	over, ended, failed := false, false, false
	stuck := -1
	go func() {
		result = a.Serve(l)
		over = true
	}()
	vsym.Settle()
	vsym.Assert(a.Addr == "gate:1", "address of the peer")
	for i := 0; i < vsym.Param("steps", 4); i++ {
		switch op := vsym.Choose("step", 5); op {
		case 0: // a client connects
			if over || len(clients) == 2 {
				continue
			}
			in := append([]byte(vsymHello), vsymDef(1, "t", 2, 4, 2, 5)...)
			silent := stuck < 0 && vsym.Choose("silent", 2) == 1
			if silent {
				stuck = len(clients)
				in = in[:vsym.Choose("part of the hello", 2)*10]
			}
			c := &vsymClient{conn: vsymNewConn(in), silent: silent, part: len(in)}
			c.conn.end = nil
			c.conn.feed = make(chan []byte)
			clients = append(clients, c)
			next = c
			l.conns <- c.conn
			vsym.Settle()
			if silent {
				vsym.Assert(c.hellos == 0 && len(c.conn.out) == 0, "answer to half a hello")
				vsym.Cover("silent")
				break
			}
			vsym.Assert(c.hellos == 1, "hello is not reported")
			vsym.AssertEqBytes(c.conn.out, []byte("200\n"), "status")
			if stuck >= 0 {
				vsym.Cover("behind")
			}
		case 1, 2: // a client sends an update, its session may get stuck
			if len(clients) == 0 || ended {
				continue
			}
			n := vsym.Choose("client", len(clients))
			c := clients[n]
			if op == 2 {
				if stuck >= 0 {
					continue
				}
				stuck = n
				if vsym.Choose("reason", 2) == 1 {
					// the client does not read
					c.conn.hold = make(chan struct{})
					c.conn.feed <- []byte{0, 0}
					vsym.Settle()
					vsym.Cover("unread")
					break
				}
				c.held = make(chan struct{})
			} else if stuck == n {
				continue
			} else if stuck >= 0 {
				vsym.Cover("behind")
			}
			c.sent++
			c.conn.feed <- vsymMsg(10, 0x80, vsymBE32(uint32(c.sent)), vsymBE32(vsym.U32("key")), []byte{3})
			vsym.Settle()
			vsym.Assert(c.calls == c.sent, "update is not served")
			if op == 1 {
				vsym.Cover("served")
				if failed {
					vsym.Cover("after")
				}
			}
		case 3: // the base context ends
			if cancel == nil || ended {
				continue
			}
			cancel()
			ended = true
			vsym.Settle()
			vsym.Assert(l.shut || failed, "listener stays open behind the base context")
			vsym.Cover("base")
		case 4: // the listener fails
			if over {
				continue
			}
			l.fail <- vsymAcceptErr
			failed = true
			vsym.Settle()
			vsym.Cover("failed")
		}
		vsym.Assert(over == (ended || failed), "Serve returns early or not at all")
		vsym.Assert(!over || result != nil, "Serve returns no error")
		vsym.Assert(!failed || errors.Is(result, vsymAcceptErr) || ended, "error of the listener is lost")
		for _, c := range clients {
			vsym.Assert(c.ctx == nil && c.silent || (c.ctx.Err() != nil) == ended, "context of a session")
			vsym.Assert(ended || !c.conn.isClosed(), "connection of a session is closed")
		}
	}
	if stuck >= 0 {
		c := clients[stuck]
		if c.silent {
			if !ended {
				c.conn.feed <- []byte(vsymHello)[c.part:]
				vsym.Settle()
				vsym.Assert(c.hellos == 1, "late hello is not reported")
				vsym.AssertEqBytes(c.conn.out, []byte("200\n"), "status")
			}
		} else if c.held != nil {
			close(c.held)
		} else {
			close(c.conn.hold)
			vsym.Settle()
			vsym.AssertEqBytes(c.conn.out, []byte("200\n\x00\x02"), "reply to a slow client")
		}
	}
}
