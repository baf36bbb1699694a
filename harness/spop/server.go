package spop

import (
	"context"
	"errors"
	"net"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymGate is a listener that may fail.
type vsymGate struct {
	conns  chan net.Conn
	fail   chan error
	closed chan struct{}
	shut   bool
}

var vsymAcceptErr = errors.New("out of descriptors")

func (l *vsymGate) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case err := <-l.fail:
		return nil, err
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *vsymGate) Close() error {
	if !l.shut {
		l.shut = true
		close(l.closed)
	}
	return nil
}

func (l *vsymGate) Addr() net.Addr { return vsymGateAddr{} }

type vsymGateAddr struct{}

func (vsymGateAddr) Network() string { return "vsym" }
func (vsymGateAddr) String() string  { return "gate:1" }

type vsymClient struct {
	conn  *vsymConn
	ctx   context.Context
	held  chan struct{} // the handler waits for it
	calls int
	sent  int
	part  int // how much of the hello is sent, if not all
}

// An agent that serves any number of sessions while the listener works, until
// its listener fails or its base context ends.
//
//vsym C35 name:agent quick:cpus=2,steps=5 thorough:cpus=2,steps=7 sync expect:served,behind,base,failed,after,default,unread,silent time:60/400
func VSym_AgentLifecycle() {
	l := &vsymGate{conns: make(chan net.Conn), fail: make(chan error), closed: make(chan struct{})}
	var clients []*vsymClient
	a := &Agent{}
	a.Handler = HandlerFunc(func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		k := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(k)
		vsym.Assert(m.KV.Next(k), "argument of a message")
		c := clients[k.ValueInt()]
		c.calls++
		c.ctx = ctx
		if c.held != nil {
			<-c.held
		}
	})
	var cancel context.CancelFunc
	if vsym.Choose("base", 2) == 1 {
		a.BaseContext, cancel = context.WithCancel(context.Background())
	} else {
		vsym.Cover("default")
	}
	var result error
	over, ended, failed := false, false, false
	stuck := -1
	go func() {
		result = a.Serve(l)
		over = true
	}()
	vsym.Settle()
	vsym.Assert(a.Addr == "gate:1", "address of the agent")
	for i := 0; i < vsym.Param("steps", 4); i++ {
		switch op := vsym.Choose("step", 5); op {
		case 0: // a client connects
			if over || len(clients) == 2 {
				continue
			}
			in := vsymHelloFrame(16380)
			c := &vsymClient{part: len(in)}
			silent := stuck < 0 && vsym.Choose("silent", 2) == 1
			if silent {
				stuck = len(clients)
				c.part = vsym.Choose("part of the hello", 2) * 6
			}
			c.conn = vsymNewConn(in[:c.part])
			c.conn.end = nil
			c.conn.feed = make(chan []byte)
			clients = append(clients, c)
			l.conns <- c.conn
			vsym.Settle()
			if silent {
				vsym.Assert(len(c.conn.out) == 0, "answer to half a HELLO")
				vsym.Cover("silent")
				break
			}
			frames, rest := vsymFrames(c.conn.out)
			vsym.Assert(len(frames) == 1 && len(rest) == 0 && frames[0][4] == 101, "client gets no AGENT-HELLO")
			if stuck >= 0 {
				vsym.Cover("behind")
			}
		case 1, 2: // a client sends a NOTIFY, its handler may get stuck
			if len(clients) == 0 || ended {
				continue
			}
			n := vsym.Choose("client", len(clients))
			c := clients[n]
			if op == 2 {
				if stuck >= 0 {
					continue
				}
				stuck = n
				if vsym.Choose("reason", 2) == 1 {
					c.conn.hold = make(chan struct{}) // the client does not read
					vsym.Cover("unread")
				} else {
					c.held = make(chan struct{})
				}
			} else if stuck == n {
				continue
			} else if stuck >= 0 {
				vsym.Cover("behind")
			}
			c.sent++
			c.conn.feed <- vsymFrame(3, 1, uint64(c.sent), 1, vsymMessage("m", vsymKVU32("n", uint32(n))))
			vsym.Settle()
			if op == 1 {
				vsym.AssertEqBytes(vsymReplies(c.conn)[c.sent-1], vsymAck(uint64(c.sent), 1), "ACK")
				vsym.Cover("served")
				if failed {
					vsym.Cover("after")
				}
			}
			vsym.Assert(c.calls == c.sent, "NOTIFY is not served")
		case 3: // the base context ends
			if cancel == nil || ended {
				continue
			}
			cancel()
			ended = true
			vsym.Settle()
			vsym.Assert(l.shut || failed, "listener stays open behind the base context")
			vsym.Cover("base")
		case 4: // the listener fails
			if over {
				continue
			}
			l.fail <- vsymAcceptErr
			failed = true
			vsym.Settle()
			vsym.Cover("failed")
		}
		vsym.Assert(over == (ended || failed), "Serve returns early or not at all")
		vsym.Assert(!over || result != nil, "Serve returns no error")
		vsym.Assert(!failed || errors.Is(result, vsymAcceptErr) || ended, "error of the listener is lost")
		for _, c := range clients {
			vsym.Assert(c.ctx == nil || (c.ctx.Err() != nil) == ended, "context of a session")
			vsym.Assert(ended || !c.conn.isClosed(), "connection of a session is closed")
		}
	}
	if stuck >= 0 {
		// the waiting reply is sent when its handler is done
		c := clients[stuck]
		if in := vsymHelloFrame(16380); c.part < len(in) {
			if !ended {
				c.conn.feed <- in[c.part:]
				vsym.Settle()
				frames, rest := vsymFrames(c.conn.out)
				vsym.Assert(len(frames) == 1 && len(rest) == 0 && frames[0][4] == 101, "late client gets no AGENT-HELLO")
			}
			return
		}
		if c.held != nil {
			close(c.held)
		} else {
			close(c.conn.hold)
		}
		vsym.Settle()
		vsym.Assert(ended || len(vsymReplies(c.conn)) == c.sent, "ACK of the slow handler")
	}
}
