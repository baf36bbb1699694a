package peers

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vsymTalk sends in to a client connection and returns n bytes of the reply: on
// the prepared connection or, in the compiled code, on a real one.
type vsymTalk struct {
	fake *vsymConn
	real net.Conn
	pos  int
}

func vsymDial(l *vsymGate, addr string) *vsymTalk {
	t := &vsymTalk{}
	if vsym.Symbolic() {
		t.fake = vsymNewConn(nil)
		t.fake.feed = make(chan []byte)
		l.conns <- t.fake
		return t
	}
	for i := 0; ; i++ {
		var err error
		if t.real, err = net.Dial("tcp", addr); err == nil {
			return t
		}
		vsym.Assert(i < 200, "nothing listens")
		time.Sleep(10 * time.Millisecond)
	}
}

func (t *vsymTalk) say(in []byte, n int) []byte {
	if t.fake != nil {
		t.fake.feed <- in
		time.Sleep(10 * time.Millisecond)
		vsym.Settle()
		vsym.Assert(len(t.fake.out) >= t.pos+n, "no reply")
		t.pos += n
		return t.fake.out[t.pos-n : t.pos]
	}
	_ = t.real.SetDeadline(time.Now().Add(5 * time.Second))
	out := make([]byte, n)
	_, err := t.real.Write(in)
	vsym.Assert(err == nil, "no connection")
	_, err = io.ReadFull(t.real, out)
	vsym.Assert(err == nil, "no reply")
	return out
}

// vsymFull is a handler with more than a function.
type vsymFull struct {
	HandlerFunc
	hellos chan string
}

func (h *vsymFull) HandleHandshake(_ context.Context, s *Handshake) {
	h.hellos <- s.LocalPeerIdentifier
}

// A peer listens at the address it is given, serves there until it is told to
// stop or accepting fails, and reports that it cannot listen. The handler may
// be a function.
//
//vsym C35 name:peerlisten quick: thorough: expect:refused,served,stopped,failed,both time:30/60
func VSym_PeerListen() {
	how := vsym.Choose("how", 5)
	fail := vsym.Choose("fail", 2) == 1
	l := &vsymGate{conns: make(chan net.Conn), fail: make(chan error), closed: make(chan struct{})}
	addr := "127.0.0.1:9999"
	refused := errors.New("address in use")
	vsym.OnListen(func(network, at string) (net.Listener, error) {
		vsym.Assert(network == "tcp" && at == addr, "address to listen at")
		if fail {
			return nil, refused
		}
		return l, nil
	})
	if !vsym.Symbolic() {
		real, err := net.Listen("tcp", "127.0.0.1:0")
		vsym.Assert(err == nil, "no free port")
		addr = real.Addr().String()
		if fail {
			defer real.Close()
		} else {
			_ = real.Close()
		}
	}
	keys := make(chan sticktable.SignedIntegerKey, 2)
	inside := 0
	fn := HandlerFunc(func(ctx context.Context, e *sticktable.EntryUpdate) {
		vsym.Assert(ctx.Value(vsymGateAddr{}) == nil == (how < 2), "context of the handler")
		vsym.Assert(Connection(ctx) != nil && WriterFromContext(ctx) != nil, "connection of the handler")
		inside++
		vsym.Assert(inside == 1, "handler is called for an update while it handles another")
		time.Sleep(time.Millisecond)
		inside--
		keys <- *e.Key.(*sticktable.SignedIntegerKey)
	})
	full := &vsymFull{HandlerFunc: fn, hellos: make(chan string, 1)}
	h := Handler(full)
	if how%2 == 1 {
		h = fn
	}
	base, cancel := context.WithCancel(context.WithValue(context.Background(), vsymGateAddr{}, 1))
	defer cancel()
	ended := make(chan error, 1)
	go func() {
		switch how {
		case 0:
			ended <- ListenAndServe(addr, h)
		case 1:
			ended <- (&Peer{Addr: addr, Handler: h}).ListenAndServe()
		case 2:
			ended <- (&Peer{Addr: addr, Handler: h, BaseContext: base}).ListenAndServe()
		case 3:
			ended <- (&Peer{Addr: addr, HandlerSource: func() Handler { return h }, BaseContext: base}).ListenAndServe()
		case 4:
			ended <- (&Peer{Addr: addr, Handler: h, HandlerSource: func() Handler { return h }}).ListenAndServe()
		}
	}()
	if fail {
		err := <-ended
		vsym.Assert(err != nil, "listening fails silently")
		vsym.Assert(!vsym.Symbolic() || errors.Is(err, refused), "error of listening")
		vsym.Cover("refused")
		return
	}
	if how == 4 { // it is not clear which handler to use
		vsym.Assert(<-ended != nil, "two handlers are accepted")
		if vsym.Symbolic() {
			vsym.Assert(l.shut, "listener stays open")
		} else {
			again, err := net.Listen("tcp", addr)
			vsym.Assert(err == nil, "listener stays open")
			_ = again.Close()
		}
		vsym.Cover("both")
		return
	}
	c := vsymDial(l, addr)
	vsym.AssertEqBytes(c.say([]byte(vsymHello), 4), []byte("200\n"), "status")
	n := vsym.Int("key", 0, 100)
	in := []byte{10, 0x82, 7, 1, 1, 't', 2, 4, 0, 5, 10, 0x80, 8, 0, 0, 0, 1, 0, 0, 0, byte(n), 10, 0x80, 8, 0, 0, 0, 2, 0, 0, 0, 101, 0, 0}
	vsym.AssertEqBytes(c.say(in, 2), []byte{0, 2}, "reply to the synchronisation request")
	vsym.Assert(int(<-keys) == n && <-keys == 101, "key")
	if how%2 == 0 {
		vsym.Assert(<-full.hellos == "remote", "handshake")
	}
	select {
	case <-ended:
		vsym.Assert(false, "ends while the listener works")
	default:
	}
	vsym.Cover("served")
	if how >= 2 {
		cancel()
		vsym.Assert(<-ended != nil, "no error although the peer was stopped")
		vsym.Assert(!vsym.Symbolic() || l.shut, "listener stays open")
		vsym.Cover("stopped")
	} else if vsym.Symbolic() {
		l.fail <- vsymAcceptErr
		vsym.Assert(errors.Is(<-ended, vsymAcceptErr), "error of the listener")
		vsym.Settle()
		vsym.Assert(l.shut, "listener stays open")
		vsym.Cover("failed")
	}
}
