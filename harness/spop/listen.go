package spop

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymTalk sends in to a client connection and returns n bytes of the reply: on
// the prepared connection or, in the compiled code, on a real one.
type vsymTalk struct {
	fake *vsymConn
	real net.Conn
	pos  int
}

func vsymDial(l *vsymGate, addr string) *vsymTalk {
	t := &vsymTalk{}
	if vsym.Symbolic() {
		t.fake = vsymNewConn(nil)
		t.fake.feed = make(chan []byte)
		l.conns <- t.fake
		return t
	}
	for i := 0; ; i++ {
		var err error
		if t.real, err = net.Dial("tcp", addr); err == nil {
			return t
		}
		vsym.Assert(i < 200, "nothing listens")
		time.Sleep(10 * time.Millisecond)
	}
}

func (t *vsymTalk) say(in []byte, n int) []byte {
	if t.fake != nil {
		t.fake.feed <- in
		vsym.Settle()
		vsym.Assert(len(t.fake.out) >= t.pos+n, "no reply")
		t.pos += n
		return t.fake.out[t.pos-n : t.pos]
	}
	_ = t.real.SetDeadline(time.Now().Add(5 * time.Second))
	out := make([]byte, n)
	_, err := t.real.Write(in)
	vsym.Assert(err == nil, "no connection")
	_, err = io.ReadFull(t.real, out)
	vsym.Assert(err == nil, "no reply")
	return out
}

// An agent listens at the address it is given, serves there until it is told to
// stop or accepting fails, and reports that it cannot listen.
//
//vsym C35 name:agentlisten quick:cpus=2 thorough:cpus=2 expect:refused,served,stopped,failed time:30/60
func VSym_AgentListen() {
	how := vsym.Choose("how", 3)
	fail := vsym.Choose("fail", 2) == 1
	l := &vsymGate{conns: make(chan net.Conn), fail: make(chan error), closed: make(chan struct{})}
	addr := "127.0.0.1:9999"
	refused := errors.New("address in use")
	vsym.OnListen(func(network, at string) (net.Listener, error) {
		vsym.Assert(network == "tcp" && at == addr, "address to listen at")
		if fail {
			return nil, refused
		}
		return l, nil
	})
	if !vsym.Symbolic() {
		real, err := net.Listen("tcp", "127.0.0.1:0")
		vsym.Assert(err == nil, "no free port")
		addr = real.Addr().String()
		if fail {
			defer real.Close()
		} else {
			_ = real.Close()
		}
	}
	h := HandlerFunc(func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		vsym.Assert(ctx.Value(vsymGateAddr{}) == nil == (how != 2), "context of the handler")
		_ = w.SetInt64(encoding.VarScopeSession, "n", int64(len(m.NameBytes())))
	})
	base, cancel := context.WithCancel(context.WithValue(context.Background(), vsymGateAddr{}, 1))
	defer cancel()
	ended := make(chan error, 1)
	go func() {
		switch how {
		case 0:
			ended <- ListenAndServe(addr, h)
		case 1:
			ended <- (&Agent{Addr: addr, Handler: h}).ListenAndServe()
		case 2:
			ended <- (&Agent{Addr: addr, Handler: h, BaseContext: base}).ListenAndServe()
		}
	}()
	if fail {
		err := <-ended
		vsym.Assert(err != nil, "listening fails silently")
		vsym.Assert(!vsym.Symbolic() || errors.Is(err, refused), "error of listening")
		vsym.Cover("refused")
		return
	}
	c := vsymDial(l, addr)
	hello := vsymFrame(101, 1, 0, 0, vsymKVStr("version", "2.0"), vsymKVU32("max-frame-size", 16380), vsymKVStr("capabilities", ""))
	vsym.AssertEqBytes(c.say(vsymHelloFrame(16380), len(hello)), hello, "AGENT-HELLO")
	ack := vsymAck(3, 4, vsymSetVar(1, "n", 2))
	vsym.AssertEqBytes(c.say(vsymFrame(3, 1, 3, 4, vsymMessage("me")), len(ack)), ack, "ACK")
	select {
	case <-ended:
		vsym.Assert(false, "ends while the listener works")
	default:
	}
	vsym.Cover("served")
	if how == 2 {
		cancel()
		vsym.Assert(<-ended != nil, "no error although the agent was stopped")
		vsym.Assert(!vsym.Symbolic() || l.shut, "listener stays open")
		vsym.Cover("stopped")
	} else if vsym.Symbolic() {
		l.fail <- vsymAcceptErr
		vsym.Assert(errors.Is(<-ended, vsymAcceptErr), "error of the listener")
		vsym.Settle()
		vsym.Assert(l.shut, "listener stays open")
		vsym.Cover("failed")
	}
}
