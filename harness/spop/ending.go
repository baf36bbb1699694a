package spop

import (
	"context"
	"errors"
	"io"
	"syscall"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymKeep is an agent whose handler keeps the contexts it gets; messages
// named "hold" wait for the gate.
type vsymKeep struct {
	agent *vsymAgent
	ctxs  map[byte]context.Context // by the number of the session
	gate  chan bool
	calls int
}

func vsymKeeper(base context.Context, conns ...*vsymConn) *vsymKeep {
	k := &vsymKeep{ctxs: map[byte]context.Context{}, gate: make(chan bool)}
	k.agent = vsymServe(base, func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		name := m.NameBytes()
		k.calls++
		vsym.Assert(len(name) == 2, "name of the message")
		if have := k.ctxs[name[0]]; have == nil {
			k.ctxs[name[0]] = ctx
		} else {
			vsym.Assert((have.Err() == nil) == (ctx.Err() == nil), "contexts of one session differ")
		}
		if name[1] == 'h' {
			<-k.gate
		}
	}, conns...)
	return k
}

// closing are the AGENT-DISCONNECT frames among the replies of a session.
func vsymClosing(c *vsymConn) int {
	n := 0
	frames, rest := vsymFrames(c.out)
	vsym.Assert(len(frames) > 0 && frames[0][4] == 101, "no AGENT-HELLO")
	for i, f := range frames[1:] {
		vsym.Assert(len(f) > 10, "frame without a header")
		if f[4] == 102 {
			vsym.Assert(i == len(frames)-2 && len(rest) == 0, "frame behind the AGENT-DISCONNECT")
			n++
		} else {
			vsym.Assert(f[4] == 103, "unexpected frame on the wire")
		}
	}
	vsym.Assert(n <= 1, "more than one AGENT-DISCONNECT")
	return n
}

// vsymGone checks what holds for a session that the client has left.
func (k *vsymKeep) gone(i byte, c *vsymConn) {
	vsym.Assert(c.isClosed(), "connection is not closed although reading from the client ended")
	vsymClosing(c)
	if ctx := k.ctxs[i]; ctx != nil {
		vsym.Assert(ctx.Err() != nil, "context is not cancelled although the session is over")
		select {
		case <-ctx.Done():
		default:
			vsym.Assert(false, "context is not done although the session is over")
		}
	}
}

func (k *vsymKeep) live(i byte, c *vsymConn) {
	vsym.Assert(!c.isClosed(), "connection is closed although the session goes on")
	vsym.Assert(k.ctxs[i] != nil, "handler is not called")
	vsym.Assert(k.ctxs[i].Err() == nil, "context is cancelled although the session goes on")
}

// vsymLeave is a well-formed HAPROXY-DISCONNECT.
func vsymLeave(code uint32) []byte {
	status, message := vsymKVU32("status-code", code), vsymKVStr("message", "bye")
	if vsym.Choose("order", 2) == 1 {
		status, message = message, status
	}
	return vsymFrame(2, 1, 0, 0, status, message)
}

// Two sessions of an agent; one of them ends at a time, in some way, with or
// without a handler at work.
//
//vsym C15 name:ends quick:cpus=4,preempt=0 thorough:cpus=4,preempt=1 sync stress expect:eof,torn,reset,error,large,disconnect,base,hello,busy time:100/400
func VSym_Ends() {
	conns := []*vsymConn{vsymNewConn(vsymHelloFrame(1000)), vsymNewConn(vsymHelloFrame(1000))}
	for _, c := range conns {
		c.feed = make(chan []byte)
		c.slow = true
	}
	base, cancel := context.WithCancel(context.Background())
	defer cancel()
	k := vsymKeeper(base, conns...)
	vsym.Settle()
	for round := 0; round < 2; round++ {
		for i, c := range conns {
			c.feed <- vsymFrame(3, 1, 7, uint64(round), vsymMessage(string([]byte{byte(i), 'n'})))
			vsym.Settle()
			k.live(byte(i), c)
		}
	}
	vsym.Assert(k.calls == 4, "handler is not called once for each message")
	if vsym.Choose("busy", 2) == 1 {
		vsym.Cover("busy")
		conns[0].feed <- vsymFrame(3, 1, 7, 9, vsymMessage(string([]byte{0, 'h'})))
		vsym.Settle()
		k.live(0, conns[0])
	}
	reason := vsym.Choose("reason", 7)
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 0))
	go func() {
		select {
		case k.gate <- true:
		case <-k.ctxs[0].Done():
			close(k.gate)
		}
	}()
	c := conns[0]
	switch reason {
	case 0:
		c.feed <- nil
		vsym.Cover("eof")
	case 1:
		frame := vsymFrame(3, 1, 7, 1, vsymMessage("xy"))
		c.feed <- frame[:vsym.Int("cut", 1, len(frame)-1)]
		c.feed <- nil
		vsym.Cover("torn")
	case 2:
		c.end = syscall.ECONNRESET
		c.feed <- nil
		vsym.Cover("reset")
	case 3:
		c.end = errors.New("broken")
		c.feed <- nil
		vsym.Cover("error")
	case 4:
		c.feed <- vsymBE32(1001)
		vsym.Cover("large")
	case 5:
		c.feed <- vsymLeave(uint32(vsym.U64("code")))
		vsym.Settle()
		vsym.Assert(k.ctxs[0].Err() != nil, "context is not cancelled although the client disconnected")
		if !c.isClosed() {
			c.feed <- nil
		}
		vsym.Cover("disconnect")
	case 6:
		cancel()
		vsym.Settle()
		vsym.Assert(k.ctxs[0].Err() != nil && k.ctxs[1].Err() != nil, "context is not cancelled although the base context ended")
		for _, c := range conns {
			if !c.isClosed() {
				c.feed <- nil
			}
		}
		vsym.Settle()
		k.gone(0, conns[0])
		k.gone(1, conns[1])
		vsym.Cover("base")
		return
	}
	vsym.Settle()
	k.gone(0, c)
	n := c.tries
	// the other session is not affected
	k.live(1, conns[1])
	conns[1].feed <- vsymFrame(3, 1, 7, 3, vsymMessage(string([]byte{1, 'n'})))
	vsym.Settle()
	k.live(1, conns[1])
	vsym.Assert(vsymClosing(conns[1]) == 0 && len(vsymReplies(conns[1])) == 3, "other session is not served")
	// a new one starts with a context of its own
	c = vsymNewConn(vsymHelloFrame(1000))
	c.feed = make(chan []byte)
	k.agent.connect(c)
	vsym.Settle()
	c.feed <- vsymFrame(3, 1, 7, 3, vsymMessage(string([]byte{2, 'n'})))
	vsym.Settle()
	k.live(2, c)
	vsym.Assert(conns[0].tries == n, "session is written to after its end")
	vsym.Cover("hello")
}

// A session that the stream of the client ends anywhere, also in the first
// frame; several frames may be on their way.
//
//vsym C15 name:cut quick:cpus=2,notify=2,preempt=0 thorough:cpus=2,notify=2,preempt=1 sync expect:none,some,all,left time:60/300
func VSym_EndCut() {
	code := vsym.U32("code")
	in := vsymHelloFrame(1000)
	hello := len(in)
	for i := 0; i < vsym.Param("notify", 2); i++ {
		in = vsymCat(in, vsymFrame(3, 1, 7, uint64(i), vsymMessage("\x00n")))
	}
	notify := len(in)
	in = vsymCat(in, vsymLeave(code))
	n := vsym.Int("length", 0, len(in))
	switch vsym.Choose("place", 4) {
	case 0:
		vsym.Assume(n < hello)
	case 1:
		vsym.Assume(n >= hello && n < notify)
	case 2:
		vsym.Assume(n >= notify && n < len(in))
	case 3:
		n = len(in)
	}
	conn := vsymNewConn(in[:n])
	switch vsym.Choose("end", 3) {
	case 1:
		conn.end = syscall.ECONNRESET
	case 2:
		conn.end = errors.New("broken")
	}
	vsym.Explore(vsym.Param("preempt", 0))
	k := vsymKeeper(nil, conn)
	vsym.Settle()
	vsym.Assert(conn.isClosed(), "connection is not closed although reading from the client ended")
	if len(conn.out) > 0 && vsym.Fork(n >= hello) {
		k.gone(0, conn)
		vsym.Cover("some")
	} else {
		vsym.Assert(k.calls == 0, "handler is called without a session")
		vsym.Cover("none")
	}
	if n == len(in) {
		vsym.Cover("all")
		if k.calls == vsym.Param("notify", 2) {
			vsym.Cover("left")
		}
	}
}

// The result of a session that the client ends with any status.
//
//vsym C15 name:status quick:cpus=2 thorough:cpus=2 sync expect:normal,io,timeout,other,early
func VSym_EndStatus() {
	code := vsym.U32("code")
	conn := vsymNewConn(vsymHelloFrame(1000))
	conn.feed = make(chan []byte)
	base, cancel := context.WithCancel(context.Background())
	defer cancel()
	var got context.Context
	pc := newProtocolClient(base, conn, newAsyncScheduler(), HandlerFunc(func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		got = ctx
	}))
	end := make(chan error, 1)
	go func() { end <- pc.Serve() }()
	vsym.Settle()
	conn.feed <- vsymFrame(3, 1, 7, 1, vsymMessage("m"))
	vsym.Settle()
	vsym.Assert(got != nil && got.Err() == nil, "context is not live")
	if vsym.Choose("early", 2) == 1 {
		// the client just goes
		vsym.Cover("early")
		if vsym.Choose("reset", 2) == 1 {
			conn.end = syscall.ECONNRESET
		}
		conn.feed <- nil
		err := <-end
		vsym.Assert(err == nil, "end of the stream is reported as an error")
		return
	}
	conn.feed <- vsymLeave(code)
	vsym.Settle()
	vsym.Assert(got.Err() != nil, "context is not cancelled although the client disconnected")
	var err error
	select {
	case err = <-end:
	default:
		conn.feed <- nil
		err = <-end
	}
	failed := err != nil && !errors.Is(err, got.Err()) && !errors.Is(err, io.EOF)
	switch {
	case vsym.Fork(code == 0):
		vsym.Cover("normal")
		vsym.Assert(!failed, "normal disconnect is reported as an error")
	case vsym.Fork(code == 1):
		vsym.Cover("io")
		vsym.Assert(!failed, "disconnect with an I/O error is reported as an error")
	case vsym.Fork(code == 2):
		vsym.Cover("timeout")
		vsym.Assert(!failed, "disconnect with a timeout is reported as an error")
	default:
		vsym.Cover("other")
		vsym.Assert(failed, "disconnect with an error is not reported")
	}
}

// A HAPROXY-DISCONNECT with any contents, then the end of the stream.
//
//vsym C15 name:malformed quick:cpus=2,length=6 thorough:cpus=2,length=9 expect:cancelled,kept time:60/300
func VSym_EndMalformed() {
	conn := vsymNewConn(vsymHelloFrame(1000))
	conn.feed = make(chan []byte)
	k := vsymKeeper(nil, conn)
	vsym.Settle()
	conn.feed <- vsymFrame(3, 1, 7, 1, vsymMessage("\x00n"))
	vsym.Settle()
	k.live(0, conn)
	n := vsym.Int("length", 0, vsym.Param("length", 6))
	body := vsym.Bytes("body", vsym.Param("length", 6))[:n]
	known := vsym.Choose("known", 3)
	frame := vsymFrame(2, 1, 0, 0)
	switch known {
	case 1:
		body = vsymCat(vsymStr("status-code"), body)
	case 2:
		body = vsymCat(vsymStr("message"), body)
	}
	frame = vsymCat(frame, body)
	frame = vsymCat(vsymBE32(uint32(len(frame)-4)), frame[4:])
	conn.feed <- frame
	vsym.Settle()
	if k.ctxs[0].Err() != nil {
		vsym.Cover("cancelled")
	} else {
		vsym.Cover("kept")
	}
	if !conn.isClosed() {
		conn.feed <- nil
		vsym.Settle()
	}
	k.gone(0, conn)
}

// Sessions that end leave no goroutines behind.
//
//vsym C15 name:goroutines quick:cpus=2,sessions=3 thorough:cpus=2,sessions=5 sync expect:eof,torn,reset,refused,check,large,disconnect,panic
func VSym_EndGoroutines() {
	agent := vsymServe(nil, func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		if m.NameBytes()[0] == 'p' {
			panic("handler")
		}
	})
	count := 0
	for i := 0; i < vsym.Param("sessions", 3); i++ {
		in := vsymCat(vsymHelloFrame(1000), vsymFrame(3, 1, 7, 1, vsymMessage("m")))
		end := io.EOF
		switch vsym.Choose("reason", 8) {
		case 0:
			vsym.Cover("eof")
		case 1:
			frame := vsymFrame(3, 1, 7, 1, vsymMessage("xy"))
			in = vsymCat(in, frame[:9])
			vsym.Cover("torn")
		case 2:
			end = syscall.ECONNRESET
			vsym.Cover("reset")
		case 3:
			in = vsymHelloFrame(100)
			vsym.Cover("refused")
		case 4:
			in = vsymFrame(1, 1, 0, 0, vsymKVU32("max-frame-size", 1000), vsymStr("healthcheck"), []byte{17})
			vsym.Cover("check")
		case 5:
			in = vsymCat(in, vsymBE32(1001))
			vsym.Cover("large")
		case 6:
			in = vsymCat(in, vsymFrame(2, 1, 0, 0, vsymKVU32("status-code", []uint32{0, 4}[vsym.Choose("code", 2)]), vsymKVStr("message", "bye")))
			vsym.Cover("disconnect")
		case 7:
			in = vsymCat(in, vsymFrame(3, 1, 7, 2, vsymMessage("p")))
			vsym.Cover("panic")
		}
		conn := vsymNewConn(in)
		conn.end = end
		agent.connect(conn)
		vsym.Settle()
		vsym.Assert(conn.isClosed(), "connection is not closed although reading from the client ended")
		n := vsym.Goroutines()
		// workers may be started on demand
		vsym.Assert(i < 2 || n <= count, "goroutines of a session do not end with it")
		if i == 0 || n > count {
			count = n
		}
	}
}
