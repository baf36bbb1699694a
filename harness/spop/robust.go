package spop

import (
	"context"
	"errors"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymBad is an agent with a healthy session next to one that misbehaves.
type vsymBad struct {
	agent *vsymAgent
	good  *vsymConn
	bad   *vsymConn
	hurt  func(w *encoding.ActionWriter, m *encoding.Message) // on messages other than "ok"
}

func vsymMakeBad(hello []byte) *vsymBad {
	b := &vsymBad{}
	b.good = vsymNewConn(vsymHelloFrame(16380))
	b.good.feed = make(chan []byte)
	b.bad = vsymNewConn(hello)
	b.bad.feed = make(chan []byte)
	b.agent = vsymServe(nil, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		if string(m.NameBytes()) == "ok" {
			_ = w.SetInt64(encoding.VarScopeSession, "v", 7)
			return
		}
		b.hurt(w, m)
	}, b.good, b.bad)
	b.hurt = func(w *encoding.ActionWriter, m *encoding.Message) {
		k := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(k)
		for m.KV.Next(k) {
			_ = w.SetInt64(encoding.VarScopeSession, "x", int64(len(k.NameBytes())))
		}
	}
	vsym.Settle()
	return b
}

// send gives bytes to the session that misbehaves.
func (b *vsymBad) send(in []byte) {
	select {
	case b.bad.feed <- in:
	case <-b.bad.closed:
	}
	vsym.Settle()
}

// vsymServed checks that a session is served.
func vsymServed(c *vsymConn) {
	stream := vsym.U64("stream")
	vsym.Assume(stream < 240)
	vsym.Assert(!c.isClosed(), "healthy session is ended")
	c.out = nil
	select {
	case c.feed <- vsymFrame(3, 1, stream, 2, vsymMessage("ok")):
	default:
		vsym.Assert(false, "agent does not read from a session any more")
	}
	vsym.Settle()
	vsym.Assert(!c.isClosed(), "healthy session is ended")
	vsym.AssertEqBytes(c.out, vsymAck(stream, 2, vsymSetVar(1, "v", 7)), "ACK of a well-formed NOTIFY")
}

// check that the agent serves all sessions.
func (b *vsymBad) check() {
	frames, rest := vsymFrames(b.bad.out)
	vsym.Assert(len(rest) == 0, "torn frame")
	for _, f := range frames {
		vsym.Assert(f[4] == 101 || f[4] == 102 || f[4] == 103, "frame of an unknown type")
	}
	select {
	case <-b.agent.end:
		vsym.Assert(false, "agent stops")
	default:
	}
	vsymServed(b.good)
	if !b.bad.isClosed() && len(b.bad.in) == 0 {
		vsym.Cover("open")
		vsymServed(b.bad)
	} else {
		vsym.Cover("ended")
	}
	if vsym.Choose("new", 2) == 1 {
		c := vsymNewConn(vsymHelloFrame(16380))
		c.feed = make(chan []byte)
		b.agent.connect(c)
		vsym.Settle()
		vsymServed(c)
		vsym.Cover("new")
	}
}

// Frames of any type with any payload, more of them than there are workers.
//
//vsym C11 name:frames quick:cpus=1,len=5 thorough:cpus=1,len=8 sync expect:open,ended,new time:120/400
//vsym C11 name:workers quick:cpus=2,len=3 thorough:cpus=4,len=4 sync expect:open,ended,new time:60/400
func VSym_BadFrames() {
	b := vsymMakeBad(vsymHelloFrame(16380))
	typ := vsym.U8("type")
	payload := vsym.Bytes("payload", vsym.Int("len", 0, vsym.Param("len", 5)))
	flags := vsym.U32("flags")
	f := vsymFrame(typ, flags, 3, 4, payload)
	cpus := vsym.Param("cpus", 1)
	for i := 0; i < 3*cpus+1; i++ {
		b.send(f)
	}
	acks := 0
	frames, _ := vsymFrames(b.bad.out)
	for _, f := range frames {
		if f[4] == 103 {
			acks++
		}
	}
	_, _, ok := vsymMessages(payload)
	vsym.Assert(acks == 0 || ok && vsym.Fork(typ == 3), "ACK of a malformed frame")
	if acks == 0 {
		vsym.Assert(!ok || vsym.Fork(typ != 3 || flags != 1), "no ACK of a well-formed frame")
	}
	if vsym.Fork(typ == 2) {
		b.bad.in = []byte{0} // the client said that it is done
	}
	b.check()
}

// Raw bytes instead of frames, with the end of the stream behind them.
//
//vsym C11 name:stream quick:cpus=1,len=9 thorough:cpus=1,len=14 sync expect:ended,new time:100/400
func VSym_BadStream() {
	hello := []byte(nil)
	if vsym.Choose("hello", 2) == 1 {
		hello = vsymHelloFrame(300)
	}
	b := vsymMakeBad(hello)
	b.send(vsym.Bytes("bytes", vsym.Int("len", 1, vsym.Param("len", 9))))
	switch vsym.Choose("end", 3) {
	case 1:
		b.bad.end = errors.New("broken")
		b.send(nil)
	case 2:
		b.send(nil)
	case 0:
		b.bad.in = []byte{0} // do not check this session
	}
	b.check()
}

// Handlers that panic with any kind of value, after some actions and messages.
//
//vsym C11 name:panic quick:cpus=1,msgs=3 thorough:cpus=2,msgs=4 sync expect:open,new,panic,fine time:100/400
func VSym_HandlerPanic() {
	b := vsymMakeBad(vsymHelloFrame(16380))
	idx := vsym.U64("index")
	kind := vsym.Choose("kind", 8)
	ok := false
	b.hurt = func(w *encoding.ActionWriter, m *encoding.Message) {
		_ = w.SetInt64(encoding.VarScopeSession, "part", 1)
		if string(m.NameBytes()) != "bad" {
			return
		}
		k := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(k)
		switch kind {
		case 0:
			panic("text")
		case 1:
			panic(errors.New("error"))
		case 2:
			panic(context.Canceled)
		case 3:
			var p map[string]int
			p["x"] = 1
		case 4:
			list := make([]int, 3)
			list[idx%8] = 1 // some indices are valid
			ok = true
		case 5:
			var p *encoding.Message
			_ = p.NameBytes()
		case 6:
			for m.KV.Next(k) {
				_ = k.ValueAddr() // of something else than an address
			}
			ok = true
		case 7:
			panic(struct{ a []int }{nil})
		}
	}
	n := 1 + vsym.Choose("messages", vsym.Param("msgs", 3))
	at := vsym.Choose("place", n)
	args := [][]byte{vsymKVStr("k", "value"), vsymKVU32("n", 5)}
	args = args[:vsym.Choose("args", 3)]
	var list []byte
	for i := 0; i < n; i++ {
		name := "fine"
		if i == at {
			name = "bad"
		}
		list = vsymCat(list, vsymMessage(name, args...))
	}
	cpus := vsym.Param("cpus", 1)
	b.bad.out = nil
	for i := 0; i < 3*cpus+1; i++ {
		b.send(vsymFrame(3, 1, 3, 4, list))
	}
	frames, rest := vsymFrames(b.bad.out)
	vsym.Assert(len(rest) == 0, "torn frame")
	if ok {
		vsym.Assert(len(frames) == 3*cpus+1, "no ACK although no handler panics")
		vsym.Cover("fine")
	} else {
		for _, f := range frames {
			vsym.Assert(f[4] != 103, "ACK although the handler panics")
		}
		vsym.Cover("panic")
	}
	b.check()
}

// Handlers that panic in several frames of several sessions at the same time.
//
//vsym C11 name:parallel quick:cpus=2,preempt=1 thorough:cpus=2,preempt=3 sync stress expect:open time:100/400
func VSym_PanicParallel() {
	b := vsymMakeBad(vsymHelloFrame(16380))
	b.hurt = func(w *encoding.ActionWriter, m *encoding.Message) {
		_ = w.SetInt64(encoding.VarScopeSession, "part", 1)
		panic("text")
	}
	if vsym.Choose("pools", 2) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	f := vsymFrame(3, 1, 3, 4, vsymMessage("bad"))
	b.bad.feed <- vsymCat(f, f, f)
	b.good.feed <- f
	vsym.Settle()
	b.bad.out, b.good.out = nil, nil
	vsym.Explore(0)
	b.check()
}

// Writing to a session fails, also in the middle of a frame.
//
//vsym C11 name:writes quick:cpus=1 thorough:cpus=2 sync expect:failed,new time:60/400
func VSym_WriteFails() {
	b := vsymMakeBad(vsymHelloFrame(16380))
	b.bad.out = nil
	b.bad.failAt = vsym.Int("from", 1, 60)
	cpus := vsym.Param("cpus", 1)
	for i := 0; i < 3*cpus+1; i++ {
		b.send(vsymFrame(3, 1, 3, 4, vsymMessage("m", vsymKVU32("k", 5), vsymKVU32("l", 5))))
	}
	vsym.Cover("failed")
	b.bad.out = nil
	if !b.bad.isClosed() {
		b.bad.in = []byte{0}
	}
	b.check()
}

// Many sessions that end in the same way, one after the other, and many bad
// frames on one session, use up nothing.
//
//vsym C11 name:exhaust quick:cpus=1,times=140,steps=9000000 thorough:cpus=2,times=600,steps=60000000 sync expect:sessions,frames,served time:60/300
func VSym_Exhaust() {
	b := vsymMakeBad(vsymHelloFrame(16380))
	b.hurt = func(w *encoding.ActionWriter, m *encoding.Message) {
		_ = w.SetInt64(encoding.VarScopeSession, "part", 1)
		panic("text")
	}
	good := vsymFrame(3, 1, 3, 4, vsymMessage("ok"))
	panics := vsymFrame(3, 1, 3, 4, vsymMessage("bad", vsymKVStr("k", "value")))
	cut := vsymFrame(3, 1, 3, 4, vsymMessage("ok")[:2])
	big := vsymMessage("ok")
	for i := 0; i < 6; i++ {
		big = vsymCat(big, big)
	}
	times := vsym.Param("times", 140)
	if vsym.Choose("what", 2) == 1 {
		f := [][]byte{panics, cut, vsymFrame(77, 1, 0, 0, nil), vsymFrame(3, 0, 3, 4, vsymMessage("ok"))}[vsym.Choose("frame", 4)]
		for i := 0; i < times; i++ {
			b.send(f)
		}
		vsym.Cover("frames")
		b.bad.in = []byte{0} // it may have ended
	} else {
		how := vsym.Choose("how", 9)
		for i := 0; i < times; i++ {
			hello := vsymHelloFrame(300)
			switch how {
			case 0:
				hello = nil // nothing
			case 1:
				hello = hello[:9]
			case 2:
				hello = vsymFrame(1, 1, 0, 0, vsymKVStr("supported-versions", "2.0"))
			}
			c := vsymNewConn(hello)
			c.feed = make(chan []byte)
			if how == 3 {
				c.failAt = 5
			}
			b.agent.connect(c)
			vsym.Settle()
			b2 := vsymBad{bad: c}
			switch how {
			case 4:
				b2.send(panics)
			case 5:
				b2.send(vsymFrame(3, 1, 3, 4, big)) // its ACK does not fit
			case 6:
				b2.send(vsymFrame(2, 1, 0, 0, vsymCat(vsymKVU32("status-code", 0), vsymKVStr("message", "bye"))))
			case 7:
				b2.send(vsymCat(good, good[:7]))
			case 8:
				b2.send([]byte{255, 255, 255, 255})
			}
			c.end = errors.New("reset")
			b2.send(nil)
			vsym.Assert(c.isClosed(), "connection of an ended session stays open")
		}
		vsym.Cover("sessions")
	}
	b.check()
	vsym.Cover("served")
}
