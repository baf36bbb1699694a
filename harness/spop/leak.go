package spop

import (
	"context"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymSeen is what a handler sees of a frame.
type vsymSeen struct {
	log []byte
}

func (s *vsymSeen) bytes(b []byte) { s.log = vsymCat(s.log, vsymBE32(uint32(len(b))), b) }

func (s *vsymSeen) handle(w *encoding.ActionWriter, m *encoding.Message) {
	s.bytes(m.NameBytes())
	k := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(k)
	s.entry(k)
	for m.KV.Next(k) {
		s.entry(k)
	}
	s.entry(k)
	failed := byte(0)
	if m.KV.Error() != nil {
		failed = 1
	}
	s.bytes([]byte{failed})
	s.bytes(w.Bytes())
	_ = w.SetStringBytes(encoding.VarScopeSession, "name", m.NameBytes())
	_ = w.SetInt64(encoding.VarScopeSession, "int", k.ValueInt())
	_ = w.SetStringBytes(encoding.VarScopeSession, "val", k.ValueBytes())
}

func (s *vsymSeen) entry(k *encoding.KVEntry) {
	s.bytes(k.NameBytes())
	s.bytes(k.ValueBytes())
	v := uint64(k.ValueInt())
	s.bytes([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)})
	b := byte(k.Type()) * 2
	if k.ValueBool() {
		b++
	}
	s.bytes([]byte{b})
}

// A frame is handled in the same way when the agent is fresh and when other
// sessions used its buffers before.
//
//vsym C12 name:frames quick:cpus=1,len=5,other=1 thorough:cpus=1,len=7,other=1 sync expect:ack,none,replaced,same time:100/500
//vsym C12 name:pairs quick:cpus=1,len=3,other=2 thorough:cpus=1,len=5,other=3 sync expect:ack,none,replaced,same time:100/500
func VSym_Leak() {
	seen := &vsymSeen{}
	h := func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) { seen.handle(w, m) }
	a := vsymServe(nil, h)
	payload := vsym.Bytes("payload", vsym.Int("len", 0, vsym.Param("len", 5)))
	frame := vsymFrame(3, 1, 3, 4, payload)
	open := func(size uint32) *vsymConn {
		c := vsymNewConn(vsymHelloFrame(size))
		c.feed = make(chan []byte)
		a.connect(c)
		vsym.Settle()
		return c
	}
	send := func(c *vsymConn, f []byte) {
		select {
		case c.feed <- f:
		case <-c.closed:
		}
		vsym.Settle()
	}
	n := 1 + vsym.Choose("others", vsym.Param("other", 2))
	first, second := open(16380), open(16380)
	var more []*vsymConn
	for i := 0; i < n; i++ {
		more = append(more, open(300))
	}
	run := func(c *vsymConn) (out, log []byte, closed bool) {
		seen.log = nil
		c.out = nil
		send(c, frame)
		return c.out, seen.log, c.isClosed()
	}
	out, log, closed := run(first)
	if len(log) == 0 {
		vsym.Cover("none")
	} else {
		vsym.Cover("ack")
	}

	// other sessions with any data of their own
	secret := vsym.U8("secret")
	text := string([]byte{'s', secret, 'c', 'r', secret, 't', secret})
	long := vsymCat(
		vsymMessage(text, vsymKVStr(text, text+text), vsymKVU32(text, uint32(secret)+1000), vsymCat(vsymStr(text), []byte{17})),
		vsymMessage(text+text, vsymKVStr("ip", text), vsymCat(vsymStr(text), []byte{6, secret, 2, 3, secret})))
	others := [][]byte{
		vsymFrame(3, 1, 300+uint64(secret), 100000, long),
		vsymFrame(3, 1, 1, 2, long[:len(long)-3]), // malformed
		vsymFrame(3, 1, 1, 2, long, []byte{255, 255, 255}),
		vsymFrame(2, 1, 0, 0, vsymKVU32("status-code", 2), vsymKVStr("message", text)),
		vsymFrame(1, 1, 1, 2, vsymKVU32("max-frame-size", 260), vsymKVStr("engine-id", text), vsymCat(vsymStr("healthcheck"), []byte{17})),
	}
	for _, o := range more {
		send(o, others[vsym.Choose("other", len(others))])
		if vsym.Choose("close", 2) == 1 {
			_ = o.Close()
			vsym.Settle()
		}
	}
	vsym.Cover("replaced")

	out2, log2, closed2 := run(second)
	vsym.Assert(closed == closed2, "a session is ended or not, depending on others")
	vsym.AssertEqBytes(log2, log, "what the handler sees depends on other sessions")
	vsym.AssertEqBytes(out2, out, "what is sent depends on other sessions")
	vsym.Cover("same")
}

// Any bytes as a HELLO are handled in the same way when the agent is fresh and
// when other sessions used its buffers before.
//
//vsym C12 name:hello quick:cpus=1,len=4 thorough:cpus=1,len=6 sync expect:same,accepted time:100/500
func VSym_LeakHello() {
	h := func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {}
	a := vsymServe(nil, h)
	tail := vsym.Bytes("tail", vsym.Int("len", 0, vsym.Param("len", 4)))
	hello := vsymFrame(1, 1, 0, 0, tail)
	if vsym.Choose("size", 2) == 1 {
		hello = vsymFrame(1, 1, 0, 0, vsymKVU32("max-frame-size", 1000), tail)
	}
	run := func() (out []byte, closed bool) {
		c := vsymNewConn(hello)
		c.end = nil
		a.connect(c)
		vsym.Settle()
		out, closed = c.out, c.isClosed()
		_ = c.Close()
		vsym.Settle()
		return
	}
	out, closed := run()
	if !closed {
		vsym.Cover("accepted")
	}
	secret := vsym.U8("secret")
	text := string([]byte{'s', secret, 'c', 'r', secret, 't', secret})
	var o *vsymConn
	switch vsym.Choose("other", 3) {
	case 0: // a health check
		o = vsymNewConn(vsymFrame(1, 1, uint64(secret), 100000, vsymKVU32("max-frame-size", 260), vsymKVStr("engine-id", text), vsymCat(vsymStr("healthcheck"), []byte{17})))
	case 1: // a malformed HELLO
		o = vsymNewConn(vsymFrame(1, 1, 1, 2, vsymKVU32("max-frame-size", 260), vsymKVStr("engine-id", text), []byte{200, secret}))
	case 2:
		o = vsymNewConn(vsymCat(vsymHelloFrame(300), vsymFrame(3, 1, 300+uint64(secret), 100000, vsymMessage(text, vsymKVStr("max-frame-size", text)))))
	}
	o.end = nil
	a.connect(o)
	vsym.Settle()
	_ = o.Close()
	vsym.Settle()
	out2, closed2 := run()
	vsym.Assert(closed == closed2, "a session is ended or not, depending on others")
	vsym.AssertEqBytes(out2, out, "what is sent depends on other sessions")
	vsym.Cover("same")
}

// A frame that follows longer ones, in one session and with all workers busy.
//
//vsym C12 name:parallel quick:cpus=2,preempt=2 thorough:cpus=2,preempt=4 sync stress expect:same time:100/400
func VSym_LeakParallel() {
	conn := vsymNewConn(vsymHelloFrame(16380))
	conn.feed = make(chan []byte)
	conn.end = nil
	vals := []byte{vsym.U8("a"), vsym.U8("b"), vsym.U8("c")}
	arg := func(i int) string { return "value-of-an-argument"[:20-8*i] + string(vals[i:i+1]) }
	vsymServe(nil, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		k := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(k)
		vsym.Assert(m.KV.Next(k), "argument is missing")
		vsym.Yield()
		_ = w.SetStringBytes(encoding.VarScopeSession, string(m.NameBytes()), k.ValueBytes())
		vsym.Assert(!m.KV.Next(k) && m.KV.Error() == nil, "excess argument")
	}, conn)
	vsym.Settle()
	conn.out = nil
	if vsym.Choose("pools", 2) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	name := []string{"a-long-name", "middle", "n"}
	var in []byte
	for i := 0; i < 3; i++ {
		in = vsymCat(in, vsymFrame(3, 1, uint64(i), 9, vsymMessage(name[i], vsymKVStr("k", arg(i)))))
	}
	conn.feed <- in
	vsym.Settle()
	frames, rest := vsymFrames(conn.out)
	vsym.Assert(len(rest) == 0 && len(frames) == 3, "number of ACKs")
	for i := 0; i < 3; i++ {
		found := false
		for _, f := range frames {
			if f[9] == byte(i) {
				vsym.Assert(!found, "two ACKs of one frame")
				found = true
				vsym.AssertEqBytes(f, vsymAck(uint64(i), 9, vsymCat([]byte{1, 3, 1}, vsymStr(name[i]), []byte{8}, vsymStr(arg(i)))), "ACK")
			}
		}
		vsym.Assert(found, "no ACK of a frame")
	}
	vsym.Cover("same")
}
