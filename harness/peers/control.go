package peers

import (
	"context"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// Any messages that are neither definitions nor updates: replies are exactly
// the prescribed ones and exactly the others end the session.
//
//vsym C26 name:control quick:msgs=2,len=2 thorough:msgs=3,len=5 sync expect:sync,accepted,error,unknownclass,unknowntype time:150/500
func VSym_Control() {
	in := []byte(vsymHello)
	var reply []byte
	dead := false
	for i := 0; i < vsym.Param("msgs", 2) && !dead; i++ {
		class := vsym.U8("class")
		typ := vsym.U8("type")
		in = append(in, class, typ)
		if vsym.Fork(typ >= 128) {
			p := vsym.Bytes("payload", vsym.Choose("len", vsym.Param("len", 2)+1))
			in = append(in, byte(len(p)))
			in = append(in, p...)
		}
		switch {
		case vsym.Fork(class == 0):
			switch {
			case vsym.Fork(typ == 0):
				reply = append(reply, 0, 2)
				vsym.Cover("sync")
			case vsym.Fork(typ <= 4):
				vsym.Cover("accepted")
			default:
				dead = true
				vsym.Cover("unknowntype")
			}
		case vsym.Fork(class == 10):
			vsym.Assume(typ != 0x80 && typ != 0x81 && typ != 0x82 && typ != 0x85 && typ != 0x86) // C20
			if vsym.Fork(typ == 0x83 || typ == 0x84) {
				vsym.Cover("accepted")
			} else {
				dead = true
				vsym.Cover("unknowntype")
			}
		case vsym.Fork(class == 1):
			dead = true
			vsym.Cover("error")
		default:
			dead = true
			vsym.Cover("unknownclass")
		}
	}
	// a live session answers, a dead one does not
	in = append(in, 0, 0)
	if !dead {
		reply = append(reply, 0, 2)
	}
	conn := vsymNewConn(in)
	conn.end = nil
	h := &vsymHandler{}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(len(h.calls) == 1, "handler call for a message that is no update")
	vsym.AssertEqBytes(conn.out, append([]byte("200\n"), reply...), "bytes written")
	vsym.Assert((h.closed == 1) == dead && conn.isClosed() == dead, "session ended although the message is accepted, or survives an error")
}

// Synchronisation requests that arrive while updates are being pushed.
//
//vsym C26 name:busy quick:msgs=2,preempt=2 thorough:msgs=3,preempt=3 sync stress expect:sync,before,between time:60/300
func VSym_ControlBusy() {
	conn := vsymNewConn([]byte(vsymHello))
	conn.end = nil
	conn.feed = make(chan []byte)
	conn.slow = true
	var w *Writer
	h := &vsymHandler{onHello: func(ctx context.Context) { w = WriterFromContext(ctx) }}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	e := vsymMakeEntry(0, []int{1}, 0, true)
	requests, n := 0, vsym.Param("msgs", 2)
	var in [][]byte
	for i := 0; i < n; i++ {
		if vsym.Choose("message", 2) == 0 {
			in = append(in, []byte{0, 0})
			requests++
			vsym.Cover("sync")
		} else {
			in = append(in, []byte{0, 4})
		}
	}
	vsym.Explore(vsym.Param("preempt", 2))
	go func() {
		vsym.Assert(w.SendTableSwitch(1) == nil, "sending fails")
		vsym.Assert(w.SendEntry(e.e) == nil, "sending fails")
	}()
	for _, m := range in {
		conn.feed <- m
	}
	vsym.Settle()
	replies, pushed := 0, 0
	for _, m := range vsymSplit(conn.out) {
		switch {
		case m[0] == 10:
			pushed++
			if replies > 0 && pushed == 2 {
				vsym.Cover("between")
			}
		default:
			vsym.Assert(len(m) == 2 && m[0] == 0 && m[1] == 2, "message that is no reply")
			replies++
			if pushed < 2 {
				vsym.Cover("before")
			}
		}
	}
	vsym.Assert(pushed == 2, "pushed messages")
	vsym.Assert(replies == requests, "number of partial-synchronisation messages")
	vsym.Assert(len(h.calls) == 1 && h.closed == 0 && !conn.isClosed(), "session ended or handler called")
}
