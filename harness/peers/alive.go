package peers

import (
	"context"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// vsymBeats checks that heartbeats are at most three seconds apart from the
// start of the session until the given time, and that nothing else was sent.
func vsymBeats(conn *vsymConn, start, until time.Duration, others int) {
	last := start
	n := 0
	for _, w := range conn.writes {
		if len(w.b) == 2 && w.b[0] == 0 && w.b[1] == 4 {
			vsym.Assert(w.at-last <= 3*time.Second+10*time.Millisecond, "heartbeat is late")
			last = w.at
			vsym.Cover("heartbeat")
		} else {
			n++
		}
	}
	vsym.Assert(until-last <= 3*time.Second+10*time.Millisecond, "heartbeat is missing")
	vsym.Assert(n == others, "number of other messages")
}

// A peer that sends messages less than five seconds apart and then nothing.
//
//vsym C25 name:silence quick:msgs=3 thorough:msgs=6 sync expect:heartbeat,ended,message time:100/400
func VSym_Silence() {
	conn := vsymNewConn([]byte(vsymHello))
	conn.feed = make(chan []byte)
	h := &vsymHandler{}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	start := vsym.Now()
	n := vsym.Choose("messages", vsym.Param("msgs", 2)+1)
	replies := 1 // the status
	updates := 0
	for i := 0; i < n; i++ {
		time.Sleep(time.Duration(vsym.Int("gap", 0, 4990*vsymMilli)))
		vsym.Assert(h.closed == 0 && !conn.isClosed(), "session is ended although the peer is alive")
		switch vsym.Choose("message", 4) {
		case 0:
			conn.feed <- []byte{0, 4}
		case 1:
			conn.feed <- []byte{0, 0}
			replies++
		case 2:
			conn.feed <- vsymDef(1, "t", 2, 4, 2, 5)
		case 3:
			conn.feed <- append(vsymDef(1, "t", 2, 4, 2, 5), vsymMsg(10, 0x80, vsymBE32(1), vsymBE32(2), []byte{3})...)
			updates++
		}
		vsym.Settle()
		vsym.Cover("message")
	}
	vsym.Assert(h.ctx.Err() == nil, "context of a live session is cancelled")
	time.Sleep(4990 * time.Millisecond)
	vsym.Settle()
	vsym.Assert(h.closed == 0 && !conn.isClosed(), "session is ended before five seconds of silence")
	vsymBeats(conn, start, vsym.Now(), replies)
	time.Sleep(20 * time.Millisecond)
	vsym.Settle()
	vsym.Assert(h.closed == 1, "handler of a silent session is not closed")
	vsym.Assert(conn.isClosed(), "connection of a silent session is not closed")
	vsym.Assert(h.ctx.Err() != nil, "context of a silent session is not cancelled")
	vsym.Assert(len(h.calls) == 1+updates, "number of handler calls")
	vsym.Cover("ended")
}

// The time that the handler takes is no silence of the peer, and heartbeats are
// sent meanwhile.
//
//vsym C25 name:slow quick:sec=20,more=2 thorough:sec=60,more=2 sync expect:heartbeat,ended,queued time:100/400
func VSym_SlowHandler() {
	conn := vsymNewConn([]byte(vsymHello))
	conn.feed = make(chan []byte)
	sec := vsym.Param("sec", 20) * vsymSec
	h := &vsymHandler{}
	h.onUpdate = func(ctx context.Context) {
		time.Sleep(time.Duration(vsym.Int("duration", 0, sec)))
		vsym.Assert(ctx.Err() == nil, "session is ended while the handler is busy")
	}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	start := vsym.Now()
	conn.feed <- vsymDef(1, "t", 2, 4, 2, 5)
	time.Sleep(time.Duration(vsym.Int("gap", 0, 4990*vsymMilli)))
	upd := vsymMsg(10, 0x80, vsymBE32(1), vsymBE32(2), []byte{3})
	conn.feed <- upd
	n := vsym.Choose("more", vsym.Param("more", 1)+1)
	for i := 0; i < n; i++ {
		conn.feed <- upd // taken up when the handler is done
		vsym.Cover("queued")
	}
	for len(h.calls) < 2+n || h.busy {
		time.Sleep(time.Second)
		vsym.Settle()
		vsym.Assert(h.closed == 0 && !conn.isClosed(), "session is ended because the handler is slow")
	}
	// the handler was done less than a second ago
	time.Sleep(3990 * time.Millisecond)
	vsym.Settle()
	vsym.Assert(h.closed == 0 && !conn.isClosed() && h.ctx.Err() == nil, "session is ended early after a slow handler")
	vsymBeats(conn, start, vsym.Now(), 1)
	time.Sleep(1020 * time.Millisecond)
	vsym.Settle()
	vsym.Assert(h.closed == 1 && conn.isClosed() && h.ctx.Err() != nil, "silent session is not ended after a slow handler")
	vsym.Cover("ended")
}

// Heartbeats keep coming on a session that the peer keeps up, whatever the
// handler sends.
//
//vsym C25 name:beats quick:n=6 thorough:n=9 sync expect:heartbeat,pushed time:100/400
func VSym_Heartbeats() {
	conn := vsymNewConn([]byte(vsymHello))
	conn.feed = make(chan []byte)
	var w *Writer
	h := &vsymHandler{onHello: func(ctx context.Context) { w = WriterFromContext(ctx) }}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	start := vsym.Now()
	sent := 1
	for i := 0; i < vsym.Param("n", 4); i++ {
		if vsym.Choose("push", 2) == 1 {
			gap := vsym.Int("gap", 0, 4990*vsymMilli)
			time.Sleep(time.Duration(gap))
			vsym.Assert(w.SendTableSwitch(1) == nil, "sending fails")
			sent++
			time.Sleep(4990*time.Millisecond - time.Duration(gap))
			vsym.Cover("pushed")
		} else {
			time.Sleep(4990 * time.Millisecond)
		}
		vsym.Settle()
		vsym.Assert(h.closed == 0 && !conn.isClosed(), "session is ended although the peer is alive")
		conn.feed <- []byte{0, 4}
		vsym.Settle()
	}
	vsymBeats(conn, start, vsym.Now(), sent)
}
