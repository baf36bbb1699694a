package peers

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// A session that ends for one or several reasons, possibly at the same time.
//
//vsym C27 name:ends quick:preempt=2 thorough:preempt=3 sync stress expect:eof,error,cut,protocol,quiet,writefail,busy,update,alive time:200/600
func VSym_Teardown() {
	conn := vsymNewConn(append([]byte(vsymHello), vsymDef(1, "t", 2, 4, 2, 5)...))
	conn.feed = make(chan []byte)
	upd := vsymMsg(10, 0x80, vsymBE32(1), vsymBE32(2), []byte{3})
	h := &vsymHandler{}
	busy := time.Duration(vsym.Choose("busy", 2))
	if busy > 0 {
		busy = time.Duration(vsym.Int("time", 1, 6*vsymSec))
	}
	h.onUpdate = func(context.Context) {
		if busy > 0 {
			time.Sleep(busy)
		}
	}
	before := vsym.Goroutines()
	vsymServe(nil, nil)
	vsym.Settle()
	idle := vsym.Goroutines() // with what serving without any session takes
	idle += idle - before
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	if vsym.Choose("writes", 2) == 1 {
		conn.failAt = len(conn.out)
		vsym.Cover("writefail")
	}
	at := time.Duration(vsym.Int("at", 0, 6*vsymSec))
	if busy > 0 {
		conn.feed <- upd
		vsym.Cover("busy")
	}
	reasons := 6
	if conn.failAt > 0 {
		reasons = 7
	}
	reason := vsym.Choose("reason", reasons)
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	go func() {
		time.Sleep(at)
		send := func(b []byte) {
			select {
			case conn.feed <- b:
			case <-conn.closed:
			}
		}
		switch reason {
		case 0:
			send(nil)
			vsym.Cover("eof")
		case 1:
			conn.end = errors.New("broken")
			send(nil)
			vsym.Cover("error")
		case 2:
			send([]byte{10, 0x80, 9, 1})
			send(nil)
			vsym.Cover("cut")
		case 3:
			send([]byte{77, 1})
			vsym.Cover("protocol")
		case 4:
			vsym.Cover("quiet")
		case 5:
			send(append(append([]byte{0, 0}, upd...), 0, 0))
			conn.end = io.ErrUnexpectedEOF
			send(nil)
			vsym.Cover("update")
		case 6: // only the failing heartbeats end the session
			for i := 0; i < 3; i++ {
				send([]byte{0, 4})
				time.Sleep(4 * time.Second)
			}
			vsym.Cover("alive")
		}
	}()
	time.Sleep(18*time.Second + time.Millisecond)
	vsym.Settle()
	vsym.Assert(h.closed == 1, "handler is not closed exactly once")
	vsym.Assert(conn.isClosed(), "connection is not closed")
	vsym.Assert(h.ctx.Err() != nil, "context is not cancelled")
	for _, c := range h.calls {
		vsym.Assert(!c.afterStop, "handler is called after it was closed")
	}
	vsym.Assert(vsym.Goroutines() == idle, "goroutines of the session do not end with it")
	calls, closes, tries := len(h.calls), conn.nclose, conn.tries
	time.Sleep(20 * time.Second)
	vsym.Settle()
	vsym.Assert(len(h.calls) == calls && h.closed == 1, "handler is used after the end of the session")
	vsym.Assert(conn.nclose == closes && conn.tries == tries, "timers outlive the session")
}

// The handshake fails.
//
//vsym C27 name:handshake quick:preempt=1 thorough:preempt=2 sync expect:malformed,eof,writefail time:60/200
func VSym_TeardownHandshake() {
	var in []byte
	switch vsym.Choose("input", 3) {
	case 0:
		in = []byte("HAProxyS 2.1\nlocal\nremote x y\n")
		vsym.Cover("malformed")
	case 1:
		in = []byte(vsymHello)[:vsym.Choose("cut", len(vsymHello))]
		vsym.Cover("eof")
	case 2:
		in = []byte(vsymHello)
	}
	conn := vsymNewConn(in)
	if len(in) == len(vsymHello) {
		conn.failAt = 1 + vsym.Choose("fail", 3)
		vsym.Cover("writefail")
	}
	h := &vsymHandler{}
	before := vsym.Goroutines()
	vsymServe(nil, nil)
	vsym.Settle()
	idle := vsym.Goroutines() // with what serving without any session takes
	idle += idle - before
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(h.closed == 1, "handler is not closed exactly once")
	vsym.Assert(conn.isClosed(), "connection is not closed")
	for _, c := range h.calls {
		vsym.Assert(!c.afterStop, "handler is called after it was closed")
	}
	vsym.Assert(vsym.Goroutines() == idle, "goroutines of the session do not end with it")
	closes, tries := conn.nclose, conn.tries
	time.Sleep(20 * time.Second)
	vsym.Settle()
	vsym.Assert(conn.nclose == closes && conn.tries == tries && h.closed == 1, "timers outlive the session")
}
