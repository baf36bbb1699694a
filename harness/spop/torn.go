package spop

import (
	"context"
	"errors"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymWhole checks that what was written to a connection is a sequence of the
// expected ACKs, each at most once, and of at most one AGENT-DISCONNECT. Only
// the last frame may be cut, if the connection is closed or writing failed.
func vsymWhole(conn *vsymConn, acks [][]byte, cut bool) (n int, disconnected bool) {
	frames, rest := vsymFrames(conn.out)
	vsym.Assert(len(frames) > 0 && frames[0][4] == 101, "no AGENT-HELLO")
	used := make([]bool, len(acks))
	for _, f := range frames[1:] {
		vsym.Assert(len(f) > 10, "frame without a header")
		if f[4] == 102 {
			vsym.Assert(!disconnected, "more than one AGENT-DISCONNECT")
			vsym.AssertEqBytes(f[5:11], []byte{0, 0, 0, 1, 0, 0}, "flags and ids of the AGENT-DISCONNECT")
			disconnected = true
			continue
		}
		vsym.Assert(f[4] == 103 && int(f[10]) < len(acks) && !used[f[10]], "unexpected frame on the wire")
		used[f[10]] = true
		vsym.AssertEqBytes(f, acks[f[10]], "ACK on the wire")
		n++
	}
	if len(rest) == 0 {
		return
	}
	vsym.Cover("cut")
	vsym.Assert(cut, "frame is cut although the connection is open")
	if len(rest) > 10 && rest[4] == 103 {
		vsym.Assert(int(rest[10]) < len(acks) && !used[rest[10]] && len(rest) < len(acks[rest[10]]), "unexpected frame on the wire")
		vsym.AssertEqBytes(rest, acks[rest[10]][:len(rest)], "last frame on the wire")
	} else if len(rest) > 4 && rest[4] != 103 {
		vsym.Assert(rest[4] == 102 && !disconnected, "unexpected frame on the wire")
	}
	return
}

// Handlers that complete at the same time, also while the session ends.
//
//vsym C14 name:pairs quick:cpus=2,frames=2,preempt=1 thorough:cpus=2,frames=2,preempt=2 sync stress expect:open,eof,error,base,large,disconnect,other,all time:250/400
//vsym C14 name:ended thorough-only thorough:cpus=2,frames=2,preempt=3,only=5 sync stress expect:disconnect,cut time:250/400
//vsym C14 name:triples quick:cpus=3,frames=3,preempt=0 thorough:cpus=3,frames=3,preempt=1 sync stress expect:open,eof,error,base,large,disconnect,other,all time:150/400
func VSym_Torn() {
	conn := vsymNewConn(vsymHelloFrame(1000))
	conn.feed = make(chan []byte)
	conn.slow = true
	base, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := vsym.Param("frames", 2)
	gate := make(chan bool)
	started := make(chan bool, n)
	vals := vsym.Bytes("values", n)
	vsymServe(base, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		started <- true
		<-gate
		i := m.NameBytes()[0]
		_ = w.SetStringBytes(encoding.VarScopeSession, "name"[:i+1], vals[i:i+1])
	}, conn)
	vsym.Settle()
	var acks [][]byte
	for i := 0; i < n; i++ {
		conn.feed <- vsymFrame(3, 1, 7, uint64(i), vsymMessage(string([]byte{byte(i)})))
		vsym.Settle()
		acks = append(acks, vsymAck(7, uint64(i), vsymCat([]byte{1, 3, 1}, vsymStr("name"[:i+1]), []byte{8, 1}, vals[i:i+1])))
	}
	vsym.Assert(len(started) == n, "frames are not handled at the same time")
	reason := vsym.Param("only", -1)
	if reason < 0 {
		reason = vsym.Choose("reason", 7)
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 2))
	for i := 0; i < n; i++ {
		go func() { gate <- true }()
	}
	switch reason {
	case 0:
		vsym.Cover("open")
	case 1:
		conn.feed <- nil
		vsym.Cover("eof")
	case 2:
		conn.end = errors.New("broken")
		conn.feed <- nil
		vsym.Cover("error")
	case 3:
		cancel()
		vsym.Cover("base")
	case 4:
		conn.feed <- vsymBE32(1001)
		vsym.Cover("large")
	case 5:
		conn.feed <- vsymFrame(2, 1, 0, 0, vsymKVU32("status-code", 0), vsymKVStr("message", ""))
		conn.feed <- nil
		vsym.Cover("disconnect")
	case 6:
		conn.feed <- vsymFrame(9, 1, 0, 0)
		vsym.Cover("other")
	}
	vsym.Settle()
	closed := conn.isClosed()
	got, _ := vsymWhole(conn, acks, closed)
	if !closed {
		vsym.Assert(got == n, "an ACK is missing although the session goes on")
		vsym.Cover("all")
	}
}

// Writing fails for once at any place in the ACKs.
//
//vsym C14 name:fails quick:cpus=2,frames=2,preempt=1 thorough:cpus=2,frames=3,preempt=2 sync stress expect:cut,between,late time:100/400
func VSym_TornWrite() {
	conn := vsymNewConn(vsymHelloFrame(1000))
	conn.feed = make(chan []byte)
	n := vsym.Param("frames", 2)
	gate := make(chan bool)
	vals := vsym.Bytes("values", n)
	vsymServe(nil, func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		<-gate
		i := m.NameBytes()[0]
		if i < byte(n) {
			_ = w.SetStringBytes(encoding.VarScopeSession, "v", vals[i:i+1])
		}
	}, conn)
	vsym.Settle()
	var acks [][]byte
	for i := 0; i < n; i++ {
		conn.feed <- vsymFrame(3, 1, 7, uint64(i), vsymMessage(string([]byte{byte(i)})))
		vsym.Settle()
		acks = append(acks, vsymAck(7, uint64(i), vsymCat([]byte{1, 3, 1}, vsymStr("v"), []byte{8, 1}, vals[i:i+1])))
	}
	start := len(conn.out)
	at := start + vsym.Int("from", 0, n*len(acks[0])-1)
	conn.failAt = at
	conn.once = true
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	for i := 0; i < n; i++ {
		go func() { gate <- true }()
	}
	vsym.Settle()
	close(gate)
	// further frames, then the end
	acks = append(acks, vsymAck(7, uint64(n)))
	if !conn.isClosed() {
		conn.feed <- vsymFrame(3, 1, 7, uint64(n), vsymMessage(string([]byte{byte(n)})))
		vsym.Settle()
		vsym.Cover("late")
	}
	if !conn.isClosed() {
		conn.feed <- nil
		vsym.Settle()
	}
	vsym.Assert(conn.isClosed(), "connection is not closed")
	if vsym.Fork(at == start) {
		vsym.Cover("between")
	}
	vsymWhole(conn, acks, true)
}
