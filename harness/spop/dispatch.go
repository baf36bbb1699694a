package spop

import (
	"context"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// vsymGate is a handler that counts its frames and can be held up.
type vsymGate struct {
	order []byte // if they are taken up one after the other
	log   bool
	seen  [64]int
	gate  chan bool // a value lets one frame pass; closed: all pass
}

func (g *vsymGate) handle(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	id := m.NameBytes()[0]
	if g.log {
		g.order = append(g.order, id)
	}
	g.seen[id]++
	<-g.gate
	k := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(k)
	if m.KV.Next(k) {
		_ = w.SetStringBytes(encoding.VarScopeSession, "v", k.ValueBytes())
	}
}

// vsymNoted is a NOTIFY with any stream id and argument; its frame id is its
// number.
type vsymNoted struct {
	conn   int
	stream uint64
	arg    []byte
}

func vsymNote(mark, conn int, in *[]byte) vsymNoted {
	n := vsymNoted{conn, uint64(vsym.U8("stream")), vsym.Bytes("argument", 2)}
	vsym.Assume(n.stream < 240)
	*in = vsymCat(*in, vsymFrame(3, 1, n.stream, uint64(mark), vsymMessage(string([]byte{byte(mark)}), vsymCat(vsymStr("k"), []byte{8, 2}, n.arg))))
	return n
}

// vsymOnce checks that every frame was processed once.
func vsymOnce(g *vsymGate, conns []*vsymConn, notes []vsymNoted) {
	got := make([]int, len(notes))
	for i, conn := range conns {
		for _, f := range vsymReplies(conn) {
			mark := int(f[10])
			vsym.Assert(mark < len(notes), "frame id of an ACK")
			n := notes[mark]
			vsym.Assert(i == n.conn, "a frame is answered on another session")
			vsym.AssertEqBytes(f, vsymAck(n.stream, uint64(mark), vsymCat([]byte{1, 3, 1}, vsymStr("v"), []byte{8, 2}, n.arg)), "ACK")
			got[mark]++
		}
	}
	for mark := range notes {
		vsym.Assert(g.seen[mark] == 1, "a frame is processed twice or never")
		vsym.Assert(got[mark] == 1, "a frame is answered twice or never")
	}
}

// Frames that arrive one after the other from any of the sessions while the
// workers are held up, in any number, are taken up in this order.
//
//vsym C13 name:order1 quick:cpus=1,frames=5,conns=2,preempt=1 thorough:cpus=1,frames=8,conns=3,preempt=1 sync stress expect:full,room,ordered time:60/300
//vsym C13 name:order2 quick:cpus=2,frames=8,conns=2,preempt=0 thorough:cpus=2,frames=10,conns=3,preempt=0 sync stress expect:full,room,ordered time:100/400
func VSym_DispatchOrder() {
	g := &vsymGate{gate: make(chan bool), log: true}
	var conns []*vsymConn
	nc := vsym.Param("conns", 2)
	for i := 0; i < nc; i++ {
		c := vsymNewConn(vsymHelloFrame(16380))
		c.feed = make(chan []byte, 64)
		conns = append(conns, c)
	}
	vsymServe(nil, g.handle, conns...)
	vsym.Settle()
	n := 1 + vsym.Choose("frames", vsym.Param("frames", 5))
	vsym.Explore(vsym.Param("preempt", 1))
	vsymRound(g, conns, n, func(int) int { return vsym.Choose("session", nc) })
}

// vsymRound hands over n frames while the workers are held up, lets them go one
// by one and checks the order.
func vsymRound(g *vsymGate, conns []*vsymConn, n int, pick func(i int) int) {
	var notes []vsymNoted
	var handed []bool // frames that a session could hand over before the next one came
	for i := 0; i < n; i++ {
		c := pick(i)
		vsym.Assume(conns[c].wait)
		var in []byte
		notes = append(notes, vsymNote(i, c, &in))
		conns[c].feed <- in
		vsym.Settle()
		handed = append(handed, conns[c].wait)
		if !conns[c].wait {
			vsym.Cover("full")
		} else {
			vsym.Cover("room")
		}
	}
	workers := len(g.order)
	vsym.Assert(workers > 0, "workers do not take up frames")
	for done := 1; done <= n; done++ {
		g.gate <- true
		vsym.Settle()
		want := done + workers
		if want > n {
			want = n
		}
		vsym.Assert(len(g.order) == want, "a worker does not take up the next frame")
	}
	last := -1
	for _, m := range g.order {
		if handed[m] {
			vsym.Assert(int(m) > last, "frames are taken up out of order")
			last = int(m)
		}
	}
	vsym.Cover("ordered")
	vsymOnce(g, conns, notes)
}

// The same over and over again, with any number of workers and frames.
//
//vsym C13 name:many quick:cpus=3,total=280,steps=9000000 thorough:cpus=3,total=700,steps=30000000 sync expect:full,room,ordered time:60/300
//vsym C13 name:many5 quick:cpus=5,total=280,steps=9000000 thorough:cpus=7,total=700,steps=30000000 sync expect:full,room,ordered time:60/300
func VSym_DispatchMany() {
	g := &vsymGate{gate: make(chan bool), log: true}
	var conns []*vsymConn
	for i := 0; i < 2; i++ {
		c := vsymNewConn(vsymHelloFrame(16380))
		c.feed = make(chan []byte, 64)
		conns = append(conns, c)
	}
	vsymServe(nil, g.handle, conns...)
	vsym.Settle()
	cpus := vsym.Param("cpus", 3)
	burst := []int{1, 2*cpus - 1, 3*cpus + 1, 3*cpus + 2}[vsym.Choose("burst", 4)]
	for sent := 0; sent < vsym.Param("total", 280); sent += burst {
		vsymRound(g, conns, burst, func(i int) int {
			if conns[0].wait {
				return 0
			}
			return 1
		})
		g.order, g.seen = nil, [64]int{} // the next round numbers its frames the same way
		for _, c := range conns {
			frames, _ := vsymFrames(c.out)
			c.out = append([]byte(nil), frames[0]...)
		}
	}
}

// Frames from several sessions at the same time under every schedule.
//
//vsym C13 name:burst1 quick:cpus=1,frames=3,conns=2,preempt=1 thorough:cpus=1,frames=4,conns=2,preempt=3 sync stress expect:held,free time:160/400
//vsym C13 name:burst2 quick:cpus=2,frames=4,conns=2,preempt=1 thorough:cpus=2,frames=5,conns=2,preempt=2 sync stress expect:held,free time:160/400
//vsym C13 name:burst3 quick:cpus=1,frames=2,conns=3,preempt=1 thorough:cpus=1,frames=3,conns=3,preempt=3 sync stress expect:held,free time:160/400
//vsym C13 name:deep quick:pools=1,cpus=1,frames=2,conns=2,preempt=2 thorough:pools=1,cpus=1,frames=2,conns=2,preempt=3 sync stress expect:held,free time:120/400
func VSym_DispatchBurst() {
	g := &vsymGate{gate: make(chan bool)}
	var conns []*vsymConn
	nc := vsym.Param("conns", 2)
	for i := 0; i < nc; i++ {
		c := vsymNewConn(vsymHelloFrame(16380))
		c.feed = make(chan []byte, 4)
		conns = append(conns, c)
	}
	vsymServe(nil, g.handle, conns...)
	vsym.Settle()
	// find out how many frames are handled at the same time
	var notes []vsymNoted
	workers := 0
	for busy := 0; busy == workers && workers < 8 && conns[0].wait; busy++ {
		var in []byte
		notes = append(notes, vsymNote(busy, 0, &in))
		conns[0].feed <- in
		vsym.Settle()
		workers += g.seen[busy]
	}
	for range notes {
		g.gate <- true
		vsym.Settle()
	}
	vsym.Assert(workers > 0, "workers do not take up frames")
	g.log = workers == 1
	held := vsym.Choose("held", 2) == 1
	if !held {
		close(g.gate)
		vsym.Cover("free")
	}
	before := len(notes)
	if vsym.Param("pools", 0) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	for i, c := range conns {
		var in []byte
		for j := 0; j < vsym.Param("frames", 2); j++ {
			notes = append(notes, vsymNote(len(notes), i, &in))
		}
		c.feed <- in
	}
	if held {
		vsym.Settle()
		taken := 0
		for mark := before; mark < len(notes); mark++ {
			taken += g.seen[mark]
		}
		want := workers
		if len(notes)-before < want {
			want = len(notes) - before
		}
		vsym.Assert(taken == want, "a worker is idle although there are frames")
		vsym.Cover("held")
		close(g.gate)
	}
	vsym.Settle()
	vsymOnce(g, conns, notes)
	if g.log {
		// the frames of a session are in order
		for c := range conns {
			last := -1
			for _, m := range g.order {
				if notes[m].conn == c {
					vsym.Assert(int(m) > last, "frames of a session are taken up out of order")
					last = int(m)
				}
			}
		}
	}
	// the workers still take up frames
	for i, c := range conns {
		mark := len(notes)
		var in []byte
		notes = append(notes, vsymNote(mark, i, &in))
		c.feed <- in
		vsym.Settle()
		vsym.Assert(g.seen[mark] == 1, "a frame is not taken up")
	}
}
