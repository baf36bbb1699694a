package peers

import (
	"context"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// Goroutines that push updates, heartbeats and replies at the same time.
//
//vsym C23 name:pairs quick:actors=2,preempt=3 thorough:actors=2,preempt=5 sync stress expect:entries,batches,definitions,switches,reply,heartbeat time:100/300
//vsym C23 name:triples quick:actors=3,preempt=1 thorough:actors=3,preempt=2 sync stress expect:entries,batches,definitions,switches,reply,heartbeat time:150/500
func VSym_Concurrent() {
	vsym.Horizon(4 * time.Second)
	conn := vsymNewConn([]byte(vsymHello))
	conn.end = nil
	conn.feed = make(chan []byte)
	conn.slow = true
	var w *Writer
	h := &vsymHandler{onHello: func(ctx context.Context) { w = WriterFromContext(ctx) }}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()

	type batch struct{ es []*vsymEntry }
	var batches []batch
	var others [][]byte
	actors := vsym.Param("actors", 2)
	done := 0
	want := 0
	beat := false
	ends := make(chan bool, actors)
	min := 0
	ops := make([]int, actors)
	for i := range ops {
		ops[i] = min + vsym.Choose("actor", 6-min)
		min = ops[i]
		vsym.Assume(ops[i] < 5 || !beat)
		beat = beat || ops[i] == 5
	}
	if vsym.Choose("pools", 2) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 2))
	for i, op := range ops {
		mark := byte(i + 1) // tells the entries of the actors apart
		var act func()
		switch op {
		case 0:
			e := vsymMakeEntry(0, []int{1}, 0, true)
			vsym.Assume(e.tail[3] == mark)
			batches = append(batches, batch{[]*vsymEntry{e}})
			act = func() { vsym.Assert(w.SendEntry(e.e) == nil, "sending fails") }
			vsym.Cover("entries")
		case 1:
			a, b := vsymMakeEntry(0, []int{1}, 0, true), vsymMakeEntry(0, nil, 0, true)
			b.timed()
			vsym.Assume(a.tail[3] == mark && b.tail[3] == mark)
			batches = append(batches, batch{[]*vsymEntry{a, b}})
			act = func() {
				vsym.Assert(w.SendEntries([]*sticktable.EntryUpdate{a.e, b.e}) == nil, "sending fails")
			}
			vsym.Cover("batches")
		case 2:
			d, wire := vsymMakeDef(-2, true)
			others = append(others, wire)
			act = func() { vsym.Assert(w.SendTableDefinition(d) == nil, "sending fails") }
			vsym.Cover("definitions")
		case 3:
			others = append(others, []byte{10, 0x83, 1, mark})
			act = func() { vsym.Assert(w.SendTableSwitch(uint64(mark)) == nil, "sending fails") }
			vsym.Cover("switches")
		case 4:
			others = append(others, []byte{0, 2})
			act = func() { conn.feed <- []byte{0, 0} }
			vsym.Cover("reply")
		case 5:
			others = append(others, []byte{0, 4})
			vsym.Cover("heartbeat")
			continue // the heartbeat is due at this time
		}
		want++
		go func() {
			if beat {
				time.Sleep(3 * time.Second)
			}
			act()
			ends <- true
		}()
	}
	if beat {
		time.Sleep(3 * time.Second)
	}
	vsym.Settle()
	for ; done < want; done++ {
		select {
		case <-ends:
		default:
			vsym.Assert(false, "sending blocks")
		}
	}
	vsym.Assert(h.closed == 0 && !conn.isClosed(), "session ends")
	msgs := vsymSplit(conn.out)
	id := uint32(0)
	for len(msgs) > 0 {
		m := msgs[0]
		if m[0] == 10 && (m[1] == 0x80 || m[1] == 0x85) {
			// the entries of a batch follow each other, with increasing ids
			found := false
			for k, b := range batches {
				if len(b.es) > len(msgs) || found {
					continue
				}
				same := true
				for j, e := range b.es {
					wire := e.wire(id + uint32(j))
					if len(wire) != len(msgs[j]) || !vsym.Fork(vsym.EqBytes(wire, msgs[j])) {
						same = false
						break
					}
				}
				if same {
					found = true
					msgs = msgs[len(b.es):]
					id += uint32(len(b.es))
					batches = append(append([]batch{}, batches[:k]...), batches[k+1:]...)
				}
			}
			vsym.Assert(found, "entries on the wire are not those sent, in one piece and with increasing ids")
			continue
		}
		found := false
		for k, o := range others {
			if len(o) == len(m) && !found && vsym.Fork(vsym.EqBytes(o, m)) {
				found = true
				others = append(append([][]byte{}, others[:k]...), others[k+1:]...)
				break
			}
		}
		vsym.Assert(found, "message on the wire that was not sent")
		msgs = msgs[1:]
	}
	vsym.Assert(len(batches) == 0 && len(others) == 0, "message is missing on the wire")
}

// Whatever fails - a write or an entry that cannot be encoded - nobody who
// sends waits for ever.
//
//vsym C23 name:failing quick:actors=2,preempt=1 thorough:actors=3,preempt=2 sync stress expect:write,entry time:60/300
func VSym_ConcurrentFailing() {
	vsym.Horizon(4500 * time.Millisecond)
	conn := vsymNewConn([]byte(vsymHello))
	conn.end = nil
	conn.feed = make(chan []byte)
	conn.slow = true
	var w *Writer
	h := &vsymHandler{onHello: func(ctx context.Context) { w = WriterFromContext(ctx) }}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	broken := vsym.Choose("broken", 2) == 1
	if broken {
		conn.failAt = []int{4, 5, 9}[vsym.Choose("fails at", 3)]
		vsym.Cover("write")
	} else {
		vsym.Cover("entry")
	}
	actors := vsym.Param("actors", 2)
	ends := make(chan bool, actors)
	ops := make([]int, actors)
	min := 0
	for i := range ops {
		ops[i] = min + vsym.Choose("actor", 5-min)
		min = ops[i]
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	for _, op := range ops {
		op := op
		e := vsymMakeEntry(0, []int{1}, 0, true)
		bad := vsymMakeEntry(4, []int{1}, -70000, true)
		d, _ := vsymMakeDef(-2, true)
		go func() {
			for i := 0; i < 2; i++ {
				var err error
				fails := broken
				switch op {
				case 0:
					err = w.SendEntry(e.e)
				case 1:
					err = w.SendEntries([]*sticktable.EntryUpdate{e.e, e.e})
				case 2:
					err = w.SendTableDefinition(d)
				case 3:
					err = w.SendTableSwitch(7)
				case 4:
					fails = true
					if i == 0 {
						err = w.SendEntry(bad.e)
					} else {
						err = w.SendEntries([]*sticktable.EntryUpdate{e.e, bad.e})
					}
				}
				vsym.Assert(fails || err == nil, "sending fails")
				vsym.Assert(!broken || err != nil || i == 0 || op == 4, "sending succeeds after a failed write")
			}
			ends <- true
		}()
	}
	vsym.Settle()
	for i := 0; i < actors; i++ {
		select {
		case <-ends:
		default:
			vsym.Assert(false, "sending blocks")
		}
	}
	// a request that needs an answer
	select {
	case conn.feed <- []byte{0, 0}:
	case <-conn.closed:
	}
	vsym.Settle()
	if broken {
		// at the latest the heartbeat notices
		time.Sleep(4 * time.Second)
		vsym.Settle()
		vsym.Assert(h.closed == 1 && conn.isClosed(), "session goes on when nothing can be written")
		vsym.Assert(len(conn.out) <= conn.failAt, "bytes behind a failed write")
		return
	}
	vsym.Assert(h.closed == 0 && !conn.isClosed(), "session ends")
	msgs := vsymSplit(conn.out)
	vsym.Assert(len(msgs) > 0 && vsym.EqBytes(msgs[len(msgs)-1], []byte{0, 2}), "no answer")
}
