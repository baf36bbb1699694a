package peers

import (
	"sync"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// Any sequence of definitions, switches, entries and batches.
//
//vsym C22 name:sequence quick:ops=3 thorough:ops=4 sync expect:definition,switch,entry,timed,batch,repeated,empty time:120/500
func VSym_PushSequence() {
	want := []byte("200\n")
	id := uint32(0)
	conn := vsymPush(func(conn *vsymConn, w *Writer) {
		for i := 0; i < vsym.Param("ops", 3); i++ {
			var err error
			switch vsym.Choose("op", 6) {
			case 0:
				d, wire := vsymMakeDef(-2, true)
				err = w.SendTableDefinition(d)
				want = append(want, wire...)
				vsym.Cover("definition")
			case 1:
				n := vsymNumb("switched", i > 0)
				err = w.SendTableSwitch(n)
				want = append(want, vsymMsg(10, 0x83, vsym.RefVarint(n))...)
				vsym.Cover("switch")
			case 2:
				e := vsymMakeEntry(vsym.Choose("key", 2)*3, []int{1}, -1, true)
				if vsym.Choose("timed", 2) == 1 {
					e.timed()
					vsym.Cover("timed")
				}
				err = w.SendEntry(e.e)
				want = append(want, e.wire(id)...)
				id++
				vsym.Cover("entry")
			case 3:
				a := vsymMakeEntry(3, []int{1}, -1, true)
				b := vsymMakeEntry(0, nil, 5, true)
				if vsym.Choose("timed", 2) == 1 {
					a.timed()
				} else {
					b.timed()
				}
				err = w.SendEntries([]*sticktable.EntryUpdate{a.e, b.e})
				want = append(want, a.wire(id)...)
				want = append(want, b.wire(id+1)...)
				id += 2
				vsym.Cover("batch")
			case 4:
				err = w.SendEntries(nil)
				vsym.Cover("empty")
			case 5: // the same entry twice
				e := vsymMakeEntry(4, []int{1}, -2, true)
				if vsym.Choose("timed", 2) == 1 {
					e.timed()
				}
				err = w.SendEntries([]*sticktable.EntryUpdate{e.e, e.e})
				want = append(want, e.wire(id)...)
				want = append(want, e.wire(id+1)...)
				id += 2
				vsym.Cover("repeated")
			}
			vsym.Assert(err == nil, "sending fails")
		}
	})
	vsym.AssertEqBytes(conn.out, want, "bytes on the wire")
}

// Entries with every kind of key and data.
//
//vsym C22 name:kinds quick:data=1,key=30 thorough:data=2,key=300 sync expect:sent time:60/300
func VSym_PushKinds() {
	var kinds []int
	for i := 0; i < vsym.Param("data", 1); i++ {
		if k := vsym.Choose("data kind", 6); k < 5 {
			kinds = append(kinds, k)
		}
	}
	a := vsymMakeEntry(vsym.Choose("key kind", 5), kinds, vsym.Param("key", 10), len(kinds) > 1)
	if vsym.Choose("timed", 2) == 1 {
		a.timed()
	}
	b := vsymMakeEntry(0, nil, 0, true)
	conn := vsymPush(func(conn *vsymConn, w *Writer) {
		if vsym.Choose("batch", 2) == 1 {
			vsym.Assert(w.SendEntries([]*sticktable.EntryUpdate{a.e, b.e}) == nil, "sending fails")
		} else {
			vsym.Assert(w.SendEntry(a.e) == nil && w.SendEntry(b.e) == nil, "sending fails")
		}
	})
	want := append([]byte("200\n"), a.wire(0)...)
	vsym.AssertEqBytes(conn.out, append(want, b.wire(1)...), "bytes on the wire")
	vsym.Cover("sent")
}

// Entries and definitions up to and beyond the size of the buffers. What is
// rejected leaves nothing on the wire.
//
//vsym C22 name:sizes quick:max=70000,name=6000 thorough:max=140000,name=70000 sync expect:large,rejected,def,defrejected time:100/400
func VSym_PushSizes() {
	max := vsym.Param("max", 70000)
	a := vsymMakeEntry(0, nil, 0, true)
	b := vsymMakeEntry(3+vsym.Choose("binary", 2), []int{2}, max, false)
	c := vsymMakeEntry(0, []int{1}, 0, true)
	way := vsym.Choose("way", 3)
	var d *sticktable.Definition
	var dw []byte
	if way == 2 {
		d, dw = vsymMakeDef(vsym.Param("name", 5000), true)
	}
	var err error
	conn := vsymPush(func(conn *vsymConn, w *Writer) {
		vsym.Assert(w.SendEntry(a.e) == nil, "sending fails")
		switch way {
		case 0:
			err = w.SendEntry(b.e)
		case 1:
			err = w.SendEntries([]*sticktable.EntryUpdate{b.e})
		case 2:
			err = w.SendTableDefinition(d)
		}
		vsym.Assert(w.SendEntry(c.e) == nil, "sending fails after a rejected entry")
	})
	want := append([]byte("200\n"), a.wire(0)...)
	next := uint32(2)
	if way == 2 {
		next = 1
		if err == nil {
			want = append(want, dw...)
			vsym.Cover("def")
		} else {
			vsym.Assert(len(dw) > 500, "definition of moderate size is rejected")
			vsym.Cover("defrejected")
		}
	} else if err == nil {
		want = append(want, b.wire(1)...)
		if len(b.tail) > 60000 {
			vsym.Cover("large")
		}
	} else {
		vsym.Assert(len(b.tail) > 4000, "entry of moderate size is rejected")
		vsym.Cover("rejected")
		// a rejected entry may or may not use up its id
		if vsym.Fork(vsym.EqBytes(conn.out, append(vsym.Copy(want), c.wire(1)...))) {
			next = 1
		}
	}
	vsym.AssertEqBytes(conn.out, append(want, c.wire(next)...), "bytes on the wire")
}

// Batches that do not fit the output buffer at once.
//
//vsym C22 name:batch quick:max=40000 thorough:max=65000 sync expect:sent time:60/300
func VSym_PushBatch() {
	max := vsym.Param("max", 40000)
	a := vsymMakeEntry(3, []int{1}, max, true)
	b := vsymMakeEntry(4, []int{1}, -[]int{1, 300, 20000, max}[vsym.Choose("second", 4)], true)
	b.timed()
	c := vsymMakeEntry(0, []int{1}, 0, true)
	conn := vsymPush(func(conn *vsymConn, w *Writer) {
		vsym.Assert(w.SendEntries([]*sticktable.EntryUpdate{a.e, b.e, c.e}) == nil, "sending fails")
	})
	want := append([]byte("200\n"), a.wire(0)...)
	want = append(want, b.wire(1)...)
	vsym.AssertEqBytes(conn.out, append(want, c.wire(2)...), "bytes on the wire")
	vsym.Cover("sent")
}

// A batch with an entry that cannot be encoded: the entries in front of it may
// be sent, but nothing of it and all messages are complete.
//
//vsym C22 name:partial quick:n=3 thorough:n=4 sync expect:before,none time:60/300
func VSym_PushPartial() {
	n := vsym.Param("n", 3)
	bad := vsym.Choose("bad", n)
	var es []*sticktable.EntryUpdate
	var vs []*vsymEntry
	for i := 0; i < n; i++ {
		k := 1
		if i == bad {
			k = 70000
		}
		v := vsymMakeEntry(4, []int{1}, -k, true)
		if i%2 == 1 {
			v.timed()
		}
		es, vs = append(es, v.e), append(vs, v)
	}
	last := vsymMakeEntry(0, []int{1}, 0, true)
	failed := false
	conn := vsymPush(func(conn *vsymConn, w *Writer) {
		failed = w.SendEntries(es) != nil
		vsym.Assert(w.SendEntry(last.e) == nil, "sending fails after a rejected batch")
	})
	if !failed {
		// entries may be of any size
		want := []byte("200\n")
		for i, v := range vs {
			want = append(want, v.wire(uint32(i))...)
		}
		vsym.AssertEqBytes(conn.out, append(want, last.wire(uint32(n))...), "bytes on the wire")
		return
	}
	want := []byte("200\n")
	sent := 0
	for ; sent < bad; sent++ {
		next := append(vsym.Copy(want), vs[sent].wire(uint32(sent))...)
		if len(next) > len(conn.out) || !vsym.Fork(vsym.EqBytes(conn.out[:len(next)], next)) {
			break
		}
		want = next
	}
	if sent > 0 {
		vsym.Cover("before")
	} else {
		vsym.Cover("none")
	}
	ok := false
	for id := sent; id <= n; id++ {
		full := append(vsym.Copy(want), last.wire(uint32(id))...)
		if vsym.Fork(vsym.EqBytes(conn.out, full)) {
			ok = true
		}
	}
	vsym.Assert(ok, "bytes on the wire after a rejected batch")
}

// From any update id on, ids count up by one.
//
//vsym C22 name:ids quick:n=3 thorough:n=6 expect:sent time:60/300
func VSym_PushIDs() {
	conn := vsymNewConn(nil)
	w := newWriter(conn, new(sync.Mutex))
	id := vsym.U32("first id")
	w.nextUpdateID = id
	var want []byte
	n := vsym.Param("n", 3)
	for i := 0; i < n; i++ {
		a := vsymMakeEntry(0, []int{1}, 0, true)
		b := vsymMakeEntry(0, nil, 0, true)
		if i%2 == 1 {
			a.timed()
			vsym.Assert(w.SendEntries([]*sticktable.EntryUpdate{a.e, b.e}) == nil, "sending fails")
		} else {
			b.timed()
			vsym.Assert(w.SendEntry(a.e) == nil && w.SendEntry(b.e) == nil, "sending fails")
		}
		want = append(want, a.wire(id)...)
		want = append(want, b.wire(id+1)...)
		id += 2
	}
	vsym.AssertEqBytes(conn.out, want, "bytes on the wire")
	vsym.Cover("sent")
}

// After the connection fails the bytes written are a prefix of the stream, and
// sending reports the failure.
//
//vsym C22 name:failing quick:ops=3 thorough:ops=4 sync expect:failed,torn time:60/300
func VSym_PushFailing() {
	want := []byte("200\n")
	id := uint32(0)
	failed := false
	fail := vsym.Choose("fails at", 60) + 5
	conn := vsymPush(func(conn *vsymConn, w *Writer) {
		conn.failAt = fail
		for i := 0; i < vsym.Param("ops", 3); i++ {
			var err error
			a := vsymMakeEntry(0, []int{1}, 0, true)
			b := vsymMakeEntry(0, nil, 0, true)
			switch vsym.Choose("op", 3) {
			case 0:
				d, wire := vsymMakeDef(-3, true)
				err = w.SendTableDefinition(d)
				want = append(want, wire...)
			case 1:
				err = w.SendEntry(a.e)
				want = append(want, a.wire(id)...)
				id++
			case 2:
				b.timed()
				err = w.SendEntries([]*sticktable.EntryUpdate{a.e, b.e})
				want = append(want, a.wire(id)...)
				want = append(want, b.wire(id+1)...)
				id += 2
			}
			if err == nil {
				vsym.Assert(!failed, "sending succeeds after a failed write")
				vsym.Assert(len(conn.out) == len(want), "sent messages not on the wire")
			} else {
				failed = true
				vsym.Cover("failed")
			}
		}
	})
	vsym.Assert(len(conn.out) <= len(want), "more bytes on the wire than sent")
	vsym.AssertEqBytes(conn.out, want[:len(conn.out)], "bytes on the wire")
	if failed {
		vsym.Assert(len(conn.out) <= fail, "bytes behind a failed write")
		vsym.Cover("torn")
	}
}

// Ids go on counting and messages stay as they are over hundreds of pushes,
// whatever is sent in between and however large a batch is.
//
//vsym C22 name:long quick:ops=330,batch=400,steps=40000000 thorough:ops=1500,batch=700,steps=200000000 sync expect:definition,switch,entry,batch,large time:150/600
func VSym_PushLong() {
	plain := func(n int) *vsymEntry {
		key := make([]byte, n)
		for i := range key {
			key[i] = byte('a' + i%26)
		}
		k, d := sticktable.StringKey(key), sticktable.UnsignedIntegerData(77)
		def := &sticktable.Definition{Name: "t", StickTableID: 3, KeyType: sticktable.KeyTypeString, KeyLength: 100, DataTypes: []sticktable.DataTypeDefinition{{DataType: 2}}}
		return &vsymEntry{def: def, tail: append(append([]byte{byte(n)}, key...), 77),
			e: &sticktable.EntryUpdate{StickTable: def, Key: &k, Data: []sticktable.MapData{&d}}}
	}
	a, b, c := plain(9), plain(20), plain(55)
	b.e.WithExpiry, b.e.Expiry = true, 7000
	all := []*vsymEntry{a, b, c}
	d := &sticktable.Definition{Name: "name", StickTableID: 5, KeyType: sticktable.KeyTypeString, KeyLength: 100, Expiry: 30, DataTypes: []sticktable.DataTypeDefinition{{DataType: 2}}}
	dwire := vsymDef(5, "name", 6, 100, 4, 30)
	id := uint32(0)
	var got, want []byte
	conn := vsymPush(func(conn *vsymConn, w *Writer) {
		conn.out = nil
		take := func() {
			vsym.Assert(len(conn.out) == len(want), "number of bytes on the wire")
			for i, c := range conn.out { // all of them are concrete
				if c != want[i] {
					vsym.Assert(false, "bytes on the wire")
				}
			}
			got, want = append(got, 1), nil
			conn.out = nil
		}
		ops, batch := vsym.Param("ops", 330), vsym.Param("batch", 1500)
		first := vsym.Choose("first", 3)
		for i := 0; i < ops; i++ {
			var err error
			switch (i + first) % 11 {
			case 0:
				err = w.SendTableDefinition(d)
				want = append(want, dwire...)
				vsym.Cover("definition")
			case 4:
				err = w.SendTableSwitch(uint64(i))
				want = append(want, vsymMsg(10, 0x83, vsym.RefVarint(uint64(i)))...)
				vsym.Cover("switch")
			case 7:
				var es []*sticktable.EntryUpdate
				for j := 0; j < 1+i%5; j++ {
					e := all[(i+j)%3]
					es = append(es, e.e)
					want = append(want, e.wire(id)...)
					id++
				}
				err = w.SendEntries(es)
				vsym.Cover("batch")
			default:
				e := all[i%3]
				err = w.SendEntry(e.e)
				want = append(want, e.wire(id)...)
				id++
				vsym.Cover("entry")
			}
			vsym.Assert(err == nil, "sending fails")
			take()
			if i == ops/2 {
				var es []*sticktable.EntryUpdate
				for j := 0; j < batch; j++ {
					es = append(es, a.e)
					want = append(want, a.wire(id)...)
					id++
				}
				vsym.Assert(w.SendEntries(es) == nil, "sending fails")
				take()
				vsym.Cover("large")
			}
		}
	})
	vsym.Assert(len(conn.out) == 0 && len(got) > 0, "bytes on the wire")
}
