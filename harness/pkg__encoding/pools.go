package encoding

import (
	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// vsymDirty uses one of everything in some way, and gives it all back.
func vsymDirty(n int) {
	b := vsym.Bytes("earlier", n)
	s := AcquireKVScanner(b, vsym.Choose("earlier count", 3)-1)
	k := AcquireKVEntry()
	for i := vsym.Choose("earlier reads", 3); i > 0; i-- {
		s.Next(k)
	}
	if vsym.Choose("earlier end", 2) == 1 {
		ReleaseKVEntry(k)
		ReleaseKVScanner(s)
	} else {
		ReleaseKVScanner(s)
		ReleaseKVEntry(k)
	}
}

// vsymSameEntry checks that two entries hold the same.
func vsymSameEntry(a, b *KVEntry) {
	vsym.AssertEqBytes(a.NameBytes(), b.NameBytes(), "name in a pooled entry")
	vsym.Assert(a.Type() == b.Type(), "type in a pooled entry")
	vsym.Assert(a.ValueInt() == b.ValueInt(), "number in a pooled entry")
	vsym.Assert(a.ValueBool() == b.ValueBool(), "truth value in a pooled entry")
	vsym.AssertEqBytes(a.ValueBytes(), b.ValueBytes(), "bytes in a pooled entry")
	vsym.Assert((a.Value() == nil) == (b.Value() == nil), "value in a pooled entry")
}

// Scanners and entries from the pools behave like new ones, whatever they were
// used for before.
//
//vsym C36 name:scanners quick:len=4,before=4 thorough:len=6,before=6 expect:entry,error,end time:100/500
func VSym_PooledScanners() {
	vsymDirty(vsym.Param("before", 3))
	b := vsym.Bytes("data", vsym.Choose("length", vsym.Param("len", 4)+1))
	count := vsym.Choose("count", 4) - 1
	s, r := AcquireKVScanner(b, count), NewKVScanner(b, count)
	s2 := AcquireKVScanner(nil, 0)
	k, k2 := AcquireKVEntry(), AcquireKVEntry()
	e := &KVEntry{}
	vsym.Assert(s != s2 && k != k2, "something from the pool is handed out twice")
	vsymSameEntry(k, e)
	vsymSameEntry(k2, e)
	for i := 0; i < 3; i++ {
		got, want := s.Next(k), r.Next(e)
		vsym.Assert(got == want, "outcome of a pooled scanner")
		vsym.Assert((s.Error() == nil) == (r.Error() == nil), "error of a pooled scanner")
		vsym.Assert(s.RemainingBuf() == r.RemainingBuf(), "position of a pooled scanner")
		if !got {
			if r.Error() != nil {
				vsym.Cover("error")
			} else {
				vsym.Cover("end")
			}
			break
		}
		vsymSameEntry(k, e)
		vsym.Cover("entry")
	}
	vsym.Assert(s2.Error() == nil && !s2.Next(k2) && s2.Error() == nil, "unused scanner from the pool")
}

// The same for messages and their scanner.
//
//vsym C36 name:messages quick:len=4,before=5 thorough:len=6,before=6 expect:message,error,end time:100/500
func VSym_PooledMessages() {
	b := vsym.Bytes("earlier", vsym.Choose("earlier length", vsym.Param("before", 3)+1))
	s, m, k := AcquireMessageScanner(b), AcquireMessage(), AcquireKVEntry()
	if s.Next(m) {
		if vsym.Choose("earlier read", 2) == 1 {
			m.KV.Next(k)
		}
		if vsym.Choose("earlier message", 2) == 1 {
			s.Next(m)
		}
	}
	ReleaseKVEntry(k)
	ReleaseMessage(m)
	ReleaseMessageScanner(s)

	b = vsym.Bytes("data", vsym.Choose("length", vsym.Param("len", 4)+1))
	s, m = AcquireMessageScanner(b), AcquireMessage()
	r, n := NewMessageScanner(b), &Message{}
	s2, m2 := AcquireMessageScanner(nil), AcquireMessage()
	vsym.Assert(s != s2 && m != m2, "something from the pool is handed out twice")
	vsym.Assert(len(m.NameBytes()) == 0, "name of a message from the pool")
	k, e := AcquireKVEntry(), &KVEntry{}
	for i := 0; i < 2; i++ {
		got, want := s.Next(m), r.Next(n)
		vsym.Assert(got == want, "outcome of a pooled scanner")
		vsym.Assert((s.Error() == nil) == (r.Error() == nil), "error of a pooled scanner")
		if !got {
			if r.Error() != nil {
				vsym.Cover("error")
			} else {
				vsym.Cover("end")
			}
			break
		}
		vsym.Cover("message")
		vsym.AssertEqBytes(m.NameBytes(), n.NameBytes(), "name of a pooled message")
		got, want = m.KV.Next(k), n.KV.Next(e)
		vsym.Assert(got == want && (m.KV.Error() == nil) == (n.KV.Error() == nil), "arguments of a pooled message")
		if got {
			vsymSameEntry(k, e)
		}
	}
	vsym.Assert(!s2.Next(m2) && s2.Error() == nil, "unused scanner from the pool")
}

// The same for writers, which write to the buffer they are given only.
//
//vsym C36 name:writers quick:room=30 thorough:room=60 expect:pairs,actions,full time:100/500
func VSym_PooledWriters() {
	room := vsym.Param("room", 30)
	one, two := vsym.Bytes("buffer", room), vsym.Bytes("other buffer", room)
	two0 := vsym.Copy(two)
	off1, off2 := vsym.Int("offset", 0, room), vsym.Int("other offset", 0, room)
	size := vsym.Int("size", 0, room)
	vsym.Assume(off2 <= size)
	if vsym.Choose("writer", 2) == 0 {
		vsym.Cover("pairs")
		w := AcquireKVWriter(one, off1)
		_ = w.SetUInt32("n", vsym.U32("earlier number"))
		ReleaseKVWriter(w)
		one0 := vsym.Copy(one)
		w, v := AcquireKVWriter(two[:size], off2), NewKVWriter(vsym.Copy(two[:size]), off2)
		x := AcquireKVWriter(nil, 0)
		vsym.Assert(x != w, "something from the pool is handed out twice")
		vsym.Assert(x.Off() == 0 && len(x.Bytes()) == 0, "output of a writer from the pool")
		vsym.Assert(w.Off() == off2, "offset of a writer from the pool")
		name, val := vsym.String("name", vsym.Int("name length", 0, 8)), vsym.Bytes("value", vsym.Int("value length", 0, 8))
		a, b := w.SetBinary(name, val), v.SetBinary(name, val)
		vsym.Assert((a == nil) == (b == nil), "outcome of a writer from the pool")
		if a != nil {
			vsym.Cover("full")
		}
		vsym.Assert(w.Off() == v.Off(), "offset of a writer from the pool")
		vsym.AssertEqBytes(w.Bytes(), v.Bytes(), "output of a writer from the pool")
		vsym.AssertEqBytes(one, one0, "buffer of an earlier writer")
		vsym.AssertEqBytes(two[size:], two0[size:], "bytes behind the buffer")
		return
	}
	vsym.Cover("actions")
	w := AcquireActionWriter(one, off1)
	_ = w.SetUInt32(VarScopeTransaction, "n", vsym.U32("earlier number"))
	early := w.Bytes()
	early0 := vsym.Copy(early)
	ReleaseActionWriter(w)
	w, v := AcquireActionWriter(two[:size], off2), NewActionWriter(vsym.Copy(two[:size]), off2)
	x := AcquireActionWriter(nil, 0)
	vsym.Assert(x != w, "something from the pool is handed out twice")
	vsym.Assert(x.Off() == 0 && len(x.Bytes()) == 0, "output of a writer from the pool")
	vsym.Assert(w.Off() == off2, "offset of a writer from the pool")
	name, val := vsym.String("name", vsym.Int("name length", 0, 8)), vsym.Bytes("value", vsym.Int("value length", 0, 8))
	a, b := w.SetBinary(VarScopeSession, name, val), v.SetBinary(VarScopeSession, name, val)
	vsym.Assert(a == nil && b == nil, "outcome of a writer from the pool")
	vsym.Assert(w.Off() == v.Off(), "offset of a writer from the pool")
	vsym.AssertEqBytes(w.Bytes(), v.Bytes(), "output of a writer from the pool")
	vsym.AssertEqBytes(early, early0, "output of an earlier writer")
}
