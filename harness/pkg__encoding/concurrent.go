package encoding

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

type vsymRecord struct {
	S string  `spoe:"s"`
	N uint32  `spoe:"n"`
	P *string `spoe:"p"`
}

type vsymOtherRecord struct {
	N int64  `spoe:"s"`
	S []byte `spoe:"n"`
}

// vsymUse uses one of the parts of the package and checks that it works, as if
// it were the only one that is used.
func vsymUse(what int, mark byte) {
	switch what {
	case 0: // pairs
		buf := make([]byte, 16)
		w := AcquireKVWriter(buf, 0)
		vsym.Assert(w.SetBinary("s", []byte{mark, 2}) == nil && w.SetUInt32("n", uint32(mark)+300) == nil, "writing pairs")
		s, k := AcquireKVScanner(vsym.Copy(w.Bytes()), -1), AcquireKVEntry()
		ReleaseKVWriter(w)
		vsym.Assert(s.Next(k) && k.NameEquals("s") && len(k.ValueBytes()) == 2 && k.ValueBytes()[0] == mark, "first pair")
		vsym.Assert(s.Next(k) && k.NameEquals("n") && k.ValueInt() == int64(mark)+300, "second pair")
		v, ok := k.Value().(uint32)
		vsym.Assert(ok && v == uint32(mark)+300, "value of the second pair")
		vsym.Assert(!s.Next(k) && s.Error() == nil, "end of the pairs")
		ReleaseKVEntry(k)
		ReleaseKVScanner(s)
		vsym.Cover("pairs")
	case 1: // actions
		w := AcquireActionWriter(make([]byte, 4), 0)
		vsym.Assert(w.SetInt64(VarScopeRequest, "x", int64(mark)+240) == nil && w.Unset(VarScopeSession, "y") == nil, "writing actions")
		n := uint64(mark) + 240
		want := append([]byte{1, 3, 3, 1, 'x', 4}, vsym.RefVarint(n)...)
		vsym.AssertEqBytes(w.Bytes(), append(want, 2, 2, 1, 1, 'y'), "actions")
		ReleaseActionWriter(w)
		vsym.Cover("actions")
	case 2: // messages
		s, m, k := AcquireMessageScanner([]byte{1, mark, 1, 1, 'k', 8, 1, mark, 1, mark + 1, 0}), AcquireMessage(), AcquireKVEntry()
		vsym.Assert(s.Next(m) && len(m.NameBytes()) == 1 && m.NameBytes()[0] == mark, "first message")
		vsym.Assert(m.KV.Next(k) && len(k.ValueBytes()) == 1 && k.ValueBytes()[0] == mark && !m.KV.Next(k), "argument of the first message")
		vsym.Assert(s.Next(m) && len(m.NameBytes()) == 1 && m.NameBytes()[0] == mark+1, "second message")
		vsym.Assert(!m.KV.Next(k) && !s.Next(m) && s.Error() == nil, "end of the messages")
		ReleaseKVEntry(k)
		ReleaseMessage(m)
		ReleaseMessageScanner(s)
		vsym.Cover("messages")
	case 3: // structs
		var r vsymRecord
		err := NewKVScanner([]byte{1, 's', 8, 1, mark, 1, 'n', 3, mark, 1, 'p', 8, 2, mark, 5}, -1).Unmarshal(&r)
		vsym.Assert(err == nil && len(r.S) == 1 && r.S[0] == mark && r.N == uint32(mark), "struct")
		vsym.Assert(r.P != nil && len(*r.P) == 2 && (*r.P)[0] == mark, "optional field of a struct")
		vsym.Cover("struct")
	case 4: // another struct with the same keys
		var r vsymOtherRecord
		err := NewKVScanner([]byte{1, 's', 4, mark, 1, 'n', 9, 1, mark}, -1).Unmarshal(&r)
		vsym.Assert(err == nil && r.N == int64(mark) && len(r.S) == 1 && r.S[0] == mark, "other struct")
		vsym.Cover("other")
	}
}

// Independent values are used by several goroutines at the same time.
//
//vsym C38 name:encoding quick:preempt=3 thorough:preempt=5 stress expect:pairs,actions,messages,struct,other time:100/500
func VSym_ConcurrentEncoding() {
	a := vsym.Choose("first", 5)
	b := vsym.Choose("second", a+1)
	x, y := vsym.Int("mark", 1, 100), vsym.Int("other mark", 101, 200)
	ends := make(chan bool, 2)
	if vsym.Choose("pools", 2) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	go func() {
		vsymUse(a, byte(x))
		ends <- true
	}()
	go func() {
		vsymUse(b, byte(y))
		ends <- true
	}()
	<-ends
	<-ends
}
