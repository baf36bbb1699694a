package encoding

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// What is given to a writer is neither changed nor kept: once the call has
// returned, the caller may use it for something else.
//
//vsym C37 name:writers quick:len=4,room=24,entries=2 thorough:len=8,room=40,entries=3 expect:pairs,actions,refused time:60/300
func VSym_WriterArguments() {
	room := vsym.Int("room", 0, vsym.Param("room", 24))
	buf := make([]byte, room)
	actions := vsym.Choose("writer", 2) == 1
	kw, aw := NewKVWriter(buf, 0), NewActionWriter(buf, 0)
	output := func() []byte {
		if actions {
			return aw.Bytes()
		}
		return kw.Bytes()
	}
	for i := 0; i < vsym.Param("entries", 2); i++ {
		n := vsym.Choose("length", vsym.Param("len", 4)+1)
		val := vsym.Bytes("value", n)
		given := vsym.Copy(val)
		var err error
		switch {
		case !actions:
			err = kw.SetBinary("n", given)
			vsym.Cover("pairs")
		case vsym.Choose("string", 2) == 1:
			err = aw.SetStringBytes(VarScopeSession, "n", given)
			vsym.Cover("actions")
		default:
			err = aw.SetBinary(VarScopeSession, "n", given)
			vsym.Cover("actions")
		}
		if err != nil {
			vsym.Cover("refused")
		}
		vsym.AssertEqBytes(given, val, "value is changed by writing it")
		out := vsym.Copy(output())
		for j := range given {
			given[j] ^= 0x5a
		}
		vsym.AssertEqBytes(output(), out, "output changes with the value of an earlier call")
	}
}

type vsymArgTarget struct {
	S string `spoe:"a"`
	B []byte `spoe:"b"`
	N int64  `spoe:"c"`
	P *int64 `spoe:"d"`
}

// Reading leaves the input as it is.
//
//vsym C37 name:readers quick:len=7 thorough:len=11 expect:pairs,messages,struct,integers time:60/400
func VSym_ReaderArguments() {
	b := vsym.Bytes("input", vsym.Choose("length", vsym.Param("len", 8)+1))
	given := vsym.Copy(b)
	switch vsym.Choose("reader", 4) {
	case 0:
		s, k := NewKVScanner(given, -1), AcquireKVEntry()
		for s.Next(k) {
			_ = k.Value()
			_ = k.NameEquals("ab")
			_ = k.NameEqualBytes([]byte("ab"))
			_ = k.NameEqualUnsafe("ab")
			k.Type()
		}
		ReleaseKVEntry(k)
		vsym.Cover("pairs")
	case 1:
		s, m := AcquireMessageScanner(given), AcquireMessage()
		for s.Next(m) {
			_ = m.KV.Discard()
		}
		ReleaseMessage(m)
		ReleaseMessageScanner(s)
		vsym.Cover("messages")
	case 2:
		var t vsymArgTarget
		_ = NewKVScanner(given, -1).Unmarshal(&t)
		vsym.Cover("struct")
	case 3:
		if v, n, err := Varint(given); err == nil {
			_, _ = PutVarint(make([]byte, n), v)
		}
		vsym.Cover("integers")
	}
	vsym.AssertEqBytes(given, b, "input is changed by reading it")
}
