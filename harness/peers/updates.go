package peers

import (
	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

type vsymWant struct {
	def    int // which definition
	id     uint32
	idAny  bool
	expiry uint32
	key    []byte
	num    uint32
	data   uint64
}

// Any sequence of definitions, the four kinds of updates and messages without
// effect.
//
//vsym C20 name:sequence quick:msgs=3,wide=0 thorough:msgs=4,wide=1 sync expect:update,nodef,redefined,timed,implicit time:150/600
//vsym C20 name:kept quick:msgs=4,wide=0,lead=1,first=2 thorough:msgs=5,wide=0,lead=1,first=2 sync expect:update,redefined,timed,implicit,binary time:150/600
//vsym C20 name:same quick:msgs=4,wide=0,lead=1,same=1 thorough:msgs=5,wide=0,lead=1,same=1 sync expect:update,redefined,timed,implicit,binary time:150/600
//vsym C20 name:defined quick:msgs=4,wide=0,lead=1 thorough:msgs=5,wide=0,lead=1 sync expect:update,redefined,timed,implicit time:250/800
func VSym_Updates() {
	in := []byte(vsymHello)
	var want []vsymWant
	def, defs := -1, 0
	fails := false
	var last uint32
	haveLast := false
	n := vsym.Param("msgs", 3)
	first := vsym.Param("first", 0)
	same := vsym.Param("same", 0) == 1 // every definition is about the same table
	table := func(def int) int { return (def + first) % 3 }
	for i := 0; i < n && !fails; i++ {
		kind := 4
		if i > 0 || vsym.Param("lead", 0) == 0 {
			kind = vsym.Choose("kind", 7)
		}
		switch kind {
		case 0, 1, 2, 3:
			typ := []byte{0x80, 0x81, 0x85, 0x86}[kind]
			var w vsymWant
			var p []byte
			if kind == 0 || kind == 2 {
				w.id = vsym.U32("id")
				p = append(p, vsymBE32(w.id)...)
			} else if haveLast {
				w.id = last + 1
				vsym.Cover("implicit")
			} else {
				w.idAny = true
			}
			if kind >= 2 {
				w.expiry = vsym.U32("expiry")
				p = append(p, vsymBE32(w.expiry)...)
				vsym.Cover("timed")
			}
			w.def = def
			if def >= 0 && table(def) == 1 {
				w.num = vsym.U32("key")
				p = append(p, vsymBE32(w.num)...)
			} else if def >= 0 && table(def) == 2 {
				w.key = vsym.Bytes("key", 2)
				p = append(p, w.key...)
			} else {
				w.key = vsym.Bytes("key", vsym.Choose("keylen", 3))
				p = append(p, byte(len(w.key)))
				p = append(p, w.key...)
			}
			w.data = uint64(vsym.U32("data"))
			if vsym.Param("wide", 0) == 0 || i > 0 {
				vsym.Assume(w.data < 240)
			}
			p = append(p, vsym.RefVarint(w.data)...)
			in = append(in, vsymMsg(10, typ, p)...)
			if def < 0 {
				fails = true
				vsym.Cover("nodef")
				break
			}
			last, haveLast = w.id, !w.idAny
			want = append(want, w)
		case 4: // definitions alternate between string, integer and binary keys
			def = defs
			defs++
			id, name := byte(def), []string{"a", "b", "a"}[table(def)]
			if same {
				id, name = 7, "a"
			}
			switch table(def) {
			case 0:
				in = append(in, vsymDef(id, name, 6, 9, 2, 5)...)
			case 1:
				in = append(in, vsymDef(id, name, 2, 4, 2, 5)...)
			case 2:
				in = append(in, vsymDef(id, name, 7, 2, 2, 5)...)
				vsym.Cover("binary")
			}
			if def > 0 {
				vsym.Cover("redefined")
			}
		case 5:
			in = append(in, vsymMsg(10, 0x84, []byte{vsym.U8("table")}, vsymBE32(vsym.U32("acked")))...)
		case 6:
			in = append(in, vsymMsg(0, []byte{1, 2, 3, 4}[vsym.Choose("control", 4)])...)
		}
	}
	if fails {
		// what follows the failure has no effect
		in = append(in, vsymDef(9, "z", 2, 4, 2, 5)...)
		in = append(in, vsymMsg(10, 0x80, vsymBE32(1), vsymBE32(2), []byte{3})...)
	}
	conn := vsymNewConn(in)
	if !fails {
		conn.end = nil // the session stays up
	}
	h := &vsymHandler{}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(len(h.calls) > 0 && h.calls[0].hello != nil, "handshake not reported")
	calls := h.calls[1:]
	vsym.Assert(len(calls) == len(want), "number of handler calls")
	for i, w := range want {
		c := calls[i]
		vsym.Assert(c.e != nil && !c.afterStop, "handler call")
		vsym.Assert(c.def != nil && (c.def.StickTableID == uint64(w.def) || same && c.def.StickTableID == 7), "definition of an update")
		vsym.Assert(w.idAny || c.e.LocalUpdateID == w.id, "update id")
		vsym.Assert(c.e.Expiry == w.expiry, "expiry")
		switch table(w.def) {
		case 1:
			k, ok := c.e.Key.(*sticktable.SignedIntegerKey)
			vsym.Assert(ok && uint32(*k) == w.num, "integer key")
		case 2:
			k, ok := c.e.Key.(*sticktable.BinaryKey)
			vsym.Assert(ok, "kind of key")
			vsym.AssertEqBytes(*k, w.key, "binary key")
		default:
			k, ok := c.e.Key.(*sticktable.StringKey)
			vsym.Assert(ok, "kind of key")
			vsym.AssertEqBytes([]byte(*k), w.key, "string key")
		}
		vsym.Assert(len(c.e.Data) == 1, "number of data values")
		d, ok := c.e.Data[0].(*sticktable.UnsignedIntegerData)
		vsym.Assert(ok && uint64(*d) == w.data, "data value")
		vsym.Cover("update")
	}
	vsym.Assert((h.closed == 1) == fails, "session ends without a failure or survives one")
	vsym.Assert(conn.isClosed() == fails, "connection of a failed session stays open or of a live one is closed")
}

// Definitions and updates that are cut off or cannot be decoded end the
// session: what follows is not taken for an update of some other table.
//
//vsym C20 name:malformed quick:name=2 thorough:name=6 sync expect:definition,update,type time:60/300
func VSym_UpdatesMalformed() {
	in := []byte(vsymHello)
	name := vsym.Bytes("name", vsym.Int("nameLen", 0, vsym.Param("name", 2)))
	good := vsymDef(3, "a", 6, 9, 4, 5)
	first := vsymMsg(10, 0x80, vsymBE32(7), []byte{1, 'k', 5})
	id := vsym.U8("table")
	vsym.Assume(id < 240)
	calls := 0
	switch vsym.Choose("before", 3) {
	case 1:
		in = append(in, good...)
	case 2:
		in = append(in, good...)
		in = append(in, first...)
		calls = 1
	}
	known := len(in) > len(vsymHello)
	switch vsym.Choose("what", 4) {
	case 0:
		p := append(append([]byte{id, byte(len(name))}, name...), 2, 4, 4|8, 5, 6, 7)
		in = append(in, vsymMsg(10, 0x82, p[:vsym.Choose("cut", len(p))])...)
		vsym.Cover("definition")
	case 1:
		bit := 27 + vsym.Choose("bit", 37)
		in = append(in, vsymMsg(10, 0x82, []byte{id, 1, 'b', 2, 4}, vsym.RefVarint(4|1<<bit), []byte{5, 6, 7})...)
		vsym.Cover("type")
	case 2:
		if !known {
			return
		}
		kind := vsym.Choose("kind", 4)
		var p []byte
		if kind == 0 || kind == 2 {
			p = append(p, vsymBE32(vsym.U32("id"))...)
		}
		if kind >= 2 {
			p = append(p, vsymBE32(vsym.U32("expiry"))...)
		}
		p = append(append(append(p, byte(len(name))), name...), 5)
		in = append(in, vsymMsg(10, []byte{0x80, 0x81, 0x85, 0x86}[kind], p[:vsym.Choose("cut", len(p))])...)
		vsym.Cover("update")
	case 3:
		kt := vsym.U8("keyType")
		vsym.Assume(kt != 2 && kt != 4 && kt != 5 && kt != 6 && kt != 7 && kt < 240)
		in = append(in, vsymMsg(10, 0x82, []byte{id, 1, 'b', kt, 4, 4, 5})...)
		in = append(in, vsymMsg(10, 0x80, vsymBE32(8), []byte{3, 1, 2, 3, 4, 5})...)
	}
	in = append(in, vsymMsg(10, 0x80, vsymBE32(9), []byte{1, 'k', 5})...)
	in = append(in, good...)
	in = append(in, first...)
	conn := vsymNewConn(in)
	conn.end = nil
	h := &vsymHandler{}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(len(h.calls) == 1+calls, "handler called for a message that cannot be decoded, or for one behind it")
	vsym.Assert(h.closed == 1 && conn.isClosed(), "session goes on after a message that cannot be decoded")
}

// The hundreds of updates of a long session are reported like its first ones,
// wherever their bytes lie in the stream.
//
//vsym C20 name:long quick:msgs=320,shifts=4,steps=9000000 thorough:msgs=2000,shifts=12,steps=40000000 sync expect:update,redefined,implicit,control,chunks time:200/800
func VSym_UpdatesLong() {
	in := []byte(vsymHello)
	id, first := vsym.U32("id"), vsym.U32("expiry")
	num := vsym.U32("key")
	key := func(i, n int) []byte {
		k := make([]byte, n)
		for j := range k {
			k[j] = byte('a' + (i+j)%26)
		}
		return k
	}
	// two tables are in use in turn, one of them is defined over and over
	str, ints := vsymDef(1, "strings", 6, 200, 2, 5), vsymDef(2, "ints", 2, 4, 2, 5)
	shift := vsym.Choose("shift", vsym.Param("shifts", 4)) * 7
	in = append(in, str...)
	in = append(in, vsymMsg(10, 0x85, vsymBE32(id), vsymBE32(first), []byte{byte(shift)}, key(0, shift), []byte{0})...)
	n := vsym.Param("msgs", 320)
	table := 1
	for i := 1; i < n; i++ {
		if i%50 == 0 {
			table = 3 - table
			if table == 1 {
				in = append(in, str...)
			} else {
				in = append(in, ints...)
			}
			vsym.Cover("redefined")
		}
		if i%7 == 3 {
			in = append(in, vsymMsg(0, byte(1+i%4))...)
			vsym.Cover("control")
		}
		var p []byte
		typ := byte(0x81)
		if i%3 == 0 {
			typ = 0x86
			p = append(p, vsymBE32(uint32(i))...)
		}
		if table == 1 {
			k := key(i, 11+i%40)
			p = append(append(p, byte(len(k))), k...)
		} else {
			p = append(p, vsymBE32(num)...)
		}
		in = append(in, vsymMsg(10, typ, p, []byte{byte(i % 240)})...)
		vsym.Cover("implicit")
	}
	conn := vsymNewConn(in)
	conn.end = nil
	if vsym.Bool("chunks") {
		for at := 1000; at < len(in); at += 1000 {
			conn.cuts = append(conn.cuts, at)
		}
		vsym.Cover("chunks")
	}
	h := &vsymHandler{}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
	vsym.Assert(len(h.calls) > 0 && h.calls[0].hello != nil, "handshake not reported")
	calls := h.calls[1:]
	vsym.Assert(len(calls) == n, "number of handler calls")
	table = 1
	for i, c := range calls {
		if i > 0 && i%50 == 0 {
			table = 3 - table
		}
		vsym.Assert(c.e != nil && c.def != nil && c.def.StickTableID == uint64(table), "definition of an update")
		vsym.Assert(c.e.LocalUpdateID == id+uint32(i), "update id")
		want := uint32(0)
		if i == 0 {
			want = first
		} else if i%3 == 0 {
			want = uint32(i)
		}
		vsym.Assert(c.e.Expiry == want, "expiry")
		if table == 1 {
			k, ok := c.e.Key.(*sticktable.StringKey)
			l := 11 + i%40
			if i == 0 {
				l = shift
			}
			vsym.Assert(ok && string(*k) == string(key(i, l)), "string key")
		} else {
			k, ok := c.e.Key.(*sticktable.SignedIntegerKey)
			vsym.Assert(ok && uint32(*k) == num, "integer key")
		}
		vsym.Assert(len(c.e.Data) == 1, "number of data values")
		d, ok := c.e.Data[0].(*sticktable.UnsignedIntegerData)
		vsym.Assert(ok && uint64(*d) == uint64(i%240), "data value")
		vsym.Cover("update")
	}
	vsym.Assert(h.closed == 0 && !conn.isClosed(), "session ends without a failure")
}
