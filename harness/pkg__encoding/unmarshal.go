package encoding

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

type vsymText string

// vsymTarget has a field of every supported type, once as a value and once
// optional, and some that never take part.
type vsymTarget struct {
	Before uint64
	S      string      `spoe:"a"`
	B      []byte      `spoe:"b"`
	I32    int32       `spoe:"c"`
	I64    int64       `spoe:"d"`
	U32    uint32      `spoe:"e,omitempty"`
	U64    uint64      `spoe:"f" json:"z"`
	T      bool        `spoe:"g"`
	IP     netip.Addr  `spoe:"h"`
	N      vsymText    `spoe:"i"`
	Dash   string      `spoe:"-"`
	PS     *string     `spoe:"A"`
	PB     *[]byte     `spoe:"B"`
	PI32   *int32      `spoe:"C"`
	PI64   *int64      `spoe:"D"`
	PU32   *uint32     `spoe:"E"`
	PU64   *uint64     `spoe:"F,omitempty"`
	PT     *bool       `spoe:"G"`
	PIP    *netip.Addr `spoe:"H"`
	Empty  string      `spoe:""`
	Comma  string      `spoe:",omitempty"`
	Other  string      `json:"a"`
	PPlain *string
	hidden uint64
}

// vsymField is what a field is expected to hold.
type vsymField struct {
	key  byte
	kind byte // kind of the entry that it holds, 255: what it held before
	num  uint64
	val  []byte
}

// accepts says whether a field takes values of the type.
func (f *vsymField) accepts(kind byte) bool {
	key := f.key | 32
	switch kind {
	case 0:
		return f.key < 'a'
	case 1:
		return key == 'g'
	case 2:
		return key == 'c'
	case 3:
		return key == 'e'
	case 4:
		return key == 'd'
	case 5:
		return key == 'f'
	case 6, 7:
		return key == 'h'
	case 8:
		return key == 'a' || key == 'b' || key == 'i'
	case 9:
		return key == 'b'
	}
	return false
}

const vsymKeys = "abcdefghiABCDEFGH"

// vsymWant are the expected contents of a target.
type vsymWant struct {
	fields [len(vsymKeys)]vsymField
	old    vsymTarget
	oldB   []byte
	oldStr []byte
	failed bool
}

// vsymDirty is a target with arbitrary contents.
func vsymDirty() (*vsymTarget, *vsymWant) {
	t, w := &vsymTarget{}, &vsymWant{}
	for i := range w.fields {
		w.fields[i].key = vsymKeys[i]
		w.fields[i].kind = 255
	}
	str := vsym.String("oldStr", 3)
	num := vsym.U64("oldNum")
	if vsym.Choose("dirty", 2) == 1 {
		w.oldB = vsym.Bytes("oldBytes", 2)
		w.oldStr = []byte(str)
		ip := netip.AddrFrom4([4]byte{1, 2, 3, 4})
		b, s, i32, i64, u32, u64, bo := vsymCopy(w.oldB), str, int32(num), int64(num), uint32(num), num, num&1 > 0
		ip2 := ip
		*t = vsymTarget{num, str, vsymCopy(w.oldB), int32(num), int64(num), uint32(num), num, num&1 > 0, ip, vsymText(str), str,
			&s, &b, &i32, &i64, &u32, &u64, &bo, &ip2, str, str, str, &str, num}
	}
	w.old = *t
	return t, w
}

// put notes an entry.
func (w *vsymWant) put(name []byte, kind byte, num uint64, val []byte) {
	if w.failed || len(name) != 1 {
		return
	}
	for i := range w.fields {
		f := &w.fields[i]
		if vsym.Fork(f.key == name[0]) {
			if !f.accepts(kind) {
				w.failed = true
				return
			}
			f.kind, f.num, f.val = kind, num, vsymCopy(val)
			return
		}
	}
}

func vsymSameStr(s string, b []byte, what string) {
	vsym.AssertEqBytes([]byte(s), b, what)
}

// check compares the target with what is expected.
func (w *vsymWant) check(t *vsymTarget) {
	o := &w.old
	vsym.Assert(t.Before == o.Before && t.hidden == o.hidden && t.PPlain == o.PPlain, "field without a tag is changed")
	vsymSameStr(t.Dash, w.oldStr, "field that is left out by its tag")
	vsymSameStr(t.Empty, w.oldStr, "field with an empty tag")
	vsymSameStr(t.Comma, w.oldStr, "field with an empty key")
	vsymSameStr(t.Other, w.oldStr, "field with another tag")
	for i := range w.fields {
		f := &w.fields[i]
		set := f.kind != 255
		if f.key < 'a' {
			var null bool
			switch f.key {
			case 'A':
				null = t.PS == nil
			case 'B':
				null = t.PB == nil
			case 'C':
				null = t.PI32 == nil
			case 'D':
				null = t.PI64 == nil
			case 'E':
				null = t.PU32 == nil
			case 'F':
				null = t.PU64 == nil
			case 'G':
				null = t.PT == nil
			case 'H':
				null = t.PIP == nil
			}
			vsym.Assert(null == (!set || f.kind == 0), "optional field is nil exactly if its key is absent or null")
			if null {
				continue
			}
		}
		switch f.key {
		case 'a':
			if !set {
				f.val = w.oldStr
			}
			vsymSameStr(t.S, f.val, "string field")
		case 'i':
			if !set {
				f.val = w.oldStr
			}
			vsymSameStr(string(t.N), f.val, "named string field")
		case 'b':
			if !set {
				f.val = w.oldB
			}
			vsym.AssertEqBytes(t.B, f.val, "bytes field")
		case 'c':
			vsym.Assert(t.I32 == int32(f.num) && set || !set && t.I32 == o.I32, "int32 field")
		case 'd':
			vsym.Assert(t.I64 == int64(f.num) && set || !set && t.I64 == o.I64, "int64 field")
		case 'e':
			vsym.Assert(t.U32 == uint32(f.num) && set || !set && t.U32 == o.U32, "uint32 field")
		case 'f':
			vsym.Assert(t.U64 == f.num && set || !set && t.U64 == o.U64, "uint64 field")
		case 'g':
			vsym.Assert(t.T == (f.num != 0) && set || !set && t.T == o.T, "bool field")
		case 'h':
			if !set {
				vsym.Assert(t.IP == o.IP, "address field")
			} else {
				vsym.AssertEqBytes(t.IP.AsSlice(), f.val, "address field")
			}
		case 'A':
			vsymSameStr(*t.PS, f.val, "optional string field")
		case 'B':
			vsym.AssertEqBytes(*t.PB, f.val, "optional bytes field")
		case 'C':
			vsym.Assert(*t.PI32 == int32(f.num), "optional int32 field")
		case 'D':
			vsym.Assert(*t.PI64 == int64(f.num), "optional int64 field")
		case 'E':
			vsym.Assert(*t.PU32 == uint32(f.num), "optional uint32 field")
		case 'F':
			vsym.Assert(*t.PU64 == f.num, "optional uint64 field")
		case 'G':
			vsym.Assert(*t.PT == (f.num != 0), "optional bool field")
		case 'H':
			vsym.AssertEqBytes(t.PIP.AsSlice(), f.val, "optional address field")
		}
	}
}

func (w *vsymWant) result(t *vsymTarget, err error) {
	if w.failed {
		vsym.Assert(err != nil, "value of the wrong type is accepted")
		vsym.Cover("mismatch")
		return
	}
	vsym.Assert(err == nil, "matching values are rejected")
	w.check(t)
	vsym.Cover("assigned")
}

// vsymPair is the wire format of an entry with the kind, and what it holds.
func (w *vsymWant) pair(out []byte, name []byte, kind byte, max int) []byte {
	e := vsymKV{kind: int(kind)}
	e.fill(0, max)
	head, val := e.wire()
	w.put(name, kind, e.num, val)
	return vsymCat(out, vsymVarint(uint64(len(name))), name, head, val)
}

// One entry of any type with any name.
//
//vsym C07 name:matrix quick:len=300 thorough:len=70000 expect:assigned,mismatch,unknown time:60/200
func VSym_UnmarshalOne() {
	t, w := vsymDirty()
	name := vsym.Bytes("key", vsym.Int("keyLen", 0, 2))
	in := w.pair(nil, name, byte(vsym.Choose("kind", 10)), vsym.Param("len", 300))
	known := false
	for i := range w.fields {
		known = known || w.fields[i].kind != 255
	}
	if !known && !w.failed {
		vsym.Cover("unknown")
	}
	err := NewKVScanner(in, -1).Unmarshal(t)
	// later frames overwrite the buffer
	copy(in, vsym.Bytes("noise", len(in)))
	w.result(t, err)
}

// Several entries: the last value of a key counts, also if it is null.
//
//vsym C07 name:sequence quick:entries=3,len=20 thorough:entries=4,len=300 expect:assigned,mismatch,twice,nulled,limited time:100/400
func VSym_UnmarshalMany() {
	t, w := vsymDirty()
	n := vsym.Int("entries", 0, vsym.Param("entries", 3))
	var in []byte
	var keys, kinds [8]byte
	for i := 0; vsym.Fork(i < n); i++ {
		// a string, an optional number and a name without a field
		keys[i] = "aEx"[vsym.Choose("key", 3)]
		kinds[i] = []byte{8, 3, 0}[vsym.Choose("kind", 3)]
		in = w.pair(in, keys[i:i+1], kinds[i], vsym.Param("len", 20))
		for j := 0; j < i; j++ {
			if keys[j] == keys[i] && !w.failed && keys[i] != 'x' {
				vsym.Cover("twice")
				if keys[i] == 'E' && kinds[i] == 0 && kinds[j] != 0 {
					vsym.Cover("nulled")
				}
			}
		}
	}
	count := -1
	if vsym.Choose("limit", 2) == 1 {
		count = vsym.Concrete(n)
		vsym.Cover("limited")
		in = vsymCat(in, []byte{1, 'a', 8, 3, 'x', 'y', 'z'})
	}
	s := NewKVScanner(in, count)
	err := s.Unmarshal(t)
	left := s.RemainingBuf()
	copy(in, vsym.Bytes("noise", len(in)))
	w.result(t, err)
	if err == nil && count >= 0 {
		vsym.Assert(left == 7, "entries behind the last one are consumed")
	}
}

// Arbitrary bytes, behind another entry or not.
//
//vsym C07 name:bytes quick:len=5 thorough:len=7 expect:assigned,mismatch,bad time:100/400
func VSym_UnmarshalBytes() {
	t, w := vsymDirty()
	n := vsym.Int("len", 0, vsym.Param("len", 7))
	in := vsym.Bytes("in", n)
	if vsym.Choose("before", 2) == 1 {
		in = vsymCat([]byte{1, 'A', 8, 1, 'x'}, in)
	}
	bad := false
	for rest := in; vsym.Fork(len(rest) > 0); {
		e := vsymRefEntry(rest)
		if e.weird {
			return
		}
		if e.bad {
			bad = true
			break
		}
		num := e.num
		if e.kind == 1 {
			num = 0
			if vsym.Fork(e.flag) {
				num = 1
			}
		}
		if e.kind == 2 && uint64(int64(int32(num))) != num || e.kind == 3 && uint64(uint32(num)) != num {
			return // beyond the announced type
		}
		w.put(e.name, e.kind, num, e.val)
		if w.failed {
			break
		}
		rest = rest[e.used:]
	}
	err := NewKVScanner(in, -1).Unmarshal(t)
	if bad {
		vsym.Assert(err != nil, "malformed data is accepted")
		vsym.Cover("bad")
		return
	}
	w.result(t, err)
}

type vsymOdd struct {
	F  float64         `spoe:"a"`
	I  int             `spoe:"b"`
	A  [4]byte         `spoe:"c"`
	L  []string        `spoe:"d"`
	PP **string        `spoe:"e"`
	M  map[string]bool `spoe:"f"`
	X  any             `spoe:"g"`
	T  vsymText2       `spoe:"h"`
	PF *float64        `spoe:"i"`
	C  chan int        `spoe:"j"`
	I8 int8            `spoe:"k"`
	h  string          `spoe:"l"`
	OK string          `spoe:"z"`
}

// an optional field that cannot be set
type vsymHidden struct {
	OK string  `spoe:"z"`
	ph *string `spoe:"m"`
}

type vsymText2 struct{ A string }

// Targets and fields that are not supported give an error.
//
//vsym C07 name:unsupported expect:target,field,untouched
func VSym_UnmarshalOdd() {
	w := &vsymWant{}
	kind := byte(vsym.Choose("kind", 10))
	key := byte(vsym.Int("key", 'a', 'n'))
	in := w.pair(nil, []byte{key}, kind, 3)
	s := NewKVScanner(in, -1)
	switch vsym.Choose("target", 8) {
	case 0:
		vsym.Assert(s.Unmarshal(nil) != nil, "nil target is accepted")
	case 1:
		vsym.Assert(s.Unmarshal(vsymOdd{}) != nil, "target that is no pointer is accepted")
	case 2:
		vsym.Assert(s.Unmarshal((*vsymOdd)(nil)) != nil, "nil pointer is accepted")
	case 3:
		n := 3
		vsym.Assert(s.Unmarshal(&n) != nil && n == 3, "pointer to a number is accepted")
	case 4:
		p := &vsymOdd{}
		vsym.Assert(s.Unmarshal(&p) != nil, "pointer to a pointer is accepted")
	case 5:
		o := &vsymHidden{OK: "was"}
		err := s.Unmarshal(o)
		vsym.Assert(o.OK == "was" && o.ph == nil, "other field is changed")
		vsym.Assert(err != nil || key != 'm', "value for a field that cannot be set is accepted")
	default:
		o := &vsymOdd{OK: "was"}
		err := s.Unmarshal(o)
		vsym.Assert(o.OK == "was" && o.h == "" && o.PP == nil && o.F == 0 && o.I == 0 && o.I8 == 0, "other field is changed")
		if key >= 'm' {
			vsym.Assert(err == nil, "unknown key is not ignored")
			vsym.Cover("untouched")
		} else if !(kind == 0 && (key == 'e' || key == 'i')) {
			vsym.Assert(err != nil, "value for a field of an unsupported type is accepted")
			vsym.Cover("field")
		}
		return
	}
	vsym.Cover("target")
}

func vsymCat(bs ...[]byte) []byte {
	n := 0
	for _, b := range bs {
		n += len(b)
	}
	out := make([]byte, n)
	pos := 0
	for _, b := range bs {
		pos = vsym.Put(out, pos, b)
	}
	return out
}

// What was taken from the fields of a struct stays as it is when the struct is
// filled again.
//
//vsym C07 name:reuse quick:len=3 thorough:len=40 expect:kept,absent,null,again time:60/200
func VSym_UnmarshalReuse() {
	t, w := vsymDirty()
	key := "bABCDEFGH"[vsym.Choose("key", 9)]
	var kinds []byte
	for k := byte(1); k < 10; k++ {
		if (&vsymField{key: key}).accepts(k) {
			kinds = append(kinds, k)
		}
	}
	kind := kinds[vsym.Choose("kind", len(kinds))]
	before := *t
	in := w.pair(nil, []byte{key}, kind, vsym.Param("len", 3))
	vsym.Assert(NewKVScanner(in, -1).Unmarshal(t) == nil, "matching values are rejected")
	kept := *t
	next := &vsymWant{}
	for i := range next.fields {
		next.fields[i].key = vsymKeys[i]
	}
	switch vsym.Choose("next", 3) {
	case 0:
		in = nil
		vsym.Cover("absent")
	case 1:
		if key == 'b' {
			return
		}
		in = next.pair(nil, []byte{key}, 0, 0)
		vsym.Cover("null")
	case 2:
		in = next.pair(nil, []byte{key}, kind, vsym.Param("len", 3))
		in = next.pair(in, []byte{key}, kind, vsym.Param("len", 3))
		vsym.Cover("again")
	}
	vsym.Assert(NewKVScanner(in, -1).Unmarshal(t) == nil, "matching values are rejected")
	w.check(&kept)
	if before.PS != nil {
		o := &w.old
		vsymSameStr(*before.PS, w.oldStr, "string that a field referred to")
		vsym.AssertEqBytes(before.B, w.oldB, "bytes that a field referred to")
		vsym.AssertEqBytes(*before.PB, w.oldB, "bytes that a field referred to")
		vsym.Assert(*before.PI32 == o.I32 && *before.PI64 == o.I64 && *before.PU32 == o.U32 && *before.PU64 == o.U64 && *before.PT == o.T && *before.PIP == o.IP, "value that a field referred to")
	}
	vsym.Cover("kept")
}
