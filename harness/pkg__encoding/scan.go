package encoding

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// One step of the key/value scanner over arbitrary bytes that lie in the
// middle of a larger buffer.
//
//vsym C04 quick:len=70000,ints=3 thorough:len=3000000,ints=10 expect:entry,bad time:60/300
func VSym_ScanStep() {
	n := vsym.Int("len", 0, vsym.Param("len", 100))
	all := vsym.Bytes("in", n+12)
	b := all[5 : 5+n]
	if _, nn := vsymDecode(b); nn > vsym.Param("ints", 3) {
		return // see the short inputs below
	}
	want := vsymRefEntry(b)
	if want.weird {
		return // overlong integers: see the short inputs below
	}
	k := AcquireKVEntry()
	s := NewKVScanner(b, -1)
	ok := s.Next(k)
	if n == 0 {
		vsym.Assert(!ok && s.Error() == nil, "empty input")
		return
	}
	if want.bad {
		vsym.Assert(!ok, "entry reported for cut off or unknown data")
		vsym.Assert(s.Error() != nil, "no error for cut off or unknown data")
		vsym.Assert(!s.Next(k), "scan goes on after an error")
		vsym.Cover("bad")
		return
	}
	vsym.Assert(ok, "valid entry rejected")
	vsym.Assert(s.Error() == nil, "error on a valid entry")
	want.same(k)
	vsym.Assert(s.RemainingBuf() == n-want.used, "scanner consumed the wrong number of bytes")
	vsym.Cover("entry")
	vsym.Observe("used", uint64(want.used))
}

// A whole scan of short arbitrary input, with an entry limit or without.
//
//vsym C04 quick:len=7 thorough:len=11 expect:end,bad time:60/400
func VSym_ScanAll() {
	n := vsym.Int("len", 0, vsym.Param("len", 7))
	b := vsym.Bytes("in", n)
	limit := -1
	if vsym.Fork(vsym.Bool("limited")) {
		limit = vsym.Choose("limit", 4)
	}
	s := NewKVScanner(b, limit)
	k := AcquireKVEntry()
	got := 0
	for {
		if limit >= 0 && got == limit {
			vsym.Assert(!s.Next(k) && s.Error() == nil, "more entries than announced")
			vsym.Assert(s.RemainingBuf() == len(b), "bytes behind the last entry consumed")
			vsym.Cover("end")
			return
		}
		if len(b) == 0 {
			vsym.Assert(!s.Next(k), "entry from nothing")
			if limit < 0 {
				vsym.Assert(s.Error() == nil, "error at the end")
			} else {
				vsym.Assert(s.Error() != nil, "missing entries are not an error")
			}
			vsym.Cover("end")
			return
		}
		want := vsymRefEntry(b)
		ok := s.Next(k)
		if want.weird {
			return
		}
		if want.bad {
			vsym.Assert(!ok && s.Error() != nil, "bad entry accepted")
			vsym.Assert(s.Discard() != nil, "Discard forgets the error")
			vsym.Cover("bad")
			return
		}
		vsym.Assert(ok, "valid entry rejected")
		want.same(k)
		b = b[want.used:]
		got++
	}
}

// Discard skips all entries and reports malformed data.
//
//vsym C04 quick:len=6 thorough:len=9 expect:end time:60/300
func VSym_Discard() {
	n := vsym.Int("len", 0, vsym.Param("len", 6))
	b := vsym.Bytes("in", n)
	s := NewKVScanner(b, -1)
	err := s.Discard()
	for len(b) > 0 {
		e := vsymRefEntry(b)
		if e.weird {
			return
		}
		if e.bad {
			vsym.Assert(err != nil, "Discard accepts malformed data")
			return
		}
		b = b[e.used:]
	}
	vsym.Assert(err == nil, "Discard rejects valid data")
	vsym.Assert(s.RemainingBuf() == 0, "Discard leaves data")
	vsym.Cover("end")
}

// Messages over arbitrary input: names, counts and positions follow the wire
// format, malformed data ends the scan with an error.
//
//vsym C04 quick:len=40000 thorough:len=300000 expect:msg,bad time:60/300
func VSym_MessageStep() {
	n := vsym.Int("len", 0, vsym.Param("len", 100))
	all := vsym.Bytes("in", n+9)
	b := all[3 : 3+n]
	l, vn := vsymDecode(b)
	if vn < 0 {
		return
	}
	s := NewMessageScanner(b)
	m := AcquireMessage()
	ok := s.Next(m)
	if n == 0 {
		vsym.Assert(!ok && s.Error() == nil, "empty input")
		return
	}
	if vn == 0 || l >= uint64(n-vn) {
		vsym.Assert(!ok, "message reported for cut off data")
		vsym.Assert(s.Error() != nil, "no error for cut off data")
		vsym.Assert(!s.Next(m), "scan goes on after an error")
		vsym.Cover("bad")
		return
	}
	vsym.Assert(ok && s.Error() == nil, "valid message rejected")
	vsym.AssertEqBytes(m.NameBytes(), b[vn:vn+int(l)], "message name")
	vsym.Assert(m.KV != nil, "message without argument scanner")
	vsym.Assert(m.KV.RemainingBuf() == n-vn-int(l)-1, "arguments start at the wrong place")
	vsym.Cover("msg")
}

// Whole payloads of short arbitrary input.
//
//vsym C04 quick:len=6 thorough:len=9 expect:end,bad time:100/500
func VSym_MessagesAll() {
	n := vsym.Int("len", 0, vsym.Param("len", 7))
	b := vsym.Bytes("in", n)
	s := NewMessageScanner(b)
	m := AcquireMessage()
	k := AcquireKVEntry()
	read := vsym.Choose("read", 2) == 1
	for {
		ok := s.Next(m)
		if len(b) == 0 {
			vsym.Assert(!ok && s.Error() == nil, "end of the payload")
			vsym.Cover("end")
			return
		}
		l, vn := vsymDecode(b)
		if vn < 0 {
			return
		}
		if vn == 0 || l >= uint64(len(b)-vn) {
			vsym.Assert(!ok && s.Error() != nil, "cut off message accepted")
			vsym.Cover("bad")
			return
		}
		vsym.Assert(ok, "valid message rejected")
		vsym.AssertEqBytes(m.NameBytes(), b[vn:vn+int(l)], "message name")
		p := vn + int(l)
		cnt := int(b[p])
		b = b[p+1:]
		for i := 0; i < cnt; i++ {
			e := vsymRefEntry(b)
			if e.weird {
				return
			}
			if e.bad {
				if read {
					vsym.Assert(!m.KV.Next(k) && m.KV.Error() != nil, "bad argument accepted")
				}
				vsym.Assert(!s.Next(m) && s.Error() != nil, "message behind a bad argument")
				vsym.Cover("bad")
				return
			}
			if read {
				vsym.Assert(m.KV.Next(k), "argument rejected")
				e.same(k)
			}
			b = b[e.used:]
		}
		if read {
			vsym.Assert(!m.KV.Next(k) && m.KV.Error() == nil, "too many arguments")
		}
	}
}
