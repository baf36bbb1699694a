package encoding

import (
	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// vsymMsg is one message of a NOTIFY payload.
type vsymMsg struct {
	name string
	args []vsymKV
}

func vsymPut(b []byte, pos int, v []byte) int {
	copy(b[pos:], v)
	return pos + len(v)
}

func vsymAnyMsg(maxName, maxArgs, kinds int) (m vsymMsg, size int) {
	m.name = vsym.String("msg", vsym.Int("msgLen", 0, maxName))
	size = len(vsymVarint(uint64(len(m.name)))) + len(m.name) + 1
	n := vsym.Choose("args", maxArgs+1)
	for i := 0; i < n; i++ {
		var e vsymKV
		e.kind = []int{8, 4, 1, 6, 0, 9, 7}[vsym.Choose("kind", kinds)]
		e.fill(maxName, maxName)
		m.args = append(m.args, e)
		size += e.size()
	}
	return
}

func (m *vsymMsg) put(b []byte, pos, count int) int {
	pos = vsymPut(b, pos, vsymVarint(uint64(len(m.name))))
	pos = vsymPut(b, pos, []byte(m.name))
	b[pos] = byte(count)
	pos++
	for i := range m.args {
		e := &m.args[i]
		pos = vsymPut(b, pos, vsymVarint(uint64(len(e.name))))
		pos = vsymPut(b, pos, []byte(e.name))
		h, p := e.wire()
		pos = vsymPut(b, pos, h)
		pos = vsymPut(b, pos, p)
	}
	return pos
}

// Several messages, of whose arguments the consumer reads any number before
// it moves on.
//
//vsym C05 name:two quick:msgs=2,args=2,name=100,kinds=1 thorough:msgs=2,args=2,name=3000,kinds=7 expect:done,partial,full,discard time:90/400
//vsym C05 name:long quick:msgs=2,args=1,name=260,kinds=1,wides=2 thorough:msgs=2,args=1,name=30000,kinds=2 expect:done,partial,full,discard time:40/400
//vsym C05 name:three quick:msgs=3,args=1,name=20,kinds=1 thorough:msgs=3,args=2,name=20,kinds=2 expect:done,partial,full,discard time:90/600
//vsym C05 name:args quick:msgs=1,args=3,name=200,kinds=2 thorough:msgs=1,args=4,name=300,kinds=4 expect:done,partial,full,discard time:60/400
//vsym C05 name:structs quick:msgs=2,args=2,name=2,kinds=2,structs=1 thorough:msgs=3,args=2,name=2,kinds=3,structs=1 expect:done,discard,struct,mismatch time:90/400
//vsym C05 name:four thorough-only quick:msgs=4,args=1,name=4,kinds=1 expect:done,partial,full,discard time:60/600
func VSym_Messages() {
	n := vsym.Param("msgs", 2)
	var ms []vsymMsg
	total := 0
	structs := vsym.Param("structs", 0) == 1
	wide := vsym.Choose("wide", vsym.Param("wides", 1))
	for i := 0; i < n; i++ {
		max := vsym.Param("name", 20)
		if vsym.Param("wides", 1) > 1 && i != wide {
			max = 3 // one message at a time has long names and values
		}
		m, size := vsymAnyMsg(max, vsym.Param("args", 1), vsym.Param("kinds", 2))
		for _, a := range m.args {
			vsym.Assume(!structs || a.num < 240)
		}
		ms = append(ms, m)
		total += size
	}
	buf := make([]byte, total)
	pos := 0
	for i := range ms {
		pos = ms[i].put(buf, pos, len(ms[i].args))
	}
	vsym.Assert(pos == total, "harness: size")

	s := AcquireMessageScanner(buf)
	m := AcquireMessage()
	k := AcquireKVEntry()
	for i := range ms {
		vsym.Assert(s.Next(m), "message missing")
		vsym.AssertEqBytes(m.NameBytes(), []byte(ms[i].name), "message name")
		args := ms[i].args
		r := 0
		if !structs {
			r = vsym.Choose("read", len(args)+2)
		} else if r = vsym.Choose("read", 2); r == 1 {
			// into a struct, which may fail at any of the arguments
			var dst struct {
				A string `spoe:"a"`
				B *int64 `spoe:"b"`
			}
			if m.KV.Unmarshal(&dst) != nil {
				vsym.Cover("mismatch")
			} else {
				vsym.Cover("struct")
				vsym.Assert(!m.KV.Next(k), "argument behind the last one")
			}
			r = 0
			args = nil
		}
		for j := 0; j < r; j++ {
			ok := m.KV.Next(k)
			if j >= len(args) {
				vsym.Assert(!ok, "argument that belongs to no or another message")
				vsym.Assert(m.KV.Error() == nil, "error behind the last argument")
				vsym.Cover("full")
				break
			}
			vsym.Assert(ok, "argument missing")
			args[j].checkEntry(k)
		}
		if r < len(args) {
			vsym.Cover("partial")
		}
		if vsym.Choose("discard", 2) == 1 {
			vsym.Assert(m.KV.Discard() == nil, "Discard failed")
			vsym.Assert(!m.KV.Next(k), "argument behind Discard")
			vsym.Cover("discard")
		}
	}
	vsym.Assert(!s.Next(m), "more messages than sent")
	vsym.Assert(s.Error() == nil, "error at the end of the payload")
	vsym.Cover("done")
}

// A message that announces more arguments than follow is an error, whether
// the consumer reads them or not, and no argument is made up.
//
//vsym C05 name:missing quick:args=2,name=200 thorough:args=3,name=3000 expect:done time:60/300
func VSym_MissingArgs() {
	m0, size := vsymAnyMsg(vsym.Param("name", 20), vsym.Param("args", 2), 2)
	have := len(m0.args)
	buf := make([]byte, size)
	count := int(vsym.U8("count"))
	vsym.Assume(count > have)
	m0.put(buf, 0, count)
	s := NewMessageScanner(buf)
	m := AcquireMessage()
	k := AcquireKVEntry()
	vsym.Assert(s.Next(m), "message missing")
	r := vsym.Choose("read", have+2)
	for j := 0; j < r; j++ {
		ok := m.KV.Next(k)
		if j == have {
			vsym.Assert(!ok, "argument made up")
			vsym.Assert(m.KV.Error() != nil, "missing argument is not an error")
			break
		}
		vsym.Assert(ok, "argument missing")
		m0.args[j].checkEntry(k)
	}
	vsym.Assert(!s.Next(m), "message made up")
	vsym.Assert(s.Error() != nil, "missing arguments are not an error")
	vsym.Cover("done")
}
