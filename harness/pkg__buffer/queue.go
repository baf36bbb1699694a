package buffer

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// vsymQueue is the abstract byte queue next to the buffer under test.
type vsymQueue struct {
	s    *SliceBuffer
	q    []byte // unread bytes
	room int    // bytes that can be written without growing
	last []byte // bytes handed out by the last read
	want []byte // their contents at that time
}

func (v *vsymQueue) check(at string) {
	r := v.s.ReadBytes()
	vsym.Assert(v.s.Len() == len(v.q), at+": Len")
	vsym.AssertEqBytes(r, v.q, at+": unread bytes")
	w := v.s.WriteBytes()
	vsym.Assert(len(w) == v.room, at+": room")
	vsym.AssertEqBytes(v.last, v.want, at+": bytes that were read")
}

// fill overwrites all free room, which must not touch the unread bytes.
func (v *vsymQueue) fill(at string) {
	w := v.s.WriteBytes()
	copy(w, vsym.Bytes(at+" garbage", len(w)))
}

func (v *vsymQueue) write(at string, how int) {
	n := vsym.Int(at+" n", 0, 100000)
	vsym.Assume(n <= v.room)
	data := vsym.Bytes(at+" data", n)
	if how == 0 {
		copy(v.s.WriteBytes(), data)
		v.s.AdvanceW(n)
	} else {
		w := v.s.WriteNBytes(n)
		vsym.Assert(len(w) == n, at+": WriteNBytes length")
		copy(w, data)
	}
	q := make([]byte, len(v.q)+n)
	vsym.Put(q, vsym.Put(q, 0, v.q), data)
	v.q = q
	v.room -= n
}

func (v *vsymQueue) read(at string, how int) {
	n := vsym.Int(at+" n", 0, 100000)
	vsym.Assume(n <= len(v.q))
	var r []byte
	if how == 0 {
		r = v.s.ReadBytes()[:n]
		v.s.AdvanceR(n)
	} else {
		r = v.s.ReadNBytes(n)
	}
	vsym.AssertEqBytes(r, v.q[:n], at+": bytes read")
	v.last, v.want = r, vsym.Copy(v.q[:n])
	v.q = v.q[n:]
}

func (v *vsymQueue) op(at string, kind int) {
	switch kind {
	case 0, 1:
		v.write(at, kind)
	case 2, 3:
		v.read(at, kind-2)
	case 4:
		n := vsym.Int(at+" n", 0, 100000)
		v.s.Grow(n)
		// what was handed out before belongs to the old contents
		v.last, v.want = nil, nil
		w := v.s.WriteBytes()
		vsym.Assert(len(w) >= n, at+": room after Grow")
		vsym.Assert(len(w) >= v.room, at+": Grow reduces the room")
		v.room = len(w)
		vsym.Cover("grow")
	case 5:
		v.s.Reset()
		v.q, v.last, v.want = nil, nil, nil
		w := v.s.WriteBytes()
		vsym.Assert(len(w) >= v.room, at+": room after Reset")
		v.room = len(w)
		vsym.Cover("reset")
	}
	v.check(at)
}

// Any operations on a buffer in any state that writing and reading leads to.
//
//vsym C28 name:ops quick:ops=2 thorough:ops=3 expect:grow,reset time:150/700
func VSym_Queue() {
	size := vsym.Int("size", 0, 100000)
	v := &vsymQueue{s: NewSliceBuffer(size), room: size}
	v.check("new")
	v.write("first write", 1)
	v.check("first write")
	v.read("first read", 1)
	v.check("first read")
	for i := 0; i < vsym.Param("ops", 3); i++ {
		v.op("op"+string(rune('0'+i)), vsym.Choose("op", 6))
	}
	v.fill("end")
	v.check("end")
}

// A buffer around existing bytes starts with those bytes and never touches
// what lies behind them.
//
//vsym C28 name:slice quick:ops=2 thorough:ops=4 expect:grow,reset time:100/500
func VSym_QueueSlice() {
	n := vsym.Int("len", 0, 100000)
	all := vsym.Bytes("all", n+16)
	behind := vsym.Copy(all[n:])
	v := &vsymQueue{s: NewSliceBufferWithSlice(all[:n]), q: vsym.Copy(all[:n])}
	v.check("new")
	for i := 0; i < vsym.Param("ops", 2); i++ {
		v.op("op"+string(rune('0'+i)), vsym.Choose("op", 6))
	}
	v.fill("end")
	v.check("end")
	vsym.AssertEqBytes(all[n:], behind, "bytes behind the buffer")
}

// Reset makes all of the buffer available again.
//
//vsym C28 name:reset expect:reset
func VSym_QueueReset() {
	size := vsym.Int("size", 0, 100000)
	v := &vsymQueue{s: NewSliceBuffer(size), room: size}
	v.write("write", 0)
	v.read("read", 0)
	v.op("op", 5)
	vsym.Assert(v.room == size, "room after Reset is the whole buffer")
}
