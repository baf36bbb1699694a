package spop

import (
	"context"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// Every NOTIFY of a session is answered by one ACK with its ids and actions.
//
//vsym C10 name:ids quick:cpus=2,frames=2,msgs=2,acts=2 thorough:cpus=2,frames=3,msgs=2,acts=2 sync expect:ack,message,action,unread,part,read time:100/400
func VSym_AckIDs() {
	conn := vsymNewConn(vsymHelloFrame(16380))
	conn.feed = make(chan []byte)
	calls := 0
	var actions []byte
	var names []string
	args, msgs := 0, 0
	read, kind, first := 0, -1, true
	key, val := "", uint32(0)
	base := context.Background()
	mode := vsym.Choose("mode", 3) // 0: ids of any length, 1: messages and actions, 2: values
	many := mode == 1
	vsymServe(base, func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		vsym.Assert(calls <= msgs, "handler is invoked too often")
		vsym.Assert(string(m.NameBytes()) == names[calls-1], "messages are out of order")
		k := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(k)
		if first && calls == 1 {
			read = vsym.Choose("read", 3)
		}
		if read > 0 && args > 0 {
			vsym.Assert(m.KV.Next(k), "argument is missing")
			vsym.Assert(string(k.NameBytes()) == key && k.ValueInt() == int64(val), "argument")
		}
		if read == 2 {
			for i := 1; i < args; i++ {
				vsym.Assert(m.KV.Next(k), "argument is missing")
			}
			vsym.Assert(!m.KV.Next(k) && m.KV.Error() == nil, "excess argument")
			vsym.Cover("read")
		} else if read == 1 && args > 1 {
			vsym.Cover("part")
		} else if args > 0 {
			vsym.Cover("unread")
		}
		n := 1
		if many {
			n = vsym.Choose("actions", vsym.Param("acts", 2)+1)
		}
		for i := 0; i < n; i++ {
			if kind < 0 && mode > 0 {
				kind = vsym.Choose("kind", 6)
			}
			kind++
			actions = vsymCat(actions, vsymAct(w, kind%6, "var", mode < 2))
			vsym.Cover("action")
		}
	}, conn)
	vsym.Settle()
	frames := 1
	if many {
		frames += vsym.Choose("frames", vsym.Param("frames", 2))
	}
	for i := 0; i < frames; i++ {
		stream, id := vsym.U64("stream"), vsym.U64("frame")
		first = i == 0
		if mode > 0 || !first {
			vsym.Assume(stream < 240 && id < 240)
		}
		calls, actions, names = 0, nil, nil
		msgs, args = 1, 0
		if mode == 2 {
			args = 1
		}
		if first && many {
			msgs = vsym.Choose("messages", vsym.Param("msgs", 2)+1)
			args = vsym.Choose("args", 3)
		}
		key, val = "key", vsym.U32("argument")
		if mode < 2 {
			vsym.Assume(val < 240)
		}
		var list []byte
		for j := 0; j < msgs; j++ {
			name := vsym.String("name", j+1)
			names = append(names, name)
			kvs := [][]byte{vsymKVU32(key, val), vsymKVStr("other", "thing")}
			list = vsymCat(list, vsymMessage(name, kvs[:args]...))
			vsym.Cover("message")
		}
		conn.out = nil
		conn.feed <- vsymFrame(3, 1, stream, id, list)
		vsym.Settle()
		vsym.Assert(!conn.isClosed(), "session is ended")
		vsym.Assert(calls == msgs, "number of handler calls")
		vsym.AssertEqBytes(conn.out, vsymAck(stream, id, actions), "ACK")
		vsym.Cover("ack")
	}
}

// Any frame payload: if it is a list of messages each of them is handed over
// once and in order and one ACK follows, else there is none.
//
//vsym C10 name:any quick:cpus=2,len=7 thorough:cpus=2,len=10 sync expect:ack,none time:100/400
func VSym_AckAny() {
	payload := vsym.Bytes("payload", vsym.Int("len", 0, vsym.Param("len", 5)))
	stream, id := uint64(7), uint64(9)
	conn := vsymNewConn(vsymHelloFrame(16380))
	conn.feed = make(chan []byte)
	var seen []byte
	calls := 0
	vsymServe(nil, func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		calls++
		seen = vsymCat(seen, vsymStr(string(m.NameBytes())))
		_ = w.SetInt64(encoding.VarScopeSession, "n", int64(calls))
	}, conn)
	vsym.Settle()
	conn.out = nil
	conn.feed <- vsymFrame(3, 1, stream, id, payload)
	vsym.Settle()
	names, n, ok := vsymMessages(payload)
	if ok {
		vsym.Assert(!conn.isClosed(), "session is ended")
		var acts []byte
		for i := 1; i <= n; i++ {
			acts = vsymCat(acts, vsymSetVar(1, "n", int64(i)))
		}
		vsym.Assert(calls == n, "number of handler calls")
		vsym.AssertEqBytes(seen, names, "names of the messages")
		vsym.AssertEqBytes(conn.out, vsymAck(stream, id, acts), "ACK")
		vsym.Cover("ack")
	} else {
		frames, rest := vsymFrames(conn.out)
		vsym.Assert(len(rest) == 0, "torn frame")
		for _, f := range frames {
			vsym.Assert(f[4] != 103, "ACK for malformed messages")
		}
		vsym.Cover("none")
	}
}

// An ACK is sent exactly if it fits the negotiated size.
//
//vsym C10 name:limit quick:cpus=2,max=700,acts=2 thorough:cpus=2,max=140000,acts=2 sync expect:fits,exceeds time:100/400
//vsym C10 name:large quick:cpus=2,min=65400,max=65700,acts=1 thorough:cpus=2,min=65400,max=140000,acts=2 sync expect:fits,exceeds time:100/400
func VSym_AckLimit() {
	min, max := vsym.Param("min", 256), vsym.Param("max", 700)
	size := vsym.Int("size", min, max)
	conn := vsymNewConn(vsymHelloFrame(uint32(size)))
	conn.feed = make(chan []byte)
	stream, id := uint64(vsym.Choose("stream", 2)*2288), uint64(1)
	n := 1 + vsym.Choose("actions", vsym.Param("acts", 2))
	var actions []byte
	var big []byte
	for i := 0; i < n; i++ {
		if i == n-1 {
			big = vsym.Bytes("value", vsym.Int("length", 0, max))
		} else {
			big = []byte("abc")
		}
		actions = vsymCat(actions, []byte{1, 3, 4}, vsymStr("v"), []byte{8}, vsymStr(string(big)))
	}
	i := 0
	vsymServe(nil, func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		i++
		if i > n {
			_ = w.SetInt64(encoding.VarScopeTransaction, "v", 5)
			return
		}
		v := []byte("abc")
		if i == n {
			v = big
		}
		_ = w.SetStringBytes(encoding.VarScopeResponse, "v", v)
	}, conn)
	vsym.Settle()
	conn.out = nil
	var list []byte
	for j := 0; j < n; j++ {
		list = vsymCat(list, vsymMessage("m"))
	}
	conn.feed <- vsymFrame(3, 1, stream, id, list)
	vsym.Settle()
	ack := vsymAck(stream, id, actions)
	if vsym.Fork(len(ack)-4 <= size) {
		vsym.AssertEqBytes(conn.out, ack, "ACK")
		vsym.Cover("fits")
	} else {
		frames, rest := vsymFrames(conn.out)
		vsym.Assert(len(rest) == 0, "torn frame")
		for _, f := range frames {
			vsym.Assert(f[4] != 103, "ACK beyond the negotiated size")
		}
		vsym.Cover("exceeds")
	}
	if !conn.isClosed() {
		conn.out = nil
		conn.feed <- vsymFrame(3, 1, 1, 2, vsymMessage("m"))
		vsym.Settle()
		vsym.AssertEqBytes(conn.out, vsymAck(1, 2, vsymSetVar(2, "v", 5)), "ACK of the next NOTIFY")
	}
}

// However long the client pauses between and within frames, and however long a
// handler takes: the session goes on and every NOTIFY gets its ACK.
//
//vsym C10 name:time quick:cpus=2,hours=1,cut=3 thorough:cpus=2,hours=10000,cut=20 sync expect:early,late,split time:60/200
func VSym_AckTime() {
	hour := 3600 * 1000 * vsymMilli * vsym.Param("hours", 1)
	conn := vsymNewConn(vsymHelloFrame(16380))
	conn.feed = make(chan []byte)
	work := time.Duration(vsym.Int("work", 0, hour))
	vsymServe(nil, func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		if string(m.NameBytes()) == "slow" {
			time.Sleep(work)
		}
		vsym.Assert(ctx.Err() == nil, "context is cancelled although the session goes on")
		_ = w.SetInt64(encoding.VarScopeSession, "n", int64(len(m.NameBytes())))
	}, conn)
	time.Sleep(time.Duration(vsym.Int("idle", 0, hour)))
	vsym.Settle()
	conn.out = nil
	vsym.Assert(!conn.isClosed(), "idle session is ended")
	slow, fast := vsymFrame(3, 1, 3, 4, vsymMessage("slow")), vsymFrame(3, 1, 3, 5, vsymMessage("next"))
	conn.feed <- slow
	at := 1 + vsym.Choose("cut", vsym.Param("cut", 3))*((len(fast)-1)/vsym.Param("cut", 3))
	conn.feed <- fast[:at]
	time.Sleep(time.Duration(vsym.Int("pause", 0, hour)))
	vsym.Settle()
	vsym.Assert(!conn.isClosed(), "session is ended within a frame")
	busy := len(conn.out) == 0
	conn.feed <- fast[at:]
	vsym.Settle()
	one, two := vsymAck(3, 4, vsymSetVar(1, "n", 4)), vsymAck(3, 5, vsymSetVar(1, "n", 4))
	if busy {
		vsym.AssertEqBytes(conn.out, two, "ACK while another handler works")
		vsym.Cover("early")
		one, two = two, one
	} else {
		vsym.Cover("late")
	}
	vsym.Cover("split")
	time.Sleep(work)
	vsym.Settle()
	vsym.AssertEqBytes(conn.out, vsymCat(one, two), "ACKs")
	vsym.Assert(!conn.isClosed(), "session is ended")
}

// The hundredth NOTIFY of a session is answered like the first one: frames of
// other sizes, with more or fewer messages and actions, leave nothing behind.
//
//vsym C10 name:long quick:cpus=2,frames=300,batch=7,steps=40000000 thorough:cpus=3,frames=3000,batch=11,steps=200000000 sync expect:ack,none,single,batch time:100/600
func VSym_AckLong() {
	conn := vsymNewConn(vsymHelloFrame(16380))
	conn.feed = make(chan []byte)
	var args []int // of the messages, in order of arrival, -1 for those without
	var acts []byte
	calls := 0
	text := make([]byte, 300)
	for i := range text {
		text[i] = byte('a' + i%26)
	}
	size := func(i int) int { return (i * 53) % 299 }
	fill := func(i int) (wire []byte) {
		for a := 0; a < i%4; a++ {
			wire = vsymCat(wire, []byte{1, 3, 2}, vsymStr("v"), []byte{8}, vsymStr(string(text[a:a+size(i+a)])))
		}
		return
	}
	one := vsym.Bool("one at a time")
	vsymServe(context.Background(), func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		k := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(k)
		i := -1
		if m.KV.Next(k) {
			vsym.Assert(string(k.NameBytes()) == "i", "name of an argument")
			i = int(k.ValueInt())
			vsym.Assert(m.KV.Next(k) && k.NameEquals("text") && string(k.ValueBytes()) == string(text[:size(i)]), "argument of a message")
		}
		vsym.Assert(!m.KV.Next(k) && m.KV.Error() == nil, "excess argument")
		if one {
			vsym.Assert(calls < len(args) && args[calls] == i, "messages are out of order")
		}
		calls++
		if i >= 0 {
			for a := 0; a < i%4; a++ {
				vsym.Assert(w.SetString(encoding.VarScopeTransaction, "v", string(text[a:a+size(i+a)])) == nil, "action is rejected")
			}
		}
	}, conn)
	vsym.Settle()
	note := func(i int) []byte {
		var list []byte
		acts = nil
		for m := 0; m < i%3; m++ { // an odd one has no message, one or two
			if i%5 == 4 {
				list = vsymCat(list, vsymMessage("empty"))
				args = append(args, -1)
				continue
			}
			list = vsymCat(list, vsymMessage("msg", vsymKVU32("i", uint32(i)), vsymKVStr("text", string(text[:size(i)]))))
			args = append(args, i)
			acts = vsymCat(acts, fill(i))
		}
		return vsymFrame(3, 1, uint64(i)*7, uint64(i), list)
	}
	batch := vsym.Param("batch", 7)
	for i := 0; i < vsym.Param("frames", 300); {
		args, calls, conn.out = nil, 0, nil
		n := 1
		if !one {
			n = 1 + i%batch
			vsym.Cover("batch")
		} else {
			vsym.Cover("single")
		}
		var in []byte
		want := map[string]int{}
		for ; n > 0; n-- {
			in = append(in, note(i)...)
			want[string(vsymAck(uint64(i)*7, uint64(i), acts))]++
			i++
		}
		conn.feed <- in
		vsym.Settle()
		vsym.Assert(!conn.isClosed(), "session is ended")
		vsym.Assert(calls == len(args), "number of handler calls")
		if calls == 0 {
			vsym.Cover("none")
		}
		out := conn.out
		for len(want) > 0 {
			vsym.Assert(len(out) >= 4, "ACK is missing")
			l := 4 + (int(out[0])<<24 | int(out[1])<<16 | int(out[2])<<8 | int(out[3]))
			vsym.Assert(l <= len(out), "ACK is torn")
			ack := string(out[:l])
			vsym.Assert(want[ack] > 0, "ACK differs")
			delete(want, ack)
			out = out[l:]
			vsym.Cover("ack")
		}
		vsym.Assert(len(out) == 0, "excess ACK")
	}
}
