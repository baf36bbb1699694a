package peers

import (
	"context"
	"net"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vsymSecond runs a session with the given input while another one is up, and
// checks that the other one still works afterwards.
func vsymSecond(in []byte, cut int) *vsymHandler {
	good := vsymNewConn([]byte(vsymHello))
	good.feed = make(chan []byte)
	bad := vsymNewConn(in)
	if cut > 0 {
		bad.cuts = []int{cut}
	}
	hs := []*vsymHandler{{}, {}}
	vsymServe(nil, hs, good, bad)
	vsym.Settle()
	vsym.Assert(hs[1].closed == 1 && bad.isClosed(), "session does not end with its stream")
	vsym.Assert(hs[0].closed == 0 && !good.isClosed(), "another session is ended")
	good.feed <- append(vsymDef(7, "t", 6, 9, 2, 5), vsymMsg(10, 0x80, vsymBE32(77), []byte{1, 'k', 5})...)
	vsym.Settle()
	c := hs[0].calls
	vsym.Assert(len(c) == 2 && c[1].e != nil && c[1].e.LocalUpdateID == 77, "another session does not work any more")
	return hs[1]
}

// Any bytes behind a valid hello.
//
//vsym C21 name:messages quick:len=9 thorough:len=14 sync expect:update,ended time:120/500
func VSym_CrashMessages() {
	n := vsym.Int("len", 0, vsym.Param("len", 6))
	var in []byte
	in = append(in, vsymHello...)
	if vsym.Choose("defined", 2) == 1 {
		in = append(in, vsymDef(7, "t", 6, 9, 2, 5)...)
	}
	all := make([]byte, len(in)+n)
	vsym.Put(all, vsym.Put(all, 0, in), vsym.Bytes("in", n))
	h := vsymSecond(all, len(vsymHello))
	if len(h.calls) > 1 {
		vsym.Cover("update")
	} else {
		vsym.Cover("ended")
	}
}

// A definition with any bytes and any flags, followed by an update with any
// bytes.
//
//vsym C21 name:definition quick:def=5,upd=9 thorough:def=8,upd=14 sync expect:update,ended time:150/600
func VSym_CrashDefinition() {
	in := []byte(vsymHello)
	bits := uint64(1) << vsym.Choose("data type", 32)
	keyType := vsym.U8("key type")
	vsym.Assume(keyType < 240)
	keyLen := vsym.U8("key length")
	vsym.Assume(keyLen < 240)
	tail := vsym.Bytes("tail", vsym.Choose("tail length", vsym.Param("def", 3)))
	for _, c := range tail {
		vsym.Assume(c < 240)
	}
	def := []byte{1, 1, 'n', keyType, keyLen}
	def = append(def, vsym.RefVarint(bits)...)
	def = append(def, tail...)
	in = append(in, vsymMsg(10, 0x82, def)...)
	upd := vsym.Bytes("update", vsym.Int("update length", 0, vsym.Param("upd", 8)))
	typ := []byte{0x80, 0x81, 0x85, 0x86}[vsym.Choose("kind", 4)]
	in = append(in, 10, typ, byte(len(upd)))
	all := make([]byte, len(in)+len(upd))
	vsym.Put(all, vsym.Put(all, 0, in), upd)
	h := vsymSecond(all, len(vsymHello))
	if len(h.calls) > 1 {
		vsym.Cover("update")
	} else {
		vsym.Cover("ended")
	}
}

// Any bytes in place of a hello or of one of its lines.
//
//vsym C21 name:hello quick:len=3 thorough:len=5 sync expect:accepted,rejected time:120/500
func VSym_CrashHello() {
	b := string(vsym.Bytes("in", vsym.Choose("len", vsym.Param("len", 4)+1)))
	in := b
	switch vsym.Choose("line", 4) {
	case 1:
		in = b + "\nremote\nlocal 1 0\n"
	case 2:
		in = "HAProxyS 2.1\n" + b + "\nlocal 1 0\n"
	case 3:
		in = "HAProxyS 2.1\nremote\nlocal " + b + "\n"
	}
	h := vsymSecond([]byte(in), 0)
	if len(h.calls) > 0 {
		vsym.Cover("accepted")
	} else {
		vsym.Cover("rejected")
	}
}

// Handlers print what they receive.
//
//vsym C21 name:print quick:one=1 sync expect:printed time:60/300
func VSym_CrashPrint() {
	kt := vsym.Choose("key type", 5)
	key := [][]byte{{0, 0, 0, 7}, {1, 2, 3, 4}, {15: 9}, {1, 'k'}, {3, 2}}[kt]
	var keyLen byte = []byte{4, 4, 16, 9, 2}[kt]
	in := []byte(vsymHello)
	bit := vsym.Choose("data type", 25)
	var params []byte
	var data []byte
	d := vsym.U8("data")
	vsym.Assume(d < 5)
	switch sticktable.DataType(bit).New().(type) {
	case *sticktable.FreqData:
		params = []byte{0, 9}
		data = []byte{d, 2, 3}
	case *sticktable.DictData:
		data = []byte{4, d, 2, 'x', 'y'}
		if vsym.Choose("value", 2) == 1 {
			data = []byte{d}
		}
	default:
		data = []byte{d}
	}
	in = append(in, vsymDef(7, "t", byte([]int{2, 4, 5, 6, 7}[kt]), keyLen, 1<<bit, 5, params...)...)
	in = append(in, vsymMsg(10, 0x80, vsymBE32(1), key, data)...)
	conn := vsymNewConn(in)
	conn.cuts = []int{len(vsymHello)}
	h := &vsymHandler{}
	h.onUpdate = func(context.Context) {
		c := h.calls[len(h.calls)-1]
		vsym.Assert(c.e.String() != "" && c.e.Key.String() != "", "update cannot be printed")
		vsym.Cover("printed")
	}
	vsymServe(nil, []*vsymHandler{h}, conn)
	vsym.Settle()
}

// Many sessions that end in the same way, one after the other, use up nothing.
//
//vsym C21 name:exhaust quick:times=140,steps=9000000 thorough:times=600,steps=60000000 sync expect:served time:60/300
func VSym_PeerExhaust() {
	times := vsym.Param("times", 140)
	vsym.Horizon(time.Duration(times+1) * 6 * time.Second)
	var h *vsymHandler
	l := &vsymListener{conns: make(chan net.Conn), done: make(chan struct{})}
	p := &Peer{HandlerSource: func() Handler {
		h = &vsymHandler{}
		return h
	}}
	go func() { _ = p.Serve(l) }()
	how := vsym.Choose("how", 9)
	start := 0
	for i := 0; i < times; i++ {
		in := []byte(vsymHello)
		switch how {
		case 0:
			in = nil
		case 1:
			in = in[:9]
		case 2:
			in = []byte("HAProxyS 2.1\nremote\nlocal x 0\n")
		case 3:
			in = append(in, 99, 1)
		case 4:
			in = append(in, 10, 0x82, 2, 7, 9)
		case 5:
			in = append(in, 10, 0x80)
		case 6:
			in = append(in, 0, 0) // the answer cannot be sent
		case 7:
			in = append(in, 1, 0)
		}
		c := vsymNewConn(in)
		switch how {
		case 6:
			c.failAt = 3
		case 8:
			c.end = nil // silence
		}
		l.conns <- c
		vsym.Settle()
		if how == 8 {
			time.Sleep(5*time.Second + time.Millisecond)
			vsym.Settle()
		}
		vsym.Assert(h.closed == 1 && c.isClosed(), "session does not end")
		if i == 0 {
			start = vsym.Goroutines()
		}
	}
	vsym.Assert(vsym.Goroutines() <= start, "goroutines of ended sessions go on")
	c := vsymNewConn([]byte(vsymHello))
	c.feed = make(chan []byte)
	l.conns <- c
	vsym.Settle()
	c.feed <- append(vsymDef(7, "t", 6, 9, 2, 5), vsymMsg(10, 0x80, vsymBE32(77), []byte{1, 'k', 5})...)
	vsym.Settle()
	vsym.Assert(len(h.calls) == 2 && h.calls[1].e != nil && h.calls[1].e.LocalUpdateID == 77, "no session works any more")
	vsym.Cover("served")
}
