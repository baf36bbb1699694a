package peers

import (
	"context"
	"net"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vsymSide is what one of several sessions should and did see.
type vsymSide struct {
	conn   *vsymConn
	want   []vsymSeen
	out    []byte // what should be on the wire
	last   uint32 // the latest update id
	some   bool   // there was an update
	def    int
	pushes uint32
	ended  bool

	seen   []vsymSeen
	hellos int
	ctx    context.Context
	closed int
}

type vsymSeen struct {
	def, id, key uint32
}

// vsymShared is a handler that all sessions may share.
type vsymShared struct {
	sides  []*vsymSide
	only   *vsymSide // the session it is made for, nil if it is shared
	closed int
}

// side is the session a call belongs to.
func (h *vsymShared) side(ctx context.Context) *vsymSide {
	c := Connection(ctx)
	for _, s := range h.sides {
		if c == net.Conn(s.conn) {
			vsym.Assert(h.only == nil || h.only == s, "handler of another session called")
			return s
		}
	}
	vsym.Assert(false, "connection of a call is none of the accepted ones")
	return nil
}

func (h *vsymShared) HandleHandshake(ctx context.Context, hs *Handshake) {
	s := h.side(ctx)
	s.hellos++
	s.ctx = ctx
	vsym.Assert(len(hs.LocalPeerIdentifier) == 1 && h.sides[hs.LocalPeerIdentifier[0]-'a'] == s, "hello of another session")
}

func (h *vsymShared) HandleUpdate(ctx context.Context, e *sticktable.EntryUpdate) {
	s := h.side(ctx)
	k, ok := e.Key.(*sticktable.SignedIntegerKey)
	vsym.Assert(ok, "kind of key")
	s.seen = append(s.seen, vsymSeen{uint32(e.StickTable.StickTableID), e.LocalUpdateID, uint32(*k)})
}

func (h *vsymShared) Close() error {
	h.closed++
	if h.only != nil {
		h.only.closed++
	}
	return nil
}

// Several sessions of one peer, with a handler of their own or a shared one:
// what happens in one session is seen in that session only.
//
//vsym C33 name:source quick:steps=4,shared=0 thorough:steps=6,shared=0 sync expect:update,implicit,pushed,redefined,failed,gone time:100/600
//vsym C33 name:shared quick:steps=4,shared=1 thorough:steps=5,shared=1 sync expect:update,implicit,pushed,redefined,failed,gone time:100/600
func VSym_Isolation() {
	var sides []*vsymSide
	var handlers []*vsymShared
	for i := 0; i < 2; i++ {
		name := string([]byte{byte('a' + i)})
		s := &vsymSide{out: []byte("200\n")}
		s.conn = vsymNewConn([]byte("HAProxyS 2.1\nremote\n" + name + " 3 0\n"))
		s.conn.feed = make(chan []byte)
		sides = append(sides, s)
	}
	l := &vsymListener{conns: make(chan net.Conn), done: make(chan struct{})}
	asked := 0
	p := &Peer{}
	shared := vsym.Param("shared", 0) == 1
	if shared {
		h := &vsymShared{sides: sides}
		handlers = []*vsymShared{h}
		p.Handler = h
	} else {
		p.HandlerSource = func() Handler {
			h := &vsymShared{sides: sides}
			if asked < len(sides) {
				h.only = sides[asked]
			}
			asked++
			handlers = append(handlers, h)
			return h
		}
	}
	go func() { _ = p.Serve(l) }()
	for i, s := range sides {
		l.conns <- s.conn
		vsym.Settle()
		vsym.Assert(s.hellos == 1, "hello not reported once")
		vsym.Assert(shared || asked == i+1, "handler source is not asked once per connection")
	}
	vsym.Assert(sides[0].ctx != sides[1].ctx, "sessions share their context")
	for i, s := range sides {
		s.conn.feed <- vsymDef(byte(i*100), "t", 2, 4, 2, 5)
		s.def = i * 100
	}
	vsym.Settle()
	for i := 0; i < vsym.Param("steps", 3); i++ {
		s := sides[vsym.Choose("session", 2)]
		if s.ended {
			continue
		}
		switch vsym.Choose("event", 6) {
		case 0, 1:
			key, val := vsym.U32("key"), vsym.U8("value")
			vsym.Assume(val < 240)
			typ := byte(0x81)
			var p []byte
			if !s.some || vsym.Choose("explicit", 2) == 1 {
				typ = 0x80
				s.last = vsym.U32("id")
				p = vsymBE32(s.last)
			} else {
				s.last++
				vsym.Cover("implicit")
			}
			s.some = true
			s.want = append(s.want, vsymSeen{uint32(s.def), s.last, key})
			s.conn.feed <- vsymMsg(10, typ, p, vsymBE32(key), []byte{val})
			vsym.Cover("update")
		case 2:
			s.def++
			s.conn.feed <- vsymDef(byte(s.def), "t", 2, 4, 2, 5)
			vsym.Cover("redefined")
		case 3:
			e := vsymMakeEntry(0, []int{1}, 0, true)
			vsym.Assert(WriterFromContext(s.ctx).SendEntry(e.e) == nil, "sending fails")
			s.out = append(s.out, vsymMsg(10, 0x80, vsymBE32(s.pushes), e.tail)...)
			s.pushes++
			vsym.Cover("pushed")
		case 4:
			s.conn.feed <- []byte{9, vsym.U8("type") & 127}
			s.ended = true
			vsym.Cover("failed")
		case 5:
			s.conn.Close()
			s.ended = true
			vsym.Cover("gone")
		}
		vsym.Settle()
	}
	closed := 0
	for _, s := range sides {
		if s.ended {
			closed++
		}
	}
	for i, s := range sides {
		vsym.Assert(s.hellos == 1 && len(s.seen) == len(s.want), "number of calls")
		for j, w := range s.want {
			vsym.Assert(s.seen[j].def == w.def, "definition of another session")
			vsym.Assert(s.seen[j].id == w.id, "update id of another session")
			vsym.Assert(s.seen[j].key == w.key, "update of another session")
		}
		vsym.AssertEqBytes(s.conn.out, s.out, "bytes on the wire")
		vsym.Assert(s.conn.isClosed() == s.ended, "connection is closed by another session, or stays open")
		vsym.Assert((s.ctx.Err() != nil) == s.ended, "context is cancelled by another session, or not at all")
		if !shared {
			vsym.Assert((handlers[i].closed == 1) == s.ended && handlers[i].closed <= 1, "handler is closed by another session, or not once")
		}
	}
	if shared {
		vsym.Assert(handlers[0].closed == closed, "the shared handler is not closed once per session that ended")
	} else {
		vsym.Assert(asked == len(sides), "handler source asked without a connection")
	}
}

// Sessions that run at the same time, each of which pushes an update from its
// handler and answers a request.
//
//vsym C33 name:concurrent quick:preempt=1 thorough:preempt=2 sync stress expect:pushed time:100/600
func VSym_IsolationConcurrent() {
	var sides []*vsymSide
	for i := 0; i < 2; i++ {
		name := string([]byte{byte('a' + i)})
		s := &vsymSide{}
		in := []byte("HAProxyS 2.1\nremote\n" + name + " 3 0\n")
		in = append(in, vsymDef(byte(i*100), "t", 2, 4, 2, 5)...)
		id, key := vsym.U32("id"), vsym.U32("key")
		in = append(in, vsymMsg(10, 0x80, vsymBE32(id), vsymBE32(key), []byte{3})...)
		in = append(in, 0, 0)
		s.want = []vsymSeen{{uint32(i * 100), id, key}}
		s.conn = vsymNewConn(in)
		s.conn.end = nil
		s.conn.slow = true
		sides = append(sides, s)
	}
	l := &vsymListener{conns: make(chan net.Conn), done: make(chan struct{})}
	h := &vsymPushing{vsymShared{sides: sides}}
	p := &Peer{Handler: h}
	if vsym.Choose("pools", 2) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	go func() { _ = p.Serve(l) }()
	vsym.Settle()
	vsym.Explore(vsym.Param("preempt", 1))
	for _, s := range sides {
		l.conns <- s.conn
	}
	vsym.Settle()
	for i, s := range sides {
		vsym.Assert(s.hellos == 1 && len(s.seen) == 1, "number of calls")
		vsym.Assert(s.seen[0] == s.want[0], "update of a session")
		vsym.AssertEqBytes(s.conn.out, []byte{'2', '0', '0', '\n', 10, 0x83, 1, byte(i), 10, 0x80, 8, 0, 0, 0, 0, 0, 0, 0, byte(i + 7), 0, 2}, "bytes on the wire")
		vsym.Assert(!s.conn.isClosed() && s.ctx.Err() == nil, "session ended")
		vsym.Cover("pushed")
	}
}

// vsymPushing answers every update with a table switch and another update.
type vsymPushing struct{ vsymShared }

func (h *vsymPushing) HandleUpdate(ctx context.Context, e *sticktable.EntryUpdate) {
	h.vsymShared.HandleUpdate(ctx, e)
	id := uint64(0)
	if h.side(ctx) == h.sides[1] {
		id = 1
	}
	w := WriterFromContext(ctx)
	vsym.Assert(w.SendTableSwitch(id) == nil, "sending fails")
	key := sticktable.SignedIntegerKey(int32(id) + 7)
	vsym.Assert(w.SendEntry(&sticktable.EntryUpdate{StickTable: e.StickTable, Key: &key}) == nil, "sending fails")
}

// A handler and a handler source at the same time are refused.
//
//vsym C33 name:both sync expect:refused
func VSym_BothHandlers() {
	conn := vsymNewConn([]byte(vsymHello))
	conn.end = nil
	l := &vsymListener{conns: make(chan net.Conn, 1), done: make(chan struct{})}
	l.conns <- conn
	h := &vsymHandler{}
	p := &Peer{Handler: h, HandlerSource: func() Handler { return h }}
	var err error
	done := false
	go func() {
		err = p.Serve(l)
		done = true
	}()
	vsym.Settle()
	vsym.Assert(done && err != nil, "a handler and a handler source are accepted")
	vsym.Assert(len(h.calls) == 0, "session is served")
	vsym.Cover("refused")
}
