package peers

import (
	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// Sending leaves definitions and entries as they are and does not keep them:
// they can be sent again, to others, or be used for the next update.
//
//vsym C37 name:push quick:key=2 thorough:key=5 sync expect:definition,single,batch time:60/300
func VSym_PushArguments() {
	e := vsymMakeEntry(vsym.Choose("key", 5), []int{vsym.Choose("value", 5)}, -vsym.Param("key", 2), true)
	if vsym.Choose("timed", 2) == 1 {
		e.timed()
	}
	o := vsymMakeEntry(0, nil, 0, true)
	d, wire := vsymMakeDef(-2, true)
	d2, e2, def2 := *d, *e.e, *e.def
	d2.DataTypes = append([]sticktable.DataTypeDefinition{}, d.DataTypes...)
	def2.DataTypes = append([]sticktable.DataTypeDefinition{}, e.def.DataTypes...)
	sent := []*sticktable.EntryUpdate{e.e, o.e}
	what := vsym.Choose("what", 3)
	conn := vsymPush(func(conn *vsymConn, w *Writer) {
		for i := 0; i < 2; i++ { // the second time after the first one
			var err error
			switch what {
			case 0:
				err = w.SendTableDefinition(d)
			case 1:
				err = w.SendEntry(e.e)
			case 2:
				err = w.SendEntries(sent)
			}
			vsym.Assert(err == nil, "sending fails")
		}
		// What is done with them now has no effect on what was sent.
		d.StickTableID, d.Name, d.DataTypes[0].DataType = 99, "other", 1
		if k, ok := e.e.Key.(*sticktable.BinaryKey); ok && len(*k) > 0 {
			(*k)[0] ^= 1
		}
		sent[0] = o.e
	})
	want := []byte("200\n")
	switch what {
	case 0:
		want = append(append(want, wire...), wire...)
		vsym.Cover("definition")
	case 1:
		want = append(append(want, e.wire(0)...), e.wire(1)...)
		vsym.Cover("single")
	case 2:
		want = append(append(want, e.wire(0)...), o.wire(1)...)
		want = append(append(want, e.wire(2)...), o.wire(3)...)
		vsym.Assert(len(sent) == 2 && sent[1] == o.e, "batch changes")
		vsym.Cover("batch")
	}
	vsym.AssertEqBytes(conn.out, want, "bytes on the wire")
	vsym.Assert(d.KeyType == d2.KeyType && d.KeyLength == d2.KeyLength && d.Expiry == d2.Expiry, "definition changes")
	vsym.Assert(len(d.DataTypes) == len(d2.DataTypes) && d.DataTypes[1] == d2.DataTypes[1], "data types of a definition change")
	vsym.Assert(e.e.WithLocalUpdateID == e2.WithLocalUpdateID && e.e.LocalUpdateID == e2.LocalUpdateID, "id of an entry changes")
	vsym.Assert(e.e.WithExpiry == e2.WithExpiry && e.e.Expiry == e2.Expiry, "expiry of an entry changes")
	vsym.Assert(e.e.StickTable == e.def && e.e.Key == e2.Key && len(e.e.Data) == len(e2.Data), "entry changes")
	vsym.Assert(e.def.StickTableID == def2.StickTableID && e.def.KeyLength == def2.KeyLength && len(e.def.DataTypes) == len(def2.DataTypes), "definition of an entry changes")
}

// The same for a handshake.
//
//vsym C37 name:hello quick: thorough: expect:written time:30/60
func VSym_HelloArgument() {
	h := &Handshake{ProtocolIdentifier: vsym.String("protocol", 2), Version: vsym.String("version", 3), RemotePeer: vsym.String("remote", 3), LocalPeerIdentifier: vsym.String("local", 2), ProcessID: vsym.Int("pid", 0, 200), RelativeProcessID: vsym.Int("relative", 0, 9)}
	before := *h
	var s vsymHelloSink
	_, _ = h.WriteTo(&s)
	first := len(s.out)
	_, _ = h.WriteTo(&s)
	vsym.Assert(len(s.out) == 2*first, "writing a handshake again")
	vsym.AssertEqBytes(s.out[:first], s.out[first:], "writing a handshake again")
	vsym.Assert(*h == before, "handshake changes while it is written")
	vsym.Cover("written")
}

type vsymHelloSink struct{ out []byte }

func (s *vsymHelloSink) Write(p []byte) (int, error) {
	s.out = append(s.out, p...)
	return len(p), nil
}
