package peers

import (
	"strings"
	"sync"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vsymUsePeers reads or writes a handshake or a message of its own, or names
// some codes.
func vsymUsePeers(what int, mark byte) {
	switch what {
	case 0:
		h := Handshake{ProtocolIdentifier: "P", Version: "2", RemotePeer: string([]byte{'r', mark}), LocalPeerIdentifier: string([]byte{'l', mark}), ProcessID: 7}
		var s vsymPlainSink
		_, err := h.WriteTo(&s)
		vsym.Assert(err == nil, "handshake is not written")
		vsym.AssertEqBytes(s.out, []byte("P 2\nr"+string([]byte{mark})+"\nl"+string([]byte{mark})+" 7 0\n"), "handshake")
		vsym.Cover("written")
	case 1:
		var h Handshake
		_, err := h.ReadFrom(strings.NewReader("HAProxyS 2.1\nr" + string([]byte{mark}) + "\nlocal 1 0\n"))
		vsym.Assert(err == nil && len(h.RemotePeer) == 2 && h.RemotePeer[1] == mark && h.LocalPeerIdentifier == "local" && h.ProcessID == 1, "handshake is not read")
		vsym.Cover("read")
	case 2:
		c := StickTableUpdateMessageType(0x80 + mark%16)
		vsym.Assert(len(c.String()) > 0 && c.String() == c.String() && len(MessageClass(mark).String()) > 0, "names")
		vsym.Assert(len(ControlMessageType(mark).String()) > 0 && len(ErrorMessageType(mark).String()) > 0 && len(HandshakeStatus(mark).String()) > 0, "names")
		vsym.Cover("names")
	case 3:
		d := &sticktable.Definition{StickTableID: uint64(mark), Name: string([]byte{'t', mark}), KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4, Expiry: uint64(mark)}
		k, v := sticktable.SignedIntegerKey(mark), sticktable.UnsignedIntegerData(mark)
		e := &sticktable.EntryUpdate{StickTable: d, Key: &k, Data: []sticktable.MapData{&v}}
		var s vsymPlainSink
		w := newWriter(&s, new(sync.Mutex))
		vsym.Assert(w.SendTableDefinition(d) == nil && w.SendEntry(e) == nil && w.SendTableSwitch(uint64(mark)) == nil && w.SendEntries([]*sticktable.EntryUpdate{e, e}) == nil, "nothing is sent")
		entry := func(id byte) []byte { return []byte{10, 0x80, 9, 0, 0, 0, id, 0, 0, 0, mark, mark} }
		want := []byte{10, 0x82, 8, mark, 2, 't', mark, 2, 4, 0, mark}
		want = append(append(want, entry(0)...), 10, 0x83, 1, mark)
		vsym.AssertEqBytes(s.out, append(append(want, entry(1)...), entry(2)...), "messages")
		vsym.Cover("sent")
	}
}

type vsymPlainSink struct{ out []byte }

func (s *vsymPlainSink) Write(p []byte) (int, error) {
	s.out = append(s.out, p...)
	return len(p), nil
}

// Handshakes and names are used by several goroutines at the same time.
//
//vsym C38 name:peers quick:preempt=2 thorough:preempt=4 stress expect:written,read,names,sent time:100/500
func VSym_ConcurrentPeers() {
	a := vsym.Choose("first", 4)
	b := vsym.Choose("second", a+1)
	x, y := 'a'+vsym.Concrete(vsym.Int("mark", 0, 1)), 'm'+vsym.Concrete(vsym.Int("other mark", 0, 1))
	ends := make(chan bool, 2)
	if vsym.Choose("pools", 2) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	go func() {
		vsymUsePeers(a, byte(x))
		ends <- true
	}()
	go func() {
		vsymUsePeers(b, byte(y))
		ends <- true
	}()
	<-ends
	<-ends
}
