package testutil

import (
	"io"
	"net"
	"time"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// Bytes written on one end of the pair, in any segmentation, come out at the
// other end, in any other segmentation, in both directions at once.
//
//vsym C32 name:pipe quick:writes=2,reads=3,len=3,preempt=1 thorough:writes=2,reads=4,len=4,preempt=2 sync stress expect:all time:100/500
func VSym_PipeConn() {
	a, b := PipeConn()
	var from io.Writer = a
	var to io.Reader = b
	if vsym.Choose("direction", 2) == 1 {
		from, to = b, a
	}
	var sent []byte
	var parts [][]byte
	for i := 0; i < vsym.Param("writes", 2); i++ {
		p := vsym.Bytes("data", vsym.Concrete(vsym.Int("size", 0, vsym.Param("len", 4))))
		parts = append(parts, p)
		sent = append(sent, p...)
	}
	var sizes []int
	total := 0
	for i := 0; i < vsym.Param("reads", 3); i++ {
		m := vsym.Concrete(vsym.Int("buf", 1, vsym.Param("len", 4)+2))
		sizes = append(sizes, m)
		total += m
	}
	vsym.Assume(len(sent) > 0)
	vsym.Explore(vsym.Param("preempt", 1))
	go func() {
		for _, p := range parts {
			keep := vsym.Copy(p)
			n, err := from.Write(p)
			vsym.Assert(n == len(p) && err == nil, "write of a live pair fails")
			vsym.AssertEqBytes(p, keep, "written bytes changed")
			for i := range p {
				p[i] = 0 // the writer may reuse its buffer
			}
		}
	}()
	var got []byte
	for _, m := range sizes {
		if len(got) >= len(sent) {
			break
		}
		buf := make([]byte, m)
		n, err := to.Read(buf)
		vsym.Assert(err == nil && n >= 0 && n <= m, "read of a live pair fails")
		got = append(got, buf[:n]...)
	}
	vsym.Assert(len(got) <= len(sent), "more bytes than were sent")
	vsym.AssertEqBytes(got, sent[:len(got)], "bytes received")
	if len(got) == len(sent) {
		vsym.Cover("all")
	}
}

// Closing either end ends blocked and later operations of both ends.
//
//vsym C32 name:close sync stress quick:preempt=3 thorough:preempt=8 expect:blocked time:60/300
func VSym_PipeConnClose() {
	vsym.Explore(vsym.Param("preempt", 2))
	a, b := PipeConn()
	ends := []io.ReadWriteCloser{a, b}
	victim := vsym.Choose("victim", 2)
	closer := vsym.Choose("closer", 2)
	write := vsym.Choose("operation", 2) == 1
	done := make(chan error, 1)
	go func() {
		var err error
		if write {
			_, err = ends[victim].Write([]byte{1})
		} else {
			_, err = ends[victim].Read(make([]byte, 1))
		}
		done <- err
	}()
	if vsym.Choose("early", 2) == 1 {
		vsym.Settle() // the operation is blocked by now
	}
	ends[closer].Close()
	vsym.Assert(<-done != nil, "blocked operation succeeds")
	vsym.Cover("blocked")
	for i := range ends {
		_, err := ends[i].Read(make([]byte, 1))
		vsym.Assert(err != nil, "read after close succeeds")
		_, err = ends[i].Write([]byte{1})
		vsym.Assert(err != nil, "write after close succeeds")
	}
	ends[1-closer].Close()
}

// A deadline is kept or said not to be supported, both leaves the pair working,
// and the ends have addresses.
//
//vsym C32 name:deadline sync stress quick:len=3 thorough:len=9 expect:addr,alive time:30/100
func VSym_PipeConnDeadline() {
	a, b := PipeConn()
	for _, addr := range []net.Addr{b.LocalAddr(), b.RemoteAddr()} {
		vsym.Assert(addr != nil && addr.Network() != "" && addr.String() != "", "address of an end")
	}
	vsym.Cover("addr")
	at := time.Now().Add(20 * time.Millisecond)
	if vsym.Choose("past", 2) == 1 {
		at = at.Add(-time.Hour)
	}
	write, op := false, vsym.Choose("operation", 4)
	var err error
	switch op {
	case 0:
		err = b.SetDeadline(at)
	case 1:
		err, write = b.SetDeadline(at), true
	case 2:
		err = b.SetReadDeadline(at)
	case 3:
		err, write = b.SetWriteDeadline(at), true
	}
	if err == nil {
		done := make(chan error, 1)
		go func() {
			var err error
			if write {
				_, err = b.Write([]byte{1})
			} else {
				_, err = b.Read(make([]byte, 1))
			}
			done <- err
		}()
		select {
		case err := <-done:
			vsym.Assert(err != nil, "operation succeeds without the other end")
		case <-time.After(2 * time.Second):
			vsym.Assert(false, "deadline has no effect")
		}
		vsym.Assert(b.SetDeadline(time.Time{}) == nil, "deadline cannot be removed")
	}
	n := vsym.Int("len", 1, vsym.Param("len", 3))
	data := vsym.Bytes("data", vsym.Concrete(n))
	var from io.Writer = a
	var to io.Reader = b
	if vsym.Choose("direction", 2) == 1 {
		from, to = b, a
	}
	go func() {
		_, err := from.Write(data)
		vsym.Assert(err == nil, "write of a live pair fails")
	}()
	got := make([]byte, len(data))
	_, err = io.ReadFull(to, got)
	vsym.Assert(err == nil, "read of a live pair fails")
	vsym.AssertEqBytes(got, data, "bytes read")
	vsym.Cover("alive")
}
