package sticktable

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
)

// vsymUseTable uses a part of the package on values of its own, except for a
// definition that is only read.
func vsymUseTable(what int, shared *Definition, mark byte) {
	buf := make([]byte, 64)
	switch what {
	case 0: // a definition
		d := Definition{StickTableID: uint64(mark) + 500, Name: string([]byte{mark}), KeyType: KeyTypeString, KeyLength: 9, Expiry: uint64(mark)}
		d.DataTypes = []DataTypeDefinition{{DataType: 2}, {DataType: 3, Counter: uint64(mark), Period: 7}}
		n, err := d.Marshal(buf)
		vsym.Assert(err == nil, "definition is not encoded")
		var r Definition
		m, err := r.Unmarshal(buf[:n])
		vsym.Assert(err == nil && m == n, "definition is not decoded")
		vsymSameDef(&d, &r, "definition")
		vsym.Cover("definition")
	case 1: // an entry of the shared definition
		k := StringKey(string([]byte{'k', mark}))
		c, f := UnsignedIntegerData(mark), FreqData{uint64(mark), 2, uint64(mark) + 400}
		e := EntryUpdate{StickTable: shared, Key: &k, Data: []MapData{&c, &f}, WithExpiry: true, Expiry: uint32(mark)}
		n, err := e.Marshal(buf)
		vsym.Assert(err == nil, "entry is not encoded")
		r := EntryUpdate{StickTable: shared, WithExpiry: true}
		m, err := r.Unmarshal(buf[:n])
		vsym.Assert(err == nil && m == n && r.Expiry == uint32(mark) && len(r.Data) == 2, "entry is not decoded")
		k2, ok := r.Key.(*StringKey)
		vsym.Assert(ok && len(*k2) == 2 && (*k2)[1] == mark, "key")
		vsymSameData(&c, r.Data[0])
		vsymSameData(&f, r.Data[1])
		vsym.Cover("entry")
	case 2: // other keys and values
		k, d := IPv4AddressKey(netip.AddrFrom4([4]byte{1, 2, 3, mark})), DictData{ID: uint64(mark), Value: []byte{mark, 1}}
		n, err := k.Marshal(buf, 4)
		vsym.Assert(err == nil && n == 4, "address")
		m, err := d.Marshal(buf[4:])
		vsym.Assert(err == nil, "dictionary")
		k2, d2 := KeyTypeIPv4Address.New(), DataTypeServerKey.New()
		_, err = k2.Unmarshal(buf, 4)
		vsym.Assert(err == nil, "address")
		_, err = d2.Unmarshal(buf[4 : 4+m])
		vsym.Assert(err == nil, "dictionary")
		vsymSameKey(&k, k2)
		vsymSameData(&d, d2)
		vsym.Cover("values")
	case 3: // names
		t, l := KeyType(mark%8), DataType(mark%32)
		a, b := t.String(), l.String()
		vsym.Assert(a == t.String() && b == l.String() && len(a) > 0 && len(b) > 0, "names")
		vsym.Assert(l.IsDelay() == vsymRate(int(l)), "rate type")
		vsym.Cover("names")
	}
}

// Independent values of the same table are used by several goroutines.
//
//vsym C38 name:tables quick:preempt=3 thorough:preempt=5 stress expect:definition,entry,values,names time:100/500
func VSym_ConcurrentTables() {
	a := vsym.Choose("first", 4)
	b := vsym.Choose("second", a+1)
	x, y := vsym.Int("mark", 1, 100), vsym.Int("other mark", 101, 200)
	if a == 3 {
		x = vsym.Concrete(vsym.Int("name", 0, 31))
	}
	if b == 3 {
		y = vsym.Concrete(vsym.Int("name", 0, 31))
	}
	shared := &Definition{StickTableID: 1, Name: "t", KeyType: KeyTypeString, KeyLength: 9}
	shared.DataTypes = []DataTypeDefinition{{DataType: 2}, {DataType: 3, Counter: 1, Period: 7}}
	ends := make(chan bool, 2)
	if vsym.Choose("pools", 2) == 1 {
		vsym.Pools()
	}
	vsym.Races()
	vsym.Explore(vsym.Param("preempt", 1))
	go func() {
		vsymUseTable(a, shared, byte(x))
		ends <- true
	}()
	go func() {
		vsymUseTable(b, shared, byte(y))
		ends <- true
	}()
	<-ends
	<-ends
}
