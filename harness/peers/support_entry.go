package peers

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/internal/vsym"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// vsymEntry is an entry update together with its wire form without the id.
type vsymEntry struct {
	e    *sticktable.EntryUpdate
	def  *sticktable.Definition
	tail []byte // key and data
}

// vsymNumb is a number, below 240 if small.
func vsymNumb(name string, small bool) uint64 {
	if small {
		return uint64(vsym.Int(name, 0, 239))
	}
	return vsym.U64(name)
}

// vsymLen is a length up to max; if max is negative it is exactly -max.
func vsymLen(name string, max int) int {
	if max < 0 {
		return -max
	}
	return vsym.Int(name, 0, max)
}

// vsymDataTypes has a data type of every value kind.
var vsymDataTypes = []sticktable.DataType{
	0, 2, 13, 10, 19,
}

// vsymMakeEntry makes an entry with the given kinds of key (0 to 4) and data (-1
// to 4; -1 for none).
func vsymMakeEntry(key int, kinds []int, maxStr int, small bool) *vsymEntry {
	def := &sticktable.Definition{Name: "t", StickTableID: 3}
	e := &sticktable.EntryUpdate{
		StickTable: def,
		// what an entry was received with has no influence on sending it
		WithLocalUpdateID: vsym.Bool("received with an id"),
		LocalUpdateID:     vsym.U32("received id"),
		Expiry:            vsym.U32("received expiry"),
	}
	var tail []byte
	switch key {
	case 0:
		n := vsym.U32("int key")
		v := sticktable.SignedIntegerKey(int32(n))
		e.Key, def.KeyLength, tail = &v, 4, vsymBE32(n)
	case 1:
		var a [4]byte
		copy(a[:], vsym.Bytes("ipv4 key", 4))
		v := sticktable.IPv4AddressKey(netip.AddrFrom4(a))
		e.Key, def.KeyLength, tail = &v, 4, append(tail, a[:]...)
	case 2:
		var a [16]byte
		copy(a[:], vsym.Bytes("ipv6 key", 16))
		v := sticktable.IPv6AddressKey(netip.AddrFrom16(a))
		e.Key, def.KeyLength, tail = &v, 16, append(tail, a[:]...)
	case 3:
		n := vsymLen("string key length", maxStr)
		s := vsym.String("string key", n)
		v := sticktable.StringKey(s)
		e.Key, def.KeyLength = &v, 1<<20
		tail = append(append(tail, vsym.RefVarint(uint64(n))...), s...)
	default:
		n := vsymLen("binary key length", maxStr)
		b := vsym.Bytes("binary key", n)
		v := sticktable.BinaryKey(vsym.Copy(b))
		e.Key, def.KeyLength = &v, uint64(n)
		tail = append(tail, b...)
	}
	def.KeyType = []sticktable.KeyType{sticktable.KeyTypeSignedInteger, sticktable.KeyTypeIPv4Address, sticktable.KeyTypeIPv6Address, sticktable.KeyTypeString, sticktable.KeyTypeBinary}[key]
	for _, k := range kinds {
		var d sticktable.MapData
		switch k {
		case 0:
			n := vsymNumb("signed", true)
			v := sticktable.SignedIntegerData(int32(n))
			d, tail = &v, append(tail, vsym.RefVarint(n)...)
		case 1:
			n := vsymNumb("unsigned", true)
			v := sticktable.UnsignedIntegerData(uint32(n))
			d, tail = &v, append(tail, vsym.RefVarint(n)...)
		case 2:
			n := vsymNumb("long", small)
			v := sticktable.UnsignedLongLongData(n)
			d, tail = &v, append(tail, vsym.RefVarint(n)...)
		case 3:
			f := &sticktable.FreqData{CurrentTick: vsymNumb("tick", small), CurrentPeriod: vsymNumb("current", true), LastPeriod: vsymNumb("last", true)}
			tail = append(tail, vsym.RefVarint(f.CurrentTick)...)
			tail = append(tail, vsym.RefVarint(f.CurrentPeriod)...)
			tail = append(tail, vsym.RefVarint(f.LastPeriod)...)
			d = f
		case 4:
			n := vsym.Int("dictionary length", 1, 20)
			s := vsym.Bytes("dictionary", n)
			id := uint64(vsym.Int("dictionary id", 1, 239))
			d = &sticktable.DictData{ID: id, Value: vsym.Copy(s)}
			tail = append(append(append(tail, byte(n+2)), byte(id), byte(n)), s...)
		}
		e.Data = append(e.Data, d)
		def.DataTypes = append(def.DataTypes, sticktable.DataTypeDefinition{DataType: vsymDataTypes[k]})
	}
	return &vsymEntry{e: e, def: def, tail: tail}
}

// timed makes it an update with an expiry time.
func (v *vsymEntry) timed() {
	v.e.WithExpiry = true
	v.e.Expiry = vsym.U32("expiry")
}

// wire is the message for the entry.
func (v *vsymEntry) wire(id uint32) []byte {
	if v.e.WithExpiry {
		return vsymMsg(10, 0x85, vsymBE32(id), vsymBE32(v.e.Expiry), v.tail)
	}
	return vsymMsg(10, 0x80, vsymBE32(id), v.tail)
}

// vsymMakeDef is a definition and its message.
func vsymMakeDef(maxName int, small bool) (*sticktable.Definition, []byte) {
	n := vsymLen("name length", maxName)
	d := &sticktable.Definition{
		Name:         vsym.String("name", n),
		StickTableID: vsymNumb("table", small),
		KeyType:      sticktable.KeyTypeString,
		KeyLength:    vsymNumb("key length", true),
		Expiry:       vsymNumb("table expiry", true),
		DataTypes: []sticktable.DataTypeDefinition{
			{DataType: 2},
			{DataType: 10, Counter: vsymNumb("counter", true), Period: vsymNumb("period", true)},
		},
	}
	bits := vsym.RefVarint(1<<2 | 1<<10)
	dt := d.DataTypes[1]
	return d, vsymMsg(10, 0x82, vsym.RefVarint(d.StickTableID), vsym.RefVarint(uint64(n)), []byte(d.Name),
		[]byte{byte(6), byte(d.KeyLength)}, bits, []byte{byte(d.Expiry), byte(dt.Counter), byte(dt.Period)})
}
