package sticktable

import "github.com/dropmorepackets/haproxy-go/internal/vsym"

// vsymDef is a definition with arbitrary fields and the given data types.
func vsymAnyDef(types []int, maxName int, wide int) (d *Definition, wire []byte) {
	d = &Definition{}
	d.StickTableID = vsymNum("table", wide != 0)
	d.Name = vsym.String("name", vsym.Int("nameLen", 0, maxName))
	kt := vsymNum("keyType", wide != 1)
	d.KeyType = KeyType(kt)
	d.KeyLength = vsymNum("keyLength", wide != 2)
	d.Expiry = vsymNum("expiry", wide != 3)
	mask := uint64(0)
	var tail []byte
	for i, t := range types {
		dt := DataTypeDefinition{DataType: DataType(t)}
		mask |= 1 << t
		if vsymRate(t) {
			dt.Counter = vsymNum("counter", wide != 4 || i != 0)
			dt.Period = vsymNum("period", wide != 5 || i != 0)
			tail = append(tail, vsym.RefVarint(dt.Counter)...)
			tail = append(tail, vsym.RefVarint(dt.Period)...)
		}
		d.DataTypes = append(d.DataTypes, dt)
	}
	wire = vsymCat(vsym.RefVarint(d.StickTableID), vsym.RefVarint(uint64(len(d.Name))), []byte(d.Name),
		vsym.RefVarint(kt), vsym.RefVarint(d.KeyLength), vsym.RefVarint(mask), vsym.RefVarint(d.Expiry), tail)
	return
}

func vsymTypes() []int {
	switch vsym.Param("types", 1) {
	case 0:
		return nil
	case 1:
		return []int{vsym.Choose("type", 27)}
	case 2:
		a := vsym.Choose("type1", 26)
		return []int{a, a + 1 + vsym.Choose("type2", 26-a)}
	case 3:
		a := vsym.Choose("type1", 25)
		b := a + 1 + vsym.Choose("type2", 25-a)
		return []int{a, b, b + 1 + vsym.Choose("type3", 26-b)}
	default:
		// all, and all but one
		var ts []int
		skip := vsym.Choose("skip", 28)
		for i := 0; i < 27; i++ {
			if i != skip {
				ts = append(ts, i)
			}
		}
		return ts
	}
}

// A definition is encoded into a buffer of any size and decoded again.
//
//vsym C17 name:none quick:types=0,wide=1,name=5000 thorough:types=0,wide=1,name=100000 expect:fits,rejected time:60/300
//vsym C17 name:one quick:types=1,wide=1,name=20 thorough:types=1,wide=1,name=300 expect:fits,rejected time:100/400
//vsym C17 name:two quick:types=2,wide=0,name=20 thorough:types=2,wide=0,name=300 expect:fits,rejected time:60/400
//vsym C17 name:three thorough-only quick:types=3,wide=0,name=4 expect:fits,rejected time:60/600
//vsym C17 name:all quick:types=9,wide=0,name=20 thorough:types=9,wide=0,name=300 expect:fits,rejected time:60/300
func VSym_Definition() {
	types := vsymTypes()
	wide := 9
	if vsym.Param("wide", 1) == 1 {
		wide = vsym.Choose("wide", 6)
		if wide >= 4 && (len(types) == 0 || !vsymRate(types[0])) {
			return
		}
	}
	d, wire := vsymAnyDef(types, vsym.Param("name", 10), wide)
	before := *d
	before.DataTypes = append([]DataTypeDefinition(nil), d.DataTypes...)

	room := vsym.Int("room", 0, vsym.Param("name", 10)+400)
	vsym.Assume(room <= len(wire)+3)
	buf := make([]byte, room)
	n, err := d.Marshal(buf)
	vsymSameDef(d, &before, "changed by encoding")
	if room < len(wire) {
		vsym.Assert(err != nil, "definition does not fit but is encoded")
		vsym.Cover("rejected")
		return
	}
	vsym.Assert(err == nil, "definition fits but is rejected")
	vsym.Assert(n == len(wire), "encoded length")
	vsym.AssertEqBytes(buf[:n], wire, "encoded definition")
	vsym.Cover("fits")

	var got Definition
	used, err := got.Unmarshal(buf)
	vsym.Assert(err == nil, "encoded definition is rejected")
	vsym.Assert(used == n, "decoder consumes the wrong number of bytes")
	vsymSameDef(&got, &before, "decoded")
}
