package misc

import (
	"encoding/binary"

	"axverif/core"

	axnet "github.com/axgrid/axutils/net"
)

type codec struct{ k keeper }

// le makes a number of bytes, lowest first.
func le(d []int) (v uint64) {
	for i := 0; i < 8 && i < len(d); i++ {
		v += uint64(d[i]) << (8 * i)
	}
	return
}

func unle(v uint64, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = int(v >> (8 * i) & 255)
	}
	return r
}

func bools(d []int) []bool {
	b := make([]bool, len(d))
	for i, x := range d {
		b[i] = x != 0
	}
	return b
}

func (x *codec) Exec(c *core.Call, op Op) []int {
	d, n := op.Is("d"), op.I("n")
	in := toBytes(d)
	var order binary.ByteOrder = binary.LittleEndian
	if op.I("o") == 1 {
		order = binary.BigEndian
	}
	done := func(r []int) []int { return append(append([]int{}, r...), bi(same(in, toBytes(d)))) }
	kb := func(b []byte) []int {
		keep(&x.k, b)
		return done(toInts(b))
	}
	switch op.S("op") {
	case "chk":
		return x.k.ok()
	case "i2b":
		return kb(axnet.GetBytesFromInt(int(le(d)), n))
	case "b2i":
		return done(unle(uint64(axnet.GetIntFromBytes(in)), 8))
	case "pack":
		v := le(d)
		switch len(d) {
		case 1:
			return kb(axnet.PackUint(order, uint8(v)))
		case 2:
			return kb(axnet.PackUint(order, uint16(v)))
		case 4:
			return kb(axnet.PackUint(order, uint32(v)))
		}
		return kb(axnet.PackUint(order, v))
	case "unpack":
		var err error
		var v uint64
		switch n {
		case 1:
			w := uint8(77)
			err = axnet.UnpackUint(order, in, &w)
			v = uint64(w)
		case 2:
			w := uint16(7777)
			err = axnet.UnpackUint(order, in, &w)
			v = uint64(w)
		case 4:
			w := uint32(77777)
			err = axnet.UnpackUint(order, in, &w)
			v = uint64(w)
		default:
			v = 777777
			err = axnet.UnpackUint(order, in, &v)
		}
		if err != nil {
			return []int{-1}
		}
		return done(unle(v, n))
	case "badun":
		var w int64 = 5
		if axnet.UnpackUint(order, in, &w) == nil || w != 5 || axnet.UnpackUint(order, in, uint32(3)) == nil {
			return []int{1}
		}
		return []int{0}
	case "u2b":
		if len(d) == 2 {
			return kb(axnet.GetBytesFromUInt16(uint16(le(d))))
		}
		return kb(axnet.GetBytesFromUInt32(uint32(le(d))))
	case "b2u":
		if len(d) == 2 {
			return done(unle(uint64(axnet.GetUInt16FromBytes(in)), 2))
		}
		return done(unle(uint64(axnet.GetUInt32FromBytes(in)), 4))
	case "size":
		in = append(make([]byte, 0, len(in)+op.I("s")), in...) // capacity to spare
		if n == 2 {
			return kb(axnet.AddSize16(in))
		}
		return kb(axnet.AddSize32(in))
	case "chunk":
		var r []int
		for _, p := range axnet.Chunk(in, n) {
			keep(&x.k, p)
			r = append(append(r, -len(p)), toInts(p)...)
		}
		return done(r)
	case "b2bool":
		var b []bool
		if n < 0 {
			b = axnet.ByteToBoolArray(in)
		} else {
			b = axnet.ByteToBoolArray(in, n)
		}
		keep(&x.k, b)
		r := make([]int, len(b))
		for i := range b {
			r[i] = bi(b[i])
		}
		return done(r)
	case "bool2b":
		bs := bools(d)
		b := axnet.BoolArrayToByte(bs)
		keep(&x.k, b)
		return append(toInts(b), bi(same(bs, bools(d))))
	case "true":
		b := axnet.CreateAllTrueBoolArray(n)
		keep(&x.k, b)
		r := make([]int, len(b))
		for i := range b {
			r[i] = bi(b[i])
		}
		return append(r, 1)
	case "copy":
		b := axnet.CopyBytes(in, n)
		r := kb(b)
		if len(b) > 0 { // a copy of its own
			in[0] ^= 255
			in[len(b)-1] ^= 255
			if x.k.ok()[0] != 1 {
				return []int{-1}
			}
		}
		return r
	}
	return nil
}

func init() {
	Drivers["codec"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp { return &codec{} },
		Gen: func(r *core.Rand, profile string) core.Script {
			bytes := func(n int) []int {
				b := toInts(r.Bytes(n))
				for i := range b {
					if r.Chance(30) {
						b[i] = core.Pick(r, 0, 0, 1, 127, 128, 255)
					}
				}
				return b
			}
			some := func() []int { return bytes(r.Intn(core.Pick(r, 3, 12, 70, 70, core.Pick(r, 70, 70, 70, 3000)))) }
			gen := func() Op {
				switch r.Weighted(10, 8, 8, 8, 1, 5, 8, 8, 8, 8, 3, 5) {
				case 0:
					v := bytes(8)
					for i := r.Range(1, 8); i < 8; i++ { // small ones, also negative
						v[i] = 0
						if v[0]%3 == 0 {
							v[i] = 255
						}
					}
					return Op{"op": "i2b", "d": v, "n": r.Range(0, 10)}
				case 1:
					return Op{"op": "b2i", "d": bytes(r.Range(0, 10))}
				case 2:
					return Op{"op": "pack", "d": bytes(core.Pick(r, 1, 2, 4, 8)), "o": r.Intn(2)}
				case 3:
					n := core.Pick(r, 1, 2, 4, 8)
					return Op{"op": "unpack", "d": bytes(n + r.Weighted(3, 1, 1)), "n": n, "o": r.Intn(2)}
				case 4:
					return Op{"op": "badun", "d": bytes(8)}
				case 5:
					return Op{"op": core.Pick(r, "u2b", "b2u"), "d": bytes(core.Pick(r, 2, 4))}
				case 6:
					d := some()
					if r.Chance(10) {
						d = bytes(core.Pick(r, 255, 256, 257, 700))
					}
					return Op{"op": "size", "d": d, "n": core.Pick(r, 2, 4), "s": r.Intn(9)}
				case 7:
					return Op{"op": "chunk", "d": some(), "n": core.Pick(r, 1, 2, 3, 7, 16, 69, 70, 71, 255, 256, 1024)}
				case 8:
					d := bytes(r.Intn(9))
					n := -1
					if r.Chance(50) {
						n = r.Range(0, 8*len(d))
					}
					return Op{"op": "b2bool", "d": d, "n": n}
				case 9:
					d := make([]int, r.Intn(core.Pick(r, 70, 70, 70, 70, 600)))
					for i := range d {
						d[i] = r.Intn(2)
					}
					return Op{"op": "bool2b", "d": d}
				case 10:
					return Op{"op": "true", "n": r.Intn(core.Pick(r, 40, 40, 3000))}
				}
				d := some()
				return Op{"op": "copy", "d": d, "n": r.Range(0, len(d))}
			}
			return pureScript(r, Op{"z": 0}, profile, gen, true)
		},
	}
}
