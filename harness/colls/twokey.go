package colls

import (
	"axverif/core"

	"github.com/axgrid/axutils/collections"
)

type twokey struct {
	n int
	m *collections.TwoKeyMap[int, int, int]
}

func (x *twokey) Exec(c *core.Call, op Op) []int {
	v := op.I("v")
	switch op.S("op") {
	case "put":
		j := op.I("j") * x.n
		return alike(x.n, op.I("k"), func(k int) []int { x.m.Put(k, j, v); j++; return nil })
	case "get":
		return alike(x.n, op.I("k"), func(k int) []int { v, ok := x.m.Get(k); return []int{v, bi(ok)} })
	case "get2":
		return alike(x.n, op.I("j"), func(j int) []int { v, ok := x.m.GetByK2(j); return []int{v, bi(ok)} })
	case "rm":
		return alike(x.n, op.I("k"), func(k int) []int { x.m.Remove(k); return nil })
	case "rm2":
		return alike(x.n, op.I("j"), func(j int) []int { x.m.RemoveByK2(j); return nil })
	case "len":
		return share(x.n, x.m.Len())
	case "keys":
		return blocks(x.n, x.m.Keys())
	case "keys2":
		return blocks(x.n, x.m.KeysK2())
	}
	return nil
}

func probeTwo(s core.Script) []Op {
	r := append(probeKeys(s, "k", "get"), probeKeys(s, "j", "get2")...)
	return append(r, Op{"op": "len"}, Op{"op": "keys"}, Op{"op": "keys2"})
}

func init() {
	Drivers["twokey"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			return &twokey{bulk(cfg), collections.NewTwoKeyMap[int, int, int]()}
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			nk, nj := r.Range(1, 4), r.Range(1, 4)
			ph, th, ops := r.Range(1, 4), 3, 2
			if profile == "seq" {
				nk, nj, ph, th, ops = r.Range(1, 12), r.Range(1, 12), 1, 1, 60
			}
			v := 0
			gen := func() Op {
				k, j := r.Intn(nk), r.Intn(nj)
				v++
				switch r.Weighted(35, 12, 15, 12, 12, 4, 5, 5) {
				case 0:
					return Op{"op": "put", "k": k, "j": j, "v": v % 9}
				case 1:
					return Op{"op": "get", "k": k}
				case 2:
					return Op{"op": "get2", "j": j}
				case 3:
					return Op{"op": "rm", "k": k}
				case 4:
					return Op{"op": "rm2", "j": j}
				case 5:
					return Op{"op": "len"}
				case 6:
					return Op{"op": "keys"}
				}
				return Op{"op": "keys2"}
			}
			s := core.Script{Cfg: Op{"z": 0}}
			if profile == "seq" {
				pickBulk(r, s.Cfg)
			}
			s.Phases = core.Phases(r, ph, th, ops, nil, gen)
			s.Phases = append(s.Phases, one(probeTwo(s)))
			return s
		},
		Probe: probeTwo,
	}
}
