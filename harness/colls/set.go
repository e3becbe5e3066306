package colls

import (
	"axverif/core"

	"github.com/axgrid/axutils/collections"
)

type sets struct {
	n int
	x [3]*collections.Set[int]
}

func (x *sets) Exec(c *core.Call, op Op) []int {
	a := x.x[op.I("s")]
	vs := expand(x.n, op.Is("vs"))
	switch op.S("op") {
	case "new":
		x.x[op.I("s")] = collections.NewSet(vs...)
	case "add":
		alike(x.n, op.I("v"), func(v int) []int { a.Add(v); return nil })
	case "addall":
		a.AddAll(vs...)
	case "remove":
		alike(x.n, op.I("v"), func(v int) []int { a.Remove(v); return nil })
	case "clear":
		a.Clear()
	case "has":
		return alike(x.n, op.I("v"), func(v int) []int { return b2i(a.Has(v)) })
	case "hasall":
		return b2i(a.HasAll(vs...))
	case "hasany":
		return b2i(a.HasAny(vs...))
	case "values":
		return blocks(x.n, a.Values())
	case "all":
		return blocks(x.n, a.All())
	case "size":
		return share(x.n, a.Size())
	case "equals":
		return b2i(a.Equals(x.x[op.I("t")]))
	case "clone":
		x.x[op.I("t")] = a.Clone()
	}
	return nil
}

func probeSets(core.Script) []Op {
	var r []Op
	for s := 1; s <= 2; s++ {
		r = append(r, Op{"op": "values", "s": s}, Op{"op": "size", "s": s}, Op{"op": "equals", "s": s, "t": 3 - s})
	}
	return r
}

func init() {
	Drivers["set"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			x := &sets{n: bulk(cfg)}
			x.x[1], x.x[2] = collections.NewSet[int](), collections.NewSet[int]()
			return x
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			nk := r.Range(1, 12)
			ops := core.Pick(r, 10, 30, 60)
			vs := func() []int {
				v := make([]int, r.Weighted(1, 2, 2, 1, 1))
				for i := range v {
					v[i] = r.Intn(nk)
				}
				return v
			}
			gen := func() Op {
				s, v := r.Range(1, 2), r.Intn(nk)
				switch r.Weighted(18, 8, 14, 2, 2, 10, 8, 8, 6, 3, 8, 10, 5) {
				case 0:
					return Op{"op": "add", "s": s, "v": v}
				case 1:
					return Op{"op": "addall", "s": s, "vs": vs()}
				case 2:
					return Op{"op": "remove", "s": s, "v": v}
				case 3:
					return Op{"op": "clear", "s": s}
				case 4:
					return Op{"op": "new", "s": s, "vs": vs()}
				case 5:
					return Op{"op": "has", "s": s, "v": v}
				case 6:
					return Op{"op": "hasall", "s": s, "vs": vs()}
				case 7:
					return Op{"op": "hasany", "s": s, "vs": vs()}
				case 8:
					return Op{"op": "values", "s": s}
				case 9:
					return Op{"op": "all", "s": s}
				case 10:
					return Op{"op": "size", "s": s}
				case 11:
					return Op{"op": "equals", "s": s, "t": r.Range(1, 2)}
				}
				return Op{"op": "clone", "s": s, "t": 3 - s}
			}
			var th []Op
			for i := 0; i < ops; i++ {
				th = append(th, gen())
			}
			cfg := Op{"z": 0}
			pickBulk(r, cfg)
			s := core.Script{Cfg: cfg, Phases: []core.Phase{one(th)}}
			s.Phases = append(s.Phases, one(probeSets(s)))
			return s
		},
		Probe: probeSets,
	}
}
