package colls

import (
	"axverif/core"

	"github.com/axgrid/axutils/collections"
)

type hashSet struct {
	n int
	s *collections.HashSet[int]
}

func (x *hashSet) Exec(c *core.Call, op core.Op) []int {
	switch op.S("op") {
	case "count":
		return share(x.n, x.s.Count())
	case "clear":
		x.s.Clear()
		return nil
	case "keys":
		return blocks(x.n, x.s.Keys())
	}
	return alike(x.n, op.I("k"), func(k int) []int {
		switch op.S("op") {
		case "add":
			x.s.Add(k)
		case "has":
			return b2i(x.s.Has(k))
		case "hoc":
			return b2i(x.s.HasOrCreate(k))
		case "del":
			x.s.Delete(k)
		}
		return nil
	})
}

func init() {
	Drivers["hashset"] = &core.Driver{
		New: func(h *core.H, cfg core.Op) core.Comp {
			b := collections.NewHashSet[int]()
			conf := func(decoy bool) {
				if decoy {
					b.WithMaxCount(cfg.I("max") + 1)
				} else if cfg.I("max") != 0 || cfg.I("set") == 1 || cfg.I("twin") == 4 {
					b = b.WithMaxCount(cfg.I("max") * bulk(cfg))
				}
			}
			return &hashSet{bulk(cfg), core.Twins(cfg, conf, func() *collections.HashSet[int] { return b.Build() }, func(s *collections.HashSet[int]) {
				for k := 0; k < 4; k++ {
					s.Add(k)
				}
			})}
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			nk := r.Range(1, 5)
			max := core.Pick(r, 0, 0, 1, 2, 3, r.Range(1, 8))
			phases, th, ops := r.Range(1, 4), 3, 2
			if profile == "seq" {
				nk = r.Range(1, 20)
				phases, th, ops = 1, 1, 80
				max = core.Pick(r, 0, 1, 2, 3, r.Range(1, 20), nk)
			}
			gen := func() core.Op {
				k := r.Intn(nk)
				switch r.Weighted(25, 12, 25, 15, 7, 2, 8) {
				case 0:
					return core.Op{"op": "add", "k": k}
				case 1:
					return core.Op{"op": "has", "k": k}
				case 2:
					return core.Op{"op": "hoc", "k": k}
				case 3:
					return core.Op{"op": "del", "k": k}
				case 4:
					return core.Op{"op": "count"}
				case 5:
					return core.Op{"op": "clear"}
				}
				return core.Op{"op": "keys"}
			}
			s := core.Script{Cfg: core.Op{"max": max}}
			if profile == "seq" {
				pickBulk(r, s.Cfg)
			}
			s.Phases = core.Phases(r, phases, th, ops, nil, gen)
			s.Phases = append(s.Phases, one(probeHash(s)))
			return s
		},
		Probe: probeHash,
	}
}

func probeHash(s core.Script) []Op {
	return append(probeKeys(s, "k", "has"), Op{"op": "count"}, Op{"op": "keys"})
}
