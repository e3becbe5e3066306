package colls

import (
	"axverif/core"

	"github.com/axgrid/axutils/axvctl"
	"github.com/axgrid/axutils/collections"
)

type maps struct {
	n     int
	m     collections.Map[int, int]
	shard *collections.ShardMap[int, int]
}

func (x *maps) Exec(c *core.Call, op Op) []int {
	switch op.S("op") {
	case "size":
		return share(x.n, x.m.Size())
	case "clear":
		x.shard.Clear()
		return nil
	}
	n := 0
	return alike(x.n, op.I("k"), func(k int) []int { n++; return surviving(func() []int { return x.one(c, op, k, n == 1) }) })
}

func (x *maps) one(c *core.Call, op Op, k int, first bool) []int {
	v := op.I("v")
	switch op.S("op") {
	case "get":
		v, ok := x.m.Get(k)
		return []int{v, bi(ok)}
	case "set":
		x.m.Set(k, v)
	case "del":
		x.m.Delete(k)
	case "has":
		return b2i(x.m.Has(k))
	case "sine":
		return b2i(x.m.SetIfNotExists(k, v))
	case "sinef":
		r, ok := x.m.SetIfNotExistsWithFunc(k, func() int {
			axvctl.P()
			if first {
				c.Log("fn")
			}
			axvctl.P()
			if op.I("p") == 1 {
				panic(boom{[]int{-1}})
			}
			return v
		})
		return []int{r, bi(ok)}
	}
	return nil
}

func mapsDriver(shards func(r *core.Rand) int) *core.Driver {
	probe := func(s core.Script) []Op {
		return append(probeKeys(s, "k", "get", "has"), Op{"op": "size"})
	}
	return &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			n := cfg.I("sh")
			if n == 0 {
				return &maps{n: bulk(cfg), m: collections.NewSimpleMap[int, int]()}
			}
			b := collections.NewShardMap[int, int]()
			conf := func(decoy bool) {
				if decoy {
					b.WithShardsCount(n + 3).WithShardsFunc(func(k int) int { return (k*k + 1) % (n + 3) })
					return
				}
				b = b.WithShardsFunc(func(k int) int { return k*cfg.I("fa") + cfg.I("fb") })
				if cfg.I("def") == 0 {
					b = b.WithShardsCount(n)
				}
			}
			s := core.Twins(cfg, conf, func() *collections.ShardMap[int, int] { return b.Build() }, func(m *collections.ShardMap[int, int]) {
				for k := 0; k < 4; k++ {
					m.Set(k, 777)
				}
			})
			return &maps{bulk(cfg), s, s}
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			sh := shards(r)
			if profile == "conc" && sh > 3 {
				sh = 2
			}
			nk := r.Range(1, 4)
			ph, th, ops := r.Range(1, 4), 3, 2
			if profile == "seq" {
				nk, ph, th, ops = r.Range(1, 16), 1, 1, 80
			}
			v := 0
			cfg := Op{"sh": sh, "fa": 1, "fb": 0}
			if r.Chance(70) {
				cfg["fa"], cfg["fb"] = r.Range(-3, 3), r.Range(-7, 7)
			}
			if profile == "seq" {
				pickBulk(r, cfg)
			}
			low := r.Range(-3, 0)
			if sh == 6 && r.Chance(50) {
				cfg["def"] = 1
			}
			clear := 0
			if sh > 0 {
				clear = 3
			}
			gen := func() Op {
				k := low + r.Intn(nk)
				v = (v + 1) % 100
				val := v
				if r.Chance(10) {
					val = 0
				}
				switch r.Weighted(20, 20, 15, 10, 12, 15, 8, clear) {
				case 0:
					return Op{"op": "get", "k": k}
				case 1:
					return Op{"op": "set", "k": k, "v": val}
				case 2:
					return Op{"op": "del", "k": k}
				case 3:
					return Op{"op": "has", "k": k}
				case 4:
					return Op{"op": "sine", "k": k, "v": val}
				case 5:
					o := Op{"op": "sinef", "k": k, "v": val}
					if r.Chance(15) {
						o["p"] = 1
					}
					return o
				case 6:
					return Op{"op": "size"}
				}
				return Op{"op": "clear"}
			}
			s := core.Script{Cfg: cfg}
			s.Phases = core.Phases(r, ph, th, ops, nil, gen)
			s.Phases = append(s.Phases, one(probe(s)))
			return s
		},
		Probe: probe,
	}
}

func init() {
	Drivers["simplemap"] = mapsDriver(func(r *core.Rand) int { return 0 })
	Drivers["shardmap"] = mapsDriver(func(r *core.Rand) int { return core.Pick(r, 1, 2, 2, 3, 3, 6, r.Range(1, 10)) })
}
