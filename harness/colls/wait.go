package colls

import (
	"context"
	"time"

	"axverif/core"

	"github.com/axgrid/axutils/collections"
)

type waitm struct {
	m      *collections.WaitMap[int, int]
	cancel func()
}

func (x *waitm) Exec(c *core.Call, op Op) []int {
	switch op.S("op") {
	case "set":
		x.m.Set(op.I("k"), op.I("v"))
	case "wait":
		return []int{x.m.Wait(op.I("k"))}
	case "count":
		return []int{x.m.Count()}
	case "cancel":
		x.cancel()
	}
	return nil
}

func (x *waitm) End(h *core.H) {
	x.cancel()
	time.Sleep(100 * core.Unit)
}

func init() {
	Drivers["wait"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			ctx, cancel := context.WithCancel(context.Background())
			b := collections.NewWaitMap[int, int]()
			conf := func(decoy bool) {
				if decoy {
					b.WithContext(h.Decoy()).WithRequestTimeout(core.Unit / 3).WithResponseTtl(core.Unit / 2)
					return
				}
				b = b.WithContext(ctx)
				if cfg.I("def") == 0 {
					b = b.WithRequestTimeout(time.Duration(cfg.I("rt")) * core.Unit).WithResponseTtl(time.Duration(cfg.I("ttl")) * core.Unit)
				}
			}
			return &waitm{core.Twins(cfg, conf, func() *collections.WaitMap[int, int] { return b.Build() }, func(m *collections.WaitMap[int, int]) { m.Set(0, 777) }), cancel}
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			cfg := Op{"rt": 40, "ttl": 50}
			s := core.Script{Cfg: cfg}
			nk := r.Range(1, 3)
			v := 0
			gen := func() Op {
				switch r.Weighted(45, 40, 12) {
				case 0:
					return Op{"op": "wait", "k": r.Intn(nk)}
				case 1:
					v++
					if r.Chance(5) {
						return Op{"op": "set", "k": r.Intn(nk), "v": 0}
					}
					return Op{"op": "set", "k": r.Intn(nk), "v": v}
				}
				return Op{"op": "count"}
			}
			blocks := func(o Op) bool { return o.S("op") == "wait" && r.Chance(70) }
			if profile == "conc" {
				waitGen(r, &s, r.Range(1, 4), 4, nil, gen, blocks)
			} else {
				cfg["rt"], cfg["ttl"] = r.Range(1, 4), r.Range(1, 4)
				def := r.Chance(5)
				if def { // the defaults: 10 s, 5 min
					cfg["def"], cfg["u"], cfg["rt"], cfg["ttl"] = 1, 10, 1, 30
				}
				waitGen(r, &s, r.Range(2, 8), 3, func() int { return core.Pick(r, 0, 1, 1, 1, 2) }, gen, blocks)
				if profile == "stop" || r.Chance(10) {
					i := r.Intn(len(s.Phases))
					s.Phases[i].Threads = append(s.Phases[i].Threads, []Op{{"op": "cancel"}})
				}
				if def && r.Chance(60) {
					s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{gen()}}, Ticks: r.Range(28, 34)})
				}
				if r.Chance(60) {
					s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{gen()}}, Ticks: 1 + r.Intn(6)})
				}
			}
			p := core.Phase{}
			for k := 0; k < nk; k++ {
				p.Threads = append(p.Threads, []Op{{"op": "wait", "k": k}}, []Op{{"op": "set", "k": k, "v": 90}})
			}
			s.Phases = append(s.Phases, p, one([]Op{{"op": "count"}}))
			return s
		},
		Probe: func(s core.Script) []Op {
			return []Op{{"op": "set", "k": 0, "v": 90}, {"op": "wait", "k": 0}, {"op": "set", "k": 1, "v": 91}, {"op": "wait", "k": 1}, {"op": "count"}}
		},
		Leak: true,
	}
}
