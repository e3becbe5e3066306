package colls

import (
	"context"
	"io"
	"time"

	"axverif/core"

	"github.com/rs/zerolog"

	"github.com/axgrid/axutils/collections"
)

type response struct {
	m      *collections.ResponseMap[int, int]
	cancel func()
}

func (x *response) Exec(c *core.Call, op Op) []int {
	switch op.S("op") {
	case "set":
		x.m.Set(op.I("k"), op.I("v"))
	case "wait":
		return []int{x.m.Wait(op.I("k"))}
	case "cancel":
		x.cancel()
	}
	return nil
}

func (x *response) End(h *core.H) {
	x.cancel()
	for k := 0; k < 10; k++ { // whoever still waits
		x.m.Set(k, 9999)
	}
}

// waitGen makes scripts of calls that set, wait and the like; gen's calls that block go into threads of their own.
func waitGen(r *core.Rand, s *core.Script, ph, th int, ticks func() int, gen func() Op, blocks func(o Op) bool) {
	for i := 0; i < ph; i++ {
		p := core.Phase{}
		for j, n := 0, r.Range(1, th); j < n; j++ {
			var t []Op
			for m := r.Range(1, 2); m > 0; m-- {
				o := gen()
				t = append(t, o)
				if blocks(o) {
					break
				}
			}
			p.Threads = append(p.Threads, t)
		}
		if ticks != nil {
			p.Ticks = ticks()
		}
		s.Phases = append(s.Phases, p)
	}
}

func init() {
	Drivers["response"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			ctx, cancel := context.WithCancel(context.Background())
			b := collections.NewResponseMap[int, int](ctx)
			conf := func(decoy bool) {
				if decoy {
					b.WithResponseTimeout(core.Unit / 3).WithClearTimeout(core.Unit / 2)
				} else if cfg.I("def") == 0 {
					b = b.WithResponseTimeout(time.Duration(cfg.I("rt")) * core.Unit).WithClearTimeout(time.Duration(cfg.I("ct")) * core.Unit)
				}
				if cfg.I("log") == 1 {
					b = b.WithLogger(zerolog.New(io.Discard))
				}
			}
			return &response{core.Twins(cfg, conf, func() *collections.ResponseMap[int, int] { return b.Build() }, func(m *collections.ResponseMap[int, int]) { m.Set(0, 777) }), cancel}
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			cfg := Op{"rt": 40, "ct": 50, "log": r.Intn(2)}
			s := core.Script{Cfg: cfg}
			nk := r.Range(1, 3)
			v := 0
			gen := func() Op {
				if r.Chance(55) {
					return Op{"op": "wait", "k": r.Intn(nk)}
				}
				v++
				return Op{"op": "set", "k": r.Intn(nk), "v": v}
			}
			blocks := func(o Op) bool { return o.S("op") == "wait" && r.Chance(70) }
			if profile == "conc" {
				waitGen(r, &s, r.Range(1, 4), 4, nil, gen, blocks)
			} else {
				cfg["rt"], cfg["ct"] = r.Range(1, 4), r.Range(1, 3)
				if r.Chance(8) { // the defaults: 100 s both
					cfg["def"], cfg["u"], cfg["rt"], cfg["ct"] = 1, 50, 2, 2
				}
				waitGen(r, &s, r.Range(2, 8), 3, func() int { return core.Pick(r, 0, 1, 1, 1, 2) }, gen, blocks)
				if r.Chance(15) {
					i := r.Intn(len(s.Phases))
					s.Phases[i].Threads = append(s.Phases[i].Threads, []Op{{"op": "cancel", "k": 0}})
				}
				if r.Chance(60) {
					s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{gen()}}, Ticks: 1 + r.Intn(7)})
				}
			}
			p := core.Phase{}
			for k := 0; k < nk; k++ {
				p.Threads = append(p.Threads, []Op{{"op": "wait", "k": k}}, []Op{{"op": "set", "k": k, "v": 90}})
			}
			s.Phases = append(s.Phases, p)
			return s
		},
		Probe: func(s core.Script) []Op {
			return []Op{{"op": "set", "k": 0, "v": 90}, {"op": "wait", "k": 0}, {"op": "set", "k": 1, "v": 91}, {"op": "wait", "k": 1}}
		},
	}
}
