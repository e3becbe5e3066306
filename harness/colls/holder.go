package colls

import (
	"context"
	"errors"
	"strings"
	"time"

	"axverif/core"

	"github.com/axgrid/axutils/collections"
)

type holder struct {
	m      *collections.HolderMap[int, int]
	cancel func()
}

func holderErr(err error) int {
	var e codeErr
	switch {
	case err == nil:
		return 0
	case errors.As(err, &e):
		return int(e)
	case errors.Is(err, context.Canceled):
		return -2
	case strings.Contains(err.Error(), "timeout"):
		return -1
	case strings.Contains(err.Error(), "not found"):
		return -3
	}
	return -9
}

func (x *holder) Exec(c *core.Call, op Op) []int {
	k, v := op.I("k"), op.I("v")
	switch op.S("op") {
	case "wait":
		return []int{holderErr(x.m.Wait(k, v))}
	case "get":
		o, err := x.m.Get(k)
		return []int{o, holderErr(err)}
	case "upd":
		return []int{holderErr(x.m.Update(k, v))}
	case "rel":
		return []int{holderErr(x.m.Release(k))}
	case "err":
		return []int{holderErr(x.m.Error(k, codeErr(v)))}
	case "count":
		return []int{x.m.Count()}
	case "cancel":
		x.cancel()
	}
	return nil
}

func (x *holder) End(h *core.H) {
	x.cancel()
	time.Sleep(100 * core.Unit) // holders are removed
}

func init() {
	Drivers["holder"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			ctx, cancel := context.WithCancel(context.Background())
			b := collections.NewHolderMap[int, int]()
			conf := func(decoy bool) {
				if decoy {
					b.WithContext(h.Decoy()).WithTimeout(core.Unit / 3).WithTTL(core.Unit / 2)
					return
				}
				b = b.WithContext(ctx)
				if cfg.I("def") == 0 {
					b = b.WithTimeout(time.Duration(cfg.I("rt")) * core.Unit).WithTTL(time.Duration(cfg.I("ttl")) * core.Unit)
				}
			}
			return &holder{core.Twins(cfg, conf, func() *collections.HolderMap[int, int] { return b.Build() }, func(m *collections.HolderMap[int, int]) {
				go m.Wait(0, 777)
			}), cancel}
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			cfg := Op{"rt": 40, "ttl": 50}
			s := core.Script{Cfg: cfg}
			nk := r.Range(1, 3)
			v := 0
			gen := func() Op {
				k := r.Intn(nk)
				v++
				switch r.Weighted(45, 10, 8, 14, 10, 6) {
				case 0:
					return Op{"op": "wait", "k": k, "v": v}
				case 1:
					return Op{"op": "get", "k": k}
				case 2:
					return Op{"op": "upd", "k": k, "v": v}
				case 3:
					return Op{"op": "rel", "k": k}
				case 4:
					return Op{"op": "err", "k": k, "v": v}
				}
				return Op{"op": "count", "k": 0}
			}
			blocks := func(o Op) bool { return o.S("op") == "wait" && r.Chance(70) }
			if profile == "conc" {
				waitGen(r, &s, r.Range(1, 5), 4, nil, gen, blocks)
			} else {
				cfg["rt"], cfg["ttl"] = r.Range(1, 4), r.Range(1, 4)
				def := r.Chance(5)
				if def { // the defaults: 10 s, 5 min
					cfg["def"], cfg["u"], cfg["rt"], cfg["ttl"] = 1, 10, 1, 30
				}
				waitGen(r, &s, r.Range(2, 8), 3, func() int { return core.Pick(r, 0, 1, 1, 1, 2) }, gen, blocks)
				if profile == "stop" || r.Chance(10) {
					i := r.Intn(len(s.Phases))
					s.Phases[i].Threads = append(s.Phases[i].Threads, []Op{{"op": "cancel", "k": 0}})
				}
				if def && r.Chance(60) {
					s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{gen()}}, Ticks: r.Range(28, 34)})
				}
				if r.Chance(60) {
					s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{gen()}}, Ticks: 1 + r.Intn(6)})
				}
			}
			p := core.Phase{}
			for k := 0; k < nk; k++ {
				p.Threads = append(p.Threads, []Op{{"op": "wait", "k": k, "v": 80 + k}}, []Op{{"op": "get", "k": k}, {"op": "rel", "k": k}})
			}
			s.Phases = append(s.Phases, p, one([]Op{{"op": "count", "k": 0}, {"op": "get", "k": 0}}))
			return s
		},
		Probe: func(s core.Script) []Op {
			return []Op{{"op": "count", "k": 0}, {"op": "get", "k": 0}, {"op": "get", "k": 1}, {"op": "rel", "k": 0}, {"op": "rel", "k": 1}, {"op": "get", "k": 0}, {"op": "count", "k": 0}}
		},
		Leak: true,
	}
}
