package pipes

import (
	"context"
	"sync"

	"axverif/core"

	"github.com/axgrid/axutils/workers"
)

const gated = 1000 // tasks from this number on run until they are opened

type runner struct {
	h      *core.H
	ctx    context.Context
	cancel func()
	r      *workers.Runner
	mu     sync.Mutex
	gates  map[int]chan struct{}
	ends   bool
}

type ctxKey struct{}

func (x *runner) gate(i int) chan struct{} {
	x.mu.Lock()
	defer x.mu.Unlock()
	g := x.gates[i]
	if g == nil {
		g = make(chan struct{})
		x.gates[i] = g
		if x.ends {
			close(g)
		}
	}
	return g
}

func (x *runner) task(op Op, ctx int) {
	i := op.I("i")
	x.h.Log(Op{"e": "fb", "i": i, "x": ctx})
	if n := op.I("sub"); n > 0 { // the task gives the runner another one
		x.h.Sub(x, Op{"op": []string{"run", "runctx"}[n%2], "i": n})
	}
	if i >= gated {
		<-x.gate(i)
	} else {
		pause(i)
	}
	x.h.Log(Op{"e": "fe", "i": i})
}

func (x *runner) Exec(c *core.Call, op Op) []int {
	i := op.I("i")
	switch op.S("op") {
	case "run":
		x.r.Run(func() { x.task(op, 0) })
	case "runctx":
		x.r.RunWithContext(func(ctx context.Context) {
			if ctx != x.ctx || ctx.Value(ctxKey{}) != x {
				x.task(op, 2) // not the context of the runner
				return
			}
			x.task(op, 1)
		})
	case "cancel":
		x.cancel()
	case "open":
		close(x.gate(i))
	}
	return nil
}

func (x *runner) End(h *core.H) {
	x.cancel()
	x.mu.Lock()
	defer x.mu.Unlock()
	x.ends = true
	for _, g := range x.gates {
		select {
		case <-g:
		default:
			close(g)
		}
	}
}

func init() {
	Drivers["runner"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			x := &runner{h: h, gates: map[int]chan struct{}{}}
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, x))
			x.ctx, x.cancel = ctx, cancel
			b := workers.NewRunner()
			conf := func(decoy bool) {
				if decoy {
					b.WithContext(h.Decoy()).WithWorkerCount(cfg.I("n") + 3)
					return
				}
				b = b.WithContext(ctx)
				if cfg.I("def") == 0 {
					b = b.WithWorkerCount(cfg.I("n"))
				}
			}
			x.r = core.Twins(cfg, conf, func() *workers.Runner { return b.Build() }, func(r *workers.Runner) {
				stop := h.Hold()
				for i := 0; i < cfg.I("n")+4; i++ { // its workers are busy, and more tasks wait
					r.Run(func() { <-stop })
					r.RunWithContext(func(context.Context) { <-stop })
				}
			})
			return x
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			cfg := Op{"n": r.Range(1, 4), "buf": 100}
			if r.Chance(10) {
				cfg["def"], cfg["n"] = 1, 5
			}
			s := core.Script{Cfg: cfg}
			id, gid := 0, gated
			var open []int
			task := func(g int) Op {
				o := Op{"op": core.Pick(r, "run", "run", "runctx")}
				if r.Chance(g) {
					gid++
					o["i"] = gid
					open = append(open, gid)
				} else {
					id++
					o["i"] = id
				}
				if profile != "full" && r.Chance(15) {
					id++
					o["sub"] = id
				}
				return o
			}
			if profile == "full" {
				// all workers busy, the queue fills up
				p := core.Phase{}
				for i := 0; i < cfg.I("n"); i++ {
					p.Threads = append(p.Threads, []Op{task(100)})
				}
				s.Phases = append(s.Phases, p)
				kind := core.Pick(r, "run", "runctx")
				var th []Op
				for i := 0; i < 100-r.Intn(2); i++ {
					t := task(0)
					t["op"] = kind
					th = append(th, t)
				}
				s.Phases = append(s.Phases, one(th...))
				p = core.Phase{Threads: [][]Op{{task(0)}, {task(0)}, {task(0)}, {task(0)}}}
				s.Phases = append(s.Phases, p)
				if r.Chance(50) {
					s.Phases = append(s.Phases, one(Op{"op": "cancel"}))
				}
			} else {
				nph := r.Range(1, 4)
				stopAt := -1
				if profile == "stop" {
					stopAt = r.Intn(nph)
				}
				for i := 0; i < nph; i++ {
					p := core.Phase{}
					for j, m := 0, r.Range(1, 4); j < m; j++ {
						var th []Op
						for k := r.Range(1, 3); k > 0; k-- {
							th = append(th, task(25))
						}
						p.Threads = append(p.Threads, th)
					}
					if len(open) > 0 && r.Chance(60) {
						k := r.Intn(len(open))
						p.Threads = append(p.Threads, []Op{{"op": "open", "i": open[k]}})
						open = append(open[:k], open[k+1:]...)
					}
					if i == stopAt {
						p.Threads = append(p.Threads, []Op{{"op": "cancel"}})
					}
					s.Phases = append(s.Phases, p)
				}
				if stopAt >= 0 {
					s.Phases = append(s.Phases, one(task(0), task(0), task(0)))
				}
			}
			if r.Chance(70) {
				var th []Op
				for _, i := range open {
					th = append(th, Op{"op": "open", "i": i})
				}
				if len(th) > 0 {
					s.Phases = append(s.Phases, one(th...))
				}
			}
			return s
		},
		Leak: true,
	}
}
