package colls

import (
	"context"
	"errors"
	"sync"
	"time"

	"axverif/core"

	"github.com/axgrid/axutils/collections"
)

// gates hold functions back until they are opened.
type gates struct {
	mu   sync.Mutex
	m    map[int]chan struct{}
	ends bool
}

func (g *gates) get(i int) chan struct{} {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.m == nil {
		g.m = map[int]chan struct{}{}
	}
	ch := g.m[i]
	if ch == nil {
		ch = make(chan struct{})
		g.m[i] = ch
		if g.ends {
			close(ch)
		}
	}
	return ch
}

func (g *gates) open(i int) {
	ch := g.get(i)
	g.mu.Lock()
	defer g.mu.Unlock()
	select {
	case <-ch:
	default:
		close(ch)
	}
}

func (g *gates) openAll() {
	g.mu.Lock()
	g.ends = true
	var is []int
	for i := range g.m {
		is = append(is, i)
	}
	g.mu.Unlock()
	for _, i := range is {
		g.open(i)
	}
}

type request struct {
	h      *core.H
	m      *collections.RequestMap[int, int]
	cancel func()
	g      gates
	mu     sync.Mutex
	fns    map[int]func(k int) (int, error)
	tos    map[int]func(k int) (int, error)
}

// fn is the function given by call c: it may wait for gate g, and fails with er.
func (x *request) fn(c *core.Call, op Op) func(k int) (int, error) {
	return func(k int) (int, error) {
		c.Log("lb", "k", k)
		if op.I("nest") == 1 && k < 20 { // the function asks for another key
			x.h.Sub(x, Op{"op": "goce", "k": k + 20, "er": op.I("er")})
		}
		if g := op.I("g"); g > 0 {
			<-x.g.get(g)
		} else {
			pause(c.ID, k)
		}
		v, er := 100+c.ID, op.I("er")
		if c.ID%7 == 3 {
			v = 0
		}
		if op.S("op") == "goc" {
			er = 0
		}
		c.Log("le", "v", v, "err", er)
		if er != 0 {
			return v, codeErr(er)
		}
		return v, nil
	}
}

// share makes one function for all calls with the same timeout; the key tells whose call it is.
func (x *request) share() {
	for d := 1; d <= 3; d++ {
		x.tos[d] = x.m.Timeout(time.Duration(d)*core.Unit, func(k int) (int, error) {
			x.mu.Lock()
			g := x.fns[k/1000]
			x.mu.Unlock()
			return g(k % 1000)
		})
	}
}

func (x *request) Exec(c *core.Call, op Op) []int {
	k := op.I("k")
	switch op.S("op") {
	case "goc":
		f := x.fn(c, op)
		return []int{x.m.GetOrCreate(k, func(k int) int { v, _ := f(k); return v })}
	case "goce":
		v, err := x.m.GetOrCreateWithErr(k, x.fn(c, op))
		return []int{v, code(err)}
	case "to":
		f := x.tos[op.I("d")]
		if f == nil {
			f = x.m.Timeout(time.Duration(op.I("d"))*core.Unit, x.fn(c, op))
		} else {
			x.mu.Lock()
			x.fns[c.ID] = x.fn(c, op)
			x.mu.Unlock()
			k += c.ID * 1000
		}
		v, err := f(k)
		if errors.Is(err, collections.ErrTimeout) {
			return []int{v, -1}
		}
		return []int{v, code(err)}
	case "count":
		return []int{x.m.Count()}
	case "cancel":
		x.cancel()
	case "open":
		x.g.open(op.I("g"))
	}
	return nil
}

func (x *request) End(h *core.H) {
	x.cancel()
	x.g.openAll()
}

func init() {
	Drivers["request"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			ctx, cancel := context.WithCancel(context.Background())
			x := &request{h: h, cancel: cancel, fns: map[int]func(int) (int, error){}, tos: map[int]func(int) (int, error){}}
			var init []*collections.RequestMapInitializer[int, int]
			if l, ok := cfg["init"].([]any); ok {
				for _, e := range l {
					t := e.([]any)
					n := func(i int) int { return Op{"x": t[i]}.I("x") }
					i := &collections.RequestMapInitializer[int, int]{Key: n(0), Result: n(1)}
					if n(2) != 0 {
						i.Err = codeErr(n(2))
					}
					init = append(init, i)
				}
			}
			x.m = collections.NewRequestMap[int, int](ctx, time.Duration(cfg.I("ttl"))*core.Unit, init...)
			if cfg.I("share") == 1 {
				x.share()
			}
			return x
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			nk := r.Range(1, 3)
			init := []any{}
			if r.Chance(40) {
				for i, n := 0, r.Range(1, 3); i < n; i++ {
					init = append(init, []any{r.Intn(nk + 1), r.Range(1, 50), core.Pick(r, 0, 0, 7)})
				}
			}
			cfg := Op{"ttl": 30, "init": init, "share": r.Intn(2)}
			s := core.Script{Cfg: cfg}
			gate, open := 0, []int{}
			fn := func(o Op, pct int) Op {
				if r.Chance(pct) {
					gate++
					o["g"] = gate
					open = append(open, gate)
				}
				if r.Chance(12) {
					o["nest"] = 1
				}
				if r.Chance(25) {
					o["er"] = r.Range(1000, 1010)
				}
				return o
			}
			gen := func() Op {
				k := r.Intn(nk)
				if profile == "to" && r.Chance(70) {
					return fn(Op{"op": "to", "k": k, "d": r.Range(1, 3)}, 70)
				}
				switch r.Weighted(40, 40, 12) {
				case 0:
					return fn(Op{"op": "goc", "k": k}, 25)
				case 1:
					return fn(Op{"op": "goce", "k": k}, 25)
				}
				return Op{"op": "count"}
			}
			ph, th, ops := r.Range(1, 4), 4, 2
			var ticks func() int
			if profile != "conc" {
				cfg["ttl"] = core.Pick(r, 1, 1, 2, 3)
				ph = r.Range(2, 7)
				ticks = func() int { return core.Pick(r, 0, 1, 1, 1, 2) }
			}
			for i := 0; i < ph; i++ {
				p := core.Phases(r, 1, th, ops, ticks, gen)[0]
				for len(open) > 0 && r.Chance(50) {
					j := r.Intn(len(open))
					p.Threads = append(p.Threads, []Op{{"op": "open", "g": open[j]}})
					open = append(open[:j], open[j+1:]...)
				}
				if profile == "ttl" && r.Chance(4) {
					p.Threads = append(p.Threads, []Op{{"op": "cancel"}})
				}
				s.Phases = append(s.Phases, p)
			}
			var last []Op
			for _, g := range open {
				last = append(last, Op{"op": "open", "g": g})
			}
			s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{last}})
			if profile != "conc" {
				for i := 0; i <= cfg.I("ttl"); i++ {
					s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{{"op": "count"}}}, Ticks: 1})
				}
				if r.Chance(30) {
					p := core.Phase{Threads: [][]Op{{{"op": "goc", "k": 0}, {"op": "count"}}}, Ticks: r.Range(0, 3)}
					s.Phases = append(s.Phases, p)
				}
			}
			p := core.Phase{}
			for k := 0; k < nk; k++ {
				p.Threads = append(p.Threads, []Op{{"op": "goce", "k": k}, {"op": "count"}})
			}
			s.Phases = append(s.Phases, p)
			return s
		},
		Probe: func(s core.Script) []Op {
			return []Op{{"op": "goce", "k": 0}, {"op": "goce", "k": 1}, {"op": "count"}}
		},
		Leak: true,
	}
}
