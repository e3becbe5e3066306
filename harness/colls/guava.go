package colls

import (
	"context"
	"errors"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"axverif/core"

	"github.com/axgrid/axutils/axvctl"
	"github.com/axgrid/axutils/collections"
)

type guava struct {
	h   *core.H
	m   *collections.GuavaMap[int, int]
	ld  atomic.Int32
	up  atomic.Int32
	nun atomic.Int32 // unload functions using the map now

	cancel func()

	// in bulk: what is loaded for the first key of a block is loaded for the others, and a block
	// has been unloaded when all of it has
	n      int
	mu     sync.Mutex
	nload  int
	lv, le int
	nunl   map[[2]int]int
}

type codeErr int

func (e codeErr) Error() string { return "code " + strconv.Itoa(int(e)) }

func code(err error) int {
	if err == nil {
		return 0
	}
	var e codeErr
	if errors.As(err, &e) {
		return int(e)
	}
	return 9999
}

// pause lets others run: often a few scheduling points, sometimes some milliseconds.
func pause(n, salt int) {
	switch x := (n*7919 + salt*104729) % 11; {
	case x < 5:
		axvctl.P()
	case x < 8:
		for i := 0; i < 20; i++ {
			axvctl.P()
		}
	default:
		time.Sleep(time.Duration(1+x) * time.Millisecond)
	}
}

func (x *guava) load(k int) (int, error) {
	if x.n > 1 {
		axvctl.P()
		x.nload++
		if k%x.n == 0 {
			x.lv, x.le = x.load1(k / x.n)
		}
		if x.le != 0 {
			return x.lv, codeErr(x.le)
		}
		return x.lv, nil
	}
	v, e := x.load1(k)
	if e != 0 {
		return v, codeErr(e)
	}
	return v, nil
}

func (x *guava) load1(k int) (int, int) {
	i := int(x.ld.Add(1))
	x.h.Log(Op{"e": "lb", "k": k, "i": i})
	if x.h.Cfg.I("nest") == 1 && k < 20 { // the function uses the map, for other keys
		x.h.Sub(x, Op{"op": []string{"get", "set", "upd"}[i%3], "k": k + 20, "v": i})
		x.h.Sub(x, Op{"op": "size"})
	}
	pause(i, k+x.h.Cfg.I("salt"))
	v, e := 100+i, 0
	if n := x.h.Cfg.I("errn"); n > 0 && (i*31+k)%n == 0 {
		v, e = i%3, 1000+i
	}
	if (i*17+k)%9 == 0 {
		v = 0
	}
	if n := x.h.Cfg.I("pan"); n > 0 && (i*13+k)%n == 0 { // the function panics
		e = 3000 + i
		x.h.Log(Op{"e": "le", "i": i, "v": v, "err": e})
		panic(boom{[]int{0, e}})
	}
	x.h.Log(Op{"e": "le", "i": i, "v": v, "err": e})
	return v, e
}

func (x *guava) unload(k, v int) {
	axvctl.P()
	if x.n > 1 {
		k /= x.n
		x.mu.Lock()
		x.nunl[[2]int{k, v}]++
		n := x.nunl[[2]int{k, v}]
		x.mu.Unlock()
		if n%x.n == 0 {
			x.h.Log(Op{"e": "unload", "k": k, "v": v})
		}
		return
	}
	if x.h.Cfg.I("nest") == 1 && k < 20 { // the function uses the map (at most three at once: orders multiply)
		if x.nun.Add(1) <= 3 {
			x.h.Sub(x, Op{"op": "has", "k": k})
			x.h.Sub(x, Op{"op": "set", "k": k + 20, "v": v})
		}
		x.nun.Add(-1)
	}
	x.h.Log(Op{"e": "unload", "k": k, "v": v})
}

func (x *guava) End(h *core.H) {
	if h.Cfg.I("ctx") == 1 {
		x.cancel()
	} else {
		x.m.Clear()
		time.Sleep(time.Duration(max(h.Cfg.I("wt"), h.Cfg.I("rt"))+1) * core.Unit) // timers run out
	}
}

func (x *guava) Exec(c *core.Call, op Op) []int {
	if x.n > 1 {
		x.h.Apart()
	}
	switch op.S("op") {
	case "clear":
		x.m.Clear()
		return nil
	case "cancel":
		x.cancel()
		return nil
	case "size":
		return share(x.n, x.m.Size())
	case "stored":
		m := x.m.GetStored()
		var ks []int
		for k := range m {
			ks = append(ks, k)
		}
		r := []int{}
		for _, k := range blocks(x.n, ks) {
			v := alike(x.n, k, func(k int) []int { return []int{m[k]} })
			r = append(append(r, k), v...)
		}
		return r
	}
	u := -1
	if x.n == 1 {
		return surviving(func() []int { return x.one(c, op, op.I("k"), &u) })
	}
	x.nload = 0
	r := alike(x.n, op.I("k"), func(k int) []int { return surviving(func() []int { return x.one(c, op, k, &u) }) })
	if x.nload%x.n != 0 {
		return []int{-99, x.nload}
	}
	return r
}

func (x *guava) one(c *core.Call, op Op, k int, u *int) []int {
	v := op.I("v")
	switch op.S("op") {
	case "get":
		v, err := x.m.Get(k)
		return []int{v, code(err)}
	case "has":
		return b2i(x.m.Has(k))
	case "hoc":
		return b2i(x.m.HasOrCreate(k, v))
	case "set":
		x.m.Set(k, v)
	case "del":
		x.m.Delete(k)
	case "upd":
		if *u != -1 {
			return []int{x.m.LockForUpdate(k, func() int {
				if *u == -2 {
					panic(boom{[]int{-1}})
				}
				return *u
			})}
		}
		n := int(x.up.Add(1))
		return []int{x.m.LockForUpdate(k, func() int {
			c.Log("ub")
			v := 200 + n
			if x.h.Cfg.I("nest") == 1 && k < 20 { // the function uses the map, for other keys
				x.h.Sub(x, Op{"op": []string{"get", "set", "upd"}[n%3], "k": k + 20, "v": n})
				x.h.Sub(x, Op{"op": "size"})
			}
			if op.I("inc") == 1 {
				r := x.h.Sub(x, Op{"op": "get", "k": op.I("k")})
				v = r[0] + 1
			}
			pause(n, k)
			if op.I("p") == 1 { // the function panics
				c.Log("ue", "v", -1)
				if x.n > 1 {
					*u = -2
				}
				panic(boom{[]int{-1}})
			}
			c.Log("ue", "v", v)
			if x.n > 1 {
				*u = v
			}
			return v
		})}
	}
	return nil
}

func guavaProbe(s core.Script) []Op {
	r := []Op{{"op": "size"}, {"op": "stored"}}
	if s.Cfg.I("load") == 0 {
		r = append(r, probeKeys(s, "k", "get", "has")...)
	}
	return append(r, Op{"op": "size"})
}

func init() {
	Drivers["guava"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			x := &guava{h: h, n: bulk(cfg), nunl: map[[2]int]int{}}
			ctx := context.Background()
			ctx, x.cancel = context.WithCancel(ctx)
			b := collections.NewGuavaMap[int, int]()
			hold := h.Hold()
			over := cfg.I("twin") == 4 // what the decoy was given is taken back
			conf := func(decoy bool) {
				if decoy {
					b.WithMaxCount(cfg.I("max") + 1).WithWriteTimeout(core.Unit / 2).WithReadTimeout(core.Unit / 3).WithLockLoad(cfg.I("lock") == cfg.I("live")).
						WithLoadFunc(func(k int) (int, error) {
							if k == 0 {
								h.Alien()
							}
							<-hold
							return 777, nil
						}).WithUnloadFunc(func(k, v int) {
						if v != 777 {
							h.Alien()
						}
					}).WithContext(h.Decoy())
					return
				}
				if n := cfg.I("max"); n != 0 || over {
					b = b.WithMaxCount(n * bulk(cfg))
				}
				if n := cfg.I("wt"); n != 0 || over {
					b = b.WithWriteTimeout(time.Duration(n) * core.Unit)
				}
				if n := cfg.I("rt"); n != 0 || over {
					b = b.WithReadTimeout(time.Duration(n) * core.Unit)
				}
				if over {
					b = b.WithLoadFunc(nil).WithUnloadFunc(nil).WithContext(context.Background())
				}
				if cfg.I("load") == 1 {
					b = b.WithLoadFunc(x.load)
				}
				if n := cfg.I("lock"); n == 1 || over {
					b = b.WithLockLoad(n == 1)
				}
				if cfg.I("unl") == 1 {
					b = b.WithUnloadFunc(x.unload)
				}
				if cfg.I("ctx") == 1 {
					b = b.WithContext(ctx)
				}
			}
			x.m = core.Twins(cfg, conf, func() *collections.GuavaMap[int, int] { return b.Build() }, func(m *collections.GuavaMap[int, int]) {
				if cfg.I("twin") > 2 {
					m.Set(0, 777)
					for k := 1; k < 4; k++ { // loads and updates are under way
						go m.Get(k)
						go m.LockForUpdate(k, func() int { <-hold; return 777 })
					}
				} else if cfg.I("unl") == 0 {
					m.Set(0, 777)
					go m.LockForUpdate(1, func() int { <-hold; return 777 })
				}
			})
			return x
		},
		Gen:   guavaGen,
		Probe: guavaProbe,
		Leak:  true,
	}
}

// guavaGen: the profile names the aspect (ops, max, ttl, load, unl, upd); a leading "s" asks for
// long scripts of one client.
func guavaGen(r *core.Rand, profile string) core.Script {
	seq := profile[0] == 's'
	if seq {
		profile = profile[1:]
	}
	cfg := Op{"max": 0, "wt": 0, "rt": 0, "load": 0, "lock": 0, "unl": 0, "ctx": r.Intn(2)}
	nk := r.Range(1, 4)
	ph, th, ops := r.Range(1, 4), 3, 2
	if seq {
		nk, ph, th, ops = r.Range(2, 14), 1, 1, 70
	}
	ttl := func() {
		switch r.Intn(3) {
		case 0:
			cfg["wt"] = r.Range(1, 3)
		case 1:
			cfg["rt"] = r.Range(1, 3)
		default:
			cfg["wt"], cfg["rt"] = r.Range(1, 4), r.Range(1, 4)
		}
		if seq {
			for _, t := range []string{"wt", "rt"} {
				if cfg[t] != 0 && r.Chance(40) {
					cfg[t] = r.Range(4, 20)
				}
			}
		}
	}
	load := func() {
		cfg["load"], cfg["lock"], cfg["errn"], cfg["salt"] = 1, r.Intn(2), core.Pick(r, 0, 0, 2, 3), r.Intn(50)
		if r.Chance(20) {
			cfg["pan"] = r.Range(2, 4)
		}
	}
	max := func() {
		cfg["max"] = core.Pick(r, 1, 2, 3)
		if seq {
			cfg["max"] = core.Pick(r, 1, 2, 3, 5, nk, nk+1, r.Range(1, 12))
		}
	}
	//            get has hoc set del clear size stored upd
	w := []int{20, 8, 14, 20, 12, 3, 6, 5, 0, 0}
	ticks := func() int { return 0 }
	switch profile {
	case "ops":
		if r.Chance(35) { // snapshots among changes
			w = []int{2, 2, 12, 26, 14, 3, 5, 30, 0, 0}
		}
	case "max":
		max()
		if r.Chance(25) {
			load()
		}
		w[8] = 8
	case "ttl":
		ttl()
		if r.Chance(25) {
			max()
		}
		if r.Chance(20) {
			load()
		}
		if r.Chance(40) {
			w[8] = 8
		}
		if r.Chance(25) { // the context ends
			cfg["ctx"], w[9] = 1, 6
		}
		ph = r.Range(2, 6)
		ticks = func() int { return core.Pick(r, 0, 1, 1, 1, 2) }
		if seq {
			ph, ops = r.Range(8, 24), 5
		}
	case "load":
		load()
		if r.Chance(25) {
			max()
		}
		w = []int{40, 3, 3, 8, 14, 3, 4, 3, 0, 0}
		if r.Chance(30) {
			cfg["nest"] = 1
		}
	case "unl":
		cfg["unl"] = 1
		if r.Chance(50) {
			max()
		}
		if r.Chance(10) {
			cfg["ctx"], w[9] = 1, 6
		}
		if r.Chance(40) {
			ttl()
			ticks = func() int { return core.Pick(r, 0, 1, 1, 2) }
			ph = r.Range(2, 5)
			if seq {
				ph, ops = r.Range(4, 12), 6
			}
		}
		if r.Chance(30) {
			load()
		}
		w[5], w[4] = 6, 18
		if r.Chance(40) {
			w[8] = 6
		}
		if r.Chance(30) {
			cfg["nest"] = 1
		}
	case "upd":
		if r.Chance(20) {
			cfg["nest"] = 1
		}
		nk = r.Range(1, 2)
		if r.Chance(30) {
			max()
		}
		if r.Chance(20) {
			cfg["unl"] = 1
		}
		w = []int{8, 2, 2, 8, 12, 6, 3, 3, 45, 0}
	}
	v := 0
	gen := func() Op {
		k := r.Intn(nk)
		v = (v + 1) % 90
		val := v
		if r.Chance(8) {
			val = 0
		}
		switch r.Weighted(w...) {
		case 0:
			return Op{"op": "get", "k": k}
		case 1:
			return Op{"op": "has", "k": k}
		case 2:
			return Op{"op": "hoc", "k": k, "v": val}
		case 3:
			return Op{"op": "set", "k": k, "v": val}
		case 4:
			return Op{"op": "del", "k": k}
		case 5:
			return Op{"op": "clear"}
		case 6:
			return Op{"op": "size"}
		case 7:
			return Op{"op": "stored"}
		case 9:
			return Op{"op": "cancel"}
		}
		o := Op{"op": "upd", "k": k, "inc": r.Intn(2)}
		if r.Chance(12) {
			o["p"] = 1
		}
		return o
	}
	if seq && cfg.I("nest") == 0 && cfg.I("errn") == 0 && cfg.I("pan") == 0 {
		if pickBulk(r, cfg); cfg.I("m") > 40 && cfg.I("wt")+cfg.I("rt") > 0 {
			cfg["m"] = 40
		}
	}
	s := core.Script{Cfg: cfg}
	s.Phases = core.Phases(r, ph, th, ops, ticks, gen)
	// watch the tail: what expires, when
	if cfg.I("wt")+cfg.I("rt") > 0 {
		n := cfg.I("wt")
		if cfg.I("rt") > n {
			n = cfg.I("rt")
		}
		for i := 0; i <= n; i++ {
			s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{{"op": "size"}, {"op": "stored"}}}, Ticks: 1})
		}
	}
	s.Phases = append(s.Phases, one(guavaProbe(s)))
	return s
}
