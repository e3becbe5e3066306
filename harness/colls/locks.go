package colls

import (
	"axverif/core"

	"github.com/axgrid/axutils/collections"
)

type locks struct {
	m  *collections.MapMutex[int]
	rw *collections.MapRWMutex[int]
	// data is protected by the lock of its key only: the race detector watches it.
	data [32]int
}

func (x *locks) Exec(c *core.Call, op Op) []int {
	k := op.I("k")
	switch op.S("op") {
	case "lock":
		if x.rw != nil {
			x.rw.Lock(k)
		} else {
			x.m.Lock(k)
		}
		x.data[k]++
	case "unlock":
		x.data[k]++
		if x.rw != nil {
			x.rw.Unlock(k)
		} else {
			x.m.Unlock(k)
		}
	case "rlock":
		x.rw.RLock(k)
		_ = x.data[k]
	case "runlock":
		_ = x.data[k]
		x.rw.RUnlock(k)
	}
	return nil
}

func init() {
	Drivers["locks"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			if cfg.I("rw") == 1 {
				return &locks{rw: collections.NewMapRWMutex[int]()}
			}
			return &locks{m: collections.NewMapMutex[int]()}
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			rw := r.Intn(2)
			nk := r.Range(1, 3)
			if profile == "seq" {
				nk = r.Range(3, 20)
			}
			s := core.Script{Cfg: Op{"rw": rw}}
			type hold struct {
				k    int
				read bool
			}
			un := func(h hold) Op {
				if h.read {
					return Op{"op": "runlock", "k": h.k}
				}
				return Op{"op": "unlock", "k": h.k}
			}
			// a session locks some keys in ascending order (no deadlock), releases them in any order
			session := func() []Op {
				var th []Op
				var held []hold
				for k := 0; k < nk; k++ {
					if !r.Chance(60) && !(k == nk-1 && len(held) == 0) {
						continue
					}
					h := hold{k, rw == 1 && r.Chance(50)}
					if h.read {
						th = append(th, Op{"op": "rlock", "k": k})
					} else {
						th = append(th, Op{"op": "lock", "k": k})
					}
					held = append(held, h)
					if r.Chance(40) {
						i := r.Intn(len(held))
						th = append(th, un(held[i]))
						held = append(held[:i], held[i+1:]...)
					}
				}
				for len(held) > 0 {
					i := r.Intn(len(held))
					th = append(th, un(held[i]))
					held = append(held[:i], held[i+1:]...)
				}
				return th
			}
			if profile != "race" && r.Chance(40) {
				// one client holds a key across phases while others queue up
				k := r.Intn(nk)
				read := rw == 1 && r.Chance(50)
				h := hold{k, read}
				lk := "lock"
				if read {
					lk = "rlock"
				}
				s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{{"op": lk, "k": k}}}})
				p := core.Phase{}
				for i, n := 0, r.Range(1, 3); i < n; i++ {
					p.Threads = append(p.Threads, session())
				}
				s.Phases = append(s.Phases, p)
				s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{un(h)}, session()}})
			}
			for i, n := 0, r.Range(1, 2); i < n; i++ {
				p := core.Phase{}
				for j, m := 0, r.Range(2, 4); j < m; j++ {
					th := session()
					if r.Chance(30) {
						th = append(th, session()...)
					}
					p.Threads = append(p.Threads, th)
				}
				s.Phases = append(s.Phases, p)
			}
			return s
		},
	}
}
