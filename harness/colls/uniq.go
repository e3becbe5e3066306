package colls

import (
	"context"
	"crypto/md5"
	"fmt"
	"strconv"
	"time"

	"axverif/core"

	"github.com/axgrid/axutils/axvctl"
	"github.com/axgrid/axutils/collections"
)

type item struct {
	ID   int
	Name string
	Tags []string
	Sub  *item
}

type uniq struct {
	s      *collections.StructUniqSet[any]
	cancel func()
	fn     int
	bad    int
	n      int
}

// mk makes the value v: values differ in one of the fields; equal ones are made anew.
func (x *uniq) mk(v int) any {
	if v/x.n == x.bad && x.fn == 0 {
		return func() {}
	}
	i := item{ID: 7, Name: "n"}
	switch v % 4 {
	case 0:
		i.ID = v + 100
	case 1:
		i.Name = "n" + strconv.Itoa(v)
	case 2:
		i.Tags = []string{"a", strconv.Itoa(v)}
	default:
		i.Sub = &item{ID: v + 1}
	}
	if x.fn == 1 {
		i = item{ID: v}
	}
	return i
}

func (x *uniq) Exec(c *core.Call, op Op) []int {
	switch op.S("op") {
	case "count":
		return share(x.n, x.s.Count())
	case "cancel":
		x.cancel()
		return nil
	}
	return alike(x.n, op.I("v"), func(v int) []int {
		return surviving(func() []int { return x.one(op, v) })
	})
}

func (x *uniq) one(op Op, v int) []int {
	var ok bool
	var err error
	switch op.S("op") {
	case "add":
		ok, err = x.s.Add(x.mk(v))
	case "has":
		ok, err = x.s.Has(x.mk(v))
	case "rem":
		ok, err = x.s.Remove(x.mk(v))
	}
	return b2i(ok, err != nil)
}

func (x *uniq) End(h *core.H) { x.cancel() }

func probeUniq(s core.Script) []Op {
	r := []Op{{"op": "count", "v": 0}}
	seen := map[int]bool{}
	for _, p := range s.Phases {
		for _, th := range p.Threads {
			for _, o := range th {
				if n := o.S("op"); (n == "add" || n == "rem") && !seen[o.I("v")] {
					seen[o.I("v")] = true
				}
			}
		}
	}
	for v := 0; v < 20; v++ {
		if seen[v] {
			r = append(r, Op{"op": "has", "v": v})
		}
	}
	return r
}

func init() {
	Drivers["uniq"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			ctx, cancel := context.WithCancel(context.Background())
			x := &uniq{cancel: cancel, fn: cfg.I("fn"), bad: cfg.I("bad"), n: bulk(cfg)}
			b := collections.NewStructUniqSet[any]()
			twin := cfg.I("twin")
			conf := func(decoy bool) {
				if decoy {
					b.WithContext(h.Decoy()).WithElementTtl(core.Unit / 2).WithCheckInterval(time.Second)
					if x.fn == 1 {
						b.WithBuildFunc(func(any, ...any) ([16]byte, error) { return [16]byte{}, nil })
					}
					return
				}
				b = b.WithContext(ctx)
				if n := cfg.I("ttl"); n != 0 && cfg.I("def") == 0 {
					b = b.WithElementTtl(time.Duration(n) * core.Unit)
				}
				if n := cfg.I("iv"); n != 0 || twin == 4 {
					b = b.WithCheckInterval(time.Duration(max(n, 1)) * time.Second)
				}
				if x.fn == 1 {
					mod := cfg.I("mod")
					b = b.WithBuildFunc(func(v any, keys ...any) ([16]byte, error) {
						axvctl.P()
						i := v.(item)
						if i.ID/x.n == x.bad {
							if cfg.I("pan") == 1 {
								panic(boom{[]int{0, 1}})
							}
							return [16]byte{1}, fmt.Errorf("bad")
						}
						return md5.Sum([]byte{byte(i.ID / x.n % mod), byte(i.ID % x.n)}), nil
					})
				}
			}
			x.s = core.Twins(cfg, conf, func() *collections.StructUniqSet[any] { return b.Build() }, func(s *collections.StructUniqSet[any]) {
				for v := 0; v < 3; v++ {
					surviving(func() []int { s.Add(x.mk(v)); return nil })
				}
			})
			return x
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			cfg := Op{"fn": r.Intn(2), "mod": r.Range(1, 4), "pan": r.Intn(2), "ttl": 30, "bad": 99, "iv": core.Pick(r, 0, 1, 1, 5, 20, 40, 50)}
			nv := r.Range(1, 5)
			if profile[0] == 's' {
				nv = r.Range(2, 20)
			}
			if r.Chance(25) {
				cfg["bad"] = r.Intn(nv)
			}
			gen := func() Op {
				v := r.Intn(nv)
				switch r.Weighted(40, 15, 25, 10) {
				case 0:
					return Op{"op": "add", "v": v}
				case 1:
					return Op{"op": "has", "v": v}
				case 2:
					return Op{"op": "rem", "v": v}
				}
				return Op{"op": "count", "v": 0}
			}
			if profile == "seq" {
				pickBulk(r, cfg)
			}
			s := core.Script{Cfg: cfg}
			switch profile {
			case "conc":
				s.Phases = core.Phases(r, r.Range(1, 4), 3, 2, nil, gen)
			case "seq":
				s.Phases = core.Phases(r, 1, 1, 70, nil, gen)
			default: // time, stime
				cfg["ttl"] = core.Pick(r, 1, 1, 2, 2, 3, 4)
				if r.Chance(5) { // the defaults: 30 min, looked at every second
					cfg["def"], cfg["u"], cfg["ttl"], cfg["iv"] = 1, 300, 6, 0
				}
				ph, th, ops := r.Range(2, 6), 2, 2
				if profile[0] == 's' {
					ph, th, ops = r.Range(5, 15), 1, 6
				}
				s.Phases = core.Phases(r, ph, th, ops, func() int { return core.Pick(r, 0, 1, 1, 1, 2, 3) }, gen)
				if r.Chance(15) {
					i := r.Intn(len(s.Phases))
					s.Phases[i].Threads = append(s.Phases[i].Threads, []Op{{"op": "cancel", "v": 0}})
				}
				for i := 0; i <= cfg.I("ttl"); i++ {
					s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{{"op": "count", "v": 0}}}, Ticks: 1})
				}
				if r.Chance(30) { // once more, after all is gone
					s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{gen(), gen()}}, Ticks: r.Range(0, 4)})
				}
			}
			s.Phases = append(s.Phases, one(probeUniq(s)))
			return s
		},
		Probe: probeUniq,
		Leak:  true,
	}
}
