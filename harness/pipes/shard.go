package pipes

import (
	"context"

	"axverif/core"

	"github.com/axgrid/axutils/axvctl"
	"github.com/axgrid/axutils/chans"
)

type shard struct {
	h      *core.H
	ctx    context.Context
	cancel func()
	stop   chan struct{}
	s      *chans.ShardChan[item]
	inc    chan item
	adds   adds
}

func (x *shard) Exec(c *core.Call, op Op) []int {
	switch op.S("op") {
	case "add":
		defer x.adds.begin()()
		it := item{op.I("v"), op.I("k")}
		if x.inc == nil || op.I("w") == 0 {
			if err := x.s.Add(it); err != nil {
				if err == x.ctx.Err() {
					return []int{1}
				}
				return []int{2}
			}
			return []int{0}
		}
		select {
		case x.inc <- it:
			return []int{0}
		case <-x.ctx.Done():
			return []int{1}
		}
	case "recv":
		select {
		case it := <-x.s.C(op.I("i")):
			return []int{it.v}
		case <-x.stop:
		}
	case "cancel":
		x.cancel()
	case "close":
		if x.inc != nil {
			x.adds.close(x.inc)
		}
	case "sizes":
		if x.ctx.Err() != nil {
			return nil
		}
		return x.s.Sizes()
	case "nil":
		if x.s.C(-1) != nil || x.s.C(x.s.ShardCount()) != nil || x.s.ShardCount() != x.h.Cfg.I("n") {
			return []int{0}
		}
		if _, err := chans.NewShardChan[item]().WithContext(x.ctx).Build(); err == nil {
			return []int{0}
		}
		return []int{1}
	}
	return nil
}

func (x *shard) End(h *core.H) {
	x.cancel()
	close(x.stop)
}

func (x *shard) fn(i int, it item) {
	x.h.Log(Op{"e": "fb", "i": i, "v": it.v})
	pause(it.v)
	x.h.Log(Op{"e": "fe", "i": i})
}

func init() {
	Drivers["shard"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			x := &shard{h: h, stop: make(chan struct{})}
			x.ctx, x.cancel = context.WithCancel(context.Background())
			b := chans.NewShardChan[item]()
			if cfg.I("own") == 1 {
				x.inc = make(chan item, cfg.I("inb"))
			}
			conf := func(decoy bool) {
				if decoy {
					b.WithContext(h.Decoy()).WithShardCount(cfg.I("n") + 2).WithOutgoingBufferSize(7).WithIncomingBufferSize(7).
						WithShardFunc(func(it item) int { foreign(h, it); return 0 }).WithWorkerFunc(func(_ int, it item) { foreign(h, it) })
					if cfg.I("own") == 1 {
						b.WithIncomingChan(make(chan item, 7))
					}
					return
				}
				b = b.WithContext(x.ctx).WithShardFunc(func(it item) int { axvctl.P(); return it.k })
				if cfg.I("def") == 0 {
					b = b.WithShardCount(cfg.I("n")).WithOutgoingBufferSize(cfg.I("outb"))
					if cfg.I("own") == 1 {
						b = b.WithIncomingChan(x.inc)
					} else {
						b = b.WithIncomingBufferSize(cfg.I("inb"))
					}
				}
				if cfg.I("fn") == 1 {
					b = b.WithWorkerFunc(x.fn)
				} else if cfg.I("twin") == 4 {
					b = b.WithWorkerFunc(nil)
				}
			}
			x.s = core.Twins(cfg, conf, func() *chans.ShardChan[item] {
				s, err := b.Build()
				if err != nil {
					panic(core.Refused{Err: err})
				}
				return s
			}, func(s *chans.ShardChan[item]) {
				if cfg.I("twin") > 2 {
					s.Add(decoyItem)
				}
			})
			return x
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			cfg := Op{"n": r.Range(1, 4), "inb": r.Range(0, 3), "outb": core.Pick(r, 0, 1, 2, 5), "fn": 0, "own": r.Intn(2)}
			long := profile == "long"
			if long {
				cfg["n"], cfg["inb"], cfg["outb"] = r.Range(1, 9), core.Pick(r, 0, 1, 5, 100), core.Pick(r, 0, 1, 5, 100)
			}
			if r.Chance(35) {
				cfg["fn"] = 1
			}
			if r.Chance(10) {
				cfg["def"], cfg["n"], cfg["inb"], cfg["outb"], cfg["own"] = 1, 4, 1000, 100, 0
			}
			n := cfg.I("n")
			l := &lanes{}
			v := 0
			nph := r.Range(1, 4)
			stopAt := -1
			if profile == "stop" {
				stopAt = r.Intn(nph)
			}
			alone := func() {
				l.phase()
				l.at(laneAlone, Op{"op": "sizes"}, Op{"op": "nil"})
			}
			recv := func(i, k int) {
				for ; k > 0; k-- {
					l.at(laneRecv+i, Op{"op": "recv", "i": i})
				}
			}
			base := r.Intn(2 * n)
			for i := 0; i < nph; i++ {
				l.phase()
				for j, m := 0, adders(r, long, profile == "stop"); j < m; j++ {
					k := r.Range(1, 4)
					if long {
						k = r.Range(1, 30)
					}
					for ; k > 0; k-- {
						v++
						key := r.Range(-2*n, 3*n)
						switch r.Intn(12) {
						case 0, 1, 2, 3:
							key = base
						case 4:
							key = core.Pick(r, 1<<31-1, -1<<31, 1<<30+1)
						}
						l.at(laneAdd+j, Op{"op": "add", "v": v, "k": key, "w": r.Intn(2)})
					}
				}
				if cfg.I("fn") == 0 && r.Chance(75) {
					for j, m := 0, r.Range(1, n); j < m; j++ {
						k := r.Range(1, 4)
						if long {
							k = r.Range(1, 20)
						}
						recv(r.Intn(n), k)
					}
				}
				if i == stopAt {
					l.at(laneStop, Op{"op": "cancel"})
				}
				if r.Chance(40) {
					alone()
				}
			}
			if r.Chance(30) {
				l.phase()
				l.at(laneAlone, Op{"op": "close"})
				if cfg.I("fn") == 0 && r.Chance(50) {
					recv(r.Intn(n), r.Range(1, 3))
				}
				if r.Chance(50) {
					alone()
				}
			}
			if cfg.I("fn") == 0 && r.Chance(60) {
				l.phase()
				for i := 0; i < n; i++ {
					recv(i, v+1)
				}
				alone()
			}
			return core.Script{Cfg: cfg, Lanes: true, Phases: l.ph}
		},
		Probe: func(s core.Script) []Op { return []Op{{"op": "sizes"}, {"op": "nil"}} },
		Leak:  true,
	}
}
