package pipes

import (
	"context"
	"sync"
	"sync/atomic"
	"time"

	"axverif/core"

	"github.com/axgrid/axutils/axvctl"
	"github.com/axgrid/axutils/chans"
)

// chunk drives a ChunkChan (one lane) or a ShardChunk (n lanes).
type chunk struct {
	h      *core.H
	ctx    context.Context
	cancel func()
	stop   chan struct{} // the receivers give up
	c      *chans.ChunkChan[item]
	sc     *chans.ShardChunk[item]
	inc    chan item
	kept   []kept
	nrecv  int
	mu     sync.Mutex
	adds   adds
}

type item struct{ v, k int }

// adds counts the calls that add: an incoming channel is closed only when there are none (and
// none follows).
type adds struct{ n atomic.Int32 }

func (a *adds) begin() func() { a.n.Add(1); return func() { a.n.Add(-1) } }
func (a *adds) close(ch chan item) {
	if a.n.Load() == 0 {
		close(ch)
	}
}

// decoyItem is what goes through a decoy (see core.Twins), and nothing else does.
var decoyItem = item{-7, 0}

func foreign(h *core.H, ch ...item) {
	for _, it := range ch {
		if it != decoyItem {
			h.Alien()
		}
	}
}

type kept struct {
	c    []item
	copy []item
}

func (x *chunk) out(i int) chan []item {
	if x.sc != nil {
		return x.sc.C(i)
	}
	return x.c.C()
}

// took notes a chunk that was received: half of them are kept, the others overwritten.
func (x *chunk) took(ch []item) []int {
	var r []int
	for _, it := range ch {
		r = append(r, it.v)
	}
	if core.RaceEnabled {
		f := ch[:cap(ch)]
		for i := range f {
			f[i].v = -1
		}
		return r
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.nrecv++
	if x.nrecv%3 == 0 {
		f := ch[:cap(ch)]
		for i := range f {
			f[i].v = -1
		}
		_ = append(ch, item{-2, -2})
	} else {
		x.kept = append(x.kept, kept{ch, append([]item{}, ch...)})
	}
	return r
}

func (x *chunk) Exec(c *core.Call, op Op) []int {
	switch op.S("op") {
	case "add":
		defer x.adds.begin()()
		it := item{op.I("v"), op.I("k")}
		if x.c != nil && op.I("w") == 0 {
			x.c.Add(it)
			return nil
		}
		in := x.inc
		if x.c != nil && op.I("w") == 1 {
			in = x.c.Incoming()
		}
		select {
		case in <- it:
		case <-x.ctx.Done():
		}
	case "recv":
		select {
		case ch := <-x.out(op.I("i")):
			return x.took(ch)
		case <-x.stop:
		}
	case "cancel":
		x.cancel()
	case "close":
		x.adds.close(x.inc)
	case "sizes":
		if x.ctx.Err() != nil {
			return nil
		}
		if x.sc != nil {
			s, a, b := x.sc.Sizes()
			for _, v := range s {
				a += v
			}
			return []int{a, b}
		}
		a, b := x.c.Sizes()
		return []int{a, b}
	case "own":
		n := 0
		for _, k := range x.kept {
			for i := range k.copy {
				if k.c[i] != k.copy[i] {
					n++
				}
			}
		}
		return []int{n}
	case "nil":
		if x.sc == nil {
			return []int{1}
		}
		if x.sc.C(-1) != nil || x.sc.C(x.sc.ShardCount()) != nil || x.sc.ShardCount() != x.h.Cfg.I("n") {
			return []int{0}
		}
		_, err := chans.NewShardChunk[item]().WithContext(x.ctx).Build()
		if err == nil {
			return []int{0}
		}
		return []int{1}
	}
	return nil
}

func (x *chunk) End(h *core.H) {
	x.cancel()
	close(x.stop)
}

func (x *chunk) fn(i int, ch []item) {
	var r []int
	for _, it := range ch {
		r = append(r, it.v)
	}
	x.h.Log(Op{"e": "fb", "i": i, "r": r})
	n := 0
	if len(r) > 0 {
		n = r[0]
	}
	pause(n)
	for j, it := range ch { // what the function was given stays what it is
		if it.v != r[j] {
			x.h.Log(Op{"e": "changed", "i": i})
		}
	}
	if n%3 == 0 {
		f := ch[:cap(ch)]
		for i := range f {
			f[i].v = -1
		}
	}
	x.h.Log(Op{"e": "fe", "i": i})
}

func period(to int) time.Duration {
	if to == 0 {
		return 20 * time.Millisecond
	}
	return time.Duration(to) * core.Unit
}

func newChunk(h *core.H, cfg Op) core.Comp {
	x := &chunk{h: h, stop: make(chan struct{})}
	x.ctx, x.cancel = context.WithCancel(context.Background())
	b := chans.NewChunkChan[item]()
	if cfg.I("own") == 1 {
		x.inc = make(chan item, cfg.I("inb"))
	}
	conf := func(decoy bool) {
		if decoy {
			b.WithContext(h.Decoy()).WithChunkSize(cfg.I("size") + 7).WithChunkTimeout(7 * core.Unit).WithOutgoingBufferSize(7).
				WithIncomingBufferSize(7).WithChunkFunc(func(ch []item) { foreign(h, ch...) })
			if cfg.I("own") == 1 {
				b.WithIncomingChan(make(chan item, 7))
			}
			return
		}
		b = b.WithContext(x.ctx)
		if cfg.I("def") == 0 {
			b = b.WithChunkSize(cfg.I("size")).WithChunkTimeout(period(cfg.I("to"))).WithOutgoingBufferSize(cfg.I("outb"))
			if cfg.I("own") == 1 {
				b = b.WithIncomingChan(x.inc)
			} else {
				b = b.WithIncomingBufferSize(cfg.I("inb"))
			}
		}
		if cfg.I("fn") == 1 {
			b = b.WithChunkFunc(func(ch []item) { x.fn(0, ch) })
		} else if cfg.I("twin") == 4 {
			b = b.WithChunkFunc(nil)
		}
	}
	x.c = core.Twins(cfg, conf, func() *chans.ChunkChan[item] { return b.Build() }, func(c *chans.ChunkChan[item]) {
		if cfg.I("twin") > 2 {
			c.Add(decoyItem)
			c.Add(decoyItem)
		}
	})
	if x.inc == nil {
		x.inc = x.c.Incoming()
	}
	return x
}

func newShardChunk(h *core.H, cfg Op) core.Comp {
	x := &chunk{h: h, stop: make(chan struct{})}
	x.ctx, x.cancel = context.WithCancel(context.Background())
	x.inc = make(chan item, cfg.I("cap"))
	b := chans.NewShardChunk[item]()
	conf := func(decoy bool) {
		if decoy {
			inc := make(chan item, 7)
			inc <- decoyItem
			b.WithContext(h.Decoy()).WithIncomingChan(inc).WithShardCount(cfg.I("n") + 2).WithChunkSize(cfg.I("size") + 7).WithChunkTimeout(7 * core.Unit).
				WithOutgoingBufferSize(7).WithIncomingBufferSize(70).WithShardFunc(func(it item) int { foreign(h, it); return 0 }).WithShardWorker(func(_ int, ch []item) { foreign(h, ch...) })
			return
		}
		b = b.WithContext(x.ctx).WithIncomingChan(x.inc).WithShardCount(cfg.I("n")).
			WithShardFunc(func(it item) int { axvctl.P(); return it.k })
		if cfg.I("def") == 0 {
			b = b.WithChunkSize(cfg.I("size")).WithChunkTimeout(period(cfg.I("to"))).WithOutgoingBufferSize(cfg.I("outb")).
				WithIncomingBufferSize(cfg.I("cap") * cfg.I("n"))
		}
		if cfg.I("fn") == 1 {
			b = b.WithShardWorker(x.fn)
		} else if cfg.I("twin") == 4 {
			b = b.WithShardWorker(nil)
		}
	}
	if t := cfg.I("twin"); t == 1 || t == 2 { // another one would share the incoming channel
		cfg["twin"] = t + 2
		if cfg.I("def") == 1 {
			cfg["twin"] = 3
		}
	}
	x.sc = core.Twins(cfg, conf, func() *chans.ShardChunk[item] {
		c, err := b.Build()
		if err != nil {
			panic(core.Refused{Err: err})
		}
		return c
	}, func(*chans.ShardChunk[item]) {})
	return x
}

// chunkGen: profiles batch (sizes), time (flushes), stop (cancellation); a leading "s" asks for
// long scripts.
func chunkGen(sharded bool) func(r *core.Rand, profile string) core.Script {
	return func(r *core.Rand, profile string) core.Script {
		long := profile[0] == 'l'
		if long {
			profile = profile[1:]
		}
		cfg := Op{"n": 1, "size": r.Range(1, 4), "to": r.Range(1, 3), "inb": r.Range(0, 3), "outb": core.Pick(r, 0, 1, 1, 2, 5), "fn": 0, "own": r.Intn(2)}
		if long {
			cfg["size"], cfg["inb"], cfg["outb"] = core.Pick(r, 2, 3, 5, 10, 16, 33), core.Pick(r, 0, 1, 5, 100), core.Pick(r, 0, 1, 3, 50)
		}
		if sharded {
			cfg["n"], cfg["cap"], cfg["inb"] = r.Range(1, 4), cfg["inb"], -1
			if long && profile == "stop" { // chunks that nobody sees have too many explanations
				cfg["n"] = r.Range(1, 2)
			}
		}
		if r.Chance(30) {
			cfg["fn"] = 1
		}
		if r.Chance(12) && profile != "time" && !(long && profile == "stop") {
			cfg["to"] = 0
		}
		if long && profile != "stop" && r.Chance(15) {
			cfg["def"], cfg["to"], cfg["size"], cfg["outb"], cfg["own"] = 1, 0, 100, 100, 0
			if sharded {
				cfg["size"] = 500
			} else {
				cfg["inb"] = 1000
			}
		}
		n := cfg.I("n")
		l := &lanes{}
		v := 0
		add := func() Op {
			v++
			return Op{"op": "add", "v": v, "k": r.Range(-3, 6), "w": r.Intn(3)}
		}
		recv := func(i, k int) {
			for ; k > 0; k-- {
				l.at(laneRecv+i, Op{"op": "recv", "i": i})
			}
		}
		alone := func() {
			l.phase()
			l.at(laneAlone, Op{"op": "sizes"}, Op{"op": "own"}, Op{"op": "nil"})
		}
		nph := r.Range(2, 5)
		stopAt := -1
		if profile == "stop" {
			stopAt = r.Intn(nph)
		}
		for i := 0; i < nph; i++ {
			l.phase()
			for j, m := 0, adders(r, long, profile == "stop"); j < m; j++ {
				k := r.Range(1, 4)
				if long {
					k = r.Range(1, 40)
					if cfg.I("def") == 1 && j == 0 {
						k = r.Range(95, 230)
					}
				}
				for ; k > 0; k-- {
					l.at(laneAdd+j, add())
				}
			}
			if cfg.I("fn") == 0 && r.Chance(75) {
				for j, m := 0, r.Range(1, 2); j < m; j++ {
					k := r.Range(1, 3)
					if long {
						k = r.Range(1, 20)
					}
					recv(r.Intn(n), k)
				}
			}
			if i == stopAt {
				l.at(laneStop, Op{"op": "cancel"})
			}
			if r.Chance(40) {
				alone()
			}
			if profile == "time" || r.Chance(30) {
				l.ticks(r.Range(1, 2))
			}
		}
		if r.Chance(25) {
			l.phase()
			l.at(laneAlone, Op{"op": "close"})
			if cfg.I("fn") == 0 && r.Chance(50) {
				recv(r.Intn(n), r.Range(1, 3))
			}
			if r.Chance(40) {
				alone()
			}
		}
		if r.Chance(70) || profile == "time" || cfg.I("to") == 0 {
			// what is left comes out
			to := cfg.I("to")
			if to == 0 {
				to = 1
			}
			l.phase()
			l.ticks(to)
			if cfg.I("fn") == 0 {
				for i := 0; i < n; i++ {
					k := 3 + v/cfg.I("size")/n
					if cfg.I("to") == 0 {
						k = v + 1
					}
					recv(i, k)
				}
			}
			alone()
		}
		return core.Script{Cfg: cfg, Lanes: true, Phases: l.ph}
	}
}

func init() {
	probe := func(s core.Script) []Op { return []Op{{"op": "sizes"}, {"op": "own"}, {"op": "nil"}} }
	Drivers["chunk"] = &core.Driver{New: newChunk, Gen: chunkGen(false), Probe: probe, Leak: true}
	Drivers["shardchunk"] = &core.Driver{New: newShardChunk, Gen: chunkGen(true), Probe: probe, Leak: true}
}
