// Package core runs scripts of calls against a component of axutils inside a testing/synctest
// bubble (virtual time) and records what happened as a trace for TLC.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/axgrid/axutils/axvctl"
)

const (
	Unit   = 60 * time.Second // unless the configuration tells another one: u seconds
	Settle = 400 * time.Millisecond
	// Lead is how long before a whole unit the tick event is logged; calls of the phase start
	// between Lead/2 before the whole unit and the unit itself.
	Lead = time.Millisecond
)

// Op is a call with its arguments, a configuration, or an event.
type Op map[string]any

func (o Op) I(k string) int {
	switch v := o[k].(type) {
	case int:
		return v
	case float64:
		return int(v)
	case bool:
		if v {
			return 1
		}
	}
	return 0
}
func (o Op) S(k string) string { s, _ := o[k].(string); return s }
func (o Op) Is(k string) []int {
	switch v := o[k].(type) {
	case []int:
		return v
	case []any:
		r := make([]int, len(v))
		for i, x := range v {
			r[i] = int(x.(float64))
		}
		return r
	}
	return nil
}

// Phase: the threads run concurrently, each its calls in order; then everything settles; then
// time passes.
type Phase struct {
	Threads [][]Op `json:"th"`
	Ticks   int    `json:"ticks"`
}

type Script struct {
	Cfg    Op      `json:"cfg"`
	Phases []Phase `json:"ph"`
	Mode   int     `json:"mode"`
	Seed   uint64  `json:"seed"`
	Probe  bool    `json:"probe,omitempty"`
	// Lanes: thread i of a phase goes on after thread i of the earlier phases has finished.
	Lanes bool `json:"lanes,omitempty"`
}

type Comp interface {
	// Exec performs one call and returns its result as numbers.
	Exec(c *Call, op Op) []int
}

// Ender is called once all phases are over, to stop background work.
type Ender interface{ End(h *H) }

type Driver struct {
	New func(h *H, cfg Op) Comp
	Gen func(r *Rand, profile string) Script
	// Leak: goroutines that are left blocked when the script has ended are an event.
	Leak bool
	// Probe returns the calls that observe the final state of a script made from the
	// specification; nil: none.
	Probe func(s Script) []Op
	// Real: no bubble (the component needs the real clock, files, ...).
	Real bool
}

type H struct {
	mu      sync.Mutex
	out     *os.File
	id      int
	pending map[int]bool
	nextC   int
	now     int
	start   time.Time
	closed  bool
	ending  bool // the script is over: only failures are recorded
	R       *Rand
	Drv     *Driver
	Cfg     Op
	unit    time.Duration
	ends    []func()
	nev     int
	maxEv   int // more events than that are an endless loop
}

type Call struct {
	H  *H
	ID int
}

func (h *H) Log(ev Op) {
	if RaceEnabled {
		return // no trace, and no happens-before edges from recording one
	}
	h.force(ev)
}

func (h *H) force(ev Op) {
	h.mu.Lock()
	h.logLocked(ev)
	h.mu.Unlock()
}

func (h *H) logLocked(ev Op) {
	if h.closed || h.ending && ev["e"] != "panic" {
		return
	}
	if h.nev++; h.maxEv > 0 && h.nev >= h.maxEv { // it goes on and on
		if h.nev == h.maxEv {
			axvctl.Exhaust()
			ev = Op{"e": "spin"}
		} else if ev["e"] != "panic" {
			return
		}
	}
	b, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	h.out.Write(append(append([]byte(strconv.Itoa(h.id)+"\t"), b...), '\n'))
}

// Log records an event that belongs to the call.
func (c *Call) Log(e string, kv ...any) {
	ev := Op{"e": e, "c": c.ID}
	for i := 0; i+1 < len(kv); i += 2 {
		ev[kv[i].(string)] = kv[i+1]
	}
	c.H.Log(ev)
}

// Now is the current whole unit.
func (h *H) Now() int { h.mu.Lock(); defer h.mu.Unlock(); return h.now }

// Apart keeps clear of what expires, or will, in earlier or later units: for calls that are to see
// all or none of it.
func (h *H) Apart() {
	t := time.Since(h.start) % h.unit
	if t > h.unit-2*Lead {
		t -= h.unit
	}
	if w := 10*time.Millisecond + 5*time.Millisecond*time.Duration(h.Now()) - t; w > 0 {
		time.Sleep(w)
	}
}

// Sub performs a call from within another one.
func (h *H) Sub(comp Comp, op Op) []int { return h.call(comp, op) }

func (h *H) call(comp Comp, op Op) []int {
	h.mu.Lock()
	end := h.ending
	h.mu.Unlock()
	if end {
		return nil
	}
	if RaceEnabled {
		return comp.Exec(&Call{h, 0}, op)
	}
	h.mu.Lock()
	h.nextC++
	c := &Call{h, h.nextC}
	ev := Op{"e": "call", "c": c.ID}
	for k, v := range op {
		ev[k] = v
	}
	h.logLocked(ev)
	h.pending[c.ID] = true
	h.mu.Unlock()
	ok := false
	defer func() {
		if !ok {
			r := recover()
			msg := fmt.Sprint(r)
			h.Log(Op{"e": "panic", "c": c.ID, "msg": msg, "stack": Trim(string(debug.Stack()))})
			h.mu.Lock()
			delete(h.pending, c.ID)
			h.mu.Unlock()
		}
	}()
	r := comp.Exec(c, op)
	ok = true
	if r == nil {
		r = []int{}
	}
	h.mu.Lock()
	h.logLocked(Op{"e": "ret", "c": c.ID, "r": r})
	delete(h.pending, c.ID)
	h.mu.Unlock()
	return r
}

// Trim keeps the library's frames of a stack.
func Trim(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/axutils/") && strings.HasPrefix(l, "github.com") {
			if i := strings.IndexByte(l, '('); i > 0 {
				out = append(out, l)
			}
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// quiet waits until everything has settled; the last one of a unit waits for nearly all of the
// unit, so that what began anywhere in an earlier unit and lasts a whole number of units is over.
func (h *H) quiet(last bool) {
	// Longer from unit to unit, such that no settled moment comes a whole number of units after
	// another one: what a deadline sets going is over, or has not begun, when one is recorded.
	time.Sleep(Settle + time.Duration(h.Now())*31*time.Millisecond)
	if last {
		d := time.Until(h.start.Add(time.Duration(h.Now())*h.unit + h.unit*9/10))
		if d < 0 {
			os.Stderr.WriteString("AXV-FAIL unit too short\n")
			os.Exit(96)
		}
		time.Sleep(d)
	}
	if RaceEnabled {
		return
	}
	h.mu.Lock()
	p := []int{}
	for id := range h.pending {
		p = append(p, id)
	}
	sort.Ints(p)
	h.logLocked(Op{"e": "quiet", "p": p, "n": h.now, "f": last})
	h.mu.Unlock()
}

func (h *H) tick() {
	h.mu.Lock()
	n := h.now + 1
	h.mu.Unlock()
	time.Sleep(time.Until(h.start.Add(time.Duration(n)*h.unit - Lead)))
	h.mu.Lock()
	h.now = n
	if !RaceEnabled {
		h.logLocked(Op{"e": "tick", "n": n})
	}
	h.mu.Unlock()
	off := time.Duration(h.R.Intn(int(Lead / 2)))
	if h.R.Intn(2) == 0 {
		off = time.Duration(h.R.Intn(2000))
	}
	time.Sleep(Lead - off)
}

func (h *H) runPhases(comp Comp, s Script) {
	var before []chan struct{}
	for n, ph := range s.Phases {
		for i, th := range ph.Threads {
			if len(th) == 0 {
				continue
			}
			var prev, done chan struct{}
			if s.Lanes {
				for len(before) <= i {
					before = append(before, nil)
				}
				prev, done = before[i], make(chan struct{})
				before[i] = done
			}
			go func() {
				if prev != nil {
					<-prev
				}
				if done != nil {
					defer close(done)
				}
				axvctl.P()
				for _, op := range th {
					h.call(comp, op)
				}
			}()
		}
		h.quiet(ph.Ticks > 0 || n == len(s.Phases)-1)
		for i := 0; i < ph.Ticks; i++ {
			h.tick()
			if i < ph.Ticks-1 || n == len(s.Phases)-1 {
				h.quiet(true)
			}
		}
	}
}

// Refused is what a driver panics with when the library does not make the component asked for.
type Refused struct{ Err error }

// build makes the component; nil and an event that nothing explains when the library refuses.
func (h *H) build(cfg Op) (comp Comp) {
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(Refused)
			if !ok {
				panic(r)
			}
			h.force(Op{"e": "refused", "msg": x.Err.Error()})
			comp = nil
		}
	}()
	return h.Drv.New(h, cfg)
}

// RunScript executes one script as subtest name of t.
func RunScript(t *testing.T, d *Driver, out *os.File, id int, s Script) {
	h := &H{out: out, id: id, pending: map[int]bool{}, R: NewRand(s.Seed ^ 0xabcdef), Drv: d, Cfg: s.Cfg, unit: Unit}
	if u := s.Cfg.I("u"); u != 0 {
		h.unit = time.Duration(u) * time.Second
	}
	js, _ := json.Marshal(s)
	out.WriteString(strconv.Itoa(id) + "\tS" + string(js) + "\n")
	leak, hang := false, false
	ok := t.Run("s"+strconv.Itoa(id), func(t *testing.T) {
		body := func() {
			h.start = time.Now()
			for _, p := range s.Phases {
				for _, th := range p.Threads {
					h.maxEv += len(th)
				}
			}
			h.maxEv = 1000 + 40*h.maxEv
			axvctl.Configure(s.Mode, s.Seed, 400000*int64(max(1, s.Cfg.I("m"))), func() { h.Log(Op{"e": "spin"}) })
			comp := h.build(s.Cfg)
			if comp == nil {
				axvctl.Configure(0, 0, 0, nil)
				return
			}
			h.runPhases(comp, s)
			h.mu.Lock()
			h.ending = true
			h.mu.Unlock()
			for _, f := range h.ends {
				f()
			}
			if e, ok := comp.(Ender); ok {
				e.End(h)
				time.Sleep(Settle)
			}
			h.mu.Lock()
			h.closed = true
			h.mu.Unlock()
			axvctl.Configure(0, 0, 0, nil)
		}
		if d.Real {
			body()
			return
		}
		defer func() {
			if r := recover(); r != nil {
				leak = true
				if !strings.Contains(fmt.Sprint(r), "blocked goroutines remain") {
					h.closed, h.ending = false, false
					if strings.Contains(fmt.Sprint(r), "deadlock:") { // a call made when the script had ended never returned
						hang = true
						h.force(Op{"e": "hang", "c": 0})
						return
					}
					h.force(Op{"e": "panic", "c": 0, "msg": fmt.Sprint(r), "stack": Trim(string(debug.Stack()))})
				}
			}
		}()
		synctest.Test(t, func(t *testing.T) { body() })
	})
	h.closed, h.ending = false, false
	switch {
	case hang:
	case leak && d.Leak:
		h.force(Op{"e": "leak"})
	case !ok && !leak && RaceEnabled:
		h.force(Op{"e": "race"})
	case !ok && !leak:
		os.Stderr.WriteString("AXV-FAIL script " + strconv.Itoa(id) + "\n")
		os.Exit(96)
	}
	out.WriteString(strconv.Itoa(id) + "\tE\n")
}

// Main runs the scripts that the environment asks for.
func Main(t *testing.T, drivers map[string]*Driver) {
	name := os.Getenv("AXV_COMP")
	d := drivers[name]
	if d == nil {
		t.Fatalf("no driver %q", name)
	}
	out, err := os.OpenFile(os.Getenv("AXV_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	mode := -1
	if m := os.Getenv("AXV_MODE"); m != "" {
		mode, _ = strconv.Atoi(m)
	}
	last := make(chan int, 1)
	go watchdog(last)
	run := func(id int, s Script) {
		select {
		case <-last:
		default:
		}
		last <- id
		if mode >= 0 {
			s.Mode = mode
		}
		os.Stderr.WriteString("== script " + strconv.Itoa(id) + "\n")
		RunScript(t, d, out, id, s)
	}
	seed, _ := strconv.ParseUint(os.Getenv("AXV_SEED"), 10, 64)
	from, _ := strconv.Atoi(os.Getenv("AXV_FROM"))
	to, _ := strconv.Atoi(os.Getenv("AXV_TO"))
	if f := os.Getenv("AXV_SCRIPTS"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		for i, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if i < from || i >= to {
				continue
			}
			var s Script
			if err := json.Unmarshal([]byte(l), &s); err != nil {
				t.Fatal(err)
			}
			if s.Probe && d.Probe != nil {
				s.Phases = append(s.Phases, Phase{Threads: [][]Op{d.Probe(s)}})
			}
			run(i, s)
		}
		return
	}
	profile, twins := strings.CutPrefix(os.Getenv("AXV_PROFILE"), "b:")
	for i := from; i < to; i++ {
		r := NewRand(seed*1000003 + uint64(i))
		s := d.Gen(r, profile)
		if twins {
			s.Cfg["twin"] = Twin(r, s.Cfg)
		}
		s.Seed = r.Uint64() >> 12
		if s.Mode == 0 {
			s.Mode = 1 + r.Intn(4)
		}
		run(i, s)
	}
}

func watchdog(last chan int) {
	limit := 60 * time.Second
	cur, since := -1, time.Now()
	for {
		select {
		case id := <-last:
			cur, since = id, time.Now()
		case <-time.After(time.Second):
			if cur >= 0 && time.Since(since) > limit {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "AXV-HANG script %d\n%s\n", cur, buf[:runtime.Stack(buf, true)])
				os.Exit(97)
			}
		}
	}
}
