package misc

import (
	"errors"
	"strconv"

	"axverif/core"

	"github.com/axgrid/axutils/flow"
)

type flowEvent struct {
	c  *core.Call
	no map[int]bool
}

type flowErr int

func (e flowErr) Error() string { return "failed " + strconv.Itoa(int(e)) }

type flows struct {
	f func(e *flowEvent, s *int) error
}

// called is what every function and condition of the routes does; s is given to the functions that get it.
func called(e *flowEvent, f int, s *int) bool {
	ok := s == nil || *s == e.c.ID
	e.c.Log("fn", "f", f, "ok", bi(ok))
	return !e.no[f]
}

func (x *flows) Exec(c *core.Call, op Op) []int {
	e := &flowEvent{c, map[int]bool{}}
	for _, f := range op.Is("no") {
		e.no[f] = true
	}
	s := c.ID
	err := x.f(e, &s)
	var fe flowErr
	switch {
	case err == nil:
		return []int{0}
	case errors.As(err, &fe):
		return []int{int(fe)}
	}
	return []int{-1}
}

func do(f int) func(e *flowEvent, s *int) error {
	return func(e *flowEvent, s *int) error {
		if !called(e, f, s) {
			return flowErr(f)
		}
		return nil
	}
}

func buildFlow(cfg Op) func(e *flowEvent, s *int) error {
	b := flow.NewProcessor[*flowEvent, *int]()
	twin := cfg.I("twin")
	var routes []any
	switch v := cfg["routes"].(type) {
	case []any:
		routes = v
	case []Op:
		for _, o := range v {
			routes = append(routes, map[string]any(o))
		}
	}
	for _, x := range routes {
		o := Op(x.(map[string]any))
		els := o.Is("els")
		if o.I("t") == 1 {
			var fs []func(e *flowEvent, s *int) error
			for _, f := range els {
				fs = append(fs, do(f))
			}
			k := o.I("cond")
			b.RouteOn(func(e *flowEvent) bool { return called(e, -k, nil) }, fs...)
			continue
		}
		b.Route(func(r *flow.ProcessorRouterBuilder[*flowEvent, *int]) {
			for _, f := range els {
				switch {
				case f > 0:
					r.Do(do(f))
				case f%2 == 0:
					r.On(func(e *flowEvent, s *int) bool { return called(e, f, s) })
				default:
					r.OnEvent(func(e *flowEvent) bool { return called(e, f, nil) })
				}
			}
		})
	}
	if twin == 1 {
		b.Build()
	}
	f := b.Build()
	if twin > 1 { // the builder is used further
		b.RouteOn(func(e *flowEvent) bool { e.c.H.Alien(); return false }, do(1))
	}
	if twin > 2 {
		b.Build()
	}
	return f
}

func init() {
	Drivers["flow"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp { return &flows{buildFlow(cfg)} },
		Gen: func(r *core.Rand, profile string) core.Script {
			routes := []Op{}
			all := []int{}
			for n := r.Intn(5); n > 0; n-- {
				o := Op{"t": r.Intn(2), "cond": r.Range(1, 4)}
				els := []int{}
				for k := r.Intn(5); k > 0; k-- {
					f := r.Range(1, 9)
					if o["t"] == 0 && r.Chance(40) {
						f = -r.Range(1, 4)
					}
					els = append(els, f)
				}
				o["els"] = els
				all = append(append(all, els...), -o.I("cond"))
				routes = append(routes, o)
			}
			gen := func() Op {
				no := []int{}
				for k := r.Weighted(4, 3, 1); k > 0 && len(all) > 0; k-- {
					no = append(no, core.Pick(r, all...))
				}
				return Op{"op": "run", "no": no}
			}
			return pureScript(r, Op{"routes": routes}, profile, gen, false)
		},
	}
}
