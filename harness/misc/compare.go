package misc

import (
	"math"

	"axverif/core"

	"github.com/axgrid/axutils/comparer"
)

type elemA struct {
	id  uint64
	pos int
}

func (e *elemA) GetId() uint64 { return e.id }

type elemB struct {
	id  uint64
	pos int
}

func (e elemB) GetId() uint64 { return e.id }

type compare struct {
	w int
	k keeper
}

// id spreads the identifiers of a script over uint64.
func (x *compare) id(i int) uint64 {
	switch x.w {
	case 1:
		return uint64(i)<<32 | 7
	case 2:
		return math.MaxUint64 - uint64(i)
	case 3:
		return uint64(i) * 0x9E3779B97F4A7C15
	}
	return uint64(i)
}

func (x *compare) Exec(c *core.Call, op Op) []int {
	if op.S("op") == "chk" {
		return x.k.ok()
	}
	var a []*elemA
	for i, v := range op.Is("a") {
		a = append(a, &elemA{x.id(v), i + 1})
	}
	var b []elemB
	for i, v := range op.Is("b") {
		b = append(b, elemB{x.id(v), i + 1})
	}
	a0, b0 := append([]*elemA{}, a...), append([]elemB{}, b...)
	del, create, mod := comparer.CompareSlice(a, b)
	keep(&x.k, del)
	keep(&x.k, create)
	keep(&x.k, mod)
	ok := same(a, a0) && same(b, b0)
	for i, e := range a {
		ok = ok && e.pos == i+1 && e.id == x.id(op.Is("a")[i])
	}
	var r []int
	for _, e := range del {
		r = append(r, e.pos)
	}
	r = append(r, -1)
	for _, e := range create {
		r = append(r, e.pos)
	}
	r = append(r, -1)
	for _, e := range mod {
		r = append(r, e.pos)
	}
	return append(r, -1, bi(ok))
}

func init() {
	Drivers["compare"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp { return &compare{w: cfg.I("w")} },
		Gen: func(r *core.Rand, profile string) core.Script {
			ids, most := core.Pick(r, 2, 5, 12, 40), 30
			if r.Chance(4) {
				ids, most = core.Pick(r, 40, 700), 400
			}
			list := func() []int {
				l := make([]int, r.Intn(core.Pick(r, 4, 9, most)))
				for i := range l {
					l[i] = r.Intn(ids)
				}
				return l
			}
			return pureScript(r, Op{"w": r.Intn(4)}, profile, func() Op { return Op{"op": "cmp", "a": list(), "b": list()} }, true)
		},
	}
}
