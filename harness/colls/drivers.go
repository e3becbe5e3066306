package colls

import (
	"slices"
	"sort"

	"axverif/core"
)

var Drivers = map[string]*core.Driver{}

type Op = core.Op

func b2i(b ...bool) []int {
	r := make([]int, len(b))
	for i, x := range b {
		if x {
			r[i] = 1
		}
	}
	return r
}

func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sorted(x []int) []int {
	x = append([]int{}, x...)
	sort.Ints(x)
	return x
}

// probeKeys builds calls for every key a script mentions.
func probeKeys(s core.Script, arg string, ops ...string) []Op {
	seen := map[int]bool{}
	for _, p := range s.Phases {
		for _, th := range p.Threads {
			for _, o := range th {
				if _, ok := o[arg]; ok {
					seen[o.I(arg)] = true
				}
			}
		}
	}
	var ks []int
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var r []Op
	for _, k := range ks {
		for _, o := range ops {
			r = append(r, Op{"op": o, arg: k})
		}
	}
	return r
}

// In bulk (cfg.m = m > 1), each key, or value, k of a script stands for the m keys k*m .. k*m+m-1,
// which are all treated alike, one after the other.
func bulk(cfg Op) int { return max(1, cfg.I("m")) }

func pickBulk(r *core.Rand, cfg Op) {
	if r.Chance(12) {
		cfg["m"] = core.Pick(r, 2, 7, 40, 150)
	}
}

// alike makes a call for every key that k stands for; the results have to be the same.
func alike(m, k int, do func(k int) []int) []int {
	r := do(k * m)
	for j := 1; j < m; j++ {
		if s := do(k*m + j); !slices.Equal(r, s) {
			return append([]int{-99, j}, s...)
		}
	}
	return r
}

// share is the m-th part of n.
func share(m, n int) []int {
	if n%m != 0 {
		return []int{-99, n}
	}
	return []int{n / m}
}

// blocks is the sorted list of what the keys stand for, -99 for a part of a block.
func blocks(m int, ks []int) []int {
	ks = sorted(ks)
	r := []int{}
	for i := 0; i < len(ks); i += m {
		j := min(i+m, len(ks)) - 1
		k := ((ks[i] % m) + m) % m
		if k != 0 || ks[j]-ks[i] != m-1 {
			return []int{-99, ks[i]}
		}
		for x := i; x <= j; x++ {
			if ks[x] != ks[i]+x-i {
				return []int{-99, ks[x]}
			}
		}
		r = append(r, ks[i]/m)
	}
	return r
}

func expand(m int, vs []int) []int {
	r := []int{}
	for _, v := range vs {
		for j := 0; j < m; j++ {
			r = append(r, v*m+j)
		}
	}
	return r
}

type boom struct{ r []int }

// surviving makes a call; a function of ours that it calls may panic with the result to report.
func surviving(do func() []int) (r []int) {
	defer func() {
		if e := recover(); e != nil {
			b, ok := e.(boom)
			if !ok {
				panic(e)
			}
			r = b.r
		}
	}()
	return do()
}

func one(th []Op) core.Phase { return core.Phase{Threads: [][]Op{th}} }
