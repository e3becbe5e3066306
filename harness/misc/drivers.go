package misc

import (
	"sync"

	"axverif/core"
)

var Drivers = map[string]*core.Driver{}

type Op = core.Op

func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func toBytes(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

func toInts(b []byte) []int {
	v := make([]int, len(b))
	for i, x := range b {
		v[i] = int(x)
	}
	return v
}

// blocks is the number of bytes that a byte of a script stands for.
type blocks int

func (k blocks) block(v int) []byte {
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(v + i*i + i>>8)
	}
	return b
}

func (k blocks) bytes(d []int) []byte {
	b := make([]byte, 0, len(d)*int(k))
	for _, v := range d {
		b = append(b, k.block(v)...)
	}
	return b
}

// values is the opposite of bytes.
func (k blocks) values(b []byte) []int {
	d := []int{}
	for len(b) > 0 {
		if len(b) < int(k) || !same(b[:k], k.block(int(b[0]))) {
			return append(d, -2)
		}
		d = append(d, int(b[0]))
		b = b[k:]
	}
	return d
}

// keeper keeps results to see that they never change later.
type keeper struct {
	mu sync.Mutex
	k  []func() bool
}

func same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func keep[T comparable](k *keeper, x []T) {
	if core.RaceEnabled {
		return
	}
	c := append([]T{}, x...)
	k.mu.Lock()
	k.k = append(k.k, func() bool { return same(x, c) })
	k.mu.Unlock()
}

func (k *keeper) ok() []int {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, f := range k.k {
		if !f() {
			return []int{0}
		}
	}
	return []int{1}
}

// pureScript makes a script of calls by one or several threads.
func pureScript(r *core.Rand, cfg Op, profile string, gen func() Op, chk bool) core.Script {
	s := core.Script{Cfg: cfg}
	th := 1
	if profile == "conc" {
		th = 4
	}
	for i, n := 0, r.Range(1, 2); i < n; i++ {
		p := core.Phase{}
		for j := 0; j < th; j++ {
			var t []Op
			for m := r.Range(2, 6); m > 0; m-- {
				t = append(t, gen())
			}
			p.Threads = append(p.Threads, t)
		}
		s.Phases = append(s.Phases, p)
	}
	if chk {
		s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{{"op": "chk"}}}})
	}
	return s
}
