package misc

import (
	"bytes"
	"compress/gzip"
	"io"
	"sync"

	"axverif/core"

	"github.com/axgrid/axutils/zip"
)

type gzipComp struct {
	mu    sync.Mutex
	a     map[int][]byte
	ds    map[int][]int
	k     keeper
	dirty map[int]bool
}

func (x *gzipComp) get(h int) ([]byte, []int, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	b, ok := x.a[h]
	return append([]byte{}, b...), x.ds[h], ok
}

func (x *gzipComp) put(h int, b []byte, ds ...int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.a[h] = b
	if ds != nil {
		x.ds[h] = ds
		delete(x.dirty, h)
	}
}

func (x *gzipComp) Exec(c *core.Call, op Op) []int {
	d, h, p := op.I("d"), op.I("h"), op.I("p")
	switch op.S("op") {
	case "zip":
		in := plain(d)
		z, err := zip.GZipData(in)
		if err != nil {
			return []int{0}
		}
		keep(&x.k, z)
		own := append([]byte{}, z...)
		std := bytes.Equal(in, plain(d))
		if r, err := gzip.NewReader(bytes.NewReader(own)); err != nil {
			std = false
		} else if b, err := io.ReadAll(r); err != nil || !bytes.Equal(b, in) {
			std = false
		}
		x.put(h, own, d)
		return []int{1, bi(std)}
	case "std":
		var b bytes.Buffer
		w, _ := gzip.NewWriterLevel(&b, d%10)
		w.Name, w.Comment = "file", "made elsewhere"
		w.Write(plain(d))
		w.Close()
		x.put(h, b.Bytes(), d)
	case "flip":
		if z, _, ok := x.get(h); ok && len(z) > 0 {
			p %= 8 * len(z)
			z[p/8] ^= 1 << (p % 8)
			x.change(h, z)
		}
	case "cut":
		if z, ds, ok := x.get(h); ok && len(z) > 0 {
			n := p % len(z)
			if len(ds) > 1 {
				n = len(z) - min(len(z), 1+p%17)
			}
			x.change(h, z[:n])
		}
	case "ext":
		if z, _, ok := x.get(h); ok {
			x.change(h, append(z, bytes.Repeat([]byte{byte(p)}, p%30+1)...))
		}
	case "cat":
		z, ds, ok := x.get(h)
		y, es, ok2 := x.get(op.I("g"))
		if !ok {
			return nil
		}
		if !ok2 || !x.clean(h) || !x.clean(op.I("g")) {
			return []int{0}
		}
		x.put(h, append(z, y...), append(append([]int{}, ds...), es...)...)
		return []int{1}
	case "unzip":
		z, ds, ok := x.get(h)
		if !ok {
			return nil
		}
		in := append([]byte{}, z...)
		b, err := zip.GUnzipData(in)
		un := bytes.Equal(in, z)
		if err != nil {
			return []int{0, bi(un && len(b) == 0)}
		}
		keep(&x.k, b)
		var want []byte
		for _, d := range ds {
			want = append(want, plain(d)...)
		}
		if !bytes.Equal(b, want) {
			return []int{1, bi(un), -9}
		}
		return append([]int{1, bi(un)}, ds...)
	case "chk":
		return x.k.ok()
	}
	return nil
}

// clean: nothing was done to the archive.
func (x *gzipComp) clean(h int) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return !x.dirty[h]
}

// change stores a damaged archive.
func (x *gzipComp) change(h int, b []byte) {
	x.put(h, b)
	x.mu.Lock()
	defer x.mu.Unlock()
	x.dirty[h] = true
}

var gzipDriver = &core.Driver{
	New: func(h *core.H, cfg Op) core.Comp {
		return &gzipComp{a: map[int][]byte{}, ds: map[int][]int{}, dirty: map[int]bool{}}
	},
	Gen: func(r *core.Rand, profile string) core.Script {
		s := core.Script{Cfg: Op{"z": 0}}
		th := 1
		if profile == "conc" {
			th = 4
		}
		ph := core.Phase{}
		for j := 0; j < th; j++ {
			var t []Op
			hs := func() int { return j*10 + r.Range(1, 3) }
			for m := r.Range(3, 10); m > 0; m-- {
				h := hs()
				switch r.Weighted(30, 30, 4, 6, 5, 3, 6) {
				case 0:
					t = append(t, Op{"op": "zip", "d": someData(r), "h": h})
				case 1:
					t = append(t, Op{"op": "unzip", "h": h})
				case 2:
					t = append(t, Op{"op": "std", "d": someData(r), "h": h})
				case 3:
					t = append(t, Op{"op": "flip", "h": h, "p": r.Intn(1 << 20)}, Op{"op": "unzip", "h": h})
				case 4:
					t = append(t, Op{"op": "cut", "h": h, "p": core.Pick(r, r.Intn(40), r.Intn(1<<20))}, Op{"op": "unzip", "h": h})
				case 5:
					t = append(t, Op{"op": "ext", "h": h, "p": r.Intn(250)}, Op{"op": "unzip", "h": h})
				case 6:
					t = append(t, Op{"op": "cat", "h": h, "g": hs()}, Op{"op": "unzip", "h": h})
				}
			}
			ph.Threads = append(ph.Threads, t)
		}
		s.Phases = append(s.Phases, ph, core.Phase{Threads: [][]Op{{{"op": "chk"}}}})
		return s
	},
	Probe: func(core.Script) []Op { return []Op{{"op": "unzip", "h": 1}, {"op": "unzip", "h": 2}, {"op": "chk"}} },
}
