package misc

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"sync"

	"axverif/core"

	"github.com/axgrid/axutils/crypto"
)

// plain is the data with number d: of different lengths and contents.
func plain(d int) []byte {
	if b, ok := plains.Load(d); ok {
		return append([]byte{}, b.([]byte)...)
	}
	b := makePlain(d)
	plains.Store(d, b)
	return append([]byte{}, b...)
}

var plains sync.Map

func makePlain(d int) []byte {
	sizes := []int{0, 1, 15, 16, 17, 100, 1000, 4096, 70000}
	n := 0
	if d < len(sizes) {
		n = sizes[d]
	} else if d >= 20 { // several MB
		n = d * 151807
	} else {
		n = d * 37 % 3000
	}
	r := core.NewRand(uint64(d) + 99)
	b := r.Bytes(n)
	if d%2 == 1 { // easily compressed
		for i := range b {
			b[i] = byte(i / 50 % 3)
		}
	}
	return b
}

// someData is the number of data, rarely of large ones.
func someData(r *core.Rand) int {
	if r.Chance(1) {
		return r.Range(20, 24)
	}
	return r.Intn(14)
}

func stdGCM(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		return nil
	}
	return g
}

type aesComp struct {
	mu    sync.Mutex
	keys  [][]byte
	a     []*crypto.AES
	ct    map[int][]byte
	seen  [][]byte
	plain map[int]int
	k     keeper
}

func (x *aesComp) get(h int) ([]byte, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	b, ok := x.ct[h]
	return b, ok
}

func (x *aesComp) put(h int, b []byte) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.ct[h] = b
}

func (x *aesComp) Exec(c *core.Call, op Op) []int {
	k, d, h, p := op.I("k")-1, op.I("d"), op.I("h"), op.I("p")
	switch op.S("op") {
	case "enc":
		in := plain(d)
		in = append(make([]byte, 0, len(in)+op.I("s")), in...)
		ct, err := x.a[k].Encrypt(in)
		if err != nil {
			if len(ct) > 0 {
				return []int{-1}
			}
			return []int{0}
		}
		keep(&x.k, ct)
		own := append([]byte{}, ct...)
		fresh := len(ct) == 28+len(in)
		x.mu.Lock()
		for _, o := range x.seen {
			if fresh && len(o) >= 12 && bytes.Equal(o[:12], ct[:12]) {
				fresh = false
			}
		}
		x.seen = append(x.seen, own)
		x.ct[h] = own
		x.mu.Unlock()
		std := bytes.Equal(in, plain(d))
		if g := stdGCM(x.keys[k]); g == nil || len(ct) < 12 {
			std = false
		} else if pt, err := g.Open(nil, own[:12], own[12:], nil); err != nil || !bytes.Equal(pt, plain(d)) {
			std = false
		}
		return []int{1, bi(fresh), bi(std)}
	case "std":
		g := stdGCM(x.keys[k])
		n := make([]byte, 12)
		rand.Read(n)
		x.put(h, g.Seal(n, n, plain(d), nil))
	case "flip":
		if ct, ok := x.get(h); ok {
			ct = append([]byte{}, ct...)
			i := p / 8
			if p >= 2000 {
				i = 14 + max(0, len(ct)-28)/2
			} else if p >= 1000 {
				i = len(ct) - 1 - (p-1000)/8
			}
			if i >= 0 && i < len(ct) {
				ct[i] ^= 1 << (p % 8)
			}
			x.put(h, ct)
		}
	case "cut":
		if ct, ok := x.get(h); ok && len(ct) > 0 {
			x.put(h, append([]byte{}, ct[:p%len(ct)]...))
		}
	case "ext":
		if ct, ok := x.get(h); ok {
			x.put(h, append(append([]byte{}, ct...), make([]byte, p%40+1)...))
		}
	case "mix":
		if ct, ok := x.get(h); ok {
			g, _ := x.get(op.I("g"))
			if len(ct) < 12 || len(g) < 12 || bytes.Equal(ct[:12], g[:12]) {
				x.put(h, append([]byte{}, ct[:len(ct)/2]...))
			} else {
				x.put(h, append(append([]byte{}, g[:12]...), ct[12:]...))
			}
		}
	case "dec":
		ct, ok := x.get(h)
		if !ok {
			return nil
		}
		in := append(make([]byte, 0, len(ct)+op.I("s")), ct...)
		pt, err := x.a[k].Decrypt(in)
		un := bi(bytes.Equal(in, ct))
		if err != nil {
			if len(pt) > 0 {
				un = 0
			}
			return []int{0, un}
		}
		keep(&x.k, pt)
		for i := 0; i < 25; i++ {
			if bytes.Equal(pt, plain(i)) {
				return []int{1, i, un}
			}
		}
		return []int{1, -9, un}
	case "chk":
		return x.k.ok()
	}
	return nil
}

func init() {
	Drivers["aes"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			x := &aesComp{ct: map[int][]byte{}}
			for i, n := range cfg.Is("keys") {
				key := core.NewRand(uint64(i) + 5).Bytes(n)
				x.keys = append(x.keys, key)
				x.a = append(x.a, crypto.NewAES(append([]byte{}, key...)))
			}
			return x
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			keys := []int{}
			good := []int{}
			for n := r.Range(1, 4); n > 0; n-- {
				l := core.Pick(r, 16, 24, 32, 32, 16, 0, 5, 17, 33, 64)
				keys = append(keys, l)
				if l == 16 || l == 24 || l == 32 {
					good = append(good, len(keys))
				}
			}
			s := core.Script{Cfg: Op{"keys": keys}}
			th := 1
			if profile == "conc" {
				th = 4
			}
			for i := r.Range(1, 2); i > 0; i-- {
				ph := core.Phase{}
				for j := 0; j < th; j++ {
					var t []Op
					hs := func() int { return j*10 + r.Range(1, 3) }
					pos := func() int { return core.Pick(r, r.Intn(112), 1000+r.Intn(104), 2000+r.Intn(8)) }
					for m := r.Range(3, 12); m > 0; m-- {
						k := r.Range(1, len(keys))
						switch r.Weighted(30, 40, 3, 8, 4, 3, 3) {
						case 0:
							t = append(t, Op{"op": "enc", "k": k, "d": someData(r), "h": hs(), "s": r.Intn(3) * 20})
						case 1:
							t = append(t, Op{"op": "dec", "k": k, "h": hs(), "s": r.Intn(3) * 20})
						case 2:
							if len(good) > 0 {
								t = append(t, Op{"op": "std", "k": core.Pick(r, good...), "d": someData(r), "h": hs()})
							}
						case 3:
							h, p := hs(), pos()
							t = append(t, Op{"op": "flip", "h": h, "p": p}, Op{"op": "dec", "k": k, "h": h})
							if r.Chance(50) {
								t = append(t, Op{"op": "flip", "h": h, "p": p}, Op{"op": "dec", "k": k, "h": h})
							}
						case 4:
							h := hs()
							t = append(t, Op{"op": "cut", "h": h, "p": core.Pick(r, 0, 1, 11, 12, 13, 27, 28, 500)}, Op{"op": "dec", "k": k, "h": h})
						case 5:
							h := hs()
							t = append(t, Op{"op": "ext", "h": h, "p": r.Intn(40)}, Op{"op": "dec", "k": k, "h": h})
						case 6:
							t = append(t, Op{"op": "mix", "h": j*10 + 1, "g": j*10 + 2})
						}
					}
					if len(t) > 0 {
						ph.Threads = append(ph.Threads, t)
					}
				}
				s.Phases = append(s.Phases, ph)
			}
			s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{{{"op": "chk"}}}})
			return s
		},
		Probe: func(s core.Script) []Op {
			var r []Op
			for k := range s.Cfg.Is("keys") {
				r = append(r, Op{"op": "dec", "k": k + 1, "h": 1}, Op{"op": "dec", "k": k + 1, "h": 2})
			}
			return append(r, Op{"op": "chk"})
		},
	}
	Drivers["gzip"] = gzipDriver
	Drivers["md5"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp { return md5Comp{} },
		Gen: func(r *core.Rand, profile string) core.Script {
			return pureScript(r, Op{"z": 0}, profile, func() Op {
				return Op{"op": "md5", "d": toInts(r.Bytes(core.Pick(r, r.Intn(20), r.Intn(70), r.Intn(200), r.Intn(70), r.Intn(core.Pick(r, 200, 200, 200, 500, 3000)))))}
			}, false)
		},
	}
}

type md5Comp struct{}

func (md5Comp) Exec(c *core.Call, op Op) []int {
	s := string(toBytes(op.Is("d")))
	b := crypto.GetMD5HashBytes(s)
	return append(toInts(b), toInts([]byte(crypto.GetMD5Hash(s)))...)
}
