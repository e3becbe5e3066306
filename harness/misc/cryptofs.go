package misc

import (
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sync"

	"axverif/core"

	"github.com/axgrid/axutils/crypto_fs"
)

var treeNames = []string{"", ".a", ".a/b", ".a/b/z", ".a/x.txt", ".a/y y", "c", "d", "d/.x ü.TXT"}

type cryptoFs struct {
	mu   sync.Mutex
	root int
	dir  string // holds the tree and the images
	home string
	b    *crypto_fs.CryptoFSBuilder
	fs   map[int]crypto_fs.CryptoFS
	fh   map[int]fs.File
	key  map[int]bool // images that are encrypted
	cur  bool
	k    blocks
}

func (x *cryptoFs) tree(p int) string { return filepath.Join(x.dir, "tree", treeNames[p]) }
func (x *cryptoFs) image(i int) string {
	if i == 9 {
		return filepath.Join(x.dir, "nowhere", "img")
	}
	return filepath.Join(x.dir, "img"+string(rune('0'+i)))
}

// name is how the builder and the file system know a path.
func (x *cryptoFs) name(p int) string {
	if x.root == 2 {
		return filepath.Clean(treeNames[p])
	}
	return x.tree(p)
}

func (x *cryptoFs) number(n string) int {
	for p := range treeNames {
		if x.name(p) == n {
			return p
		}
	}
	return 99
}

func secretKey(k int) []byte {
	switch k {
	case 0:
		return nil
	case 8:
		return []byte{}
	case 9:
		return []byte("7 bytes")
	case 3:
		return core.NewRand(3).Bytes(16)
	}
	return core.NewRand(uint64(k)).Bytes(32)
}

func (x *cryptoFs) file(h int) fs.File {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.fh[h]
}

func (x *cryptoFs) setFile(h int, f fs.File) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.fh[h] = f
}

func (x *cryptoFs) sys(f int) crypto_fs.CryptoFS {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.fs[f]
}

// modeOk: the ways of telling a directory agree, and the name is the last part of the path.
func modeOk(i fs.FileInfo, name string) bool {
	return i.IsDir() == i.Mode().IsDir() && (i.IsDir() || i.Mode().IsRegular()) && i.Name() == path.Base(name)
}

// size is the size in bytes of the script.
func (x *cryptoFs) size(i fs.FileInfo) int {
	if i.Size()%int64(x.k) != 0 {
		return -1
	}
	return int(i.Size() / int64(x.k))
}

func entOk(d fs.DirEntry, name string) bool {
	i, err := d.Info()
	return err == nil && d.IsDir() == d.Type().IsDir() && (d.IsDir() || d.Type().IsRegular()) && d.Name() == path.Base(name) && modeOk(i, name) && i.IsDir() == d.IsDir()
}

func (x *cryptoFs) Exec(c *core.Call, op Op) []int {
	p, k, i, h := op.I("p"), op.I("k"), op.I("i"), op.I("h")
	f := x.sys(op.I("f"))
	switch op.S("op") {
	case "put":
		os.WriteFile(x.tree(p), x.k.bytes(op.Is("d")), 0o644)
	case "mkdir":
		os.Mkdir(x.tree(p), 0o755)
	case "del":
		if p != 0 {
			os.RemoveAll(x.tree(p))
			break
		}
		for _, q := range []int{1, 6, 7} { // the root itself may be the working directory
			os.RemoveAll(x.tree(q))
		}
	case "newb":
		x.newb()
	case "addfile":
		x.b.AddFile(x.name(p))
	case "addfolder":
		n := x.name(p)
		if x.root == 1 {
			n = []string{"", "./", "x/../", "/"}[op.I("w")%4] + treeNames[p]
		} else if op.I("w")%2 == 1 {
			n += "/"
		}
		x.b.AddFolder(n)
	case "aes":
		x.b.WithAES(secretKey(k))
		x.cur = k != 0
	case "save":
		if x.b.WithSavePath(x.image(i)).Save() != nil {
			return []int{0}
		}
		x.key[i] = x.cur
		return []int{1}
	case "cut":
		if b, err := os.ReadFile(x.image(i)); err == nil && len(b) > 0 {
			os.WriteFile(x.image(i), b[:p%len(b)], 0o644)
		}
	case "flip":
		if b, err := os.ReadFile(x.image(i)); err == nil && len(b) > 0 && x.key[i] {
			b[p/8%len(b)] ^= 1 << (p % 8)
			os.WriteFile(x.image(i), b, 0o644)
		}
	case "load":
		f, err := crypto_fs.CryptoFSFromFile(x.image(i), secretKey(k))
		if err != nil {
			return []int{0}
		}
		x.mu.Lock()
		x.fs[op.I("f")] = f
		x.mu.Unlock()
		return []int{1}
	case "open":
		if f == nil {
			return []int{0}
		}
		o, err := f.Open(x.name(p))
		if err != nil {
			return []int{0}
		}
		st, err := o.Stat()
		if err != nil {
			return []int{-1}
		}
		x.setFile(h, o)
		return []int{1, bi(st.IsDir()), x.size(st), bi(modeOk(st, x.name(p)))}
	case "close":
		if o := x.file(h); o != nil {
			o.Close()
		}
		x.mu.Lock()
		delete(x.fh, h)
		x.mu.Unlock()
	case "read":
		o := x.file(h)
		if o == nil {
			return nil
		}
		b := make([]byte, op.I("n")*int(x.k))
		var n int
		var err error
		if x.k == 1 || len(b) == 0 {
			n, err = o.Read(b)
		} else {
			n, err = io.ReadFull(o, b)
		}
		r := x.k.values(b[:n])
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			r = append(r, -1)
		} else if err != nil {
			r = append(r, -2)
		}
		return r
	case "rall":
		if f == nil {
			return []int{0}
		}
		o, err := f.Open(x.name(p))
		if err != nil {
			return []int{0}
		}
		b, err := io.ReadAll(io.LimitReader(o, 20000*int64(x.k)))
		if err != nil {
			return []int{0}
		}
		for i := range b { // the reader's own bytes
			b[i]++
		}
		for i := range b {
			b[i]--
		}
		return append([]int{1}, x.k.values(b)...)
	case "rdir":
		if f == nil {
			return []int{0}
		}
		es, err := f.ReadDir(x.name(p))
		if err != nil {
			return []int{0}
		}
		r := []int{1}
		for _, e := range es {
			n := filepath.Join(x.name(p), e.Name())
			v := 2*x.number(n) + bi(e.IsDir())
			if !entOk(e, n) {
				v = -5
			}
			r = append(r, v)
		}
		for i := range es { // the caller's own list
			es[i] = nil
		}
		return r
	case "walk":
		if f == nil {
			return []int{-1}
		}
		var r []int
		fs.WalkDir(f, x.name(p), func(n string, d fs.DirEntry, err error) error {
			if err != nil {
				r = append(r, -1)
				return nil
			}
			v := 2*x.number(n) + bi(d.IsDir())
			if !entOk(d, n) {
				v = -5
			}
			r = append(r, v)
			return nil
		})
		return r
	}
	return nil
}

func (x *cryptoFs) newb() {
	x.b, x.cur = crypto_fs.NewCryptoFSBuilder(), false
	if x.root == 1 {
		x.b.WithRootDir(filepath.Join(x.dir, "tree"))
	}
}

func (x *cryptoFs) End(h *core.H) {
	os.Chdir(x.home)
	os.RemoveAll(x.dir)
}

var scratchHome, _ = os.Getwd()

func fsScript(r *core.Rand, profile string) core.Script {
	s := core.Script{Cfg: Op{"root": r.Intn(3)}}
	most := 1500
	if r.Chance(6) {
		s.Cfg["k"] = core.Pick(r, 300, 4097, 70001)
		most = 30
	}
	data := func() []int {
		d := make([]int, core.Pick(r, 0, r.Intn(5), r.Intn(40), r.Intn(most)))
		for i := range d {
			d[i] = r.Intn(256)
		}
		return d
	}
	build := func() Op {
		p := r.Range(0, 8)
		switch r.Weighted(14, 10, 4, 2, 12, 12, 7, 12, 2, 2) {
		case 0:
			return Op{"op": "put", "p": max(p, 1), "d": data()}
		case 1:
			return Op{"op": "mkdir", "p": core.Pick(r, 1, 2, 7)}
		case 2:
			return Op{"op": "del", "p": p}
		case 3:
			return Op{"op": "newb"}
		case 4:
			return Op{"op": "addfile", "p": p}
		case 5:
			return Op{"op": "addfolder", "p": p, "w": r.Intn(4)}
		case 6:
			return Op{"op": "aes", "k": core.Pick(r, 0, 1, 1, 2, 3, 8, 9)}
		case 7:
			return Op{"op": "save", "i": core.Pick(r, 1, 1, 2, 9)}
		case 8:
			return Op{"op": "cut", "i": r.Range(1, 2), "p": r.Intn(5000)}
		}
		return Op{"op": "flip", "i": r.Range(1, 2), "p": r.Intn(50000)}
	}
	use := func(j int) Op {
		p := r.Range(0, 8)
		switch r.Weighted(20, 30, 3, 15, 10, 10) {
		case 0:
			return Op{"op": "open", "f": r.Range(1, 2), "p": p, "h": 10*j + r.Range(1, 3)}
		case 1:
			return Op{"op": "read", "h": 10*j + r.Range(1, 3), "n": core.Pick(r, 0, 1, 3, 10, 500, 2000)}
		case 2:
			return Op{"op": "close", "h": 10*j + r.Range(1, 3)}
		case 3:
			return Op{"op": "rall", "f": r.Range(1, 2), "p": p}
		case 4:
			return Op{"op": "rdir", "f": r.Range(1, 2), "p": p}
		}
		return Op{"op": "walk", "f": r.Range(1, 2), "p": p}
	}
	var a []Op
	for _, p := range []int{1, 2, 7} {
		if r.Chance(75) {
			a = append(a, Op{"op": "mkdir", "p": p})
		}
	}
	for n := r.Intn(8); n > 0; n-- {
		a = append(a, Op{"op": "put", "p": r.Range(1, 8), "d": data()})
	}
	if profile == "build" {
		for n := r.Range(3, 20); n > 0; n-- {
			a = append(a, build())
			if r.Chance(30) {
				a = append(a, Op{"op": "load", "i": r.Range(1, 2), "k": core.Pick(r, 0, 0, 1, 1, 2, 3, 9), "f": r.Range(1, 2)})
			}
			if r.Chance(15) {
				a = append(a, use(0))
			}
		}
		k := core.Pick(r, 0, 1, 2, 3)
		a = append(a, Op{"op": "aes", "k": k}, Op{"op": "save", "i": 1}, Op{"op": "load", "i": 1, "k": k, "f": 1}, Op{"op": "walk", "f": 1, "p": r.Intn(2)})
		for p := 1; p <= 8; p++ {
			a = append(a, Op{"op": "rall", "f": 1, "p": p})
		}
		s.Phases = append(s.Phases, one(a))
		return s
	}
	for i := 1; i <= 2; i++ {
		for n := r.Range(1, 4); n > 0; n-- {
			a = append(a, Op{"op": core.Pick(r, "addfile", "addfolder", "addfolder"), "p": r.Weighted(3, 4, 2, 1, 1, 1, 1, 2, 1), "w": r.Intn(4)})
		}
		k := core.Pick(r, 0, 1)
		a = append(a, Op{"op": "aes", "k": k}, Op{"op": "save", "i": i}, Op{"op": "load", "i": i, "k": k, "f": i}, Op{"op": "put", "p": r.Range(1, 8), "d": data()})
	}
	s.Phases = append(s.Phases, one(a))
	ph := core.Phase{}
	for j, n := 0, core.Pick(r, 1, 3); j < n; j++ {
		var t []Op
		for m := r.Range(3, 25/n); m > 0; m-- {
			o := use(j)
			t = append(t, o)
			if o["op"] == "open" {
				for q := r.Intn(4); q > 0; q-- {
					t = append(t, Op{"op": "read", "h": o["h"], "n": core.Pick(r, 1, 2, 7, 600)})
				}
			}
		}
		ph.Threads = append(ph.Threads, t)
	}
	s.Phases = append(s.Phases, ph)
	return s
}

func one(th []Op) core.Phase { return core.Phase{Threads: [][]Op{th}} }

func init() {
	Drivers["cryptofs"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			dir, err := os.MkdirTemp(scratchHome, "cfs-")
			if err != nil {
				panic("harness: " + err.Error())
			}
			x := &cryptoFs{root: cfg.I("root"), dir: dir, home: scratchHome, fs: map[int]crypto_fs.CryptoFS{}, fh: map[int]fs.File{}, key: map[int]bool{}, k: blocks(max(1, cfg.I("k")))}
			os.Mkdir(x.tree(0), 0o755)
			if x.root == 2 {
				os.Chdir(x.tree(0))
			}
			x.newb()
			return x
		},
		Gen: fsScript,
		Probe: func(core.Script) []Op {
			r := []Op{{"op": "save", "i": 1}, {"op": "load", "i": 1, "k": 0, "f": 1}, {"op": "load", "i": 1, "k": 1, "f": 1}}
			for _, p := range []int{0, 1, 2, 4} {
				for _, o := range []string{"walk", "rall", "rdir"} {
					r = append(r, Op{"op": o, "f": 1, "p": p})
				}
			}
			return r
		},
	}
}
