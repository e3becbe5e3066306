package misc

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"axverif/core"

	axnet "github.com/axgrid/axutils/net"
)

// conn is a connection whose peer sends pieces of a stream.
type conn struct {
	mu     sync.Mutex
	frags  [][]byte
	ended  bool
	err    error
	with   bool // the end comes together with the last bytes
	short  bool // pieces are cut further
	nodl   bool // deadlines cannot be set
	zero   bool // reads without bytes and error happen
	dl     time.Time
	timer  *time.Timer
	change chan struct{}
	r      *core.Rand
}

func (c *conn) signal() {
	close(c.change)
	c.change = make(chan struct{})
}

func (c *conn) push(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.frags = append(c.frags, b)
	c.signal()
}

func (c *conn) end() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.ended = true
	c.signal()
}

func (c *conn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		if !c.dl.IsZero() && !time.Now().Before(c.dl) {
			c.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 || c.zero && c.r.Chance(20) {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.frags) > 0 {
			f := c.frags[0]
			n := len(f)
			if c.short && n > 1 {
				n = c.r.Range(1, n)
			}
			n = copy(p, f[:n])
			if n == len(f) {
				c.frags = c.frags[1:]
			} else {
				c.frags[0] = f[n:]
			}
			var err error
			if c.with && c.ended && len(c.frags) == 0 {
				err = c.err
			}
			c.mu.Unlock()
			return n, err
		}
		if c.ended {
			c.mu.Unlock()
			return 0, c.err
		}
		ch := c.change
		c.mu.Unlock()
		<-ch
	}
}

func (c *conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.nodl {
		return errors.New("no deadlines")
	}
	c.dl = t
	if c.timer != nil {
		c.timer.Stop()
	}
	if !t.IsZero() {
		c.timer = time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			defer c.mu.Unlock()
			c.signal()
		})
	}
	c.signal()
	return nil
}

func (c *conn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
func (c *conn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *conn) Close() error                       { return nil }
func (c *conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }

// read: the bytes of a script stand for blocks.
type read struct {
	c *conn
	k blocks
}

func (x *read) Exec(c *core.Call, op Op) []int {
	var b []byte
	var err error
	n := op.I("n")
	switch op.S("op") {
	case "push":
		x.c.push(x.k.bytes(op.Is("d")))
		return nil
	case "end":
		x.c.end()
		return nil
	case "read":
		b, err = axnet.ReadNBytes(x.c, n*int(x.k))
	case "readt":
		b, err = axnet.ReadNBytesWithTimeout(x.c, n*int(x.k), time.Duration(op.I("t"))*core.Unit)
	}
	if err != nil {
		if len(b) > 0 {
			return []int{-1, len(b)}
		}
		return []int{-1}
	}
	return append([]int{n}, x.k.values(b)...)
}

func (x *read) End(h *core.H) { x.c.end() }

func init() {
	Drivers["read"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp {
			c := &conn{change: make(chan struct{}), r: core.NewRand(h.R.Uint64()), err: io.EOF, with: cfg.I("with") == 1, short: cfg.I("short") == 1, nodl: cfg.I("nodl") == 1, zero: cfg.I("zero") == 1}
			if cfg.I("err") == 1 {
				c.err = errors.New("connection reset")
			}
			return &read{c: c, k: blocks(max(1, cfg.I("k")))}
		},
		Gen: func(r *core.Rand, profile string) core.Script {
			s := core.Script{Cfg: Op{"with": r.Intn(2), "short": r.Intn(2), "err": r.Intn(2), "nodl": 0, "zero": r.Weighted(3, 1)}, Lanes: true}
			if r.Chance(10) {
				s.Cfg["nodl"] = 1
			}
			ticks := profile == "time"
			if !ticks && r.Chance(15) {
				s.Cfg["k"] = core.Pick(r, 50, 511, 1500, 4097, 70001)
			}
			v, ended := 0, false
			for i, n := 0, r.Range(2, 7); i < n; i++ {
				p := core.Phase{Threads: [][]Op{nil, nil}}
				for m := r.Intn(3); m > 0; m-- { // the reader
					o := Op{"op": "read", "n": r.Intn(7)}
					if ticks && r.Chance(70) {
						o = Op{"op": "readt", "n": r.Intn(7), "t": r.Range(1, 3)}
					}
					p.Threads[0] = append(p.Threads[0], o)
				}
				for m := r.Intn(4); m > 0 && !ended; m-- { // the peer
					if r.Chance(7) {
						p.Threads[1] = append(p.Threads[1], Op{"op": "end"})
						ended = true
						break
					}
					d := make([]int, r.Range(1, core.Pick(r, 2, 4, 9)))
					for j := range d {
						v++
						d[j] = v % 256
					}
					p.Threads[1] = append(p.Threads[1], Op{"op": "push", "d": d})
				}
				if ticks {
					p.Ticks = r.Weighted(3, 5, 2, 1)
				}
				s.Phases = append(s.Phases, p)
			}
			if !ended {
				s.Phases = append(s.Phases, core.Phase{Threads: [][]Op{nil, {{"op": "end"}}}})
			}
			return s
		},
		Leak: true,
	}
}
