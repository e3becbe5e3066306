package misc

import (
	gomath "math"
	"strconv"

	"axverif/core"

	"github.com/axgrid/axutils/math"
)

type decimal struct{}

func text(n int, d []int) string {
	s := ""
	for _, x := range d {
		s += strconv.Itoa(x)
	}
	if s == "" {
		s = "0"
	}
	if n == 1 {
		s = "-" + s
	}
	return s
}

func num(s string) []int {
	n := 0
	if s[0] == '-' {
		n, s = 1, s[1:]
	}
	if s == "0" {
		return []int{0}
	}
	r := []int{n}
	for _, c := range s {
		r = append(r, int(c-'0'))
	}
	return r
}

func pint[T int | int8 | int16 | int32 | int64](min, max func(T, T) T, bits int) func(o, a, b string, e int) string {
	return func(o, a, b string, e int) string {
		x, e1 := strconv.ParseInt(a, 10, bits)
		y, e2 := strconv.ParseInt(b, 10, bits)
		if e1 != nil || e2 != nil {
			panic("harness: " + a + " " + b)
		}
		if o == "min" {
			return strconv.FormatInt(int64(min(T(x), T(y))), 10)
		}
		return strconv.FormatInt(int64(max(T(x), T(y))), 10)
	}
}

func puint[T uint | uint8 | uint16 | uint32 | uint64](min, max func(T, T) T, bits int) func(o, a, b string, e int) string {
	return func(o, a, b string, e int) string {
		x, e1 := strconv.ParseUint(a, 10, bits)
		y, e2 := strconv.ParseUint(b, 10, bits)
		if e1 != nil || e2 != nil {
			panic("harness: " + a + " " + b)
		}
		if o == "min" {
			return strconv.FormatUint(uint64(min(T(x), T(y))), 10)
		}
		return strconv.FormatUint(uint64(max(T(x), T(y))), 10)
	}
}

// floats are the numbers times two to the power of e.
func pfloat[T float32 | float64](min, max func(T, T) T) func(o, a, b string, e int) string {
	return func(o, a, b string, e int) string {
		x, _ := strconv.ParseInt(a, 10, 64)
		y, _ := strconv.ParseInt(b, 10, 64)
		p, q := T(gomath.Ldexp(float64(x), e)), T(gomath.Ldexp(float64(y), e))
		z := max(p, q)
		if o == "min" {
			z = min(p, q)
		}
		return strconv.FormatInt(int64(gomath.Ldexp(float64(z), -e)), 10)
	}
}

var minmax = []func(o, a, b string, e int) string{
	pint(math.Min, math.Max, 64), pint(math.Min64, math.Max64, 64), pint(math.Min32, math.Max32, 32), pint(math.Min16, math.Max16, 16), pint(math.Min8, math.Max8, 8),
	puint(math.MinUInt, math.MaxUInt, 64), puint(math.MinUInt64, math.MaxUInt64, 64), puint(math.MinUInt32, math.MaxUInt32, 32), puint(math.MinUInt16, math.MaxUInt16, 16), puint(math.MinUInt8, math.MaxUInt8, 8),
	pfloat(math.MinFloat32, math.MaxFloat32), pfloat(math.MinFloat64, math.MaxFloat64),
}

// minmaxBits are the widths of the numbers: of the floats those they hold exactly.
var minmaxBits = []int{64, 64, 32, 16, 8, -64, -64, -32, -16, -8, 24, 53}

func (decimal) Exec(c *core.Call, op Op) []int {
	a := text(op.I("n"), op.Is("d"))
	if op.S("op") == "move" {
		v, err := strconv.ParseInt(a, 10, 64)
		if err != nil {
			panic("harness: " + a)
		}
		r := num(strconv.FormatInt(int64(math.IntPointMove(int(v), op.I("k"))), 10))
		if !fits(op.Is("d"), op.I("k")) {
			return []int{-1} // whatever it is
		}
		return r
	}
	return num(minmax[op.I("t")](op.S("op"), a, text(op.I("n2"), op.Is("d2")), op.I("xp")))
}

func fits(d []int, k int) bool {
	if len(d) == 0 || k <= 0 {
		return true
	}
	s := text(0, d)
	for i := 0; i < k && len(s) < 30; i++ {
		s += "0"
	}
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

func init() {
	Drivers["decimal"] = &core.Driver{
		New: func(h *core.H, cfg Op) core.Comp { return decimal{} },
		Gen: func(r *core.Rand, profile string) core.Script {
			number := func(bits int) (int, []int) {
				var s string
				if bits < 0 {
					bits = -bits
					v := r.Uint64() >> r.Intn(64)
					if r.Chance(30) {
						v = ^uint64(0) - uint64(r.Intn(3))
					}
					s = strconv.FormatUint(v&(1<<bits-1), 10)
				} else {
					v := int64(r.Uint64()) >> r.Intn(64)
					if r.Chance(30) {
						v = core.Pick[int64](r, -1<<63, 1<<63-1, -1<<63+1, 1<<31-1, -1<<31)
					}
					v = v << (64 - bits) >> (64 - bits)
					s = strconv.FormatInt(v, 10)
				}
				q := num(s)
				if len(q) == 1 {
					return 0, []int{}
				}
				return q[0], q[1:]
			}
			gen := func() Op {
				if r.Chance(50) {
					n, d := number(64)
					if len(d) == 19 && n == 1 && text(0, d) == "9223372036854775808" {
						d[18] = 7
					}
					if r.Chance(40) && len(d) > 1 {
						d = d[:r.Range(1, len(d))]
					}
					k := r.Range(-21, 21)
					if r.Chance(4) {
						k = core.Pick(r, -400, -64, -33, -23, 22, 32, 64, 400)
						if k > 0 {
							n, d = 0, []int{}
						}
					}
					return Op{"op": "move", "n": n, "d": d, "k": k}
				}
				t := r.Intn(12)
				n, d := number(minmaxBits[t])
				m, e := number(minmaxBits[t])
				if r.Chance(10) {
					m, e = n, d
				}
				exp := 0
				switch t {
				case 10:
					exp = core.Pick(r, -149, -60, -3, 0, 10, 104)
				case 11:
					exp = core.Pick(r, -1074, -200, -3, 0, 10, 100, 970)
				}
				return Op{"op": core.Pick(r, "min", "max"), "t": t, "n": n, "d": d, "n2": m, "d2": e, "xp": exp}
			}
			return pureScript(r, Op{"z": 0}, profile, gen, false)
		},
	}
}
