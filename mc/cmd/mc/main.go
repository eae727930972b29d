// Command mc decides the properties of the format packages.
package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/mewmew/float/vmc/codec"
	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/fam"
	"github.com/mewmew/float/vmc/ref"
	"github.com/mewmew/float/vmc/runner"
)

type check = runner.Check

var checks = runner.Checks

func main() { runner.Main() }

// scratch is per-worker working storage.
type scratch struct {
	v, w, d, u ref.Val
	s, t       big.Int
	x, y       big.Float
}

func sc(w *eng.Worker) *scratch {
	if s, ok := w.Scratch.(*scratch); ok {
		return s
	}
	s := new(scratch)
	w.Scratch = s
	return s
}

// toBig sets z to the exact value of v with just enough precision.
func toBig(z *big.Float, v *ref.Val) *big.Float {
	switch v.Kind {
	case ref.Inf:
		return z.SetInf(v.Neg)
	case ref.Fin:
		z.SetPrec(0).SetMode(big.ToNearestEven).SetInt(&v.M)
		z.SetMantExp(z, v.E)
	default:
		z.SetPrec(0).SetInt64(0)
	}
	if v.Neg != z.Signbit() {
		z.Neg(z)
	}
	return z
}

// argBig builds the big.Float argument of a case.
func argBig(c *eng.Case) *big.Float {
	z := new(big.Float)
	p := c.Prec
	if n := uint(c.M.BitLen()); p < n {
		p = n
	}
	switch ref.Kind(c.Kind) {
	case ref.Inf:
		z.SetPrec(c.Prec).SetInf(c.Neg)
	case ref.Zero:
		z.SetPrec(c.Prec)
		if c.Neg {
			z.Neg(z)
		}
	default:
		z.SetPrec(p).SetMode(c.Mode).SetInt(&c.M)
		z.SetMantExp(z, c.E)
		if c.Neg {
			z.Neg(z)
		}
	}
	z.SetMode(c.Mode)
	if c.Acc != 0 {
		return codec.Stale(z, big.Accuracy(c.Acc), c.Mode)
	}
	return z
}

// argVal is the exact value of the big.Float argument of a case.
func argVal(c *eng.Case, v *ref.Val) *ref.Val {
	if ref.Kind(c.Kind) == ref.Fin {
		return v.SetFin(c.Neg, &c.M, c.E)
	}
	v.Kind, v.Neg = ref.Kind(c.Kind), c.Neg
	return v
}

func bitsStr(b codec.Bits) string { return fmt.Sprintf("%#x:%#x", b.Hi, b.Lo) }

func bigStr(x *big.Float) string {
	return fmt.Sprintf("%s (prec %d, %v)", x.Text('p', 0), x.Prec(), x.Mode())
}

// fitsBig checks that the value of a big.Float equals v (signed).
func fitsBig(s *scratch, x *big.Float, v *ref.Val, anySign bool) bool {
	if v.Kind == ref.Inf {
		return x.IsInf() && x.Signbit() == v.Neg
	}
	if x.IsInf() {
		return false
	}
	if v.Kind == ref.Zero {
		return x.Sign() == 0 && (anySign || x.Signbit() == v.Neg)
	}
	return x.Signbit() == v.Neg && x.Cmp(toBig(&s.y, v)) == 0
}

func acc(i int) big.Accuracy { return big.Accuracy(i) }

// --- families over encodings ---------------------------------------------

// encBlocks enumerates encodings of a codec in blocks and calls do for each.
// Levels scale the bound.
type encFam struct {
	name, bound string
	n           int
	f           func(i int, emit func(b codec.Bits))
}

func seq(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// boundary exponent fields for a format with the given number of exponent bits
// and precision.
func boundaryExps(f *ref.Format) []int {
	max := 1<<uint(f.ExpBits) - 1
	bias := f.Emax
	m := map[int]bool{}
	add := func(e int) {
		if e >= 0 && e <= max {
			m[e] = true
		}
	}
	for _, d := range []int{-1, 0, 1} {
		add(d)
		add(max + d)
		add(bias + d)
		add(bias + f.P + d)
		add(bias - f.P + d)
		add(bias + 53 + d)
		add(bias + 64 + d)
		add(bias + 127 + d) // float32 overflow
		add(bias - 126 + d) // float32 normal minimum
		add(bias - 149 + d)
		add(bias + 1023 + d)
		add(bias - 1022 + d)
		add(bias - 1074 + d)
	}
	for i := 1; i < max; i <<= 1 {
		add(i)
	}
	var l []int
	for e := range m {
		l = append(l, e)
	}
	sort.Ints(l)
	return l
}

// encFamilies returns the encoding families of a codec at the given tier.
func encFamilies(c *codec.Codec, thorough bool, scale int) []encFam {
	var out []encFam
	if c.F == nil {
		return append(ddFamilies(thorough, scale), encMixed(c, thorough, scale)...)
	}
	f := c.F
	if f.P <= 11 {
		return []encFam{{"all 65536 encodings", "every encoding", 256, func(i int, emit func(codec.Bits)) {
			for j := 0; j < 256; j++ {
				emit(codec.Bits{Lo: uint64(i<<8 | j)})
			}
		}}}
	}
	fb := f.P - 1
	if f.Explicit {
		fb = f.P
	}
	out = encMixed(c, thorough, scale)
	nexp := 1 << uint(f.ExpBits)
	pk := func(neg bool, e int, u fam.U) codec.Bits { return f.Pack(neg, e, u.Hi, u.Lo) }
	k1 := 1
	pats := append(fam.TransList(fb, k1), fam.Dense(fb)...)
	bexps := boundaryExps(f)
	estep := 1
	if scale == 0 && !thorough {
		estep = 5
	}
	out = append(out, encFam{fmt.Sprintf("%d sign/exponent fields x significands", 2*((nexp+estep-1)/estep)),
		fmt.Sprintf("every %d. exponent field with both signs; significands with <= %d bit transitions (+ %d dense)", estep, k1, len(fam.Dense(fb))), (nexp + estep - 1) / estep,
		func(e int, emit func(codec.Bits)) {
			e *= estep
			for _, u := range pats {
				emit(pk(false, e, u))
				emit(pk(true, e, u))
			}
		}})
	pats2 := fam.TransList(fb, 2)
	out = append(out, encFam{"boundary exponents x significands (2)",
		fmt.Sprintf("%d boundary exponents, both signs; significands with <= 2 bit transitions", len(bexps)), len(bexps),
		func(i int, emit func(codec.Bits)) {
			for _, u := range pats2 {
				emit(pk(false, bexps[i], u))
				emit(pk(true, bexps[i], u))
			}
		}})
	few := []int{0, 1, f.Emax, f.Emax + 1, 1<<uint(f.ExpBits) - 2, 1<<uint(f.ExpBits) - 1}
	if scale >= 2 {
		few = bexps
	}
	pats3 := fam.TransList(fb, 3)
	chunks := 64
	out = append(out, encFam{"selected exponents x significands (3)",
		fmt.Sprintf("%d exponents; significands with <= 3 bit transitions", len(few)), len(few) * chunks,
		func(i int, emit func(codec.Bits)) {
			e := few[i/chunks]
			for j := i % chunks; j < len(pats3); j += chunks {
				emit(pk(j&1 == 1, e, pats3[j]))
			}
		}})
	w := 16
	nw := fam.NWindows(fb, w)
	wexp := []int{0, 1, f.Emax, 1<<uint(f.ExpBits) - 1}
	if scale >= 2 {
		wexp = bexps
	}
	out = append(out, encFam{"16-bit windows",
		fmt.Sprintf("every value of each aligned %d-bit significand window over zeros and ones, %d exponents", w, len(wexp)), nw * len(wexp),
		func(i int, emit func(codec.Bits)) {
			fam.Window(fb, w, i%nw, func(u fam.U) { emit(pk(false, wexp[i/nw], u)) })
		}})
	if thorough {
		pt := pats2
		if fb > 64 {
			// every exponent x <=2 transitions is too large for binary128; take every 8th exponent
		}
		step := 1
		if fb > 64 {
			step = 8
		}
		out = append(out, encFam{"exponents x significands (2)",
			fmt.Sprintf("every %d-th exponent field, both signs; significands with <= 2 bit transitions", step), nexp / step,
			func(e int, emit func(codec.Bits)) {
				for _, u := range pt {
					emit(pk(false, e*step, u))
					emit(pk(true, e*step, u))
				}
			}})
	}
	return out
}

// ddPats are the 52-bit fractions used for double-double parts.
var ddPats = func() []uint64 {
	var l []uint64
	for _, k := range []int{0, 1, 2, 26, 51, 52} { // low runs
		l = append(l, fam.Ones(k).Lo)
	}
	for _, k := range []int{1, 26, 51} { // high runs
		l = append(l, fam.Ones(52).Lo&^fam.Ones(k).Lo)
	}
	l = append(l, 1<<51, 1<<50, 1<<26, 0xA5E353F7CEE, 0x5555555555555, 0x243F6A8885A30)
	return l
}()

// ddFamilies enumerates double-double encodings.
func ddFamilies(thorough bool, scale int) []encFam {
	f := ref.F64
	mk := func(neg bool, e int, fr uint64) uint64 { return f.Pack(neg, e, 0, fr).Lo }
	var hexps []int
	if thorough {
		hexps = seq(2048)
	} else {
		m := map[int]bool{}
		for _, e := range []int{0, 1, 2, 3, 30, 51, 52, 53, 54, 55, 56, 60, 100, 104, 105, 106, 107, 108, 110, 160, 500, 968, 969, 970, 971, 1000, 1021, 1022, 1023, 1024, 1025, 1075, 1076, 1077, 1100, 1500, 1900, 1991, 1992, 1993, 1994, 1995, 2000, 2040, 2043, 2044, 2045, 2046, 2047} {
			m[e] = true
		}
		for e := range m {
			hexps = append(hexps, e)
		}
		sort.Ints(hexps)
	}
	gaps := []int{-60, -54, -53, -52, -1, 0, 1, 2, 10, 26, 40, 50, 51, 52, 53, 54, 55, 56, 60, 64, 80, 100, 104, 105, 106, 107, 108, 110, 128, 200, 500, 1000, 2000}
	specials := []uint64{0, 1 << 63, 1, 1<<63 | 1, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0xFFF8000000000000, 0x7FF0000000000001, 0xFFF0000000000001, 0xFFFFFFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 0x3FF0000000000000, 0xBFF0000000000000}
	pats := append(fam.TransList(52, 1), fam.Dense(52)...)
	out := []encFam{
		{"special pairs", "every pair of 18 special doubles", len(specials), func(i int, emit func(codec.Bits)) {
			for _, l := range specials {
				emit(codec.Bits{Hi: specials[i], Lo: l})
			}
		}},
		{"single double", "every sign and exponent of high x fractions with <= 1 transition; low zero (both signs) or NaN/Inf", 4096, func(i int, emit func(codec.Bits)) {
			for _, p := range pats {
				h := uint64(i)<<52 | p.Lo
				emit(codec.Bits{Hi: h})
				emit(codec.Bits{Hi: h, Lo: 1 << 63})
			}
			for _, p := range []uint64{0, 1, 1 << 51, 1<<52 - 1} {
				for _, s := range specials {
					emit(codec.Bits{Hi: uint64(i)<<52 | p, Lo: s})
					emit(codec.Bits{Hi: s, Lo: uint64(i)<<52 | p})
				}
			}
		}},
		{"pairs by gap", fmt.Sprintf("%d high exponents x %d exponent gaps x %d fractions squared x 4 sign pairs", len(hexps), len(gaps), len(ddPats)), len(hexps), func(i int, emit func(codec.Bits)) {
			for _, g := range gaps {
				le := hexps[i] - g
				if le < 0 || le > 2047 {
					continue
				}
				for _, a := range ddPats {
					for _, b := range ddPats {
						for s := 0; s < 4; s++ {
							emit(codec.Bits{Hi: mk(s&1 == 1, hexps[i], a), Lo: mk(s&2 == 2, le, b)})
						}
					}
				}
			}
		}},
		{"all exponent pairs", "every third high exponent x every low exponent, 3 fraction pairs, 2 sign pairs", 683, func(i int, emit func(codec.Bits)) {
			fr := [][2]uint64{{0, 0}, {1, 1}, {1<<52 - 1, 1<<52 - 1}}
			for le := 0; le < 2048; le++ {
				for _, p := range fr {
					emit(codec.Bits{Hi: mk(false, i*3, p[0]), Lo: mk(false, le, p[1])})
					emit(codec.Bits{Hi: mk(false, i*3, p[0]), Lo: mk(true, le, p[1])})
				}
			}
		}},
	}
	if scale >= 2 || thorough {
		l := append(fam.TransList(52, 1), fam.Dense(52)...)
		gg := []int{0, 1, 52, 53, 54, 55, 60, 106, 107, 200}
		he := []int{0, 1, 53, 54, 106, 107, 1000, 1023, 1024, 2045, 2046}
		out = append(out, encFam{"fraction pairs (1)", "fractions with <= 1 transition squared at 11 high exponents x 10 gaps, 2 signs", len(he) * len(gg), func(i int, emit func(codec.Bits)) {
			h := he[i/len(gg)]
			le := h - gg[i%len(gg)]
			if le < 0 {
				return
			}
			for _, a := range l {
				for _, b := range l {
					emit(codec.Bits{Hi: mk(false, h, a.Lo), Lo: mk(false, le, b.Lo)})
					emit(codec.Bits{Hi: mk(false, h, a.Lo), Lo: mk(true, le, b.Lo)})
				}
			}
		}})
	}
	return out
}

// exploreEnc runs the check over the encoding families of codecs.
func exploreEnc(r *eng.Run, op string, cs ...*codec.Codec) { exploreEncScale(r, 1, op, cs...) }

func exploreEncScale(r *eng.Run, scale int, op string, cs ...*codec.Codec) {
	for _, c := range cs {
		for _, g := range encFamilies(c, r.Thorough(), scale) {
			r.Blocks(c.Name+": "+g.name, g.bound, g.n, func(w *eng.Worker, i int) {
				k := &eng.Case{Op: op, Fmt: c.Name}
				g.f(i, func(b codec.Bits) {
					k.B = [2]uint64{b.Hi, b.Lo}
					w.Do(k)
				})
			})
		}
	}
}

func f32bits(x float32) uint64 { return uint64(math.Float32bits(x)) }
