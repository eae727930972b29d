// Command mcfmt decides the properties of the exactness predicates and of
// number formatting.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	stdconv "strconv"

	float "github.com/mewmew/float"
	"github.com/mewmew/float/internal/strconv"
	"github.com/mewmew/float/vmc/codec"
	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/fam"
	"github.com/mewmew/float/vmc/ref"
	"github.com/mewmew/float/vmc/runner"
)

func main() { runner.Main() }

func f64(b uint64) float64 { return math.Float64frombits(b) }

type scratch struct {
	buf  []byte
	s, t big.Int
	v, u ref.Val
}

func sc(w *eng.Worker) *scratch {
	if s, ok := w.Scratch.(*scratch); ok {
		return s
	}
	s := &scratch{buf: make([]byte, 4096)}
	w.Scratch = s
	return s
}

// halfBits is the model's rounding of a float64 to half precision.
func halfBits(s *scratch, x float64) (uint64, bool) {
	ref.F64.Decode(ref.Bits{Lo: math.Float64bits(x)}, &s.v)
	if s.v.Kind == ref.NaN {
		return 0x7E00, true
	}
	return ref.Half.EncodeS(&s.v, &s.s, &s.t).Lo, false
}

// wantFloat is the expected text. The reference formatter decides 16-bit
// values; for 32 and 64 bits the standard library's independent algorithms are
// the oracle, and the reference formatter as well when deep is set.
func wantFloat(s *scratch, x float64, fm byte, prec, size int, deep bool) string {
	switch size {
	case 16:
		h, _ := halfBits(s, x)
		return ref.Half.FormatFloat(ref.Bits{Lo: h}, fm, prec)
	case 32:
		w := stdconv.FormatFloat(x, fm, prec, 32)
		if deep {
			if m := ref.F32.FormatFloat(ref.Bits{Lo: uint64(math.Float32bits(float32(x)))}, fm, prec); m != w {
				panic("oracles disagree: " + m + " " + w)
			}
		}
		return w
	}
	w := stdconv.FormatFloat(x, fm, prec, 64)
	if deep {
		if m := ref.F64.FormatFloat(ref.Bits{Lo: math.Float64bits(x)}, fm, prec); m != w {
			panic("oracles disagree: " + m + " " + w)
		}
	}
	return w
}

// checkFloat: FormatFloat and AppendFloat of float64 c.B[1] with verb c.S,
// precision c.N and bit size c.Prec.
func checkFloat(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	s := sc(w)
	x, fm, size := f64(c.B[1]), c.S[0], int(c.Prec)
	w.R.States.Add(eng.Mix(c.B[1], uint64(fm), uint64(c.N), uint64(size)))
	w.Transitions++
	got := strconv.FormatFloat(x, fm, c.N, size)
	want := wantFloat(s, x, fm, c.N, size, c.Op == "deep")
	if got != want {
		return &eng.Mismatch{What: "FormatFloat", Got: got, Want: want}
	}
	w.R.Outcomes.Add(eng.HashString(got))
	// append to a prefix, with room to spare or without any
	w.Transitions++
	n := 3
	s.buf[0], s.buf[1], s.buf[2] = 'a', '-', '7'
	dst := s.buf[:n]
	if c.B[1]&1 == 1 {
		dst = s.buf[:n:n]
	}
	app := strconv.AppendFloat(dst, x, fm, c.N, size)
	if string(app[:n]) != "a-7" || string(app[n:]) != want {
		return &eng.Mismatch{What: "AppendFloat to \"a-7\"", Got: string(app), Want: "a-7" + want}
	}
	if c.N < 0 && want != "NaN" && size != 16 && fm != 'b' {
		// the text parses back to the same value
		w.Transitions++
		y, err := stdconv.ParseFloat(got, size)
		if size == 32 {
			x = float64(float32(x))
		}
		if err != nil || math.Float64bits(y) != math.Float64bits(x) {
			return &eng.Mismatch{What: "shortest text does not parse back", Got: got, Want: fmt.Sprintf("text of %x", x)}
		}
	}
	return nil
}

type gen struct {
	name, bound string
	n           int
	f           func(i int, emit func(b uint64))
}

var verbs = []string{"e", "f", "g", "E", "G", "b"}

// values64 are float64 bit patterns.
func values64(k int) gen {
	p := append(fam.TransList(52, k), fam.Dense(52)...)
	return gen{"float64 exponents", fmt.Sprintf("every sign and exponent x %d fractions (<= %d transitions, dense)", len(p), k), 4096, func(i int, emit func(uint64)) {
		for _, u := range p {
			emit(uint64(i)<<52 | u.Lo)
		}
	}}
}

func windows64(step int) gen {
	nw := fam.NWindows(52, 13)
	n := 2048 / step
	return gen{"float64 windows", fmt.Sprintf("every value of each 13-bit fraction window over zeros and ones, every %d. exponent", step), n * nw, func(i int, emit func(uint64)) {
		fam.Window(52, 13, i%nw, func(u fam.U) { emit(uint64(i/nw*step)<<52 | u.Lo) })
	}}
}

func values32(k int) gen {
	p := append(fam.TransList(23, k), fam.Dense(23)...)
	return gen{"float32 exponents", fmt.Sprintf("every sign and exponent x %d fractions (<= %d transitions, dense)", len(p), k), 512, func(i int, emit func(uint64)) {
		for _, u := range p {
			emit(math.Float64bits(float64(math.Float32frombits(uint32(i)<<23 | uint32(u.Lo)))))
		}
	}}
}

func all32(name, bound string, exps []int) gen {
	return gen{name, bound, len(exps) * 2048, func(i int, emit func(uint64)) {
		base := uint32(exps[i/2048])<<23 | uint32(i%2048)<<12
		for j := uint32(0); j < 4096; j++ {
			emit(math.Float64bits(float64(math.Float32frombits(base | j))))
		}
	}}
}

// decimals: floats next to short decimals, where shortest output is decided.
func decimals(max int, size int) gen {
	lo, hi := -345, 309
	if size == 32 {
		lo, hi = -48, 39
	}
	return gen{"near short decimals", fmt.Sprintf("every d*10^k, d = 1..%d, k = %d..%d: the nearest float and its 2 neighbours on each side", max, lo, hi), hi - lo + 1, func(i int, emit func(uint64)) {
		for d := 1; d <= max; d++ {
			s := stdconv.Itoa(d) + "e" + stdconv.Itoa(lo+i)
			if size == 32 {
				x, err := stdconv.ParseFloat(s, 32)
				if err != nil {
					continue
				}
				b := math.Float32bits(float32(x))
				for k := -2; k <= 2; k++ {
					if v := int64(b) + int64(k); v >= 0 && v < 0x7F800000 {
						emit(math.Float64bits(float64(math.Float32frombits(uint32(v)))))
					}
				}
				continue
			}
			x, err := stdconv.ParseFloat(s, 64)
			if err != nil {
				continue
			}
			b := math.Float64bits(x)
			for k := -2; k <= 2; k++ {
				if v := int64(b) + int64(k); v >= 0 && v < 0x7FF<<52 {
					emit(uint64(v))
				}
			}
		}
	}}
}

// dyadic: m * 2^-j, whose decimal expansions end early and in 5, so that fixed
// precisions meet exact ties.
func dyadic(maxM, maxJ int) gen {
	return gen{"dyadic fractions", fmt.Sprintf("m * 2^-j, m = 0..%d, j = 0..%d", maxM, maxJ), maxJ + 1, func(j int, emit func(uint64)) {
		for m := 0; m <= maxM; m++ {
			emit(math.Float64bits(math.Ldexp(float64(m), -j)))
		}
	}}
}

// integers near powers of ten and large integers.
func integers() gen {
	return gen{"integers", "d*10^k + r for d = 1..9, k = 0..17, r = -50..50, and with a half added", 18, func(k int, emit func(uint64)) {
		p := 1.0
		for i := 0; i < k; i++ {
			p *= 10
		}
		for d := 1; d <= 9; d++ {
			for r := -50; r <= 50; r++ {
				emit(math.Float64bits(float64(d)*p + float64(r)))
				emit(math.Float64bits(float64(d)*p + float64(r) + 0.5))
			}
		}
	}}
}

func halves() gen {
	return gen{"all halves", "every half precision value", 256, func(i int, emit func(uint64)) {
		var v ref.Val
		for j := 0; j < 256; j++ {
			ref.Half.Decode(ref.Bits{Lo: uint64(i<<8 | j)}, &v)
			emit(valToF64(&v))
		}
	}}
}

func valToF64(v *ref.Val) uint64 {
	if v.Kind == ref.NaN {
		if v.Neg {
			return 0xFFF8000000000000
		}
		return 0x7FF8000000000000
	}
	return ref.F64.Encode(v).Lo
}

// betweenHalves: float64 values inside the half intervals.
func betweenHalves() gen {
	return gen{"between halves", "every interval of neighbouring halves: next to the ends, the middle and next to the middle", 0x7C00, func(i int, emit func(uint64)) {
		val := func(i int) float64 {
			e, f := i>>10, float64(i&0x3FF)
			if e == 0 {
				return math.Ldexp(f, -24)
			}
			return math.Ldexp(1024+f, e-25)
		}
		a, b := val(i), val(i+1)
		m := (a + b) / 2
		for _, x := range []float64{math.Nextafter(a, 1e9), math.Nextafter(m, 0), m, math.Nextafter(m, 1e9), math.Nextafter(b, 0)} {
			emit(math.Float64bits(x))
			emit(math.Float64bits(-x))
		}
	}}
}

// between32: float64 values inside float32 intervals, beyond the largest and
// below the smallest.
func between32() gen {
	p := fam.TransList(23, 1)
	return gen{"between float32s", fmt.Sprintf("every exponent x %d fractions: next to both ends of the interval above, its middle and next to the middle", len(p)), 255, func(i int, emit func(uint64)) {
		for _, u := range p {
			n := uint32(i)<<23 | uint32(u.Lo)
			if n > 0x7F7FFFFF {
				continue
			}
			a := float64(math.Float32frombits(n))
			b := 0x1p128
			if n < 0x7F7FFFFF {
				b = float64(math.Float32frombits(n + 1))
			}
			m := a + (b-a)/2
			for _, x := range []float64{math.Nextafter(a, 1e300), math.Nextafter(m, 0), m, math.Nextafter(m, 1e300), math.Nextafter(b, 0)} {
				emit(math.Float64bits(x))
				emit(math.Float64bits(-x))
			}
		}
	}}
}

func run(r *eng.Run, op string, size int, vs []string, precs []int, gens ...gen) {
	for _, g := range gens {
		r.Blocks(fmt.Sprintf("%d bits, %s", size, g.name), fmt.Sprintf("%s; verbs %v; precisions %v", g.bound, vs, precs), g.n, func(w *eng.Worker, i int) {
			c := &eng.Case{Op: op, Prec: uint(size)}
			g.f(i, func(b uint64) {
				c.B[1] = b
				for _, v := range vs {
					c.S = v
					for _, p := range precs {
						c.N = p
						w.Do(c)
					}
				}
			})
		})
	}
}

func seq(a, b int) []int {
	var l []int
	for ; a <= b; a++ {
		l = append(l, a)
	}
	return l
}

func exploreShortest(r *eng.Run) {
	r.Rule = "state = (value, verb, bit size); transitions = FormatFloat, AppendFloat and parsing back, text compared with the shortest-decimal reference"
	sh := []int{-1}
	run(r, "short", 16, verbs, sh, halves(), betweenHalves())
	run(r, "short", 16, []string{"e"}, sh, values64(1))
	for _, n := range []int{16, 32, 64} {
		mixFloats(r, n, false, bitsMix(n), fam.Sizes(r.Thorough(), 0))
		mixFloats(r, n, false, digitsMix(n), fam.Sizes(r.Thorough(), 0))
	}
	e := []string{"e"}
	run(r, "deep", 64, []string{"e", "f", "g"}, sh, values64(0))
	run(r, "deep", 32, []string{"e", "f", "g"}, sh, values32(1))
	run(r, "short", 32, verbs, sh, values32(2))
	run(r, "short", 32, e, sh, decimals(999, 32), values64(1), between32())
	run(r, "short", 64, verbs, sh, values64(1))
	hard(r, 64, 17, true, 1)
	hard(r, 32, 9, true, 1)
	hard(r, 64, 17, false, 1)
	run(r, "short", 64, e, sh, decimals(r.Pick(400, 9999), 64), integers(), windows64(r.Pick(64, 4)))
	if r.Thorough() {
		run(r, "short", 32, e, sh, all32("all float32", "every float32", seq(0, 511)))
		run(r, "short", 64, e, sh, values64(2))
	} else {
		run(r, "short", 32, e, sh, all32("all fractions", "every fraction at exponent fields 0, 1, 127, 150, 183", []int{0, 1, 127, 150, 183}))
		run(r, "short", 64, e, sh, values64(2))
	}
}

func exploreFixed(r *eng.Run) {
	r.Rule = "state = (value, verb, precision, bit size); transitions = FormatFloat and AppendFloat, text compared with correct rounding of the exact decimal expansion"
	run(r, "fixed", 16, verbs, seq(0, 12), halves())
	run(r, "fixed", 16, verbs, []int{0, 3, 17, 30}, betweenHalves())
	for _, n := range []int{16, 32, 64} {
		mixFloats(r, n, true, bitsMix(n), fam.Sizes(r.Thorough(), 1))
		mixFloats(r, n, true, digitsMix(n), fam.Sizes(r.Thorough(), 1))
	}
	run(r, "deep", 64, []string{"e", "f", "g"}, []int{0, 1, 5, 15, 16, 17, 25}, values64(0))
	run(r, "deep", 32, []string{"e", "f", "g"}, []int{0, 1, 5, 7, 8, 15, 17, 25}, values32(0))
	run(r, "fixed", 64, []string{"e", "g"}, append(seq(0, 20), 25, 40), values64(r.Pick(0, 1)))
	run(r, "fixed", 64, []string{"e", "g"}, append(seq(0, 18), 25, 40), stepGen(values64(1), r.Pick(8, 1)))
	run(r, "fixed", 64, []string{"f", "E", "G", "b"}, []int{0, 1, 2, 6, 10, 15, 17, 20, 50}, stepGen(values64(r.Pick(0, 1)), 1))
	run(r, "fixed", 64, []string{"e", "f", "g"}, []int{100, 350, 767, 800, 1100}, stepGen(values64(0), r.Pick(16, 1)))
	run(r, "fixed", 64, []string{"e", "f", "g"}, seq(0, 20), dyadic(r.Pick(300, 2000), 24), integers())
	hard(r, 64, 17, false, 1)
	hard(r, 32, 15, false, 1)
	run(r, "fixed", 64, []string{"e"}, []int{17, 40}, carries(64, r.Pick(4, 1)))
	run(r, "fixed", 64, []string{"f"}, []int{0}, carries(64, 60))
	run(r, "fixed", 32, []string{"e"}, []int{17, 40}, carries(32, 1))
	run(r, "fixed", 64, []string{"e"}, seq(0, 17), stepGen(decimals(r.Pick(60, 999), 64), r.Pick(2, 1)))
	run(r, "fixed", 32, []string{"e", "f", "g"}, append(seq(0, 18), 25, 40, 120), values32(r.Pick(0, 1)))
	run(r, "fixed", 32, []string{"e", "f", "g"}, seq(0, 12), dyadic(r.Pick(100, 2000), 24))
	run(r, "fixed", 32, []string{"e", "b"}, []int{8}, between32())
	run(r, "fixed", 32, []string{"e", "f"}, []int{0, 1, 5, 6, 7, 8, 9, 14, 15}, decimals(r.Pick(60, 999), 32), values32(1))
	if r.Thorough() {
		run(r, "fixed", 64, []string{"e"}, []int{5, 14, 15, 16}, values64(2), windows64(16))
	}
}

func stepGen(g gen, k int) gen {
	n := (g.n + k - 1) / k
	return gen{g.name, fmt.Sprintf("every %d. block of: %s", k, g.bound), n, func(i int, emit func(uint64)) { g.f(i*k, emit) }}
}

// --- C21: integers --------------------------------------------------------------

const digits = "0123456789abcdefghijklmnopqrstuvwxyz"

func refInt(u uint64, neg bool, base int) string {
	var b [65]byte
	i := len(b)
	for {
		i--
		b[i] = digits[u%uint64(base)]
		u /= uint64(base)
		if u == 0 {
			break
		}
	}
	if neg {
		return "-" + string(b[i:])
	}
	return string(b[i:])
}

// checkInt: value c.B[1] in base c.N by every integer formatting function.
func checkInt(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	s := sc(w)
	u := c.B[1]
	w.R.States.Add(eng.Mix(u, uint64(c.N)))
	i := int64(u)
	mag := u
	if i < 0 {
		mag = -u
	}
	wu, wi := refInt(u, false, c.N), refInt(mag, i < 0, c.N)
	w.R.Outcomes.Add(eng.HashString(wu))
	bad := func(what, got, want string) *eng.Mismatch {
		return &eng.Mismatch{What: fmt.Sprintf("%s(%d, base %d)", what, u, c.N), Got: got, Want: want}
	}
	w.Transitions += 4
	if g := strconv.FormatUint(u, c.N); g != wu {
		return bad("FormatUint", g, wu)
	}
	if g := strconv.FormatInt(i, c.N); g != wi {
		return bad("FormatInt", g, wi)
	}
	s.buf[0], s.buf[1] = 'x', '0'
	dst := s.buf[:2]
	if u&2 == 2 {
		dst = s.buf[:2:2]
	}
	if g := strconv.AppendUint(dst, u, c.N); string(g) != "x0"+wu {
		return bad("AppendUint to x0", string(g), "x0"+wu)
	}
	s.buf[0], s.buf[1] = 'x', '0'
	if g := strconv.AppendInt(dst, i, c.N); string(g) != "x0"+wi {
		return bad("AppendInt to x0", string(g), "x0"+wi)
	}
	if c.N == 10 && int64(int(i)) == i {
		w.Transitions++
		if g := strconv.Itoa(int(i)); g != wi {
			return bad("Itoa", g, wi)
		}
	}
	return nil
}

func exploreInt(r *eng.Run) {
	r.Rule = "state = (value, base); transitions = FormatUint, FormatInt, AppendUint, AppendInt (and Itoa) compared with digit-by-digit division"
	do := func(w *eng.Worker, c *eng.Case, u uint64) {
		c.B[1] = u
		w.Do(c)
		c.B[1] = -u
		w.Do(c)
	}
	mixInts(r, fam.Sizes(r.Thorough(), 2), do)
	k := r.Pick(2, 3)
	r.Blocks("small integers", "every |i| <= 20000 in every base 2..36", 35, func(w *eng.Worker, b int) {
		c := &eng.Case{Op: "int", N: b + 2}
		for u := uint64(0); u <= 20000; u++ {
			do(w, c, u)
		}
	})
	r.Blocks("decimal", fmt.Sprintf("every |i| < %d in base 10", r.Pick(2000000, 50000000)), 2000, func(w *eng.Worker, b int) {
		c := &eng.Case{Op: "int", N: 10}
		n := uint64(r.Pick(2000000, 50000000) / 2000)
		for u := uint64(b) * n; u < uint64(b+1)*n; u++ {
			do(w, c, u)
		}
	})
	pats := append(fam.TransList(64, k), fam.Dense(64)...)
	r.Blocks("patterns", fmt.Sprintf("64-bit patterns with <= %d transitions in every base", k), 35, func(w *eng.Worker, b int) {
		c := &eng.Case{Op: "int", N: b + 2}
		for _, u := range pats {
			do(w, c, u.Lo)
		}
	})
	r.Blocks("powers", "d*base^k + r for every base, every k in range, d = 1..base, r = -40..40", 35, func(w *eng.Worker, b int) {
		base := uint64(b + 2)
		c := &eng.Case{Op: "int", N: b + 2}
		for p := uint64(1); ; p *= base {
			for d := uint64(1); d <= base; d++ {
				for r := uint64(0); r <= 40; r++ {
					do(w, c, d*p+r)
					do(w, c, d*p-r)
				}
			}
			if p > math.MaxUint64/base {
				break
			}
		}
	})
	r.Blocks("32-bit and 10^9 splits", "hi*10^9 + lo and hi*2^32 + lo around the splitting points, every base", 35, func(w *eng.Worker, b int) {
		c := &eng.Case{Op: "int", N: b + 2}
		edge := []uint64{0, 1, 9, 10, 99, 100, 101, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 999999999}
		for _, m := range []uint64{1e9, 1 << 32, 1e8, 1e10, 1e11, 1e18} {
			for _, hi := range append(edge, 4294967295, 4294967296, 18446744073) {
				for _, lo := range edge {
					do(w, c, hi*m+lo)
				}
			}
		}
	})
}

// --- C18: exactness predicates -----------------------------------------------------

var exactFmt = map[int]*ref.Format{16: ref.Half, 32: ref.F32, 64: ref.F64}

// checkExact: IsExact16, 32 and 64 of the big.Float of the case.
func checkExact(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	s := sc(w)
	x := new(big.Float)
	v := &s.u
	switch ref.Kind(c.Kind) {
	case ref.Fin:
		v.SetFin(c.Neg, &c.M, c.E)
		p := c.Prec
		if n := uint(c.M.BitLen()); p < n {
			p = n
		}
		x.SetPrec(p).SetInt(&c.M)
		x.SetMantExp(x, c.E)
		if c.Neg {
			x.Neg(x)
		}
	case ref.Inf:
		v.Kind, v.Neg = ref.Inf, c.Neg
		x.SetInf(c.Neg)
	default:
		v.Kind, v.Neg = ref.Zero, c.Neg
		if c.Neg {
			x.Neg(x)
		}
		x.SetPrec(c.Prec)
	}
	x.SetMode(c.Mode)
	if c.Acc != 0 {
		x = codec.Stale(x, big.Accuracy(c.Acc), c.Mode)
	}
	w.R.States.Add(eng.HashInt(&c.M, uint64(c.E), b2u(c.Neg), uint64(c.Kind), uint64(c.Prec), uint64(c.Acc)))
	for _, n := range []int{16, 32, 64} {
		f := exactFmt[n]
		w.Transitions++
		var got bool
		switch n {
		case 16:
			got = float.IsExact16(x)
		case 32:
			got = float.IsExact32(x)
		case 64:
			got = float.IsExact64(x)
		}
		e := f.EncodeS(v, &s.s, &s.t)
		f.Decode(e, &s.v)
		want := ref.Same(&s.v, v)
		w.R.Outcomes.Add(eng.Mix(uint64(n), b2u(got), b2u(want), uint64(c.Kind)))
		if got == want {
			continue
		}
		m := &eng.Mismatch{What: fmt.Sprintf("IsExact%d", n), Got: fmt.Sprint(got), Want: fmt.Sprint(want)}
		if want && v.Kind == ref.Fin {
			// recorded finding: representable, but its shortest decimal
			// spelling is not its exact decimal expansion
			if ex, sh := ref.ExactDec(v), f.ShortestDec(e); string(ex.D) != string(sh.D) || ex.DP != sh.DP {
				m.Known = fmt.Sprintf("isexact%d-shortest", n)
				if r := w.R; r != nil {
					w.Known(c, m)
				}
				continue
			}
		}
		return m
	}
	return nil
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func exploreExact(r *eng.Run) {
	r.Rule = "state = big float; transitions = IsExact16, IsExact32, IsExact64 compared with representability by the reference model"
	precs := []uint{0, 24, 53, 64, 113, 400}
	emit := func(w *eng.Worker, c *eng.Case, i int) {
		c.Prec = precs[i%len(precs)]
		c.Mode = big.RoundingMode(i % 6)
		c.Neg = false
		w.Do(c)
		c.Neg = true
		w.Do(c)
		c.Neg = c.E&1 == 1
		c.Acc = int8(1 - 2*(c.E>>1&1))
		w.Do(c)
		if ref.Kind(c.Kind) != ref.Fin {
			c.Neg = !c.Neg
			w.Do(c)
		}
		c.Acc = 0
	}
	r.Blocks("specials", "zeros and infinities at several precisions and modes", 1, func(w *eng.Worker, _ int) {
		for _, k := range []ref.Kind{ref.Zero, ref.Inf} {
			for i := 0; i < 36; i++ {
				c := &eng.Case{Op: "exact", Kind: uint8(k)}
				emit(w, c, i)
				c.Prec = precs[i/6]
				w.Do(c)
			}
		}
	})
	setF := func(c *eng.Case, m uint64, e int) {
		c.Kind = uint8(ref.Fin)
		c.M.SetUint64(m)
		c.E = e
	}
	mixExact(r, fam.Sizes(r.Thorough(), 1))
	r.Blocks("half neighbourhood", "every half magnitude and 6 points inside each interval", 0x7C00, func(w *eng.Worker, i int) {
		c := &eng.Case{Op: "exact"}
		m, e := uint64(i), -24
		if i>>10 > 0 {
			m, e = uint64(i&0x3FF|0x400), i>>10-25
		}
		if m > 0 {
			setF(c, m, e)
			emit(w, c, i)
		}
		for k, t := range [][2]uint64{{1, 1}, {2, 1}, {2, 3}, {13, 4095}, {13, 4097}, {30, 1}, {42, 1<<42 - 1}} {
			setF(c, m<<t[0]|t[1], e-int(t[0]))
			emit(w, c, i+k)
		}
	})
	r.Blocks("integers", "every integer up to 140000 and its half", 140, func(w *eng.Worker, i int) {
		c := &eng.Case{Op: "exact"}
		for n := i * 1000; n < (i+1)*1000; n++ {
			if n > 0 {
				setF(c, uint64(n), 0)
				emit(w, c, n)
				setF(c, uint64(n), -1)
				emit(w, c, n)
			}
		}
	})
	r.Blocks("short decimals", "d*10^k that are dyadic: d = 1..999, k = 0..40, and d*5^k*2^-j", 41, func(w *eng.Worker, k int) {
		c := &eng.Case{Op: "exact", Kind: uint8(ref.Fin)}
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil)
		for d := int64(1); d < 1000; d++ {
			c.M.Mul(p, big.NewInt(d))
			c.E = 0
			emit(w, c, int(d))
		}
		for d := uint64(1); d < 300; d++ {
			setF(c, d, -k)
			emit(w, c, int(d))
		}
	})
	ks := r.Pick(1, 2)
	p64 := append(fam.TransList(54, ks), fam.Dense(54)...)
	r.Blocks("all exponents", fmt.Sprintf("every exponent -1090..1030 x 54-bit significands with <= %d transitions", ks), 2121, func(w *eng.Worker, i int) {
		c := &eng.Case{Op: "exact"}
		for j, u := range p64 {
			if u.Lo == 0 {
				continue
			}
			setF(c, u.Lo, i-1090-53)
			emit(w, c, i+j)
		}
	})
	p32 := append(fam.TransList(25, 2), fam.Dense(25)...)
	r.Blocks("float32 range", "every exponent -155..130 x 25-bit significands with <= 2 transitions", 286, func(w *eng.Worker, i int) {
		c := &eng.Case{Op: "exact"}
		for j, u := range p32 {
			if u.Lo == 0 {
				continue
			}
			setF(c, u.Lo, i-155-24)
			emit(w, c, i+j)
		}
	})
	r.Blocks("sparse significands", "1 + 2^-k, 1 - 2^-k, 1 + 2^-a + 2^-b, k, a, b up to 300, at 7 exponents", 300, func(w *eng.Worker, i int) {
		c := &eng.Case{Op: "exact", Kind: uint8(ref.Fin)}
		one := big.NewInt(1)
		for _, e := range []int{0, 1, 10, -20, 100, 900, -900} {
			a := i + 1
			for b := a; b <= 300; b += 1 + (b-a)/3 {
				c.M.SetInt64(0)
				c.M.SetBit(&c.M, b, 1)
				c.M.SetBit(&c.M, b-a, 1)
				c.M.SetBit(&c.M, 0, 1)
				c.E = e - b
				emit(w, c, b)
			}
			c.M.SetInt64(0)
			c.M.SetBit(&c.M, a, 1)
			c.M.Sub(&c.M, one)
			c.E = e - a
			emit(w, c, a)
		}
	})
	r.Blocks("out of range", "2^k and 3*2^k for |k| around the limits and up to 2^30", 1, func(w *eng.Worker, _ int) {
		c := &eng.Case{Op: "exact"}
		for _, k := range []int{15, 16, 127, 128, 1023, 1024, 1025, 2000, 20000, 100000, 1 << 20, 1 << 30} {
			for d := -3; d <= 3; d++ {
				for _, m := range []uint64{1, 3, 5, 1<<53 + 1} {
					setF(c, m, k+d)
					if k < 1200 {
						emit(w, c, d+3)
						setF(c, m, -k+d)
						emit(w, c, d+3)
					} else {
						emit(w, c, d+3)
						setF(c, m, -k+d)
						emit(w, c, d+3)
					}
				}
			}
		}
	})
}

// --- C25: which arguments formatting accepts, and appending ----------------------

func knownVerb(v byte) bool {
	switch v {
	case 'b', 'e', 'E', 'f', 'g', 'G':
		return true
	}
	return false
}

// panics runs f and reports whether it panicked.
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

const noText = "(panic)"

// wantText is the text of case c, or noText if its arguments are not valid.
func wantText(s *scratch, c *eng.Case) string {
	if c.Op == "float" {
		size := int(int64(c.C[0]))
		if size != 16 && size != 32 && size != 64 {
			return noText
		}
		x, v := f64(c.B[1]), byte(c.C[1])
		if knownVerb(v) {
			return wantFloat(s, x, v, c.N, size, false)
		}
		if size == 16 {
			h, _ := halfBits(s, x)
			ref.Half.Decode(ref.Bits{Lo: h}, &s.v)
			x = f64(valToF64(&s.v))
		}
		if size == 32 {
			x = float64(float32(x))
		}
		if x != x || math.IsInf(x, 0) {
			return wantFloat(s, x, 'e', -1, 64, false)
		}
		return "%" + string([]byte{v})
	}
	if c.N < 2 || c.N > 36 {
		return noText
	}
	if c.Op == "int" && int64(c.B[1]) < 0 {
		return refInt(-c.B[1], true, c.N)
	}
	return refInt(c.B[1], false, c.N)
}

// links are the calls chains are made of.
var links = []struct {
	op   string
	b    uint64
	verb byte
	n    int
	size uint64
}{
	{"int", 7, 0, 10, 0}, {"int", 1 << 63, 0, 2, 0}, {"uint", 1<<64 - 1, 0, 10, 0}, {"uint", 99, 0, 10, 0}, {"int", 123456, 0, 36, 0},
	{"float", math.Float64bits(0.1), 'g', -1, 64}, {"float", math.Float64bits(-math.MaxFloat64), 'f', 3, 64}, {"float", math.Float64bits(1 / 3.), 'e', 30, 32}, {"float", math.Float64bits(1.5), 'b', -1, 16}, {"float", math.Float64bits(math.Inf(-1)), 'e', 5, 64}, {"float", math.Float64bits(6e-8), 'e', -1, 16}, {"float", 0, 'f', 90, 64},
}

// checkChain: a sequence of appending calls, each given the result of the one
// before.
func checkChain(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	s := sc(w)
	dst := make([]byte, 0, c.Prec)
	var want []byte
	h := uint64(c.Prec)
	for i, b := range []byte(c.S) {
		k := &links[b-'a']
		kc := &eng.Case{Op: k.op, N: k.n}
		kc.B[1], kc.C[0], kc.C[1] = k.b, k.size, uint64(k.verb)
		want = append(want, wantText(s, kc)...)
		h = eng.Mix(h, uint64(b))
		w.R.States.Add(h)
		w.Transitions++
		if k.op == "float" {
			dst = strconv.AppendFloat(dst, f64(k.b), k.verb, k.n, int(k.size))
		} else if k.op == "int" {
			dst = strconv.AppendInt(dst, int64(k.b), k.n)
		} else {
			dst = strconv.AppendUint(dst, k.b, k.n)
		}
		if !bytes.Equal(dst, want) {
			return &eng.Mismatch{What: fmt.Sprintf("buffer after call %d of the chain", i+1), Got: fmt.Sprintf("%q", dst), Want: fmt.Sprintf("%q", want)}
		}
	}
	return nil
}

// checkArgs: the formatting and appending functions of kind c.Op (float, int,
// uint) with the case's arguments, appending to a buffer that holds c.E bytes
// and has room for c.Prec more.
func checkArgs(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	if c.Op == "chain" {
		return checkChain(w, c)
	}
	s := sc(w)
	want := wantText(s, c)
	w.R.States.Add(eng.Mix(c.B[1], c.C[0], c.C[1], uint64(c.N), uint64(c.E)<<16|uint64(c.Prec), eng.HashString(c.Op)))
	w.R.Outcomes.Add(eng.HashString(want))
	w.Transitions += 2
	got := noText
	size, verb := int(int64(c.C[0])), byte(c.C[1])
	panics(func() {
		switch c.Op {
		case "float":
			got = strconv.FormatFloat(f64(c.B[1]), verb, c.N, size)
		case "int":
			got = strconv.FormatInt(int64(c.B[1]), c.N)
		default:
			got = strconv.FormatUint(c.B[1], c.N)
		}
	})
	if got != want {
		return &eng.Mismatch{What: "text", Got: got, Want: want}
	}
	if c.Op == "int" && c.N == 10 && int64(int(int64(c.B[1]))) == int64(c.B[1]) {
		w.Transitions++
		if got := strconv.Itoa(int(int64(c.B[1]))); got != want {
			return &eng.Mismatch{What: "Itoa", Got: got, Want: want}
		}
	}
	n, m := c.E, c.E+int(c.Prec)
	if m > len(s.buf) {
		s.buf = make([]byte, m)
	}
	buf := s.buf[:m:m]
	for i := range buf {
		buf[i] = byte(i*7 + 1)
	}
	dst := buf[:n]
	if m == 0 {
		dst = nil
	}
	var app []byte
	done := !panics(func() {
		switch c.Op {
		case "float":
			app = strconv.AppendFloat(dst, f64(c.B[1]), verb, c.N, size)
		case "int":
			app = strconv.AppendInt(dst, int64(c.B[1]), c.N)
		default:
			app = strconv.AppendUint(dst, c.B[1], c.N)
		}
	})
	if done != (want != noText) {
		return &eng.Mismatch{What: "Append panics", Got: fmt.Sprint(!done), Want: fmt.Sprint(done)}
	}
	for i, x := range buf[:n] {
		if x != byte(i*7+1) {
			return &eng.Mismatch{What: fmt.Sprintf("byte %d of the buffer's contents", i), Got: fmt.Sprint(x), Want: fmt.Sprint(byte(i*7 + 1))}
		}
	}
	if done {
		if len(app) < n || string(app[:n]) != string(buf[:n]) || string(app[n:]) != want {
			return &eng.Mismatch{What: fmt.Sprintf("appending to %d bytes with room for %d", n, c.Prec), Got: fmt.Sprintf("%q", app), Want: fmt.Sprintf("%q", string(buf[:n])+want)}
		}
	}
	return nil
}

func exploreArgs(r *eng.Run) {
	r.Rule = "state = (function kind, value, verb, precision, bit size or base, buffer length, spare capacity); transitions = Format and Append calls, compared with the reference text or with the requirement to panic"
	mixAppends(r, fam.Sizes(r.Thorough(), 0))
	mixInts(r, fam.Sizes(r.Thorough(), 0), func(w *eng.Worker, c *eng.Case, u uint64) {
		c.B[1] = u
		c.Op = "int"
		w.Do(c)
		c.B[1] = -u
		w.Do(c)
		c.Op = "uint"
		w.Do(c)
	})
	vals := []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 123456789, 65504, 65520, 6e-8, 1e-8, 3.4e38, 3.5e38, 1e-45, 5e-324, math.MaxFloat64, 1e21, 1e-7, 9.5, 99999.5, -2.5e-5, math.Inf(1), math.Inf(-1), math.NaN()}
	precs := []int{math.MinInt32, -100, -2, -1, 0, 1, 2, 5, 6, 7, 14, 15, 16, 17, 18, 20, 21, 24, 25, 33, 63, 64, 200, 799, 800, 801, 1074, 1200, 3000}
	if math.MaxInt > math.MaxInt32 {
		precs = append(precs, math.MinInt)
	}
	r.Blocks("verbs", "256 verbs x 23 values x 29 precisions x 3 bit sizes", 256, func(w *eng.Worker, v int) {
		c := &eng.Case{Op: "float", Prec: uint(v % 3), E: v % 5}
		c.C[1] = uint64(v)
		for _, x := range vals {
			c.B[1] = math.Float64bits(x)
			for _, p := range precs {
				for _, size := range []uint64{16, 32, 64} {
					c.N, c.C[0] = p, size
					w.Do(c)
				}
			}
		}
	})
	odd := []int64{math.MinInt32, -65536, -1024, -128, 256, 512, 1024, 65536, 65552, 65568, 65600, 1 << 20, math.MaxInt32}
	for i := int64(-70); i <= 200; i++ {
		odd = append(odd, i)
	}
	if math.MaxInt > math.MaxInt32 {
		w := int64(1) << 31 << 1
		odd = append(odd, w+2, w+10, w+16, w+32, w+36, w+64, math.MinInt64, math.MaxInt64, -w, -w+10, -w+64)
	}
	r.Blocks("bit sizes", "bit sizes -70..200 and far off x 7 verbs x 23 values x 4 precisions", len(odd), func(w *eng.Worker, i int) {
		c := &eng.Case{Op: "float", Prec: 2, E: 3}
		c.C[0] = uint64(odd[i])
		for _, v := range "befgEGx" {
			c.C[1] = uint64(v)
			for _, x := range vals {
				c.B[1] = math.Float64bits(x)
				for _, p := range []int{-1, 0, 3, 17} {
					c.N = p
					w.Do(c)
				}
			}
		}
	})
	ints := []uint64{0, 1, 9, 10, 99, 100, 255, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, ^uint64(0) - 98, ^uint64(0) - 99, 35, 36, 1e18, 1e19}
	r.Blocks("bases", "bases -70..200 and far off x 19 integers x 4 buffers", len(odd), func(w *eng.Worker, i int) {
		for _, op := range []string{"int", "uint"} {
			for _, u := range ints {
				for _, b := range []int{0, 1, 3, 70} {
					c := &eng.Case{Op: op, N: int(odd[i]), E: b, Prec: uint(b * 5 % 71)}
					c.B[1] = u
					w.Do(c)
				}
			}
		}
	})
	r.Blocks("buffers", "buffers holding 0..80 bytes with room for 0..80 more x 19 integers in 6 bases, signed and unsigned, and 10 floats with 6 verbs and 4 precisions in 3 bit sizes", 81, func(w *eng.Worker, n int) {
		for m := 0; m <= 80; m++ {
			c := &eng.Case{E: n, Prec: uint(m)}
			for _, op := range []string{"int", "uint"} {
				c.Op = op
				for _, u := range ints {
					c.B[1] = u
					for _, b := range []int{2, 3, 8, 10, 32, 36} {
						c.N = b
						w.Do(c)
					}
				}
			}
			c.Op = "float"
			fl := []float64{0, -1.5, 0.1, 123456789, 1e21, 6e-8, 5e-324, math.MaxFloat64, math.Inf(-1), math.NaN()}
			if m%r.Pick(8, 1) != n%r.Pick(8, 1) {
				fl = fl[:3]
			}
			for _, x := range fl {
				c.B[1] = math.Float64bits(x)
				for _, v := range "befgEG" {
					c.C[1] = uint64(v)
					for _, p := range []int{-1, 0, 3, 25} {
						for _, size := range []uint64{16, 32, 64} {
							c.N, c.C[0] = p, size
							w.Do(c)
						}
					}
				}
			}
		}
	})
	var sizes []int
	for _, n := range []int{0, 1, 128, 256, 512, 1024, 2048, 4096, 32768, 65536} {
		for d := -1; d <= 1; d++ {
			if n+d >= 0 && (n != 1 || d >= 1) {
				sizes = append(sizes, n+d)
			}
		}
	}
	r.Blocks("long buffers", fmt.Sprintf("buffers holding 0..65537 bytes with room for 0..65537 more (around powers of two, %d sizes each) x integers and floats", len(sizes)), len(sizes), func(w *eng.Worker, i int) {
		for _, m := range sizes {
			c := &eng.Case{E: sizes[i], Prec: uint(m)}
			for _, op := range []string{"int", "uint"} {
				c.Op = op
				for _, u := range []uint64{0, 42, 1<<63 + 99} {
					c.B[1] = u
					for _, b := range []int{2, 10, 36} {
						c.N = b
						w.Do(c)
					}
				}
			}
			c.Op = "float"
			c.C[0] = 64
			for _, x := range []float64{-1.5, 0.1, math.MaxFloat64} {
				c.B[1] = math.Float64bits(x)
				for _, v := range "efgb" {
					c.C[1] = uint64(v)
					for _, p := range []int{-1, 25, 400} {
						c.N = p
						w.Do(c)
					}
				}
			}
		}
	})
	depth := r.Pick(4, 5)
	r.Blocks("chains", fmt.Sprintf("every sequence of up to %d appending calls out of %d, each to the result of the one before, from buffers with room for 0, 1, 24, 100 and 5000 bytes", depth, len(links)), len(links), func(w *eng.Worker, i int) {
		var rec func(l []byte)
		rec = func(l []byte) {
			for _, room := range []uint{0, 1, 24, 100, 5000} {
				w.Do(&eng.Case{Op: "chain", S: string(l), Prec: room})
			}
			if len(l) < depth {
				for j := range links {
					rec(append(l[:len(l):len(l)], 'a'+byte(j)))
				}
			}
		}
		rec([]byte{'a' + byte(i)})
	})
	r.Blocks("long text in short buffers", "texts of up to 3100 bytes appended to buffers of 6 shapes", 1, func(w *eng.Worker, _ int) {
		for _, x := range []float64{5e-324, math.MaxFloat64, -math.MaxFloat64, 0, 1e100, 1.0 / 3} {
			for _, v := range "efg" {
				for _, p := range []int{100, 308, 309, 1074, 2000, 3000} {
					for _, b := range [][2]uint64{{0, 0}, {1, 0}, {5, 20}, {0, 310}, {100, 3000}, {900, 1}} {
						c := &eng.Case{Op: "float", N: p, E: int(b[0]), Prec: uint(b[1])}
						c.B[1], c.C[0], c.C[1] = math.Float64bits(x), 64, uint64(v)
						w.Do(c)
					}
				}
			}
		}
	})
}

func init() {
	runner.Checks["C25"] = &runner.Check{Fn: checkArgs, Explore: exploreArgs}
	runner.Checks["C18"] = &runner.Check{Fn: checkExact, Explore: exploreExact}
	runner.Checks["C19"] = &runner.Check{Fn: checkFloat, Explore: exploreShortest}
	runner.Checks["C20"] = &runner.Check{Fn: checkFloat, Explore: exploreFixed}
	runner.Checks["C21"] = &runner.Check{Fn: checkInt, Explore: exploreInt}
}
