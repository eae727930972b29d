package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/mewmew/float/vmc/codec"
	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/fam"
	"github.com/mewmew/float/vmc/ref"
)

// C06..C09: NewFromBig yields the nearest value of the format.

func sameEnc(c *codec.Codec, got, want codec.Bits) bool {
	if got == want {
		return true
	}
	if c.F != nil {
		return false
	}
	// double-double: a zero low part may carry either sign
	const z = 1 << 63
	return got.Hi == want.Hi && got.Lo&^z == 0 && want.Lo&^z == 0
}

func checkFromBig(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	s := sc(w)
	x := argBig(c)
	argVal(c, &s.v)
	want := cd.Encode(&s.v, &s.s, &s.t)
	w.R.States.Add(eng.HashInt(&c.M, uint64(c.E), b2u(c.Neg), uint64(c.Kind), uint64(c.Prec), uint64(c.Acc)))
	w.Transitions += 2 // NewFromBig, Bits
	got, _ := cd.FromBig(x)
	if !sameEnc(cd, got, want) {
		return &eng.Mismatch{What: "NewFromBig: not the nearest value", Got: bitsStr(got), Want: bitsStr(want)}
	}
	w.R.Outcomes.Add(eng.Mix(got.Hi, got.Lo))
	return nil
}

// bigFam enumerates big.Float arguments.
type bigFam struct {
	name, bound string
	n           int
	f           func(i int, k *eng.Case, emit func())
}

// tails are the bits below the last kept place: a length and a value.
type tail struct {
	t int
	v *big.Int
}

func tails(lens []int) []tail {
	var out []tail
	for _, t := range lens {
		one := big.NewInt(1)
		half := new(big.Int).Lsh(one, uint(t-1))
		all := new(big.Int).Lsh(one, uint(t))
		all.Sub(all, one)
		seen := map[string]bool{}
		for _, v := range []*big.Int{one, new(big.Int).Sub(half, one), half, new(big.Int).Add(half, one), new(big.Int).Sub(all, one), all} {
			if v.Cmp(all) > 0 || v.Sign() < 0 || seen[v.String()] {
				continue
			}
			seen[v.String()] = true
			out = append(out, tail{t, v})
		}
	}
	return out
}

var tailLens = []int{1, 2, 3, 4, 8, 11, 16, 42, 43, 53, 64, 65, 100, 113, 300}

// setBits fills a case with value (hi:lo) * 2^e, adding both signs.
func emitSigned(k *eng.Case, emit func()) {
	k.Neg = false
	emit()
	k.Neg = true
	emit()
	emitStale(k, emit)
}

// emitStale emits the argument as one that an earlier operation rounded: the
// value is the same, the accuracy is not Exact. Which way it was rounded
// depends on the place the case has in its family.
func emitStale(k *eng.Case, emit func()) {
	k.Neg = (k.E^k.M.BitLen())&1 == 1
	k.Acc = 1
	if (k.E>>1^int(k.M.Bit(0)))&1 == 1 {
		k.Acc = -1
	}
	emit()
	if ref.Kind(k.Kind) != ref.Fin {
		k.Neg = !k.Neg
		emit()
	}
	k.Acc = 0
}

var precs = []struct {
	p uint
	m big.RoundingMode
}{{0, big.ToNearestEven}, {53, big.ToNearestEven}, {64, big.ToZero}, {113, big.AwayFromZero}, {106, big.ToNegativeInf}, {200, big.ToPositiveInf}, {2000, big.ToNearestAway}}

// extremes are arguments outside every format's range, and specials.
func extremes(k *eng.Case, emit func()) {
	for _, kind := range []ref.Kind{ref.Inf, ref.Zero} {
		k.Kind = uint8(kind)
		k.M.SetInt64(0)
		for _, p := range []uint{0, 1, 11, 53, 64, 113, 300} {
			for _, m := range []big.RoundingMode{big.ToNearestEven, big.ToNearestAway, big.ToZero, big.AwayFromZero, big.ToNegativeInf, big.ToPositiveInf} {
				k.Prec, k.Mode = p, m
				emitSigned(k, emit)
			}
		}
	}
	k.Kind = uint8(ref.Fin)
	var es []int
	for _, e := range []int{15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64, 127, 128, 129, 255, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 4096, 16382, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 49150, 49151, 49152, 65535, 65536, 98303, 131071, 1 << 20, 1 << 24, 1<<30 - 1, 1 << 30, 1<<31 - 20000, 1<<31 - 200, 1<<31 - 70} {
		for d := -2; d <= 2; d++ {
			es = append(es, e+d)
		}
		es = append(es, -e, -e-1, -e+1)
	}
	for _, e := range es {
		for _, m := range []int64{1, 3, 5, 0x7FF, 0x801, 0xFFF, 1<<53 - 1, 1<<62 + 1} {
			k.M.SetInt64(m)
			k.E = e - (k.M.BitLen() - 1)
			if k.E < -(1<<31)+100 {
				continue
			}
			for _, p := range precs {
				k.Prec, k.Mode = p.p, p.m
				emitSigned(k, emit)
			}
		}
	}
}

func selectedTops(f *ref.Format) []int {
	m := map[int]bool{}
	var l []int
	add := func(e int) {
		if !m[e] {
			m[e] = true
			l = append(l, e)
		}
	}
	for e := f.Emin - f.P - 2; e <= f.Emin+2; e++ {
		if f.P <= 64 || e <= f.Emin-f.P+3 || e >= f.Emin-4 || (f.Emin-e)%8 < 2 || (f.Emin-e)%64 >= 46 && (f.Emin-e)%64 <= 50 {
			add(e)
		}
	}
	for _, e := range []int{-1100, -1075, -1074, -1023, -1022, -150, -127, -126, -65, -64, -63, -54, -53, -1, 0, 1, 10, 11, 24, 52, 53, 62, 63, 64, 65, 111, 112, 113, 126, 127, 128, 1022, 1023, 1024, 8191, 8192} {
		if e < f.Emax && e > f.Emin {
			add(e)
		}
	}
	for e := f.Emax - 2; e <= f.Emax+2; e++ {
		add(e)
	}
	return l
}

// bigFamilies returns the argument families for a codec's encoder.
func bigFamilies(cd *codec.Codec, thorough bool, scale int) []bigFam {
	out := []bigFam{{"specials and extremes", "infinities and zeros at 7 precisions x 6 modes; 8 significands at exponents around every power of two up to 2^31, both signs, and a stale accuracy", 1, func(i int, k *eng.Case, emit func()) { extremes(k, emit) }}}
	ts := tails(tailLens)
	short := tails([]int{1, 2, 3, 53, 64})
	fin := func(k *eng.Case) { k.Kind = uint8(ref.Fin); k.Prec = 0; k.Mode = big.ToNearestEven }
	setKT := func(k *eng.Case, u fam.U, t tail, top, p int) {
		ref.SetU128(&k.M, u.Hi, u.Lo)
		k.E = top - (p - 1)
		if t.v != nil {
			k.M.Lsh(&k.M, uint(t.t))
			k.M.Or(&k.M, t.v)
			k.E -= t.t
		}
	}
	if cd == codec.Half {
		f := cd.F
		// every interval between neighbouring halves, subnormals and the
		// interval up to 2^16 included
		out = append(out, bigFam{"all half intervals", "every pair of neighbouring half magnitudes: the lower end, and points at 15 tail lengths x {1, half-1, half, half+1, ones-1, ones}", 0x7C00, func(i int, k *eng.Case, emit func()) {
			fin(k)
			exp, fr := i>>10, i&0x3FF
			q := f.Emin - 10
			sig := fr
			if exp > 0 {
				sig |= 0x400
				q += exp - 1
			}
			if sig > 0 {
				for _, p := range precs {
					k.Prec, k.Mode = p.p, p.m
					k.M.SetUint64(uint64(sig))
					k.E = q
					emitSigned(k, emit)
				}
				fin(k)
			}
			for j, t := range ts {
				k.M.SetUint64(uint64(sig))
				k.M.Lsh(&k.M, uint(t.t))
				k.M.Or(&k.M, t.v)
				k.E = q - t.t
				p := precs[(i+j)%len(precs)]
				k.Prec, k.Mode = p.p, p.m
				emitSigned(k, emit)
			}
		}})
	}
	out = append(out, longFamily(cd, thorough))
	out = append(out, bigMixed(cd, thorough, scale)...)
	if cd == codec.DD {
		return append(out, ddBigFamilies(thorough, scale)...)
	}
	f := cd.F
	lo, hi := f.Emin-f.P-3, f.Emax+3
	pats := append(fam.TransLead(f.P, 1), fam.TransLead(f.P+2, 1)...)
	np := len(fam.TransLead(f.P, 1))
	estep := 1
	if scale == 0 && !thorough && f.P > 11 {
		estep = 5
	}
	out = append(out, bigFam{"all exponents", fmt.Sprintf("every %d. exponent %d..%d; significands of %d and %d bits with <= 1 transition, both signs, and a stale accuracy", estep, lo, hi, f.P, f.P+2), (hi-lo)/estep + 1, func(i int, k *eng.Case, emit func()) {
		fin(k)
		i *= estep
		for j, u := range pats {
			n := f.P
			if j >= np {
				n += 2
			}
			setKT(k, u, tail{}, lo+i, n)
			p := precs[(i+j)%len(precs)]
			k.Prec, k.Mode = p.p, p.m
			k.Neg = (i+j)&1 == 1
			emit()
			if thorough {
				k.Neg = !k.Neg
				emit()
			}
			if (i+j)%3 == 0 {
				emitStale(k, emit)
			}
		}
		// rounding points one place below the last
		for j, t := range short {
			setKT(k, fam.Ones(f.P), t, lo+i, f.P)
			k.Neg = j&1 == 0
			emit()
			setKT(k, fam.Bit(f.P-1).Or(fam.Bit(j%7)), t, lo+i, f.P)
			emit()
		}
	}})
	tops := selectedTops(f)
	kp := append(fam.TransLead(f.P, 1), fam.Dense(f.P-1)...)
	for i := range kp {
		kp[i] = kp[i].Or(fam.Bit(f.P - 1))
	}
	out = append(out, bigFam{"selected exponents x rounding points", fmt.Sprintf("%d exponents (all subnormal boundaries, word boundaries, both range ends); %d kept significands x %d tails, both signs, and a stale accuracy", len(tops), len(kp), len(ts)), len(tops), func(i int, k *eng.Case, emit func()) {
		fin(k)
		for a, u := range kp {
			for j, t := range ts {
				setKT(k, u, t, tops[i], f.P)
				p := precs[(a+j)%len(precs)]
				k.Prec, k.Mode = p.p, p.m
				emitSigned(k, emit)
			}
		}
	}})
	k2 := fam.TransLead(f.P+4, 2)
	if f.P <= 11 {
		k2 = fam.TransLead(f.P+4, 20)
	}
	out = append(out, bigFam{"selected exponents x significands (2)", fmt.Sprintf("%d exponents; %d-bit significands with <= 2 transitions, both signs, and a stale accuracy", len(tops), f.P+4), len(tops), func(i int, k *eng.Case, emit func()) {
		fin(k)
		for _, u := range k2 {
			setKT(k, u, tail{}, tops[i], f.P+4)
			emitSigned(k, emit)
		}
	}})
	k3 := fam.TransLead(f.P, 3)
	few := []int{f.Emin - 1, f.Emin, -1, 0, f.Emax}
	chunks := 32
	out = append(out, bigFam{"few exponents x significands (3)", fmt.Sprintf("exponents %v; %d-bit significands with <= 3 transitions", few, f.P), len(few) * chunks, func(i int, k *eng.Case, emit func()) {
		fin(k)
		for j := i % chunks; j < len(k3); j += chunks {
			setKT(k, k3[j], tail{}, few[i/chunks], f.P)
			k.Neg = j&1 == 1
			emit()
		}
	}})
	nw := fam.NWindows(f.P-1, 16)
	wt := []int{f.Emin - 5, f.Emin, 0}
	out = append(out, bigFam{"16-bit windows", fmt.Sprintf("every value of each 16-bit window of the fraction over zeros and ones, exponents %v", wt), nw * len(wt), func(i int, k *eng.Case, emit func()) {
		fin(k)
		fam.Window(f.P-1, 16, i%nw, func(u fam.U) {
			setKT(k, u.Or(fam.Bit(f.P-1)), tail{}, wt[i/nw], f.P)
			emit()
		})
	}})
	if thorough && f.P > 11 {
		k2 := fam.TransLead(f.P+2, 2)
		step := 4
		if f.P > 64 {
			step = 16
		}
		out = append(out, bigFam{"exponents x significands (2)", fmt.Sprintf("every %d-th exponent; %d-bit significands with <= 2 transitions", step, f.P+2), (hi - lo) / step, func(i int, k *eng.Case, emit func()) {
			fin(k)
			for j, u := range k2 {
				setKT(k, u, tail{}, lo+i*step, f.P+2)
				k.Neg = (i+j)&1 == 1
				emit()
			}
		}})
	}
	return out
}

// longFamily: significands far longer than any format, decided by their last
// bits.
func longFamily(cd *codec.Codec, thorough bool) bigFam {
	lens := []int{130, 200, 300, 500, 513, 700, 1000, 1025, 1500, 2100, 2200, 4000, 4097, 5000, 9000, 17000, 34000, 66000}
	if thorough {
		lens = append(lens, 131, 192, 193, 256, 257, 384, 400, 600, 640, 768, 900, 1074, 1100, 1200, 2047, 2048, 2049, 3000, 6000, 8193, 10000, 12000, 16385, 20000, 32769, 65537, 100000, 131073, 250000, 1100000)
	}
	kept := []int{11, 24, 53, 64, 106, 107, 113}
	tops := []int{0, 1, -1, 77}
	if cd == codec.DD {
		tops = append(tops, -900, -969, -1022, -1074, -1075, 1023)
	} else {
		f := cd.F
		kept = []int{f.P, f.P - 3}
		tops = append(tops, f.Emax, f.Emin, f.Emin-1, f.Emin-f.P/2, f.Emin-f.P+1, f.Emin-f.P)
	}
	return bigFam{"long significands", fmt.Sprintf("lengths %v; %d exponents; kept bits %v (all ones, lead, alternating) followed by 0, half or ones, then by zeros or ones down to the last bit, and that +-1, both signs, and a stale accuracy", lens, len(tops), kept), len(lens), func(i int, k *eng.Case, emit func()) {
		k.Kind = uint8(ref.Fin)
		n := lens[i]
		one := big.NewInt(1)
		var m, t big.Int
		for a, top := range tops {
			for b, p := range kept {
				q := p
				if cd.F != nil && top < cd.F.Emin { // fewer bits are kept
					q = p - (cd.F.Emin - top)
				}
				for c := 0; c < 3; c++ {
					// the kept bits
					switch {
					case q <= 0:
						m.SetInt64(int64(1 + q)) // a lone lead bit below the last place
						if q < 0 {
							m.SetInt64(0)
						}
					case c == 0:
						m.Lsh(one, uint(q)).Sub(&m, one)
					case c == 1:
						m.Lsh(one, uint(q-1))
					default:
						m.Lsh(one, uint(q)).Div(&m, big.NewInt(3))
						m.SetBit(&m, q-1, 1)
					}
					sh := n - max(q, 0)
					if q <= 0 && c != 0 || m.Sign() == 0 {
						continue
					}
					if q <= 0 {
						sh = n - 1
					}
					for d := 0; d < 4; d++ {
						t.Lsh(&m, uint(sh))
						switch d {
						case 1: // half
							t.SetBit(&t, sh-1, 1)
						case 2: // ones
							t.Lsh(&m, uint(sh)).Add(&t, new(big.Int).Sub(new(big.Int).Lsh(one, uint(sh)), one))
						case 3: // just below half
							t.Add(&t, new(big.Int).Sub(new(big.Int).Lsh(one, uint(sh-1)), one))
						}
						for e := -1; e <= 1; e++ {
							k.M.Add(&t, big.NewInt(int64(e)))
							if k.M.Sign() <= 0 {
								continue
							}
							k.E = top - (n - 1)
							pm := precs[(i+a+b+c+d)%len(precs)]
							k.Prec, k.Mode = 0, pm.m
							if e == 0 {
								k.Prec = uint(n) // also when the low bits are zeros
							}
							emitSigned(k, emit)
						}
					}
				}
			}
		}
	}}
}

// ddBigFamilies: arguments for the double-double encoder.
func ddBigFamilies(thorough bool, scale int) []bigFam {
	fin := func(k *eng.Case) { k.Kind = uint8(ref.Fin); k.Prec = 0; k.Mode = big.ToNearestEven }
	var tops []int
	for e := -1130; e <= -1060; e++ {
		tops = append(tops, e)
	}
	tops = append(tops, -1024, -1023, -1022, -1021, -1020, -971, -970, -969, -968, -967, -966, -918, -917, -916, -915, -500, -106, -53, -1, 0, 1, 52, 53, 100, 105, 106, 107, 500, 915, 916, 970, 971, 1000, 1021, 1022, 1023, 1024, 1025)
	gaps := []int{0, 1, 2, 3, 10, 52, 53, 54, 100, 500, 1000, 1900}
	ts := append([]tail{{}}, tails([]int{1, 2, 53})...)
	var H, L []uint64
	for _, p := range ddPats {
		H = append(H, p|1<<52)
	}
	L = append(L, 1)
	for _, k := range []int{2, 3, 26, 52, 53} {
		L = append(L, fam.Ones(k).Lo)
	}
	L = append(L, 1<<52, 1<<52|1, 1<<52|1<<26, 1<<53-2, 0x15555555555555)
	var out []bigFam
	// every exponent, short patterns
	ns := []int{1, 2, 53, 54, 55, 106, 107, 108, 128}
	var pats []fam.U
	var plen []int
	for _, n := range ns {
		for _, u := range fam.TransLead(n, 1) {
			pats = append(pats, u)
			plen = append(plen, n)
		}
	}
	out = append(out, bigFam{"all exponents", fmt.Sprintf("every exponent -1130..1026; %d significands of %v bits with <= 1 transition", len(pats), ns), 2157, func(i int, k *eng.Case, emit func()) {
		fin(k)
		for j, u := range pats {
			ref.SetU128(&k.M, u.Hi, u.Lo)
			k.E = -1130 + i - (plen[j] - 1)
			p := precs[(i+j)%len(precs)]
			k.Prec, k.Mode = p.p, p.m
			emitSigned(k, emit)
		}
	}})
	out = append(out, bigFam{"high/gap/low", fmt.Sprintf("%d exponents x %d highs x %d gaps x %d lows (added and subtracted) x %d tails, both signs, and a stale accuracy", len(tops), len(H), len(gaps), len(L), len(ts)), len(tops) * len(gaps), func(i int, k *eng.Case, emit func()) {
		fin(k)
		top, g := tops[i/len(gaps)], gaps[i%len(gaps)]
		var lo big.Int
		for a, h := range H {
			for b, l := range L {
				for j, t := range ts {
					lo.SetUint64(l)
					if t.v != nil {
						lo.Lsh(&lo, uint(t.t))
						lo.Or(&lo, t.v)
					}
					for _, sub := range []bool{false, true} {
						k.M.SetUint64(h)
						k.M.Lsh(&k.M, uint(g+53+t.t))
						if sub {
							k.M.Sub(&k.M, &lo)
						} else {
							k.M.Add(&k.M, &lo)
						}
						k.E = top - 52 - (g + 53 + t.t)
						p := precs[(a+b+j)%len(precs)]
						k.Prec, k.Mode = p.p, p.m
						k.Neg = (a+b+j)&1 == 1
						emit()
						if thorough || scale >= 2 {
							k.Neg = !k.Neg
							emit()
						}
						if j == 0 {
							emitStale(k, emit)
						}
					}
				}
			}
		}
	}})
	few := []int{-1074, -1000, -970, -960, -1, 0, 1, 500, 1022, 1023}
	k2 := fam.TransLead(107, 2)
	k2b := fam.TransLead(112, 2)
	out = append(out, bigFam{"few exponents x significands (2)", fmt.Sprintf("exponents %v; 107- and 112-bit significands with <= 2 transitions, both signs, and a stale accuracy", few), len(few), func(i int, k *eng.Case, emit func()) {
		fin(k)
		for _, u := range k2 {
			ref.SetU128(&k.M, u.Hi, u.Lo)
			k.E = few[i] - 106
			emitSigned(k, emit)
		}
		for _, u := range k2b {
			ref.SetU128(&k.M, u.Hi, u.Lo)
			k.E = few[i] - 111
			emitSigned(k, emit)
		}
	}})
	if thorough {
		k3 := fam.TransLead(107, 3)
		f3 := []int{-1070, -970, 0, 1, 1023}
		ch := 64
		out = append(out, bigFam{"few exponents x significands (3)", fmt.Sprintf("exponents %v; 107-bit significands with <= 3 transitions", f3), len(f3) * ch, func(i int, k *eng.Case, emit func()) {
			fin(k)
			for j := i % ch; j < len(k3); j += ch {
				ref.SetU128(&k.M, k3[j].Hi, k3[j].Lo)
				k.E = f3[i/ch] - 106
				emitSigned(k, emit)
			}
		}})
	}
	return out
}

func exploreBig(r *eng.Run, op string, scale int, cs ...*codec.Codec) {
	for _, c := range cs {
		for _, g := range bigFamilies(c, r.Thorough(), scale) {
			r.Blocks(c.Name+": "+g.name, g.bound, g.n, func(w *eng.Worker, i int) {
				k := &eng.Case{Op: op, Fmt: c.Name}
				g.f(i, k, func() { w.Do(k) })
			})
		}
	}
}

// --- C11: conversions from float32 and float64 ------------------------------

func checkFromFloat(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	s := sc(w)
	w.R.States.Add(eng.Mix(c.B[1], uint64(len(c.Op))))
	w.Transitions += 2 // conversion, Bits
	var got codec.Bits
	var a big.Accuracy
	if c.Op == "from32" {
		codec.F32Val(math.Float32frombits(uint32(c.B[1])), &s.v)
		got, a = cd.From32(math.Float32frombits(uint32(c.B[1])))
	} else {
		codec.F64Val(math.Float64frombits(c.B[1]), &s.v)
		got, a = cd.From64(math.Float64frombits(c.B[1]))
	}
	w.R.Outcomes.Add(eng.Mix(got.Hi, got.Lo))
	if s.v.Kind == ref.NaN {
		any := cd.Decode(got, &s.w)
		if s.w.Kind != ref.NaN || s.w.Neg != s.v.Neg && !any || a != big.Exact {
			return &eng.Mismatch{What: "NaN not preserved", Got: bitsStr(got) + " " + a.String(), Want: s.v.String() + " Exact"}
		}
		return nil
	}
	want := cd.Encode(&s.v, &s.s, &s.t)
	if !sameEnc(cd, got, want) {
		return &eng.Mismatch{What: "conversion from float: not the nearest value", Got: bitsStr(got), Want: bitsStr(want)}
	}
	return nil
}

type fltFam struct {
	op, name, bound string
	n               int
	f               func(i int, emit func(b uint64))
}

// floatFamilies enumerates float64 and float32 bit patterns.
func floatFamilies(cd *codec.Codec, thorough bool) []fltFam {
	k64, k32 := 1, 2
	all32 := false
	if cd == codec.Half || cd == codec.DD {
		k64, k32 = 2, 3
	}
	if thorough {
		k64, k32 = 2, 3
		all32 = true
	}
	p64 := append(fam.TransList(52, k64), fam.Dense(52)...)
	p32 := append(fam.TransList(23, k32), fam.Dense(23)...)
	out := []fltFam{
		{"from64", "float64 exponents", fmt.Sprintf("every sign and exponent of float64 x fractions with <= %d transitions (NaNs included)", k64), 4096, func(i int, emit func(uint64)) {
			for _, u := range p64 {
				emit(uint64(i)<<52 | u.Lo)
			}
		}},
		{"from32", "float32 exponents", fmt.Sprintf("every sign and exponent of float32 x fractions with <= %d transitions (NaNs included)", k32), 512, func(i int, emit func(uint64)) {
			for _, u := range p32 {
				emit(uint64(i)<<23 | u.Lo)
			}
		}},
		{"from64", "float64 windows", "every value of each 13-bit fraction window over zeros and ones at 12 exponents", 12 * fam.NWindows(52, 13), func(i int, emit func(uint64)) {
			es := []uint64{0, 1, 0x3FF, 0x3FE, 0x400, 0x3F1, 0x3F0, 0x40E, 0x7FE, 0x7FF, 0x3E8, 0x40F}
			nw := fam.NWindows(52, 13)
			fam.Window(52, 13, i%nw, func(u fam.U) { emit(es[i/nw]<<52 | u.Lo) })
		}},
	}
	for _, c := range fam.Sizes(thorough, 0) {
		c := c
		exps := &fam.Spread{Lo: 0, Hi: 2047, Special: []int{0, 1, 2, 971, 1022 - 126, 1023 - 126, 1023 - 25, 1023 - 24, 1023 - 15, 1023 - 14, 1022, 1023, 1024, 1023 + 10, 1023 + 15, 1023 + 16, 1023 + 52, 1023 + 127, 2045, 2046, 2047}}
		bound := fmt.Sprintf("orthogonal array of strength %d over GF(%d): sign, exponent, middle, top and low byte of the fraction and runs at either end", c.T, c.Q)
		out = append(out, fltFam{"from64", fmt.Sprintf("float64 mixed, every %d of 7 choices", c.T), bound, c.Q, func(i int, emit func(uint64)) {
			fam.Cover(c.Q, c.T, 7, i, func(row int, lv []int) {
				emit(uint64(fam.Level(lv[0], c.Q, 2, row))<<63 | uint64(exps.At(lv[1], c.Q, row))<<52 | fam.Pattern(52, lv[2:], c.Q, row).Lo)
			})
		}})
		exps32 := &fam.Spread{Lo: 0, Hi: 255, Special: []int{0, 1, 2, 102, 103, 112, 113, 126, 127, 128, 142, 143, 150, 253, 254, 255}}
		out = append(out, fltFam{"from32", fmt.Sprintf("float32 mixed, every %d of 7 choices", c.T), bound, c.Q, func(i int, emit func(uint64)) {
			fam.Cover(c.Q, c.T, 7, i, func(row int, lv []int) {
				emit(uint64(fam.Level(lv[0], c.Q, 2, row))<<31 | uint64(exps32.At(lv[1], c.Q, row))<<23 | fam.Pattern(23, lv[2:], c.Q, row).Lo)
			})
		}})
	}
	if cd == codec.Half {
		out = append(out, fltFam{"from64", "half intervals", "every half interval at tails representable in float64", 0x7C00, func(i int, emit func(uint64)) {
			v := halfVal(i)
			nx := halfVal(i + 1)
			if i+1 == 0x7C00 {
				nx = 65536
			}
			mid := (v + nx) / 2
			for _, x := range []float64{v, math.Nextafter(v, 1e9), math.Nextafter(mid, 0), mid, math.Nextafter(mid, 1e9), math.Nextafter(nx, 0)} {
				emit(math.Float64bits(x))
				emit(math.Float64bits(-x))
			}
		}}, fltFam{"from32", "half intervals", "every half interval at tails representable in float32", 0x7C00, func(i int, emit func(uint64)) {
			v := float32(halfVal(i))
			nx := float32(halfVal(i + 1))
			if i+1 == 0x7C00 {
				nx = 65536
			}
			mid := (v + nx) / 2
			for _, x := range []float32{v, math.Nextafter32(v, 1e9), math.Nextafter32(mid, 0), mid, math.Nextafter32(mid, 1e9), math.Nextafter32(nx, 0)} {
				emit(f32bits(x))
				emit(f32bits(-x))
			}
		}})
	}
	if all32 && cd == codec.Half {
		out = append(out, fltFam{"from32", "all float32", "every float32", 1 << 16, func(i int, emit func(uint64)) {
			for j := uint64(0); j < 1<<16; j++ {
				emit(uint64(i)<<16 | j)
			}
		}})
	}
	return out
}

// halfVal is the magnitude of half encoding i, from the definition.
func halfVal(i int) float64 {
	e, f := i>>10, float64(i&0x3FF)
	if e == 0 {
		return math.Ldexp(f, -24)
	}
	return math.Ldexp(1024+f, e-25)
}

func exploreFloats(r *eng.Run, cs ...*codec.Codec) {
	for _, c := range cs {
		for _, g := range floatFamilies(c, r.Thorough()) {
			r.Blocks(c.Name+": "+g.name, g.bound, g.n, func(w *eng.Worker, i int) {
				k := &eng.Case{Op: g.op, Fmt: c.Name}
				g.f(i, func(b uint64) {
					k.B[1] = b
					w.Do(k)
				})
			})
		}
	}
}

// --- C12: narrowing to float32 and float64 ----------------------------------

func checkNarrow(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	s := sc(w)
	b := codec.Bits{Hi: c.B[0], Lo: c.B[1]}
	anySign := cd.Decode(b, &s.v)
	v := &s.v
	w.R.States.Add(eng.Mix(b.Hi, b.Lo))
	w.Transitions += 2
	x32, a32 := cd.F32(b)
	x64, a64 := cd.F64(b)
	w.R.Outcomes.Add(eng.Mix(math.Float64bits(x64), f32bits(x32), uint64(a32+1), uint64(a64+1)))
	if m := narrowOne(s, "Float64", ref.F64, v, anySign, math.Float64bits(x64), a64); m != nil {
		return m
	}
	return narrowOne(s, "Float32", ref.F32, v, anySign, f32bits(x32), a32)
}

func narrowOne(s *scratch, op string, f *ref.Format, v *ref.Val, anySign bool, got uint64, a big.Accuracy) *eng.Mismatch {
	f.Decode(codec.Bits{Lo: got}, &s.w)
	if v.Kind == ref.NaN {
		if s.w.Kind != ref.NaN || s.w.Neg != v.Neg && !anySign || a != big.Exact {
			return &eng.Mismatch{What: op + " of NaN", Got: fmt.Sprintf("%#x %v", got, a), Want: v.String() + " Exact"}
		}
		return nil
	}
	want := f.EncodeS(v, &s.s, &s.t).Lo
	if got != want && !(anySign && v.Kind == ref.Zero && s.w.Kind == ref.Zero) {
		return &eng.Mismatch{What: op + ": not the nearest value", Got: fmt.Sprintf("%#x", got), Want: fmt.Sprintf("%#x (value %v)", want, v)}
	}
	if wa := acc(ref.Cmp(&s.w, v)); a != wa {
		return &eng.Mismatch{What: op + ": accuracy", Got: a.String(), Want: wa.String() + " for " + v.String()}
	}
	return nil
}

// narrowFamilies targets the rounding boundaries of float64 and float32.
func narrowFamilies(cd *codec.Codec, thorough bool) []encFam {
	var out []encFam
	if cd == codec.Half {
		return nil
	}
	out = narrowMixed(cd, thorough, 1)
	tl := []int{1, 2, 3, 5, 11, 30, 50}
	for _, d := range []*ref.Format{ref.F64, ref.F32} {
		d := d
		kept := append(fam.TransLead(d.P, 1), fam.Bit(d.P-1).Or(fam.Bit(0)))
		lo, hi := d.Emin-d.P-2, d.Emax+2
		P := 113
		if cd.F != nil {
			P = cd.F.P
		} else {
			P = 106
		}
		out = append(out, encFam{d.Name + " rounding points", fmt.Sprintf("every exponent %d..%d; %d kept significands x tails filling the remaining %d bits", lo, hi, len(kept), P-d.P), hi - lo + 1, func(i int, emit func(codec.Bits)) {
			var v ref.Val
			top := lo + i
			// number of bits kept at this exponent
			keep := d.P
			if top < d.Emin {
				keep = d.P - (d.Emin - top)
			}
			if keep < 0 {
				keep = 0
			}
			t := P - keep
			var tv []fam.U
			half := fam.Bit(t - 1)
			tv = append(tv, fam.U{}, fam.Bit(0), half.Xor(fam.Ones(t)), half.Xor(fam.Ones(t)).Xor(fam.Bit(0)), half, half.Or(fam.Bit(0)), fam.Ones(t))
			for _, l := range tl {
				if l < t {
					tv = append(tv, half.Or(fam.Bit(t-1-l)), half.Xor(fam.Ones(t)).Xor(fam.Bit(t-1-l)))
				}
			}
			var m big.Int
			for a, k := range kept {
				kk := k
				if keep < d.P {
					kk = fam.U{Lo: k.Lo >> uint(d.P-keep)}
				}
				for j, u := range tv {
					ref.SetU128(&m, kk.Hi, kk.Lo)
					m.Lsh(&m, uint(t))
					var tt big.Int
					m.Or(&m, ref.SetU128(&tt, u.Hi, u.Lo))
					if m.Sign() == 0 {
						continue
					}
					v.SetFin((a+j)&1 == 1, &m, top-(P-1))
					if cd.F != nil {
						emit(cd.F.Encode(&v))
					} else {
						d := ref.EncodeDD(&v)
						emit(codec.Bits{Hi: d.Hi, Lo: d.Lo})
					}
				}
			}
		}})
	}
	return out
}

// --- C10: reported accuracy is truthful -------------------------------------

func checkAccuracy(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	s := sc(w)
	w.R.States.Add(eng.HashInt(&c.M, uint64(c.E), b2u(c.Neg), uint64(c.Kind), c.B[0], c.B[1]))
	cmp := func(what string, res, arg *ref.Val, a big.Accuracy) *eng.Mismatch {
		w.Transitions++
		w.R.Outcomes.Add(eng.Mix(uint64(a+1), b2u(arg.Neg), uint64(res.Kind), uint64(arg.Kind), uint64(c.Op[0]), uint64(len(c.Fmt))))
		if arg.Kind == ref.NaN || res.Kind == ref.NaN {
			if a != big.Exact {
				return &eng.Mismatch{What: what + ": accuracy of NaN", Got: a.String(), Want: "Exact"}
			}
			return nil
		}
		if want := acc(ref.Cmp(res, arg)); want != a {
			return &eng.Mismatch{What: what + ": reported accuracy", Got: fmt.Sprintf("%v for result %v", a, res), Want: fmt.Sprintf("%v (argument %v)", want, arg)}
		}
		return nil
	}
	switch c.Op {
	case "frombig":
		b, a := cd.FromBig(argBig(c))
		cd.Decode(b, &s.w)
		return cmp("NewFromBig", &s.w, argVal(c, &s.v), a)
	case "from32":
		x := math.Float32frombits(uint32(c.B[1]))
		b, a := cd.From32(x)
		codec.F32Val(x, &s.v)
		cd.Decode(b, &s.w)
		return cmp("NewFromFloat32", &s.w, &s.v, a)
	case "from64":
		x := math.Float64frombits(c.B[1])
		b, a := cd.From64(x)
		codec.F64Val(x, &s.v)
		cd.Decode(b, &s.w)
		return cmp("NewFromFloat64", &s.w, &s.v, a)
	default: // to
		b := codec.Bits{Hi: c.B[0], Lo: c.B[1]}
		cd.Decode(b, &s.v)
		x, a := cd.F64(b)
		codec.F64Val(x, &s.w)
		if m := cmp("Float64", &s.w, &s.v, a); m != nil {
			return m
		}
		y, a := cd.F32(b)
		codec.F32Val(y, &s.w)
		return cmp("Float32", &s.w, &s.v, a)
	}
}

func init() {
	for id, c := range map[string]*codec.Codec{"C06": codec.Half, "C07": codec.Quad, "C08": codec.X80, "C09": codec.DD} {
		c := c
		checks[id] = &check{checkFromBig, func(r *eng.Run) {
			r.Rule = "state = exact argument; transition = one NewFromBig call on the real code compared with integer-arithmetic rounding; trace = build argument, convert, read back the encoding"
			exploreBig(r, "frombig", 2, c)
		}}
	}
	checks["C10"] = &check{checkAccuracy, func(r *eng.Run) {
		r.Rule = "state = argument; transition = one conversion whose reported accuracy is compared with the sign of (result - argument)"
		exploreBig(r, "frombig", 1, codec.Enc...)
		exploreFloats(r, codec.Enc...)
		exploreEnc(r, "to", codec.Enc...)
		exploreNarrow(r, "to", codec.Enc...)
	}}
	checks["C11"] = &check{checkFromFloat, func(r *eng.Run) {
		r.Rule = "state = float32/float64 bit pattern; transition = one NewFromFloat32/64 call compared with integer-arithmetic rounding"
		exploreFloats(r, codec.Enc...)
	}}
	checks["C12"] = &check{checkNarrow, func(r *eng.Run) {
		r.Rule = "state = encoding; transitions = Float64 and Float32 on the real code, value and accuracy compared with integer-arithmetic rounding of the exact value"
		exploreNarrow(r, "narrow", codec.Enc...)
		exploreEnc(r, "narrow", codec.Enc...)
	}}
}

func exploreNarrow(r *eng.Run, op string, cs ...*codec.Codec) {
	for _, c := range cs {
		for _, g := range narrowFamilies(c, r.Thorough()) {
			r.Blocks(c.Name+": "+g.name, g.bound, g.n, func(w *eng.Worker, i int) {
				k := &eng.Case{Op: op, Fmt: c.Name}
				g.f(i, func(b codec.Bits) {
					k.B = [2]uint64{b.Hi, b.Lo}
					w.Do(k)
				})
			})
		}
	}
}
