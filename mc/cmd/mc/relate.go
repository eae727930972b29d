package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/mewmew/float/vmc/codec"
	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/fam"
	"github.com/mewmew/float/vmc/ref"
)

// --- C13: round trips ---------------------------------------------------------

func isCanon(cd *codec.Codec, b codec.Bits) bool {
	if cd.F == nil {
		return ref.CanonicalDD(ref.DD{Hi: b.Hi, Lo: b.Lo})
	}
	return cd.F.Canonical(b)
}

// wide reports whether every float64 is exactly representable.
func wide(cd *codec.Codec) bool { return cd != codec.Half && cd != codec.BFloat }

func checkRoundTrip(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	s := sc(w)
	switch c.Op {
	case "from32", "from64":
		return floatTrip(w, s, cd, c)
	}
	b := codec.Bits{Hi: c.B[0], Lo: c.B[1]}
	anySign := cd.Decode(b, &s.v)
	v := &s.v
	w.R.States.Add(eng.Mix(b.Hi, b.Lo, uint64(len(c.Fmt))))
	w.Transitions += 2
	x, nan := cd.Big(b)
	if nan {
		// NaN travels through float64 and float32 only
		return nanTrip(w, s, cd, b, anySign)
	}
	v2, a := cd.NewBig(x)
	b2 := codec.BitsOf(v2)
	cd.Decode(b2, &s.w)
	w.R.Outcomes.Add(eng.Mix(b2.Hi, b2.Lo))
	if isCanon(cd, b) && !anySign {
		if !sameEnc(cd, b2, b) {
			return &eng.Mismatch{What: "encoding changed by Big then NewFromBig", Got: bitsStr(b2), Want: bitsStr(b)}
		}
	} else if cd.F == nil && v.Kind == ref.Fin {
		// value preserved unless the leading double overflows
		h := ref.F64.EncodeS(v, &s.s, &s.t)
		ref.F64.Decode(h, &s.u)
		if s.u.Kind != ref.Inf && !ref.Same(&s.w, v) {
			return &eng.Mismatch{What: "value changed by Big then NewFromBig", Got: bitsStr(b2) + " " + s.w.String(), Want: v.String()}
		}
		if s.u.Kind == ref.Inf {
			v = &s.u
		}
	} else if !ref.Same(&s.w, v) && !(anySign && s.w.Kind == ref.Zero && v.Kind == ref.Zero) {
		return &eng.Mismatch{What: "value changed by Big then NewFromBig", Got: bitsStr(b2) + " " + s.w.String(), Want: v.String()}
	}
	if v != &s.u && a != big.Exact {
		return &eng.Mismatch{What: "round trip not reported Exact", Got: a.String(), Want: "Exact"}
	}
	// a second trip changes nothing
	w.Transitions += 2
	y, _ := v2.Big()
	b3, a := cd.FromBig(y)
	if b3 != b2 || a != big.Exact {
		return &eng.Mismatch{What: "second round trip is not the identity", Got: bitsStr(b3) + " " + a.String(), Want: bitsStr(b2) + " Exact"}
	}
	// formats contained in float64 or float32 survive the trip through them
	w.Transitions++
	f64, a64 := v2.Float64()
	if a64 == big.Exact {
		w.Transitions++
		if b4, a := cd.From64(f64); !sameEnc(cd, b4, b2) || a != big.Exact {
			return &eng.Mismatch{What: "encoding changed by exact Float64 then NewFromFloat64", Got: bitsStr(b4) + " " + a.String(), Want: bitsStr(b2) + " Exact"}
		}
	} else if cd == codec.Half {
		return &eng.Mismatch{What: "half to float64 not Exact", Got: a64.String(), Want: "Exact"}
	}
	w.Transitions++
	f32, a32 := v2.Float32()
	if a32 == big.Exact {
		w.Transitions++
		if b4, a := cd.From32(f32); !sameEnc(cd, b4, b2) || a != big.Exact {
			return &eng.Mismatch{What: "encoding changed by exact Float32 then NewFromFloat32", Got: bitsStr(b4) + " " + a.String(), Want: bitsStr(b2) + " Exact"}
		}
	} else if cd == codec.Half {
		return &eng.Mismatch{What: "half to float32 not Exact", Got: a32.String(), Want: "Exact"}
	}
	return nil
}

func nanTrip(w *eng.Worker, s *scratch, cd *codec.Codec, b codec.Bits, anySign bool) *eng.Mismatch {
	cd.Decode(b, &s.v)
	w.Transitions += 4
	f64, _ := cd.F64(b)
	b2, _ := cd.From64(f64)
	f32, _ := cd.F32(b)
	b3, _ := cd.From32(f32)
	for _, g := range []codec.Bits{b2, b3} {
		any := cd.Decode(g, &s.w)
		if s.w.Kind != ref.NaN || s.w.Neg != s.v.Neg && !anySign && !any {
			return &eng.Mismatch{What: "NaN not preserved through float", Got: bitsStr(g), Want: s.v.String()}
		}
	}
	return nil
}

func floatTrip(w *eng.Worker, s *scratch, cd *codec.Codec, c *eng.Case) *eng.Mismatch {
	w.R.States.Add(eng.Mix(c.B[1], uint64(c.Op[4])))
	w.Transitions += 2
	if c.Op == "from32" {
		x := math.Float32frombits(uint32(c.B[1]))
		v, _ := cd.New32(x)
		b := codec.BitsOf(v)
		y, a := v.Float32()
		if !wide(cd) {
			b2, a2 := cd.From32(y)
			w.Transitions++
			if x == x && (b2 != b || a != big.Exact || a2 != big.Exact) {
				return &eng.Mismatch{What: "half changed by Float32 then NewFromFloat32", Got: bitsStr(b2), Want: bitsStr(b)}
			}
			return nil
		}
		if x != x {
			if y == y || math.Signbit(float64(x)) != math.Signbit(float64(y)) {
				return &eng.Mismatch{What: "NaN not preserved", Got: fmt.Sprint(f32bits(y)), Want: "NaN of the same sign"}
			}
			return nil
		}
		if math.Float32bits(y) != math.Float32bits(x) || a != big.Exact {
			return &eng.Mismatch{What: "float32 changed by the trip through a wider format", Got: fmt.Sprintf("%#x %v", f32bits(y), a), Want: fmt.Sprintf("%#x Exact", f32bits(x))}
		}
		return nil
	}
	x := math.Float64frombits(c.B[1])
	v, _ := cd.New64(x)
	b := codec.BitsOf(v)
	y, a := v.Float64()
	if !wide(cd) {
		b2, a2 := cd.From64(y)
		w.Transitions++
		if x == x && (b2 != b || a != big.Exact || a2 != big.Exact) {
			return &eng.Mismatch{What: "half changed by Float64 then NewFromFloat64", Got: bitsStr(b2), Want: bitsStr(b)}
		}
		return nil
	}
	if x != x {
		if y == y || math.Signbit(x) != math.Signbit(y) {
			return &eng.Mismatch{What: "NaN not preserved", Got: fmt.Sprint(math.Float64bits(y)), Want: "NaN of the same sign"}
		}
		return nil
	}
	if math.Float64bits(y) != math.Float64bits(x) || a != big.Exact {
		return &eng.Mismatch{What: "float64 changed by the trip through a wider format", Got: fmt.Sprintf("%#x %v", math.Float64bits(y), a), Want: fmt.Sprintf("%#x Exact", math.Float64bits(x))}
	}
	return nil
}

// --- C14: published special values ---------------------------------------------

var constNames = []string{"NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero"}

func constWant(n string) *ref.Val {
	v := &ref.Val{}
	switch n {
	case "NaN", "NegNaN":
		v.Kind = ref.NaN
	case "Inf", "NegInf":
		v.Kind = ref.Inf
	default:
		v.Kind = ref.Zero
	}
	v.Neg = len(n) > 4 && n[:3] == "Neg"
	return v
}

// checkConst: the constant named c.S of format c.Fmt, and its conversion to
// format number c.N via the medium c.Op.
func checkConst(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	k := codec.Published(cd)[c.S]
	b := codec.BitsOf(k)
	want := constWant(c.S)
	w.R.States.Add(eng.Mix(b.Hi, b.Lo, eng.HashString(c.Fmt+c.Op), uint64(c.N)))
	var v ref.Val
	bad := func(what string, got any) *eng.Mismatch {
		return &eng.Mismatch{What: c.Fmt + "." + c.S + ": " + what, Got: fmt.Sprint(got), Want: want.String()}
	}
	cd.Decode(b, &v)
	w.Transitions++
	if v.Kind != want.Kind || v.Neg != want.Neg {
		return bad("published encoding", bitsStr(b))
	}
	if !isCanon(cd, b) && v.Kind != ref.NaN {
		return bad("published encoding is not canonical", bitsStr(b))
	}
	w.R.Outcomes.Add(eng.Mix(b.Hi, b.Lo))
	var d codec.Bits
	var a big.Accuracy
	to := codec.Enc[c.N]
	switch c.Op {
	case "accessors":
		f := codec.FieldsOf(k)
		if cd.F == nil {
			if f[0] != b2u(want.Kind == ref.NaN) {
				return bad("IsNaN", f[0] == 1)
			}
		} else {
			if f[0] != b2u(want.Neg) {
				return bad("Signbit", f[0] == 1)
			}
			if g := codec.FieldsOf(cd.NewBits(b)); f != g {
				return bad("accessors", fmt.Sprint(f, " but of its bits ", g))
			}
		}
		w.Transitions++
		return nil
	case "big":
		x, nan := k.Big()
		w.Transitions++
		if nan != (want.Kind == ref.NaN) || x.Signbit() != want.Neg || x.IsInf() != (want.Kind == ref.Inf) || want.Kind != ref.Inf && x.Sign() != 0 {
			return bad("Big", fmt.Sprint(x, nan))
		}
		if nan {
			return nil
		}
		d, a = to.FromBig(x)
	case "float64":
		x, _ := k.Float64()
		w.Transitions++
		codec.F64Val(x, &v)
		if v.Kind != want.Kind || v.Neg != want.Neg {
			return bad("Float64", x)
		}
		d, a = to.From64(x)
	case "float32":
		x, _ := k.Float32()
		w.Transitions++
		codec.F32Val(x, &v)
		if v.Kind != want.Kind || v.Neg != want.Neg {
			return bad("Float32", x)
		}
		d, a = to.From32(x)
	}
	w.Transitions++
	// every way of producing the special value in format `to` yields the
	// published constant of that format
	if e := codec.Constants(to)[c.S]; d != e || a != big.Exact {
		return &eng.Mismatch{What: c.Fmt + "." + c.S + " converted to " + to.Name + " via " + c.Op, Got: bitsStr(d) + " " + a.String(), Want: bitsStr(e) + " Exact"}
	}
	return nil
}

func exploreConst(r *eng.Run, op string) {
	r.Rule = "state = (constant, medium, target format); transitions = publishing, accessors, and conversion of the constant compared with its name's meaning and with the target's published constant"
	r.Blocks("special values x media x target formats", "6 constants x 4 formats x {accessors, Big, Float64, Float32} x 4 targets", len(constNames), func(w *eng.Worker, i int) {
		for _, cd := range codec.Enc {
			for _, m := range []string{"accessors", "big", "float64", "float32"} {
				for n := range codec.Enc {
					w.Do(&eng.Case{Op: m, Fmt: cd.Name, S: constNames[i], N: n})
				}
			}
		}
	})
}

// --- C15: totality ---------------------------------------------------------------

// checkTotal only requires every call to return.
func checkTotal(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	switch c.Op {
	case "frombig":
		x := argBig(c)
		w.R.States.Add(eng.HashInt(&c.M, uint64(c.E), b2u(c.Neg), uint64(c.Kind), uint64(c.Prec)))
		w.Transitions++
		b, a := cd.FromBig(x)
		if cd.Ident != nil && cd.Ident(b) != b || a < big.Below || a > big.Above {
			return &eng.Mismatch{What: "unusable result", Got: bitsStr(b), Want: "a result"}
		}
		w.R.Outcomes.Add(eng.Mix(b.Hi, b.Lo))
		cd.Big(b)
		w.Transitions++
	case "from32":
		w.R.States.Add(eng.Mix(c.B[1], 32))
		b, _ := cd.From32(math.Float32frombits(uint32(c.B[1])))
		w.Transitions++
		w.R.Outcomes.Add(eng.Mix(b.Hi, b.Lo))
	case "from64":
		w.R.States.Add(eng.Mix(c.B[1], 64))
		b, _ := cd.From64(math.Float64frombits(c.B[1]))
		w.Transitions++
		w.R.Outcomes.Add(eng.Mix(b.Hi, b.Lo))
	default:
		b := codec.Bits{Hi: c.B[0], Lo: c.B[1]}
		w.R.States.Add(eng.Mix(b.Hi, b.Lo, uint64(len(c.Fmt))))
		x, nan := cd.Big(b)
		if x == nil {
			return &eng.Mismatch{What: "Big returned nil", Got: "nil", Want: "a number"}
		}
		w.Transitions++
		if cd.F != nil {
			cd.Sign(b)
			cd.Exp(b)
			cd.Frac(b)
			w.Transitions += 3
		}
		if cd.F32 == nil {
			return nil
		}
		cd.F32(b)
		cd.F64(b)
		w.Transitions += 2
		if !nan { // a decoded value can be encoded in every format
			for _, to := range codec.Enc {
				to.FromBig(x)
				w.Transitions++
			}
		}
	}
	return nil
}

// --- C24: order and sign symmetry -------------------------------------------------

// next returns the encoding of the next larger magnitude (canonical encodings).
func next(cd *codec.Codec, b codec.Bits) (codec.Bits, bool) {
	switch cd {
	case codec.X80:
		if b.Lo == 1<<64-1 {
			b = codec.Bits{Hi: b.Hi + 1, Lo: 1 << 63}
		} else {
			b.Lo++
			if b.Hi&0x7FFF == 0 && b.Lo == 1<<63 {
				b.Hi++
			}
		}
		return b, b.Hi&0x7FFF != 0x7FFF || b.Lo == 1<<63
	case codec.Quad:
		b.Lo++
		if b.Lo == 0 {
			b.Hi++
		}
		return b, b.Hi&(1<<63-1) <= 0x7FFF<<48 && (b.Hi&(1<<63-1) < 0x7FFF<<48 || b.Lo == 0)
	default:
		b.Lo++
		m := uint64(0x7C00)
		if cd == codec.BFloat {
			m = 0x7F80
		}
		return b, b.Lo&0x7FFF <= m && b.Lo&0x7FFF != 0
	}
}

func flip(cd *codec.Codec, b codec.Bits) codec.Bits {
	switch cd {
	case codec.X80:
		b.Hi ^= 0x8000
	case codec.Quad:
		b.Hi ^= 1 << 63
	case codec.DD:
		b.Hi ^= 1 << 63
		b.Lo ^= 1 << 63
	default:
		b.Lo ^= 0x8000
	}
	return b
}

func checkOrder(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	s := sc(w)
	if c.Op == "frombig" {
		return checkBigOrder(w, s, cd, c)
	}
	if c.Op != "order" {
		return checkFloatOrder(w, cd, c)
	}
	b := codec.Bits{Hi: c.B[0], Lo: c.B[1]}
	w.R.States.Add(eng.Mix(b.Hi, b.Lo, uint64(len(c.Fmt))))
	x, nan := cd.Big(b)
	fb := flip(cd, b)
	y, nan2 := cd.Big(fb)
	w.Transitions += 2
	if nan != nan2 {
		return &eng.Mismatch{What: "NaN depends on the sign", Got: fmt.Sprint(nan, nan2), Want: "both or none"}
	}
	if nan {
		return nil
	}
	w.R.Outcomes.Add(eng.Mix(uint64(x.MantExp(nil)), b2u(x.Signbit())))
	zero := x.Sign() == 0
	if !(zero && cd.F == nil) && x.Signbit() == y.Signbit() || x.Cmp(s.x.SetPrec(0).Neg(y)) != 0 {
		return &eng.Mismatch{What: "flipping the sign does not negate the value", Got: bigStr(y), Want: "-" + bigStr(x)}
	}
	var f, f2 float64
	if cd.F64 != nil {
		g, fa := f, big.Exact
		f, fa = cd.F64(b)
		g, ga := cd.F64(fb)
		h, ha := cd.F32(b)
		k, ka := cd.F32(fb)
		f2 = float64(h)
		w.Transitions += 4
		if f != -g || !zero && math.Signbit(f) == math.Signbit(g) || !zero && fa != -ga {
			return &eng.Mismatch{What: "Float64 is not symmetric", Got: fmt.Sprint(g, ga), Want: fmt.Sprint(-f, -fa)}
		}
		if h != -k || !zero && math.Signbit(f2) == math.Signbit(float64(k)) || !zero && ha != -ka {
			return &eng.Mismatch{What: "Float32 is not symmetric", Got: fmt.Sprint(k, ka), Want: fmt.Sprint(-h, -ha)}
		}
	}
	if cd.F == nil || !cd.F.Canonical(b) {
		return nil
	}
	n, ok := next(cd, b)
	if !ok {
		return nil
	}
	z, nan := cd.Big(n)
	w.Transitions++
	if nan {
		return &eng.Mismatch{What: "successor of a finite number is NaN", Got: bitsStr(n), Want: "a number"}
	}
	want := 1
	if b2 := cd.Sign(b); b2 {
		want = -1
	}
	if z.Cmp(x) != want {
		return &eng.Mismatch{What: "encoding order does not match value order", Got: bigStr(z) + " for " + bitsStr(n), Want: "farther from zero than " + bigStr(x)}
	}
	if cd.F64 != nil {
		h, _ := cd.F64(n)
		w.Transitions++
		if want == 1 && h < f || want == -1 && h > f {
			return &eng.Mismatch{What: "Float64 is not monotone", Got: fmt.Sprint(h), Want: fmt.Sprint("beyond ", f)}
		}
		k, _ := cd.F32(n)
		w.Transitions++
		if k2 := float64(k); want == 1 && k2 < f2 || want == -1 && k2 > f2 {
			return &eng.Mismatch{What: "Float32 is not monotone", Got: fmt.Sprint(k), Want: fmt.Sprint("beyond ", f2)}
		}
	}
	return nil
}

// encKey orders encodings by value.
func encLess(cd *codec.Codec, a, b codec.Bits) bool {
	if cd.F == nil {
		ah, bh := math.Float64frombits(a.Hi), math.Float64frombits(b.Hi)
		if ah != bh {
			return ah < bh
		}
		return math.Float64frombits(a.Lo) < math.Float64frombits(b.Lo)
	}
	an, ae, ah, al := cd.F.Split(a)
	bn, be, bh, bl := cd.F.Split(b)
	zero := func(e int, h, l uint64) bool { return e == 0 && h == 0 && l == 0 }
	if zero(ae, ah, al) && zero(be, bh, bl) {
		return false
	}
	if an != bn {
		return an
	}
	less := ae < be || ae == be && (ah < bh || ah == bh && al < bl)
	eq := ae == be && ah == bh && al == bl
	if an {
		return !less && !eq
	}
	return less
}

// checkBigOrder: x, -x and the next larger magnitude with the same number of
// bits (or one unit in a guard place) are encoded in order.
func checkBigOrder(w *eng.Worker, s *scratch, cd *codec.Codec, c *eng.Case) *eng.Mismatch {
	if c.Kind != uint8(ref.Fin) {
		return nil
	}
	w.R.States.Add(eng.HashInt(&c.M, uint64(c.E), b2u(c.Neg), uint64(len(c.Fmt))))
	x := argBig(c)
	b, a := cd.FromBig(x)
	nb, na := cd.FromBig(s.x.SetPrec(0).SetMode(big.ToNearestEven).Neg(x))
	w.Transitions += 2
	w.R.Outcomes.Add(eng.Mix(b.Hi, b.Lo))
	if f := flip(cd, nb); !sameEnc(cd, b, f) && !(cd.F == nil && sameEnc(cd, b, codec.Bits{Hi: nb.Hi ^ 1<<63, Lo: nb.Lo})) || a != -na {
		return &eng.Mismatch{What: "negating the argument does not negate the result", Got: bitsStr(nb) + " " + na.String(), Want: "mirror of " + bitsStr(b) + " " + a.String()}
	}
	for _, g := range []int{0, 1, 12, 54, 66, 115} {
		k := *c
		k.M = big.Int{}
		k.M.Lsh(&c.M, uint(g))
		k.M.Add(&k.M, big.NewInt(1))
		k.E -= g
		k.Prec = 0
		y := argBig(&k)
		if y.IsInf() {
			continue
		}
		b2, _ := cd.FromBig(y)
		w.Transitions++
		if !c.Neg && encLess(cd, b2, b) || c.Neg && encLess(cd, b, b2) {
			return &eng.Mismatch{What: "encoding is not monotone", Got: fmt.Sprintf("%s for the argument one unit of 2^%d farther from zero", bitsStr(b2), k.E), Want: "not nearer to zero than " + bitsStr(b)}
		}
	}
	return nil
}

func checkFloatOrder(w *eng.Worker, cd *codec.Codec, c *eng.Case) *eng.Mismatch {
	w.R.States.Add(eng.Mix(c.B[1], uint64(c.Op[4])))
	var b, b2, nb codec.Bits
	var a, na big.Accuracy
	neg := false
	w.Transitions += 3
	if c.Op == "from32" {
		x := math.Float32frombits(uint32(c.B[1]))
		y := math.Float32frombits(uint32(c.B[1]) + 1)
		if x != x || y != y || f32bits(x)&0x7FFFFFFF == 0x7FFFFFFF {
			return nil
		}
		neg = math.Signbit(float64(x))
		b, a = cd.From32(x)
		b2, _ = cd.From32(y)
		nb, na = cd.From32(-x)
	} else {
		x := math.Float64frombits(c.B[1])
		y := math.Float64frombits(c.B[1] + 1)
		if x != x || y != y {
			return nil
		}
		neg = math.Signbit(x)
		b, a = cd.From64(x)
		b2, _ = cd.From64(y)
		nb, na = cd.From64(-x)
	}
	w.R.Outcomes.Add(eng.Mix(b.Hi, b.Lo))
	if f := flip(cd, nb); !sameEnc(cd, b, f) && !(cd.F == nil && sameEnc(cd, b, codec.Bits{Hi: nb.Hi ^ 1<<63, Lo: nb.Lo})) || a != -na {
		return &eng.Mismatch{What: "negating the argument does not negate the result", Got: bitsStr(nb) + " " + na.String(), Want: "mirror of " + bitsStr(b) + " " + a.String()}
	}
	if !neg && encLess(cd, b2, b) || neg && encLess(cd, b, b2) {
		return &eng.Mismatch{What: "conversion is not monotone", Got: bitsStr(b2), Want: "not nearer to zero than " + bitsStr(b)}
	}
	return nil
}

// --- C23: the graph of conversions --------------------------------------------------

// A node is an encoding in one of six formats: the four encodable formats,
// float32 and float64. Edges are all conversions the library offers between
// them, directly or through a big float.
type node struct {
	f uint8 // 0..3 codec.Enc, 4 float32, 5 float64
	b codec.Bits
}

func nodeFmtName(f uint8) string {
	switch f {
	case 4:
		return "float32"
	case 5:
		return "float64"
	}
	return codec.Enc[f].Name
}

func decodeNode(n node, v *ref.Val) bool {
	switch n.f {
	case 4:
		ref.F32.Decode(n.b, v)
		return false
	case 5:
		ref.F64.Decode(n.b, v)
		return false
	}
	return codec.Enc[n.f].Decode(n.b, v)
}

// edge applies conversion e (0..5: to that format by the most direct method)
// to the value v of node n.
func edge(n node, v codec.Value, to uint8) (m node, mv codec.Value, a big.Accuracy, ok bool) {
	m.f = to
	if n.f < 4 {
		switch {
		case to == 4:
			x, a := v.Float32()
			m.b.Lo = f32bits(x)
			return m, nil, a, true
		case to == 5:
			x, a := v.Float64()
			m.b.Lo = math.Float64bits(x)
			return m, nil, a, true
		}
		x, nan := v.Big()
		if nan {
			return m, nil, 0, false
		}
		mv, a = codec.Enc[to].NewBig(x)
	} else if to >= 4 {
		return m, nil, 0, false
	} else if n.f == 4 {
		mv, a = codec.Enc[to].New32(math.Float32frombits(uint32(n.b.Lo)))
	} else {
		mv, a = codec.Enc[to].New64(math.Float64frombits(n.b.Lo))
	}
	m.b = codec.BitsOf(mv)
	return m, mv, a, true
}

// checkGraph explores every conversion sequence from one initial encoding to
// closure.
func checkGraph(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	s := sc(w)
	start := node{uint8(c.N), codec.Bits{Hi: c.B[0], Lo: c.B[1]}}
	var q []node
	var live []codec.Value // the values the conversions returned
	var from []int
	seen := func(n node) bool {
		for _, m := range q {
			if m == n {
				return true
			}
		}
		return false
	}
	q, live, from = append(q, start), append(live, nil), append(from, -1)
	if start.f < 4 {
		live[0] = codec.Enc[start.f].NewBits(start.b)
	}
	path := func(i int) string {
		p := ""
		for ; i >= 0; i = from[i] {
			p = fmt.Sprintf(" -> %s %s", nodeFmtName(q[i].f), bitsStr(q[i].b)) + p
		}
		return p[4:]
	}
	for i := 0; i < len(q); i++ {
		n := q[i]
		w.R.States.Add(eng.Mix(uint64(n.f), n.b.Hi, n.b.Lo))
		anySign := decodeNode(n, &s.v)
		for to := uint8(0); to < 6; to++ {
			m, mv, a, ok := edge(n, live[i], to)
			if !ok {
				continue
			}
			w.Transitions++
			any2 := decodeNode(m, &s.w)
			if s.v.Kind == ref.NaN {
				if s.w.Kind != ref.NaN || s.w.Neg != s.v.Neg && !anySign && !any2 || a != big.Exact {
					return &eng.Mismatch{What: "conversion sequence loses NaN", Got: path(i) + fmt.Sprintf(" -> %s %s %v", nodeFmtName(to), bitsStr(m.b), a), Want: s.v.String()}
				}
			} else {
				var want codec.Bits
				good := false
				switch to {
				case 4:
					want = ref.F32.EncodeS(&s.v, &s.s, &s.t)
					good = m.b == want
				case 5:
					want = ref.F64.EncodeS(&s.v, &s.s, &s.t)
					good = m.b == want
				default:
					want = codec.Enc[to].Encode(&s.v, &s.s, &s.t)
					good = sameEnc(codec.Enc[to], m.b, want)
				}
				if !good && anySign && s.v.Kind == ref.Zero && s.w.Kind == ref.Zero {
					good = true
				}
				if !good || a != acc(ref.Cmp(&s.w, &s.v)) {
					return &eng.Mismatch{What: "conversion sequence", Got: path(i) + fmt.Sprintf(" -> %s %s %v", nodeFmtName(to), bitsStr(m.b), a), Want: fmt.Sprintf("%s %v", bitsStr(want), acc(ref.Cmp(&s.w, &s.v)))}
				}
			}
			if !seen(m) {
				q, live, from = append(q, m), append(live, mv), append(from, i)
				if len(q) > 400 {
					return &eng.Mismatch{What: "conversions do not settle", Got: path(len(q) - 1), Want: "a finite set of reachable encodings"}
				}
			}
		}
	}
	w.R.Outcomes.Add(uint64(len(q)))
	return nil
}

func exploreGraph(r *eng.Run) {
	r.Rule = "state = (format, encoding) over 6 formats; transition = one conversion (direct or through a big float) compared with the model; trace = breadth-first search from one initial encoding until no new state is reachable"
	for ci, c := range codec.Enc {
		n := ci
		var bs []codec.Bits
		f := c.F
		if c == codec.Half {
			r.Blocks("graph from "+c.Name, "every encoding", 256, func(w *eng.Worker, i int) {
				for j := 0; j < 256; j++ {
					w.Do(&eng.Case{Op: "graph", Fmt: c.Name, N: n, B: [2]uint64{0, uint64(i<<8 | j)}})
				}
			})
			continue
		}
		if f == nil {
			for i, u := range ddPats {
				for _, he := range []int{0, 1, 52, 53, 54, 900, 1000, 1008, 1009, 1023, 1024, 1038, 1039, 1150, 1151, 1500, 2045, 2046, 2047} {
					for _, g := range []int{0, 1, 52, 53, 54, 60, 105, 106, 107, 300, -1, -30, -54, he - 2047, he - 2046, he} {
						for j, l := range ddPats {
							if he-g < 0 || he-g > 2047 {
								continue
							}
							sg := uint64(i+j) & 1
							bs = append(bs, codec.Bits{Hi: sg<<63 | uint64(he)<<52 | u, Lo: uint64(j)&1<<63 | uint64(he-g)<<52 | l})
						}
					}
				}
			}
		} else {
			fb := f.P - 1
			exps := boundaryExps(f)
			for _, d := range []int{-25, -24, -23, -15, -14, -13, 14, 15, 16, 17, 100} {
				exps = append(exps, f.Emax+d)
			}
			pats := append(fam.TransList(fb, 1), fam.Dense(fb)...)
			for _, k := range []int{24, 25, 53, 54, 11, 12} { // rounding points of the narrower formats
				half := fam.Bit(fb - k)
				pats = append(pats, half, half.Or(fam.Bit(0)), half.Or(fam.Bit(fb-k+1)), half.Or(fam.Bit(fb-k+1)).Or(fam.Bit(0)), fam.Ones(fb-k), fam.Ones(fb-k).Or(fam.Bit(fb-k+1)))
			}
			for _, e := range exps {
				for i, u := range pats {
					if f.Explicit && i%8 != 0 {
						u = u.Or(fam.Bit(63))
					} else if f.Explicit && i%16 == 0 {
						u.Lo &^= 1 << 63
					}
					bs = append(bs, f.Pack(i&1 == 1, e, u.Hi, u.Lo))
				}
				if f.Explicit {
					for i, u := range pats {
						bs = append(bs, f.Pack(i&1 == 0, e, 0, u.Lo>>1|1<<63))
					}
				}
			}
		}
		const per = 64
		r.Blocks("graph from "+c.Name, fmt.Sprintf("%d initial encodings", len(bs)), (len(bs)+per-1)/per, func(w *eng.Worker, i int) {
			for j := i * per; j < (i+1)*per && j < len(bs); j++ {
				w.Do(&eng.Case{Op: "graph", Fmt: c.Name, N: n, B: [2]uint64{bs[j].Hi, bs[j].Lo}})
			}
		})
	}
	// float32 and float64 as initial states
	for _, fl := range []*ref.Format{ref.F32, ref.F64} {
		n := 4
		if fl == ref.F64 {
			n = 5
		}
		fb := fl.P - 1
		pats := append(fam.TransList(fb, 1), fam.Dense(fb)...)
		for _, k := range []int{11, 24} {
			if k < fb {
				half := fam.Bit(fb - k)
				pats = append(pats, half, half.Or(fam.Bit(0)), half.Or(fam.Bit(fb-k+1)), half.Or(fam.Bit(fb-k+1)).Or(fam.Bit(0)))
			}
		}
		r.Blocks("graph from "+fl.Name, fmt.Sprintf("every sign and exponent x %d fractions", len(pats)), 1<<uint(fl.ExpBits), func(w *eng.Worker, i int) {
			for j, u := range pats {
				w.Do(&eng.Case{Op: "graph", Fmt: fl.Name, N: n, B: [2]uint64{0, fl.Pack(j&1 == 1, i, 0, u.Lo).Lo}})
				w.Do(&eng.Case{Op: "graph", Fmt: fl.Name, N: n, B: [2]uint64{0, fl.Pack(j&1 == 0, i, 0, u.Lo).Lo}})
			}
		})
	}
}

func init() {
	checks["C13"] = &check{checkRoundTrip, func(r *eng.Run) {
		r.Rule = "state = encoding or float; trace = chain of conversions that must come back to it; transitions = API calls of the chain"
		exploreEncScale(r, 0, "trip", codec.Enc...)
		exploreFloats(r, codec.Enc...)
	}}
	checks["C14"] = &check{checkConst, func(r *eng.Run) { exploreConst(r, "const") }}
	checks["C15"] = &check{checkTotal, func(r *eng.Run) {
		r.Rule = "state = input; transitions = every operation of the API on it; the only failures are a panic, a nil result or no return within 150 s"
		exploreEncScale(r, 0, "all", codec.All...)
		exploreBig(r, "frombig", 0, codec.Enc...)
		exploreFloats(r, codec.Enc...)
	}}
	checks["C23"] = &check{checkGraph, exploreGraph}
	checks["C24"] = &check{checkOrder, func(r *eng.Run) {
		r.Rule = "state = encoding, float or big float; transitions = its conversion, that of its negation and that of its successor; relational oracle (order, mirror image) without a reference model"
		exploreEncScale(r, 0, "order", codec.All...)
		exploreBig(r, "frombig", 0, codec.Enc...)
		exploreFloats(r, codec.Enc...)
	}}
}
