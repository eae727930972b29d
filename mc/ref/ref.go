// Package ref is the reference model: exact dyadic numbers and IEEE-style
// binary interchange formats, written directly from the format definitions
// with integer arithmetic only. It shares no code with mewmew/float and never
// uses the rounding machinery of math/big.Float.
package ref

import (
	"fmt"
	"math/big"
	"math/bits"
)

// Kind classifies a value.
type Kind uint8

// Kinds of value.
const (
	Zero Kind = iota
	Fin
	Inf
	NaN
)

func (k Kind) String() string { return [...]string{"zero", "finite", "inf", "nan"}[k] }

// Val is a signed exact value: for Fin, (-1)^Neg * M * 2^E with M > 0.
type Val struct {
	Kind Kind
	Neg  bool
	M    big.Int
	E    int
}

func (v *Val) String() string {
	s := "+"
	if v.Neg {
		s = "-"
	}
	if v.Kind == Fin {
		return fmt.Sprintf("%s0x%xp%d", s, &v.M, v.E)
	}
	return s + v.Kind.String()
}

// Set copies w into v.
func (v *Val) Set(w *Val) { v.Kind, v.Neg, v.E = w.Kind, w.Neg, w.E; v.M.Set(&w.M) }

// SetFin sets v to (-1)^neg * m * 2^e; m may be zero.
func (v *Val) SetFin(neg bool, m *big.Int, e int) *Val {
	v.Kind, v.Neg, v.E = Fin, neg, e
	v.M.Set(m)
	if m.Sign() == 0 {
		v.Kind = Zero
	}
	return v
}

// SetU sets v to (-1)^neg * (hi:lo) * 2^e.
func (v *Val) SetU(neg bool, hi, lo uint64, e int) *Val {
	v.Kind, v.Neg, v.E = Fin, neg, e
	if hi == 0 {
		v.M.SetUint64(lo)
		if lo == 0 {
			v.Kind = Zero
		}
		return v
	}
	SetU128(&v.M, hi, lo)
	return v
}

// SetU128 sets z = hi:lo.
func SetU128(z *big.Int, hi, lo uint64) *big.Int {
	if bits.UintSize == 64 {
		return z.SetBits(append(z.Bits()[:0], big.Word(lo), big.Word(hi)))
	}
	var t big.Int
	z.SetUint64(hi)
	z.Lsh(z, 64)
	return z.Or(z, t.SetUint64(lo))
}

// top is the exponent of the leading bit.
func (v *Val) top() int { return v.M.BitLen() - 1 + v.E }

// Top is the exponent of the leading bit of a finite value.
func (v *Val) Top() int { return v.top() }

func sgn(neg bool) int {
	if neg {
		return -1
	}
	return 1
}

// Cmp compares two non-NaN values (zeros compare equal).
func Cmp(a, b *Val) int {
	ra, rb := rank(a), rank(b)
	if ra != rb {
		if ra < rb {
			return -1
		}
		return 1
	}
	if a.Kind != Fin {
		return 0
	}
	return sgn(a.Neg) * cmpMag(a, b)
}

// rank: -Inf, negative finite, zero, positive finite, +Inf
func rank(a *Val) int {
	switch a.Kind {
	case Zero:
		return 0
	case Fin:
		return sgn(a.Neg)
	default:
		return 2 * sgn(a.Neg)
	}
}

func cmpMag(a, b *Val) int {
	ta, tb := a.top(), b.top()
	if ta != tb {
		if ta < tb {
			return -1
		}
		return 1
	}
	if a.E == b.E {
		return a.M.Cmp(&b.M)
	}
	var t big.Int
	if a.E > b.E {
		return t.Lsh(&a.M, uint(a.E-b.E)).Cmp(&b.M)
	}
	t.Lsh(&b.M, uint(b.E-a.E))
	return a.M.Cmp(&t)
}

// Same reports whether a and b are the same value, distinguishing signed
// zeros and signed NaNs.
func Same(a, b *Val) bool {
	if a.Kind != b.Kind || a.Neg != b.Neg {
		return false
	}
	return a.Kind != Fin || cmpMag(a, b) == 0
}

// Sub sets z = a - b for finite (or zero) a, b whose exponents are not wildly
// different unless one is zero.
func (z *Val) Sub(a, b *Val) *Val { return z.add(a, b, true) }

// Add sets z = a + b (same conditions).
func (z *Val) Add(a, b *Val) *Val { return z.add(a, b, false) }

func (z *Val) add(a, b *Val, neg bool) *Val {
	if b.Kind == Zero {
		if z != a {
			z.Set(a)
		}
		return z
	}
	if a.Kind == Zero {
		z.Set(b)
		z.Neg = z.Neg != neg
		return z
	}
	var x, y big.Int
	e := a.E
	if b.E < e {
		e = b.E
	}
	x.Lsh(&a.M, uint(a.E-e))
	y.Lsh(&b.M, uint(b.E-e))
	if a.Neg {
		x.Neg(&x)
	}
	if b.Neg != neg {
		y.Neg(&y)
	}
	x.Add(&x, &y)
	n := x.Sign() < 0
	x.Abs(&x)
	return z.SetFin(n, &x, e)
}

// Format is a binary floating-point format with precision P (significant bits
// including the lead bit) and normal exponent range [Emin, Emax].
type Format struct {
	Name       string
	P          int
	Emin, Emax int
	Explicit   bool // explicit lead bit (x86 extended)
	ExpBits    int
}

// The formats.
var (
	Half   = &Format{Name: "binary16", P: 11, Emin: -14, Emax: 15, ExpBits: 5}
	BFloat = &Format{Name: "bfloat", P: 8, Emin: -126, Emax: 127, ExpBits: 8}
	F32    = &Format{Name: "float32", P: 24, Emin: -126, Emax: 127, ExpBits: 8}
	F64    = &Format{Name: "float64", P: 53, Emin: -1022, Emax: 1023, ExpBits: 11}
	X80    = &Format{Name: "float80x86", P: 64, Emin: -16382, Emax: 16383, Explicit: true, ExpBits: 15}
	Quad   = &Format{Name: "binary128", P: 113, Emin: -16382, Emax: 16383, ExpBits: 15}
)

// Bits is an encoding: the low ExpBits+P (or +1) bits of Hi:Lo. For X80, Hi
// holds sign and exponent and Lo the 64-bit significand.
type Bits struct{ Hi, Lo uint64 }

// split returns sign, biased exponent and the stored significand field.
func (f *Format) split(b Bits) (neg bool, exp int, mhi, mlo uint64) {
	switch {
	case f.Explicit:
		return b.Hi>>15&1 == 1, int(b.Hi & 0x7FFF), 0, b.Lo
	case f.P == 113:
		return b.Hi>>63 == 1, int(b.Hi >> 48 & 0x7FFF), b.Hi & (1<<48 - 1), b.Lo
	default:
		fb := uint(f.P - 1)
		return b.Lo>>(fb+uint(f.ExpBits))&1 == 1, int(b.Lo>>fb) & (1<<uint(f.ExpBits) - 1), 0, b.Lo & (1<<fb - 1)
	}
}

// Sign, exponent field and fraction accessors.
func (f *Format) Split(b Bits) (neg bool, exp int, mhi, mlo uint64) { return f.split(b) }

// Decode sets v to the value of encoding b.
func (f *Format) Decode(b Bits, v *Val) {
	neg, exp, hi, lo := f.split(b)
	maxExp := 1<<uint(f.ExpBits) - 1
	v.Neg, v.E = neg, 0
	q := f.Emin - (f.P - 1) // weight of the last place in denormals
	if f.Explicit {
		switch {
		case exp == maxExp && lo == 1<<63:
			v.Kind = Inf
		case exp == maxExp:
			v.Kind = NaN
		case exp == 0:
			v.SetU(neg, 0, lo, q)
		default:
			v.SetU(neg, 0, lo, q+exp-1)
		}
		return
	}
	switch {
	case exp == maxExp && hi == 0 && lo == 0:
		v.Kind = Inf
	case exp == maxExp:
		v.Kind = NaN
	case exp == 0:
		v.SetU(neg, hi, lo, q)
	default:
		if f.P == 113 {
			hi |= 1 << 48
		} else {
			lo |= 1 << uint(f.P-1)
		}
		v.SetU(neg, hi, lo, q+exp-1)
	}
}

// Encode returns the encoding of the format value nearest to v (ties to even,
// overflow to infinity) — v must not be NaN. Rounded values are returned in
// canonical form.
func (f *Format) Encode(v *Val) Bits {
	var s, h big.Int
	return f.EncodeS(v, &s, &h)
}

// EncodeS is Encode with caller-provided scratch.
func (f *Format) EncodeS(v *Val, sig, t *big.Int) Bits {
	if v.Kind == Zero {
		return f.pack(v.Neg, 0, 0, 0)
	}
	maxExp := 1<<uint(f.ExpBits) - 1
	infinity := func() Bits {
		if f.Explicit {
			return f.pack(v.Neg, maxExp, 0, 1<<63)
		}
		return f.pack(v.Neg, maxExp, 0, 0)
	}
	if v.Kind == Inf {
		return infinity()
	}
	qmin := f.Emin - (f.P - 1)
	q := v.top() - (f.P - 1)
	if q < qmin {
		q = qmin
	}
	if v.top() > f.Emax {
		return infinity()
	}
	if q <= v.E {
		sig.Lsh(&v.M, uint(v.E-q))
	} else {
		s := q - v.E
		l := v.M.BitLen()
		if s > l+1 { // less than a quarter quantum
			sig.SetUint64(0)
		} else {
			sig.Rsh(&v.M, uint(s))
			half := v.M.Bit(s-1) == 1
			sticky := false
			if half {
				sticky = int(v.M.TrailingZeroBits()) < s-1
			}
			if half && (sticky || sig.Bit(0) == 1) {
				sig.Add(sig, t.SetUint64(1))
			}
		}
	}
	// value = sig * 2^q, 0 <= sig <= 2^P
	if sig.BitLen() > f.P {
		sig.Rsh(sig, 1)
		q++
	}
	exp := 0
	if sig.BitLen() == f.P {
		exp = q - qmin + 1
	}
	if exp >= maxExp {
		return infinity()
	}
	hi, lo := U128(sig)
	if !f.Explicit && exp > 0 { // drop the implicit lead bit
		if f.P == 113 {
			hi &^= 1 << 48
		} else {
			lo &^= 1 << uint(f.P-1)
		}
	}
	return f.pack(v.Neg, exp, hi, lo)
}

// U128 splits x (< 2^128).
func U128(x *big.Int) (hi, lo uint64) {
	w := x.Bits()
	if bits.UintSize == 64 {
		if len(w) > 1 {
			hi = uint64(w[1])
		}
		if len(w) > 0 {
			lo = uint64(w[0])
		}
		return
	}
	get := func(i int) uint64 {
		if i < len(w) {
			return uint64(w[i])
		}
		return 0
	}
	return get(2) | get(3)<<32, get(0) | get(1)<<32
}

func (f *Format) pack(neg bool, exp int, hi, lo uint64) Bits {
	var s uint64
	if neg {
		s = 1
	}
	switch {
	case f.Explicit:
		return Bits{s<<15 | uint64(exp), lo}
	case f.P == 113:
		return Bits{s<<63 | uint64(exp)<<48 | hi, lo}
	default:
		fb := uint(f.P - 1)
		return Bits{0, s<<(fb+uint(f.ExpBits)) | uint64(exp)<<fb | lo}
	}
}

// Pack assembles an encoding from its fields.
func (f *Format) Pack(neg bool, exp int, hi, lo uint64) Bits { return f.pack(neg, exp, hi, lo) }

// Canonical reports whether b is the canonical encoding of its value. (Only
// x86 extended precision has non-canonical ones.)
func (f *Format) Canonical(b Bits) bool {
	if !f.Explicit {
		return true
	}
	exp := b.Hi & 0x7FFF
	lead := b.Lo>>63 == 1
	if exp == 0 {
		return !lead
	}
	return lead
}

// DD is a double-double: two float64 encodings.
type DD struct{ Hi, Lo uint64 }

// DecodeDD sets v to the exact sum of the two doubles. For a zero sum of
// non-zero parts the sign is reported through anySign (either sign of zero is
// a correct sum up to rounding-mode convention).
func DecodeDD(d DD, v *Val) (anySign bool) {
	var h, l Val
	F64.Decode(Bits{0, d.Hi}, &h)
	F64.Decode(Bits{0, d.Lo}, &l)
	switch {
	case h.Kind == NaN:
		v.Set(&h)
	case l.Kind == NaN:
		v.Set(&l)
	case h.Kind == Inf && l.Kind == Inf && h.Neg != l.Neg:
		v.Kind, v.Neg = NaN, false
		return true
	case h.Kind == Inf:
		v.Set(&h)
	case l.Kind == Inf:
		v.Set(&l)
	case h.Kind == Zero && l.Kind == Zero:
		v.Set(&h) // sign of the high part
	default:
		v.Add(&h, &l)
		return v.Kind == Zero
	}
	return false
}

// EncodeDD returns the canonical double-double nearest to v: high is the
// double nearest to v, low the double nearest to v - high (not defined for NaN).
func EncodeDD(v *Val) DD {
	var h, r Val
	hb := F64.Encode(v)
	F64.Decode(hb, &h)
	if h.Kind == Inf || v.Kind == Zero {
		return DD{hb.Lo, 0}
	}
	r.Sub(v, &h)
	if r.Kind == Zero {
		return DD{hb.Lo, 0}
	}
	return DD{hb.Lo, F64.Encode(&r).Lo}
}

// CanonicalDD reports whether d is what EncodeDD yields for its own value.
func CanonicalDD(d DD) bool {
	var v Val
	if DecodeDD(d, &v); v.Kind == NaN {
		return false
	}
	return EncodeDD(&v) == d
}
