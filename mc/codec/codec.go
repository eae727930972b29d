// Package codec adapts the public API of mewmew/float to one shape.
package codec

import (
	"encoding/binary"
	"math"
	"math/big"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
	"github.com/mewmew/float/vmc/ref"
)

// Bits is an encoding.
type Bits = ref.Bits

// Codec is one format of the library. Nil functions are not offered by it.
type Codec struct {
	Name    string
	F       *ref.Format // nil for double-double
	Ident   func(b Bits) Bits
	Big     func(b Bits) (*big.Float, bool)
	F32     func(b Bits) (float32, big.Accuracy)
	F64     func(b Bits) (float64, big.Accuracy)
	FromBig func(x *big.Float) (Bits, big.Accuracy)
	From32  func(x float32) (Bits, big.Accuracy)
	From64  func(x float64) (Bits, big.Accuracy)
	Sign    func(b Bits) bool
	Exp     func(b Bits) int
	Frac    func(b Bits) (hi, lo uint64) // with the explicit lead bit, if any
	IsNaN   func(b Bits) bool
	Special map[string]Bits
}

func h16(f binary16.Float) Bits { return Bits{Lo: uint64(f.Bits())} }
func q128(f binary128.Float) Bits {
	a, b := f.Bits()
	return Bits{Hi: a, Lo: b}
}
func x80(f float80x86.Float) Bits {
	se, m := f.Bits()
	return Bits{Hi: uint64(se), Lo: m}
}
func dd(f float128ppc.Float) Bits {
	a, b := f.Bits()
	return Bits{Hi: a, Lo: b}
}

// The codecs.
var (
	Half = &Codec{
		Name:    "binary16",
		F:       ref.Half,
		Ident:   func(b Bits) Bits { return h16(binary16.NewFromBits(uint16(b.Lo))) },
		Big:     func(b Bits) (*big.Float, bool) { return binary16.NewFromBits(uint16(b.Lo)).Big() },
		F32:     func(b Bits) (float32, big.Accuracy) { return binary16.NewFromBits(uint16(b.Lo)).Float32() },
		F64:     func(b Bits) (float64, big.Accuracy) { return binary16.NewFromBits(uint16(b.Lo)).Float64() },
		FromBig: func(x *big.Float) (Bits, big.Accuracy) { f, a := binary16.NewFromBig(x); return h16(f), a },
		From32:  func(x float32) (Bits, big.Accuracy) { f, a := binary16.NewFromFloat32(x); return h16(f), a },
		From64:  func(x float64) (Bits, big.Accuracy) { f, a := binary16.NewFromFloat64(x); return h16(f), a },
		Sign:    func(b Bits) bool { return binary16.NewFromBits(uint16(b.Lo)).Signbit() },
		Exp:     func(b Bits) int { return binary16.NewFromBits(uint16(b.Lo)).Exp() },
		Frac:    func(b Bits) (uint64, uint64) { return 0, uint64(binary16.NewFromBits(uint16(b.Lo)).Frac()) },
	}
	BFloat = &Codec{
		Name: "bfloat",
		F:    ref.BFloat,
		Big:  func(b Bits) (*big.Float, bool) { return bfloat.NewFromBits(uint16(b.Lo)).Big() },
		Sign: func(b Bits) bool { return bfloat.NewFromBits(uint16(b.Lo)).Signbit() },
		Exp:  func(b Bits) int { return bfloat.NewFromBits(uint16(b.Lo)).Exp() },
		Frac: func(b Bits) (uint64, uint64) { return 0, uint64(bfloat.NewFromBits(uint16(b.Lo)).Frac()) },
	}
	Quad = &Codec{
		Name:    "binary128",
		F:       ref.Quad,
		Ident:   func(b Bits) Bits { return q128(binary128.NewFromBits(b.Hi, b.Lo)) },
		Big:     func(b Bits) (*big.Float, bool) { return binary128.NewFromBits(b.Hi, b.Lo).Big() },
		F32:     func(b Bits) (float32, big.Accuracy) { return binary128.NewFromBits(b.Hi, b.Lo).Float32() },
		F64:     func(b Bits) (float64, big.Accuracy) { return binary128.NewFromBits(b.Hi, b.Lo).Float64() },
		FromBig: func(x *big.Float) (Bits, big.Accuracy) { f, a := binary128.NewFromBig(x); return q128(f), a },
		From32:  func(x float32) (Bits, big.Accuracy) { f, a := binary128.NewFromFloat32(x); return q128(f), a },
		From64:  func(x float64) (Bits, big.Accuracy) { f, a := binary128.NewFromFloat64(x); return q128(f), a },
		Sign:    func(b Bits) bool { return binary128.NewFromBits(b.Hi, b.Lo).Signbit() },
		Exp:     func(b Bits) int { return binary128.NewFromBits(b.Hi, b.Lo).Exp() },
		Frac:    func(b Bits) (uint64, uint64) { return binary128.NewFromBits(b.Hi, b.Lo).Frac() },
	}
	X80 = &Codec{
		Name:    "float80x86",
		F:       ref.X80,
		Ident:   func(b Bits) Bits { return x80(float80x86.NewFromBits(uint16(b.Hi), b.Lo)) },
		Big:     func(b Bits) (*big.Float, bool) { return float80x86.NewFromBits(uint16(b.Hi), b.Lo).Big() },
		F32:     func(b Bits) (float32, big.Accuracy) { return float80x86.NewFromBits(uint16(b.Hi), b.Lo).Float32() },
		F64:     func(b Bits) (float64, big.Accuracy) { return float80x86.NewFromBits(uint16(b.Hi), b.Lo).Float64() },
		FromBig: func(x *big.Float) (Bits, big.Accuracy) { f, a := float80x86.NewFromBig(x); return x80(f), a },
		From32:  func(x float32) (Bits, big.Accuracy) { f, a := float80x86.NewFromFloat32(x); return x80(f), a },
		From64:  func(x float64) (Bits, big.Accuracy) { f, a := float80x86.NewFromFloat64(x); return x80(f), a },
		Sign:    func(b Bits) bool { return float80x86.NewFromBits(uint16(b.Hi), b.Lo).Signbit() },
		Exp:     func(b Bits) int { return float80x86.NewFromBits(uint16(b.Hi), b.Lo).Exp() },
		Frac: func(b Bits) (uint64, uint64) {
			f := float80x86.NewFromBits(uint16(b.Hi), b.Lo)
			return 0, uint64(f.Lead())<<63 | f.Frac()
		},
	}
	DD = &Codec{
		Name:    "float128ppc",
		Ident:   func(b Bits) Bits { return dd(float128ppc.NewFromBits(b.Hi, b.Lo)) },
		Big:     func(b Bits) (*big.Float, bool) { return float128ppc.NewFromBits(b.Hi, b.Lo).Big() },
		F32:     func(b Bits) (float32, big.Accuracy) { return float128ppc.NewFromBits(b.Hi, b.Lo).Float32() },
		F64:     func(b Bits) (float64, big.Accuracy) { return float128ppc.NewFromBits(b.Hi, b.Lo).Float64() },
		FromBig: func(x *big.Float) (Bits, big.Accuracy) { f, a := float128ppc.NewFromBig(x); return dd(f), a },
		From32:  func(x float32) (Bits, big.Accuracy) { f, a := float128ppc.NewFromFloat32(x); return dd(f), a },
		From64:  func(x float64) (Bits, big.Accuracy) { f, a := float128ppc.NewFromFloat64(x); return dd(f), a },
		IsNaN:   func(b Bits) bool { return float128ppc.NewFromBits(b.Hi, b.Lo).IsNaN() },
	}
	All = []*Codec{Half, BFloat, X80, Quad, DD}
	// Enc are the codecs with encoders.
	Enc = []*Codec{Half, X80, Quad, DD}
)

// Value is a number of one of the formats, as the library made it. Checks that
// follow a number through several calls keep it, rather than rebuild it from
// its bits.
type Value interface {
	Big() (*big.Float, bool)
	Float32() (float32, big.Accuracy)
	Float64() (float64, big.Accuracy)
}

// BitsOf is the encoding of a value.
func BitsOf(v Value) Bits {
	switch f := v.(type) {
	case binary16.Float:
		return h16(f)
	case binary128.Float:
		return q128(f)
	case float80x86.Float:
		return x80(f)
	case float128ppc.Float:
		return dd(f)
	}
	panic("not a value of the library")
}

// FieldsOf are the results of a value's accessors.
func FieldsOf(v Value) [4]uint64 {
	sign := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch f := v.(type) {
	case binary16.Float:
		return [4]uint64{sign(f.Signbit()), uint64(f.Exp()), uint64(f.Frac())}
	case binary128.Float:
		a, b := f.Frac()
		return [4]uint64{sign(f.Signbit()), uint64(f.Exp()), a, b}
	case float80x86.Float:
		return [4]uint64{sign(f.Signbit()), uint64(f.Exp()), uint64(f.Lead()), f.Frac()}
	case float128ppc.Float:
		return [4]uint64{sign(f.IsNaN())}
	}
	panic("not a value of the library")
}

// NewBits, NewBig, New32 and New64 call the constructors; ZeroValue is the
// value of a variable that was never assigned.
func (c *Codec) NewBits(b Bits) Value {
	switch c {
	case Half:
		return binary16.NewFromBits(uint16(b.Lo))
	case Quad:
		return binary128.NewFromBits(b.Hi, b.Lo)
	case X80:
		return float80x86.NewFromBits(uint16(b.Hi), b.Lo)
	}
	return float128ppc.NewFromBits(b.Hi, b.Lo)
}

// NewBig calls NewFromBig.
func (c *Codec) NewBig(x *big.Float) (v Value, a big.Accuracy) {
	switch c {
	case Half:
		v, a = wrap(binary16.NewFromBig(x))
	case Quad:
		v, a = wrap(binary128.NewFromBig(x))
	case X80:
		v, a = wrap(float80x86.NewFromBig(x))
	default:
		v, a = wrap(float128ppc.NewFromBig(x))
	}
	return v, a
}

// New32 calls NewFromFloat32.
func (c *Codec) New32(x float32) (v Value, a big.Accuracy) {
	switch c {
	case Half:
		v, a = wrap(binary16.NewFromFloat32(x))
	case Quad:
		v, a = wrap(binary128.NewFromFloat32(x))
	case X80:
		v, a = wrap(float80x86.NewFromFloat32(x))
	default:
		v, a = wrap(float128ppc.NewFromFloat32(x))
	}
	return v, a
}

// New64 calls NewFromFloat64.
func (c *Codec) New64(x float64) (v Value, a big.Accuracy) {
	switch c {
	case Half:
		v, a = wrap(binary16.NewFromFloat64(x))
	case Quad:
		v, a = wrap(binary128.NewFromFloat64(x))
	case X80:
		v, a = wrap(float80x86.NewFromFloat64(x))
	default:
		v, a = wrap(float128ppc.NewFromFloat64(x))
	}
	return v, a
}

// ZeroValue is an unassigned variable.
func (c *Codec) ZeroValue() Value {
	switch c {
	case Half:
		var f binary16.Float
		return f
	case Quad:
		var f binary128.Float
		return f
	case X80:
		var f float80x86.Float
		return f
	}
	var f float128ppc.Float
	return f
}

func wrap[T Value](f T, a big.Accuracy) (Value, big.Accuracy) { return f, a }

// Published returns the special values as the library publishes them.
func Published(c *Codec) map[string]Value {
	switch c {
	case Half:
		return map[string]Value{"NaN": binary16.NaN, "NegNaN": binary16.NegNaN, "Inf": binary16.Inf, "NegInf": binary16.NegInf, "Zero": binary16.Zero, "NegZero": binary16.NegZero}
	case Quad:
		return map[string]Value{"NaN": binary128.NaN, "NegNaN": binary128.NegNaN, "Inf": binary128.Inf, "NegInf": binary128.NegInf, "Zero": binary128.Zero, "NegZero": binary128.NegZero}
	case X80:
		return map[string]Value{"NaN": float80x86.NaN, "NegNaN": float80x86.NegNaN, "Inf": float80x86.Inf, "NegInf": float80x86.NegInf, "Zero": float80x86.Zero, "NegZero": float80x86.NegZero}
	}
	return map[string]Value{"NaN": float128ppc.NaN, "NegNaN": float128ppc.NegNaN, "Inf": float128ppc.Inf, "NegInf": float128ppc.NegInf, "Zero": float128ppc.Zero, "NegZero": float128ppc.NegZero}
}

// Constants returns the published special values, read afresh.
func Constants(c *Codec) map[string]Bits {
	switch c {
	case Half:
		return map[string]Bits{"NaN": h16(binary16.NaN), "NegNaN": h16(binary16.NegNaN), "Inf": h16(binary16.Inf), "NegInf": h16(binary16.NegInf), "Zero": h16(binary16.Zero), "NegZero": h16(binary16.NegZero)}
	case Quad:
		return map[string]Bits{"NaN": q128(binary128.NaN), "NegNaN": q128(binary128.NegNaN), "Inf": q128(binary128.Inf), "NegInf": q128(binary128.NegInf), "Zero": q128(binary128.Zero), "NegZero": q128(binary128.NegZero)}
	case X80:
		return map[string]Bits{"NaN": x80(float80x86.NaN), "NegNaN": x80(float80x86.NegNaN), "Inf": x80(float80x86.Inf), "NegInf": x80(float80x86.NegInf), "Zero": x80(float80x86.Zero), "NegZero": x80(float80x86.NegZero)}
	case DD:
		return map[string]Bits{"NaN": dd(float128ppc.NaN), "NegNaN": dd(float128ppc.NegNaN), "Inf": dd(float128ppc.Inf), "NegInf": dd(float128ppc.NegInf), "Zero": dd(float128ppc.Zero), "NegZero": dd(float128ppc.NegZero)}
	}
	return nil
}

// AppendConstants appends the special values without naming them.
func AppendConstants(c *Codec, b []byte) []byte {
	var l [6]Bits
	switch c {
	case Half:
		l = [6]Bits{h16(binary16.NaN), h16(binary16.NegNaN), h16(binary16.Inf), h16(binary16.NegInf), h16(binary16.Zero), h16(binary16.NegZero)}
	case Quad:
		l = [6]Bits{q128(binary128.NaN), q128(binary128.NegNaN), q128(binary128.Inf), q128(binary128.NegInf), q128(binary128.Zero), q128(binary128.NegZero)}
	case X80:
		l = [6]Bits{x80(float80x86.NaN), x80(float80x86.NegNaN), x80(float80x86.Inf), x80(float80x86.NegInf), x80(float80x86.Zero), x80(float80x86.NegZero)}
	case DD:
		l = [6]Bits{dd(float128ppc.NaN), dd(float128ppc.NegNaN), dd(float128ppc.Inf), dd(float128ppc.NegInf), dd(float128ppc.Zero), dd(float128ppc.NegZero)}
	}
	for _, x := range l {
		b = binary.BigEndian.AppendUint64(b, x.Hi)
		b = binary.BigEndian.AppendUint64(b, x.Lo)
	}
	return b
}

// ByName finds a codec.
func ByName(n string) *Codec {
	for _, c := range All {
		if c.Name == n {
			return c
		}
	}
	return nil
}

// Decode is the model's decoding of a codec's encoding. anySign: the sign of
// the result is unspecified.
func (c *Codec) Decode(b Bits, v *ref.Val) (anySign bool) {
	if c.F == nil {
		return ref.DecodeDD(ref.DD{Hi: b.Hi, Lo: b.Lo}, v)
	}
	c.F.Decode(b, v)
	return false
}

// Encode is the model's encoding of a value.
func (c *Codec) Encode(v *ref.Val, s, t *big.Int) Bits {
	if c.F == nil {
		d := ref.EncodeDD(v)
		return Bits{Hi: d.Hi, Lo: d.Lo}
	}
	return c.F.EncodeS(v, s, t)
}

// F32Val and F64Val decode hardware floats with the model.
func F32Val(x float32, v *ref.Val) { ref.F32.Decode(Bits{Lo: uint64(math.Float32bits(x))}, v) }

// F64Val decodes a float64.
func F64Val(x float64, v *ref.Val) { ref.F64.Decode(Bits{Lo: math.Float64bits(x)}, v) }
