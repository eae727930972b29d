// Package ops is the alphabet of library calls used to build histories and
// concurrent scenarios: every public function with arguments chosen so that
// they agree in parts (same low bits, same exponent, same text length), which
// is where remembered state would be confused.
package ops

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"

	float "github.com/mewmew/float"
	sc "github.com/mewmew/float/internal/strconv"
	"github.com/mewmew/float/vmc/codec"
)

// Out is the result of a call.
type Out struct {
	W     [3]uint64
	S     string
	Big   *big.Float
	Bytes []byte
}

// Append renders the result as it is now.
func (o *Out) Append(b []byte) []byte {
	for _, w := range o.W {
		b = strconv.AppendUint(b, w, 16)
		b = append(b, ',')
	}
	b = append(b, o.S...)
	if o.Big != nil {
		b = AppendBig(b, o.Big)
	}
	b = append(b, ';')
	return append(b, o.Bytes...)
}

// AppendBig renders everything observable about x.
func AppendBig(b []byte, x *big.Float) []byte {
	b = append(b, '0'+byte(x.Mode()), '0'+byte(x.Acc()+1))
	b = strconv.AppendUint(b, uint64(x.Prec()), 10)
	b = append(b, ':')
	if x.Signbit() {
		b = append(b, '-')
	}
	return x.Append(b, 'p', 0)
}

// Spoil overwrites everything the caller owns in a result.
func (o *Out) Spoil() {
	if o.Big != nil {
		SpoilBig(o.Big)
	}
	for i := range o.Bytes {
		o.Bytes[i] = 0xFF
	}
}

// SpoilBig overwrites x, first in place and then with another precision.
func SpoilBig(x *big.Float) {
	if !x.IsInf() && x.Sign() != 0 && x.Prec() > 0 {
		x.SetMode(big.ToZero)
		x.Add(x, x)
		x.Neg(x)
	}
	x.SetPrec(5).SetMode(big.AwayFromZero).SetInt64(-21)
}

// Op is a call with fixed arguments.
type Op struct {
	Name string
	Fn   string // function called
	Key  string // identifies equal arguments; "" when there is no reference argument
	Arg  func() *big.Float
	Run  func(x *big.Float) Out
	Core bool   // takes part in the explorations across functions
	Want []byte // rendered result in the initial state
	ArgW []byte // rendered argument
}

// NewArg builds the argument.
func (o *Op) NewArg() *big.Float {
	if o.Arg == nil {
		return nil
	}
	return o.Arg()
}

// Intact reports whether argument x is as NewArg built it.
func (o *Op) Intact(x *big.Float) bool {
	if o.Arg == nil {
		return true
	}
	var buf [200]byte
	return bytes.Equal(AppendBig(buf[:0], x), o.ArgW)
}

type Bits = codec.Bits

var encodings = map[string][]Bits{
	"binary16": lo(0x0000, 0x8000, 0x0001, 0x8001, 0x0002, 0x03FF, 0x0400, 0x0401, 0x3C00, 0xBC00, 0x3C01, 0x3C02, 0x4001, 0x7BFF, 0xFBFF, 0x7C00, 0xFC00, 0x7E00, 0xFE00, 0x7C01, 0x3555, 0x0155, 0x5540),
	"bfloat":   lo(0x0000, 0x8000, 0x0001, 0x8001, 0x0002, 0x007F, 0x0080, 0x0081, 0x3F80, 0xBF80, 0x3F81, 0x3F82, 0x4001, 0x7F7F, 0xFF7F, 0x7F80, 0xFF80, 0x7FC0, 0xFFC0, 0x7F81, 0x3EAB, 0x00AB),
	"float80x86": {{0, 0}, {0x8000, 0}, {0, 1}, {0x8000, 1}, {0, 1 << 63}, {0, 1<<63 - 1}, {1, 1 << 63}, {0x3FFF, 1 << 63}, {0xBFFF, 1 << 63}, {0x3FFF, 1<<63 | 1}, {0x3FFE, 1<<63 | 1}, {0x4000, 1<<63 | 1},
		{0x3FFF, 0xC000000000000000}, {0x3FFF, 0x4000000000000000}, {0x7FFE, math.MaxUint64}, {0x7FFF, 1 << 63}, {0xFFFF, 1 << 63}, {0x7FFF, 0xBFFFFFFFFFFFFFFF}, {0xFFFF, 0xBFFFFFFFFFFFFFFF}, {0x7FFF, 1<<63 | 1}, {0x407E, 0xFFFFFF8000000000}, {0x3C00, 0xAAAAAAAAAAAAA800}},
	"binary128": {{0, 0}, {1 << 63, 0}, {0, 1}, {1 << 63, 1}, {1, 0}, {0xFFFFFFFFFFFF, math.MaxUint64}, {1 << 48, 0}, {0x3FFF << 48, 0}, {0xBFFF << 48, 0}, {0x3FFF << 48, 1}, {0x3FFF<<48 | 1, 0}, {0x3FFE << 48, 1}, {0x4000 << 48, 1}, {0x3FFF<<48 | 1<<47, 0},
		{0x7FFEFFFFFFFFFFFF, math.MaxUint64}, {0x7FFF << 48, 0}, {0xFFFF << 48, 0}, {0x7FFF800000000000, 0}, {0xFFFF800000000000, 0}, {0x7FFF << 48, 1}, {0x407EFFFFFF000000, 0}, {0x3FD5555555555555, 0x5555555555555555}},
	"float128ppc": {{0, 0}, {1 << 63, 0}, {0, 1 << 63}, {1, 0}, {1 << 63, 1}, {0x3FF0000000000000, 0}, {0xBFF0000000000000, 0}, {0x3FF0000000000000, 0x3C90000000000000}, {0x3FF0000000000000, 0xBC90000000000000}, {0x3FF0000000000000, 1}, {0x3FF0000000000000, 0x8000000000000001},
		{0x3FF0000000000001, 0}, {0x7FEFFFFFFFFFFFFF, 0x7C8FFFFFFFFFFFFF}, {0x7FF0000000000000, 0}, {0xFFF0000000000000, 0}, {0x7FF8000000000000, 0}, {0xFFF8000000000000, 0}, {0x7FF0000000000000, 0xFFF0000000000000}, {0x3FF0000000000000, 0x3FF0000000000000}, {0x400C000000000030, 0x10000000}, {0x4340000000000000, 0x3FF0000000000000}, {0x3FF0000000000000, 0x7FF0000000000000}},
}

func lo(l ...uint64) (r []Bits) {
	for _, u := range l {
		r = append(r, Bits{Lo: u})
	}
	return
}

type spec struct {
	name string
	mk   func() *big.Float
}

func parse(s string, prec uint, mode big.RoundingMode) spec {
	return spec{fmt.Sprintf("%s/%d/%d", s, prec, mode), func() *big.Float {
		x, _, err := big.ParseFloat(s, 0, prec, big.ToNearestEven)
		if err != nil {
			panic(err)
		}
		return x.SetMode(mode)
	}}
}

// stale is s with an accuracy left from an earlier rounding.
func stale(s spec, acc big.Accuracy) spec {
	return spec{s.name + "/" + acc.String(), func() *big.Float {
		x := s.mk()
		return codec.Stale(x, acc, x.Mode())
	}}
}

// long is a number of prec bits, about 4/3·2^e, with no zero words.
func long(prec uint, e int) spec {
	return spec{fmt.Sprintf("4/3*2^%d/%d", e, prec), func() *big.Float {
		x := new(big.Float).SetPrec(prec).Quo(big.NewFloat(4), big.NewFloat(3))
		return x.SetMantExp(x, e)
	}}
}

// bigs are big floats around the edges of a format with precision p, minimum
// (denormal) exponent min and maximum exponent max.
func bigs(p uint, min, max int) []spec {
	sum := func(name string, prec uint, mode big.RoundingMode, terms ...int) spec {
		return spec{fmt.Sprintf("%s%v/%d/%d", name, terms, prec, mode), func() *big.Float {
			x := new(big.Float).SetPrec(prec)
			t := new(big.Float).SetPrec(prec).SetInt64(1)
			for _, k := range terms {
				x.Add(x, new(big.Float).SetPrec(prec).SetMantExp(t, k))
			}
			if name == "-" {
				x.Neg(x)
			}
			return x.SetMode(mode)
		}}
	}
	q := int(p)
	w := p + 64
	ones := spec{fmt.Sprintf("2^%d-2^%d", max+1, max-q), func() *big.Float { // just over the largest: ties up
		x := new(big.Float).SetPrec(w).SetMantExp(big.NewFloat(1), max+1)
		return x.Sub(x, new(big.Float).SetMantExp(big.NewFloat(1), max-q))
	}}
	largest := spec{fmt.Sprintf("2^%d-2^%d", max+1, max-q+1), func() *big.Float {
		x := new(big.Float).SetPrec(w).SetMantExp(big.NewFloat(1), max+1)
		return x.Sub(x, new(big.Float).SetMantExp(big.NewFloat(1), max-q+1))
	}}
	return []spec{
		parse("0", 53, 0), {"-0", func() *big.Float { return new(big.Float).Neg(new(big.Float)) }}, parse("Inf", 0, 0), parse("-Inf", 24, 1),
		sum("", 64, 0, 0), sum("-", 64, 0, 0), sum("", 1, 2, 0), sum("", w, 4, 0),
		sum("", w, 0, 0, 1-q), sum("", w, 0, 0, -q), sum("", w, 0, 0, 1-q, -q), sum("-", w, 3, 0, 1-q, -q), sum("", w, 0, 0, -q, -q-9), sum("", w, 0, 1, 1-q),
		largest, ones, sum("", 53, 0, max+1), sum("-", 53, 0, max+9), sum("", 53, 0, 1<<20),
		sum("", 53, 0, min), sum("-", 53, 0, min), sum("", 53, 0, min-1), sum("", w, 0, min-1, min-9), sum("", 53, 0, min-3), sum("", w, 0, min+q-1, min-1), sum("", 53, 0, -1<<20),
		parse("3.14159265358979323846264338327950288419716939937510582", w+3, 0), parse("65504", 53, 0), parse("1e-5", 200, 5),
		long(1100, 0), long(6000, min), // many words: buffers kept between calls grow, lower parts of them are left over
		stale(sum("", w, 2, 0, 1-q), big.Below), stale(parse("1.5", 53, 0), big.Above), stale(parse("-Inf", 24, 1), big.Below),
	}
}

// moreBigs adds fractions and denormals that differ in few bits, many bits,
// high bits and low bits.
func moreBigs(p uint, min, max int) (l []spec) {
	q := int(p)
	w := p + 64
	num := func(name string, hex string, e int, neg bool, prec uint, mode big.RoundingMode) {
		l = append(l, spec{fmt.Sprintf("%s:%s*2^%d/%d/%d", name, hex, e, prec, mode), func() *big.Float {
			m, _ := new(big.Int).SetString(hex, 16)
			x := new(big.Float).SetPrec(prec).SetInt(m)
			x.SetMantExp(x, e)
			if neg {
				x.Neg(x)
			}
			return x.SetMode(mode)
		}})
	}
	pow := func(k int) string { return new(big.Int).Lsh(big.NewInt(1), uint(k)).Text(16) }
	ones := func(n, low int) string {
		m := new(big.Int).Lsh(big.NewInt(1), uint(n))
		m.Sub(m, big.NewInt(1))
		return m.Lsh(m, uint(low)).Text(16)
	}
	// denormals: single bits, leading ones, trailing ones, alternating bits
	for _, k := range []int{0, 1, 2, q / 3, q / 2, q - 4, q - 3, q - 2} {
		num("sub", pow(k), min, k&1 == 1, w, 0)
	}
	for _, k := range []int{2, q / 4, q / 2, q - 2} {
		num("sub", ones(k, 0), min, false, w, big.RoundingMode(k%6))
		num("sub", ones(k, q-1-k), min, true, w, 0)
	}
	num("sub", "5", min, false, 53, 0)
	num("sub", new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), uint(q-1)), big.NewInt(3)).Text(16), min, false, w, 0)
	num("sub", ones(q, 0), min-1, false, w, 0) // ties up to the smallest normal
	// normals: the same fractions at exponents around 0 and at both ends
	fr := []string{pow(q), new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(q)), big.NewInt(2)).Text(16), ones(q, 1), ones(q/2, q-q/2), new(big.Int).SetBit(new(big.Int).Lsh(big.NewInt(1), uint(q)), q/2, 1).Text(16), new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), uint(q+2)), big.NewInt(3)).Text(16), ones(q+1, 0), new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(q)), big.NewInt(1)).Text(16)}
	for i, e := range []int{-q, 1 - q, 5 - q, min + 30, max - q - 3} {
		for j, f := range fr {
			num("norm", f, e, (i+j)%3 == 0, w, big.RoundingMode((i*j)%6))
		}
	}
	return
}

// All lists the alphabet.
func All() []*Op {
	var l []*Op
	core := true
	have := map[string]bool{}
	add := func(fn, arg string, run func(*big.Float) Out) {
		if have[fn+arg] {
			return
		}
		have[fn+arg] = true
		l = append(l, &Op{Name: fn + "(" + arg + ")", Fn: fn, Run: run, Core: core})
	}
	addBig := func(fn string, s spec, run func(*big.Float) Out) {
		if have[fn+s.name] {
			return
		}
		have[fn+s.name] = true
		l = append(l, &Op{Name: fn + "(" + s.name + ")", Fn: fn, Key: s.name, Arg: s.mk, Run: run, Core: core})
	}
	acc := func(a big.Accuracy) uint64 { return uint64(a + 1) }
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	f64s := []float64{0, math.Copysign(0, -1), 1, -1, 1 + 0x1p-10, 1 + 0x1p-11, 1 + 0x1p-52, 2 + 0x1p-9, 65504, 65519.99, 65520, -1e300, 0x1p-24, 0x1p-25, 0x3p-26, 5e-324, 0x1p-149, 3.141592653589793, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), 8210, 1e22, 123456789.125}
	lim := map[string][3]int{"binary16": {11, -24, 15}, "float80x86": {64, -16445, 16383}, "binary128": {113, -16494, 16383}, "float128ppc": {107, -1074, 1023}}
	for _, c := range codec.All {
		c := c
		for _, e := range encodings[c.Name] {
			e := e
			arg := fmt.Sprintf("%#x,%#x", e.Hi, e.Lo)
			add(c.Name+".Big", arg, func(*big.Float) Out {
				x, nan := c.Big(e)
				return Out{W: [3]uint64{b2u(nan)}, Big: x}
			})
			if c.F32 != nil {
				add(c.Name+".Float32", arg, func(*big.Float) Out {
					x, a := c.F32(e)
					return Out{W: [3]uint64{uint64(math.Float32bits(x)), acc(a)}}
				})
				add(c.Name+".Float64", arg, func(*big.Float) Out {
					x, a := c.F64(e)
					return Out{W: [3]uint64{math.Float64bits(x), acc(a)}}
				})
			}
			add(c.Name+".fields", arg, func(*big.Float) Out {
				var o Out
				if c.Sign != nil {
					hi, lo := c.Frac(e)
					o.W = [3]uint64{b2u(c.Sign(e)) | uint64(c.Exp(e))<<1, hi, lo}
				}
				if c.Ident != nil {
					b := c.Ident(e)
					o.W[0] += b.Hi << 20
					o.W[1] += b.Lo << 1
				}
				if c.IsNaN != nil {
					o.W[2] = b2u(c.IsNaN(e))
				}
				return o
			})
		}
		if c.FromBig == nil {
			continue
		}
		ll := lim[c.Name]
		bl := bigs(uint(ll[0]), ll[1], ll[2])
		nb := len(bl)
		bl = append(bl, moreBigs(uint(ll[0]), ll[1], ll[2])...)
		for i, s := range bl {
			core = i < nb
			addBig(c.Name+".NewFromBig", s, func(x *big.Float) Out {
				b, a := c.FromBig(x)
				return Out{W: [3]uint64{b.Hi, b.Lo, acc(a)}}
			})
		}
		for i, f := range append(f64s[:len(f64s):len(f64s)], more64...) {
			core = i < len(f64s)
			f := f
			arg := strconv.FormatFloat(f, 'g', -1, 64)
			add(c.Name+".NewFromFloat64", arg, func(*big.Float) Out {
				b, a := c.From64(f)
				return Out{W: [3]uint64{b.Hi, b.Lo, acc(a)}}
			})
			add(c.Name+".NewFromFloat32", arg, func(*big.Float) Out {
				b, a := c.From32(float32(f))
				return Out{W: [3]uint64{b.Hi, b.Lo, acc(a)}}
			})
		}
		core = true
	}
	ex := []spec{parse("0", 53, 0), parse("1", 53, 0), parse("-1", 24, 0), parse("0.5", 53, 0), parse("0.1", 53, 0), parse("0.1", 300, 0), parse("65504", 53, 0), parse("65505", 53, 0), parse("8210", 53, 0), parse("8208", 53, 0), parse("16777216", 53, 0), parse("16777217", 53, 0), parse("1e22", 64, 0), parse("1e23", 80, 0), parse("Inf", 0, 0), parse("-Inf", 0, 0), parse("0x1p-24", 53, 0), parse("0x1p+2000", 53, 0), parse("0.00390625", 53, 0), parse("1.5", 113, 3), long(1100, 0), stale(parse("0.5", 24, 1), big.Below), stale(parse("0.1", 53, 0), big.Above)}
	for _, s := range ex {
		addBig("IsExact16", s, func(x *big.Float) Out { return Out{W: [3]uint64{b2u(float.IsExact16(x))}} })
		addBig("IsExact32", s, func(x *big.Float) Out { return Out{W: [3]uint64{b2u(float.IsExact32(x))}} })
		addBig("IsExact64", s, func(x *big.Float) Out { return Out{W: [3]uint64{b2u(float.IsExact64(x))}} })
	}
	fl := []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 0.3, 123456789.125, 1e22, 1e23, 5e-324, math.MaxFloat64, 0x1p-24, 65504, 100, 99.5, 2.5, 0.00001, 872415168, math.Inf(-1), math.NaN(), 8210, 16777217, 0x1.fffffffffffffp-1022, 9.5, 0.000123456}
	for i, f := range fl {
		for j, v := range []struct {
			c byte
			p int
		}{{'e', -1}, {'g', -1}, {'f', -1}, {'e', 5}, {'f', 2}, {'g', 3}, {'g', 25}, {'b', -1}, {'e', 16}, {'f', 60}, {'G', 7}, {'E', 0}, {'f', 0}, {'?', 4}} {
			for k, n := range []int{64, 32, 16} {
				f, v, n := f, v, n
				core = (j+k)%3 == 0 && i < 20
				arg := fmt.Sprintf("%v,%c,%d,%d", f, v.c, v.p, n)
				add("FormatFloat", arg, func(*big.Float) Out { return Out{S: sc.FormatFloat(f, v.c, v.p, n)} })
				if j%2 == 0 {
					add("AppendFloat", arg, func(*big.Float) Out {
						d := make([]byte, 2, 2+(v.p+1)*3)
						d[0], d[1] = '<', '9'
						return Out{Bytes: sc.AppendFloat(d, f, v.c, v.p, n)}
					})
				}
			}
		}
	}
	for _, i := range []int64{0, 1, -1, 9, 10, 11, 99, 100, 101, -100, 123, 1000, 65535, 65536, 999999999, 1000000000, 1 << 31, 1 << 32, 1<<32 + 11, math.MaxInt64, math.MinInt64} {
		i := i
		for b := 2; b <= 36; b++ {
			b := b
			core = b == 2 || b == 8 || b == 10 || b == 16 || b == 36
			arg := fmt.Sprintf("%d,%d", i, b)
			add("FormatInt", arg, func(*big.Float) Out { return Out{S: sc.FormatInt(i, b)} })
			if b == 10 || b == 16 || b%7 == 0 {
				add("FormatUint", arg, func(*big.Float) Out { return Out{S: sc.FormatUint(uint64(i), b)} })
				add("AppendInt", arg, func(*big.Float) Out { return Out{Bytes: sc.AppendInt([]byte{'x', '1'}, i, b)} })
				add("AppendUint", arg, func(*big.Float) Out { return Out{Bytes: sc.AppendUint(make([]byte, 0, 70), uint64(i), b)} })
			}
		}
		core = true
		add("Itoa", fmt.Sprint(i), func(*big.Float) Out { return Out{S: sc.Itoa(int(i))} })
	}
	return l
}

// more64 agree in parts with each other and with the floats used above.
var more64 = []float64{-65504, 65505, 65503.99, 2049, 2051, 0x1p-14, 0x1.ffcp-15, 0x1.ffep-15, 0x1p-15, 0x3p-24, 0x7p-25, 0x1p-26, -0x1p-24, 0x1.004p0, 0x1.002p0, 0x1.006p0, 1 + 0x1p-23, 1 + 0x1p-24, 0x1p-126, 0x1.fffffcp-127, 0x1p-148, 0x3p-149, math.MaxFloat32, math.MaxFloat64, 0x1p-1022, 0x1.ffffffffffffep-1023, 0x1p-1074 * 3, 0x1p-1060, 0x1p1000, 0x1p15, 0x1p16, 0x1p-1, 1.0 / 3, -1.0 / 3, 2.0 / 3, 1e16, 1e-16, 4503599627370497.5, 0x1.8p0, 0x1.8p-1, 0x1.8p1, 0x1.8p-24, 0x1.8p-149}

// Constants renders the published special values of every format.
func Constants() string {
	var b bytes.Buffer
	for _, c := range codec.Enc {
		m := codec.Constants(c)
		for _, k := range []string{"NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero"} {
			fmt.Fprintf(&b, "%s.%s=%x ", c.Name, k, m[k])
		}
	}
	return b.String()
}

// AppendConstants is Constants, cheaper.
func AppendConstants(b []byte) []byte {
	for _, c := range codec.Enc {
		b = codec.AppendConstants(c, b)
	}
	return b
}
