package ops

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"

	float "github.com/mewmew/float"
	sc "github.com/mewmew/float/internal/strconv"
	"github.com/mewmew/float/vmc/codec"
)

// Call is a call whose argument is a number of bits, so that arguments can be
// enumerated without being listed: encodings and big mantissas in Hi and Lo,
// floats and integers in Lo. N are the small arguments: format, precision and
// size of a text; base of an integer; exponent, sign, precision and mode of a
// big.Float.
type Call struct {
	Fn     string
	Hi, Lo uint64
	N      [4]int
}

// String is the name of the call, which ParseCall reads.
func (c Call) String() string {
	return fmt.Sprintf("%s[%#x,%#x,%d,%d,%d,%d]", c.Fn, c.Hi, c.Lo, c.N[0], c.N[1], c.N[2], c.N[3])
}

// ParseCall reads what String printed.
func ParseCall(s string) (c Call, ok bool) {
	i := strings.IndexByte(s, '[')
	if i < 0 || c.init(s[:i]) == nil {
		return c, false
	}
	c.Fn = s[:i]
	n, err := fmt.Sscanf(s[i:], "[%v,%v,%d,%d,%d,%d]", &c.Hi, &c.Lo, &c.N[0], &c.N[1], &c.N[2], &c.N[3])
	return c, n == 6 && err == nil
}

type runner func(c *Call, x *big.Float) Out

var (
	runners = map[string]runner{}
	// CallFns are the functions a Call can name, by kind of argument.
	CallFns = map[string][]string{}
)

func (c *Call) init(fn string) runner { return runners[fn] }

// Op is the call as an operation; its expected result is still to be found.
func (c Call) Op() *Op {
	run := runners[c.Fn]
	o := &Op{Fn: c.Fn, Run: func(x *big.Float) Out { return run(&c, x) }}
	if c.takesBig() {
		o.Arg = c.Big
	}
	return o
}

func (c *Call) takesBig() bool {
	return strings.HasSuffix(c.Fn, "NewFromBig") || strings.HasPrefix(c.Fn, "IsExact")
}

// Big is the big.Float the call takes: (Hi:Lo)·2^N0, negated if N1 is odd, with
// precision N2 and mode N3, rounded down before if N1 has bit 1, up if bit 2; if
// N1 has bit 3, the words are repeated to N2 bits. nil when the call takes none.
func (c *Call) Big() *big.Float {
	if !c.takesBig() {
		return nil
	}
	x := new(big.Float).SetPrec(uint(c.N[2]))
	if c.N[1]&8 != 0 {
		w := make([]big.Word, c.N[2]/bits.UintSize)
		for i := range w {
			w[i] = big.Word(c.Lo)
			if i&1 == 1 {
				w[i] = big.Word(c.Hi)
			}
		}
		x.SetInt(new(big.Int).SetBits(w))
	} else if c.Hi == 0 {
		x.SetUint64(c.Lo)
	} else {
		m := new(big.Int).SetUint64(c.Hi)
		x.SetInt(m.Lsh(m, 64).Or(m, new(big.Int).SetUint64(c.Lo)))
	}
	x.SetMantExp(x, c.N[0])
	if c.N[1]&1 == 1 {
		x.Neg(x)
	}
	x.SetMode(big.RoundingMode(c.N[3]))
	switch c.N[1] >> 1 & 3 {
	case 1:
		return codec.Stale(x, big.Below, x.Mode())
	case 2:
		return codec.Stale(x, big.Above, x.Mode())
	}
	return x
}

// Run performs the call with the argument Big made.
func (c *Call) Run(x *big.Float) Out { return runners[c.Fn](c, x) }

func init() {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	acc := func(a big.Accuracy) uint64 { return uint64(a + 1) }
	def := func(kind, fn string, f runner) {
		runners[fn] = f
		CallFns[kind] = append(CallFns[kind], fn)
	}
	for _, c := range codec.All {
		c := c
		enc := func(d *Call) Bits { return Bits{Hi: d.Hi, Lo: d.Lo} }
		def(c.Name, c.Name+".Big", func(d *Call, _ *big.Float) Out {
			x, nan := c.Big(enc(d))
			return Out{W: [3]uint64{b2u(nan)}, Big: x}
		})
		def(c.Name, c.Name+".fields", func(d *Call, _ *big.Float) (o Out) {
			if c.Sign != nil {
				hi, lo := c.Frac(enc(d))
				o.W = [3]uint64{b2u(c.Sign(enc(d))) | uint64(c.Exp(enc(d)))<<1, hi, lo}
			}
			if c.Ident != nil {
				b := c.Ident(enc(d))
				o.W[0] ^= bits.RotateLeft64(b.Hi, 20)
				o.W[1] ^= bits.RotateLeft64(b.Lo, 1)
			}
			if c.IsNaN != nil {
				o.W[2] = b2u(c.IsNaN(enc(d)))
			}
			return o
		})
		if c.F32 != nil {
			def(c.Name, c.Name+".Float32", func(d *Call, _ *big.Float) Out {
				x, a := c.F32(enc(d))
				return Out{W: [3]uint64{uint64(math.Float32bits(x)), acc(a)}}
			})
			def(c.Name, c.Name+".Float64", func(d *Call, _ *big.Float) Out {
				x, a := c.F64(enc(d))
				return Out{W: [3]uint64{math.Float64bits(x), acc(a)}}
			})
		}
		if c.FromBig == nil {
			continue
		}
		def("big", c.Name+".NewFromBig", func(_ *Call, x *big.Float) Out {
			b, a := c.FromBig(x)
			return Out{W: [3]uint64{b.Hi, b.Lo, acc(a)}}
		})
		def("float64", c.Name+".NewFromFloat64", func(d *Call, _ *big.Float) Out {
			b, a := c.From64(math.Float64frombits(d.Lo))
			return Out{W: [3]uint64{b.Hi, b.Lo, acc(a)}}
		})
		def("float32", c.Name+".NewFromFloat32", func(d *Call, _ *big.Float) Out {
			b, a := c.From32(math.Float32frombits(uint32(d.Lo)))
			return Out{W: [3]uint64{b.Hi, b.Lo, acc(a)}}
		})
	}
	for _, e := range []struct {
		fn string
		f  func(*big.Float) bool
	}{{"IsExact16", float.IsExact16}, {"IsExact32", float.IsExact32}, {"IsExact64", float.IsExact64}} {
		e := e
		def("big", e.fn, func(_ *Call, x *big.Float) Out { return Out{W: [3]uint64{b2u(e.f(x))}} })
	}
	// N: verb, precision, size
	val := func(d *Call) float64 {
		if d.N[2] == 32 {
			return float64(math.Float32frombits(uint32(d.Lo)))
		}
		return math.Float64frombits(d.Lo)
	}
	def("text", "FormatFloat", func(d *Call, _ *big.Float) Out {
		return Out{S: sc.FormatFloat(val(d), byte(d.N[0]), d.N[1], d.N[2])}
	})
	def("text", "AppendFloat", func(d *Call, _ *big.Float) Out {
		return Out{Bytes: sc.AppendFloat(append(make([]byte, 0, 24), "<9"...), val(d), byte(d.N[0]), d.N[1], d.N[2])}
	})
	// N: base
	def("int", "FormatInt", func(d *Call, _ *big.Float) Out { return Out{S: sc.FormatInt(int64(d.Lo), d.N[0])} })
	def("int", "FormatUint", func(d *Call, _ *big.Float) Out { return Out{S: sc.FormatUint(d.Lo, d.N[0])} })
	def("int", "AppendInt", func(d *Call, _ *big.Float) Out {
		return Out{Bytes: sc.AppendInt(append(make([]byte, 0, 12), "x1"...), int64(d.Lo), d.N[0])}
	})
	def("int", "AppendUint", func(d *Call, _ *big.Float) Out {
		return Out{Bytes: sc.AppendUint(make([]byte, 0, 70), d.Lo, d.N[0])}
	})
}
