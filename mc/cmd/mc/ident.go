package main

import (
	"fmt"
	"math"

	"github.com/mewmew/float/vmc/codec"
	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/fam"
)

// --- C26: a value is its encoding ---------------------------------------------

// sameBehaviour compares everything two values of the same encoding show.
func sameBehaviour(v, u codec.Value) *eng.Mismatch {
	if g, h := codec.FieldsOf(v), codec.FieldsOf(u); g != h {
		return &eng.Mismatch{What: "accessors differ from those of its bits", Got: fmt.Sprint(g), Want: fmt.Sprint(h)}
	}
	x, nan := v.Big()
	y, nan2 := u.Big()
	if nan != nan2 || x.Cmp(y) != 0 || x.Signbit() != y.Signbit() || x.Prec() != y.Prec() || x.Mode() != y.Mode() {
		return &eng.Mismatch{What: "Big differs from that of its bits", Got: fmt.Sprint(bigStr(x), nan), Want: fmt.Sprint(bigStr(y), nan2)}
	}
	f, a := v.Float64()
	g, b := u.Float64()
	if math.Float64bits(f) != math.Float64bits(g) || a != b {
		return &eng.Mismatch{What: "Float64 differs from that of its bits", Got: fmt.Sprintf("%x %v", f, a), Want: fmt.Sprintf("%x %v", g, b)}
	}
	f32, a := v.Float32()
	g32, b := u.Float32()
	if f32bits(f32) != f32bits(g32) || a != b {
		return &eng.Mismatch{What: "Float32 differs from that of its bits", Got: fmt.Sprintf("%x %v", f32, a), Want: fmt.Sprintf("%x %v", g32, b)}
	}
	return nil
}

// equal is ==; values that cannot be compared are equal to nothing.
func equal(v, u codec.Value) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = false
		}
	}()
	return v == u
}

func checkIdent(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	var v codec.Value
	switch c.Op {
	case "frombig":
		w.R.States.Add(eng.HashInt(&c.M, uint64(c.E), b2u(c.Neg), uint64(c.Kind), uint64(c.Prec)))
		v, _ = cd.NewBig(argBig(c))
	case "from32":
		w.R.States.Add(eng.Mix(c.B[1], 32))
		v, _ = cd.New32(math.Float32frombits(uint32(c.B[1])))
	case "from64":
		w.R.States.Add(eng.Mix(c.B[1], 64))
		v, _ = cd.New64(math.Float64frombits(c.B[1]))
	case "const":
		w.R.States.Add(eng.HashString(c.Fmt + c.S))
		v = cd.ZeroValue()
		if c.S != "zero value" {
			v = codec.Published(cd)[c.S]
		} else if b := codec.BitsOf(v); b != (codec.Bits{}) {
			return &eng.Mismatch{What: "zero value", Got: bitsStr(b), Want: "positive zero"}
		}
	default: // distinct: encodings that differ are different values
		w.R.States.Add(eng.Mix(c.B[0], c.B[1]))
		b := codec.Bits{Hi: c.B[0], Lo: c.B[1]}
		v = cd.NewBits(b)
		n := 64
		if cd == codec.Half {
			n = 16
		}
		for i := 0; i < n; i++ {
			w.Transitions++
			d := codec.Bits{Hi: b.Hi, Lo: b.Lo ^ 1<<uint(i)}
			if equal(v, cd.NewBits(d)) {
				return &eng.Mismatch{What: "== of different encodings", Got: bitsStr(b) + " == " + bitsStr(d), Want: "not equal"}
			}
			if n == 64 && (cd == codec.Quad || i < 16) {
				d = codec.Bits{Hi: b.Hi ^ 1<<uint(i), Lo: b.Lo}
				if equal(v, cd.NewBits(d)) {
					return &eng.Mismatch{What: "== of different encodings", Got: bitsStr(b) + " == " + bitsStr(d), Want: "not equal"}
				}
			}
		}
	}
	w.Transitions += 4
	b := codec.BitsOf(v)
	w.R.Outcomes.Add(eng.Mix(b.Hi, b.Lo))
	u := cd.NewBits(b)
	if cd.F != nil && !equal(v, u) {
		return &eng.Mismatch{What: "value is not == to the value of its bits " + bitsStr(b), Got: fmt.Sprint(v), Want: fmt.Sprint(u)}
	}
	if d := codec.BitsOf(u); d != b {
		return &eng.Mismatch{What: "Bits of NewFromBits", Got: bitsStr(d), Want: bitsStr(b)}
	}
	return sameBehaviour(v, u)
}

func exploreIdent(r *eng.Run) {
	r.Rule = "state = argument of a constructor; transitions = the constructor, then every accessor and conversion on its result and on the value rebuilt from its bits, which must agree"
	r.Blocks("constants", "every published constant and the zero value of every format", 1, func(w *eng.Worker, _ int) {
		for _, cd := range codec.Enc {
			for _, n := range append([]string{"zero value"}, constNames...) {
				w.Do(&eng.Case{Op: "const", Fmt: cd.Name, S: n})
			}
		}
	})
	exploreFloats(r, codec.Enc...)
	exploreBig(r, "frombig", 0, codec.Enc...)
	for _, cd := range codec.Enc {
		if cd.F == nil {
			continue
		}
		f := cd.F
		if cd == codec.Half {
			exploreEncScale(r, 0, "distinct", cd)
			continue
		}
		fb := f.P - 1
		if f.Explicit {
			fb = 64
		}
		pats := append(fam.TransList(fb, 1), fam.Dense(fb)...)
		exps := boundaryExps(f)
		r.Blocks(cd.Name+": equality", fmt.Sprintf("%d exponent fields x %d fractions, each against every encoding that differs from it in one bit", len(exps), len(pats)), len(exps), func(w *eng.Worker, i int) {
			k := &eng.Case{Op: "distinct", Fmt: cd.Name}
			for j, u := range pats {
				b := f.Pack(j&1 == 1, exps[i], u.Hi, u.Lo)
				k.B = [2]uint64{b.Hi, b.Lo}
				w.Do(k)
			}
		})
	}
}

func init() {
	checks["C26"] = &check{checkIdent, exploreIdent}
}
