package main

import (
	"fmt"
	"math/big"

	"github.com/mewmew/float/vmc/codec"
	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/ref"
)

// C01..C05: decoding agrees with the format definition.

func checkDecode(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	cd := codec.ByName(c.Fmt)
	s := sc(w)
	b := codec.Bits{Hi: c.B[0], Lo: c.B[1]}
	anySign := cd.Decode(b, &s.v)
	v := &s.v
	w.R.States.Add(eng.Mix(b.Hi, b.Lo))
	if cd.Ident != nil {
		w.Transitions++
		if got := cd.Ident(b); got != b {
			return &eng.Mismatch{What: "encoding not preserved by NewFromBits/Bits", Got: bitsStr(got), Want: bitsStr(b)}
		}
	}
	if cd.F != nil {
		neg, exp, hi, lo := cd.F.Split(b)
		w.Transitions += 3
		if cd.Sign(b) != neg {
			return &eng.Mismatch{What: "Signbit", Got: fmt.Sprint(!neg), Want: fmt.Sprint(neg)}
		}
		if e := cd.Exp(b); e != exp {
			return &eng.Mismatch{What: "Exp", Got: fmt.Sprint(e), Want: fmt.Sprint(exp)}
		}
		if h, l := cd.Frac(b); h != hi || l != lo {
			return &eng.Mismatch{What: "Frac", Got: bitsStr(codec.Bits{Hi: h, Lo: l}), Want: bitsStr(codec.Bits{Hi: hi, Lo: lo})}
		}
	} else {
		w.Transitions++
		if got, want := cd.IsNaN(b), v.Kind == ref.NaN; got != want {
			return &eng.Mismatch{What: "IsNaN", Got: fmt.Sprint(got), Want: fmt.Sprint(want)}
		}
	}
	w.Transitions++
	x, nan := cd.Big(b)
	if nan != (v.Kind == ref.NaN) {
		return &eng.Mismatch{What: "Big: NaN indicator", Got: fmt.Sprint(nan), Want: v.String()}
	}
	if nan {
		if x.Signbit() != v.Neg && !anySign {
			return &eng.Mismatch{What: "Big: sign of NaN", Got: fmt.Sprint(x.Signbit()), Want: fmt.Sprint(v.Neg)}
		}
		w.R.Outcomes.Add(eng.Mix(3, b2u(v.Neg)))
		return nil
	}
	if !fitsBig(s, x, v, anySign) {
		return &eng.Mismatch{What: "Big: value", Got: bigStr(x), Want: v.String()}
	}
	p := uint(106)
	if cd.F != nil {
		p = uint(cd.F.P)
	}
	if x.Prec() < p || x.Mode() != big.ToNearestEven {
		return &eng.Mismatch{What: "Big: result does not carry the format's precision and rounding mode", Got: bigStr(x), Want: fmt.Sprintf("prec >= %d, ToNearestEven", p)}
	}
	w.R.Outcomes.Add(eng.HashInt(&v.M, uint64(v.E), b2u(v.Neg), uint64(v.Kind)))
	return nil
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func init() {
	for id, c := range map[string]*codec.Codec{"C01": codec.Half, "C02": codec.BFloat, "C03": codec.Quad, "C04": codec.X80, "C05": codec.DD} {
		c := c
		checks[id] = &check{checkDecode, func(r *eng.Run) {
			r.Rule = "state = encoding; transition = one accessor/decoder call on the real code compared with the model; trace = all accessors of one encoding"
			exploreEncScale(r, 2, "decode", c)
		}}
	}
}
