package main

import (
	"fmt"
	"math/big"

	"github.com/mewmew/float/vmc/codec"
	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/fam"
	"github.com/mewmew/float/vmc/ref"
)

// Mixed families: many independent choices per argument, every combination of
// levels of any two or three of them (see fam.Cover).

// rest appends to m the bits after a rounding point: a first bit, a run of one
// bit and one that ends it. It returns how many.
func rest(m *big.Int, lv, q, row int) int {
	l := fam.Level(lv, q, 24+4*62, row)
	if l < 24 {
		return 0
	}
	l -= 24
	n := l >> 2
	if row%5 == 0 {
		n += 62
	}
	var t big.Int
	if l&2 != 0 {
		t.SetBit(&t, n, 1).Sub(&t, one)
	}
	if l&1 != 0 {
		t.SetBit(&t, n, 1)
	}
	t.Lsh(&t, 1)
	if l&2 == 0 {
		t.SetBit(&t, 0, 1)
	}
	m.Lsh(m, uint(n+2)).Or(m, &t)
	return n + 2
}

var one = big.NewInt(1)

var mixPrecs = []int{11, 24, 32, 53, 54, 63, 64, 65, 96, 106, 107, 112, 113, 114, 127, 128, 129, 192, 200, 256, 257, 300, 512, 1000, 2000}

var mixLens = []int{54, 63, 64, 65, 66, 107, 114, 115, 127, 128, 129, 191, 192, 193, 255, 256, 257, 319, 320, 321, 500, 1000}

// finMixed builds the value of a row: kept bits of a p-bit format (and, for a
// double-double, those of the low part), what follows them, and the exponent.
func finMixed(k *eng.Case, p, emin int, dd bool, exps *fam.Spread, lv []int, q, row int) {
	top := exps.At(lv[0], q, row)
	keep := p
	if top < emin {
		keep = max(1, p-(emin-top))
	}
	u := fam.Pattern(keep, lv[1:], q, row).Or(fam.Bit(keep - 1))
	ref.SetU128(&k.M, u.Hi, u.Lo)
	n := keep
	n += rest(&k.M, lv[6], q, row)
	if dd {
		low := fam.Pattern(53, lv[11:], q, row)
		var t big.Int
		k.M.Lsh(&k.M, 53).Or(&k.M, ref.SetU128(&t, low.Hi, low.Lo))
		n += 53
		n += rest(&k.M, lv[16], q, row)
	}
	// down to a last bit further below
	if c := fam.Level(lv[7], q, 3*len(mixLens), row); c < len(mixLens) && mixLens[c] > n {
		k.M.Lsh(&k.M, uint(mixLens[c]-n)).SetBit(&k.M, 0, 1)
		n = mixLens[c]
	}
	k.E = top - (n - 1)
	strip(k)
}

func bigExps(cd *codec.Codec) (s *fam.Spread, p, emin int) {
	if cd == codec.DD {
		s = &fam.Spread{Lo: -1130, Hi: 1026, Special: []int{-1076, -1075, -1074, -1073, -1050, -1024, -1023, -1022, -1021, -1020, -971, -970, -969, -968, -967, -918, -917, -916, -500, -53, -1, 0, 1, 52, 53, 54, 63, 64, 105, 106, 107, 500, 970, 1000, 1021, 1022, 1023, 1024}}
		return s, 53, -1022
	}
	f := cd.F
	return &fam.Spread{Lo: f.Emin - f.P - 3, Hi: f.Emax + 3, Special: selectedTops(f)}, f.P, f.Emin
}

// bigMixed are mixed arguments of an encoder.
func bigMixed(cd *codec.Codec, thorough bool, scale int) []bigFam {
	var out []bigFam
	exps, p, emin := bigExps(cd)
	modes := []big.RoundingMode{big.ToNearestEven, big.ToNearestAway, big.ToZero, big.AwayFromZero, big.ToNegativeInf, big.ToPositiveInf}
	cs := 11
	if cd == codec.DD {
		cs = 17
	}
	for _, c := range fam.Sizes(thorough, scale) {
		c := c
		out = append(out, bigFam{fmt.Sprintf("mixed, every %d of %d choices", c.T, cs),
			fmt.Sprintf("orthogonal array of strength %d over GF(%d): exponent (%d special ones and the range), middle, top and low byte of the kept bits and runs at either end, first bit after them and the run that follows, length, precision of the argument, rounding mode, sign, stale accuracy; for a double-double the same of the low part", c.T, c.Q, len(exps.Special)), c.Q, func(i int, k *eng.Case, emit func()) {
				k.Kind = uint8(ref.Fin)
				fam.Cover(c.Q, c.T, cs, i, func(row int, lv []int) {
					finMixed(k, p, emin, cd == codec.DD, exps, lv, c.Q, row)
					k.Mode = modes[fam.Level(lv[8], c.Q, 6, row)]
					if l := fam.Level(lv[9], c.Q, 66+2*len(mixPrecs), row); l < 66 {
						k.Prec = uint(k.M.BitLen() + l)
					} else {
						k.Prec = uint(mixPrecs[(l-66)/2])
					}
					l := fam.Level(lv[10], c.Q, 6, row)
					k.Neg = l&1 == 1
					k.Acc = int8(l>>1) - 1
					emit()
					k.Acc = 0
				})
			}})
	}
	return out
}

// encMixed are mixed encodings.
func encMixed(cd *codec.Codec, thorough bool, scale int) []encFam {
	var out []encFam
	for _, c := range fam.Sizes(thorough, scale) {
		c := c
		if cd.F == nil {
			f := ref.F64
			hi := &fam.Spread{Lo: 0, Hi: 2047, Special: []int{0, 1, 2, 52, 53, 54, 105, 106, 107, 897, 970, 1022, 1023, 1024, 1076, 1150, 2045, 2046, 2047}}
			gap := &fam.Spread{Lo: -10, Hi: 120, Special: []int{-200, -54, -53, -52, -1, 0, 1, 2, 50, 51, 52, 53, 54, 55, 105, 106, 107, 108, 109, 128, 150, 200, 500, 1000, 1022, 1023, 1500, 2000}}
			out = append(out, encFam{fmt.Sprintf("mixed, every %d of 13 choices", c.T), fmt.Sprintf("orthogonal array of strength %d over GF(%d): exponent of the high part, gap to the low one, signs, and of either fraction the middle, top and low byte and runs at either end", c.T, c.Q), c.Q, func(i int, emit func(codec.Bits)) {
				fam.Cover(c.Q, c.T, 13, i, func(row int, lv []int) {
					e := hi.At(lv[0], c.Q, row)
					le := e - gap.At(lv[1], c.Q, row)
					if le < 0 || le > 2047 {
						le = (le%2048 + 2048) % 2048
					}
					s := fam.Level(lv[2], c.Q, 4, row)
					emit(codec.Bits{Hi: f.Pack(s&1 == 1, e, 0, fam.Pattern(52, lv[3:], c.Q, row).Lo).Lo, Lo: f.Pack(s&2 == 2, le, 0, fam.Pattern(52, lv[8:], c.Q, row).Lo).Lo})
				})
			}})
			continue
		}
		f := cd.F
		fb := f.P - 1
		if f.Explicit {
			fb = f.P
		}
		exps := &fam.Spread{Lo: 0, Hi: 1<<uint(f.ExpBits) - 1, Special: boundaryExps(f)}
		out = append(out, encFam{fmt.Sprintf("mixed, every %d of 7 choices", c.T), fmt.Sprintf("orthogonal array of strength %d over GF(%d): exponent field (%d special ones and the range), sign, middle or bits about the word boundary, top and low byte of the significand and runs at either end", c.T, c.Q, len(exps.Special)), c.Q, func(i int, emit func(codec.Bits)) {
			fam.Cover(c.Q, c.T, 7, i, func(row int, lv []int) {
				u := fam.Pattern(fb, lv[2:], c.Q, row)
				emit(f.Pack(fam.Level(lv[1], c.Q, 2, row) == 1, exps.At(lv[0], c.Q, row), u.Hi, u.Lo))
			})
		}})
	}
	return out
}

// narrowMixed are encodings whose narrowing to float32 or float64 is decided
// at a mixed place.
func narrowMixed(cd *codec.Codec, thorough bool, scale int) []encFam {
	var out []encFam
	for _, d := range []*ref.Format{ref.F32, ref.F64} {
		for _, c := range fam.Sizes(thorough, scale) {
			d, c := d, c
			exps := &fam.Spread{Lo: d.Emin - d.P - 3, Hi: d.Emax + 2, Special: selectedTops(d)}
			out = append(out, encFam{fmt.Sprintf("%s, mixed, every %d of 9 choices", d.Name, c.T), fmt.Sprintf("orthogonal array of strength %d over GF(%d): exponent about the range of %s, its kept bits as for the encoders, what follows them, length, sign", c.T, c.Q, d.Name), c.Q, func(i int, emit func(codec.Bits)) {
				var k eng.Case
				var v ref.Val
				fam.Cover(c.Q, c.T, 9, i, func(row int, lv []int) {
					finMixed(&k, d.P, d.Emin, false, exps, lv, c.Q, row)
					v.SetFin(fam.Level(lv[8], c.Q, 2, row) == 1, &k.M, k.E)
					if cd.F != nil {
						emit(cd.F.Encode(&v))
					} else {
						d := ref.EncodeDD(&v)
						emit(codec.Bits{Hi: d.Hi, Lo: d.Lo})
					}
				})
			}})
		}
	}
	return out
}

// strip leaves no trailing zeros in the magnitude.
func strip(k *eng.Case) {
	if z := k.M.TrailingZeroBits(); z > 0 {
		k.M.Rsh(&k.M, z)
		k.E += int(z)
	}
}
