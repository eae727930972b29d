package main

import (
	"fmt"
	"math"
	"math/big"
	stdconv "strconv"

	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/fam"
	"github.com/mewmew/float/vmc/ref"
)

// Mixed families: many independent choices per call, every combination of
// levels of any two or three of them (see fam.Cover).

// valMix is a way to make a value from choices: the number of choices, and the
// value of a row.
type valMix struct {
	name, bound string
	n           int
	f           func(lv []int, q, row int) (x float64, ok bool)
}

// bitsMix: sign, exponent and the bits of the fraction. A value for 32 bits is
// a float32 in three rows of four, and lies between two of them in the other.
func bitsMix(size int) valMix {
	var exps *fam.Spread
	switch size {
	case 16:
		exps = &fam.Spread{Lo: 1023 - 27, Hi: 1023 + 17, Special: []int{1023 - 25, 1023 - 24, 1023 - 15, 1023 - 14, 1023, 1023 + 10, 1023 + 15, 1023 + 16}}
	case 32:
		exps = &fam.Spread{Lo: 0, Hi: 254, Special: []int{0, 1, 2, 103, 117, 126, 127, 128, 130, 137, 147, 149, 150, 151, 152, 180, 190, 253, 254}}
	default:
		exps = &fam.Spread{Lo: 0, Hi: 2046, Special: []int{0, 1, 2, 500, 900, 1009, 1022, 1023, 1024, 1026, 1033, 1050, 1070, 1074, 1075, 1076, 1077, 1080, 1100, 1130, 1500, 2045, 2046}}
	}
	return valMix{"bits", fmt.Sprintf("sign, exponent (%d special ones and the range), middle, top and low byte of the fraction and runs at either end", len(exps.Special)), 2 + fam.PatChoices, func(lv []int, q, row int) (float64, bool) {
		neg := uint64(fam.Level(lv[0], q, 2, row))
		e := uint64(exps.At(lv[1], q, row))
		if size != 32 {
			return f64(neg<<63 | e<<52 | fam.Pattern(52, lv[2:], q, row).Lo), true
		}
		u := fam.Pattern(23, lv[2:], q, row).Lo
		x := math.Float64bits(float64(math.Float32frombits(uint32(neg<<31 | e<<23 | u))))
		if row&3 == 3 && e > 0 {
			x |= []uint64{1, 1<<28 - 1, 1 << 28, 1<<28 + 1, 1<<29 - 1, uint64(row) * 2654435761 & (1<<29 - 1)}[row>>2%6]
		}
		return f64(x), true
	}}
}

// digitsMix: the float next to a decimal of chosen shape, or one beside it.
func digitsMix(size int) valMix {
	lo, hi, most := -345, 309, 19
	special := []int{-324, -323, -308, -307, -100, -45, -22, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 5, 6, 10, 15, 16, 17, 20, 21, 22, 23, 27, 38, 100, 307, 308}
	switch size {
	case 16:
		lo, hi, special = -9, 5, []int{-8, -5, -4, -1, 0, 4}
	case 32:
		lo, hi, special = -48, 39, []int{-45, -44, -38, -37, -10, -5, -4, -1, 0, 1, 5, 6, 7, 10, 16, 20, 21, 22, 37, 38}
	}
	exps := &fam.Spread{Lo: lo, Hi: hi, Special: special}
	return valMix{"digits", fmt.Sprintf("sign, number of digits (1..%d), decimal exponent %d..%d, first two digits, last two, the ones between (zeros, nines, 4 and nines, 5 and zeros, others), and the float nearest to the decimal or one of four about it", most, lo, hi), 7, func(lv []int, q, row int) (float64, bool) {
		n := 1 + fam.Level(lv[1], q, most, row)
		first := stdconv.Itoa(10 + fam.Level(lv[2], q, 90, row))
		last := fmt.Sprintf("%02d", fam.Level(lv[3], q, 100, row))
		mid := []string{"000000000000000000", "999999999999999999", "499999999999999999", "500000000000000000", "314159265358979323", "444444444444444444", "123456789012345678", "000000000000000001"}[fam.Level(lv[4], q, 8, row)]
		b := []byte(first + mid)[:n]
		for i := 0; i < 2 && n-1-i >= 1; i++ {
			b[n-1-i] = last[1-i]
		}
		e := exps.At(lv[5], q, row)
		bits := size
		if bits == 16 {
			bits = 64
		}
		x, err := stdconv.ParseFloat(string(b[:1])+"."+string(b[1:])+"e"+stdconv.Itoa(e), bits)
		if err != nil {
			return 0, false
		}
		d := []int64{0, -1, 1, -2, 2}[fam.Level(lv[6], q, 5, row)]
		if size == 32 {
			v := int64(math.Float32bits(float32(x))) + d
			if v < 0 || v >= 0x7F800000 {
				return 0, false
			}
			x = float64(math.Float32frombits(uint32(v)))
		} else {
			v := int64(math.Float64bits(x)) + d
			if v < 0 || v >= 0x7FF<<52 {
				return 0, false
			}
			x = f64(uint64(v))
		}
		if fam.Level(lv[0], q, 2, row) == 1 {
			x = -x
		}
		return x, true
	}}
}

var mixVerbs = []string{"e", "f", "g", "E", "G", "b", "e", "f", "g"}

var mixPrecs = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 32, 40, 50, 64, 75, 100}

// longPrecs need many digits of the exact expansion.
var longPrecs = []int{120, 200, 300, 400, 700, 767, 768, 800, 801, 1074, 1100}

// mixFloats explores the texts of mixed values. With a precision, it is a
// choice of its own.
func mixFloats(r *eng.Run, size int, fixed bool, m valMix, sizes []fam.Size) {
	extra, what := 1, "verb"
	op := "short"
	if fixed {
		extra, what = 2, "verb, precision"
		op = "fixed"
	}
	for _, c := range sizes {
		c := c
		r.Blocks(fmt.Sprintf("%d bits, mixed %s, every %d of %d choices", size, m.name, c.T, m.n+extra), fmt.Sprintf("orthogonal array of strength %d over GF(%d): %s (precisions %v, and %v in one row of 61); %s", c.T, c.Q, what, mixPrecs, longPrecs, m.bound), c.Q, func(w *eng.Worker, i int) {
			k := &eng.Case{Op: op, Prec: uint(size), N: -1}
			fam.Cover(c.Q, c.T, m.n+extra, i, func(row int, lv []int) {
				x, ok := m.f(lv, c.Q, row)
				if !ok {
					return
				}
				k.B[1] = math.Float64bits(x)
				k.S = mixVerbs[fam.Level(lv[m.n], c.Q, len(mixVerbs), row)]
				if fixed {
					l := lv[m.n+1]
					k.N = mixPrecs[fam.Level(l, c.Q, len(mixPrecs), row)]
					if row%61 == 0 {
						k.N = longPrecs[l%len(longPrecs)]
					}
				}
				w.Do(k)
			})
		})
	}
}

// mixInts explores the texts of mixed integers.
func mixInts(r *eng.Run, sizes []fam.Size, do func(w *eng.Worker, c *eng.Case, u uint64)) {
	for _, c := range sizes {
		c := c
		r.Blocks(fmt.Sprintf("mixed bits, every %d of 9 choices", c.T), fmt.Sprintf("orthogonal array of strength %d over GF(%d): base, number of bits, middle, top and low byte and runs at either end, length of the buffer appended to and room in it", c.T, c.Q), c.Q, func(w *eng.Worker, i int) {
			k := &eng.Case{Op: "int"}
			fam.Cover(c.Q, c.T, 9, i, func(row int, lv []int) {
				k.N = 2 + fam.Level(lv[0], c.Q, 35, row)
				k.E, k.Prec = mixBuf(lv[7:], c.Q, row)
				n := 1 + fam.Level(lv[1], c.Q, 64, row)
				do(w, k, fam.Pattern(n, lv[2:], c.Q, row).Lo|1<<uint(n-1))
			})
		})
		r.Blocks(fmt.Sprintf("mixed digits, every %d of 9 choices", c.T), fmt.Sprintf("orthogonal array of strength %d over GF(%d): base of the text, base of the digits (the same, 10 or 100), their number, first and last two, the ones between (zeros, highest, alternating, counting), trailing zeros, length of the buffer appended to and room in it", c.T, c.Q), c.Q, func(w *eng.Worker, i int) {
			k := &eng.Case{Op: "int"}
			fam.Cover(c.Q, c.T, 9, i, func(row int, lv []int) {
				k.N = 2 + fam.Level(lv[0], c.Q, 35, row)
				k.E, k.Prec = mixBuf(lv[7:], c.Q, row)
				base := uint64(k.N)
				if s := fam.Level(lv[1], c.Q, 4, row); s == 1 || s == 2 {
					base = 10
				} else if s == 3 {
					k.N, base = 10, 10
				}
				most := 0
				for v := ^uint64(0); v > 0; v /= base {
					most++
				}
				n := 1 + fam.Level(lv[2], c.Q, most, row)
				d := make([]uint64, n)
				mid := fam.Level(lv[5], c.Q, 6, row)
				for j := range d {
					switch mid {
					case 1:
						d[j] = base - 1
					case 2:
						d[j] = uint64(j) & 1 * (base - 1)
					case 3:
						d[j] = uint64(j) % base
					case 4:
						d[j] = uint64(j*j+row) % base
					case 5:
						d[j] = 1
					}
				}
				l := uint64(fam.Level(lv[4], c.Q, int(base*base), row))
				d[n-1] = l % base
				if n > 1 {
					d[n-2] = l / base
				}
				f := uint64(fam.Level(lv[3], c.Q, int(base*base), row))
				d[0] = max(1, f%base)
				if n > 1 && row&1 == 0 {
					d[1] = f / base
				}
				if z := fam.Level(lv[6], c.Q, 3*n, row); z < n {
					for j := n - z; j < n; j++ {
						d[j] = 0
					}
				}
				u := uint64(0)
				for _, v := range d {
					if u > (math.MaxUint64-v)/base {
						return
					}
					u = u*base + v
				}
				do(w, k, u)
			})
		})
	}
}

// mixExact explores IsExact16, 32 and 64 on mixed values about a format.
func mixExact(r *eng.Run, sizes []fam.Size) {
	for _, f := range []*ref.Format{ref.Half, ref.F32, ref.F64} {
		for _, c := range sizes {
			f, c := f, c
			var special []int
			for _, d := range []int{-f.P - 1, -f.P, -f.P + 1, -f.P + 2, -f.P / 2, -2, -1, 0, 1} {
				special = append(special, f.Emin+d)
			}
			special = append(special, -1, 0, 1, f.P-1, f.P, f.Emax-1, f.Emax, f.Emax+1)
			exps := &fam.Spread{Lo: f.Emin - f.P - 2, Hi: f.Emax + 2, Special: special}
			r.Blocks(fmt.Sprintf("about %s, mixed, every %d of 11 choices", f.Name, c.T), fmt.Sprintf("orthogonal array of strength %d over GF(%d): exponent, the kept bits (middle, top and low byte, runs at either end), the place of one more bit below, precision, mode, sign, stale accuracy", c.T, c.Q), c.Q, func(w *eng.Worker, i int) {
				k := &eng.Case{Op: "exact", Kind: uint8(ref.Fin)}
				fam.Cover(c.Q, c.T, 11, i, func(row int, lv []int) {
					top := exps.At(lv[0], c.Q, row)
					n := f.P
					if top < f.Emin {
						n = max(1, n-(f.Emin-top))
					}
					u := fam.Pattern(n, lv[1:], c.Q, row).Or(fam.Bit(n - 1))
					ref.SetU128(&k.M, u.Hi, u.Lo)
					if l := fam.Level(lv[6], c.Q, 128, row); l >= 64 {
						l = (l-64)*(l-64)/12 + 1
						k.M.Lsh(&k.M, uint(l)).SetBit(&k.M, 0, 1)
						n += l
					}
					k.E = top - (n - 1)
					if z := k.M.TrailingZeroBits(); z > 0 {
						k.M.Rsh(&k.M, z)
						k.E += int(z)
					}
					k.Prec = uint(k.M.BitLen() + fam.Level(lv[7], c.Q, 130, row))
					k.Mode = exactModes[fam.Level(lv[8], c.Q, 6, row)]
					k.Neg = fam.Level(lv[9], c.Q, 2, row) == 1
					k.Acc = int8(fam.Level(lv[10], c.Q, 3, row)) - 1
					w.Do(k)
					k.Acc = 0
				})
			})
		}
	}
}

var exactModes = []big.RoundingMode{big.ToNearestEven, big.ToNearestAway, big.ToZero, big.AwayFromZero, big.ToNegativeInf, big.ToPositiveInf}

// mixBuf chooses the length of a buffer and the room in it.
func mixBuf(lv []int, q, row int) (n int, room uint) {
	n = fam.Level(lv[0], q, 48, row)
	if n >= 36 {
		n = []int{40, 63, 64, 65, 80, 100, 127, 128, 255, 300, 1000, 4096}[n-36]
	}
	return n, uint(fam.Level(lv[1], q, 73, row))
}

// mixAppends explores appending mixed values to buffers.
func mixAppends(r *eng.Run, sizes []fam.Size) {
	for _, size := range []int{16, 32, 64} {
		for _, m := range []valMix{bitsMix(size), digitsMix(size)} {
			for _, c := range sizes {
				size, m, c := size, m, c
				r.Blocks(fmt.Sprintf("%d bits, mixed %s, every %d of %d choices", size, m.name, c.T, m.n+4), fmt.Sprintf("orthogonal array of strength %d over GF(%d): verb, precision (%v, negative ones), length of the buffer appended to, room in it; %s", c.T, c.Q, mixPrecs, m.bound), c.Q, func(w *eng.Worker, i int) {
					k := &eng.Case{Op: "float"}
					k.C[0] = uint64(size)
					fam.Cover(c.Q, c.T, m.n+4, i, func(row int, lv []int) {
						x, ok := m.f(lv, c.Q, row)
						if !ok {
							return
						}
						k.B[1] = math.Float64bits(x)
						k.C[1] = uint64(mixVerbs[fam.Level(lv[m.n], c.Q, len(mixVerbs), row)][0])
						k.N = -1
						if l := fam.Level(lv[m.n+1], c.Q, len(mixPrecs)+12, row); l < len(mixPrecs) {
							k.N = mixPrecs[l]
						} else if l == len(mixPrecs) {
							k.N = -2
						}
						k.E, k.Prec = mixBuf(lv[m.n+2:], c.Q, row)
						w.Do(k)
					})
				})
			}
		}
	}
}
