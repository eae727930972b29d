package fam

// Covering arrays. A family with many independent choices (sign, exponent,
// leading bits, trailing bits, rounding mode, ...) has too large a product to
// enumerate; what is enumerated instead is every combination of levels of any
// t of the choices, the others varying along. The rows are the polynomials of
// degree < t over GF(q) evaluated at the points 0..k-1, an orthogonal array of
// strength t: two rows agree in fewer than t columns, so every t columns show
// every t-tuple of 0..q-1 exactly once.

// Cover calls f with row number and the levels (0..q-1) of k choices, for the
// rows of one block; there are q blocks of q^(t-1) rows. q is prime and >= k.
func Cover(q, t, k, block int, f func(row int, lv []int)) {
	pw := make([]int, k*t) // pw[j*t+i] = j^i mod q
	for j := 0; j < k; j++ {
		v := 1
		for i := 0; i < t; i++ {
			pw[j*t+i] = v
			v = v * j % q
		}
	}
	n := 1
	for i := 1; i < t; i++ {
		n *= q
	}
	lv := make([]int, k)
	c := make([]int, t)
	c[t-1] = block
	for r := 0; r < n; r++ {
		x := r
		for i := 0; i < t-1; i++ {
			c[i] = x % q
			x /= q
		}
		for j := 0; j < k; j++ {
			s := 0
			for i, v := range c {
				s += v * pw[j*t+i]
			}
			lv[j] = s % q
		}
		f(block*n+r, lv)
	}
}

// Level maps a level 0..q-1 to one of n choices: exactly, when n <= q; and
// else over the rows, which differ in where they start.
func Level(lv, q, n, row int) int {
	if n > q {
		w := (n + q - 1) / q
		lv += q * ((row ^ row>>7 ^ row>>13) % w)
	}
	return lv % n
}

// A Size is the size of a covering array: strength T over GF(Q).
type Size struct{ Q, T int }

// Sizes are the arrays used at a tier.
func Sizes(thorough bool, scale int) []Size {
	switch {
	case thorough:
		return []Size{{521, 2}, {257, 3}, {61, 4}}
	case scale >= 2:
		return []Size{{521, 2}, {179, 3}}
	case scale == 1:
		return []Size{{521, 2}, {101, 3}}
	}
	return []Size{{257, 2}, {61, 3}}
}

// PatChoices: a pattern is built from five choices.
const PatChoices = 5

var patMids = []U{{}, Ones(128), {Hi: 0x5555555555555555, Lo: 0x5555555555555555}, {Hi: 0xAAAAAAAAAAAAAAAA, Lo: 0xAAAAAAAAAAAAAAAA}, {Hi: 0x243F6A8885A308D3, Lo: 0x13198A2E03707344}, {Lo: ^uint64(0)}, {Hi: ^uint64(0)}, {Hi: 0x0123456789ABCDEF, Lo: 0xFEDCBA9876543210}}

// Pattern makes an n-bit pattern (n <= 128) from its middle (or the bits about
// the word boundary), its top byte, its low byte and runs at either end.
func Pattern(n int, lv []int, q, row int) U {
	m := Ones(n)
	mid := Level(lv[0], q, 8+256, row)
	var u U
	if mid < 8 {
		u = patMids[mid]
	} else {
		u = patMids[row&7]
		b := U{Hi: 0xF, Lo: 0xF << 60}
		u.Hi, u.Lo = u.Hi&^b.Hi, u.Lo&^b.Lo
		u = u.Or(Shl(uint64(mid-8), 60))
	}
	u.Hi, u.Lo = u.Hi&m.Hi, u.Lo&m.Lo
	set := func(v uint64, at, w int) { // w bits at bit at
		if at < 0 {
			v, w, at = v>>uint(-at), w+at, 0
		}
		b := Shl(1<<uint(w)-1, at)
		u.Hi, u.Lo = u.Hi&^b.Hi, u.Lo&^b.Lo
		u = u.Or(Shl(v, at))
	}
	if n > 8 {
		set(uint64(Level(lv[1], q, 256, row)), n-8, 8)
		set(uint64(Level(lv[2], q, 256, row)), 0, 8)
	} else {
		set(uint64(Level(lv[2], q, 256, row))&m.Lo, 0, 8)
	}
	// runs: in the first half of the levels there is none
	run := func(l int, top bool) {
		c := Level(l, q, 4*n, row)
		if c < 2*n {
			return
		}
		c -= 2 * n
		k := 1 + c/2
		b := Ones(k)
		if top {
			b = m.Xor(Ones(n - k))
		}
		u.Hi, u.Lo = u.Hi&^b.Hi, u.Lo&^b.Lo
		if c&1 == 1 {
			u = u.Or(b)
		}
		// the bit that ends the run
		e := U{}
		if k < n {
			e = Bit(k)
			if top {
				e = Bit(n - 1 - k)
			}
		}
		if c&1 == 1 {
			u.Hi, u.Lo = u.Hi&^e.Hi, u.Lo&^e.Lo
		} else {
			u = u.Or(e)
		}
	}
	run(lv[3], false)
	run(lv[4], true)
	return u
}

// Spread are levels of an exponent: every other one is a special one, the rest
// are spread over the range, and move along with the rows.
type Spread struct {
	Special []int
	Lo, Hi  int
}

func (s *Spread) At(lv, q, row int) int {
	if lv&1 == 0 {
		return s.Special[Level(lv/2, (q+1)/2, len(s.Special), row)]
	}
	n := s.Hi - s.Lo + 1
	step := max(1, n/(q/2))
	return s.Lo + ((lv/2)*step+row%step)%n
}
