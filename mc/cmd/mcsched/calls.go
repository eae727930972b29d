package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/ops"
	"github.com/mewmew/float/vmc/vsched"
)

// lookup finds an operation by name: one of the alphabet, or a call with
// enumerated arguments, whose expected result is then computed.
func lookup(n string) *ops.Op {
	if o := byName[n]; o != nil {
		return o
	}
	c, ok := ops.ParseCall(n)
	if !ok {
		return nil
	}
	o := c.Op()
	o.Name = n
	if x := o.NewArg(); x != nil {
		o.ArgW = ops.AppendBig(nil, x)
	}
	vsched.ResetAll()
	vsched.Budget = 1 << 24
	r := o.Run(o.NewArg())
	o.Want = r.Append(nil)
	byName[n] = o
	return o
}

var seed = maphash.MakeSeed()

// hashCall makes a call and hashes the result. It reports whether the argument
// was left alone.
func hashCall(k *ops.Call, x *big.Float, spoil bool) (h uint64, intact bool) {
	vsched.Budget = 1 << 24
	intact = true
	var ab [256]byte
	var before []byte
	if x != nil {
		before = ops.AppendBig(ab[:0], x)
	}
	r := k.Run(x)
	hBuf = r.Append(hBuf[:0])
	h = maphash.Bytes(seed, hBuf)
	if x != nil {
		hBuf = ops.AppendBig(hBuf[:0], x)
		intact = bytes.Equal(hBuf, before)
	}
	if spoil {
		r.Spoil()
		if x != nil {
			ops.SpoilBig(x)
		}
	}
	return
}

// report turns a failing history of enumerated calls into a case: the shortest
// of its suffixes of doubling length, and of pairs with its last call, that
// still fails.
func (c *child) report(l []ops.Call, spoil bool, m *eng.Mismatch) {
	try := func(l []ops.Call) *eng.Mismatch {
		h := make([]*ops.Op, len(l))
		for i, k := range l {
			h[i] = lookup(k.String())
		}
		return guarded(func() *eng.Mismatch { return history(h, spoil) })
	}
	name := func(l []ops.Call) *scenario {
		s := &scenario{Threads: [][]string{nil}, Spoil: spoil}
		for _, k := range l {
			s.Threads[0] = append(s.Threads[0], k.String())
		}
		return s
	}
	n := len(l) - 1
	for i := n - 1; i >= 0 && i >= n-20000; i-- {
		p := []ops.Call{l[i], l[n]}
		if m := try(p); m != nil {
			c.fail(name(p), m, "history")
		}
	}
	for k := 1; k <= n; k *= 2 {
		if m := try(l[n-k:]); m != nil {
			c.fail(name(l[n-k:]), m, "history")
		}
	}
	c.fail(name(l), m, "history")
}

// fresh is the hash of a call's result in the initial state.
func (c *child) fresh(k *ops.Call) (h uint64) {
	c.note(func() *scenario { return &scenario{Threads: [][]string{{k.String()}}} })
	m := guarded(func() *eng.Mismatch {
		vsched.ResetAll()
		h, _ = hashCall(k, k.Big(), false)
		return nil
	})
	if m != nil {
		c.fail(&scenario{Threads: [][]string{{k.String()}}}, m, "history")
	}
	return
}

// pair runs a then b from the initial state; wb is the hash of b's own result.
func (c *child) pair(g *childGroup, a, b *ops.Call, wb uint64) {
	g.Cases++
	g.States += 2
	c.out.Transitions += 2
	c.note(func() *scenario { return &scenario{Threads: [][]string{{a.String(), b.String()}}} })
	m := guarded(func() *eng.Mismatch {
		vsched.ResetAll()
		hashCall(a, a.Big(), false)
		if h, _ := hashCall(b, b.Big(), false); h != wb {
			return &eng.Mismatch{What: fmt.Sprintf("call 2, %s, depends on what was called before", b), Got: string(hBuf), Want: "the result it has in the initial state"}
		}
		return nil
	})
	if m != nil {
		c.report([]ops.Call{*a, *b}, false, m)
	}
	if g.Cases&4095 == 0 {
		c.tick([]ops.Call{*a, *b})
	}
}

func (c *child) tick(l []ops.Call) {
	s := &scenario{Threads: [][]string{nil}}
	for _, k := range l {
		s.Threads[0] = append(s.Threads[0], k.String())
	}
	c.cur.Store(s)
	c.stamp()
}

// sweep makes all calls one after the other without going back to the initial
// state in between. want holds the hash of each call's own result.
func (c *child) sweep(g *childGroup, n int, at func(i int) (ops.Call, uint64), spoil bool) {
	g.Cases++
	g.States += int64(n)
	c.out.Transitions += int64(n)
	vsched.ResetAll()
	prefix := func(i int) (l []ops.Call) {
		for j := 0; j <= i; j++ {
			k, _ := at(j)
			l = append(l, k)
		}
		return
	}
	for i := 0; i < n; i++ {
		k, w := at(i)
		c.note(func() *scenario { return &scenario{Threads: [][]string{{k.String()}}, Spoil: spoil} })
		m := guarded(func() *eng.Mismatch {
			h, intact := hashCall(&k, k.Big(), spoil)
			if h != w {
				return &eng.Mismatch{What: fmt.Sprintf("call %d, %s, depends on what was called before", i+1, k), Got: "another result", Want: "the result it has in the initial state"}
			}
			if !intact {
				return &eng.Mismatch{What: fmt.Sprintf("call %d, %s, changes its argument", i+1, k), Got: string(hBuf), Want: "the argument as it was"}
			}
			return nil
		})
		if m != nil {
			c.report(prefix(i), spoil, m)
		}
		if i&4095 == 0 {
			c.tick([]ops.Call{k})
		}
	}
	if hBuf = ops.AppendConstants(hBuf[:0]); !bytes.Equal(hBuf, consts) {
		c.report(prefix(n-1), spoil, &eng.Mismatch{What: "a published constant changed", Got: fmt.Sprintf("%x", hBuf), Want: fmt.Sprintf("%x", consts)})
	}
	if c.sampleLeft > 0 {
		c.sampleLeft--
		k, _ := at(0)
		z, _ := at(n - 1)
		c.out.Samples = append(c.out.Samples, fmt.Sprintf("%d calls from %s to %s", n, k, z))
	}
}

var layout = map[string]struct{ frac, exp int }{ // bits of the fraction (with lead bit, if explicit) and of the exponent
	"binary16": {10, 5}, "bfloat": {7, 8}, "float80x86": {64, 15}, "binary128": {112, 15}, "float128ppc": {52, 11}, "float64": {52, 11}, "float32": {23, 8},
}

// fractions are patterns of n bits: edges, single bits, runs, alternations and
// a fixed pseudo-random tail.
func fractions(n int, max int) (l [][2]uint64) {
	have := map[[2]uint64]bool{}
	add := func(hi, lo uint64) {
		if n <= 64 {
			hi = 0
			if n < 64 {
				lo &= 1<<n - 1
			}
		} else if n < 128 {
			hi &= 1<<(n-64) - 1
		}
		if f := [2]uint64{hi, lo}; !have[f] {
			have[f] = true
			l = append(l, f)
		}
	}
	add(0, 0)
	add(0, 1)
	add(math.MaxUint64, math.MaxUint64)
	add(math.MaxUint64, math.MaxUint64-1)
	bit := func(k int) (hi, lo uint64) {
		if k >= 64 {
			return 1 << (k - 64), 0
		}
		return 0, 1 << k
	}
	add(bit(n - 1))
	add(0xAAAAAAAAAAAAAAAA, 0xAAAAAAAAAAAAAAAA)
	for i, k := uint64(1), 0; len(l) < max && k < 100*max; i, k = i+1, k+1 {
		switch i % 4 {
		case 0:
			add(bit(int(i/4) % n))
		case 1:
			add(eng.Mix(i), eng.Mix(i+1))
		case 2:
			add(0, eng.Mix(i)>>(i%60))
		default:
			add(eng.Mix(i), 0)
		}
	}
	if len(l) > max {
		l = l[:max]
	}
	return
}

// encs are about max encodings of a format: every exponent (evenly thinned out
// when there are too many) with several fractions and both signs.
func encs(name string, max int) (l []ops.Bits) {
	lay := layout[name]
	ne := 1 << lay.exp
	per := max / ne / 2
	step := 1
	if per < 4 {
		per = 4
		step = (ne*per*2 + max - 1) / max
	}
	fr := fractions(lay.frac, 1<<12)
	k := 0
	for e := 0; e < ne; e++ {
		if e%step != 0 && e != 1 && e != ne-1 && e != ne-2 && e != ne/2-1 {
			continue
		}
		n := per
		if e < 2 || e >= ne-2 || e == ne/2-1 {
			n = per * 8
		}
		for i := 0; i < n; i++ {
			f := fr[i%6]
			if i >= 4 || i >= per-2 {
				f = fr[(6+k)%len(fr)]
				k++
			}
			s := uint64(i+e) & 1
			var b ops.Bits
			switch name {
			case "binary16", "bfloat", "float32", "float64":
				b.Lo = s<<(lay.frac+lay.exp) | uint64(e)<<lay.frac | f[1]
			case "float80x86":
				b.Hi, b.Lo = s<<15|uint64(e), f[1]
				if e > 0 && i%4 != 3 {
					b.Lo |= 1 << 63
				}
			case "binary128":
				b.Hi, b.Lo = s<<63|uint64(e)<<48|f[0], f[1]
			case "float128ppc":
				b.Hi = s<<63 | uint64(e)<<52 | f[1]
				switch i % 3 { // low part below half an ulp, none, or anything
				case 0:
					if e > 54 {
						b.Lo = uint64(i/3&1)<<63 | uint64(e-54-i%11)<<52&0x7FF<<52 | eng.Mix(uint64(k))>>12
					}
				case 1:
					b.Lo = uint64(i&1) << 63
				default:
					b.Lo = eng.Mix(uint64(k), 7)
				}
			}
			l = append(l, b)
		}
	}
	return
}

func all16() (l []ops.Bits) {
	for i := uint64(0); i < 1<<16; i++ {
		l = append(l, ops.Bits{Lo: i})
	}
	return
}

func thin(l []ops.Bits, n int) (r []ops.Bits) {
	if len(l) <= n {
		return l
	}
	for i := 0; i < n; i++ {
		r = append(r, l[i*len(l)/n])
	}
	return
}

var (
	textCfg = [][3]int{{'e', -1, 64}, {'g', -1, 64}, {'f', -1, 64}, {'g', -1, 32}, {'e', -1, 16}, {'g', -1, 16}, {'e', 5, 64}, {'e', 16, 64}, {'f', 30, 64}, {'g', 20, 64}, {'b', -1, 64}, {'f', -1, 32}, {'G', 3, 32}, {'E', 0, 64}, {'f', 2, 32}, {'e', 17, 16}, {'f', 0, 16}, {'b', -1, 16}}
	intCfg  = []int{10, 16, 2, 36, 8, 7, 32, 3, 35}
)

// cfgs are the small arguments a kind of call is made with.
func cfgs(kind string) (l [][4]int) {
	switch kind {
	case "text":
		for _, t := range textCfg {
			l = append(l, [4]int{t[0], t[1], t[2]})
		}
	case "int":
		for _, b := range intCfg {
			l = append(l, [4]int{b})
		}
	case "big":
		l = [][4]int{{0, 0, 128, 0}}
	default:
		l = [][4]int{{}}
	}
	return
}

// data are about n arguments of a kind.
func data(kind string, n int) (l []ops.Bits) {
	switch kind {
	case "binary16", "bfloat":
		if n >= 1<<16 {
			return all16()
		}
		return thin(encs(kind, n), n)
	case "float32", "float64":
		return thin(encs(kind, n), n)
	case "text":
		// also floats that are short in decimal
		l = thin(encs("float64", n/2), n/2)
		for i := 0; len(l) < n; i++ {
			v := float64(i*i%997) * math.Pow(10, float64(i%40-20))
			if i%3 == 0 {
				v = float64(i)
			}
			l = append(l, ops.Bits{Lo: math.Float64bits(v)})
		}
		return
	case "int":
		for i := 0; len(l) < n; i++ {
			u := uint64(i)
			switch i % 4 {
			case 1:
				u = eng.Mix(u)
			case 2:
				u = eng.Mix(u) >> (i % 64)
			case 3:
				u = -u
			}
			l = append(l, ops.Bits{Lo: u})
		}
		return
	}
	return thin(encs(kind, n), n)
}

// bigCalls are about n big.Floats: fractions of up to 128 bits at exponents
// around a format's range.
func bigCalls(fn string, n int) (l []ops.Call) {
	lo, hi := -1200, 1100
	switch {
	case strings.HasPrefix(fn, "binary16"), strings.HasPrefix(fn, "IsExact16"):
		lo, hi = -30, 20
	case strings.HasPrefix(fn, "IsExact32"):
		lo, hi = -160, 140
	case strings.HasPrefix(fn, "float80x86"), strings.HasPrefix(fn, "binary128"):
		lo, hi = -16500, 16400
	}
	widths := []int{1, 3, 10, 11, 12, 24, 25, 53, 54, 64, 65, 106, 107, 113, 114, 128}
	for i := 0; len(l) < n; i++ {
		w := widths[i%len(widths)]
		f := fractions(w, 64)
		b := f[eng.Mix(uint64(i))%uint64(len(f))]
		b[(128-w)/64%2] |= 0 // patterns stay within w bits
		if w > 64 {
			b[0] |= 1 << (w - 65)
		} else {
			b[1] |= 1 << (w - 1)
		}
		e := lo + int(eng.Mix(uint64(i), 3)%uint64(hi-lo+1)) - w
		if i%3 == 0 { // near 1 and near the ends
			e = []int{0, lo, hi, -10, -1, 1}[i/3%6] - w + int(eng.Mix(uint64(i), 5)%9) - 4
		}
		l = append(l, ops.Call{Fn: fn, Hi: b[0], Lo: b[1], N: [4]int{e, i / 2 & 1, 128 + i%5*20, i % 6}})
	}
	return
}

// args enumerates about n argument tuples of a function.
func args(kind, fn string, n int) (l []ops.Call) {
	if kind == "big" {
		return bigCalls(fn, n)
	}
	cf := cfgs(kind)
	for _, b := range data(kind, n/len(cf)) {
		for _, k := range cf {
			l = append(l, mk(kind, fn, b, k))
		}
	}
	return
}

// mk is the call of fn on the float, integer or encoding b.
func mk(kind, fn string, b ops.Bits, n [4]int) ops.Call {
	if kind == "text" && n[2] == 32 { // bits of a float32
		b.Lo = uint64(math.Float32bits(float32(math.Float64frombits(b.Lo))))
	}
	return ops.Call{Fn: fn, Hi: b.Hi, Lo: b.Lo, N: n}
}

// flips are the calls whose argument differs from k in one bit, or whose small
// arguments differ a little.
func flips(kind string, k ops.Call) (l []ops.Call) {
	w := map[string]int{"binary16": 16, "bfloat": 16, "float80x86": 80, "binary128": 128, "float128ppc": 128, "float32": 32, "float64": 64, "text": 64, "int": 64, "big": 128}[kind]
	if kind == "text" && k.N[2] == 32 {
		w = 32
	}
	for i := 0; i < w; i++ {
		f := k
		if i < 64 {
			f.Lo ^= 1 << i
		} else {
			f.Hi ^= 1 << (i - 64)
		}
		l = append(l, f)
	}
	// what a careless key would confuse: the same bit in both halves or words,
	// neighbouring bits, halves and words exchanged, a sum kept
	x := func(hi, lo uint64) {
		if w <= 64 {
			hi = k.Hi
			if w < 64 {
				lo &= 1<<w - 1
			}
		} else if w < 128 {
			hi &= 1<<(w-64) - 1
		}
		if hi != k.Hi || lo != k.Lo {
			f := k
			f.Hi, f.Lo = hi, lo
			l = append(l, f)
		}
	}
	hi, lo := k.Hi, k.Lo
	for i := 0; i < w; i++ {
		b, b2, b32 := uint64(1)<<(i%64), uint64(3)<<(i%64), uint64(1<<32|1)<<(i%32)
		if i < 64 {
			x(hi, lo^b2)
			x(hi, lo^b32)
			x(hi^b, lo^b)
			x(hi+b, lo-b)
			x(hi, lo+b-b>>1)
		} else {
			x(hi^b2, lo)
			x(hi^b32, lo)
			x(hi-b, lo+b)
		}
	}
	x(lo, hi)
	x(^hi, ^lo)
	x(hi, lo<<32|lo>>32)
	x(hi<<32|hi>>32, lo)
	x(bits.Reverse64(lo), bits.Reverse64(hi))
	x(hi, bits.ReverseBytes64(lo))
	x(hi, -lo)
	small := func(i int, v ...int) {
		for _, n := range v {
			if n != k.N[i] {
				f := k
				f.N[i] = n
				l = append(l, f)
			}
		}
	}
	switch kind {
	case "big":
		for i := 0; i < 12; i++ {
			small(0, k.N[0]^1<<i, k.N[0]+1<<i, k.N[0]-1<<i)
		}
		small(1, 0, 1, 2, 4)
		small(2, 128, 129, 160, 192, 384)
		small(3, 0, 1, 2, 3, 4, 5)
	case "text":
		small(0, 'e', 'f', 'g', 'E', 'G', 'b', 'e'^1)
		small(1, -1, 0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 18, 21, 30, 64, 100)
		if k.N[2] != 32 {
			small(2, 16, 64)
		}
	case "int":
		for b := 2; b <= 36; b++ {
			small(0, b)
		}
	}
	return
}

var kinds = []string{"binary16", "bfloat", "float80x86", "binary128", "float128ppc", "float32", "float64", "big", "text", "int"}

// neighbours calls a function twice, with arguments that differ in one bit.
func (c *child) neighbours() {
	for _, kind := range kinds {
		g, end := c.begin("almost equal arguments: "+kind, "every ordered pair of calls of one function whose arguments differ in one bit, two related bits, the order of their halves or words or one small argument, around each of a list of arguments (16-bit formats: one bit, around every encoding)")
		for _, fn := range ops.CallFns[kind] {
			if c.expired(g) {
				break
			}
			if kind == "binary16" || kind == "bfloat" { // all of them
				want := make([]uint64, 1<<16)
				need := make([]bool, 1<<16)
				for b := range want {
					a := ops.Call{Fn: fn, Lo: uint64(b)}
					if b%(8*c.n)/8 != c.shard {
						continue
					}
					for i := 0; i < 16; i++ {
						o := b ^ 1<<i
						f := ops.Call{Fn: fn, Lo: uint64(o)}
						if !need[o] {
							need[o], want[o] = true, c.fresh(&f)
						}
						c.pair(g, &a, &f, want[o])
					}
				}
				continue
			}
			n := c.pick(240, 3000)
			if kind == "text" {
				n = c.pick(48, 600) * len(textCfg)
			}
			for i, a := range args(kind, fn, n) {
				if i%c.n != c.shard {
					continue
				}
				if c.expired(g) {
					break
				}
				wa := c.fresh(&a)
				for _, b := range flips(kind, a) {
					wb := c.fresh(&b)
					c.pair(g, &a, &b, wb)
					c.pair(g, &b, &a, wa)
				}
			}
		}
		end()
	}
}

// sweeps calls a function with long lists of arguments in several orders.
func (c *child) sweeps() {
	orders := []func(i, n int) int{
		func(i, n int) int { return i },
		func(i, n int) int { return n - 1 - i },
		func(i, n int) int { return int(uint64(i) * 2654435761 % uint64(n)) },
		func(i, n int) int { return i%64*(n/64) + i/64%(n/64) },
		func(i, n int) int { return i * 97 % n },
		func(i, n int) int { return i / 2 },
		func(i, n int) int { return i ^ i>>1 },
		func(i, n int) int { return i * 4099 % n },
	}
	job := 0
	for _, kind := range kinds {
		size := c.pick(1<<15, 1<<18)
		if kind == "binary16" || kind == "bfloat" {
			size = 1 << 16
		}
		g, end := c.begin("sweeps: "+kind, fmt.Sprintf("per function, up to %d calls in a row without going back to the initial state, in %d orders, results kept or overwritten", size, len(orders)))
		for _, fn := range ops.CallFns[kind] {
			job++
			if job%c.n != c.shard || c.expired(g) {
				continue
			}
			l := args(kind, fn, size)
			want := make([]uint64, len(l))
			for i := range l {
				want[i] = c.fresh(&l[i])
			}
			n := len(l)
			for k, o := range orders {
				c.sweep(g, n, func(i int) (ops.Call, uint64) {
					j := o(i, n)
					if j < 0 || j >= n {
						j = i
					}
					return l[j], want[j]
				}, k%2 == 1)
			}
		}
		end()
	}
}
