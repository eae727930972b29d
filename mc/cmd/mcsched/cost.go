package main

import (
	"fmt"
	"math"
	"runtime"
	"runtime/metrics"
	"strings"

	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/ops"
	"github.com/mewmew/float/vmc/vsched"
)

// C27: what a call costs, in statements of the library executed and in bytes
// allocated, and what stays allocated after calls whose results are gone.

var allocs = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated is the number of bytes allocated so far; unless exact is set, small
// objects are counted some time later.
func allocated(exact bool) uint64 {
	if exact {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.TotalAlloc
	}
	metrics.Read(allocs)
	return allocs[0].Value.Uint64()
}

type price struct{ steps, bytes, size int64 }

// costs makes a call and reports its price; size is the number of words of the
// argument, the result and the digits asked for and of the digits asked for.
func costs(k *ops.Call, exact bool) (p price, err *eng.Mismatch) {
	x := k.Big()
	const budget = 1 << 26
	p.size = 2
	if x != nil {
		p.size += int64(x.MinPrec()+63) / 64
	}
	if strings.HasSuffix(k.Fn, "Float") { // digits asked for
		p.size += int64(max(k.N[1], 0)+7) / 8
	}
	err = guarded(func() *eng.Mismatch {
		vsched.Budget = budget
		a := allocated(exact)
		r := k.Run(x)
		p.bytes = int64(allocated(exact) - a)
		p.steps = budget - vsched.Budget
		p.size += int64(len(r.S)+len(r.Bytes)+7) / 8
		return nil
	})
	return
}

// tariff is the most a call of some size may cost, more than twenty times what
// the library as it is takes. Shortest and exact text of a float takes a number
// of steps that grows with the square of the exponent, which is limited.
func (p price) tariff(fn string) (t price) {
	t.steps = 12000 + 512*p.size
	t.bytes = 64<<10 + 640*p.size
	if strings.HasSuffix(fn, "Float") || strings.HasPrefix(fn, "IsExact") {
		t.steps += 3e6
	}
	return
}

func (p price) excess(fn string) *eng.Mismatch {
	t := p.tariff(fn)
	if p.steps > t.steps {
		return &eng.Mismatch{What: "the work of a call is out of proportion", Got: fmt.Sprintf("%d statements for %d words of argument and result", p.steps, p.size), Want: fmt.Sprintf("at most %d", t.steps)}
	}
	if p.bytes > t.bytes {
		return &eng.Mismatch{What: "the memory a call takes is out of proportion", Got: fmt.Sprintf("%d bytes allocated for %d words of argument and result", p.bytes, p.size), Want: fmt.Sprintf("at most %d", t.bytes)}
	}
	return nil
}

// priced makes a call; one that costs too much is made again, as tables set up
// by a first call are nobody's fault.
func priced(k *ops.Call) (p price, m *eng.Mismatch) {
	for i := 0; i < 4; i++ {
		if p, m = costs(k, i > 0); m != nil {
			return
		}
		if m = p.excess(k.Fn); m == nil {
			return
		}
	}
	return
}

// exponents are all from lo to hi, and from there on powers of two and their
// neighbours to the ends of what a big.Float can hold.
func exponents(lo, hi int) (l []int) {
	for e := lo; e <= hi; e++ {
		l = append(l, e)
	}
	for k := 10; k < 31; k++ {
		for d := -1; d <= 1; d++ {
			if e := 1<<k + d; e > hi {
				l = append(l, e)
			}
			if e := -1<<k + d; e < lo {
				l = append(l, e)
			}
		}
	}
	return append(l, math.MaxInt32-70000, math.MinInt32+70000)
}

func (c *child) price(g *childGroup, k *ops.Call) {
	g.Cases++
	g.States++
	c.out.Transitions++
	c.note(func() *scenario { return &scenario{Threads: [][]string{{k.String()}}} })
	p, m := priced(k)
	if m != nil {
		c.fail(&scenario{Threads: [][]string{{k.String()}}}, m, "cost")
	}
	t := p.tariff(k.Fn)
	if s := fmt.Sprintf("%s: %d statements, %d bytes, size %d", k, p.steps, p.bytes, p.size); p.steps*1000/t.steps > c.most[0] {
		c.most[0] = p.steps * 1000 / t.steps
		c.mostS[0] = s
	} else if p.bytes*1000/t.bytes > c.most[1] {
		c.most[1] = p.bytes * 1000 / t.bytes
		c.mostS[1] = s
	}
	if g.Cases&1023 == 0 {
		c.tick([]ops.Call{*k})
	}
}

func (c *child) calls() {
	for _, kind := range kinds {
		bound := map[string]string{
			"big":  "every exponent around the range and powers of two beyond it, to the ends of big.Float's range, x significands of 1 to 128 bits and of up to 66000 bits",
			"text": "floats of every exponent x all verbs and sizes x precisions -1 to 120 and up to 100000",
			"int":  "integers x every base",
		}[kind]
		if bound == "" {
			bound = "every exponent, both signs, patterns of fractions"
		}
		g, end := c.begin("price of one call: "+kind, bound)
		for _, fn := range ops.CallFns[kind] {
			i := 0
			do := func(k ops.Call) {
				if i++; i%c.n == c.shard && (i%1024 >= c.n || !c.expired(g)) && g.Complete {
					c.price(g, &k)
				}
			}
			switch kind {
			case "big":
				lo, hi := -1300, 1200
				if strings.HasPrefix(fn, "float80x86") || strings.HasPrefix(fn, "binary128") {
					lo, hi = -16700, 16500
				}
				for _, e := range exponents(lo, hi) {
					for j, w := range []int{1, 3, 11, 24, 53, 64, 107, 113, 128} {
						f := fractions(w, 4)
						b := f[(j+e&1)%len(f)]
						if w > 64 {
							b[0] |= 1 << (w - 65)
						} else {
							b[1] |= 1 << (w - 1)
						}
						do(ops.Call{Fn: fn, Hi: b[0], Lo: b[1], N: [4]int{e - w, j & 1, 128, j % 6}})
					}
				}
				long := exponents(-40, 20)
				for _, e := range []int{lo, hi, lo / 2, hi / 2, lo + 70, hi - 70} {
					for d := -3; d <= 3; d++ {
						long = append(long, e+d)
					}
				}
				for _, w := range []int{128, 192, 256, 512, 1024, 2048, 4096, 8192, 16384, 65536, c.pick(65536, 1<<20)} {
					for _, e := range long {
						for _, b := range [][2]uint64{{1 << 63, 1}, {math.MaxUint64, math.MaxUint64}, {0xAAAAAAAAAAAAAAAA, 0x5555555555555555}} {
							do(ops.Call{Fn: fn, Hi: b[0], Lo: b[1], N: [4]int{e - w, e&1 | 8, w, 0}})
						}
					}
				}
			case "text":
				prec := []int{-1}
				for p := 0; p <= 40; p++ {
					prec = append(prec, p)
				}
				prec = append(prec, 50, 64, 100, 120, 308, 324, 500, 767, 800, 1000, 1074, 1100, 3000, 100000)
				for l, b := range data(kind, c.pick(10000, 100000)) {
					for j, p := range prec {
						if p > 120 && l%16 != 0 {
							continue
						}
						for v := range 6 {
							do(mk(kind, fn, b, [4]int{int("eEfgGb"[v]), p, []int{64, 32, 16}[(j+v+i)%3]}))
						}
					}
				}
			case "int":
				for _, b := range data(kind, c.pick(10000, 100000)) {
					for base := 2; base <= 36; base++ {
						do(mk(kind, fn, b, [4]int{base}))
					}
				}
			default:
				n := c.pick(1<<19, 1<<21)
				if kind == "binary16" || kind == "bfloat" {
					n = 1 << 16
				}
				for _, b := range data(kind, n) {
					do(mk(kind, fn, b, [4]int{}))
				}
			}
		}
		end()
	}
}

// --- what stays ----------------------------------------------------------------

// A walk is an endless series of calls of a function with ever new arguments.
type walk struct {
	kind, fn, what string
	at             func(i int) ops.Call
}

func walks() (l []walk) {
	for _, kind := range kinds {
		for _, fn := range ops.CallFns[kind] {
			add := func(what string, at func(i int) ops.Call) {
				l = append(l, walk{kind, fn, what, at})
			}
			u := func(i int) ops.Bits { return ops.Bits{Hi: eng.Mix(uint64(i), 1), Lo: eng.Mix(uint64(i))} }
			switch kind {
			case "big":
				add("significands", func(i int) ops.Call {
					b := u(i)
					return ops.Call{Fn: fn, Hi: b.Hi, Lo: b.Lo, N: [4]int{-128 - i%64, i & 1, 128, i % 6}}
				})
				add("short significands", func(i int) ops.Call {
					return ops.Call{Fn: fn, Lo: uint64(i), N: [4]int{-i % 24, i & 1, 64, 0}}
				})
				add("exponents", func(i int) ops.Call {
					return ops.Call{Fn: fn, Lo: 0x155, N: [4]int{(i/2 + 1) * (i&1*2 - 1), i >> 1 & 1, 64, 0}}
				})
				add("precisions", func(i int) ops.Call {
					return ops.Call{Fn: fn, Lo: 0x155, N: [4]int{-6, i & 1, 64 + i, 0}}
				})
			case "text":
				add("floats", func(i int) ops.Call {
					t := textCfg[i%len(textCfg)]
					return mk(kind, fn, ops.Bits{Lo: eng.Mix(uint64(i)) &^ (1 << 62)}, [4]int{t[0], t[1], t[2]})
				})
				add("short floats", func(i int) ops.Call {
					return mk(kind, fn, ops.Bits{Lo: math.Float64bits(float64(i) / 8)}, [4]int{'g', -1, 64})
				})
				add("precisions", func(i int) ops.Call {
					return mk(kind, fn, ops.Bits{Lo: math.Float64bits(1 / 3.)}, [4]int{int("efg"[i%3]), i / 3 % 4000, 64})
				})
			case "int":
				add("integers", func(i int) ops.Call {
					return mk(kind, fn, ops.Bits{Lo: eng.Mix(uint64(i)) >> (i % 50)}, [4]int{2 + i%35})
				})
				add("integers in a row", func(i int) ops.Call {
					return mk(kind, fn, ops.Bits{Lo: uint64(i)}, [4]int{10})
				})
			case "binary16", "bfloat":
				add("all encodings", func(i int) ops.Call { return mk(kind, fn, ops.Bits{Lo: uint64(i) & 0xFFFF}, [4]int{}) })
			case "float32":
				add("encodings", func(i int) ops.Call { return mk(kind, fn, ops.Bits{Lo: uint64(uint32(u(i).Lo))}, [4]int{}) })
			case "float80x86":
				add("encodings", func(i int) ops.Call {
					b := u(i)
					return mk(kind, fn, ops.Bits{Hi: b.Hi & 0xFFFF, Lo: b.Lo | 1<<63}, [4]int{})
				})
			case "float128ppc":
				add("encodings", func(i int) ops.Call {
					b := u(i)
					b.Lo = b.Lo&^(0x7FF<<52) | (b.Hi>>52&0x7FF-min(b.Hi>>52&0x7FF, 54))<<52
					return mk(kind, fn, b, [4]int{})
				})
			default:
				add("encodings", func(i int) ops.Call { return mk(kind, fn, u(i), [4]int{}) })
			}
		}
	}
	return
}

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// kept walks n calls, measures, walks n more and measures again. When much
// more stays allocated, it goes on for much longer: a table of limited size is
// full some day.
func (c *child) kept(w *walk, n int, calls *int64) *eng.Mismatch {
	i := 0
	goTo := func(n int) {
		for ; i < n; i++ {
			k := w.at(i)
			if i&4095 == 0 && c != nil {
				c.tick([]ops.Call{k})
			}
			x := k.Big()
			vsched.Budget = 1 << 24
			k.Run(x)
		}
		*calls = int64(i)
	}
	return guarded(func() *eng.Mismatch {
		vsched.ResetAll()
		goTo(n)
		h, gr := heap(), runtime.NumGoroutine()
		for from := n; ; from = i {
			goTo(2 * from)
			h2, gr2 := heap(), runtime.NumGoroutine()
			more := h2 - h
			if more <= int64(from)+64<<10 && gr2-gr <= 16 {
				return nil
			}
			if from >= 16*n {
				return &eng.Mismatch{What: fmt.Sprintf("calls of %s keep memory or goroutines for good (%s)", w.fn, w.what), Got: fmt.Sprintf("between call %d and call %d: %d bytes and %d goroutines more", from, i, more, gr2-gr), Want: "nothing stays, or no more than a limit"}
			}
			h, gr = h2, gr2
		}
	})
}

func (c *child) keeps() {
	n := c.pick(1<<16, 1<<19)
	g, end := c.begin("what stays after calls", fmt.Sprintf("every function x series of new arguments; memory in use and goroutines after %d and %d calls (and on to %d where they grow)", n, 2*n, 32*n))
	for i, w := range walks() {
		if i%c.n != c.shard || c.expired(g) {
			continue
		}
		g.Cases++
		var calls int64
		m := c.kept(&w, n, &calls)
		g.States += calls
		c.out.Transitions += calls
		if m != nil {
			c.fail(&scenario{Threads: [][]string{{w.fn, w.what, fmt.Sprint(n)}}}, m, "keeps")
		}
	}
	end()
}

func (c *child) c27() {
	c.calls()
	c.keeps()
	c.out.Samples = append(c.out.Samples, fmt.Sprintf("highest share of the bound on statements: %d/1000 %s; on bytes: %d/1000 %s", c.most[0], c.mostS[0], c.most[1], c.mostS[1]))
}

// checkCost replays one price or one walk.
func checkCost(op string, th []string) *eng.Mismatch {
	if op == "cost" {
		k, ok := ops.ParseCall(th[0])
		if !ok {
			panic("no such call: " + th[0])
		}
		_, m := priced(&k)
		return m
	}
	for _, w := range walks() {
		if w.fn == th[0] && w.what == th[1] {
			var n int
			fmt.Sscan(th[2], &n)
			var calls int64
			return (*child)(nil).kept(&w, n, &calls)
		}
	}
	panic("no such walk")
}
