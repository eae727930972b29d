// Command mcsched decides the properties about histories (C16) and concurrent
// use (C17) of the library. It is built with the instrumented copy of the
// library (see cmd/inst): package-level state can be restored to its initial
// value, and every statement is a scheduling point.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/ops"
	"github.com/mewmew/float/vmc/runner"
	"github.com/mewmew/float/vmc/vsched"
)

var (
	alpha  []*ops.Op
	byName = map[string]*ops.Op{}
	consts []byte
)

// prepare computes the expected result of every operation, each from the
// initial state. The expectations are those of the sequential properties
// (C01-C21); here only their independence from history is at stake.
// It notes each call with note, if not nil.
func prepare(note func(func() *scenario)) {
	vsched.ResetAll()
	consts = ops.AppendConstants(nil)
	for _, o := range ops.All() {
		if byName[o.Name] != nil {
			panic("duplicate operation " + o.Name)
		}
		byName[o.Name] = o
		alpha = append(alpha, o)
		if o.Arg != nil {
			o.ArgW = ops.AppendBig(nil, o.Arg())
		}
		vsched.ResetAll()
		vsched.Budget = 1 << 24
		if note != nil {
			note(func() *scenario { return &scenario{Threads: [][]string{{o.Name}}} })
		}
		o.Want = []byte("panic") // and will panic again in the first history
		guarded(func() *eng.Mismatch {
			r := o.Run(o.NewArg())
			o.Want = r.Append(nil)
			return nil
		})
	}
}

// scenario is what Case.S holds.
type scenario struct {
	Threads [][]string   `json:"threads"`         // operations per thread; histories have one
	Spoil   bool         `json:"spoil,omitempty"` // overwrite arguments and results after each call
	Shared  bool         `json:"shared,omitempty"`
	Devs    []vsched.Dev `json:"schedule,omitempty"` // departures from the default schedule
	Bound   int          `json:"bound,omitempty"`
	Race    bool         `json:"race,omitempty"`
}

func (s *scenario) String() string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (s *scenario) ops() [][]*ops.Op {
	var l [][]*ops.Op
	for _, t := range s.Threads {
		var tl []*ops.Op
		for _, n := range t {
			o := lookup(n)
			if o == nil {
				panic("unknown operation " + n)
			}
			tl = append(tl, o)
		}
		l = append(l, tl)
	}
	return l
}

func names(tl ...[]*ops.Op) (r [][]string) {
	for _, t := range tl {
		var n []string
		for _, o := range t {
			n = append(n, o.Name)
		}
		r = append(r, n)
	}
	return
}

// --- histories -----------------------------------------------------------------

var (
	hOuts [1024]ops.Out
	hBuf  = make([]byte, 0, 4096)
)

// history runs a sequence from the initial state and compares every result with
// what the operation returns in the initial state.
func history(h []*ops.Op, spoil bool) *eng.Mismatch {
	vsched.ResetAll()
	outs := hOuts[:0]
	for i, o := range h {
		x := o.NewArg()
		vsched.Budget = 1 << 24
		r := o.Run(x)
		if hBuf = r.Append(hBuf[:0]); !bytes.Equal(hBuf, o.Want) {
			return &eng.Mismatch{What: fmt.Sprintf("call %d, %s, depends on what was called before", i+1, o.Name), Got: string(hBuf), Want: string(o.Want)}
		}
		if !o.Intact(x) {
			return &eng.Mismatch{What: fmt.Sprintf("call %d, %s, changes its argument", i+1, o.Name), Got: string(ops.AppendBig(nil, x)), Want: string(o.ArgW)}
		}
		if spoil {
			r.Spoil()
			if x != nil {
				ops.SpoilBig(x)
			}
			continue
		}
		outs = append(outs, r)
	}
	if !spoil {
		for i := range outs {
			if hBuf = outs[i].Append(hBuf[:0]); !bytes.Equal(hBuf, h[i].Want) {
				return &eng.Mismatch{What: fmt.Sprintf("the result of call %d, %s, changed afterwards", i+1, h[i].Name), Got: string(hBuf), Want: string(h[i].Want)}
			}
			outs[i] = ops.Out{}
		}
	}
	if hBuf = ops.AppendConstants(hBuf[:0]); !bytes.Equal(hBuf, consts) {
		return &eng.Mismatch{What: "a published constant changed", Got: fmt.Sprintf("%x", hBuf), Want: fmt.Sprintf("%x", consts)}
	}
	return nil
}

type childGroup struct {
	eng.Group
	States int64
}

type childOut struct {
	Groups      []*childGroup
	Transitions int64
	Points      int64
	Viol        *childViol
	Samples     []string
	Scenarios   map[string]int64 // per preemption bound
	Execs       int64
	Positions   int64
}

type childViol struct {
	Group     int
	Seq       int64
	Case      *eng.Case
	What      string
	Got, Want string
}

type child struct {
	out        childOut
	shard, n   int
	thorough   bool
	path       string
	cur        atomic.Pointer[scenario]
	beat       atomic.Int64
	deadline   time.Time
	sampleLeft int
	race       bool
	trace      *os.File // where every case is noted before it runs, or nil
	most       [2]int64 // of C27: highest prices, in thousandths of the tariff
	mostS      [2]string
}

// note records what is about to run, so that the parent knows it if this
// process dies of it.
func (c *child) note(f func() *scenario) {
	if c.trace == nil {
		return
	}
	s := f()
	c.cur.Store(s)
	c.stamp()
	b := []byte(s.String())
	if len(b) < 1<<16 {
		c.trace.WriteAt(append([]byte(fmt.Sprintf("%08d", len(b))), b...), 0)
	}
}

func noted(path string) string {
	b, err := os.ReadFile(path + ".cur")
	var n int
	if err != nil || len(b) < 8 {
		return ""
	}
	fmt.Sscanf(strings.TrimLeft(string(b[:8]), "0"), "%d", &n)
	return string(b[8:min(8+n, len(b))])
}

// Exit codes of a child that is to be run again with its cases noted.
const (
	exitHangs = 70
	exitGrows = 71
)

func (c *child) write() {
	b, err := json.Marshal(&c.out)
	if err == nil {
		err = os.WriteFile(c.path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func (c *child) fail(s *scenario, m *eng.Mismatch, op string) {
	g := len(c.out.Groups) - 1
	c.out.Viol = &childViol{g, c.out.Groups[g].Cases, &eng.Case{Op: op, S: s.String()}, m.What, m.Got, m.Want}
	c.write()
	os.Exit(0)
}

func (c *child) watch(op string) {
	limit := 150 * time.Second
	if c.trace != nil {
		limit = 60 * time.Second
	}
	give := func(what, got string, code int) {
		if s := c.cur.Load(); s != nil && c.trace != nil {
			c.fail(s, &eng.Mismatch{What: what, Got: got, Want: "a result"}, op)
		}
		os.Exit(code)
	}
	for {
		time.Sleep(200 * time.Millisecond)
		if time.Since(time.Unix(0, c.beat.Load())) > limit {
			give(eng.NoReturn, "no progress", exitHangs)
		}
		if eng.Growing(3 << 30) {
			give(eng.TooMuch, "more than 3 GB", exitGrows)
		}
	}
}

// begin starts a group; the returned function ends it.
func (c *child) begin(name, bound string) (*childGroup, func()) {
	g := &childGroup{Group: eng.Group{Name: name, Bound: bound, Complete: true}}
	c.out.Groups = append(c.out.Groups, g)
	t := time.Now()
	c.sampleLeft = 1
	return g, func() { g.WallS = time.Since(t).Seconds() }
}

func (c *child) expired(g *childGroup) bool {
	if time.Now().After(c.deadline) {
		g.Complete = false
		return true
	}
	return false
}

// hist runs one history in both modes.
func (c *child) hist(g *childGroup, h []*ops.Op) {
	for _, spoil := range []bool{false, true} {
		g.Cases++
		g.States += int64(len(h))
		c.out.Transitions += int64(len(h))
		c.note(func() *scenario { return &scenario{Threads: names(h), Spoil: spoil} })
		m := guarded(func() *eng.Mismatch { return history(h, spoil) })
		if m != nil {
			c.fail(&scenario{Threads: names(h), Spoil: spoil}, m, "history")
		}
	}
	if c.sampleLeft > 0 && g.Cases > 100 {
		c.sampleLeft--
		c.out.Samples = append(c.out.Samples, (&scenario{Threads: names(h)}).String())
	}
	if g.Cases&1023 < 2 {
		c.stamp()
		c.cur.Store(&scenario{Threads: names(h)})
	}
}

func (c *child) stamp() { c.beat.Store(time.Now().UnixNano()) }

func guarded(f func() *eng.Mismatch) (m *eng.Mismatch) {
	defer func() {
		if e := recover(); e != nil {
			m = &eng.Mismatch{What: "panic", Got: fmt.Sprintf("panic: %v\n%s", e, firstLines(debug.Stack())), Want: "a result"}
		}
	}()
	return f()
}

func firstLines(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

// tuples enumerates this shard's part of l^depth.
func (c *child) tuples(g *childGroup, l []*ops.Op, depth int) {
	h := make([]*ops.Op, depth)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == depth {
			c.hist(g, h)
			return true
		}
		for _, o := range l {
			h[i] = o
			if i == depth-2 && c.expired(g) {
				return false
			}
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	for k, o := range l {
		if k%c.n != c.shard {
			continue
		}
		h[0] = o
		if !rec(1) {
			return
		}
	}
}

func every(l []*ops.Op, max int) []*ops.Op {
	if len(l) <= max {
		return l
	}
	var r []*ops.Op
	for i := 0; i < max; i++ {
		r = append(r, l[i*len(l)/max])
	}
	return r
}

func byFn() (fns []string, m map[string][]*ops.Op) {
	m = map[string][]*ops.Op{}
	for _, o := range alpha {
		if m[o.Fn] == nil {
			fns = append(fns, o.Fn)
		}
		m[o.Fn] = append(m[o.Fn], o)
	}
	return
}

func (c *child) pick(q, t int) int {
	if c.thorough {
		return t
	}
	return q
}

func (c *child) c16() {
	fns, m := byFn()
	g, end := c.begin("single calls and repetition", fmt.Sprintf("each of the %d calls 1..6 times in a row", len(alpha)))
	for i, o := range alpha {
		if i%c.n == c.shard {
			for k := 1; k <= 6; k++ {
				h := make([]*ops.Op, k)
				for j := range h {
					h[j] = o
				}
				c.hist(g, h)
			}
		}
	}
	end()
	var core []*ops.Op
	for _, o := range alpha {
		if o.Core || c.thorough {
			core = append(core, o)
		}
	}
	g, end = c.begin("all pairs", fmt.Sprintf("every ordered pair of %d calls", len(core)))
	c.tuples(g, core, 2)
	end()
	g, end = c.begin("pairs per function", fmt.Sprintf("every ordered pair of calls of one function, among %d calls of %d functions", len(alpha), len(fns)))
	for _, f := range fns {
		c.tuples(g, m[f], 2)
	}
	end()
	// neighbours in the alphabet share most of their arguments
	win := c.pick(6, 12)
	g, end = c.begin("triples of neighbours", fmt.Sprintf("every sequence of 3 among every %d calls of one function that follow each other at distance 1, 2, 3, 5, 14 or 42", win))
	for _, f := range fns {
		l := m[f]
		for _, st := range []int{1, 2, 3, 5, 14, 42} {
			for k := 0; k < len(l) && !c.expired(g); k++ {
				if k%c.n != c.shard || win*st > len(l)+st && st > 1 {
					continue
				}
				for i := 0; i < win*win; i++ { // the window's first call is in each
					for r := 0; r < 3; r++ {
						h := [3]*ops.Op{l[k], l[(k+i/win*st)%len(l)], l[(k+i%win*st)%len(l)]}
						h[0], h[r] = h[r], h[0]
						c.hist(g, h[:])
					}
				}
			}
		}
	}
	end()
	d, per := 3, c.pick(40, 200)
	g, end = c.begin("triples per function", fmt.Sprintf("every sequence of 3 calls of one function, up to %d arguments each, %d functions", per, len(fns)))
	for _, f := range fns {
		c.tuples(g, every(m[f], per), d)
	}
	end()
	per = c.pick(12, 28)
	g, end = c.begin("quadruples per function", fmt.Sprintf("every sequence of 4 calls of one function, up to %d arguments each", per))
	for _, f := range fns {
		c.tuples(g, every(m[f], per), 4)
	}
	end()
	per = c.pick(3, 9)
	var mix []*ops.Op
	for _, f := range fns {
		mix = append(mix, every(m[f], per)...)
	}
	g, end = c.begin("triples across functions", fmt.Sprintf("every sequence of 3 among %d calls, %d per function", len(mix), per))
	c.tuples(g, mix, 3)
	end()
	// functions that could share state: same package or same argument type
	depth := c.pick(5, 7)
	g, end = c.begin("deep per function", fmt.Sprintf("every sequence of %d calls of one function with 5 arguments", depth))
	for _, f := range fns {
		c.tuples(g, every(m[f], 5), depth)
	}
	end()
	// long histories: all calls of a function (or of everything) in several
	// orders, twice
	g, end = c.begin("long histories", "per function: all its calls from every starting point (quick: about 60 of them) forwards and backwards with every stride 1..7, twice over (up to 1000 calls)")
	for fi, f := range fns {
		if fi%c.n != c.shard {
			continue
		}
		l := m[f]
		step := 1
		if !c.thorough {
			step += len(l) / 60
		}
		for start := 0; start < len(l); start += step {
			for stride := 1; stride <= 7; stride++ {
				for _, dir := range []int{1, -1} {
					var h []*ops.Op
					for k := 0; k < 2*len(l) && k < 1000; k++ {
						h = append(h, l[((start+dir*k*stride)%len(l)+len(l))%len(l)])
					}
					c.hist(g, h)
				}
			}
		}
	}
	end()
	c.neighbours()
	c.sweeps()
}

// --- schedules ---------------------------------------------------------------------

type result struct {
	out []byte
	bad string
}

// mkThreads builds the thread bodies of a scenario; the results are stored per
// thread.
func mkThreads(th [][]*ops.Op, shared bool, res []result, args *[]argCheck) func() []func() {
	return func() []func() {
		vsched.ResetAll()
		*args = (*args)[:0]
		pool := map[string]int{}
		var bodies []func()
		for ti, t := range th {
			xs := make([]argCheck, len(t))
			for i, o := range t {
				if o.Arg == nil {
					continue
				}
				if k, ok := pool[o.Key]; shared && ok {
					xs[i] = (*args)[k]
					continue
				}
				xs[i] = argCheck{o, o.Arg()}
				pool[o.Key] = len(*args)
				*args = append(*args, xs[i])
			}
			ti, t := ti, t
			res[ti] = result{out: res[ti].out[:0]}
			bodies = append(bodies, func() {
				r := &res[ti]
				for i, o := range t {
					v := o.Run(xs[i].x)
					r.out = v.Append(r.out[:0])
					if r.bad == "" && !bytes.Equal(r.out, o.Want) {
						r.bad = fmt.Sprintf("%s = %s, want %s", o.Name, r.out, o.Want)
					}
				}
			})
		}
		return bodies
	}
}

type argCheck struct {
	o *ops.Op
	x *big.Float
}

func verdict(s *vsched.S, res []result, args []argCheck) *eng.Mismatch {
	if s.Failure != "" {
		return &eng.Mismatch{What: "concurrent calls fail", Got: s.Failure, Want: "every call returns"}
	}
	for i := range res {
		if res[i].bad != "" {
			return &eng.Mismatch{What: fmt.Sprintf("thread %d gets a result no sequential order gives", i+1), Got: res[i].bad, Want: "the sequential result"}
		}
	}
	for _, a := range args {
		if !a.o.Intact(a.x) {
			return &eng.Mismatch{What: "argument changed", Got: string(ops.AppendBig(nil, a.x)), Want: string(a.o.ArgW)}
		}
	}
	if b := ops.AppendConstants(nil); !bytes.Equal(b, consts) {
		return &eng.Mismatch{What: "a published constant changed", Got: fmt.Sprintf("%x", b), Want: fmt.Sprintf("%x", consts)}
	}
	return nil
}

// boundFor is the preemption bound for a scenario whose default schedule has n
// scheduling points.
func (c *child) boundFor(n, threads int) int {
	if c.race {
		if n > c.pick(400, 1500) {
			return 0
		}
		return 1
	}
	l := [3]int{c.pick(1200, 4000), c.pick(110, 420), c.pick(28, 80)}
	if threads > 2 {
		l = [3]int{c.pick(600, 3000), c.pick(48, 160), c.pick(16, 40)}
	}
	b := 0
	for b < 3 && n <= l[b] {
		b++
	}
	if b == 0 {
		b = 1 // always at least one preemption
	}
	return b
}

// explore runs every schedule of one scenario within its bound.
func (c *child) explore(g *childGroup, th [][]*ops.Op, shared bool) {
	sc := &scenario{Threads: names(th...), Shared: shared, Race: c.race}
	c.cur.Store(sc)
	c.beat.Store(time.Now().UnixNano())
	c.note(func() *scenario { return sc })
	res := make([]result, len(th))
	var args []argCheck
	vsched.Budget = 0
	mk := mkThreads(th, shared, res, &args)
	s := &vsched.S{}
	vsched.Run(s, mk())
	bound := c.boundFor(len(s.Steps), len(th))
	if !c.race {
		s.Seen = posSet
		s.Salt = eng.Mix(uint64(g.Cases), uint64(len(c.out.Groups)))
	}
	before := posSet.N
	var bad *eng.Mismatch
	var devs []vsched.Dev
	execs, steps, complete := vsched.Explore(s, mk, bound, 1<<40, func(s *vsched.S, d []vsched.Dev) bool {
		if m := verdict(s, res, args); m != nil {
			bad, devs = m, d
			return false
		}
		return true
	})
	g.Cases++
	g.States += posSet.N - before
	c.out.Execs += execs
	c.out.Transitions += steps
	c.out.Scenarios[fmt.Sprintf("bound %d", bound)]++
	g.Complete = g.Complete && complete
	if posSet.N > 1<<22 {
		posSet = vsched.NewPosSet(24)
	}
	if bad != nil {
		sc.Devs = append([]vsched.Dev{}, devs...)
		c.fail(sc, bad, "schedule")
	}
	if c.sampleLeft > 0 {
		c.sampleLeft--
		sc.Bound = bound
		c.out.Samples = append(c.out.Samples, fmt.Sprintf("%s: %d schedules, %d steps", sc, execs, steps))
	}
}

var posSet = vsched.NewPosSet(24)

func (c *child) c17() {
	fns, m := byFn()
	idx := 0
	mine := func() bool { idx++; return idx%c.n == c.shard }
	per := c.pick(3, 6)
	if c.race {
		per = c.pick(2, 4)
	}
	var l []*ops.Op
	for _, f := range fns {
		l = append(l, every(m[f], per)...)
	}
	g, end := c.begin("pairs of threads, one call each", fmt.Sprintf("every unordered pair (with itself) of %d calls, %d per function", len(l), per))
pairs:
	for i := range l {
		for j := i; j < len(l); j++ {
			if !mine() {
				continue
			}
			if c.expired(g) {
				break pairs
			}
			c.explore(g, [][]*ops.Op{{l[i]}, {l[j]}}, false)
		}
	}
	end()
	g, end = c.begin("shared argument", "every pair of calls given the same *big.Float")
	keys := map[string][]*ops.Op{}
	var order []string
	for _, o := range alpha {
		if o.Key != "" {
			if keys[o.Key] == nil {
				order = append(order, o.Key)
			}
			keys[o.Key] = append(keys[o.Key], o)
		}
	}
	for _, k := range order {
		for i, a := range keys[k] {
			for _, b := range keys[k][i:] {
				if mine() && !c.expired(g) {
					c.explore(g, [][]*ops.Op{{a}, {b}}, true)
				}
			}
		}
	}
	end()
	perS := c.pick(10, 23)
	if c.race {
		perS = c.pick(4, 12)
	}
	g, end = c.begin("same function", fmt.Sprintf("every pair of calls of one function, up to %d arguments", perS))
	for _, f := range fns {
		a := every(m[f], perS)
		for i := range a {
			for j := i; j < len(a); j++ {
				if mine() && !c.expired(g) {
					c.explore(g, [][]*ops.Op{{a[i]}, {a[j]}}, false)
				}
			}
		}
	}
	end()
	if c.race {
		return
	}
	g, end = c.begin("two calls per thread", "per function, every a;b || c;d among 3 arguments")
	for _, f := range fns {
		a := every(m[f], 3)
		for i := 0; i < len(a)*len(a); i++ {
			for j := i; j < len(a)*len(a); j++ {
				if mine() && !c.expired(g) {
					k := len(a)
					c.explore(g, [][]*ops.Op{{a[i/k], a[i%k]}, {a[j/k], a[j%k]}}, false)
				}
			}
		}
	}
	end()
	g, end = c.begin("three threads", fmt.Sprintf("per function, every multiset of 3 calls among %d arguments", c.pick(3, 6)))
	for _, f := range fns {
		a := every(m[f], c.pick(3, 6))
		for i := range a {
			for j := i; j < len(a); j++ {
				for k := j; k < len(a); k++ {
					if mine() && !c.expired(g) {
						c.explore(g, [][]*ops.Op{{a[i]}, {a[j]}, {a[k]}}, false)
					}
				}
			}
		}
	}
	end()
}

// --- parent --------------------------------------------------------------------------

func runChild(id string, shard, n int, path string, race bool) {
	runtime.GOMAXPROCS(1)
	if race {
		runtime.GOMAXPROCS(1)
	}
	c := &child{shard: shard, n: n, path: path, thorough: os.Getenv("VERIF_TIER") == "thorough", race: race}
	c.out.Scenarios = map[string]int64{}
	var d int64
	fmt.Sscanf(os.Getenv("VERIF_DEADLINE"), "%d", &d)
	c.deadline = time.Unix(d, 0)
	c.beat.Store(time.Now().UnixNano())
	if race || os.Getenv("VERIF_TRACE") != "" {
		c.trace, _ = os.Create(path + ".cur")
	}
	debug.SetMaxStack(128 << 20)
	op := map[string]string{"C16": "history", "C17": "schedule", "C27": "cost"}[id]
	c.begin("every call alone", "")
	c.cur.Store(&scenario{})
	go c.watch(op)
	if id != "C27" {
		prepare(c.note)
	}
	c.out.Groups = nil
	switch id {
	case "C16":
		c.c16()
	case "C17":
		c.c17()
	case "C27":
		c.c27()
	}
	c.out.Points = vsched.Points
	c.write()
}

// spawn runs all shards with the given binary and merges what they report.
func spawn(r *eng.Run, bin, mode string, prefix string) {
	n := runtime.NumCPU()
	tmp := os.Getenv("VERIF_TMP")
	if tmp == "" {
		tmp = os.TempDir()
	}
	outs := make([]*childOut, n)
	errs := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			path := filepath.Join(tmp, fmt.Sprintf("%s-%s-%d.json", r.ID, mode, i))
			var eb bytes.Buffer
			run := func(env string) (error, int) {
				cmd := exec.Command(bin, mode, r.ID, fmt.Sprint(i), fmt.Sprint(n), path)
				cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_DEADLINE=%d", r.Deadline.Unix()), "GORACE=halt_on_error=1 exitcode=66", env)
				eb.Reset()
				cmd.Stderr = &eb
				err := cmd.Run()
				return err, cmd.ProcessState.ExitCode()
			}
			dies := func(code int) bool { return code < 0 || code == 2 && strings.Contains(eb.String(), "fatal error: ") }
			err, code := run("VERIF_TRACE=")
			if dies(code) || code == exitHangs || code == exitGrows {
				err, code = run("VERIF_TRACE=1")
				if s := noted(path); dies(code) && s != "" {
					why := "killed"
					if k := strings.Index(eb.String(), "fatal error: "); k >= 0 {
						why, _, _ = strings.Cut(eb.String()[k:], "\n")
					}
					op := map[string]string{"C16": "history", "C17": "schedule", "C27": "cost"}[r.ID]
					outs[i] = &childOut{Groups: []*childGroup{{Group: eng.Group{Name: "fatal error"}}}, Viol: &childViol{0, 0, &eng.Case{Op: op, S: s}, eng.Crash, why, "a result"}}
					return
				}
			}
			if b, e := os.ReadFile(path); e == nil {
				o := new(childOut)
				if json.Unmarshal(b, o) == nil {
					outs[i] = o
				}
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 66 {
				b := noted(path)
				outs[i] = &childOut{Groups: []*childGroup{{Group: eng.Group{Name: "race"}}}, Viol: &childViol{0, 0, &eng.Case{Op: "race", S: b}, "data race between two calls", trim(eb.String()), "no unordered accesses to the same memory"}}
			} else if outs[i] == nil {
				errs[i] = fmt.Sprintf("shard %d: %v: %s", i, err, trim(eb.String()))
			}
		}()
	}
	wg.Wait()
	base := len(r.Groups)
	for i, o := range outs {
		if o == nil {
			// a shard that dies takes the library down with it (fatal errors
			// cannot be recovered): that is for a human to look at
			fmt.Fprintln(os.Stderr, errs[i])
			os.Exit(3)
		}
		r.Transitions += o.Transitions
		r.ExtraStates += o.Positions
		if o.Execs > 0 {
			r.Traces += o.Execs
		}
		for k, g := range o.Groups {
			if len(r.Groups) <= base+k {
				ng := &eng.Group{Name: prefix + g.Name, Bound: g.Bound, Blocks: n, Complete: true}
				r.AddGroup(ng)
			}
			t := r.Groups[base+k]
			if t.Bound == "" {
				t.Name, t.Bound = prefix+g.Name, g.Bound
			}
			t.Cases += g.Cases
			t.Complete = t.Complete && g.Complete && o.Viol == nil
			t.WallS = max(t.WallS, g.WallS)
			r.ExtraStates += g.States
			if o.Execs == 0 {
				r.Traces += g.Cases
			}
		}
		for _, s := range o.Samples {
			if len(r.Samples) < 16 {
				r.SampleAny(s)
			}
		}
		sc, _ := r.Extra[prefix+"scenarios_per_preemption_bound"].(map[string]int64)
		if sc == nil {
			sc = map[string]int64{}
		}
		for k, v := range o.Scenarios {
			sc[k] += v
		}
		if len(sc) > 0 {
			r.Extra[prefix+"scenarios_per_preemption_bound"] = sc
		}
		if v := o.Viol; v != nil {
			r.AddViolation(base+v.Group, v.Seq*64+int64(i), v.Case, &eng.Mismatch{What: v.What, Got: v.Got, Want: v.Want})
		}
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, g := range r.Groups[base:] {
			fmt.Printf("# %-45s cases=%d %.1fs complete=%v\n", g.Name, g.Cases, g.WallS, g.Complete)
		}
	}
}

func trim(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

type instInfo struct {
	Points, Files, Packages int
	Warnings                []string
}

func inst() (d instInfo) {
	if b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_TMP"), "inst.json")); err == nil {
		json.Unmarshal(b, &d)
	}
	return
}

func exploreHistories(r *eng.Run) {
	r.Rule = "state = (call sequence prefix, keep or overwrite results); transition = one call, its result compared with the result of the same call in the initial state; arguments, earlier results and published constants re-read at the end"
	d := inst()
	r.Extra["packages_with_restored_state"] = vsched.Resets()
	if vsched.Resets() == 0 {
		r.Assumptions = append(r.Assumptions, "the library could not be instrumented: histories start from the state left by earlier ones")
	}
	r.Extra["instrumented"] = d
	spawn(r, self(), "child", "")
}

func exploreSchedules(r *eng.Run) {
	r.Rule = "state = (scenario, position of every thread); transition = one statement of the library between two scheduling points; a trace is one complete schedule, its results compared with the sequential ones"
	d := inst()
	r.Extra["instrumented"] = d
	if vsched.Resets() == 0 {
		r.Assumptions = append(r.Assumptions, "the library could not be instrumented, or starts goroutines or uses channels, which the scheduler does not control: threads switch only between calls ("+strings.Join(d.Warnings, "; ")+")")
		r.AddGroup(&eng.Group{Name: "statement-level schedules", Bound: "none: not instrumented"})
	}
	spawn(r, self(), "child", "")
	if bin := os.Getenv("VERIF_RACEBIN"); bin != "" {
		spawn(r, bin, "racechild", "happens-before: ")
	} else {
		r.Assumptions = append(r.Assumptions, "no race detector available: unordered accesses are only seen through wrong results")
	}
}

func explorePrices(r *eng.Run) {
	r.Rule = "state = one call; transition = the call, its statements and allocated bytes counted and compared with a bound linear in the size of argument and result; for what stays: memory in use and goroutines between marks in a series of calls"
	d := inst()
	r.Extra["instrumented"] = d
	if vsched.Resets() == 0 {
		r.Assumptions = append(r.Assumptions, "the library could not be instrumented: only memory is counted, not statements")
	}
	r.Assumptions = append(r.Assumptions, "statements inside math/big and other packages are not counted, the memory they allocate is")
	spawn(r, self(), "child", "")
}

// checkOne replays a history or a schedule.
func checkOne(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	var s scenario
	if err := json.Unmarshal([]byte(c.S), &s); err != nil {
		panic(err)
	}
	if c.Op == "cost" || c.Op == "keeps" {
		runtime.GOMAXPROCS(1)
		return checkCost(c.Op, s.Threads[0])
	}
	once.Do(func() { runtime.GOMAXPROCS(1); prepare(nil) })
	th := s.ops()
	switch c.Op {
	case "history":
		return guarded(func() *eng.Mismatch { return history(th[0], s.Spoil) })
	case "race":
		cmd := exec.Command(os.Getenv("VERIF_RACEBIN"), "raceone", c.S)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		if ee, ok := cmd.Run().(*exec.ExitError); ok && ee.ExitCode() == 66 {
			return &eng.Mismatch{What: "data race between two calls", Got: trim(eb.String()), Want: "no unordered accesses to the same memory"}
		}
		return nil
	}
	res := make([]result, len(th))
	var args []argCheck
	vsched.Budget = 0
	st := vsched.Replay(mkThreads(th, s.Shared, res, &args), s.Devs)
	return verdict(st, res, args)
}

var once sync.Once

func main() {
	if len(os.Args) == 2 && os.Args[1] == "selftest" {
		return
	}
	if len(os.Args) > 2 {
		switch os.Args[1] {
		case "child", "racechild":
			var i, n int
			fmt.Sscan(os.Args[3], &i)
			fmt.Sscan(os.Args[4], &n)
			runChild(os.Args[2], i, n, os.Args[5], os.Args[1] == "racechild")
			return
		case "raceone":
			runtime.GOMAXPROCS(1)
			prepare(nil)
			var s scenario
			if err := json.Unmarshal([]byte(os.Args[2]), &s); err != nil {
				os.Exit(3)
			}
			c := &child{race: true, path: filepath.Join(os.TempDir(), "none")}
			c.out.Scenarios = map[string]int64{}
			g, _ := c.begin("one", "")
			d, err := os.MkdirTemp("", "vrace")
			if err != nil {
				os.Exit(3)
			}
			c.path = filepath.Join(d, "o")
			c.explore(g, s.ops(), s.Shared)
			os.RemoveAll(d)
			return
		}
	}
	runner.Checks["C16"] = &runner.Check{Fn: checkOne, Explore: exploreHistories}
	runner.Checks["C17"] = &runner.Check{Fn: checkOne, Explore: exploreSchedules}
	runner.Checks["C27"] = &runner.Check{Fn: checkOne, Explore: explorePrices}
	runner.Main()
}
