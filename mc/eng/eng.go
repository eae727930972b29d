// Package eng is the bounded-exhaustive exploration engine: it runs enumerated
// cases on all cores, counts distinct states, transitions and traces, turns the
// first mismatch between implementation and model into a replayable artefact,
// and writes the evidence file.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one explored input. It is self-contained, so that a violation can be
// replayed without the enumeration that found it.
type Case struct {
	Op   string  // operation or sequence explored
	Fmt  string  // format it concerns
	Kind uint8   // ref.Kind of the big-float argument
	Neg  bool    // sign of the big-float argument
	M    big.Int // magnitude of the big-float argument
	E    int     // binary exponent of the big-float argument
	Prec uint    // precision of the big-float argument (0: as needed)
	Mode big.RoundingMode
	Acc  int8      // accuracy the big-float argument carries from before
	B    [2]uint64 // encoding argument
	C    [2]uint64 // second encoding argument
	S    string    // free-form argument (histories, schedules)
	N    int       // integer argument
}

type caseJSON struct {
	Op   string    `json:"op"`
	Fmt  string    `json:"fmt,omitempty"`
	Kind uint8     `json:"kind"`
	Neg  bool      `json:"neg"`
	M    string    `json:"m"`
	E    int       `json:"e"`
	Prec uint      `json:"prec"`
	Mode uint8     `json:"mode"`
	B    [2]string `json:"b"`
	C    [2]string `json:"c"`
	S    string    `json:"s,omitempty"`
	N    int       `json:"n"`
	Acc  int8      `json:"acc,omitempty"`
}

// MarshalJSON encodes c.
func (c *Case) MarshalJSON() ([]byte, error) {
	h := func(u uint64) string { return fmt.Sprintf("%#x", u) }
	return json.Marshal(caseJSON{c.Op, c.Fmt, c.Kind, c.Neg, fmt.Sprintf("%#x", &c.M), c.E, c.Prec, uint8(c.Mode),
		[2]string{h(c.B[0]), h(c.B[1])}, [2]string{h(c.C[0]), h(c.C[1])}, c.S, c.N, c.Acc})
}

// UnmarshalJSON decodes c.
func (c *Case) UnmarshalJSON(b []byte) error {
	var j caseJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*c = Case{Op: j.Op, Fmt: j.Fmt, Kind: j.Kind, Neg: j.Neg, E: j.E, Prec: j.Prec, Mode: big.RoundingMode(j.Mode), S: j.S, N: j.N, Acc: j.Acc}
	c.M.SetString(j.M, 0)
	for i := 0; i < 2; i++ {
		fmt.Sscanf(j.B[i], "%v", &c.B[i])
		fmt.Sscanf(j.C[i], "%v", &c.C[i])
	}
	return nil
}

// Clone returns a deep copy.
func (c *Case) Clone() *Case {
	d := *c
	d.M = big.Int{}
	d.M.Set(&c.M)
	return &d
}

// Mismatch is a disagreement between implementation and model.
type Mismatch struct {
	What, Got, Want string
	Known           string // non-empty: id of a known finding this is an instance of
}

// CheckFn runs one case against the implementation and the model.
type CheckFn func(w *Worker, c *Case) *Mismatch

// Set is a lock-free set of 64-bit hashes.
type Set struct {
	t    []uint64
	mask uint64
	n    atomic.Int64
	full atomic.Bool
}

// NewSet returns a set with capacity 1<<bits.
func NewSet(bits uint) *Set { return &Set{t: make([]uint64, 1<<bits), mask: 1<<bits - 1} }

// Add inserts h.
func (s *Set) Add(h uint64) {
	if h == 0 {
		h = 1
	}
	i := h * 0x9E3779B97F4A7C15 >> 20 & s.mask
	for k := 0; ; k++ {
		v := atomic.LoadUint64(&s.t[i])
		if v == h {
			return
		}
		if v == 0 {
			if uint64(s.n.Load()) > s.mask-s.mask/8 || k > 1<<16 {
				s.full.Store(true)
				return
			}
			if atomic.CompareAndSwapUint64(&s.t[i], 0, h) {
				s.n.Add(1)
				return
			}
			if atomic.LoadUint64(&s.t[i]) == h {
				return
			}
		}
		i = (i + 1) & s.mask
	}
}

// Len is the number of elements inserted.
func (s *Set) Len() int64 { return s.n.Load() }

// Mix hashes words.
func Mix(ws ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, w := range ws {
		h ^= w
		h *= 0xff51afd7ed558ccd
		h ^= h >> 32
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

var seed = maphash.MakeSeed()

// HashString hashes a string (within one process).
func HashString(s string) uint64 { return maphash.String(seed, s) }

// HashInt hashes a big integer.
func HashInt(x *big.Int, rest ...uint64) uint64 {
	h := Mix(rest...)
	for _, w := range x.Bits() {
		h = Mix(h, uint64(w))
	}
	return h
}

// Group is one completed (or truncated) enumeration.
type Group struct {
	Name     string  `json:"name"`
	Bound    string  `json:"bound"`
	Blocks   int     `json:"blocks"`
	Cases    int64   `json:"cases"`
	Complete bool    `json:"complete"`
	WallS    float64 `json:"wall_s"`
}

// Run is one execution of one check.
type Run struct {
	ID, Tier, Root string
	Seed           int
	Scale          int // > 1: explore only about one block in Scale (other architectures)
	Check          CheckFn
	Start          time.Time
	Deadline       time.Time
	States         *Set
	Outcomes       *Set
	Groups         []*Group
	Samples        []any
	Assumptions    []string
	Extra          map[string]any
	Rule           string
	Transitions    int64
	Traces         int64
	Workers        int
	ExtraStates    int64 // distinct states counted elsewhere
	ExtraOutcomes  int64

	mu        sync.Mutex
	viol      []viol
	Collect   string
	Collected []*Collected
	known     map[string]*knownHit
	ids       map[string]bool
	stop      atomic.Bool
	ws        []*Worker
	notes     *notes
	blocks    int   // calls of Blocks so far
	memLimit  int64 // of the process
}

// Collected is a mismatch to be run again on another target.
type Collected struct {
	Case            *Case
	What, Got, Want string
}

type viol struct {
	group, block int
	seq          int64
	c            *Case
	m            *Mismatch
}

type knownHit struct {
	n     int64
	first *Case
	m     *Mismatch
}

// Worker is one exploring thread.
type Worker struct {
	R           *Run
	Transitions int64 // implementation calls compared with the model
	Traces      int64 // complete cases (operation sequences) executed
	slot        int
	group       int
	block       int
	cur         *Case
	beat        atomic.Int64
	Scratch     any
	samplesLeft int
}

// New prepares a run from the environment.
func New(id string) *Run {
	r := &Run{ID: id, Tier: os.Getenv("VERIF_TIER"), Root: os.Getenv("VERIF_ROOT"), Start: time.Now(), Seed: 1,
		known: map[string]*knownHit{}, Extra: map[string]any{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	if r.Root == "" {
		r.Root = "/verif"
	}
	r.Collect = os.Getenv("VERIF_COLLECT")
	fmt.Sscanf(os.Getenv("VERIF_SCALE"), "%d", &r.Scale)
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &r.Seed)
	limit := 480 * time.Second
	if r.Tier == "thorough" {
		limit = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		var n int
		fmt.Sscanf(s, "%d", &n)
		limit = time.Duration(n) * time.Second
	}
	r.Deadline = r.Start.Add(limit)
	bits := uint(27)
	if r.Tier == "thorough" {
		bits = 29
	}
	if s := os.Getenv("VERIF_STATE_BITS"); s != "" {
		fmt.Sscanf(s, "%d", &bits)
	}
	r.notes = openNotes()
	r.memLimit = 16<<bits*2 + 6<<30
	r.States = NewSet(bits)
	r.Outcomes = NewSet(bits - 1)
	r.Workers = runtime.GOMAXPROCS(0)
	return r
}

// Thorough reports the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Stopped reports whether exploration should end.
func (r *Run) Stopped() bool { return r.stop.Load() }

const hangLimit = 150 * time.Second

// Blocks runs f for every block index 0..n-1 on all workers. Every case passes
// through w.Do. The group is complete if no deadline cut it short.
func (r *Run) Blocks(name, bound string, n int, f func(w *Worker, i int)) {
	if r.stop.Load() {
		return
	}
	bi := r.blocks
	r.blocks++
	if r.notes.only && bi != r.notes.group {
		return
	}
	if r.Scale > 1 && n > 48 {
		var sel []int
		for i := 0; i < n; i++ {
			if Mix(uint64(i))%uint64(r.Scale) == 0 {
				sel = append(sel, i)
			}
		}
		bound = fmt.Sprintf("%d of %d blocks of: %s", len(sel), n, bound)
		n = len(sel)
		g := f
		f = func(w *Worker, i int) { g(w, sel[i]) }
	}
	g := &Group{Name: name, Bound: bound, Blocks: n, Complete: true}
	r.Groups = append(r.Groups, g)
	gi := len(r.Groups) - 1
	t0 := time.Now()
	var next atomic.Int64
	var wg sync.WaitGroup
	nw := r.Workers
	if nw > n {
		nw = n
	}
	if r.notes.only {
		next.Store(int64(r.notes.block))
		nw, n = 1, r.notes.block+1
	}
	ws := make([]*Worker, nw)
	for k := range ws {
		ws[k] = &Worker{R: r, slot: k, group: gi, samplesLeft: 1}
		ws[k].beat.Store(time.Now().UnixNano())
	}
	var cut atomic.Bool
	for k := 0; k < nw; k++ {
		wg.Add(1)
		w := ws[k]
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || r.stop.Load() {
					break
				}
				if time.Now().After(r.Deadline) {
					cut.Store(true)
					break
				}
				w.block = i
				r.notes.at(w.slot, bi, i)
				w.runBlock(f, i)
			}
			r.notes.at(w.slot, -1, -1)
			w.beat.Store(-1)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(5 * time.Second)
	mem := time.NewTicker(100 * time.Millisecond)
	give := func(w *Worker, what, got string) {
		c := w.cur // the worker is stuck inside this case
		if c == nil {
			c = &Case{}
		}
		r.mu.Lock()
		r.viol = append(r.viol, viol{gi, w.block, 0, c.Clone(), &Mismatch{What: what, Got: got, Want: "a result"}})
		r.mu.Unlock()
		r.stop.Store(true)
		r.Finish() // does not return
	}
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			for _, w := range ws {
				b := w.beat.Load()
				if b > 0 && time.Since(time.Unix(0, b)) > hangLimit {
					give(w, NoReturn, fmt.Sprintf("no progress for %v", hangLimit))
				}
			}
		case <-mem.C:
			if resident() < r.memLimit {
				continue
			}
			at := make([]int64, nw)
			for i, w := range ws[:nw] {
				at[i] = w.Traces
			}
			if !Growing(r.memLimit) {
				continue
			}
			time.Sleep(300 * time.Millisecond)
			for i, w := range ws[:nw] {
				if w.beat.Load() > 0 && w.Traces == at[i] {
					give(w, TooMuch, fmt.Sprintf("more than %d MB", r.memLimit>>20))
				}
			}
		}
	}
	mem.Stop()
	tick.Stop()
	for _, w := range ws {
		g.Cases += w.Traces
		r.Transitions += w.Transitions
		r.Traces += w.Traces
	}
	g.Complete = !cut.Load() && !r.stop.Load()
	g.WallS = time.Since(t0).Seconds()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("# %-40s blocks=%d cases=%d %.1fs\n", name, n, g.Cases, g.WallS)
	}
}

func (w *Worker) runBlock(f func(w *Worker, i int), i int) {
	defer func() {
		if e := recover(); e != nil {
			if e == errStop {
				return
			}
			c := w.cur
			if c == nil {
				panic(e)
			}
			w.fail(c, &Mismatch{What: "panic", Got: fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack())), Want: "a result"})
		}
	}()
	f(w, i)
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "mewmew/float") && !strings.Contains(l, "vmc") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

var errStop = fmt.Errorf("stop")

// Do runs the check on one case. After the first unexpected mismatch the
// worker stops.
func (w *Worker) Do(c *Case) {
	w.cur = c
	w.Traces++
	if w.R.notes.only {
		w.R.notes.doing(c)
	}
	if w.Traces&63 == 0 {
		w.beat.Store(time.Now().UnixNano())
		if w.R.stop.Load() {
			panic(errStop)
		}
	}
	if w.samplesLeft > 0 && w.Traces > 3 {
		w.samplesLeft--
		w.R.Sample(c)
	}
	if m := w.R.Check(w, c); m != nil {
		w.fail(c, m)
	}
}

// Sample records a case in the evidence.
func (r *Run) Sample(c *Case) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 24 {
		r.Samples = append(r.Samples, c.Clone())
	}
}

// SampleAny records free-form sample data.
func (r *Run) SampleAny(x any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 24 {
		r.Samples = append(r.Samples, x)
	}
}

// AddGroup records an enumeration carried out elsewhere.
func (r *Run) AddGroup(g *Group) int {
	r.Groups = append(r.Groups, g)
	return len(r.Groups) - 1
}

// AddViolation records a mismatch found elsewhere.
func (r *Run) AddViolation(group int, seq int64, c *Case, m *Mismatch) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viol = append(r.viol, viol{group, 0, seq, c, m})
}

func (r *Run) knownFile() string {
	if p := os.Getenv("VERIF_KNOWN"); p != "" {
		return p
	}
	return filepath.Join(r.Root, "known_findings.json")
}

// listed are the ids in the known-findings file of the tree.
func (r *Run) listed(id string) bool {
	if r.ids == nil {
		r.ids = map[string]bool{}
		var d struct {
			Findings []struct{ ID, Property string }
		}
		if b, err := os.ReadFile(r.knownFile()); err == nil {
			json.Unmarshal(b, &d)
		}
		for _, f := range d.Findings {
			if f.Property == r.ID {
				r.ids[f.ID] = true
			}
		}
	}
	return r.ids[id]
}

// Known records an instance of a known finding without ending the case.
func (w *Worker) Known(c *Case, m *Mismatch) { w.fail(c, m) }

func (w *Worker) fail(c *Case, m *Mismatch) {
	r := w.R
	r.mu.Lock()
	defer r.mu.Unlock()
	if m.Known != "" && !r.listed(m.Known) {
		m.Known = ""
	}
	if m.Known != "" {
		k := r.known[m.Known]
		if k == nil {
			k = &knownHit{first: c.Clone(), m: m}
			r.known[m.Known] = k
		}
		k.n++
		return
	}
	if r.Collect != "" {
		// only the cases are wanted, to be run again on another target
		if len(r.Collected) < 1000 {
			r.Collected = append(r.Collected, &Collected{c.Clone(), m.What, m.Got, m.Want})
		} else {
			r.stop.Store(true)
		}
		return
	}
	r.viol = append(r.viol, viol{w.group, w.block, w.Traces, c.Clone(), m})
	if len(r.viol) >= 8 {
		r.stop.Store(true)
	}
	if os.Getenv("VERIF_KEEPGOING") != "" {
		r.stop.Store(false)
		if len(r.viol) > 100000 {
			panic(errStop)
		}
		return
	}
	r.stop.Store(true)
}

// Finish confirms violations, writes evidence and exits.
func (r *Run) Finish() {
	r.mu.Lock()
	sort.SliceStable(r.viol, func(i, j int) bool {
		a, b := r.viol[i], r.viol[j]
		if a.group != b.group {
			return a.group < b.group
		}
		if a.block != b.block {
			return a.block < b.block
		}
		return a.seq < b.seq
	})
	vs := r.viol
	r.mu.Unlock()
	exhaustive := true
	for _, g := range r.Groups {
		exhaustive = exhaustive && g.Complete
	}
	if r.States.full.Load() {
		r.Extra["states_note"] = "state table full: the distinct-state count is a lower bound"
	}
	cov := map[string]any{
		"states":                        r.States.Len() + r.ExtraStates,
		"distinct_outcomes":             r.Outcomes.Len() + r.ExtraOutcomes,
		"transitions":                   r.Transitions,
		"traces_validated_against_impl": r.Traces,
		"samples":                       r.Samples,
		"rule":                          r.Rule,
		"exhaustive":                    exhaustive,
		"groups":                        r.Groups,
	}
	if len(r.Samples) == 0 {
		cov["samples"] = []any{}
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	kn := map[string]any{}
	for id, h := range r.known {
		kn[id] = map[string]any{"instances": h.n, "first": h.first, "what": h.m}
	}
	if len(kn) > 0 {
		cov["known_findings"] = kn
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": r.Assumptions, "wall_s": time.Since(r.Start).Seconds(), "violations": len(vs),
	}
	writeJSON(filepath.Join(r.Root, "evidence", r.ID+".json"), ev)
	ids := make([]string, 0, len(r.known))
	for id := range r.known {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		h := r.known[id]
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d instances explored; first: %s got %s want %s)\n", r.ID, id, h.m.What, h.n, Describe(h.first), h.m.Got, h.m.Want)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n", r.ID, r.Tier, r.States.Len()+r.ExtraStates, r.Transitions, r.Traces, r.Outcomes.Len()+r.ExtraOutcomes, exhaustive, time.Since(r.Start).Seconds())
	if len(r.Collected) > 0 {
		writeJSON(r.Collect, r.Collected)
	}
	if len(vs) == 0 {
		os.Exit(0)
	}
	v := vs[0]
	again := 0
	if !Fatal(v.m.What) {
		for i := 0; i < 5; i++ {
			if Recheck(r, v.c) != nil {
				again++
			}
		}
	}
	path := filepath.Join(r.Root, "replays", r.ID+".json")
	os.MkdirAll(filepath.Dir(path), 0o755)
	writeJSON(path, map[string]any{
		"property": r.ID, "tier": r.Tier, "case": v.c, "what": v.m.What, "got": v.m.Got, "want": v.m.Want, "group": r.Groups[v.group].Name,
		"reproduced_in_isolation": fmt.Sprintf("%d/5", again),
		"replay_cmd":              "bash /verif/check.sh replay " + path,
		"describe":                Describe(v.c),
		"go_test":                 GoTest(v.c),
	})
	re := fmt.Sprintf("fails %d of 5", again)
	if Fatal(v.m.What) {
		re = "not done"
	}
	fmt.Printf("mismatch: %s: %s\n  got  %s\n  want %s\n  re-run alone: %s\n", plain(v.m.What), plain(Describe(v.c)), plain(v.m.Got), plain(v.m.Want), re)
	for i, x := range vs {
		if i > 0 && i < 4 {
			fmt.Printf("also: %s: %s got %s want %s\n", plain(x.m.What), plain(Describe(x.c)), plain(x.m.Got), plain(x.m.Want))
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
	os.Exit(1)
}

// plain escapes what a terminal or grep would not take for text.
func plain(s string) string {
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < ' ' && c != '\n' && c != '\t' || c > '~' {
			fmt.Fprintf(&b, "\\x%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

// Recheck runs one case in isolation.
func Recheck(r *Run, c *Case) (m *Mismatch) {
	defer func() {
		if e := recover(); e != nil {
			m = &Mismatch{What: "panic", Got: fmt.Sprintf("panic: %v", e), Want: "a result"}
		}
	}()
	return r.Check(&Worker{R: r}, c)
}

func writeJSON(path string, v any) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write", path, err)
		os.Exit(3)
	}
}

// Describe renders a case.
func Describe(c *Case) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", c.Op)
	if c.Fmt != "" {
		fmt.Fprintf(&b, " [%s]", c.Fmt)
	}
	if c.M.Sign() != 0 || c.Kind != 0 {
		s := "+"
		if c.Neg {
			s = "-"
		}
		switch c.Kind {
		case 0:
			fmt.Fprintf(&b, " x=%s0", s)
		case 2:
			fmt.Fprintf(&b, " x=%sInf", s)
		default:
			fmt.Fprintf(&b, " x=%s0x%xp%d", s, &c.M, c.E)
		}
		fmt.Fprintf(&b, " prec=%d mode=%v", c.Prec, c.Mode)
	}
	fmt.Fprintf(&b, " bits=%#x,%#x", c.B[0], c.B[1])
	if c.C != [2]uint64{} {
		fmt.Fprintf(&b, " bits2=%#x,%#x", c.C[0], c.C[1])
	}
	if c.N != 0 {
		fmt.Fprintf(&b, " n=%d", c.N)
	}
	if c.S != "" {
		fmt.Fprintf(&b, " %q", c.S)
	}
	return b.String()
}

// GoTest renders a case as a plain Go statement list for use without the
// explorer.
var GoTest = func(c *Case) string { return Describe(c) }
