// Command mcarch decides C22: it runs the explorations of the other sequential
// properties, built for other targets (386, amd64 with fused multiply-add,
// WebAssembly, and without compiler optimisations), against the same model.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/mewmew/float/vmc/eng"
	"github.com/mewmew/float/vmc/runner"
)

// job is one exploration of one property on one target.
type job struct {
	Target string // suffix of the binaries
	Prog   string // mc or mcfmt
	ID     string
	Scale  int
	Tier   string
}

// sub is what Case.S holds.
type sub struct {
	Job  job       `json:"job"`
	Case *eng.Case `json:"case"`
}

func bin(j *job) (string, []string) {
	p := filepath.Join(os.Getenv("VERIF_TMP"), j.Prog+"-"+j.Target)
	if j.Target == "wasm" {
		return "node", []string{"--stack-size=8192", os.Getenv("VERIF_WASMEXEC"), p}
	}
	return p, nil
}

func env(j *job, root string, bits int) []string {
	return append(os.Environ(), "VERIF_ROOT="+root, "VERIF_TIER="+j.Tier, fmt.Sprintf("VERIF_SCALE=%d", j.Scale),
		fmt.Sprintf("VERIF_STATE_BITS=%d", bits), "VERIF_KNOWN="+filepath.Join(os.Getenv("VERIF_ROOT"), "known_findings.json"), "VERIF_VERBOSE=")
}

type evidence struct {
	Coverage struct {
		States      int64        `json:"states"`
		Outcomes    int64        `json:"distinct_outcomes"`
		Transitions int64        `json:"transitions"`
		Traces      int64        `json:"traces_validated_against_impl"`
		Groups      []*eng.Group `json:"groups"`
		Samples     []any        `json:"samples"`
	} `json:"coverage"`
}

type replayFile struct {
	Case            *eng.Case
	What, Got, Want string
}

func (j *job) run(r *eng.Run, mu *sync.Mutex, procs int) {
	root := filepath.Join(os.Getenv("VERIF_TMP"), fmt.Sprintf("root-%s-%s", j.Target, j.ID))
	os.MkdirAll(root, 0o755)
	p, args := bin(j)
	bits := 23
	if j.Target == "wasm" {
		bits = 20
	}
	cmd := exec.Command(p, append(args, j.ID)...)
	cmd.Env = append(env(j, root, bits), fmt.Sprintf("GOMAXPROCS=%d", procs), "VERIF_COLLECT="+filepath.Join(root, "collected.json"))
	out, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	code := 0
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err != nil {
		code = 3
	}
	mu.Lock()
	defer mu.Unlock()
	var ev evidence
	if b, e := os.ReadFile(filepath.Join(root, "evidence", j.ID+".json")); e == nil {
		json.Unmarshal(b, &ev)
	} else if code <= 1 {
		code = 3
	}
	if code > 1 && j.Target == "wasm" && j.dies(root) {
		r.AddGroup(&eng.Group{Name: j.Target + " " + j.ID + " (not independent of other properties)", Bound: "a call ends the program, natively too"})
		return
	}
	if code > 1 {
		fmt.Fprintf(os.Stderr, "%s %s on %s: no answer (exit %d)\n%s\n", j.Prog, j.ID, j.Target, code, out)
		os.Exit(3)
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		l := strings.Split(strings.TrimSpace(string(out)), "\n")
		fmt.Printf("# %s: %s\n", j.Target, l[len(l)-1])
	}
	c := &ev.Coverage
	r.ExtraStates += c.States
	r.ExtraOutcomes += c.Outcomes
	r.Transitions += c.Transitions
	r.Traces += c.Traces
	for _, g := range c.Groups {
		g.Name = j.Target + " " + j.ID + " " + g.Name
		r.AddGroup(g)
	}
	if len(c.Samples) > 0 {
		r.SampleAny(map[string]any{"target": j.Target, "property": j.ID, "case": c.Samples[0]})
	}
	if code == 1 {
		// a call that does not return: is it the same here?
		var f replayFile
		b, err := os.ReadFile(filepath.Join(root, "replays", j.ID+".json"))
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err, string(out))
			os.Exit(3)
		}
		b, _ = json.Marshal([]*eng.Collected{{Case: f.Case, What: f.What, Got: f.Got, Want: f.Want}})
		os.WriteFile(filepath.Join(root, "collected.json"), b, 0o644)
	}
	b, err := os.ReadFile(filepath.Join(root, "collected.json"))
	if err != nil {
		return
	}
	var l []*eng.Collected
	if json.Unmarshal(b, &l) != nil {
		os.Exit(3)
	}
	// Mismatches with the model that this target shares with the native build
	// concern other properties.
	here, timeout := j.elsewhere("native", filepath.Join(root, "collected.json"), eng.Fatal(l[0].What))
	if timeout || len(here) == 0 {
		r.AddGroup(&eng.Group{Name: j.Target + " " + j.ID + " (not independent of other properties)", Bound: fmt.Sprintf("%d mismatches with the model, all the same on the native target", len(l))})
		return
	}
	f := l[here[0]]
	s, _ := json.Marshal(sub{*j, f.Case})
	g := r.AddGroup(&eng.Group{Name: j.Target + " " + j.ID})
	r.AddViolation(g, 0, &eng.Case{Op: "target", Fmt: j.Target, S: string(s)}, &eng.Mismatch{What: fmt.Sprintf("%s on %s differs from the native target: %s: %s", j.ID, j.Target, eng.Describe(f.Case), f.What), Got: f.Got, Want: f.Want})
}

// dies reports whether the exploration finds a call that ends the program, or
// does not come to an end, on the native target.
func (j *job) dies(root string) bool {
	k := *j
	k.Target = "native"
	root = filepath.Join(root, "native")
	os.MkdirAll(root, 0o755)
	p, _ := bin(&k)
	cmd := exec.Command(p, j.ID)
	cmd.Env = append(env(&k, root, 23), "VERIF_COLLECT="+filepath.Join(root, "collected.json"))
	cmd.Run()
	var f replayFile
	b, err := os.ReadFile(filepath.Join(root, "replays", j.ID+".json"))
	return err == nil && json.Unmarshal(b, &f) == nil && eng.Fatal(f.What)
}

// elsewhere runs collected cases on a target and returns those that turn out
// differently there. fatal: the case does not come to an end on its target.
func (j *job) elsewhere(target, file string, fatal bool) (l []int, timeout bool) {
	k := *j
	k.Target = target
	p, args := bin(&k)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, p, append(args, "recheck", j.ID, file)...)
	cmd.Env = env(&k, filepath.Dir(file), 16)
	out, err := cmd.Output()
	if ctx.Err() != nil {
		return nil, true
	}
	if err != nil && fatal {
		return nil, true // dies here too
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "recheck:", err, string(out))
		os.Exit(3)
	}
	for _, s := range strings.Fields(string(out)) {
		var i int
		fmt.Sscan(s, &i)
		l = append(l, i)
	}
	return l, false
}

func check(w *eng.Worker, c *eng.Case) *eng.Mismatch {
	var s sub
	if err := json.Unmarshal([]byte(c.S), &s); err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "re")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	// run it on the target to learn what comes out, then natively
	b, _ := json.Marshal([]*eng.Collected{{Case: s.Case, What: "?"}})
	f := filepath.Join(dir, "case.json")
	os.WriteFile(f, b, 0o644)
	res := func(target string) string {
		k := s.Job
		k.Target = target
		p, args := bin(&k)
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, p, append(args, "result", s.Job.ID, f)...)
		cmd.Env = env(&k, dir, 16)
		out, _ := cmd.Output()
		return string(out)
	}
	got, want := res(s.Job.Target), res("native")
	if got == want {
		return nil
	}
	return &eng.Mismatch{What: s.Job.ID + " on " + s.Job.Target + " differs from the native target", Got: got, Want: want}
}

func explore(r *eng.Run) {
	r.Rule = "the states, transitions and traces of the listed properties' explorations, executed by builds for other targets and compared with the same model"
	r.Assumptions = append(r.Assumptions, "targets that can run here: 386 (32-bit int, 32-bit big.Word), amd64 v3 (fused multiply-add allowed), amd64 without optimisations, WebAssembly; arm64, ppc64, s390x, riscv64 and mips cannot be executed here, big-endian machines are not covered")
	tier := "quick"
	var jobs []*job
	add := func(target string, list ...any) {
		for i := 0; i < len(list); i += 2 {
			id := list[i].(string)
			prog := "mc"
			if id >= "C18" && id <= "C21" || id == "C25" {
				prog = "mcfmt"
			}
			jobs = append(jobs, &job{target, prog, id, list[i+1].(int), tier})
		}
	}
	targets := strings.Fields(os.Getenv("VERIF_TARGETS"))
	for _, t := range targets {
		switch {
		case t == "wasm":
			if r.Thorough() {
				add(t, "C01", 1, "C02", 1, "C03", 40, "C04", 20, "C05", 10, "C06", 1, "C07", 10, "C08", 2, "C09", 4, "C10", 100, "C11", 10, "C12", 60, "C13", 40, "C14", 1, "C15", 100, "C18", 1, "C19", 40, "C20", 10, "C21", 1, "C23", 20, "C24", 200, "C25", 4, "C26", 100)
			} else {
				add(t, "C01", 1, "C02", 1, "C14", 1, "C06", 18, "C08", 40, "C09", 50, "C03", 430, "C04", 280, "C05", 60, "C11", 400, "C18", 160, "C21", 150, "C20", 220, "C25", 45)
			}
		case t == "386" && r.Thorough():
			add(t, "C01", 1, "C02", 1, "C03", 1, "C04", 1, "C05", 1, "C06", 1, "C07", 1, "C08", 1, "C09", 1, "C10", 1, "C11", 1, "C12", 1, "C13", 1, "C14", 1, "C15", 1, "C18", 1, "C19", 1, "C20", 1, "C21", 1, "C23", 1, "C24", 1, "C25", 1, "C26", 1)
		case t == "386":
			add(t, "C01", 1, "C02", 1, "C14", 1, "C18", 16, "C21", 12, "C05", 3, "C06", 2, "C07", 5, "C08", 3, "C09", 3, "C03", 15, "C04", 7, "C10", 200, "C11", 4, "C12", 60, "C19", 16, "C20", 8, "C23", 4, "C25", 4, "C26", 200)
		case r.Thorough():
			add(t, "C01", 1, "C02", 1, "C03", 4, "C04", 2, "C05", 1, "C06", 1, "C07", 1, "C08", 1, "C09", 1, "C10", 4, "C11", 1, "C12", 2, "C13", 4, "C14", 1, "C15", 8, "C18", 1, "C19", 1, "C20", 1, "C21", 1, "C23", 1, "C24", 8, "C25", 1, "C26", 8)
		default:
			add(t, "C01", 1, "C02", 1, "C14", 1, "C18", 16, "C21", 24, "C05", 6, "C06", 5, "C07", 16, "C08", 9, "C09", 6, "C03", 120, "C04", 60, "C11", 16, "C19", 30, "C20", 30, "C25", 4)
		}
	}
	var mu sync.Mutex
	// single-threaded jobs in the background
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, j := range jobs {
		if j.Target == "wasm" {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				j.run(r, &mu, 1)
				<-sem
			}()
		}
	}
	for _, j := range jobs {
		if j.Target != "wasm" {
			j.run(r, &mu, runtime.NumCPU())
		}
	}
	wg.Wait()
}

func main() {
	runner.Checks["C22"] = &runner.Check{Fn: check, Explore: explore}
	runner.Main()
}
