// Package runner is the command line of a check binary: <bin> ID | <bin> replay FILE.
package runner

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/mewmew/float/vmc/eng"
)

// Check is one property's checking function and exploration.
type Check struct {
	Fn      eng.CheckFn
	Explore func(r *eng.Run)
}

// Checks are the registered checks by property id.
var Checks = map[string]*Check{}

// Main runs the check named on the command line.
func Main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: <id> | replay <file>")
		os.Exit(3)
	}
	if os.Args[1] == "replay" {
		if !eng.Supervised() {
			if code := eng.Supervise(""); code >= 0 {
				os.Exit(code)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", property(os.Args[2]), os.Args[2])
			os.Exit(1)
		}
		replay(os.Args[2])
		return
	}
	if os.Args[1] == "result" {
		result(os.Args[2], os.Args[3])
		return
	}
	if os.Args[1] == "recheck" {
		recheck(os.Args[2], os.Args[3])
		return
	}
	c := Checks[os.Args[1]]
	if c == nil {
		fmt.Println("unknown check", os.Args[1])
		os.Exit(3)
	}
	if !eng.Supervised() {
		os.Exit(eng.Supervise(os.Args[1]))
	}
	r := eng.New(os.Args[1])
	r.Check = c.Fn
	c.Explore(r)
	r.Finish()
}

func property(path string) string {
	var d struct{ Property string }
	if b, err := os.ReadFile(path); err == nil {
		json.Unmarshal(b, &d)
	}
	return d.Property
}

func replay(path string) {
	b, err := os.ReadFile(path)
	var d struct {
		Property string
		Case     *eng.Case
	}
	if err == nil {
		err = json.Unmarshal(b, &d)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	c := Checks[d.Property]
	r := eng.New(d.Property)
	r.Check = c.Fn
	fmt.Println("case:", eng.Describe(d.Case))
	m := eng.Recheck(r, d.Case)
	if m == nil {
		fmt.Println("holds")
		return
	}
	fmt.Printf("%s\n  got  %s\n  want %s\n", m.What, m.Got, m.Want)
	if m.Known == "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.Property, path)
		os.Exit(1)
	}
}

// recheck runs the collected cases of a property and prints the indexes of
// those that turn out differently here, one per line.
func recheck(id, path string) {
	var l []*eng.Collected
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	r := eng.New(id)
	r.Check = Checks[id].Fn
	for i, c := range l {
		m := eng.Recheck(r, c.Case)
		if m == nil || m.What != c.What || m.Got != c.Got && m.What != "panic" {
			fmt.Println(i)
		}
	}
}

// result prints how the first collected case turns out here.
func result(id, path string) {
	var l []*eng.Collected
	if b, err := os.ReadFile(path); err != nil || json.Unmarshal(b, &l) != nil {
		os.Exit(3)
	}
	r := eng.New(id)
	r.Check = Checks[id].Fn
	m := eng.Recheck(r, l[0].Case)
	switch {
	case m == nil:
		fmt.Println("as the model")
	case m.What == "panic":
		fmt.Println("panic")
	default:
		fmt.Printf("%s: %s\n", m.What, m.Got)
	}
}
