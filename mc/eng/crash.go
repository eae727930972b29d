package eng

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Some failures of a call cannot be recovered from: endless recursion, memory
// that grows without end, a fatal error of the runtime. Explorations therefore
// run in a child process that notes the block each worker is in. When the child
// dies, the noted blocks are run once more, one at a time, by a child that also
// notes every case before it is run.

const (
	NoReturn = "call does not return"
	TooMuch  = "call takes ever more memory"
	Crash    = "call ends the program"
)

// Fatal reports whether a mismatch cannot be observed again in this process.
func Fatal(what string) bool { return what == NoReturn || what == TooMuch || what == Crash }

const (
	noteSlots = 256
	noteCase  = 16 * noteSlots
)

// notes is what a supervised run leaves for its supervisor.
type notes struct {
	f            *os.File
	only         bool // run one block, noting every case
	group, block int
}

func openNotes() *notes {
	n := &notes{}
	p := os.Getenv("VERIF_CHILD")
	if p == "" {
		return n
	}
	n.f, _ = os.OpenFile(p, os.O_RDWR, 0)
	if k, _ := fmt.Sscanf(os.Getenv("VERIF_ONLY"), "%d:%d", &n.group, &n.block); k == 2 {
		n.only = true
	}
	os.Unsetenv("VERIF_CHILD") // not for other programs started from here
	os.Unsetenv("VERIF_ONLY")
	debug.SetMaxStack(128 << 20)
	return n
}

// at notes that a worker is in a block (-1: in none).
func (n *notes) at(worker, group, block int) {
	if n.f == nil || n.only || worker >= noteSlots {
		return
	}
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], uint64(group+1))
	binary.LittleEndian.PutUint64(b[8:], uint64(block+1))
	n.f.WriteAt(b[:], int64(16*worker))
}

func (n *notes) doing(c *Case) {
	b, err := json.Marshal(c)
	if err != nil || n.f == nil {
		return
	}
	n.f.WriteAt(append(binary.LittleEndian.AppendUint64(nil, uint64(len(b))), b...), noteCase)
}

// head keeps the beginning of what is written to it.
type head struct{ bytes.Buffer }

func (h *head) Write(b []byte) (int, error) {
	if n := 16384 - h.Len(); n > 0 {
		h.Buffer.Write(b[:min(n, len(b))])
	}
	return len(b), nil
}

// Supervised reports whether the process is a supervised child, or cannot have
// one.
func Supervised() bool { return os.Getenv("VERIF_CHILD") != "" || runtime.GOOS == "js" }

// Supervise runs this program with the same arguments in a child process. It
// returns the exit code; the id is that of the property explored, or "" when a
// single case is run.
func Supervise(id string) int {
	f, err := os.CreateTemp(os.Getenv("VERIF_TMP"), "notes")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.Remove(f.Name())
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	runtime.LockOSThread() // the child is ended with the thread that started it
	run := func(only string, limit time.Duration) (code int, why string) {
		var h head
		cmd := exec.Command(exe, os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+f.Name(), "VERIF_ONLY="+only)
		cmd.Stdout = os.Stdout
		cmd.Stderr = &h
		dieWithParent(cmd)
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3, ""
		}
		var late atomic.Bool
		if limit > 0 {
			t := time.AfterFunc(limit, func() { late.Store(true); cmd.Process.Kill() })
			defer t.Stop()
		}
		err := cmd.Wait()
		s := h.String()
		if late.Load() {
			return -1, NoReturn
		}
		if err == nil {
			os.Stderr.WriteString(s)
			return 0, ""
		}
		code = cmd.ProcessState.ExitCode()
		if code == 2 && strings.Contains(s, "fatal error: ") || code < 0 {
			if i := strings.Index(s, "fatal error: "); i >= 0 {
				why, _, _ = strings.Cut(s[i:], "\n")
			} else {
				why = cmd.ProcessState.String()
			}
			return -1, why
		}
		os.Stderr.WriteString(s)
		return code, ""
	}
	limit := time.Duration(0)
	if id == "" {
		limit = hangLimit + 30*time.Second
	}
	code, why := run("", limit)
	if code >= 0 {
		return code
	}
	fmt.Printf("the library ended the program: %s\n", why)
	if id == "" {
		return -1
	}
	for i := 0; i < noteSlots; i++ {
		var b [16]byte
		if n, _ := f.ReadAt(b[:], int64(16*i)); n < 16 {
			break
		}
		g, k := int(binary.LittleEndian.Uint64(b[:])), int(binary.LittleEndian.Uint64(b[8:]))
		if g == 0 || k == 0 {
			continue
		}
		f.WriteAt(make([]byte, 8), noteCase)
		code, why := run(fmt.Sprintf("%d:%d", g-1, k-1), 0)
		if code > 0 {
			return code
		}
		if code == 0 || f.Sync() != nil {
			continue
		}
		var l [8]byte
		f.ReadAt(l[:], noteCase)
		j := make([]byte, binary.LittleEndian.Uint64(l[:])&(1<<26-1))
		c := &Case{}
		if n, _ := f.ReadAt(j, noteCase+8); n < len(j) || json.Unmarshal(j, c) != nil {
			continue
		}
		r := New(id)
		gi := r.AddGroup(&Group{Name: fmt.Sprintf("enumeration %d, block %d", g-1, k-1), Bound: "ended by a fatal error"})
		r.AddViolation(gi, 0, c, &Mismatch{What: Crash, Got: why, Want: "a result"})
		r.Finish()
	}
	fmt.Fprintln(os.Stderr, "it does not do so again:", why)
	return 3
}

// resident is the memory the process holds, in bytes, if known.
func resident() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	var size, res int64
	if err != nil {
		return 0
	}
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// Growing reports whether the process holds more than limit bytes, garbage not
// counted.
func Growing(limit int64) bool {
	if resident() < limit {
		return false
	}
	debug.FreeOSMemory()
	return resident() >= limit
}
