package main

// Injected faults and resource watching.

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// withFileLimit runs f while no regular file can grow beyond k bytes: a write
// at that point fails (or is short), like on a full disk.
func withFileLimit(k int, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	check(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(k), Max: old.Max}))
	defer func() {
		check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
	}()
	f()
}

// openFiles lists the open file descriptors of this process.
func openFiles() map[string]string {
	out := map[string]string{}
	d, err := os.Open("/proc/self/fd")
	check(err)
	names, err := d.Readdirnames(-1)
	self := fmt.Sprint(d.Fd())
	d.Close()
	check(err)
	for _, n := range names {
		if n == self {
			continue
		}
		if to, err := os.Readlink("/proc/self/fd/" + n); err == nil {
			out[n] = strings.TrimSuffix(to, " (deleted)")
		}
	}
	return out
}

var warm sync.Once

// warmUp creates what the runtime itself keeps open.
func warmUp() {
	warm.Do(func() {
		r, w, err := os.Pipe()
		check(err)
		_ = r.SetReadDeadline(time.Now())
		_, _ = r.Read(make([]byte, 1))
		r.Close()
		w.Close()
	})
}

func stacks() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	return string(b)
}

// released runs op and reports descriptors and goroutines left behind by it.
// The garbage collector is off so that no finalizer hides a leak.
func released(t *T, what string, op func()) {
	warmUp()
	pct := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(pct)
	g0 := runtime.NumGoroutine()
	fd0 := openFiles()
	op()
	for wait := time.Microsecond * 50; ; wait *= 2 {
		if runtime.NumGoroutine() <= g0 {
			break
		}
		if wait > 3*time.Second {
			t.Errorf("%s: %d goroutines before, %d after\n%s", what, g0, runtime.NumGoroutine(), clip(stacks(), 3000))
			break
		}
		time.Sleep(wait)
	}
	var left []string
	for fd, to := range openFiles() {
		if fd0[fd] != to {
			left = append(left, fd+" -> "+strings.ReplaceAll(to, t.caseDir, "DIR"))
		}
	}
	sort.Strings(left)
	if len(left) > 0 {
		t.Errorf("%s: file descriptors left open: %s", what, strings.Join(left, ", "))
	}
	t.Event("operations watched for goroutines and descriptors")
}

// stray lists the names in a directory other than those expected.
func stray(dir string, expected ...string) []string {
	ents, err := os.ReadDir(dir)
	check(err)
	var out []string
next:
	for _, e := range ents {
		for _, x := range expected {
			if e.Name() == x {
				continue next
			}
		}
		out = append(out, e.Name())
	}
	return out
}

// stickyFile is a file of another user in a sticky directory: it cannot be
// renamed over or removed.
func (t *T) stickyFile(k int) string {
	return filepath.Join(filepath.Dir(t.dir), "sticky", fmt.Sprintf("t%d", k))
}
