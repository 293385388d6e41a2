package main

// The monitoring frame: a property check is a list of case groups, each case
// is a pure function of (seed, property, group, index). Cases run in worker
// processes (unprivileged, one scratch directory each) and report events,
// violations and coverage to the orchestrating process.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
)

// Group is a family of cases of a check.
type Group struct {
	Name     string
	Variants []string              // builds the group runs in; default cgo
	N        func(tier string) int // number of cases (per variant)
	Run      func(t *T, i int)     // one case
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Groups      []Group
	Require     map[string]int64 // minimum events below which a run is inconclusive
	MaxShards   int
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	if _, dup := checks[c.ID]; dup {
		panic("duplicate check " + c.ID)
	}
	checks[c.ID] = c
}

func n(quick, thorough int) func(string) int {
	return func(tier string) int {
		if tier == "thorough" {
			return thorough
		}
		return quick
	}
}

func (g *Group) inVariant(v string) bool {
	if len(g.Variants) == 0 {
		return v == "cgo"
	}
	for _, x := range g.Variants {
		if x == v {
			return true
		}
	}
	return false
}

func (c *Check) variants() []string {
	var out []string
	for _, v := range []string{"cgo", "nocgo", "asan", "race"} {
		for i := range c.Groups {
			if c.Groups[i].inVariant(v) {
				out = append(out, v)
				break
			}
		}
	}
	return out
}

// CaseID identifies one case of a check.
type CaseID struct {
	Property string `json:"property"`
	Variant  string `json:"variant"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Group    int    `json:"group"`
	GroupN   string `json:"group_name"`
	Index    int    `json:"index"`
}

// Violation is a refuted case.
type Violation struct {
	CaseID
	Message string `json:"message"`
	Stderr  string `json:"stderr,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Evaluations int                 `json:"evaluations"`
	PerGroup    map[string]int      `json:"per_group"`
	Sigs        []uint64            `json:"sigs"`
	Events      map[string]int64    `json:"events"`
	Samples     []any               `json:"samples"`
	Violations  []Violation         `json:"violations"`
	Internal    string              `json:"internal,omitempty"`
	Sets        map[string][]string `json:"sets,omitempty"`
}

// T is the context of one running case.
type T struct {
	mu      sync.Mutex
	id      CaseID
	R       *rand.Rand
	Tier    string
	Variant string
	res     *Result
	sigs    map[uint64]bool
	sets    map[string]map[string]bool
	sig     uint64
	hasSig  bool
	trivial bool
	dir     string // scratch directory of the worker
	caseDir string
	env     *workerEnv
	failed  []string
	note    []string
}

type workerEnv struct {
	dir    string
	shard  int
	shards int
	self   string
}

type failNow struct{}

// internalError marks a failure of the harness itself.
type internalError struct{ msg string }

// Errorf records a violation.
func (t *T) Errorf(format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.failed = append(t.failed, fmt.Sprintf(format, args...))
}

// Fatalf records a violation and ends the case.
func (t *T) Fatalf(format string, args ...any) {
	t.Errorf(format, args...)
	panic(failNow{})
}

// Internal reports a problem of the harness itself: the run is inconclusive.
func (t *T) Internal(format string, args ...any) {
	panic(internalError{fmt.Sprintf(format, args...)})
}

func (t *T) must(err error) {
	if err != nil {
		panic(internalError{fmt.Sprintf("%v\n%s", err, debug.Stack())})
	}
}

// Event counts something the monitors observed.
func (t *T) Event(name string, k ...int) {
	c := int64(1)
	if len(k) > 0 {
		c = int64(k[0])
	}
	t.mu.Lock()
	t.res.Events[name] += c
	t.mu.Unlock()
}

// Seen adds a member to a set of distinct things observed.
func (t *T) Seen(set, member string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	m := t.sets[set]
	if m == nil {
		m = map[string]bool{}
		t.sets[set] = m
	}
	if len(m) < 100000 {
		m[member] = true
	}
}

// Sig mixes data identifying the case (its input, history, ...) into the
// signature used to count distinct cases.
func (t *T) Sig(parts ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", t.sig)
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			h.Write(p)
		case string:
			h.Write([]byte(p))
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0xff})
	}
	t.sig = h.Sum64()
	t.hasSig = true
}

// SubSig counts one more distinct sub-case of the present case.
func (t *T) SubSig(parts ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%v", t.sig, parts)
	t.sigs[h.Sum64()] = true
	t.res.Evaluations++
}

// Trivial marks the case as one that exercised nothing of interest.
func (t *T) Trivial() { t.trivial = true }

// Sample offers a written-out case for the evidence.
func (t *T) Sample(v any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	k := 0
	for _, s := range t.res.Samples {
		if s.(map[string]any)["group"] == t.id.GroupN {
			k++
		}
	}
	if k < 2 {
		t.res.Samples = append(t.res.Samples, map[string]any{"group": t.id.GroupN, "index": t.id.Index, "variant": t.Variant, "case": v})
	}
}

// Note remembers context printed with a violation of this case.
func (t *T) Note(format string, args ...any) {
	t.mu.Lock()
	t.note = append(t.note, fmt.Sprintf(format, args...))
	if len(t.note) > 40 {
		t.note = t.note[1:]
	}
	t.mu.Unlock()
}

// Dir returns a fresh scratch directory, removed after the case.
func (t *T) Dir() string {
	d, err := os.MkdirTemp(t.caseDir, "d")
	t.must(err)
	return d
}

func caseSeed(id CaseID) (uint64, uint64) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", id.Property, id.GroupN, id.Index)
	return id.Seed*0x9e3779b97f4a7c15 + 1, h.Sum64()
}

// runCase runs one case, converting panics into violations.
func runCase(c *Check, g *Group, id CaseID, res *Result, sigs map[uint64]bool, sets map[string]map[string]bool, env *workerEnv) (internal string) {
	a, b := caseSeed(id)
	t := &T{
		id: id, R: rand.New(rand.NewPCG(a, b)), Tier: id.Tier, Variant: id.Variant,
		res: res, sigs: sigs, sets: sets, dir: env.dir, env: env,
	}
	t.caseDir = filepath.Join(env.dir, "case")
	if err := os.Mkdir(t.caseDir, 0o755); err != nil {
		return err.Error()
	}
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil, failNow:
			case internalError:
				internal = fmt.Sprintf("%s/%s/%d: %s", id.Property, id.GroupN, id.Index, r.msg)
			default:
				t.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		g.Run(t, id.Index)
	}()
	if err := removeAll(t.caseDir); err != nil && internal == "" {
		internal = "cleanup: " + err.Error()
	}
	res.Evaluations++
	res.PerGroup[id.GroupN]++
	if !t.trivial {
		if !t.hasSig {
			t.Sig(id.GroupN, id.Index)
		}
		sigs[t.sig] = true
	}
	if len(t.failed) > 0 {
		msg := strings.Join(t.failed[:min(len(t.failed), 4)], "\n")
		if len(t.note) > 0 {
			msg += "\n-- notes --\n" + strings.Join(t.note, "\n")
		}
		if len(msg) > 8000 {
			msg = msg[:8000] + "..."
		}
		res.Violations = append(res.Violations, Violation{CaseID: id, Message: msg})
	}
	return internal
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// removeAll removes a tree although the code under test may have made
// directories in it inaccessible.
func removeAll(dir string) error {
	if err := os.RemoveAll(dir); err == nil {
		return nil
	}
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			_ = os.Chmod(p, 0o700)
		}
		return nil
	})
	return os.RemoveAll(dir)
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
