package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const nobody = 65534

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: rtmon check|variants|worker|list|sub ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "variants":
		c := checks[os.Args[2]]
		if c == nil {
			os.Exit(2)
		}
		fmt.Println(strings.Join(c.variants(), " "))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		os.Exit(mainCheck(os.Args[2:]))
	case "worker":
		mainWorker(os.Args[2:])
	case "sub":
		mainSub(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// mainSub runs a helper mode in a subprocess of a worker.
var subModes = map[string]func(args []string){}

func mainSub(args []string) {
	f := subModes[args[0]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown sub mode")
		os.Exit(97)
	}
	f(args[1:])
}

// ---------------------------------------------------------------- worker

func mainWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	variant := fs.String("variant", "cgo", "")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	dir := fs.String("dir", "", "")
	only := fs.String("only", "", "group:index")
	_ = fs.Parse(args)
	c := checks[*prop]
	if c == nil || *dir == "" {
		os.Exit(97)
	}
	syscall.Umask(0o022)
	if *variant == "cgo" || *variant == "nocgo" {
		// a runaway allocation ends this worker, not the whole run
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
		debug.SetMemoryLimit(1 << 30)
	}
	work := filepath.Join(*dir, "w")
	if err := os.Mkdir(work, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(97)
	}
	if err := os.Chdir(work); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(97)
	}
	journal, err := os.OpenFile(filepath.Join(*dir, "journal"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(97)
	}
	self, _ := os.Executable()
	env := &workerEnv{dir: work, shard: *shard, shards: *of, self: self}
	res := &Result{PerGroup: map[string]int{}, Events: map[string]int64{}}
	sigs := map[uint64]bool{}
	sets := map[string]map[string]bool{}
	finish := func() {
		for s := range sigs {
			res.Sigs = append(res.Sigs, s)
		}
		res.Sets = map[string][]string{}
		for name, m := range sets {
			for k := range m {
				res.Sets[name] = append(res.Sets[name], k)
			}
		}
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(filepath.Join(*dir, "result.tmp"), b, 0o644)
		}
		if err == nil {
			err = os.Rename(filepath.Join(*dir, "result.tmp"), filepath.Join(*dir, "result"))
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(97)
		}
	}
	global := 0
	var rec [16]byte
	for gi := range c.Groups {
		g := &c.Groups[gi]
		if !g.inVariant(*variant) {
			continue
		}
		if only := os.Getenv("RTMON_GROUP"); only != "" && only != g.Name { // development only
			continue
		}
		count := g.N(*tier)
		for i := 0; i < count; i++ {
			mine := global%*of == *shard
			global++
			if *only != "" {
				mine = *only == fmt.Sprintf("%d:%d", gi, i)
			}
			if !mine {
				continue
			}
			binary.LittleEndian.PutUint64(rec[:], uint64(gi)+1)
			binary.LittleEndian.PutUint64(rec[8:], uint64(i))
			if _, err := journal.WriteAt(rec[:], 0); err != nil {
				os.Exit(97)
			}
			id := CaseID{Property: c.ID, Variant: *variant, Seed: *seed, Tier: *tier, Group: gi, GroupN: g.Name, Index: i}
			if msg := runCase(c, g, id, res, sigs, sets, env); msg != "" {
				res.Internal = msg
				finish()
				os.Exit(0)
			}
			if len(res.Violations) >= 3 {
				finish()
				os.Exit(0)
			}
		}
	}
	finish()
	os.Exit(0)
}

// ---------------------------------------------------------------- orchestrator

type run struct {
	check    *Check
	tier     string
	seed     uint64
	out      string
	scratch  string
	bins     map[string]string
	deadline time.Time

	mu         sync.Mutex
	res        Result
	sigs       map[uint64]bool
	sets       map[string]map[string]bool
	violations []Violation
	incon      []string
}

func mainCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	binsArg := fs.String("bins", "", "variant=path,...")
	out := fs.String("out", "/verif", "")
	scratch := fs.String("scratch", "", "")
	replay := fs.String("replay", "", "")
	only := fs.String("only", "", "")
	shards := fs.Int("shards", 0, "")
	_ = fs.Parse(args)
	c := checks[*prop]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", *prop)
		return 2
	}
	r := &run{check: c, tier: "quick", seed: 1, out: *out, scratch: *scratch, bins: map[string]string{}}
	if os.Getenv("VERIF_TIER") == "thorough" {
		r.tier = "thorough"
	}
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.seed = s
	}
	for _, kv := range strings.Split(*binsArg, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			r.bins[k] = v
		}
	}
	limit := 840 * time.Second
	if r.tier == "thorough" {
		limit = 6 * time.Hour
	}
	start := time.Now()
	r.deadline = start.Add(limit)
	r.res = Result{PerGroup: map[string]int{}, Events: map[string]int64{}}
	r.sigs = map[uint64]bool{}
	r.sets = map[string]map[string]bool{}

	variants := c.variants()
	onlyCase := *only
	if *replay != "" {
		var v Violation
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r.seed, r.tier = v.Seed, v.Tier
		variants = []string{v.Variant}
		onlyCase = fmt.Sprintf("%d:%d", v.Group, v.Index)
	}
	for _, v := range variants {
		if r.bins[v] == "" {
			fmt.Fprintln(os.Stderr, "no build for variant", v)
			return 2
		}
		k := *shards
		if k == 0 {
			k = min(runtime.NumCPU(), 8)
		}
		if c.MaxShards > 0 {
			k = min(k, c.MaxShards)
		}
		if onlyCase != "" {
			k = 1
		}
		var wg sync.WaitGroup
		for s := 0; s < k; s++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.worker(v, s, k, onlyCase)
			}()
		}
		wg.Wait()
	}
	wall := time.Since(start).Seconds()
	r.res.Evaluations += 0
	full := onlyCase == "" && os.Getenv("RTMON_GROUP") == ""
	if full {
		if err := r.evidence(wall); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	known := r.known()
	reported := 0
	for _, v := range r.violations {
		if line, ok := known[v.key()]; ok {
			fmt.Println("KNOWN-FINDING:", line)
			continue
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%+v", v.CaseID)
		path := *replay
		if path == "" {
			path = filepath.Join(r.out, "replays", fmt.Sprintf("%s-%016x.json", c.ID, h.Sum64()))
			_ = os.MkdirAll(filepath.Dir(path), 0o755)
			if err := writeJSON(path, v); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
		}
		if reported < 5 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			fmt.Printf("  %s case %s/%d: %s\n", v.Variant, v.GroupN, v.Index, strings.ReplaceAll(clip(v.Message, 1500), "\n", "\n  "))
			if v.Stderr != "" {
				fmt.Printf("  stderr: %s\n", strings.ReplaceAll(clip(v.Stderr, 3000), "\n", "\n  "))
			}
		}
		reported++
	}
	if reported > 0 {
		return 1
	}
	if len(r.incon) > 0 {
		for _, m := range r.incon {
			fmt.Println("INCONCLUSIVE:", m)
		}
		return 2
	}
	if full {
		for ev, k := range c.Require {
			if r.res.Events[ev] < k {
				fmt.Printf("INCONCLUSIVE: only %d %q observed, %d required\n", r.res.Events[ev], ev, k)
				return 2
			}
		}
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", c.ID, r.res.Evaluations, len(r.sigs), wall)
	return 0
}

func clip(s string, k int) string {
	if len(s) > k {
		return s[:k] + "..."
	}
	return s
}

func (v *Violation) key() string {
	return fmt.Sprintf("%s %s/%s/%d", v.Property, v.Variant, v.GroupN, v.Index)
}

// known reads the committed list of recorded, unrepaired findings. Each is
// keyed by the failing case; "fixed:" lines suppress nothing.
func (r *run) known() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(r.out, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(b), "\n") {
		// known: property=<id> case=<variant>/<group>/<index> <what fails>
		rest, ok := strings.CutPrefix(line, "known: property=")
		if !ok {
			continue
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "case=") {
			out[f[0]+" "+f[1][5:]] = "property=" + f[0] + " " + f[2]
		}
	}
	return out
}

func (r *run) addViolation(v Violation) {
	r.mu.Lock()
	r.violations = append(r.violations, v)
	r.mu.Unlock()
}

func (r *run) inconclusive(format string, args ...any) {
	r.mu.Lock()
	r.incon = append(r.incon, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

type procStat struct {
	cpu   time.Duration
	state byte // R if any thread runs or waits for disk
}

func readProc(pid int) (procStat, bool) {
	var ps procStat
	tasks, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil {
		return ps, false
	}
	ps.state = 'S'
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return ps, false
	}
	if i := bytes.LastIndexByte(b, ')'); i >= 0 {
		f := strings.Fields(string(b[i+1:]))
		if len(f) > 14 {
			u, _ := strconv.ParseInt(f[11], 10, 64)
			s, _ := strconv.ParseInt(f[12], 10, 64)
			ps.cpu = time.Duration(u+s) * 10 * time.Millisecond
		}
	}
	for _, t := range tasks {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, t.Name()))
		if err != nil {
			continue
		}
		if i := bytes.LastIndexByte(b, ')'); i >= 0 && i+2 < len(b) {
			if st := b[i+2]; st == 'R' || st == 'D' {
				ps.state = st
			}
		}
	}
	return ps, true
}

// worker runs a shard. One that runs out of memory is run once more: in time the
// collector may fall behind what other processes leave it to do.
func (r *run) worker(variant string, shard, of int, only string) {
	if r.workerOnce(variant, shard, of, only, false) {
		r.mu.Lock()
		r.res.Events["workers run again after running out of memory"]++
		r.mu.Unlock()
		r.workerOnce(variant, shard, of, only, true)
	}
}

func (r *run) workerOnce(variant string, shard, of int, only string, again bool) (outOfMemory bool) {
	dir := filepath.Join(r.scratch, fmt.Sprintf("%s-%d", variant, shard))
	if again {
		dir += "-again"
	}
	if err := os.Mkdir(dir, 0o755); err != nil {
		r.inconclusive("%v", err)
		return false
	}
	cred := &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: false, Groups: []uint32{}}
	if os.Getuid() != 0 {
		cred = nil
	} else {
		// files of another user in a sticky directory, for failing renames
		if err := makeSticky(filepath.Join(dir, "sticky")); err != nil {
			r.inconclusive("%v", err)
			return false
		}
		if err := os.Chown(dir, nobody, nobody); err != nil {
			r.inconclusive("%v", err)
			return false
		}
	}
	args := []string{"worker", "-prop", r.check.ID, "-variant", variant,
		"-shard", strconv.Itoa(shard), "-of", strconv.Itoa(of), "-seed", strconv.FormatUint(r.seed, 10),
		"-tier", r.tier, "-dir", dir}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(r.bins[variant], args...)
	cmd.Dir = dir
	tmp := filepath.Join(dir, "tmp")
	_ = os.Mkdir(tmp, 0o777)
	_ = os.Chmod(tmp, 0o777)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + tmp, "RTMON_GROUP=" + os.Getenv("RTMON_GROUP"), "RTMON_DIR=" + dir, "TMPDIR=" + tmp, "LC_ALL=C",
		"GOTRACEBACK=all",
		"GORACE=halt_on_error=0 exitcode=0 log_path=" + filepath.Join(dir, "race"),
		"ASAN_OPTIONS=detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=98:allocator_may_return_null=1",
	}
	if os.Getuid() == 0 {
		_ = os.Chown(tmp, nobody, nobody)
	}
	stderrPath := filepath.Join(r.scratch, fmt.Sprintf("stderr-%s-%d", variant, shard))
	ef, err := os.Create(stderrPath)
	if err != nil {
		r.inconclusive("%v", err)
		return false
	}
	defer ef.Close()
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: cred, Pdeathsig: 0}
	if err := cmd.Start(); err != nil {
		r.inconclusive("cannot start worker: %v", err)
		return false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var hang string
	var last [16]byte
	var base procStat
	var quiet int
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	var waitErr error
loop:
	for {
		select {
		case waitErr = <-done:
			break loop
		case <-tick.C:
		}
		cur := readJournal(dir)
		ps, ok := readProc(cmd.Process.Pid)
		if !ok {
			continue
		}
		if cur != last {
			last, base, quiet = cur, ps, 0
			continue
		}
		if ps.state == 'S' && ps.cpu-base.cpu < 50*time.Millisecond && !hasChildren(cmd.Process.Pid) {
			quiet++
		} else {
			quiet = 0
		}
		cpuLimit := 150 * time.Second
		switch {
		case ps.cpu-base.cpu > cpuLimit*time.Duration(1+3*b2i(r.tier == "thorough")):
			hang = "did not terminate (CPU limit for one case exceeded)"
		case quiet > 100:
			hang = "did not terminate (blocked: no thread ran)"
		case time.Now().After(r.deadline):
			hang = "deadline"
		default:
			// base tracks blocked time only while idle
			if ps.state == 'S' && quiet == 0 {
				continue
			}
			continue
		}
		_ = syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case waitErr = <-done:
		case <-time.After(10 * time.Second):
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			waitErr = <-done
		}
		break loop
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if hang == "deadline" {
		r.inconclusive("worker %s/%d ran out of time", variant, shard)
		return false
	}
	stderr := readTail(stderrPath, 6000)
	cur := readJournal(dir)
	id := CaseID{Property: r.check.ID, Variant: variant, Seed: r.seed, Tier: r.tier,
		Group: int(binary.LittleEndian.Uint64(cur[:])) - 1, Index: int(binary.LittleEndian.Uint64(cur[8:]))}
	if id.Group >= 0 && id.Group < len(r.check.Groups) {
		id.GroupN = r.check.Groups[id.Group].Name
	}
	if hang != "" {
		r.addViolation(Violation{CaseID: id, Message: hang, Stderr: stderr})
		return false
	}
	b, err := os.ReadFile(filepath.Join(dir, "result"))
	if err != nil {
		if ee, ok := waitErr.(*exec.ExitError); ok && ee.ExitCode() == 97 {
			r.inconclusive("worker %s/%d: %s", variant, shard, stderr)
			return false
		}
		if id.Group < 0 {
			r.inconclusive("worker %s/%d did not start: %v %s", variant, shard, waitErr, stderr)
			return false
		}
		if head := crashHead(stderrPath); !again && (strings.Contains(head, "out of memory") || fmt.Sprint(waitErr) == "signal: killed") {
			return true
		}
		r.addViolation(Violation{CaseID: id, Message: fmt.Sprintf("process crashed: %v", waitErr), Stderr: crashHead(stderrPath)})
		return false
	}
	var res Result
	if err := json.Unmarshal(b, &res); err != nil {
		r.inconclusive("worker result: %v", err)
		return false
	}
	r.mu.Lock()
	r.res.Evaluations += res.Evaluations
	for k, v := range res.PerGroup {
		r.res.PerGroup[variant+"/"+k] += v
	}
	for k, v := range res.Events {
		r.res.Events[k] += v
	}
	for _, s := range res.Sigs {
		r.sigs[s] = true
	}
	for name, l := range res.Sets {
		m := r.sets[name]
		if m == nil {
			m = map[string]bool{}
			r.sets[name] = m
		}
		for _, k := range l {
			m[k] = true
		}
	}
	r.res.Samples = append(r.res.Samples, res.Samples...)
	r.violations = append(r.violations, res.Violations...)
	r.mu.Unlock()
	if res.Internal != "" {
		r.inconclusive("%s", res.Internal)
	}
	if races, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(races) > 0 {
		text, _ := os.ReadFile(races[0])
		if bytes.Contains(text, []byte("DATA RACE")) {
			r.addViolation(Violation{CaseID: id, Message: "data race (the case named is the last one run by the worker)", Stderr: clip(string(text), 6000)})
		}
	}
	return false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func hasChildren(pid int) bool {
	tasks, _ := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	for _, t := range tasks {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/children", pid, t.Name()))
		if len(bytes.TrimSpace(b)) > 0 {
			return true
		}
	}
	return false
}

func readJournal(dir string) (rec [16]byte) {
	b, err := os.ReadFile(filepath.Join(dir, "journal"))
	if err == nil && len(b) == 16 {
		copy(rec[:], b)
	}
	return
}

func readTail(path string, k int) string {
	b, _ := os.ReadFile(path)
	if len(b) > k {
		b = b[len(b)-k:]
	}
	return string(b)
}

func crashHead(path string) string {
	b, _ := os.ReadFile(path)
	return clip(string(b), 6000)
}

func makeSticky(dir string) error {
	if err := os.Mkdir(dir, 0o755); err != nil {
		return err
	}
	for i := 0; i < 8; i++ {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("t%d", i)), []byte("owned by somebody else"), 0o644); err != nil {
			return err
		}
	}
	return os.Chmod(dir, 0o777|os.ModeSticky)
}

func (r *run) evidence(wall float64) error {
	cov := map[string]any{
		"evaluations":         r.res.Evaluations,
		"distinct_nontrivial": len(r.sigs),
		"rule":                r.check.Rule,
		"cases_per_group":     r.res.PerGroup,
		"events_observed":     r.res.Events,
	}
	sets := map[string]any{}
	for name, m := range r.sets {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		e := map[string]any{"distinct": len(l)}
		if len(l) <= 40 {
			e["members"] = l
		} else {
			e["some"] = l[:10]
		}
		sets[name] = e
	}
	cov["distinct_observed"] = sets
	sort.SliceStable(r.res.Samples, func(i, j int) bool {
		return fmt.Sprint(r.res.Samples[i]) < fmt.Sprint(r.res.Samples[j])
	})
	var samples []any
	perGroup := map[string]int{}
	for _, s := range r.res.Samples {
		g := fmt.Sprint(s.(map[string]any)["group"])
		if perGroup[g] < 2 && len(samples) < 24 {
			perGroup[g]++
			samples = append(samples, s)
		}
	}
	cov["samples"] = samples
	ev := map[string]any{
		"property": r.check.ID,
		"tier":     r.tier,
		"seed":     r.seed,
		"level":    r.check.Level,
		"coverage": cov,
		"assumptions": append([]string{
			"the Go toolchain, its standard library and the sanitizer runtimes behave as documented",
		}, r.check.Assumptions...),
		"wall_s":     wall,
		"violations": len(r.violations),
	}
	dir := filepath.Join(r.out, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return writeJSON(filepath.Join(dir, r.check.ID+".json"), ev)
}
