// vsim runs the deterministic simulation checks.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	_ "unsafe"

	"verifsim/kernel"
	"verifsim/props"
)

//go:linkname iterSeed internal/runtime/maps.VerifIterSeed
var iterSeed uint64

func init() { props.IterSeed = func(s uint64) { iterSeed = s } }

const (
	hangCPU  = 30 * time.Second // CPU time of one run; ordinary runs take milliseconds
	memLimit = 3 << 30
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Run      uint64   `json:"run"`
	RunSeed  uint64   `json:"run_seed"`
	Class    string   `json:"class"`
	Msg      string   `json:"msg"`
	Hash     string   `json:"trace_hash"`
	End      string   `json:"end"`
	OrigLen  int      `json:"choices_before_minimising"`
	Tape     []uint32 `json:"tape"`
	FromSeed bool     `json:"from_seed,omitempty"` // replay draws from run_seed instead of the tape
	// Before lists runs executed first in the same process: the violation needs
	// state that the code under test keeps between connections of a process.
	Before   []uint64 `json:"runs_before,omitempty"`
	Unstable bool     `json:"unstable,omitempty"` // the code under test is not deterministic; replay repeats
	Trace    []string `json:"trace"`
}

// Result is what a worker writes.
type Result struct {
	Runs     uint64
	Nontriv  uint64
	Steps    int64
	Switches int64
	SimNs    int64
	Count    map[string]int64
	Ends     map[string]int64
	Samples  []string
	Known    map[string]int64
	ViolRun  int64 // -1 none
	Class    string
	Msg      string
	Herr     string
	HerrRun  int64
	TimedOut bool
	Death    string // hang or memory
	DeathRun int64
	CPUNs    int64
	MaxSteps int64
	MaxTape  int64
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|worker|replay|one|selftest|list ...")
		os.Exit(2)
	}
	// collections happen between runs (see tidy), so that pools and finalizers
	// behave alike whenever a run is repeated
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "list":
		for _, id := range props.IDs() {
			fmt.Println(id)
		}
	case "worker":
		worker(args)
	case "check":
		os.Exit(check(args))
	case "replay":
		os.Exit(replay(args))
	case "one":
		os.Exit(one(args))
	case "selftest":
		os.Exit(selftest(args))
	case "minimise":
		os.Exit(minimiseCmd(args))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	os.Exit(2)
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// tidy collects garbage between runs.
func tidy() {
	if heapNow() > 96<<20 {
		runtime.GC()
	}
}

func heapNow() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// watch ends the process when one run burns too much CPU or memory.
func watch(runStart *atomic.Int64, onDeath func(kind string)) {
	go func() {
		var seen int64 = -1
		var base time.Duration
		ticks := 0
		for {
			time.Sleep(200 * time.Millisecond)
			r := runStart.Load()
			c := cpuNow()
			if r != seen {
				seen, base, ticks = r, c, 0
			} else if c-base > hangCPU {
				onDeath("hang")
			} else if ticks++; ticks > 300 && c-base < 2*time.Second {
				// a minute without using the processor: blocked on a real
				// synchronisation primitive, which no simulated task can release
				onDeath("blocked")
			}
			if heapNow() > memLimit {
				onDeath("memory")
			}
		}
	}()
}

func knownKeys(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return m
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	wi := fs.Uint64("w", 0, "")
	wn := fs.Uint64("n", 1, "")
	runs := fs.Uint64("runs", 1000, "")
	out := fs.String("out", "", "")
	stop := fs.String("stop", "", "")
	cap := fs.Duration("cap", time.Minute, "")
	known := fs.String("known", "", "")
	hashlog := fs.String("hashlog", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	p := props.All[*id]
	if p == nil {
		fatal("no property %q", *id)
	}
	kk := knownKeys(*known, *id)
	res := &Result{Count: map[string]int64{}, Ends: map[string]int64{}, Known: map[string]int64{}, ViolRun: -1, HerrRun: -1, DeathRun: -1}
	hf, err := os.Create(*out + ".hash")
	if err != nil {
		fatal("%v", err)
	}
	hw := bufio.NewWriter(hf)
	var hl *bufio.Writer
	if *hashlog != "" {
		f, err := os.Create(*hashlog)
		if err != nil {
			fatal("%v", err)
		}
		hl = bufio.NewWriter(f)
		defer f.Close()
		defer hl.Flush()
	}
	beat, err := os.Create(*out + ".beat")
	if err != nil {
		fatal("%v", err)
	}
	save := func() {
		res.CPUNs = int64(cpuNow())
		hw.Flush()
		b, _ := json.Marshal(res)
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	var cur atomic.Int64
	cur.Store(-1)
	var saving atomic.Bool
	watch(&cur, func(kind string) {
		if saving.Swap(true) {
			return
		}
		os.WriteFile(*out+".death", []byte(fmt.Sprintf("%s %d", kind, cur.Load())), 0o644)
		os.Exit(3)
	})
	start := time.Now()
	seen := map[uint64]bool{}
	for i := *wi; i < *runs; i += *wn {
		if res.Runs%32 == 0 {
			if time.Since(start) > *cap {
				res.TimedOut = true
				break
			}
			if *stop != "" {
				if b, err := os.ReadFile(*stop); err == nil {
					if n, err := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64); err == nil && i > n {
						break
					}
				}
			}
		}
		cur.Store(int64(i))
		beat.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		tidy()
		o := props.RunOnce(p, kernel.NewTape(kernel.RunSeed(*seed, *id, i)), false)
		res.Runs++
		res.Steps += int64(o.Steps)
		res.MaxSteps = max(res.MaxSteps, int64(o.Steps))
		res.MaxTape = max(res.MaxTape, int64(len(o.Tape)))
		res.Switches += int64(o.Switches)
		res.SimNs += int64(o.SimTime)
		res.Ends[o.End]++
		for k, v := range o.Count {
			res.Count[k] += v
		}
		if o.Nontrivial {
			res.Nontriv++
			if !seen[o.Hash] {
				seen[o.Hash] = true
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], o.Hash)
				hw.Write(b[:])
			}
		}
		if hl != nil {
			fmt.Fprintf(hl, "%d %016x %d %d %s\n", i, o.Hash, o.Steps, len(o.Tape), o.End)
		}
		if len(res.Samples) < 2 && o.Nontrivial && o.Sample != "" {
			res.Samples = append(res.Samples, fmt.Sprintf("run %d: %s -> %s, %d steps, %v simulated", i, o.Sample, o.End, o.Steps, o.SimTime))
		}
		if o.Herr != nil {
			res.Herr, res.HerrRun = o.Herr.Msg, int64(i)
			break
		}
		if o.Viol != nil {
			if _, ok := kk[o.Viol.Class]; ok {
				res.Known[o.Viol.Class]++
				continue
			}
			res.ViolRun, res.Class, res.Msg = int64(i), o.Viol.Class, o.Viol.Msg
			break
		}
	}
	cur.Store(-2)
	saving.Store(true)
	save()
	beat.Close()
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	root := fs.String("root", "/verif", "")
	wn := fs.Int("n", 8, "")
	nruns := fs.Uint64("runs", 0, "")
	fs.Parse(args)
	t0 := time.Now()
	p := props.All[*id]
	if p == nil {
		fatal("no property %q", *id)
	}
	seed, err := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 63)
	if err != nil {
		fatal("VERIF_SEED: %v", err)
	}
	tier := envOr("VERIF_TIER", "quick")
	runs, cap := uint64(p.Quick), 120*time.Second
	if tier == "thorough" {
		runs, cap = uint64(p.Thorough), 13*time.Minute
	} else {
		tier = "quick"
	}
	if *nruns != 0 {
		runs = *nruns
	}
	fmt.Printf("vsim: property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d\n", *id, tier, seed, runs, *wn)
	tmp, err := os.MkdirTemp("", "vsim-"+*id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	known := filepath.Join(*root, "known_findings.txt")
	stop := filepath.Join(tmp, "stop")
	results := make([]*Result, *wn)
	errs := make([]string, *wn)
	var mu sync.Mutex
	best := int64(-1)
	noteStop := func(i int64) {
		mu.Lock()
		defer mu.Unlock()
		if i >= 0 && (best < 0 || i < best) {
			best = i
			os.WriteFile(stop+".new", []byte(strconv.FormatInt(i, 10)), 0o644)
			os.Rename(stop+".new", stop)
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < *wn; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("w%d", i))
			c := exec.Command(self, "worker", "-prop", *id, "-seed", fmt.Sprint(seed), "-w", fmt.Sprint(i), "-n", fmt.Sprint(*wn),
				"-runs", fmt.Sprint(runs), "-out", out, "-stop", stop, "-cap", cap.String(), "-known", known)
			c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all")
			var sb strings.Builder
			c.Stderr = &limited{sb: &sb}
			c.Stdout = c.Stderr
			rerr := c.Run()
			if b, err := os.ReadFile(out + ".death"); err == nil {
				var kind string
				var at int64
				fmt.Sscanf(string(b), "%s %d", &kind, &at)
				results[i] = &Result{ViolRun: -1, HerrRun: -1, Death: kind, DeathRun: at}
				noteStop(at)
				return
			}
			b, err := os.ReadFile(out)
			if rerr != nil || err != nil {
				at := int64(-1)
				if bb, err := os.ReadFile(out + ".beat"); err == nil {
					fmt.Sscanf(string(bb), "%d", &at)
				}
				errs[i] = fmt.Sprintf("worker %d died at run %d: %v\n%s", i, at, rerr, sb.String())
				if strings.Contains(sb.String(), "go-dc") && (strings.Contains(sb.String(), "fatal error:") || strings.Contains(sb.String(), "stack overflow")) {
					results[i] = &Result{ViolRun: -1, HerrRun: -1, Death: "crash", DeathRun: at}
					noteStop(at)
				}
				return
			}
			r := &Result{}
			if err := json.Unmarshal(b, r); err != nil {
				errs[i] = err.Error()
				return
			}
			results[i] = r
			noteStop(r.ViolRun)
			noteStop(r.HerrRun)
		}(i)
	}
	wg.Wait()
	search := time.Since(t0)
	tot := &Result{Count: map[string]int64{}, Ends: map[string]int64{}, Known: map[string]int64{}, ViolRun: -1}
	distinct := map[uint64]bool{}
	dead := false
	var deathRun int64 = -1
	var deathKind string
	herr := ""
	for i, r := range results {
		if r == nil {
			fmt.Fprintln(os.Stderr, errs[i])
			dead = true
			continue
		}
		if r.Death != "" {
			if deathRun < 0 || r.DeathRun < deathRun {
				deathRun, deathKind = r.DeathRun, r.Death
			}
			if errs[i] != "" {
				fmt.Fprintln(os.Stderr, errs[i])
			}
			continue
		}
		tot.Runs += r.Runs
		tot.Nontriv += r.Nontriv
		tot.Steps += r.Steps
		tot.MaxSteps, tot.MaxTape = max(tot.MaxSteps, r.MaxSteps), max(tot.MaxTape, r.MaxTape)
		tot.Switches += r.Switches
		tot.SimNs += r.SimNs
		tot.CPUNs += r.CPUNs
		tot.TimedOut = tot.TimedOut || r.TimedOut
		for k, v := range r.Count {
			tot.Count[k] += v
		}
		for k, v := range r.Ends {
			tot.Ends[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		tot.Samples = append(tot.Samples, r.Samples...)
		if r.Herr != "" {
			herr = fmt.Sprintf("run %d: %s", r.HerrRun, r.Herr)
		}
		if r.ViolRun >= 0 && (tot.ViolRun < 0 || r.ViolRun < tot.ViolRun) {
			tot.ViolRun, tot.Class, tot.Msg = r.ViolRun, r.Class, r.Msg
		}
		if b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("w%d.hash", i))); err == nil {
			for j := 0; j+8 <= len(b); j += 8 {
				distinct[binary.LittleEndian.Uint64(b[j:])] = true
			}
		}
	}
	if dead {
		fmt.Fprintln(os.Stderr, "vsim: a worker failed; no verdict")
		return 2
	}
	if herr != "" && tot.ViolRun < 0 && deathRun < 0 {
		fmt.Fprintln(os.Stderr, "vsim: harness error; no verdict:", herr)
		return 2
	}
	rdir := filepath.Join(*root, "replays")
	os.MkdirAll(rdir, 0o755)
	rpath := filepath.Join(rdir, fmt.Sprintf("%s-seed%d.json", *id, seed))
	violations := 0
	status := 0
	var rep *Replay
	if tot.ViolRun >= 0 && (deathRun < 0 || tot.ViolRun < deathRun) {
		rep = reproduce(self, tmp, rpath, *id, seed, uint64(tot.ViolRun), uint64(*wn), tot.Class, tot.Msg)
		if rep == nil {
			fmt.Fprintf(os.Stderr, "vsim: run %d failed in its worker (%s: %s) but never when repeated; no verdict\n", tot.ViolRun, tot.Class, tot.Msg)
			return 2
		}
		violations = 1
	} else if deathRun >= 0 {
		rep = &Replay{Property: *id, Seed: seed, Run: uint64(deathRun), RunSeed: kernel.RunSeed(seed, *id, uint64(deathRun)), Class: deathKind,
			Msg: fmt.Sprintf("one run used more than %v of CPU time or %d MB of memory, blocked for a minute without using the processor, or ended the process; ordinary runs take milliseconds", hangCPU, memLimit>>20), FromSeed: true}
		writeJSON(rpath, rep)
		for k := 0; k < 2; k++ {
			c := exec.Command(self, "replay", "-quiet", rpath)
			c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all")
			ob, err := c.CombinedOutput()
			ee, ok := err.(*exec.ExitError)
			code := -1
			if ok {
				code = ee.ExitCode()
			}
			if code == 3 && deathKind != "crash" || deathKind == "crash" && code == 2 && strings.Contains(string(ob), "go-dc") && strings.Contains(string(ob), "fatal error:") {
				continue
			}
			fmt.Fprintf(os.Stderr, "vsim: a worker died (%s at run %d) but the run does not do so when repeated (%v); no verdict\n", deathKind, deathRun, err)
			return 2
		}
		violations = 1
	}
	// evidence
	faults, probes, ops := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range tot.Count {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe."):
			probes[k[6:]] = v
		default:
			ops[k] = v
		}
	}
	samples := []any{}
	sort.Strings(tot.Samples)
	for i, s := range tot.Samples {
		if i < 6 {
			samples = append(samples, s)
		}
	}
	ev := map[string]any{
		"property": *id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":             tot.Runs,
			"distinct_nontrivial":     len(distinct),
			"rule":                    p.Rule + " One evaluation is one simulated run, fixed by (VERIF_SEED, property, run index). A run is non-trivial when it performed operations on the code under test and at least one fault fired, a read came back short, or the scheduler switched tasks more than twice; runs are distinct when the hash over the full event history (every transport call with its bytes, every schedule step, simulated times) differs.",
			"samples":                 samples,
			"runs_and_seeds_per_hour": int64(float64(tot.Runs) / search.Hours()),
			"simulated_seconds":       float64(tot.SimNs) / 1e9,
			"scheduler_steps":         tot.Steps,
			"longest_run":             fmt.Sprintf("%d steps of at most %d, %d choices of at most %d", tot.MaxSteps, p.MaxSteps, tot.MaxTape, kernel.MaxTape),
			"task_switches":           tot.Switches,
			"faults_injected":         faults,
			"probes_reached":          probes,
			"operations":              ops,
			"run_ends":                tot.Ends,
			"nontrivial_runs":         tot.Nontriv,
			"runs_planned":            runs,
			"time_cap_hit":            tot.TimedOut,
			"cpu_s":                   float64(tot.CPUNs) / 1e9,
			"real_code":               p.Real,
			"stubs":                   p.Stub,
		},
		"assumptions": []string{
			"exploration by seeded sampling: a clean batch is evidence, not proof",
			"the simulated transport honours the io.Reader, io.Writer and net.Conn contracts",
			"compress/zlib, x/text and the standard library behave as documented",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": violations,
	}
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	writeJSON(filepath.Join(*root, "evidence", *id+".json"), ev)
	kk := knownKeys(known, *id)
	keys := make([]string, 0, len(kk))
	for k := range kk {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s (seen %d times in this run)\n", *id, k, kk[k], tot.Known[k])
	}
	if rep != nil {
		fmt.Printf("vsim: run %d seed %d class %s: %s\n", rep.Run, rep.Seed, rep.Class, rep.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, rpath)
		status = 1
	} else {
		fmt.Printf("vsim: property %s held on %d runs (%d distinct non-trivial), %.1f s simulated, wall %.1f s\n", *id, tot.Runs, len(distinct), float64(tot.SimNs)/1e9, time.Since(t0).Seconds())
	}
	return status
}

type limited struct {
	sb *strings.Builder
	n  int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.sb.Len() < 64<<10 {
		l.sb.Write(p)
	}
	return len(p), nil
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

// reproduce turns a violation seen by a worker into a replay file that fails
// the same way in a fresh process: minimised if possible, else the run as drawn
// from its seed, else preceded by as many runs of the worker as it takes.
func reproduce(self, tmp, rpath, id string, seed, run, wn uint64, class, msg string) *Replay {
	sub := func(limit time.Duration, args ...string) int {
		c := exec.Command(self, args...)
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all")
		var sb strings.Builder
		c.Stderr = &limited{sb: &sb}
		if args[0] == "minimise" {
			c.Stdout = os.Stdout
		}
		if err := c.Start(); err != nil {
			return -1
		}
		tm := time.AfterFunc(limit, func() { c.Process.Kill() })
		err := c.Wait()
		tm.Stop()
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode()
		}
		return 0
	}
	load := func() *Replay {
		b, err := os.ReadFile(rpath)
		if err != nil {
			return nil
		}
		r := &Replay{}
		if json.Unmarshal(b, r) != nil {
			return nil
		}
		return r
	}
	os.Remove(rpath)
	if sub(90*time.Second, "minimise", "-prop", id, "-seed", fmt.Sprint(seed), "-run", fmt.Sprint(run), "-out", rpath) == 0 &&
		sub(60*time.Second, "replay", "-quiet", rpath) == 1 {
		return load()
	}
	base := Replay{Property: id, Seed: seed, Run: run, RunSeed: kernel.RunSeed(seed, id, run), Class: class, Msg: msg, FromSeed: true}
	for n := uint64(0); ; {
		r := base
		for k := n; k > 0; k-- {
			if k*wn <= run {
				r.Before = append(r.Before, run-k*wn)
			}
		}
		full := n > 0 && n*wn > run
		if full {
			r.Before = nil
			for k := run % wn; k < run; k += wn {
				r.Before = append(r.Before, k)
			}
		}
		writeJSON(rpath, &r)
		// -record fills in the hash and trace of the failing execution
		if sub(130*time.Second, "replay", "-quiet", "-record", rpath) == 1 && sub(130*time.Second, "replay", "-quiet", rpath) == 1 {
			return load()
		}
		if full || n > 100000 {
			break
		}
		n = max(1, n*4)
	}
	r := base
	r.Unstable = true
	for k := run % wn; k < run; k += wn {
		if k+200*wn >= run {
			r.Before = append(r.Before, k)
		}
	}
	writeJSON(rpath, &r)
	for k := 0; k < 3; k++ {
		if sub(60*time.Second, "replay", "-quiet", rpath) == 1 {
			return load()
		}
	}
	return nil
}

func minimiseCmd(args []string) int {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	run := fs.Uint64("run", 0, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	var cur atomic.Int64
	watch(&cur, func(kind string) { os.Exit(3) })
	p := props.All[*id]
	rs := kernel.RunSeed(*seed, p.ID, *run)
	first := props.RunOnce(p, kernel.NewTape(rs), false)
	if first.Viol == nil {
		return 4
	}
	o, tries := kernel.Shrink(func(t []uint32) *kernel.Outcome {
		cur.Add(1)
		tidy()
		return props.RunOnce(p, kernel.ReplayTape(t), false)
	}, first, 25*time.Second)
	cur.Add(1)
	tr := props.RunOnce(p, kernel.ReplayTape(o.Tape), true)
	if tr.Viol == nil {
		return 4
	}
	fmt.Printf("vsim: minimised %d choices to %d in %d tries\n", len(first.Tape), len(o.Tape), tries)
	r := &Replay{Property: p.ID, Seed: *seed, Run: *run, RunSeed: rs, OrigLen: len(first.Tape), Tape: o.Tape}
	r.record(tr)
	writeJSON(*out, r)
	return 0
}

// record stores what a failing execution showed.
func (r *Replay) record(o *kernel.Outcome) {
	r.Class, r.Msg, r.Hash, r.End = o.Viol.Class, o.Viol.Msg, fmt.Sprintf("%016x", o.Hash), o.End
	r.Trace = o.Trace
	if len(r.Trace) > 400 {
		r.Trace = append(append(append([]string{}, o.Trace[:200]...), "..."), o.Trace[len(o.Trace)-200:]...)
	}
}

// replay re-executes a replay file: exit 1 when it fails in the same way, 0
// when it does not fail, 2 when it fails differently.
func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("quiet", false, "")
	record := fs.Bool("record", false, "write the class, hash and trace of the violation into the file")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	p := props.All[r.Property]
	if p == nil {
		fatal("no property %q", r.Property)
	}
	runtime.GOMAXPROCS(1)
	var cur atomic.Int64
	watch(&cur, func(kind string) {
		fmt.Printf("replay: %s again\nVIOLATION property=%s replay=%s\n", kind, r.Property, fs.Arg(0))
		os.Exit(3)
	})
	tape := func() *kernel.Tape {
		if r.FromSeed {
			return kernel.NewTape(r.RunSeed)
		}
		return kernel.ReplayTape(r.Tape)
	}
	var o *kernel.Outcome
	for try := 0; ; try++ {
		for _, k := range r.Before {
			cur.Add(1)
			tidy()
			props.RunOnce(p, kernel.NewTape(kernel.RunSeed(r.Seed, r.Property, k)), false)
		}
		cur.Add(1)
		tidy()
		o = props.RunOnce(p, tape(), true)
		if o.Viol != nil || !r.Unstable || try >= 20 {
			break
		}
	}
	if !*quiet {
		for _, l := range o.Trace {
			fmt.Println(l)
		}
	}
	if o.Herr != nil {
		fmt.Println("harness error:", o.Herr.Msg)
		return 2
	}
	if o.Viol == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Printf("replay: class %s: %s\ntrace hash %016x\n", o.Viol.Class, o.Viol.Msg, o.Hash)
	if *record {
		r.record(o)
		writeJSON(fs.Arg(0), &r)
	}
	if r.Unstable {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
		return 1
	}
	if o.Viol.Class != r.Class || fmt.Sprintf("%016x", o.Hash) != r.Hash {
		fmt.Println("replay: differs from the recorded violation", r.Class, r.Hash)
		return 2
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
	return 1
}

func one(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	i := fs.Uint64("i", 0, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	o := props.RunOnce(props.All[*id], kernel.NewTape(kernel.RunSeed(*seed, *id, *i)), true)
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	fmt.Println(o.Sample)
	fmt.Printf("end=%s steps=%d choices=%d hash=%016x time=%v counts=%v\n", o.End, o.Steps, len(o.Tape), o.Hash, o.SimTime, o.Count)
	if o.Herr != nil {
		fmt.Println("HARNESS", o.Herr.Msg)
		return 2
	}
	if o.Viol != nil {
		fmt.Println("VIOLATION", o.Viol.Class, o.Viol.Msg)
		return 1
	}
	return 0
}

// selftest runs the same indices in many processes with different worker
// counts and compares the hashes of every run.
func selftest(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	runs := fs.Uint64("runs", 400, "")
	only := fs.String("prop", "", "")
	fs.Parse(args)
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "vsim-self-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	bad := 0
	for _, id := range props.IDs() {
		if *only != "" && *only != id {
			continue
		}
		ref := map[string]string{}
		procs := 0
		for _, wn := range []int{1, 3, 8, 5} {
			for rep := 0; rep < 2; rep++ {
				got := map[string]string{}
				var wg sync.WaitGroup
				for i := 0; i < wn; i++ {
					procs++
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						out := filepath.Join(tmp, fmt.Sprintf("w%d", i))
						c := exec.Command(self, "worker", "-prop", id, "-w", fmt.Sprint(i), "-n", fmt.Sprint(wn), "-runs", fmt.Sprint(*runs), "-out", out, "-hashlog", out+".log", "-cap", "10m")
						gm := "1"
						if rep == 1 {
							gm = "4"
						}
						c.Env = append(os.Environ(), "GOMAXPROCS="+gm)
						if b, err := c.CombinedOutput(); err != nil {
							fmt.Println(id, err, string(b))
						}
					}(i)
				}
				wg.Wait()
				for i := 0; i < wn; i++ {
					b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("w%d.log", i)))
					for _, l := range strings.Split(string(b), "\n") {
						if k, v, ok := strings.Cut(l, " "); ok {
							got[k] = v
						}
					}
				}
				if len(ref) == 0 {
					ref = got
					continue
				}
				for k, v := range ref {
					if got[k] != v {
						bad++
						if bad < 20 {
							fmt.Printf("DIVERGED %s run %s: %s vs %s\n", id, k, v, got[k])
						}
					}
				}
			}
		}
		fmt.Printf("%s: %d runs compared over %d processes, divergences so far %d\n", id, len(ref), procs, bad)
	}
	if bad > 0 {
		return 1
	}
	return 0
}
