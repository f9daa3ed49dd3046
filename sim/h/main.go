package h

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

// Main is the command. Sub-commands: check (what MANIFEST runs), replay, worker, min.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck check|replay|worker|min ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(mainCheck(os.Args[2:]))
	case "worker":
		mainWorker(os.Args[2:])
	case "replay":
		os.Exit(mainReplay(os.Args[2:]))
	case "min":
		os.Exit(mainMin(os.Args[2:]))
	case "gen":
		mainGen(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

const (
	runWatchdog = 200 * time.Second // real time one scenario may take
)

func setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(100 << 20)
}

func raceErrors() int { return simrt.RaceErrors() }

// ---- worker ----

type msg struct {
	Start  *int    `json:"start,omitempty"` // scenario begun
	Replay *Replay `json:"replay,omitempty"`
	Stats  *Stats  `json:"stats,omitempty"`
	Stuck  *int    `json:"stuck,omitempty"`
}

// judgeOne judges one scenario, with race reports as violations.
func judgeOne(ck *Check, c *Ctx) (*Violation, *Replay) {
	before := raceErrors()
	if ck.Race {
		// The judge looks for races after every run.
		c.raceBase = before
	}
	v := c.judge(ck)
	if v == nil {
		return nil, nil
	}
	return v, c.failing(ck, v)
}

func mainWorker(args []string) {
	fl := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fl.String("check", "", "")
	seed := fl.Uint64("seed", 1, "")
	tier := fl.String("tier", "quick", "")
	first := fl.Int("first", 0, "")
	step := fl.Int("step", 1, "")
	count := fl.Int("count", 1, "")
	cap := fl.Float64("cap", 30, "")
	verify := fl.Int("verify", 64, "")
	fl.Parse(args)
	setup()
	ck := Checks[*id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", *id)
		os.Exit(2)
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	send := func(m msg) {
		enc.Encode(m)
		out.Flush()
	}
	st := NewStats()
	t0 := time.Now()
	cur := -1
	var mu sync.Mutex
	began := time.Now()
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			k, since := cur, time.Since(began)
			mu.Unlock()
			if since > runWatchdog {
				send(msg{Stuck: &k})
				os.Exit(3)
			}
		}
	}()
	for k := *first; k < *count; k += *step {
		if time.Since(t0).Seconds() > *cap {
			st.CapHit = true
			break
		}
		mu.Lock()
		cur, began = k, time.Now()
		mu.Unlock()
		kk := k
		send(msg{Start: &kk})
		s := genScenario(ck, *seed, k, *tier)
		c := &Ctx{S: s, St: st, CheckReplay: *verify}
		st.Scenarios++
		v, rp := judgeOne(ck, c)
		if d := time.Since(began).Seconds(); d > st.Slowest {
			st.Slowest = d
		}
		if st.Sample == nil && len(s.Files) > 1 && c.h != nil && c.h.Out.Switches > 4 {
			st.Sample = s
			cc := &Ctx{S: s, St: NewStats(), verb: true, rp: &Replay{Run: 0, Preempts: c.h.Out.Trace, OrderSeed: c.cfg.OrderSeed}}
			cc.judge(ck)
			if cc.h != nil {
				st.SampleTrace = cc.h.Out.Log
				if len(st.SampleTrace) > 60 {
					st.SampleTrace = st.SampleTrace[:60]
				}
			}
		}
		if v != nil {
			rp.Seed, rp.Index, rp.Tier = *seed, k, *tier
			for j := *first; j < k; j += *step {
				rp.Prefix = append(rp.Prefix, j)
			}
			send(msg{Replay: rp})
			break
		}
	}
	st.Wall = time.Since(t0).Seconds()
	send(msg{Stats: st})
}

// ---- check ----

type found struct {
	rp    *Replay
	crash string
	index int
	first int
	step  int
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func verifDir() string { return env("VERIF_DIR", "/verif") }

func mainCheck(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	id := fl.String("check", "", "")
	workers := fl.Int("workers", 8, "")
	fl.Parse(args)
	ck := Checks[*id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", *id)
		return 2
	}
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := env("VERIF_TIER", "quick")
	count, cap := ck.Quick, 60.0
	if tier == "thorough" {
		count, cap = ck.Thorough, 780
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_COUNT")); err == nil {
		count = v
	}
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_CAP"), 64); err == nil {
		cap = v
	}
	t0 := time.Now()
	self, _ := os.Executable()
	st := NewStats()
	var mu sync.Mutex
	var all []found
	var trouble []string
	var wg sync.WaitGroup
	var procs []*exec.Cmd
	stop := false
	for i := 0; i < *workers; i++ {
		i := i
		cmd := exec.Command(self, "worker", "-check", *id, "-seed", fmt.Sprint(seed), "-tier", tier, "-first", fmt.Sprint(i),
			"-step", fmt.Sprint(*workers), "-count", fmt.Sprint(count), "-cap", fmt.Sprint(cap))
		cmd.Env = workerEnv()
		pipe, _ := cmd.StdoutPipe()
		var errb tail
		cmd.Stderr = &errb
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		procs = append(procs, cmd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			dec := json.NewDecoder(bufio.NewReaderSize(pipe, 1<<20))
			last, done := -1, false
			for {
				var m msg
				if err := dec.Decode(&m); err != nil {
					break
				}
				mu.Lock()
				switch {
				case m.Start != nil:
					last = *m.Start
				case m.Replay != nil:
					all = append(all, found{rp: m.Replay, index: m.Replay.Index, first: i, step: *workers})
				case m.Stuck != nil:
					all = append(all, found{crash: "the scenario does not end", index: *m.Stuck, first: i, step: *workers})
					done = true
				case m.Stats != nil:
					st.Add(m.Stats)
					done = true
				}
				if len(all) > 0 && !stop {
					stop = true
					time.AfterFunc(300*time.Millisecond, func() {
						mu.Lock()
						defer mu.Unlock()
						for _, p := range procs {
							p.Process.Kill()
						}
					})
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if err != nil && !done && !stop {
				if last >= 0 {
					all = append(all, found{crash: "the process died: " + err.Error() + "\n" + errb.String(), index: last, first: i, step: *workers})
					stop = true
				} else {
					trouble = append(trouble, fmt.Sprintf("worker: %v: %s", err, errb.String()))
				}
			}
		}()
	}
	wg.Wait()
	searched := time.Since(t0).Seconds()
	violations := 0
	code := 0
	if len(all) > 0 {
		sort.SliceStable(all, func(i, j int) bool { return all[i].index < all[j].index })
		violations = 1
		path, what := conclude(ck, self, seed, tier, all[0])
		if path == "" {
			fmt.Fprintln(os.Stderr, what)
			code = 2
		} else {
			fmt.Println(what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
			code = 1
		}
	}
	if len(trouble) > 0 && code == 0 {
		fmt.Fprintln(os.Stderr, strings.Join(trouble, "\n"))
		code = 2
	}
	if code == 0 && st.Explored+st.References == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		code = 2
	}
	writeEvidence(ck, st, seed, tier, time.Since(t0).Seconds(), searched, violations)
	if code == 0 {
		fmt.Printf("%s held: %d scenarios, %d simulated runs (%d distinct interleavings), %d reference runs, %.1f s, %d fault kinds, replay mismatches %d/%d\n",
			ck.ID, st.Scenarios, st.Explored, st.Distinct, st.References, searched, len(st.Faults), st.Mismatch, st.Replayed)
	}
	return code
}

// tail keeps the end of what is written.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// The beginning of a crash says most.
		t.b = t.b[:1<<16]
	}
	return len(p), nil
}

func (t *tail) String() string {
	s := string(t.b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func workerEnv() []string {
	e := os.Environ()
	return append(e, "GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0", "GOTRACEBACK=single")
}

func runSelf(self string, limit time.Duration, args ...string) (int, string) {
	cmd := exec.Command(self, args...)
	cmd.Env = workerEnv()
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return 2, err.Error()
	}
	tm := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timely := tm.Stop()
	if !timely {
		return 124, out.String()
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), out.String()
		}
		return 2, err.Error()
	}
	return 0, out.String()
}

// conclude confirms a violation in a fresh process, reduces it and writes its replay.
func conclude(ck *Check, self string, seed uint64, tier string, f found) (string, string) {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", ck.ID, seed, f.index))
	if f.rp == nil {
		// The process died or did not end: the scenario as a whole is the replay.
		rp := &Replay{Property: ck.ID, Scenario: genScenario(ck, seed, f.index, tier), Run: -2, Seed: seed, Index: f.index, Tier: tier,
			Violation: Violation{"crash", f.crash}}
		if err := writeJSON(path, rp); err != nil {
			return "", err.Error()
		}
		code, out := runSelf(self, 90*time.Second, "replay", path)
		if code == 0 {
			for j := f.first; j < f.index; j += f.step {
				rp.Prefix = append(rp.Prefix, j)
			}
			writeJSON(path, rp)
			code, out = runSelf(self, 200*time.Second, "replay", path)
		}
		if code == 0 {
			return "", "a worker failed, but its scenario passes on its own: " + f.crash
		}
		return path, ck.ID + " violated (crash): " + f.crash + "\n" + out
	}
	rp := f.rp
	prefix := rp.Prefix
	rp.Prefix = nil
	if err := writeJSON(path, rp); err != nil {
		return "", err.Error()
	}
	code, out := runSelf(self, 90*time.Second, "replay", path)
	if code == 1 {
		// Reduce, in a fresh process, and confirm again in another one.
		small := path + ".min"
		if mc, _ := runSelf(self, 150*time.Second, "min", path, small); mc == 0 {
			if c2, o2 := runSelf(self, 90*time.Second, "replay", small); c2 == 1 {
				os.Rename(small, path)
				return path, o2
			}
		}
		os.Remove(small)
		return path, out
	}
	// It needs what the process had executed before it.
	for n := 1; ; n *= 2 {
		if n > len(prefix) {
			n = len(prefix)
		}
		rp.Prefix = prefix[len(prefix)-n:]
		writeJSON(path, rp)
		if code, out = runSelf(self, 200*time.Second, "replay", path); code == 1 {
			return path, out
		}
		if n == len(prefix) {
			break
		}
	}
	// Not reproduced: something the simulator does not control is involved. The
	// violation was seen on the real code all the same.
	rp.Note = "seen once; depends on something outside the simulator's control, so replaying may need several attempts"
	writeJSON(path, rp)
	for i := 0; i < 20; i++ {
		if code, out = runSelf(self, 90*time.Second, "replay", path); code == 1 {
			return path, out
		}
	}
	return path, fmt.Sprintf("%s violated (%s): %s\nnote: %s", ck.ID, rp.Violation.Class, rp.Violation.What, rp.Note)
}

// ---- replay ----

func loadReplay(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		return nil, err
	}
	return rp, nil
}

// again executes a replay and returns the violation it shows.
func again(ck *Check, rp *Replay, verbose bool) (*Violation, *Ctx) {
	for _, k := range rp.Prefix {
		c := &Ctx{S: genScenario(ck, rp.Seed, k, rp.Tier), St: NewStats()}
		c.judge(ck)
	}
	c := &Ctx{S: rp.Scenario, St: NewStats(), rp: rp, verb: verbose}
	if rp.Run == -2 {
		c.rp = nil
	}
	v, _ := judgeOne(ck, c)
	return v, c
}

func mainReplay(args []string) int {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	verbose := fl.Bool("v", false, "print the run's log")
	fl.Parse(args)
	setup()
	rp, err := loadReplay(fl.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := Checks[rp.Property]
	if ck == nil || rp.Scenario == nil {
		fmt.Fprintln(os.Stderr, "not a replay file")
		return 2
	}
	time.AfterFunc(runWatchdog, func() {
		fmt.Println("the scenario does not end")
		os.Exit(1)
	})
	v, c := again(ck, rp, *verbose)
	if v == nil {
		fmt.Printf("%s: the violation does not occur on this tree\n", rp.Property)
		return 0
	}
	if *verbose && c.h != nil {
		for _, l := range c.h.Out.Log {
			fmt.Println(l)
		}
	}
	fmt.Printf("%s violated (%s): %s\n", rp.Property, v.Class, v.What)
	fmt.Printf("scenario: %s\n", describe(rp.Scenario))
	if rp.Run >= 0 {
		fmt.Printf("schedule: %d decisions away from run-to-completion, table order seed %d\n", len(rp.Preempts), rp.OrderSeed)
	}
	return 1
}

func describe(s *Scenario) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d files, %d compilations, %d writers, %d faults, %d queries", len(s.Files), len(s.Compiles), len(s.Writers), len(s.Faults), len(s.Queries))
	n := 0
	for _, f := range s.Files {
		t, _ := f.Text(0)
		n += len(t)
		if n > 1500 {
			b.WriteString("\n  ...")
			break
		}
		fmt.Fprintf(&b, "\n  %s", f.Path)
		if f.Err != "" {
			fmt.Fprintf(&b, " (%s)", f.Err)
		}
		fmt.Fprintf(&b, ": %q", t)
		for v := range f.Versions {
			t, _ := f.Text(v + 1)
			fmt.Fprintf(&b, "\n    version %d: %q %s", v+1, t, f.Versions[v].Err)
		}
	}
	for _, l := range sortedKeys(s.Links) {
		fmt.Fprintf(&b, "\n  %s -> %s", l, s.Links[l])
	}
	for _, cm := range s.Compiles {
		fmt.Fprintf(&b, "\n  compile %q %+v resolver %+v reporter %+v plugin %d after %d", cm.Entries, cm.T, cm.Resolver, cm.Reporter, cm.Plugin, cm.After)
	}
	for _, w := range s.Writers {
		fmt.Fprintf(&b, "\n  writer %+v", w)
	}
	for _, f := range s.Faults {
		fmt.Fprintf(&b, "\n  fault %+v", f)
	}
	for _, q := range s.Queries {
		fmt.Fprintf(&b, "\n  query %+v", q)
	}
	for _, e := range s.Edits {
		fmt.Fprintf(&b, "\n  edit %+v", e)
	}
	return b.String()
}

func mainGen(args []string) {
	id, seed, idx := args[0], uint64(1), 0
	if len(args) > 1 {
		idx, _ = strconv.Atoi(args[1])
	}
	s := genScenario(Checks[id], seed, idx, "quick")
	fmt.Println(describe(s))
}

// ---- evidence ----

func writeEvidence(ck *Check, st *Stats, seed uint64, tier string, wall, searched float64, violations int) {
	perHour := func(n int) float64 {
		if searched <= 0 {
			return 0
		}
		return float64(int(float64(n) / searched * 3600))
	}
	cov := map[string]interface{}{
		"evaluations":                  st.Explored + st.References,
		"distinct_nontrivial":          st.Nontrivial,
		"rule":                         ck.Rule + ". An execution is non-trivial if at least two tasks besides the main one interleave, a fault fired or the resolver was questioned; it is distinct by the hash of its scenario, all scheduling decisions with their positions, and all logged events.",
		"scenarios":                    st.Scenarios,
		"explored_schedules":           st.Explored,
		"reference_runs":               st.References,
		"simulated_runs_per_hour":      perHour(st.Explored + st.References),
		"seeds_per_hour":               perHour(st.Scenarios),
		"simulated_time_s":             float64(st.SimNS) / 1e9,
		"simulated_steps":              st.Steps,
		"context_switches":             st.Switches,
		"scheduling_points":            st.Points,
		"max_tasks":                    st.MaxTasks,
		"slowest_scenario_s":           math.Round(st.Slowest*100) / 100,
		"max_share_of_step_limit":      math.Round(st.MaxBudget*1000) / 1000,
		"distinct_interleavings":       st.Distinct,
		"interleaving_measure":         "hash of the scenario and of the sequence of (from, to) task switches",
		"faults_injected":              st.Faults,
		"strategies":                   st.Strategies,
		"probes":                       st.Probes,
		"runs_replayed_from_trace":     st.Replayed,
		"replays_that_differed":        st.Mismatch,
		"wall_cap_hit":                 st.CapHit,
		"components_running_real_code": []string{"github.com/stephen/cssc (all packages, instrumented at build time from /repo's working tree)", "github.com/samsarahq/go/oops", "golang.org/x/sync/errgroup"},
		"components_stubbed":           []string{"sync, channels, select and go statements (simulator's own, same semantics)", "os, io/ioutil, path/filepath's file access (in-memory file system)", "time (simulated clock)", "standard error", "esbuild (only its plugin interface is called)"},
	}
	if st.Sample != nil {
		cov["samples"] = []interface{}{st.Sample, st.SampleTrace}
	} else {
		cov["samples"] = []interface{}{"none: no scenario of this run interleaved"}
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"goroutines only communicate through memory, sync, channels and the file system, all of which are simulated",
			"preemption happens between statements and, in packages that start goroutines, between the reads and the writes of one statement",
			"the search is a seeded sample of scenarios and schedules, not all of them",
		},
	}
	if err := writeJSON(filepath.Join(verifDir(), "evidence", ck.ID+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
