package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifsim/simrt"
)

// Check decides one property.
type Check struct {
	ID       string
	Gen      func(r *simrt.RNG, tier string) *Scenario
	Judge    func(c *Ctx)
	Quick    int  // scenarios in the quick tier
	Thorough int  // scenarios in the thorough tier
	Race     bool // needs the race-detector build
	Rule     string
	Real     string
	Stub     string
}

// Checks are all the checks, by property.
var Checks = map[string]*Check{}

func register(c *Check) { Checks[c.ID] = c }

// Violation is one way in which a run broke the property.
type Violation struct {
	Class string `json:"class"` // kind of violation, kept by minimisation
	What  string `json:"what"`
}

// Replay is a failing run, exactly.
type Replay struct {
	Property  string          `json:"property"`
	Violation Violation       `json:"violation"`
	Scenario  *Scenario       `json:"scenario"`
	Run       int             `json:"run"` // index of the explored schedule; -1: the reference schedule fails already; -2: all are executed
	Preempts  []simrt.Preempt `json:"preempts"`
	OrderSeed uint64          `json:"order_seed"`
	Seed      uint64          `json:"seed"`   // VERIF_SEED of the search that found it
	Index     int             `json:"index"`  // scenario number in that search
	Prefix    []int           `json:"prefix"` // scenarios that have to be executed before it in the same process
	Tier      string          `json:"tier"`
	Minimised bool            `json:"minimised"`
	Steps     int64           `json:"steps"`
	Note      string          `json:"note,omitempty"`
}

// Stats is what a worker covered.
type Stats struct {
	Scenarios   int            `json:"scenarios"`
	Explored    int            `json:"explored"`
	References  int            `json:"references"`
	Steps       int64          `json:"steps"`
	SimNS       int64          `json:"sim_ns"`
	Switches    int64          `json:"switches"`
	Points      int64          `json:"points"`
	MaxTasks    int            `json:"max_tasks"`
	MaxBudget   float64        `json:"max_budget"` // largest share of the step limit a run used
	Distinct    int            `json:"distinct"`
	Nontrivial  int            `json:"nontrivial"`
	Faults      map[string]int `json:"faults"`
	Strategies  map[string]int `json:"strategies"`
	Probes      map[string]int `json:"probes"`
	Replayed    int            `json:"replayed"`
	Mismatch    int            `json:"mismatch"`
	CapHit      bool           `json:"cap_hit"`
	Sample      *Scenario      `json:"sample,omitempty"`
	SampleTrace []string       `json:"sample_trace,omitempty"`
	Wall        float64        `json:"wall"`
	Slowest     float64        `json:"slowest"` // scenario, in seconds of real time
	seen        map[uint64]bool
	seenNT      map[uint64]bool
}

// NewStats returns empty statistics.
func NewStats() *Stats {
	return &Stats{Faults: map[string]int{}, Strategies: map[string]int{}, Probes: map[string]int{}, seen: map[uint64]bool{}, seenNT: map[uint64]bool{}}
}

// Add merges another worker's statistics.
func (st *Stats) Add(o *Stats) {
	st.Scenarios += o.Scenarios
	st.Explored += o.Explored
	st.References += o.References
	st.Steps += o.Steps
	st.SimNS += o.SimNS
	st.Switches += o.Switches
	st.Points += o.Points
	if o.MaxBudget > st.MaxBudget {
		st.MaxBudget = o.MaxBudget
	}
	if o.Slowest > st.Slowest {
		st.Slowest = o.Slowest
	}
	if o.MaxTasks > st.MaxTasks {
		st.MaxTasks = o.MaxTasks
	}
	st.Distinct += o.Distinct
	st.Nontrivial += o.Nontrivial
	st.Replayed += o.Replayed
	st.Mismatch += o.Mismatch
	st.CapHit = st.CapHit || o.CapHit
	for k, v := range o.Faults {
		st.Faults[k] += v
	}
	for k, v := range o.Strategies {
		st.Strategies[k] += v
	}
	for k, v := range o.Probes {
		st.Probes[k] += v
	}
	if st.Sample == nil {
		st.Sample, st.SampleTrace = o.Sample, o.SampleTrace
	}
}

// Ctx is the judging of one scenario.
type Ctx struct {
	S        *Scenario
	St       *Stats
	rp       *Replay // non-nil: only this run
	run      int
	h        *History
	cfg      simrt.Config
	verb     bool
	raceBase int

	// CheckReplay: every n-th explored run is executed again from its recorded
	// decisions and has to be the same run.
	CheckReplay int

	// OnRun is called before every execution.
	OnRun func(s *Scenario, run int)
}

type vpanic struct{ v *Violation }

// Fail reports a violation.
func (c *Ctx) Fail(class, f string, args ...interface{}) {
	panic(vpanic{&Violation{class, fmt.Sprintf(f, args...)}})
}

func (c *Ctx) probe(name string) { c.St.Probes[name]++ }

func (c *Ctx) account(s *Scenario, h *History, explored bool) {
	st := c.St
	st.Steps += h.Out.Steps
	st.SimNS += h.SimNS
	if explored {
		st.Explored++
	} else {
		st.References++
	}
	st.Switches += int64(h.Out.Switches)
	st.Points += int64(h.Out.Points)
	if v := float64(h.Out.Steps) / float64(h.Budget); v > st.MaxBudget {
		st.MaxBudget = v
	}
	if h.Out.Tasks > st.MaxTasks {
		st.MaxTasks = h.Out.Tasks
	}
	fired := false
	for i, n := range h.FS.Fired {
		if n > 0 {
			st.Faults[h.FS.Faults[i].Op+":"+h.FS.Faults[i].Kind] += n
			fired = true
		}
	}
	for _, r := range h.FS.Reads {
		if r.Fault == "" && r.Err != "" {
			k := "file:" + r.Err
			if r.Mid {
				k += " midway"
			}
			st.Faults[k]++
			fired = true
		}
		if r.Version > 0 {
			st.Faults["file:replaced-while-running"]++
			fired = true
		}
	}
	for _, r := range h.Runs {
		for _, cl := range r.Calls {
			if cl.Err != "" {
				st.Faults["resolver:error"]++
				fired = true
			}
		}
	}
	if h.FS.Slept > 0 {
		st.Faults["disk:slow"] += h.FS.Slept
	}
	for i := range s.Compiles {
		if rs := s.Compiles[i].Resolver; (rs.Delay > 0 || rs.Sleep > 0) && len(h.Runs[i].Calls) > 0 {
			st.Faults["resolver:slow"] += len(h.Runs[i].Calls)
		}
		if rp := s.Compiles[i].Reporter; rp.Delay > 0 || rp.Sleep > 0 || rp.Gate {
			st.Faults["reporter:slow"] += len(h.Runs[i].Diags)
		}
	}
	if explored {
		k := simrt.Mix(s.Seed, h.Out.Inter)
		if !st.seen[k] {
			st.seen[k] = true
			st.Distinct++
		}
		if (h.Out.Tasks > 2 && h.Out.Switches > 2) || fired || len(s.Queries) > 0 {
			k := simrt.Mix(s.Seed, h.Out.Hash)
			if !st.seenNT[k] {
				st.seenNT[k] = true
				st.Nontrivial++
			}
		}
	}
}

func (c *Ctx) exec(s *Scenario, cfg simrt.Config, explored bool) *History {
	if c.OnRun != nil {
		c.OnRun(s, c.run)
	}
	cfg.Verbose = c.verb && explored
	h := Execute(s, cfg)
	c.account(s, h, explored)
	return h
}

// Ref executes a scenario in the reference schedule: one task after the other.
func (c *Ctx) Ref(s *Scenario) *History {
	if c.run >= 0 {
		c.run = -1
	}
	if s.Chunk > 0 {
		s = s.Clone()
		s.Chunk = 0 // what is read does not depend on how much a call returns
	}
	h := c.exec(s, simrt.Config{Strategy: simrt.Strategy{Kind: "seq"}}, false)
	c.normal(h)
	return h
}

func (c *Ctx) normal(h *History) {
	if h.Out.Kind != "" {
		where := ""
		for _, l := range strings.Split(h.Out.Stack, "\n") {
			if strings.Contains(l, "/.build/") || strings.Contains(l, "stephen/cssc") {
				where += "\n  " + strings.TrimSpace(l)
				if len(where) > 1500 {
					break
				}
			}
		}
		c.Fail(h.Out.Kind, "%s%s", h.Out.Detail, where)
	}
}

// Each executes the scenario under its schedules.
func (c *Ctx) Each(f func(h *History)) {
	n := c.S.Runs
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		if c.rp != nil && c.rp.Run != i && c.rp.Run != -2 {
			continue
		}
		c.run = i
		r := simrt.NewRNG(simrt.Mix(c.S.Seed, uint64(1000+i)))
		cfg := simrt.Config{Seed: r.U64(), OrderSeed: r.U64(), Strategy: simrt.DrawStrategy(r)}
		if i == 0 {
			cfg.OrderSeed = 0
		}
		if c.rp != nil && c.rp.Run == i {
			cfg = simrt.Config{Replaying: true, Replay: c.rp.Preempts, OrderSeed: c.rp.OrderSeed}
		}
		c.St.Strategies[cfg.Strategy.Kind]++
		c.cfg = cfg
		h := c.exec(c.S, cfg, true)
		c.h = h
		if c.CheckReplay > 0 && c.St.Explored%c.CheckReplay == 0 && !cfg.Replaying {
			h2 := Execute(c.S, simrt.Config{Replaying: true, Replay: h.Out.Trace, OrderSeed: cfg.OrderSeed})
			c.St.Replayed++
			if h2.ResultHash() != h.ResultHash() {
				c.St.Mismatch++
			}
		}
		c.normal(h)
		f(h)
	}
	c.run = -1
}

// judge runs the oracle and returns the violation, if any.
func (c *Ctx) judge(ck *Check) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			if vp, ok := r.(vpanic); ok {
				v = vp.v
				return
			}
			panic(r)
		}
	}()
	c.run = -1
	ck.Judge(c)
	return nil
}

// failing makes the replay of what just failed.
func (c *Ctx) failing(ck *Check, v *Violation) *Replay {
	rp := &Replay{Property: ck.ID, Violation: *v, Scenario: c.S, Run: c.run, Preempts: []simrt.Preempt{}}
	if c.run >= 0 && c.h != nil {
		rp.OrderSeed = c.cfg.OrderSeed
		rp.Preempts = append(rp.Preempts, c.h.Out.Trace...)
		rp.Steps = c.h.Out.Steps
	}
	return rp
}

func genScenario(ck *Check, seed uint64, index int, tier string) *Scenario {
	f := fnv.New64a()
	f.Write([]byte(ck.ID))
	s := ck.Gen(simrt.NewRNG(simrt.Mix(simrt.Mix(seed, f.Sum64()), uint64(index))), tier)
	s.Check = ck.ID
	s.Seed = simrt.Mix(simrt.Mix(seed, f.Sum64()), uint64(index)+1<<32)
	// A wide project read byte by byte, by many compilations, takes minutes.
	if work := len(s.Files) * len(s.Compiles); work > 600 && s.Chunk > 0 && s.Chunk < 64 {
		s.Chunk = 64
	}
	// Go through the file format, so that what is searched is what is replayed.
	return s.Clone()
}

// ---- helpers shared by the oracles ----

// absEntries are the absolute paths of a compilation's entries, without repetitions.
func (s *Scenario) absEntries(cm *Compile) []string {
	var out []string
	seen := map[string]bool{}
	for _, e := range cm.Entries {
		if s.noWd() && !strings.HasPrefix(e, "/") {
			continue
		}
		a := s.Abs(e)
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	sort.Strings(out)
	return out
}

// noWd tells whether the working directory cannot be found out, so that relative
// paths name no file.
func (s *Scenario) noWd() bool {
	for _, f := range s.Faults {
		if f.Op == "getwd" && f.Nth == 0 {
			return true
		}
	}
	return false
}

// withWd is the scenario in which it can.
func (s *Scenario) withWd() *Scenario {
	n := s.Clone()
	n.Faults = nil
	for _, f := range s.Faults {
		if f.Op != "getwd" {
			n.Faults = append(n.Faults, f)
		}
	}
	return n
}

// Keys are the outputs a compilation must have.
func (w *World) Keys(cm *Compile) map[string]bool {
	keys := map[string]bool{}
	for _, e := range w.s.absEntries(cm) {
		if !w.Loads(e) {
			continue
		}
		if cm.T.Imports == 1 {
			for p := range w.Reach(e) {
				keys[p] = true
			}
		} else {
			keys[e] = true
		}
	}
	return keys
}

func setList(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) checkKeys(w *World, cm *Compile, r *CompileRun) {
	if r.nilRes {
		c.Fail("keys", "the compilation returned no result")
	}
	want := w.Keys(cm)
	var got []string
	for k := range r.Files {
		got = append(got, k)
	}
	if w.s.noWd() && len(got) > len(want) {
		// Whoever finds the files all the same may output them.
		for k := range NewWorld(w.s.withWd(), cm).Keys(cm) {
			if _, ok := r.Files[k]; ok {
				want[k] = true
			}
		}
	}
	if d := diffStrings(setList(want), got); d != "" {
		c.Fail("keys", "output files for entries %q: %s", cm.Entries, d)
	}
}

// single is the scenario with one compilation of one entry.
func (s *Scenario) single(entry string, from *Compile) *Scenario {
	n := s.Clone()
	cm := *from
	cm.Entries = []string{entry}
	cm.After, cm.For, cm.Plugin = 0, 0, 0
	cm.Reporter = ReporterSpec{}
	cm.Resolver.Delay, cm.Resolver.Sleep = 0, 0
	n.Slow = nil
	n.Compiles = []Compile{cm}
	n.Writers, n.Noise, n.Shared = nil, 0, false
	return n
}

// pasted is the scenario in which only the given text is compiled.
func pasted(text string, t Transforms, budget int64) *Scenario {
	t.Imports = 0
	return &Scenario{Cwd: "/p", Budget: budget, Files: []FileSpec{{Path: "/p/pasted.css", Raw: text}},
		Compiles: []Compile{{Entries: []string{"/p/pasted.css"}, T: t, Resolver: ResolverSpec{Kind: "table"}}}}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+100
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			lo = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("they differ at byte %d (lengths %d and %d): ...%q... and ...%q...", i, len(a), len(b), cut(a), cut(b))
}

// tableFor is a scripted resolver that gives the right answers.
func (s *Scenario) tableFor() ResolverSpec {
	rs := ResolverSpec{Kind: "table"}
	seen := map[string]bool{}
	add := func(path string, items []Item) {
		for _, it := range items {
			k := it.Spec + "\x00" + filepath.Dir(path)
			if it.Kind != "import" || it.To == "" || seen[k] {
				continue
			}
			seen[k] = true
			rs.Answers = append(rs.Answers, Answer{Spec: it.Spec, Dir: filepath.Dir(path), Path: it.To})
		}
	}
	for i := range s.Files {
		f := &s.Files[i]
		add(f.Path, f.Items)
		for _, v := range f.Versions {
			add(f.Path, v.Items)
		}
	}
	return rs
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
