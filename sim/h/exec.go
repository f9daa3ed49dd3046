package h

import (
	"errors"
	"fmt"
	"hash/fnv"
	"path/filepath"
	"strings"

	"github.com/evanw/esbuild/pkg/api"
	"github.com/stephen/cssc"
	"github.com/stephen/cssc/esbuildplugin"
	"github.com/stephen/cssc/resolver"
	"github.com/stephen/cssc/transforms"

	"verifsim/racy"
	"verifsim/simfs"
	"verifsim/simrt"
)

// Diag is one delivered diagnostic.
type Diag struct {
	Text   string // rendered when it was delivered
	Broken string // rendering failed
	Again  string // how rendering it after the run differs, if it does
	Late   bool   // delivered after the compilation returned
	err    error
}

// Call is one question put to the resolver.
type Call struct {
	Spec, Dir string
	Path, Err string
	Late      bool
}

// CompileRun is what one compilation did.
type CompileRun struct {
	Started  bool
	Returned bool
	Live     []simrt.Left // goroutines of its own that had not ended when it returned
	Open     []string     // files it had opened and not closed when it returned
	AtReturn map[string]string
	Files    map[string]string // at the end of the run
	Diags    []Diag
	Overlap  bool // the reporter was called while a call was in progress
	Calls    []Call
	Load     *api.OnLoadResult
	LoadErr  string
	cell     *racy.Cell
	inside   int
	res      *cssc.Result
	nilRes   bool
}

// History is one executed run.
type History struct {
	Budget int64
	Out    simrt.Outcome
	Runs   []*CompileRun
	FS     *simfs.FS
	Ans    []string // answers to Queries: "ok path" or "err text"
	SimNS  int64    // simulated time the run took
}

// Label is the task label of compilation i.
func label(i int) int { return i + 1 }

type recorder struct {
	h    *History
	spec ReporterSpec
	only *CompileRun // nil if shared: the task label tells whose diagnostic it is
	wait *CompileRun // what every call waits for, if not nil
}

func waitFor(run *CompileRun) {
	if run != nil {
		simrt.Block(func() bool { return run.Returned }, "callback waiting for another compilation")
	}
}

func (h *History) mine() *CompileRun {
	l := simrt.Cur().Label
	if l >= 1 && l <= len(h.Runs) {
		return h.Runs[l-1]
	}
	return nil
}

func render1(err error) (text, broken string) {
	defer func() {
		if r := recover(); r != nil {
			broken = fmt.Sprint(r)
		}
	}()
	return err.Error(), ""
}

// AddError implements cssc.Reporter.
func (r *recorder) AddError(err error) {
	run := r.only
	if run == nil {
		run = r.h.mine()
	}
	if run.inside > 0 {
		run.Overlap = true
	}
	run.inside++
	if simrt.RaceBuild {
		run.cell.Touch()
	}
	simrt.Op("report")
	for i := 0; i < r.spec.Delay; i++ {
		simrt.Op("reporting")
	}
	if r.spec.Sleep > 0 {
		simrt.Sleep(r.spec.Sleep)
	}
	if r.spec.Gate {
		simrt.WaitIdle()
	}
	waitFor(r.wait)
	d := Diag{err: err, Late: run.Returned}
	if err == nil {
		d.Broken = "nil error reported"
	} else {
		d.Text, d.Broken = render1(err)
	}
	simrt.Event("diag " + Key(d.Text))
	run.Diags = append(run.Diags, d)
	run.inside--
	if at := len(run.Diags) - 1; r.spec.Pass && err != nil {
		simrt.GoLabel(-5, func() {
			for i := 0; i < at%3; i++ {
				simrt.Op("passed on")
			}
			t, b := render1(err)
			if b != "" {
				run.Diags[at].Again = "rendering it in another goroutine fails: " + b
			} else if t != d.Text {
				run.Diags[at].Again = fmt.Sprintf("rendered in another goroutine it reads %q", t)
			}
		})
	}
}

type loggedResolver struct {
	h    *History
	spec ResolverSpec
	node *resolver.NodeResolver
	only *CompileRun
	wait *CompileRun
}

var errScripted = errors.New("scripted resolver failure")

// Resolve implements cssc.Resolver.
func (r *loggedResolver) Resolve(spec, dir string) (string, error) {
	run := r.only
	if run == nil {
		run = r.h.mine()
	}
	c := Call{Spec: spec, Dir: dir, Late: run.Returned}
	simrt.Op("resolve " + spec)
	for i := 0; i < r.spec.Delay; i++ {
		simrt.Op("resolving")
	}
	if r.spec.Sleep > 0 {
		simrt.Sleep(r.spec.Sleep)
	}
	waitFor(r.wait)
	var err error
	if r.node != nil {
		c.Path, err = r.node.Resolve(spec, dir)
	} else {
		err = errScripted
		for _, a := range r.spec.Answers {
			if a.Spec == spec && a.Dir == dir {
				c.Path, err = a.Path, nil
				if a.Err != "" {
					err = fmt.Errorf("%s: %s from %s", a.Err, spec, dir)
				}
				break
			}
		}
		if err == errScripted {
			err = fmt.Errorf("unknown import %s from %s", spec, dir)
		}
	}
	if err != nil {
		c.Err = err.Error()
		run.Calls = append(run.Calls, c)
		return "", err
	}
	run.Calls = append(run.Calls, c)
	return c.Path, nil
}

// Opts translates the transforms.
func (t Transforms) Opts() transforms.Options {
	return transforms.Options{
		ImportRules:        []transforms.ImportRules{transforms.ImportRulesPassthrough, transforms.ImportRulesFollow, transforms.ImportRulesInline}[t.Imports],
		MediaFeatureRanges: []transforms.MediaFeatureRanges{transforms.MediaFeatureRangesPassthrough, transforms.MediaFeatureRangesTransform}[t.Ranges],
		AnyLink:            []transforms.AnyLink{transforms.AnyLinkPassthrough, transforms.AnyLinkTransform}[t.AnyLink],
		CustomProperties:   []transforms.CustomProperties{transforms.CustomPropertiesPassthrough, transforms.CustomPropertiesTransformRoot}[t.Vars],
		CustomMediaQueries: []transforms.CustomMediaQueries{transforms.CustomMediaQueriesPassthrough, transforms.CustomMediaQueriesTransform}[t.CMedia],
		CalcReduction:      []transforms.CalcReduction{transforms.CalcReductionPassthrough, transforms.CalcReductionReduce}[t.Calc],
	}
}

type fakeBuild struct {
	load func(api.OnLoadArgs) (api.OnLoadResult, error)
}

func (f *fakeBuild) OnResolve(api.OnResolveOptions, func(api.OnResolveArgs) (api.OnResolveResult, error)) {
}
func (f *fakeBuild) OnLoad(_ api.OnLoadOptions, cb func(api.OnLoadArgs) (api.OnLoadResult, error)) {
	f.load = cb
}

// Execute runs a scenario under one schedule.
func Execute(s *Scenario, cfg simrt.Config) *History {
	h := &History{FS: s.FS()}
	for range s.Compiles {
		h.Runs = append(h.Runs, &CompileRun{cell: &racy.Cell{}})
	}
	if s.Budget > 0 {
		cfg.Budget = s.Budget
	}
	if cfg.Budget == 0 {
		var size int64
		for i := range s.Files {
			for v := 0; v <= len(s.Files[i].Versions); v++ {
				t, _ := s.Files[i].Text(v)
				size += int64(len(t))
			}
		}
		cfg.Budget = 20000000 + 500*size*int64(len(s.Compiles))
	}
	h.Budget = cfg.Budget
	h.Ans = make([]string, len(s.Queries))
	simfs.Cur = h.FS
	h.FS.Start()
	simrt.NewProcess()
	h.FS.Late = func() string {
		if r := h.mine(); r != nil && r.Returned {
			return "file system used after the compilation returned"
		}
		return ""
	}
	// Slices: the runtime reports accesses to maps to the race detector even in packages
	// that are not instrumented.
	plugins := make([]*fakeBuild, len(s.Compiles)+1)
	pending := make([]int, len(s.Compiles)+1) // writers that have to be done before the next compilation
	for _, w := range s.Writers {
		if w.After > 0 && w.After < len(pending) {
			pending[w.After]++
		}
	}
	var sharedRes cssc.Resolver
	entryLists := make([][]string, len(s.Compiles))
	h.Out = simrt.Run(cfg, func() {
		for _, w := range s.Writers {
			w := w
			simrt.GoLabel(-2, func() {
				if w.After > 0 && w.After <= len(h.Runs) {
					simrt.Block(func() bool { return h.Runs[w.After-1].Returned }, "writer waiting")
				}
				for i := 0; i < w.Waits; i++ {
					simrt.Op("writer")
				}
				if f := h.FS.Files[w.Path]; f != nil && w.To < len(f.Versions) {
					f.Replace(w.To)
					simrt.Event(fmt.Sprintf("version %d of %s", w.To, w.Path))
				}
				if w.After > 0 && w.After < len(pending) {
					pending[w.After]--
				}
			})
		}
		if s.Noise > 0 {
			simrt.GoLabel(-3, func() {
				for i := 0; i < s.Noise; i++ {
					h.FS.StderrWrite([]byte(fmt.Sprintf("noise line %d\n", i)))
				}
			})
		}
		round := 0
		left := map[int]int{}
		for _, q := range s.Queries {
			left[q.Round]++
		}
		long := map[string]*resolver.NodeResolver{}
		for i := range s.Queries {
			q, i := s.Queries[i], i
			r := &resolver.NodeResolver{BaseURL: q.Base}
			if s.Shared {
				if long[q.Base] == nil {
					long[q.Base] = r
				}
				r = long[q.Base]
			}
			simrt.GoLabel(-4, func() {
				simrt.Block(func() bool { return round >= q.Round }, "question waiting for others")
				defer func() {
					if left[q.Round]--; left[q.Round] == 0 {
						for left[round] == 0 && round < 100 {
							round++
							s.edit(h.FS, round)
						}
					}
				}()
				p, err := r.Resolve(q.Spec, q.Dir)
				if err != nil {
					h.Ans[i] = "err " + err.Error()
				} else {
					h.Ans[i] = "ok " + p
				}
			})
		}
		for i := range s.Compiles {
			c := &s.Compiles[i]
			run := h.Runs[i]
			for c.Plugin >= len(plugins) {
				plugins = append(plugins, nil)
			}
			if c.Plugin > 0 && plugins[c.Plugin] == nil {
				fb := &fakeBuild{}
				opts := []esbuildplugin.Option{esbuildplugin.WithTransforms(c.T.Opts())}
				if c.Resolver.Kind != "" {
					opts = append(opts, esbuildplugin.WithResolver(h.resolver(c, nil)))
				}
				if c.Reporter.Kind == "option" {
					opts = append(opts, func(o cssc.Options) cssc.Options {
						o.Reporter = &recorder{h: h, spec: c.Reporter}
						return o
					})
				}
				esbuildplugin.Plugin(opts...).Setup(fb)
				plugins[c.Plugin] = fb
			}
			var opts cssc.Options
			if c.Plugin == 0 {
				entries := append([]string(nil), c.Entries...)
				if s.Shared {
					// The same options, too.
					for j := range s.Compiles[:i] {
						if entryLists[j] != nil && sameStrings(entryLists[j], entries) {
							entries = entryLists[j]
						}
					}
					entryLists[i] = entries
				}
				opts = cssc.Options{Entry: entries, Transforms: c.T.Opts()}
				if c.Resolver.Kind != "" {
					if s.Shared {
						if sharedRes == nil {
							sharedRes = h.resolver(c, nil)
						}
						opts.Resolver = sharedRes
					} else {
						own := h.resolver(c, run)
						own.wait = h.other(i, c.For)
						opts.Resolver = own
					}
				}
				if c.Reporter.Kind == "" {
					opts.Reporter = &recorder{h: h, spec: c.Reporter, only: run, wait: h.other(i, c.For)}
				}
			}
			load := (func(api.OnLoadArgs) (api.OnLoadResult, error))(nil)
			if c.Plugin > 0 {
				load = plugins[c.Plugin].load
			}
			simrt.GoLabel(label(i), func() {
				if c.After > 0 && c.After <= len(h.Runs) && c.After-1 != i {
					simrt.Block(func() bool { return h.Runs[c.After-1].Returned && pending[c.After] == 0 }, "compilation waiting for another")
				}
				run.Started = true
				simrt.Op("compile")
				if load != nil {
					res, err := load(api.OnLoadArgs{Path: s.Abs(c.Entries[0])})
					run.Load = &res
					if err != nil {
						run.LoadErr = err.Error()
						if run.LoadErr == "" {
							run.LoadErr = "(empty)"
						}
					}
				} else {
					run.res = cssc.Compile(opts)
				}
				run.Returned = true
				run.Live = simrt.Live(func(t *simrt.Task) bool { return t.Label == label(i) })
				run.Open = h.FS.Unclosed(label(i))
				run.AtReturn = copyFiles(run)
				simrt.Event(fmt.Sprintf("returned %d", i))
			})
		}
	})
	h.SimNS = simrt.NowNS()
	for _, r := range h.Runs {
		r.Files = copyFiles(r)
		for i := range r.Diags {
			d := &r.Diags[i]
			if d.err == nil || d.Broken != "" || d.Again != "" || h.Out.Kind != "" {
				continue
			}
			t, b := render1(d.err)
			if b != "" {
				d.Again = "rendering it later fails: " + b
			} else if t != d.Text {
				d.Again = fmt.Sprintf("rendered later it reads %q", t)
			}
		}
	}
	return h
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func copyFiles(r *CompileRun) map[string]string {
	m := map[string]string{}
	if r.res == nil {
		r.nilRes = true
		return m
	}
	for k, v := range r.res.Files {
		m[k] = v
	}
	return m
}

// other is compilation number n, unless that is i.
func (h *History) other(i, n int) *CompileRun {
	if n > 0 && n <= len(h.Runs) && n-1 != i {
		return h.Runs[n-1]
	}
	return nil
}

func (h *History) resolver(c *Compile, run *CompileRun) *loggedResolver {
	r := &loggedResolver{h: h, spec: c.Resolver, only: run}
	if c.Resolver.Kind == "node" {
		r.node = &resolver.NodeResolver{BaseURL: c.Resolver.BaseURL}
	}
	return r
}

// Key is a diagnostic's text without the call stacks some errors carry, which depend
// on who loaded a file first.
func Key(text string) string {
	var keep []string
	lines := strings.Split(text, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if i+1 < len(lines) && strings.HasPrefix(lines[i+1], "\t") && strings.Contains(lines[i+1], ".go:") {
			// A frame: "function: reason" or just "function".
			if at := strings.Index(l, ": "); at >= 0 {
				keep = append(keep, l[at+2:])
			}
			i++
			continue
		}
		if strings.HasPrefix(l, "\t") && strings.Contains(l, ".go:") {
			continue
		}
		keep = append(keep, l)
	}
	return strings.Join(keep, "\n")
}

// ResultHash covers everything observable in a history.
func (h *History) ResultHash() uint64 {
	f := fnv.New64a()
	fmt.Fprintln(f, h.Out.Kind, h.Out.Detail, h.Out.Hash)
	for _, r := range h.Runs {
		for _, k := range sortedKeys(r.Files) {
			fmt.Fprintln(f, k, r.Files[k])
		}
		for _, d := range r.Diags {
			fmt.Fprintln(f, Key(d.Text))
		}
		for _, c := range r.Calls {
			fmt.Fprintln(f, c.Spec, c.Dir, c.Path)
		}
		fmt.Fprintln(f, len(r.Live), r.Overlap, r.LoadErr)
	}
	for _, a := range h.Ans {
		fmt.Fprintln(f, Key(a))
	}
	for _, w := range h.FS.Stderrs {
		fmt.Fprintln(f, Key(w.Text))
	}
	return f.Sum64()
}

var _ = filepath.Join
