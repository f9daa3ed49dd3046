package h

import (
	"path/filepath"
	"strings"

	"verifsim/simfs"
	"verifsim/simrt"
)

// ---- generation shared by several checks ----

func pickEntries(r *simrt.RNG, s *Scenario, paths []string, max int, repeat bool) []string {
	n := 1 + r.N(max)
	var out []string
	for i := 0; i < n; i++ {
		p := paths[0]
		if i > 0 || r.P(0.2) {
			p = paths[r.N(len(paths))]
		}
		dup := false
		for _, e := range out {
			dup = dup || s.Abs(e) == p
		}
		if dup && !repeat {
			continue
		}
		out = append(out, spell(r, s.Cwd, p))
	}
	return out
}

var readErrs = []string{"EACCES", "EIO", "ENOENT", "EISDIR", "EMFILE", "ELOOP", "EPERM", "ESTALE", "ENFILE"}

// breakFiles makes some files unreadable.
func breakFiles(r *simrt.RNG, s *Scenario, p float64) {
	for i := range s.Files {
		if strings.HasSuffix(s.Files[i].Path, ".css") && r.P(p) && !s.linked(s.Files[i].Path) {
			s.Files[i].Err = readErrs[r.N(len(readErrs))]
			if r.P(0.3) {
				s.Files[i].Err, s.Files[i].ErrAt = "EIO", 1+r.N([]int{1, 20, 300}[r.N(3)])
			}
		}
	}
}

// duration is between a microsecond and some hours.
func duration(r *simrt.RNG) int64 {
	d := int64(1000)
	for n := r.N(11); n > 0; n-- {
		d *= 10
	}
	return d/1000 + int64(r.N(1000))*(d/1000)
}

func slowness(r *simrt.RNG, s *Scenario, cm *Compile) {
	if r.P(0.35) {
		cm.Resolver.Delay = r.N(8)
		if r.P(0.3) {
			cm.Resolver.Sleep = duration(r)
		}
		if cm.Resolver.Kind == "" {
			cm.Resolver.Kind = "node"
		}
	}
	if r.P(0.3) {
		cm.Reporter.Delay = r.N(6)
	}
	if r.P(0.2) {
		cm.Reporter.Sleep = duration(r)
	}
	slowDisk(r, s)
	if r.P(0.12) {
		s.Chunk = []int{1, 1 + r.N(60), 1 + r.N(600)}[r.N(3)]
	}
}

// slowDisk makes all files, or one of them, slow.
func slowDisk(r *simrt.RNG, s *Scenario) {
	for r.P(0.15) && len(s.Slow) < 3 {
		l := simfs.Latency{NS: duration(r)}
		if r.P(0.7) && len(s.Files) > 0 {
			l.Path = s.Files[r.N(len(s.Files))].Path
		}
		s.Slow = append(s.Slow, l)
	}
}

// breakResolver makes a scripted resolver out of the default one, some of whose
// answers are errors.
func breakResolver(r *simrt.RNG, s *Scenario, cm *Compile, p float64) {
	cm.Resolver = s.tableFor()
	for i := range cm.Resolver.Answers {
		if r.P(p) {
			cm.Resolver.Answers[i].Err = "refused"
		}
	}
}

// ---- C01 ----

func init() {
	register(&Check{ID: "C01", Quick: 60000, Thorough: 3000000, Gen: genC01, Judge: judgeC01,
		Rule: "random projects (2-6 files, import graphs with sharing, repetition, cycles, missing and broken files), 1-4 entries in any spelling, random options; each is compiled once task by task and then under several drawn schedules and table orders, and outputs (bytes) and diagnostics (as a collection) have to be the same"})
}

func genC01(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 5}
	g := &gen{r: r, o: GenOpts{Links: true, MaxFiles: 6, MaxItems: 4, Cycles: r.P(0.3), Missing: 0.15, Bad: 0.1, Diags: 0.15, Conds: 0.1, Vars: true,
		FreeVars: true, Redefine: true, DupImport: 0.25, BareSpecs: true, Unicode: true}}
	if g.o.Cycles {
		g.o.MaxFiles, g.o.Density = 4, 0.35
	}
	paths := g.project(s)
	cm := Compile{Entries: pickEntries(r, s, paths, 4, true), T: genTransforms(r, r.N(3))}
	if r.P(0.2) {
		breakFiles(r, s, 0.2)
	}
	if r.P(0.2) {
		breakResolver(r, s, &cm, 0.15)
	}
	if r.P(0.1) && len(paths) > 1 {
		cm.Entries = append(cm.Entries, "/p/absent.css")
	}
	slowness(r, s, &cm)
	s.Compiles = []Compile{cm}
	return s
}

func judgeC01(c *Ctx) {
	ref := c.Ref(c.S)
	r0 := ref.Runs[0]
	want := r0.DiagKeys()
	c.Each(func(h *History) {
		r := h.Runs[0]
		for _, k := range sortedKeys(r0.Files) {
			got, ok := r.Files[k]
			if !ok {
				c.Fail("output", "in the reference schedule there is an output for %s, in this one there is none", k)
			}
			if got != r0.Files[k] {
				if a, b := Body(r0.Files[k]), Body(got); a != b {
					c.Fail("output", "the output for %s depends on the schedule: %s", k, firstDiff(a, b))
				}
				c.Fail("output", "the source map in the output for %s depends on the schedule", k)
			}
		}
		for _, k := range sortedKeys(r.Files) {
			if _, ok := r0.Files[k]; !ok {
				c.Fail("output", "in this schedule there is an output for %s, in the reference schedule there is none", k)
			}
		}
		if d := diffStrings(want, r.DiagKeys()); d != "" {
			c.Fail("diagnostics", "diagnostics differ from the reference schedule's: %s", d)
		}
		if len(want) > 0 {
			c.probe("with_diagnostics")
		}
	})
}

// ---- C02 ----

func init() {
	register(&Check{ID: "C02", Quick: 60000, Thorough: 3000000, Gen: genC02, Judge: judgeC02,
		Rule: "random projects compiled with 1-5 entries (relative, unclean, repeated, also imported by each other) in every import mode; the set of outputs has to be the one the reference model computes, and the constructs in each output those of its own file"})
}

func genC02(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 4}
	g := &gen{r: r, o: GenOpts{Links: true, MaxFiles: 7, MaxItems: 3, Cycles: r.P(0.25), Missing: 0.1, Bad: 0.1, Vars: r.P(0.5), DupImport: 0.2, BareSpecs: true, Weird: r.P(0.2)}}
	if g.o.Cycles {
		g.o.MaxFiles, g.o.Density = 4, 0.35
	}
	paths := g.project(s)
	cm := Compile{Entries: pickEntries(r, s, paths, 5, true), T: genTransforms(r, []int{0, 1, 1, 2}[r.N(4)])}
	if r.P(0.15) {
		breakFiles(r, s, 0.25)
	}
	if r.P(0.1) {
		cm.Entries = append(cm.Entries, "gone/absent.css")
	}
	if r.P(0.1) {
		s.Cwd = []string{"/p/lib", "/", "/w"}[r.N(3)]
	}
	if r.N(3000) == 0 {
		bulk(r, s)
	}
	slowness(r, s, &cm)
	s.Compiles = []Compile{cm}
	return s
}

func judgeC02(c *Ctx) {
	cm := &c.S.Compiles[0]
	w := NewWorld(c.S, cm)
	alone := map[string]string{}
	keys := setList(w.Keys(cm))
	for _, p := range keys {
		s1 := c.S.single(p, cm)
		alone[p] = c.Ref(s1).Runs[0].Files[p]
	}
	c.Each(func(h *History) {
		r := h.Runs[0]
		c.checkKeys(w, cm, r)
		for _, p := range keys {
			out := ParseOutput(r.Files[p])
			if !w.Cyclic(p) || cm.T.Imports != 2 {
				want := w.Flatten(p, cm.T.Imports == 2)
				if got := out.Toks(); !sameToks(want, got) {
					c.Fail("content", "what is stored under %s consists of %s, its file of %s", p, tokStr(got), tokStr(want))
				}
			}
			if a := Body(alone[p]); a != out.Body {
				c.Fail("content", "what is stored under %s is not what compiling it alone gives: %s", p, firstDiff(a, out.Body))
			}
		}
		if len(keys) > 1 {
			c.probe("several_outputs")
		}
	})
}

// ---- C03 ----

func init() {
	register(&Check{ID: "C03", Quick: 60000, Thorough: 3000000, Gen: genC03, Judge: judgeC03,
		Rule: "random acyclic projects in inline mode with random transforms; every entry's output has to equal, byte for byte, the output of a single file made by pasting the imported texts, and to contain the same constructs in the same order as the reference model"})
}

func genC03(r *simrt.RNG, tier string) *Scenario {
	for {
		s := &Scenario{Runs: 4}
		g := &gen{r: r, o: GenOpts{Links: true, MaxFiles: 6, MaxItems: 5, Missing: 0.1, Bad: 0.05, Diags: 0.05, Conds: 0.07, Vars: true, FreeVars: true, Redefine: r.P(0.5), DupImport: 0.3, BareSpecs: true}}
		paths := g.project(s)
		cm := Compile{Entries: pickEntries(r, s, paths, 3, false), T: genTransforms(r, 2)}
		if r.P(0.6) {
			cm.T.Vars, cm.T.CMedia = 1, 1
		}
		if r.P(0.1) {
			breakFiles(r, s, 0.15)
		}
		slowness(r, s, &cm)
		s.Compiles = []Compile{cm}
		w := NewWorld(s, &cm)
		total := 0
		for _, e := range s.absEntries(&cm) {
			total += len(w.Paste(e))
		}
		if total < 15000 {
			return s
		}
	}
}

func judgeC03(c *Ctx) {
	cm := &c.S.Compiles[0]
	w := NewWorld(c.S, cm)
	want := map[string]string{}
	for p := range w.Keys(cm) {
		if w.Cyclic(p) {
			return
		}
		ref := c.Ref(pasted(w.Paste(p), cm.T, c.S.Budget))
		text, ok := ref.Runs[0].Files["/p/pasted.css"]
		if !ok {
			c.Fail("paste", "the pasted text of %s does not compile: %q", p, ref.Runs[0].DiagKeys())
		}
		want[p] = Body(text)
	}
	c.Each(func(h *History) {
		r := h.Runs[0]
		for _, p := range sortedKeys(want) {
			text, ok := r.Files[p]
			if !ok {
				c.Fail("missing", "no output for %s", p)
			}
			out := ParseOutput(text)
			if wt, got := w.Flatten(p, true), out.Toks(); !sameToks(wt, got) {
				c.Fail("constructs", "the output for %s consists of %s, pasting gives %s", p, tokStr(got), tokStr(wt))
			}
			if out.Body != want[p] {
				c.Fail("text", "the output for %s is not what pasting its imports gives: %s", p, firstDiff(want[p], out.Body))
			}
			if len(w.Reach(p)) > 1 {
				c.probe("with_imports")
			}
		}
	})
}

// ---- C04 ----

func init() {
	register(&Check{ID: "C04", Quick: 60000, Thorough: 3000000, Gen: genC04, Judge: judgeC04,
		Rule: "import graphs with self-imports, rings, nested and overlapping cycles, long chains and wide fan-outs, in every import mode, from 1-4 entries; a run that needs more steps than a bound computed from the text it has to produce, or in which all goroutines block, is a violation, and so is an output that lacks or multiplies a file's own constructs"})
}

func genC04(r *simrt.RNG, tier string) *Scenario {
	for {
		s := &Scenario{Runs: 4, Cwd: "/p"}
		g := &gen{r: r, o: GenOpts{MaxFiles: 5, MaxItems: 2, Cycles: true, Missing: 0.1, Bad: 0.05, DupImport: 0.15, Density: []float64{0.2, 0.35, 0.6}[r.N(3)]}}
		var paths []string
		shape := r.N(10)
		huge := r.P(0.0005)
		switch {
		case huge: // hundreds of files deep or wide, or thousands of paths
			switch n := 513 + r.N(600); r.N(3) {
			case 0:
				paths = g.shape(s, n, func(i int) []int {
					if i+1 < n {
						return []int{i + 1}
					}
					return nil
				})
			case 1:
				paths = g.shape(s, n, func(i int) []int {
					var o []int
					for j := 1; j < n && i == 0; j++ {
						o = append(o, j)
					}
					return o
				})
			default:
				n = 11 + r.N(4)
				paths = g.shape(s, n, func(i int) []int {
					if i+1 < n {
						return []int{i + 1, i + 1}
					}
					return nil
				})
				for i := 0; i+1 < n; i++ { // 2^(n-1) times the last file, and little else
					s.Files[i].Items = s.Files[i].Items[:2]
				}
			}
		case shape == 0: // long chain, maybe closed
			n := 10 + r.N(50)
			if r.P(0.03) {
				n = 65 + r.N(80)
			}
			paths = g.shape(s, n, func(i int) []int {
				if i+1 < n {
					return []int{i + 1}
				}
				if r.P(0.5) {
					return []int{r.N(n)}
				}
				return nil
			})
		case shape == 1: // wide
			n := 10 + r.N(60)
			paths = g.shape(s, n, func(i int) []int {
				var o []int
				if i == 0 {
					for j := 1; j < n; j++ {
						o = append(o, j)
					}
				} else if r.P(0.1) {
					o = append(o, r.N(n))
				}
				return o
			})
		case shape == 2: // ring with chords
			n := 2 + r.N(7)
			paths = g.shape(s, n, func(i int) []int {
				o := []int{(i + 1) % n}
				if r.P(0.25) {
					o = append(o, r.N(n))
				}
				return o
			})
		case shape == 3: // everyone imports everyone
			n := 2 + r.N(2)
			paths = g.shape(s, n, func(i int) []int {
				var o []int
				for j := 0; j < n; j++ {
					if j != i || r.P(0.5) {
						o = append(o, j)
					}
				}
				return o
			})
		default:
			paths = g.project(s)
		}
		cm := Compile{Entries: pickEntries(r, s, paths, 4, true), T: genTransforms(r, []int{0, 1, 2, 2}[r.N(4)])}
		maxPaths, maxTotal := 400, 60000
		if huge {
			s.Runs, maxPaths, maxTotal = 2, 40000, 5000000
			cm.Entries = []string{paths[0]}
		} else if r.P(0.1) {
			breakFiles(r, s, 0.2)
		}
		slowness(r, s, &cm)
		s.Compiles = []Compile{cm}
		w := NewWorld(s, &cm)
		total, ok := 0, true
		for _, e := range s.absEntries(&cm) {
			n := w.Paths(e, maxPaths)
			if n == nil {
				ok = false
				break
			}
			for p, k := range n {
				t, _ := s.File(p).Text(0)
				total += k * (len(t) + 50)
			}
		}
		if !ok || total > maxTotal {
			continue
		}
		for i := range s.Files {
			t, _ := s.Files[i].Text(0)
			total += len(t) + 200
		}
		s.Budget = 200000 + int64(total)*600
		return s
	}
}

func (g *gen) shape(s *Scenario, n int, edges func(i int) []int) []string {
	var paths []string
	for i := 0; i < n; i++ {
		paths = append(paths, "/p/"+string(rune('a'+i%26))+strings.Repeat("z", i/26)+".css")
	}
	for i := 0; i < n; i++ {
		f := FileSpec{Path: paths[i]}
		for _, j := range edges(i) {
			f.Items = append(f.Items, g.imp(s, paths[i], paths[j]))
		}
		f.Items = append(f.Items, g.rule())
		for k := 1; k < len(f.Items); k++ {
			f.Items[k].Sep = "\n"
		}
		s.Files = append(s.Files, f)
	}
	return paths
}

func judgeC04(c *Ctx) {
	cm := &c.S.Compiles[0]
	w := NewWorld(c.S, cm)
	c.Ref(c.S)
	c.Each(func(h *History) {
		r := h.Runs[0]
		c.checkKeys(w, cm, r)
		for p := range w.Keys(cm) {
			out := ParseOutput(r.Files[p])
			if cm.T.Imports != 2 || !w.Cyclic(p) {
				if want, got := w.Flatten(p, cm.T.Imports == 2), out.Toks(); !sameToks(want, got) {
					c.Fail("constructs", "the output for %s consists of %s, its files of %s", p, tokStr(got), tokStr(want))
				}
				continue
			}
			c.probe("inlined_cycle")
			paths := w.Paths(p, 4000)
			if paths == nil {
				continue
			}
			count := map[Tok]int{}
			for _, t := range out.Toks() {
				count[t]++
			}
			known := map[Tok]bool{}
			for f, n := range paths {
				for _, it := range w.Items(f) {
					if it.Kind == "import" || it.Marker == "" {
						continue
					}
					t := Tok{"m", it.Marker}
					known[t] = true
					if count[t] < 1 || count[t] > n {
						c.Fail("constructs", "in the output for %s, %s of %s appears %d times; %s is reached by %d import paths", p, it.Marker, f, count[t], f, n)
					}
				}
			}
			for t := range count {
				if t.Kind == "m" && !known[t] {
					c.Fail("constructs", "the output for %s contains %s of a file it does not import", p, t.Name)
				}
			}
		}
		if cm.T.Imports != 2 {
			for p := range w.Keys(cm) {
				if w.Cyclic(p) {
					c.probe("cycle_not_inlined")
					break
				}
			}
		}
	})
}

// ---- C05 ----

func init() {
	register(&Check{ID: "C05", Quick: 60000, Thorough: 3000000, Gen: genC05, Judge: judgeC05,
		Rule: "random projects in which some files cannot be read (any errno), parsed or resolved; outputs that do not include such a file have to equal those of the same project without the failures, the others to have everything else and the failing statement in place"})
}

func genC05(r *simrt.RNG, tier string) *Scenario {
	for {
		s := &Scenario{Runs: 4}
		g := &gen{r: r, o: GenOpts{MaxFiles: 6, MaxItems: 3, Cycles: r.P(0.15), Missing: 0.2, Bad: 0.2, Vars: true, FreeVars: true, DupImport: 0.25, BareSpecs: true}}
		if g.o.Cycles {
			g.o.MaxFiles, g.o.Density = 4, 0.35
		}
		paths := g.project(s)
		cm := Compile{Entries: pickEntries(r, s, paths, 4, true), T: genTransforms(r, r.N(3))}
		if r.P(0.5) {
			breakFiles(r, s, 0.3)
		}
		if r.P(0.25) {
			breakResolver(r, s, &cm, 0.25)
		}
		if r.P(0.15) {
			cm.Entries = append(cm.Entries, "absent.css")
		}
		slowness(r, s, &cm)
		loseWd(r, s, &cm)
		s.Compiles = []Compile{cm}
		w := NewWorld(s, &cm)
		total := 0
		for _, e := range s.absEntries(&cm) {
			if !w.Cyclic(e) {
				total += len(w.Paste(e))
			}
		}
		if total < 15000 {
			return s
		}
	}
}

// loseWd makes the working directory one that cannot be found out.
func loseWd(r *simrt.RNG, s *Scenario, cm *Compile) {
	if r.P(0.06) && cm.Resolver.BaseURL == "" {
		s.Faults = append(s.Faults, simfs.Fault{Op: "getwd", Kind: []string{"ENOENT", "EACCES", "EIO"}[r.N(3)]})
	}
}

// healed is the scenario without failing files.
func (s *Scenario) healed() *Scenario {
	n := s.Clone()
	n.Faults = nil
	for i := range n.Files {
		f := &n.Files[i]
		f.Err = ""
		var keep []Item
		for _, it := range f.Items {
			if it.Kind != "bad" {
				keep = append(keep, it)
			}
		}
		f.Items = keep
	}
	for i := range n.Compiles {
		for j := range n.Compiles[i].Resolver.Answers {
			n.Compiles[i].Resolver.Answers[j].Err = ""
		}
	}
	return n
}

func judgeC05(c *Ctx) {
	cm := &c.S.Compiles[0]
	w := NewWorld(c.S, cm)
	hs := c.S.healed()
	good := c.Ref(hs).Runs[0]
	keys := setList(w.Keys(cm))
	want := map[string]string{}
	full := map[string]bool{}
	for _, p := range keys {
		if _, ok := good.Files[p]; !ok {
			continue // reported by C02
		}
		touched := false
		if cm.T.Imports == 2 {
			for q := range w.Touches(p) {
				if w.Fails[q] != "" || c.S.File(q) == nil {
					touched = true
				}
				for _, it := range w.Items(q) {
					if it.Kind == "import" && it.To != "" && !w.resolves(q, it.Item) {
						touched = true
					}
				}
			}
		}
		if !touched {
			want[p] = good.Files[p]
			full[p] = true
			continue
		}
		if w.Cyclic(p) {
			continue
		}
		ref := c.Ref(pasted(w.Paste(p), cm.T, c.S.Budget)).Runs[0]
		if t, ok := ref.Files["/p/pasted.css"]; ok {
			want[p] = t
		}
	}
	c.Each(func(h *History) {
		r := h.Runs[0]
		c.checkKeys(w, cm, r)
		for _, p := range sortedKeys(want) {
			got, exp := r.Files[p], want[p]
			if full[p] && got == exp {
				c.probe("unaffected_output")
				continue
			}
			out := ParseOutput(got)
			if full[p] {
				if out.Body != Body(exp) {
					c.Fail("unaffected", "%s includes nothing that failed, but its output changed: %s", p, firstDiff(Body(exp), out.Body))
				}
				c.Fail("unaffected", "%s includes nothing that failed, but its source map changed", p)
			}
			c.probe("affected_output")
			if wt, gt := w.Flatten(p, true), out.Toks(); !sameToks(wt, gt) {
				c.Fail("affected", "with failing imports the output for %s consists of %s, expected %s", p, tokStr(gt), tokStr(wt))
			}
			if out.Body != Body(exp) {
				c.Fail("affected", "with failing imports the output for %s is wrong: %s", p, firstDiff(Body(exp), out.Body))
			}
		}
	})
}

// ---- C06 ----

func init() {
	register(&Check{ID: "C06", Quick: 60000, Thorough: 3000000, Gen: genC06, Judge: judgeC06,
		Rule: "random projects with unreadable, unparsable and unresolvable files (or none) in follow and inline mode; every failure the reference model says is reached has to be named by a diagnostic, and a run in which nothing is wrong has to be silent"})
}

// crowd adds a rule in which many constructs stand next to each other, which is allowed
// however strictly a reader limits the nesting of such constructs.
func crowd(r *simrt.RNG, s *Scenario, offence bool) {
	f := &s.Files[r.N(len(s.Files))]
	if f.Raw != "" || f.Link != "" {
		return
	}
	form := []string{"top: 0\x1f; a: [a]\x1f", "top: 0\x1f; a: blur(1px)\x1f", "top: 0\x1f; a: calc((1px) + (1em))\x1f", "top: 0\x1f; a: calc(1px * 2 * 3)\x1f",
		"top: 0\x1f; a: calc(1px + 1em)\x1f", "top: 0;\x1f a: [,];\x1f", "color: \x1fvar(--never, [a]) \x1f", "\x1f, i:not(a)\x1f", "\x1f:is(b)\x1f", "top: 0\x1f; a: [a] [b]\x1f"}[r.N(10)]
	parts := strings.Split(form, "\x1f")
	text := parts[0] + strings.Repeat(parts[1], 10200) + parts[2]
	if !strings.HasPrefix(form, "\x1f") {
		text = ".mx { " + text
	} else {
		text = ".mx" + text + " { top: 0"
	}
	it := Item{Kind: "rule", Text: text + " }"}
	if offence { // after all of these
		it.Text = text + ";\n  width: calc(2 + 5rem)\n}"
		it.Diags = []ItemDiag{{Off: len(text) + 16, Need: "calc"}}
	}
	at := r.N(len(f.Items) + 1)
	for at < len(f.Items) && (f.Items[at].Kind == "import" || strings.HasPrefix(f.Items[at].Text, "\ufeff")) {
		at++
	}
	it.Sep = "\n"
	s.Budget = 400e6
	f.Items = append(f.Items[:at:at], append([]Item{it}, f.Items[at:]...)...)
	s.relink()
}

// bulk makes a file of a small project larger than any buffer.
func bulk(r *simrt.RNG, s *Scenario) {
	f := &s.Files[r.N(len(s.Files))]
	if len(s.Files) > 4 || len(s.Compiles) > 1 || f.Raw != "" || f.Link != "" || f.Err != "" || len(f.Items) == 0 {
		return
	}
	it := Item{Kind: "comment", Text: "/*" + strings.Repeat([]string{"bulk ", "bulk\n", "\u4e16"}[r.N(3)], (1<<20+r.N(1<<18))/5) + "*/", Sep: "\n"}
	at := 1 + r.N(len(f.Items))
	for at < len(f.Items) && strings.HasPrefix(f.Items[at-1].Text, "\ufeff") {
		at++
	}
	s.Budget, s.Chunk = 400e6, 0
	f.Items = append(f.Items[:at:at], append([]Item{it}, f.Items[at:]...)...)
	s.relink()
}

func genC06(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 4}
	clean := r.P(0.35)
	g := &gen{r: r, o: GenOpts{Links: true, MaxFiles: 6, MaxItems: 3, Cycles: r.P(0.2), Missing: 0.25, Bad: 0.2, Vars: true, DupImport: 0.25, BareSpecs: true, Redefine: true, Unicode: true}}
	if g.o.Cycles {
		g.o.MaxFiles, g.o.Density = 4, 0.35
	}
	if clean {
		g.o.Missing, g.o.Bad = 0, 0
	}
	paths := g.project(s)
	cm := Compile{Entries: pickEntries(r, s, paths, 4, true), T: genTransforms(r, 1+r.N(2))}
	if !clean {
		if r.P(0.5) {
			breakFiles(r, s, 0.3)
		}
		if r.P(0.25) {
			breakResolver(r, s, &cm, 0.3)
		}
		if r.P(0.2) {
			cm.Entries = append(cm.Entries, []string{"absent.css", "/p/none/absent.css", "./lib"}[r.N(3)])
		}
	} else if r.P(0.1) {
		cm.T.Imports = 0
	}
	if r.N(200) == 0 {
		crowd(r, s, false)
	}
	if r.N(3000) == 0 {
		bulk(r, s)
	}
	slowness(r, s, &cm)
	if !clean {
		if r.P(0.1) {
			cm.T.Imports = 0
		}
		loseWd(r, s, &cm)
	}
	s.Compiles = []Compile{cm}
	return s
}

// problem is something a compilation has to report.
type problem struct {
	what  string
	entry bool     // it is about an entry
	names []string // any of these identifies it
}

func (w *World) problems(cm *Compile) []problem {
	var out []problem
	seen := map[string]bool{}
	spelled := map[string][]string{}
	for _, e := range cm.Entries {
		if w.s.noWd() && !strings.HasPrefix(e, "/") {
			out = append(out, problem{"entry " + e + " names no file without a working directory", true, []string{e}})
			continue
		}
		spelled[w.s.Abs(e)] = append(spelled[w.s.Abs(e)], e)
	}
	touched := w.Touches(w.s.absEntries(cm)...)
	specs := map[string][]string{}
	for p := range touched {
		for _, it := range w.Items(p) {
			if it.Kind != "import" {
				continue
			}
			to := w.Target(p, it.Item)
			if to == "" {
				names := []string{it.Spec}
				for _, a := range cm.Resolver.Answers {
					if a.Err == "" && a.Spec == it.Spec && a.Dir == filepath.Dir(p) {
						names = append(names, a.Path) // a path that leads nowhere
					}
				}
				out = append(out, problem{"import of " + it.Spec + " in " + p + " cannot be resolved", false, names})
				continue
			}
			specs[to] = append(specs[to], it.Spec)
		}
	}
	for p := range touched {
		if w.Loads(p) || seen[p] {
			continue
		}
		seen[p] = true
		names := append([]string{p}, spelled[p]...)
		out = append(out, problem{"file " + p + " cannot be loaded (" + w.Fails[p] + ")", spelled[p] != nil, append(names, specs[p]...)})
	}
	return out
}

func judgeC06(c *Ctx) {
	cm := &c.S.Compiles[0]
	w := NewWorld(c.S, cm)
	probs := w.problems(cm)
	silent := len(probs) == 0
	for p := range w.Reach(c.S.absEntries(cm)...) {
		for _, it := range w.Items(p) {
			if len(it.Diags) > 0 {
				silent = false
			}
		}
	}
	c.Each(func(h *History) {
		r := h.Runs[0]
		if c.S.noWd() {
			for k := range r.Files {
				if !w.Keys(cm)[k] {
					return // it finds the files all the same
				}
			}
		}
		if cm.T.Imports == 0 {
			if silent && len(r.Diags) > 0 {
				c.Fail("spurious", "nothing is wrong, but this was reported: %q", r.DiagKeys())
			}
		}
		for _, pr := range probs {
			if cm.T.Imports == 0 && !pr.entry {
				continue // an import that is left alone need not be looked at
			}
			found := false
			for _, d := range r.Diags {
				for _, n := range pr.names {
					if strings.Contains(Key(d.Text), n) {
						found = true
					}
				}
			}
			if !found {
				c.Fail("unreported", "%s, but no diagnostic says so; diagnostics: %q", pr.what, r.DiagKeys())
			}
		}
		for _, d := range r.Diags {
			text := Key(d.Text)
			ok := false
			for _, pr := range probs {
				for _, n := range pr.names {
					ok = ok || strings.Contains(text, n)
				}
			}
			if !ok && silent {
				c.Fail("spurious", "nothing is wrong, but this was reported: %q", text)
			}
			if !ok && !w.hasItemDiags(c.S.absEntries(cm)) {
				c.Fail("spurious", "this was reported and is none of what failed: %q", text)
			}
		}
		if silent {
			c.probe("silent_run")
		} else {
			c.probe("failing_run")
		}
	})
}

func (w *World) hasItemDiags(entries []string) bool {
	for p := range w.Reach(entries...) {
		for _, it := range w.Items(p) {
			if len(it.Diags) > 0 {
				return true
			}
		}
	}
	return false
}

var _ = simfs.Fault{}
