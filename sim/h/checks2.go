package h

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"unicode/utf8"

	"verifsim/simfs"
	"verifsim/simrt"
)

// ---- C07 ----

func init() {
	register(&Check{ID: "C07", Quick: 60000, Thorough: 3000000, Gen: genC07, Judge: judgeC07,
		Rule: "random projects in which reading one or two files gives torn, zeroed, flipped, shortened, mixed or arbitrary content; no run may panic or exceed a number of steps proportional to the text it has to produce, outputs without those files equal those of the same project read correctly, and a file torn inside a rule, comment or string is reported, not output and its import left in place"})
}

// junk is text made of pieces that matter to a CSS reader.
func junk(r *simrt.RNG) string {
	pieces := []string{"{", "}", "(", ")", "[", "]", ";", ":", ",", "\"", "'", "/*", "*/", "\\", "@", "#", ".", "-", "--", "+", "<!--", "-->", "!", "url(", "url( ", "calc(", "min(", "var(", "var(--",
		"@import", "@import \"", "@media", "@media (", "@custom-media --x", "@keyframes", "@font-face", "@charset \"", "a", "b{", "c:d", "1px", "50%", "-1", ".5", "1e3", "+.", " ", "\n", "\r", "\r\n", "\t", "\x00", "\xff", "\u00e9", "\u4e16",
		":not(", "::", ":nth-child(", "n+", "[a=", "^", "=", "<", ">", "<=", "~", "|", "*", "!important", "from", "to", "screen", "and", "/", "%", "$", "&", "\\31 ", "\\\n", "u+", "{}", "}}", "((", "a{b:c}"}
	var b strings.Builder
	for n := 1 + r.N(12); n > 0; n-- {
		b.WriteString(pieces[r.N(len(pieces))])
		if r.P(0.2) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// deepForms are contents that nest without limit: before, opening, middle, closing, after.
var deepForms = []string{
	"a { b: \x1ff(\x1f1\x1f)\x1f }",
	"a { b: calc(\x1f(\x1f1\x1f)\x1f) }",
	"a { b: calc(1\x1f + 1\x1f\x1f\x1f) }",
	"a { b: calc(1px\x1f * 2\x1f\x1f\x1f) }",
	"a { b: \x1f[\x1fx\x1f]\x1f }",
	"\x1f:not(\x1fa\x1f)\x1f { b: c }",
	"a { b: \x1fvar(--x, \x1f1\x1f)\x1f }",
	"\x1f@media print {\x1f a { b: c } \x1f}\x1f",
	"@media (min-width: \x1ff(\x1f1\x1f)\x1f) { a { b: c } }",
	"a { b: \x1f{\x1fx\x1f}\x1f }",
	"a { b: \x1ff(\x1f1\x1f\x1f",
	"\x1f:is(\x1fa\x1f\x1f { b: c }",
	"\x1fa:b(c) \x1f\x1f\x1f { b: c }",
	"\x1f/*\x1f\x1f*/\x1fa { b: c }",
	"a[b=\x1ff(\x1f1\x1f)\x1f] { b: c }",
}

// deepLevels is deep enough to exhaust the stack workers allow, which is a tenth of Go's,
// if every level takes some.
const deepLevels = 500000

func genC07(r *simrt.RNG, tier string) *Scenario {
	if r.N(1000) == 0 {
		s := &Scenario{Runs: 1, Cwd: "/p", Budget: 4e9}
		s.Files = []FileSpec{
			{Path: "/p/a.css", Items: []Item{{Kind: "import", Text: "@import \"./b.css\";", Spec: "./b.css", To: "/p/b.css"}, {Kind: "rule", Text: ".m1x { top: 0 }", Marker: "m1x"}}},
			{Path: "/p/b.css", Items: []Item{{Kind: "rule", Text: ".m2x { top: 0 }", Marker: "m2x"}}},
			{Path: "/p/c.css", Items: []Item{{Kind: "rule", Text: ".m3x { top: 0 }", Marker: "m3x"}}},
		}
		s.Compiles = []Compile{{Entries: []string{"/p/a.css", "/p/c.css"}, T: genTransforms(r, r.N(3))}}
		s.Faults = []simfs.Fault{{Op: "read", Kind: "deep", Path: "/p/b.css", Len: deepLevels, Other: deepForms[r.N(len(deepForms))]}}
		return s
	}
	for {
		s := &Scenario{Runs: 3}
		g := &gen{r: r, o: GenOpts{MaxFiles: 4, MaxItems: 4, Cycles: r.P(0.1), Bad: 0.05, Missing: 0.05, Conds: 0.1, Vars: true, FreeVars: r.P(0.5), DupImport: 0.15, Unicode: true, Raws: true, Density: 0.5}}
		paths := g.project(s)
		cm := Compile{Entries: pickEntries(r, s, paths, 3, false), T: genTransforms(r, r.N(3))}
		slowness(r, s, &cm)
		s.Compiles = []Compile{cm}
		for k := 1 + r.N(2)*r.N(2); k > 0; k-- {
			p := paths[r.N(len(paths))]
			text, placed := s.File(p).Text(0)
			if len(text) == 0 {
				continue
			}
			ft := simfs.Fault{Op: "read", Path: p, N: r.N(len(text) + 1)}
			switch r.N(9) {
			case 0, 1, 2, 3:
				ft.Kind = "torn"
				if len(placed) > 0 && r.P(0.6) {
					it := placed[r.N(len(placed))]
					ft.N = it.Start + r.N(it.End-it.Start+1)
				}
				if r.P(0.15) { // right after a character that announces another one
					var at []int
					for i := range text {
						if strings.IndexByte("\\*\"'(/<-@#.:\r", text[i]) >= 0 {
							at = append(at, i+1)
						}
					}
					if len(at) > 0 {
						ft.N = at[r.N(len(at))]
					}
				}
			case 4:
				ft.Kind, ft.Len = "zero", 1+r.N(20)
			case 5:
				ft.Kind, ft.Len = "flip", r.N(8)
			case 6:
				ft.Kind, ft.Len = "drop", 1+r.N(30)
			case 7:
				ft.Kind = "mix"
				ft.Other, _ = s.File(paths[r.N(len(paths))]).Text(0)
			default:
				ft.Kind = "set"
				if r.P(0.5) {
					ft.Other = junk(r)
				} else {
					ft.Other = text[:ft.N] + junk(r) + text[ft.N:]
				}
			}
			s.Faults = append(s.Faults, ft)
		}
		w := NewWorld(s, &cm)
		total, ok := 0, true
		for i := range s.Files {
			t, _ := s.Files[i].Text(0)
			total += len(t)
		}
		for _, e := range s.absEntries(&cm) {
			n := w.Paths(e, 200)
			if n == nil {
				ok = false
				break
			}
			for p, k := range n {
				t, _ := s.File(p).Text(0)
				total += k * (len(t) + 150)
			}
		}
		if !ok || total > 20000 {
			continue
		}
		// A damaged specifier may import other files than before.
		s.Budget = 400000 + int64(total)*1500
		return s
	}
}

// tornFiles are the files whose content ends inside a rule, comment or string.
func (s *Scenario) tornFiles() map[string]bool {
	n := map[string]int{}
	for _, ft := range s.Faults {
		n[ft.Path]++
	}
	out := map[string]bool{}
	for _, ft := range s.Faults {
		f := s.File(ft.Path)
		if f == nil || f.Raw != "" || ft.Kind != "torn" || n[ft.Path] != 1 || ft.Nth != 0 {
			continue
		}
		_, placed := f.Text(0)
		for _, it := range placed {
			if it.Start < ft.N && ft.N < it.End && tornInside(it.Item, ft.N-it.Start, f.EOL) {
				out[ft.Path] = true
			}
		}
	}
	return out
}

// tornInside tells whether an item cut after n bytes ends inside a rule, comment or string.
func tornInside(it *Item, n int, eol string) bool {
	text := it.Text
	if eol != "" {
		text = strings.ReplaceAll(text, "\n", eol)
	}
	cut := text[:n]
	// Inside a string?
	var q byte
	for i := 0; i < len(cut); i++ {
		switch {
		case q != 0 && cut[i] == '\\':
			i++
		case q != 0 && cut[i] == q:
			q = 0
		case q == 0 && (cut[i] == '"' || cut[i] == '\'') && it.Kind != "comment":
			q = cut[i]
		}
	}
	if q != 0 {
		return true
	}
	switch it.Kind {
	case "comment":
		return n >= 2
	case "rule", "root":
		return strings.TrimSpace(cut) != ""
	case "media", "keyframes", "fontface":
		return strings.Contains(cut, "{")
	}
	return false
}

var declared = regexp.MustCompile(`(^|[{;\s])[a-z][a-z-]*\s*:\s*[a-z0-9]`)

var ruleMarker = regexp.MustCompile(`\.(m\d+x)\b`)

// structure lists the markers in the selectors of the rules at the top level of a style
// sheet. ok is false if brackets, strings or comments do not match up, or at the sight
// of anything unusual.
func structure(text string) (markers []string, ok bool) {
	var open []byte
	var block []byte // of the current rule
	var found [][][]byte
	var prelude []byte // of the current construct, without its comments, strings and blocks
	at := false
	fresh := true
	i := 0
	for i < len(text) {
		ch := text[i]
		switch {
		case strings.HasPrefix(text[i:], "/*"):
			e := strings.Index(text[i+2:], "*/")
			if e < 0 {
				return nil, false
			}
			i += e + 4
			continue
		case strings.ContainsRune("\\!<", rune(ch)), strings.HasPrefix(text[i:], "-->"):
			return nil, false // escapes and old comments
		case ch == '"' || ch == '\'':
			j := i + 1
			for j < len(text) && text[j] != ch {
				if strings.ContainsRune("\\\n\r\f", rune(text[j])) {
					return nil, false
				}
				j++
			}
			if j == len(text) {
				return nil, false
			}
			i = j
		case ch == '(' || ch == '[' || ch == '{':
			if ch == '(' && i >= 3 && strings.EqualFold(text[i-3:i], "url") {
				e := strings.IndexByte(text[i:], ')')
				if e < 0 || strings.ContainsAny(text[i+1:i+e], "\"'(\\") {
					return nil, false
				}
				i += e
				break
			}
			if ch == '{' && len(open) == 0 && !at {
				found, block = ruleMarker.FindAllSubmatch(prelude, -1), nil
			}
			open = append(open, ch)
		case ch == ')' || ch == ']' || ch == '}':
			if len(open) == 0 || open[len(open)-1] != map[byte]byte{')': '(', ']': '[', '}': '{'}[ch] {
				return nil, false
			}
			open = open[:len(open)-1]
			if ch == '}' && len(open) == 0 {
				if !at && declared.Match(block) { // an empty rule need not be output
					for _, m := range found {
						markers = append(markers, string(m[1]))
					}
				}
				prelude, at, fresh = nil, false, true
				i++
				continue
			}
		case ch == ';' && len(open) == 0:
			prelude, at, fresh = nil, false, true
			i++
			continue
		case fresh && ch == '@':
			at = true
		}
		if !strings.ContainsRune(" \t\n\r", rune(ch)) {
			fresh = false
		}
		if len(open) == 0 {
			prelude = append(prelude, text[i])
		} else if len(open) == 1 {
			block = append(block, text[i])
		}
		i++
	}
	return markers, len(open) == 0 && fresh
}

func judgeC07(c *Ctx) {
	cm := &c.S.Compiles[0]
	damaged := map[string]bool{}
	for _, ft := range c.S.Faults {
		damaged[ft.Path] = true
	}
	clean := c.S.Clone()
	clean.Faults = nil
	good := c.Ref(clean).Runs[0]
	w := NewWorld(c.S, cm)
	least := NewWorld(c.S, cm) // what is there if the damaged files give nothing
	for p := range damaged {
		least.Fails[p] = "damaged"
	}
	// Outputs that have nothing to do with the damage.
	free := map[string]bool{}
	for p := range w.Keys(cm) {
		if damaged[p] {
			continue
		}
		ok := true
		if cm.T.Imports == 2 {
			for q := range w.Touches(p) {
				ok = ok && !damaged[q]
			}
		}
		if ok {
			free[p] = true
		}
	}
	must := map[string]bool{}
	for p := range least.Keys(cm) {
		if free[p] {
			must[p] = true
		}
	}
	// Files that have to fail.
	torn := c.S.tornFiles()
	others := false
	for p := range damaged {
		others = others || !torn[p]
	}
	tw := NewWorld(c.S, cm)
	for p := range torn {
		tw.Fails[p] = "parse"
	}
	want := map[string]string{}
	if !others && cm.T.Imports == 2 {
		for p := range tw.Keys(cm) {
			if free[p] || tw.Cyclic(p) {
				continue
			}
			ref := c.Ref(pasted(tw.Paste(p), cm.T, c.S.Budget)).Runs[0]
			if t, ok := ref.Files["/p/pasted.css"]; ok {
				want[p] = Body(t)
			}
		}
	}
	// What the damaged texts hold, where that can be told.
	whole := map[string][]string{}
	for p := range damaged {
		var ft *simfs.Fault
		n := 0
		for i := range c.S.Faults {
			if c.S.Faults[i].Path == p {
				n++
				ft = &c.S.Faults[i]
			}
		}
		if f := c.S.File(p); n == 1 && ft.Nth == 0 && ft.Kind != "deep" && f != nil && f.Link == "" {
			text, _ := f.Text(0)
			if ms, ok := structure(simfs.Corrupt(text, ft)); ok {
				whole[p] = ms
			}
		}
	}
	seq := c.Ref(c.S).Runs[0]
	c.Each(func(h *History) {
		r := h.Runs[0]
		for p := range must {
			if _, ok := r.Files[p]; !ok {
				c.Fail("uninvolved", "%s has nothing to do with the damaged files and has no output", p)
			}
		}
		for p := range free {
			got, ok := r.Files[p]
			if !ok {
				continue
			}
			if exp, ok := good.Files[p]; ok && got != exp {
				if Body(got) != Body(exp) {
					c.Fail("uninvolved", "%s has nothing to do with the damaged files, but its output changed: %s", p, firstDiff(Body(exp), Body(got)))
				}
				c.Fail("uninvolved", "%s has nothing to do with the damaged files, but its source map changed", p)
			}
			c.probe("uninvolved_output")
		}
		for p, t := range r.Files {
			if t != seq.Files[p] {
				c.Fail("unstable", "what the damaged files give for %s depends on the schedule", p)
			}
		}
		for _, p := range sortedKeys(r.Files) {
			text, ok := whole[p]
			if !ok {
				continue
			}
			named := false
			for _, d := range r.Diags {
				named = named || strings.Contains(Key(d.Text), p)
			}
			if named {
				continue
			}
			c.probe("damaged_accepted")
			for _, m := range text {
				if !strings.Contains(Body(r.Files[p]), m) {
					c.Fail("lost", "nothing is reported about the damaged text of %s, but the rule .%s of it is not in its output: %q", p, m, Body(r.Files[p]))
				}
			}
		}
		for p := range torn {
			read := false
			for _, rd := range h.FS.Reads {
				read = read || rd.Path == p
			}
			if !read {
				continue
			}
			c.probe("torn_inside")
			if _, ok := r.Files[p]; ok {
				c.Fail("truncated", "the text of %s ends inside a construct, and it is output as if it were complete", p)
			}
			named := false
			for _, d := range r.Diags {
				named = named || strings.Contains(Key(d.Text), p)
			}
			if !named {
				c.Fail("unreported", "the text of %s ends inside a construct, but no diagnostic says so; diagnostics: %q", p, r.DiagKeys())
			}
		}
		if !others {
			c.checkKeys(tw, cm, r)
			for _, p := range sortedKeys(want) {
				if got := Body(r.Files[p]); got != want[p] {
					c.Fail("importer", "%s includes a file whose text ends inside a construct; its output is wrong: %s", p, firstDiff(want[p], got))
				}
			}
		}
	})
}

// ---- C08 ----

func init() {
	register(&Check{ID: "C08", Quick: 60000, Thorough: 3000000, Gen: genC08, Judge: judgeC08,
		Rule: "random projects whose files are replaced, deleted or made unreadable by writers at drawn moments of one or two compilations, or whose reads fail once; there has to be one outcome of reading each file, among those its reads had, such that the whole result (outputs with embedded sources, diagnostics) is that of compiling these outcomes undisturbed"})
}

func genC08(r *simrt.RNG, tier string) *Scenario {
	for {
		s := &Scenario{Runs: 5}
		g := &gen{r: r, o: GenOpts{MaxFiles: 5, MaxItems: 3, Cycles: r.P(0.15), Missing: 0.05, Bad: 0.05, Vars: r.P(0.5), DupImport: 0.3, Density: 0.5, Diags: 0.15}}
		if g.o.Cycles {
			g.o.MaxFiles = 3
		}
		paths := g.project(s)
		for k := 1 + r.N(3); k > 0; k-- {
			i := r.N(len(s.Files))
			f := &s.Files[i]
			if !strings.HasSuffix(f.Path, ".css") {
				continue
			}
			for v := 1 + r.N(2); v > 0; v-- {
				if r.P(0.3) {
					f.Versions = append(f.Versions, FileV{Err: readErrs[r.N(len(readErrs))]})
					continue
				}
				var items []Item
				for j := range paths {
					if (paths[j] > f.Path || g.o.Cycles) && r.P(0.4) {
						items = append(items, g.imp(s, f.Path, paths[j]))
					}
				}
				for n := r.N(3); n >= 0; n-- {
					items = append(items, g.item())
				}
				if r.P(0.1) {
					items = append(items, g.bad())
				}
				for n := 1; n < len(items); n++ {
					items[n].Sep = "\n"
				}
				f.Versions = append(f.Versions, FileV{Items: items})
			}
			for n := 1 + r.N(2); n > 0; n-- {
				s.Writers = append(s.Writers, Writer{Path: f.Path, Waits: r.N([]int{8, 30, 100}[r.N(3)]), To: r.N(len(f.Versions) + 1)})
			}
		}
		if r.P(0.25) {
			s.Faults = append(s.Faults, simfs.Fault{Op: "read", Path: paths[r.N(len(paths))], Nth: 1 + r.N(2), Kind: readErrs[r.N(len(readErrs))]})
		}
		nc := 1
		if r.P(0.3) {
			nc = 2
		}
		for k := 0; k < nc; k++ {
			cm := Compile{Entries: pickEntries(r, s, paths, 5, true), T: genTransforms(r, []int{0, 1, 2, 2}[r.N(4)])}
			slowness(r, s, &cm)
			delay, sleep := cm.Resolver.Delay, cm.Resolver.Sleep
			cm.Resolver = s.tableFor()
			cm.Resolver.Delay, cm.Resolver.Sleep = delay, sleep
			s.Compiles = append(s.Compiles, cm)
		}
		if r.P(0.2) {
			s.Chunk = 1 + r.N(60)
		}
		// Graphs can get denser with the versions; keep what inlining makes of them small.
		big := false
		w := NewWorld(s, &s.Compiles[0])
		for _, p := range paths {
			n := w.Paths(p, 100)
			big = big || n == nil
		}
		if !big {
			return s
		}
	}
}

// outcome is what reading a file gave.
type outcome struct {
	ver   int
	err   string
	fault bool
}

// frozen is the scenario with one compilation and one outcome for every file.
func (s *Scenario) frozen(cm *Compile, at map[string]outcome) *Scenario {
	n := s.Clone()
	c2 := *cm
	c2.Reporter = ReporterSpec{}
	c2.Resolver.Delay, c2.Resolver.Sleep = 0, 0
	c2.After, c2.For = 0, 0
	n.Compiles = []Compile{c2}
	n.Writers, n.Faults, n.Slow, n.Noise, n.Shared = nil, nil, nil, 0, false
	for i := range n.Files {
		f := &n.Files[i]
		o, ok := at[f.Path]
		if ok && o.ver > 0 {
			f.Items, f.Raw, f.Err, f.ErrAt = f.Versions[o.ver-1].Items, "", f.Versions[o.ver-1].Err, 0
		}
		if ok && o.err != "" {
			f.Err = o.err
			if o.fault {
				f.ErrAt = 0
			}
		}
		f.Versions = nil
	}
	return n
}

func (c *Ctx) sameResult(want, got *CompileRun) string {
	for _, k := range sortedKeys(want.Files) {
		g, ok := got.Files[k]
		if !ok {
			return "no output for " + k
		}
		if g != want.Files[k] {
			if a, b := Body(want.Files[k]), Body(g); a != b {
				return "output " + k + ": " + firstDiff(a, b)
			}
			return "the source map of output " + k + " differs"
		}
	}
	for _, k := range sortedKeys(got.Files) {
		if _, ok := want.Files[k]; !ok {
			return "unexpected output for " + k
		}
	}
	if d := diffStrings(want.DiagKeys(), got.DiagKeys()); d != "" {
		return "diagnostics: " + d
	}
	return ""
}

func judgeC08(c *Ctx) {
	memo := map[string]*CompileRun{}
	c.Each(func(h *History) {
		run := c.run
		for i := range c.S.Compiles {
			cm, r := &c.S.Compiles[i], h.Runs[i]
			cand := map[string][]outcome{}
			var order []string
			for _, rd := range h.FS.Reads {
				if rd.Label != label(i) {
					continue
				}
				o := outcome{ver: rd.Version, err: rd.Err, fault: rd.Fault != ""}
				dup := false
				for _, x := range cand[rd.Path] {
					dup = dup || x == o
				}
				if !dup {
					if len(cand[rd.Path]) == 0 {
						order = append(order, rd.Path)
					}
					cand[rd.Path] = append(cand[rd.Path], o)
				}
				if rd.Version > 0 {
					c.probe("read_a_later_version")
				}
			}
			combos := 1
			for _, p := range order {
				combos *= len(cand[p])
			}
			if combos > 64 {
				combos = 64
			}
			why := ""
			ok := false
			for k := 0; k < combos && !ok; k++ {
				at := map[string]outcome{}
				key := fmt.Sprint(i)
				x := k
				for _, p := range order {
					at[p] = cand[p][x%len(cand[p])]
					x /= len(cand[p])
				}
				for j := range c.S.Files {
					key += fmt.Sprint(at[c.S.Files[j].Path])
				}
				want, have := memo[key]
				if !have {
					want = c.Ref(c.S.frozen(cm, at)).Runs[0]
					memo[key] = want
				}
				d := c.sameResult(want, r)
				ok = d == ""
				if why == "" {
					why = d
				}
			}
			c.run = run
			if !ok {
				c.Fail("mixed", "no single outcome of reading each file explains the result of compilation %d (%d combinations tried): %s", i+1, combos, why)
			}
		}
	})
}

// ---- C09 ----

func init() {
	register(&Check{ID: "C09", Quick: 60000, Thorough: 3000000, Gen: genC09, Judge: judgeC09,
		Rule: "random projects with many diagnostics of every origin (reading, parsing, resolving, transforming) and reporters that yield, sleep or hold on until everything else is stuck; calls that overlap or come after the return, diagnostics that are missing or extra compared with the reference schedule, deadlocks and reporter calls with nothing are violations"})
}

func genC09(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 5}
	g := &gen{r: r, o: GenOpts{MaxFiles: 6, MaxItems: 4, Cycles: r.P(0.15), Missing: 0.4, Bad: 0.25, Diags: 0.3, Conds: 0.2, Vars: true, DupImport: 0.2, BareSpecs: true}}
	if g.o.Cycles {
		g.o.MaxFiles, g.o.Density = 4, 0.35
	}
	paths := g.project(s)
	nc := 1
	if r.P(0.15) {
		nc = 2
	}
	for k := 0; k < nc; k++ {
		cm := Compile{Entries: pickEntries(r, s, paths, 5, true), T: genTransforms(r, r.N(3))}
		if r.P(0.7) {
			cm.T.Vars, cm.T.Calc = 1, 1
		}
		if r.P(0.4) {
			cm.Entries = append(cm.Entries, "absent.css", "absent2.css")
		}
		if r.P(0.2) {
			breakResolver(r, s, &cm, 0.4)
		}
		slowness(r, s, &cm)
		switch r.N(4) {
		case 0:
			cm.Reporter.Delay = 1 + r.N(20)
		case 1:
			cm.Reporter.Sleep = duration(r)
		case 2:
			cm.Reporter.Gate = true
		}
		s.Compiles = append(s.Compiles, cm)
	}
	if r.P(0.4) {
		breakFiles(r, s, 0.3)
	}
	return s
}

func judgeC09(c *Ctx) {
	var want [][]string
	for i := range c.S.Compiles {
		n := c.S.frozen(&c.S.Compiles[i], nil)
		want = append(want, c.Ref(n).Runs[0].DiagKeys())
	}
	c.Each(func(h *History) {
		for i, r := range h.Runs {
			if r.Overlap {
				c.Fail("overlap", "the reporter was called while a call was in progress")
			}
			for _, d := range r.Diags {
				if d.Late {
					c.Fail("late", "a diagnostic was delivered after the compilation had returned: %q", Key(d.Text))
				}
				if d.err == nil {
					c.Fail("nil", "the reporter was called without an error")
				}
			}
			if d := diffStrings(want[i], r.DiagKeys()); d != "" {
				c.Fail("lost", "the diagnostics delivered are not those of the reference schedule: %s", d)
			}
			if len(r.Diags) > 1 {
				c.probe("several_diagnostics")
			}
		}
	})
}

// ---- C10 ----

func init() {
	register(&Check{ID: "C10", Quick: 60000, Thorough: 3000000, Gen: genC10, Judge: judgeC10,
		Rule: "random projects whose entries share files and redefine each other's variables and custom media; every entry is compiled alone, all together, and in several compilations at once (own or shared resolver and reporter) or one after the other with files replaced in between; outputs and diagnostics have to be the same"})
}

func genC10(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 3}
	g := &gen{r: r, o: GenOpts{Links: true, MaxFiles: 5, MaxItems: 4, Cycles: r.P(0.15), Missing: 0.1, Bad: 0.07, Diags: 0.15, Vars: true, FreeVars: true, Redefine: true, DupImport: 0.2, Density: 0.5}}
	if g.o.Cycles {
		g.o.MaxFiles, g.o.Density = 4, 0.35
	}
	paths := g.project(s)
	if r.P(0.15) {
		breakFiles(r, s, 0.2)
	}
	mk := func(max int) Compile {
		cm := Compile{Entries: pickEntries(r, s, paths, max, false), T: genTransforms(r, []int{0, 1, 2, 2}[r.N(4)])}
		if r.P(0.7) {
			cm.T.Vars, cm.T.CMedia = 1, 1
		}
		if r.P(0.15) {
			breakResolver(r, s, &cm, 0.2)
		}
		slowness(r, s, &cm)
		return cm
	}
	s.Compiles = []Compile{mk(5)}
	switch r.N(4) {
	case 0, 1: // at the same time
		for k := 1 + r.N(3); k > 0; k-- {
			s.Compiles = append(s.Compiles, mk(3))
		}
		s.Shared = r.P(0.5)
		if r.P(0.15) { // callbacks of one that depend on another
			i := 1 + r.N(len(s.Compiles)-1)
			s.Compiles[i-1].For = i + 1
			if r.P(0.5) {
				s.Compiles[i-1].For, s.Compiles[i].For = 0, i
			}
			for _, j := range []int{i - 1, i} {
				if s.Compiles[j].Resolver.Kind == "" {
					s.Compiles[j].Resolver.Kind = "node"
				}
			}
		}
		if s.Shared {
			for i := range s.Compiles {
				s.Compiles[i].Resolver = ResolverSpec{Kind: "node", Delay: s.Compiles[0].Resolver.Delay, Sleep: s.Compiles[0].Resolver.Sleep}
				if r.P(0.4) {
					s.Compiles[i].Entries = append([]string(nil), s.Compiles[0].Entries...)
				}
			}
		}
	case 2: // one after the other
		k := 1 + r.N(2)
		if r.P(0.03) && len(s.Files) < 50 { // for a long time
			k = 5 + r.N(30)
			s.Runs = 1
		}
		for ; k > 0; k-- {
			cm := mk(3)
			cm.After = len(s.Compiles)
			if r.P(0.5) {
				p := paths[r.N(len(paths))]
				f := s.File(p)
				if f.Err == "" && strings.HasSuffix(p, ".css") && !s.linked(p) {
					v := FileV{Items: []Item{g.rule(), g.item()}}
					v.Items[1].Sep = "\n"
					if r.P(0.2) {
						v = FileV{Err: "EACCES"}
					}
					f.Versions = append(f.Versions, v)
					s.Writers = append(s.Writers, Writer{Path: p, After: cm.After, To: len(f.Versions)})
				}
			}
			s.Compiles = append(s.Compiles, cm)
		}
	}
	return s
}

func judgeC10(c *Ctx) {
	type part struct {
		files map[string]string
		count map[string]int
	}
	// Which version of each file the compilations see.
	at := map[string]outcome{}
	var alone []map[string]part // per compilation and entry
	for i := range c.S.Compiles {
		cm := &c.S.Compiles[i]
		for _, w := range c.S.Writers {
			if w.After > 0 && w.After == cm.After {
				at[w.Path] = outcome{ver: w.To}
			}
		}
		m := map[string]part{}
		for _, e := range c.S.absEntries(cm) {
			one := *cm
			one.Entries = []string{e}
			r := c.Ref(c.S.frozen(&one, at)).Runs[0]
			p := part{files: r.Files, count: map[string]int{}}
			for _, k := range r.DiagKeys() {
				p.count[k]++
			}
			m[e] = p
		}
		alone = append(alone, m)
	}
	c.Each(func(h *History) {
		for i := range c.S.Compiles {
			cm, r := &c.S.Compiles[i], h.Runs[i]
			min, max := map[string]int{}, map[string]int{}
			keys := map[string]bool{}
			for _, e := range c.S.absEntries(cm) {
				p := alone[i][e]
				for _, k := range sortedKeys(p.files) {
					keys[k] = true
					got, ok := r.Files[k]
					if !ok {
						c.Fail("output", "compiled alone, %s gives an output for %s; compilation %d, with entries %q, has none", e, k, i+1, cm.Entries)
					}
					if got != p.files[k] {
						c.Fail("output", "compiled alone, %s gives another output for %s than in compilation %d with entries %q: %s", e, k, i+1, cm.Entries, firstDiff(Body(p.files[k]), Body(got)))
					}
				}
				for d, n := range p.count {
					max[d] += n
					if n > min[d] {
						min[d] = n
					}
				}
			}
			for k := range r.Files {
				if !keys[k] {
					c.Fail("output", "compilation %d has an output for %s, which none of its entries has alone", i+1, k)
				}
			}
			got := map[string]int{}
			for _, d := range r.DiagKeys() {
				got[d]++
			}
			for d, n := range min {
				if got[d] < n {
					c.Fail("diagnostics", "compilation %d with entries %q reports %d times what one of them alone reports %d times: %q", i+1, cm.Entries, got[d], n, d)
				}
			}
			for d, n := range got {
				if n > max[d] {
					c.Fail("diagnostics", "compilation %d with entries %q reports %d times what its entries alone report %d times: %q", i+1, cm.Entries, n, max[d], d)
				}
			}
			if len(alone[i]) > 1 {
				c.probe("several_entries")
			}
		}
		if len(c.S.Compiles) > 1 {
			c.probe("several_compilations")
		}
	})
}

// ---- C12 ----

func init() {
	register(&Check{ID: "C12", Quick: 60000, Thorough: 3000000, Gen: genC12, Judge: judgeC12,
		Rule: "random projects with a known set of offending places (undefined variables, wrong calc operands, unparsable rules, conditional imports that get inlined) in files with tabs, CRLF, comments, multi-line constructs and non-ASCII text, imported directly, repeatedly and through other files; the places shown by the diagnostics have to be exactly these, with the line's text, and rendering them must not fail during the run or afterwards"})
}

func genC12(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 4}
	g := &gen{r: r, o: GenOpts{Links: true, MaxFiles: 5, MaxItems: 5, Bad: 0.12, Diags: 0.35, Conds: 0.2, Vars: r.P(0.6), FreeVars: true, DupImport: 0.2, Unicode: true, Raws: true, Nested: true, Density: 0.5}}
	paths := g.project(s)
	cm := Compile{Entries: pickEntries(r, s, paths, 4, false), T: genTransforms(r, []int{0, 1, 2, 2, 2}[r.N(5)])}
	if r.P(0.8) {
		cm.T.Vars, cm.T.Calc = 1, 1
	}
	if r.N(200) == 0 {
		crowd(r, s, true)
	}
	slowness(r, s, &cm)
	s.Compiles = []Compile{cm}
	if r.P(0.1) {
		c2 := cm
		s.Compiles = append(s.Compiles, c2)
	}
	passOn(r, s, 0.2)
	return s
}

// Loc is a place a diagnostic points at.
type Loc struct {
	Path string
	Line int   // 1-based
	Cols []int // 1-based, in bytes, runes and UTF-16 units
	Text string
	Need string
	Alt  bool
}

// lineOf gives the 0-based line of an offset and where that line starts. Lines end as
// CSS has it: with a newline, a carriage return, or both.
func lineOf(text string, off int) (line, start int) {
	for i := 0; i < off; i++ {
		if text[i] == '\n' || text[i] == '\r' && !(i+1 < len(text) && text[i+1] == '\n') {
			line, start = line+1, i+1
		}
	}
	return line, start
}

// place finds the line and column of an offset.
func place(path, text string, off int) Loc {
	line, st := lineOf(text, off)
	l := Loc{Path: path, Line: 1 + line}
	end := strings.IndexAny(text[off:], "\r\n")
	if end < 0 {
		end = len(text)
	} else {
		end += off
	}
	l.Text = text[st:end]
	before := text[st:off]
	utf16 := 0
	for _, ch := range before {
		utf16++
		if ch > 0xffff {
			utf16++
		}
	}
	for _, k := range []int{len(before), utf8.RuneCountInString(before), utf16} {
		dup := false
		for _, x := range l.Cols {
			dup = dup || x == k+1
		}
		if !dup {
			l.Cols = append(l.Cols, k+1)
		}
	}
	return l
}

// locs are the places in a file that offend under the given needs.
func (w *World) locsOf(path string, inlined bool, cm *Compile, items []Placed, text string, eol string) []Loc {
	var out []Loc
	for _, it := range items {
		for _, d := range it.Diags {
			switch d.Need {
			case "vars", "mayvar":
				if cm.T.Vars == 0 {
					continue
				}
			case "calc":
				if cm.T.Calc == 0 {
					continue
				}
			case "ranges":
				if cm.T.Ranges == 0 {
					continue
				}
			case "varcalc":
				if cm.T.Calc == 0 || cm.T.Vars == 0 {
					continue
				}
			case "inline":
				if !inlined || !w.Loads(w.Target(path, it.Item)) {
					continue
				}
			}
			off := d.Off
			if len(eol) == 2 {
				off += strings.Count(it.Text[:d.Off], "\n")
			}
			l := place(path, text, it.Start+off)
			l.Need = d.Need
			l.Alt = d.Need == "mayvar" // depends on what is defined before
			out = append(out, l)
		}
	}
	return out
}

// Locs are the places the diagnostics of a compilation have to point at.
func (w *World) Locs(cm *Compile) []Loc {
	var out []Loc
	seen := map[string]bool{}
	add := func(ls []Loc) {
		for _, l := range ls {
			k := fmt.Sprint(l)
			if !seen[k] {
				seen[k] = true
				out = append(out, l)
			}
		}
	}
	for p := range w.Touches(w.s.absEntries(cm)...) {
		f := w.s.File(p)
		if f == nil || w.Fails[p] != "parse" || f.Err != "" {
			continue
		}
		text, placed := f.Text(w.Ver[p])
		for i, it := range placed {
			if it.Kind == "bad" {
				add(w.locsOf(p, false, cm, placed[i:i+1], text, f.EOL))
				break
			}
		}
	}
	for p := range w.Keys(cm) {
		files := map[string]bool{p: true}
		if cm.T.Imports == 2 {
			files = w.Reach(p)
		}
		for q := range files {
			f := w.s.File(q)
			text, placed := f.Text(w.Ver[q])
			add(w.locsOf(q, cm.T.Imports == 2, cm, placed, text, f.EOL))
		}
	}
	return out
}

func (l *Loc) shownIn(text string) bool {
	for _, col := range l.Cols {
		if !hasPlace(text, fmt.Sprintf("%s:%d:%d", l.Path, l.Line, col)) {
			continue
		}
		want := strings.TrimSpace(strings.ReplaceAll(l.Text, "\t", "  "))
		for _, line := range strings.Split(text, "\n") {
			if got := strings.TrimSpace(strings.ReplaceAll(line, "\t", "  ")); got == want {
				return true
			}
		}
	}
	return false
}

func hasPlace(text, place string) bool {
	for at := 0; ; {
		i := strings.Index(text[at:], place)
		if i < 0 {
			return false
		}
		end := at + i + len(place)
		if end == len(text) || text[end] < '0' || text[end] > '9' {
			return true
		}
		at = end
	}
}

func judgeC12(c *Ctx) {
	var want [][]Loc
	for i := range c.S.Compiles {
		cm := &c.S.Compiles[i]
		w := NewWorld(c.S, cm)
		for p := range w.Keys(cm) {
			if cm.T.Imports == 2 && w.Cyclic(p) {
				return
			}
		}
		// A file that cannot be read or an import that cannot be resolved has no place.
		for p := range w.Touches(c.S.absEntries(cm)...) {
			if c.S.File(p) == nil || w.Fails[p] != "" && w.Fails[p] != "parse" {
				return
			}
			for _, it := range w.Items(p) {
				if it.Kind == "import" && w.Target(p, it.Item) == "" {
					return
				}
			}
		}
		want = append(want, w.Locs(cm))
	}
	c.Each(func(h *History) {
		for i, r := range h.Runs {
			if len(r.Diags) > 0 {
				c.probe("with_diagnostics")
			}
			for _, d := range r.Diags {
				if d.Broken != "" {
					c.Fail("render", "rendering a diagnostic failed: %s", d.Broken)
				}
				if d.Again != "" {
					c.Fail("render", "a diagnostic delivered as %q: %s", d.Text, d.Again)
				}
				ok := false
				for k := range want[i] {
					ok = ok || want[i][k].shownIn(d.Text)
				}
				if !ok {
					c.Fail("place", "a diagnostic does not point at any offending place: %q; these are: %+v", d.Text, want[i])
				}
			}
			for k := range want[i] {
				ok := want[i][k].Alt
				for _, d := range r.Diags {
					ok = ok || want[i][k].shownIn(d.Text)
				}
				if !ok {
					c.Fail("place", "no diagnostic points at %+v; diagnostics: %q", want[i][k], r.DiagKeys())
				}
			}
		}
	})
}

var _ = filepath.Join
