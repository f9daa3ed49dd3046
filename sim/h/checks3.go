package h

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/evanw/esbuild/pkg/api"

	"verifsim/simfs"
	"verifsim/simrt"
)

// ---- C11 ----

func init() {
	register(&Check{ID: "C11", Race: true, Quick: 25000, Thorough: 600000, Gen: genC11, Judge: judgeC11,
		Rule: "the scenarios of the other checks (single and concurrent compilations, shared resolvers and reporters, default reporter, bundler loads, files replaced while running), with a reporter that is not safe for concurrent use, executed under a happens-before race detector that only sees the code's own synchronisation; every reported race and every concurrent map access is a violation"})
}

func genC11(r *simrt.RNG, tier string) *Scenario {
	for {
		var s *Scenario
		switch r.N(9) {
		case 0:
			s = genC01(r, tier)
		case 1:
			s = genC09(r, tier)
		case 2, 3:
			s = genC10(r, tier)
		case 4:
			s = genC08(r, tier)
		case 5:
			s = genC15(r, tier)
		case 6:
			s = genC16(r, tier)
		case 7:
			s = genC18(r, tier)
		default:
			s = genC12(r, tier)
		}
		s.Runs = 3
		passOn(r, s, 0.3)
		return s
	}
}

// passOn has diagnostics rendered by other goroutines.
func passOn(r *simrt.RNG, s *Scenario, p float64) {
	if r.P(p) {
		for i := range s.Compiles {
			s.Compiles[i].Reporter.Pass = true
		}
	}
}

func judgeC11(c *Ctx) {
	races := func(h *History) {
		if n := simrt.RaceErrors() - c.raceBase; n > 0 {
			c.raceBase += n
			c.Fail("race", "%d unsynchronised accesses to shared memory in this run (details on standard error)", n)
		}
	}
	c.Each(func(h *History) {
		races(h)
		if h.Out.Tasks > 2 {
			c.probe("concurrent")
		}
	})
}

// ---- C13 ----

func init() {
	register(&Check{ID: "C13", Quick: 60000, Thorough: 3000000, Gen: genC13, Judge: judgeC13,
		Rule: "random projects (shared and repeated imports, cycles, every import mode, CRLF, comments, multi-line and non-ASCII text, unusual paths) under every scheduling strategy; the embedded map of every output is decoded, its source text compared with the bytes the simulated disk returned, and the position of each of the file's own top-level rules in the output looked up in it"})
}

func genC13(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 4}
	g := &gen{r: r, o: GenOpts{Links: true, MaxFiles: 5, MaxItems: 5, Cycles: r.P(0.2), Missing: 0.1, Bad: 0.05, Diags: 0.05, Conds: 0.1, Vars: true, FreeVars: true, DupImport: 0.25, Unicode: true, Weird: r.P(0.3), Raws: true}}
	if g.o.Cycles {
		g.o.MaxFiles, g.o.Density = 4, 0.35
	}
	paths := g.project(s)
	cm := Compile{Entries: pickEntries(r, s, paths, 4, true), T: genTransforms(r, r.N(3))}
	if r.N(3000) == 0 {
		bulk(r, s)
	}
	slowness(r, s, &cm)
	s.Compiles = []Compile{cm}
	if r.P(0.15) {
		s.Compiles = append(s.Compiles, cm)
	}
	return s
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

type segment struct{ genCol, src, line, col int }

// decode decodes the mappings of a source map: segments by generated line.
func decode(m string) ([][]segment, error) {
	var out [][]segment
	src, line, col := 0, 0, 0
	for _, l := range strings.Split(m, ";") {
		var segs []segment
		gen := 0
		if l != "" {
			for _, sg := range strings.Split(l, ",") {
				var vals []int
				v, shift := 0, uint(0)
				for i := 0; i < len(sg); i++ {
					d := strings.IndexByte(b64, sg[i])
					if d < 0 {
						return nil, fmt.Errorf("segment %q", sg)
					}
					v += (d & 31) << shift
					shift += 5
					if d&32 == 0 {
						if v&1 == 1 {
							vals = append(vals, -(v >> 1))
						} else {
							vals = append(vals, v>>1)
						}
						v, shift = 0, 0
					} else if i == len(sg)-1 || shift > 40 {
						return nil, fmt.Errorf("segment %q", sg)
					}
				}
				switch len(vals) {
				case 1:
					gen += vals[0]
					continue
				case 4, 5:
				default:
					return nil, fmt.Errorf("segment %q has %d fields", sg, len(vals))
				}
				gen += vals[0]
				src += vals[1]
				line += vals[2]
				col += vals[3]
				segs = append(segs, segment{gen, src, line, col})
			}
		}
		out = append(out, segs)
	}
	return out, nil
}

// blankCRs replaces carriage returns that do not belong to a line feed.
func blankCRs(text string) string {
	b := []byte(text)
	for i := range b {
		if b[i] == '\r' && (i+1 == len(b) || b[i+1] != '\n') {
			b[i] = ' '
		}
	}
	return string(b)
}

// lineCols gives the 0-based line of an offset and its column in bytes, runes and UTF-16 units.
func lineCols(text string, off int) (int, []int) {
	line, st := lineOf(text, off)
	b := text[st:off]
	return line, []int{len(b), utf8.RuneCountInString(b), len(utf16.Encode([]rune(b)))}
}

func has(cols []int, c int) bool {
	for _, x := range cols {
		if x == c {
			return true
		}
	}
	return false
}

func judgeC13(c *Ctx) {
	c.Ref(c.S)
	c.Each(func(h *History) {
		for i, r := range h.Runs {
			cm := &c.S.Compiles[i]
			w := NewWorld(c.S, cm)
			for _, p := range sortedKeys(r.Files) {
				c.checkMap(w, cm, h, i, p, r.Files[p])
			}
		}
	})
}

func (c *Ctx) checkMap(w *World, cm *Compile, h *History, run int, p, text string) {
	out := ParseOutput(text)
	if out.MapErr != "" {
		c.Fail("map", "output %s: %s", p, out.MapErr)
	}
	if out.Map.Version != 3 {
		c.Fail("map", "output %s: source map version %d", p, out.Map.Version)
	}
	if len(out.Map.Sources) != len(out.Map.SourcesContent) {
		c.Fail("map", "output %s: %d sources, %d source texts", p, len(out.Map.Sources), len(out.Map.SourcesContent))
	}
	// The text that was read for the file.
	src := -1
	var own string
	for _, rd := range h.FS.Reads {
		if f := c.S.File(p); rd.Path != p && (f == nil || f.Link != rd.Path) || rd.Err != "" || rd.Label != label(run) {
			continue
		}
		for k, t := range out.Map.SourcesContent {
			if t == rd.Text {
				src, own = k, t
			}
		}
	}
	if src < 0 {
		c.Fail("content", "output %s: no embedded source text is what was read from the file; embedded: %.300q", p, out.Map.SourcesContent)
	}
	segs, err := decode(out.Map.Mappings)
	if err != nil {
		c.Fail("map", "output %s: mappings: %v", p, err)
	}
	if own == "" {
		return
	}
	pos := map[string]int{}
	times := map[string]int{}
	for _, ch := range out.Chunks {
		for _, t := range ch.Toks {
			if t.Kind == "m" {
				times[t.Name]++
				if _, ok := pos[t.Name]; !ok {
					pos[t.Name] = ch.Start
				}
			}
		}
	}
	for _, it := range w.Items(p) {
		at, ok := pos[it.Marker]
		if it.Marker == "" || !ok || times[it.Marker] != 1 {
			continue
		}
		gl, gcs := lineCols(out.Body, at)
		ol, ocs := lineCols(own, it.Start)
		found := false
		var near []segment
		look := func(line int, cols []int) {
			if line >= len(segs) {
				return
			}
			for _, s := range segs[line] {
				if has(cols, s.genCol) {
					near = append(near, s)
					found = found || (s.src == src && s.line == ol && has(ocs, s.col))
				}
			}
		}
		look(gl, gcs)
		if other := blankCRs(out.Body); !found && other != out.Body {
			// Consumers of source maps disagree on whether this is the end of a line.
			look(lineCols(other, at))
		}
		if !found && gl >= len(segs) {
			c.Fail("mapping", "output %s: %s starts on line %d of the output, the map has %d lines", p, it.Marker, gl+1, len(segs))
		}
		if !found {
			c.Fail("mapping", "output %s: %s starts at line %d column %v of the output (0-based) and at line %d column %v of the file, but the map says %+v", p, it.Marker, gl, gcs, ol, ocs, near)
		}
		c.probe("rule_mapped")
	}
}

// ---- C14 ----

func init() {
	register(&Check{ID: "C14", Quick: 200000, Thorough: 6000000, Gen: genC14, Judge: judgeC14,
		Rule: "random directory trees (files, directories, package.json of every kind, node_modules at any level, symbolic links, dangling and circular ones), importing directories, base URLs and specifiers, with stat, read and getwd calls failing at drawn points, up to three questions at once; without faults the answer has to be that of an independent implementation of the documented order, with faults an error or the answer for some way of losing what failed"})
}

func genC14(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 2, Cwd: []string{"/p", "/", "/p/src"}[r.N(3)], Links: map[string]string{}, Budget: 500000}
	names := []string{"a", "b", "c"}
	dirs := []string{"/"}
	for n := 2 + r.N(6); n > 0; n-- {
		d := filepath.Join(dirs[r.N(len(dirs))], []string{"p", "src", "a", "b", "c", "a.css", "node_modules", "node_modules", "node_modules/a", "node_modules/b", "node_modules/@x/a", "c/node_modules", ".git", "bower_components/a"}[r.N(14)])
		if strings.Count(d, "/") > 8 {
			continue
		}
		dirs = append(dirs, d)
		s.Dirs = append(s.Dirs, d)
	}
	isDir := map[string]bool{"/": true}
	for _, d := range append(append([]string{}, s.Dirs...), s.Cwd) {
		for ; d != "/"; d = filepath.Dir(d) {
			isDir[d] = true
		}
	}
	put := func(p, text string) {
		for d := filepath.Dir(p); d != "/"; d = filepath.Dir(d) {
			if s.File(d) != nil || s.Links[d] != "" {
				return
			}
		}
		if isDir[p] || s.File(p) != nil || s.Links[p] != "" {
			return
		}
		s.Files = append(s.Files, FileSpec{Path: p, Raw: text})
	}
	for n := r.N(9); n > 0; n-- {
		d := dirs[r.N(len(dirs))]
		switch r.N(7) {
		case 0, 1:
			style := []string{"index.css", "a.css", "a", "./b.css", "sub/a.css", "../a.css", "/a.css", "c", "", "none.css", " a.css", "a.css ", ".", "..", "sub/../a.css", "a.css/", "A.css", "sub//a.css", "./"}[r.N(19)]
			text := []string{`{"style":` + quote(style) + `}`, `{"name":"x","style":` + quote(style) + `,"main":"b.css"}`, `{"main":"a.css"}`, `{"style":12}`, `not json`, `[]`, `null`, ` `, `{"style":null}`, `{"style":["a.css"]}`, "{\n  \"version\": \"1.0\",\n  \"style\": " + quote(style) + ",\n  \"files\": [{\"style\": \"b.css\"}]\n}\n", `{"style":"none.css","style":` + quote(style) + `}`}[r.N(12)]
			if r.P(0.5) {
				text = `{"style":` + quote(style) + `}`
			}
			put(filepath.Join(d, "package.json"), text)
		case 2:
			put(filepath.Join(d, "index.css"), "a{}")
		case 3:
			put(filepath.Join(d, names[r.N(3)]), "a{}")
		default:
			put(filepath.Join(d, names[r.N(3)]+".css"), "a{}")
		}
	}
	if r.P(0.25) {
		from := filepath.Join(dirs[r.N(len(dirs))], []string{"a", "b", "c", "a.css", "node_modules", "l"}[r.N(6)])
		if !isDir[from] && s.File(from) == nil {
			to := dirs[r.N(len(dirs))]
			if r.P(0.5) && len(s.Files) > 0 {
				to = s.Files[r.N(len(s.Files))].Path
			}
			switch r.N(6) {
			case 0:
				to = from
			case 1:
				to = "gone"
			}
			s.Links[from] = to
		}
	}
	spec := func() string {
		n := names[r.N(3)]
		bare := []string{n, n + ".css", n + "/" + names[r.N(3)], n + "/index.css", "@x/a", "@x/" + n + ".css", n + "/../" + names[r.N(3)], "l", n + "/", "x y", "package.json"}[r.N(11)]
		switch r.N(5) {
		case 0, 1:
			return bare
		case 2:
			return "../" + bare
		case 3:
			return "./../" + bare
		}
		return "./" + bare
	}
	for n := 1 + r.N(3); n > 0; n-- {
		q := Query{Spec: spec(), Dir: dirs[r.N(len(dirs))]}
		if r.P(0.2) {
			q.Dir = filepath.Join(q.Dir, "not/there")
		}
		if r.P(0.15) {
			q.Dir = []string{".", "src", "..", "./a/b", "a", ""}[r.N(6)]
		}
		if r.P(0.35) {
			q.Base = []string{dirs[r.N(len(dirs))], "src", ".", "./a", "/nope", "/p/"}[r.N(6)]
		}
		s.Queries = append(s.Queries, q)
	}
	s.Shared = r.P(0.5)
	if r.P(0.25) {
		// The same questions again, after changes.
		for round, n := 1, 1+r.N(3); round <= n; round++ {
			for k := 1 + r.N(3); k > 0; k-- {
				e := Edit{Round: round, Path: filepath.Join(dirs[r.N(len(dirs))], []string{"package.json", "index.css", "a", "a.css", "b.css", "b", "c.css"}[r.N(7)]), Text: "a{}", Gone: r.P(0.3)}
				if len(s.Files) > 0 && r.P(0.6) {
					e.Path = s.Files[r.N(len(s.Files))].Path
				}
				if filepath.Base(e.Path) == "package.json" {
					e.Text = `{"style":` + quote([]string{"index.css", "a.css", "b.css", "c.css", "c", ""}[r.N(6)]) + `}`
				}
				if !isDir[e.Path] {
					s.Edits = append(s.Edits, e)
				}
			}
			for _, q := range s.Queries {
				if q.Round == round-1 {
					q.Round = round
					s.Queries = append(s.Queries, q)
				}
			}
		}
	} else if r.P(0.6) {
		for n := 1 + r.N(2); n > 0; n-- {
			ft := simfs.Fault{Op: []string{"stat", "stat", "stat", "read", "read", "getwd"}[r.N(6)], Kind: readErrs[r.N(len(readErrs))]}
			switch r.N(3) {
			case 0:
				ft.Nth = 1 + r.N(6)
			case 1:
				if len(s.Files) > 0 {
					ft.Path = s.Files[r.N(len(s.Files))].Path
				}
			default:
				ft.Path = filepath.Join(dirs[r.N(len(dirs))], []string{"package.json", "index.css", "a", "a.css", "b.css", "b"}[r.N(6)])
			}
			if ft.Op == "read" && r.P(0.4) {
				ft.Kind, ft.N = []string{"torn", "midread", "flip"}[r.N(3)], r.N(20)
			}
			if ft.Op == "getwd" {
				ft.Path = ""
			}
			s.Faults = append(s.Faults, ft)
		}
	}
	return s
}

func quote(s string) string { b, _ := json.Marshal(s); return string(b) }

// lookup is the documented resolution order, written from the documentation.
type lookup struct {
	fs *simfs.FS
	// lost tells what cannot be seen because a call about it failed: paths whose stat
	// failed, package.json files whose content could not be read.
	noStat map[string]bool
	noPkg  map[string]bool
	// bad: an unreadable package.json makes the directory unusable, instead of being ignored
	strict bool
	// quit: calls after whose failure the place is left out as a whole
	quit map[string]bool
	hit  bool
}

func (l *lookup) kind(p string) string {
	if l.noStat[l.fs.Abs(p)] {
		l.hit = l.hit || l.quit["stat "+l.fs.Abs(p)]
		return ""
	}
	return l.fs.KindOf(p)
}

func (l *lookup) file(p string) bool { return l.kind(p) == "file" }

func (l *lookup) asPath(p string) string {
	l.hit = false
	got := l.at(p)
	if l.hit {
		return ""
	}
	return got
}

func (l *lookup) at(p string) string {
	if l.file(p) {
		return p
	}
	if l.file(p + ".css") {
		return p + ".css"
	}
	if l.kind(p) != "dir" {
		return ""
	}
	pkg := filepath.Join(p, "package.json")
	text, ok := l.fs.Content(pkg)
	if l.noPkg[l.fs.Abs(pkg)] {
		if l.strict {
			return ""
		}
		ok = false
	}
	if ok {
		var v struct {
			Style string `json:"style"`
		}
		if json.Unmarshal([]byte(text), &v) != nil || v.Style == "" {
			return ""
		}
		if e := filepath.Join(p, v.Style); l.file(e) {
			return e
		}
		return ""
	}
	if e := filepath.Join(p, "index.css"); l.file(e) {
		return e
	}
	return ""
}

func (l *lookup) resolve(q Query) string {
	dir := q.Dir
	if !strings.HasPrefix(dir, "/") {
		dir = l.fs.Abs(dir)
	}
	if strings.HasPrefix(q.Spec, "./") || strings.HasPrefix(q.Spec, "../") {
		return l.asPath(filepath.Join(dir, q.Spec))
	}
	if q.Base != "" {
		if p := l.asPath(filepath.Join(l.fs.Abs(q.Base), q.Spec)); p != "" {
			return p
		}
	}
	for {
		if p := l.asPath(filepath.Join(dir, "node_modules", q.Spec)); p != "" {
			return p
		}
		if dir == "/" {
			return ""
		}
		dir = filepath.Dir(dir)
	}
}

func judgeC14(c *Ctx) {
	c.Each(func(h *History) {
		if open := h.FS.Unclosed(); len(open) > 0 {
			c.Fail("open", "after all lookups files are still open: %q", open)
		}
		fs := h.FS
		round := 0
		if len(c.S.Edits) > 0 {
			fs = c.S.FS()
			fs.Failed, fs.Fired = h.FS.Failed, h.FS.Fired
			c.probe("with_changes")
		}
		faulty := len(fs.Failed) > 0
		for _, n := range fs.Fired {
			faulty = faulty || n > 0
		}
		for i, q := range c.S.Queries {
			for round < q.Round {
				round++
				c.S.edit(fs, round)
			}
			ans := h.Ans[i]
			if ans == "" {
				c.Fail("none", "%+v was not answered", q)
			}
			got, ok := "", strings.HasPrefix(ans, "ok ")
			if ok {
				got = strings.TrimPrefix(ans, "ok ")
				if got == "" {
					c.Fail("empty", "%+v: success with an empty path", q)
				}
				got = fs.Abs(got)
				if fs.KindOf(got) != "file" {
					c.Fail("kind", "%+v: success with %s, which is no regular file", q, got)
				}
				c.probe("resolved")
			}
			if !faulty {
				want := (&lookup{fs: fs}).resolve(q)
				if want != "" {
					want = fs.Abs(want)
				}
				if got != want {
					c.Fail("order", "%+v: the answer is %q, by the documented order it is %q (%s)", q, got, want, ans)
				}
				continue
			}
			c.probe("with_faults")
			if !ok {
				continue
			}
			// An error is fine. A file has to be the one found when what failed, or a
			// part of it, is not there.
			acceptable := map[string]bool{}
			var lost []string
			isPkg := map[string]bool{}
			for _, e := range fs.Failed {
				lost = append(lost, e)
				if strings.HasPrefix(e, "read ") {
					isPkg[e] = true
				}
			}
			sort.Strings(lost)
			var uniq []string
			for k, e := range lost {
				if k == 0 || e != lost[k-1] {
					uniq = append(uniq, e)
				}
			}
			if len(uniq) > 6 {
				continue
			}
			sets := 1
			for range uniq {
				sets *= 3
			}
			for set := 0; set < sets; set++ {
				for _, strict := range []bool{false, true} {
					l := &lookup{fs: fs, noStat: map[string]bool{}, noPkg: map[string]bool{}, quit: map[string]bool{}, strict: strict}
					rest := set
					for _, e := range uniq {
						how := rest % 3
						rest /= 3
						if how == 0 {
							continue
						}
						l.quit[e] = how == 2
						if isPkg[e] {
							l.noPkg[strings.TrimPrefix(e, "read ")] = true
						} else {
							l.noStat[strings.TrimPrefix(e, "stat ")] = true
						}
					}
					if p := l.resolve(q); p != "" {
						acceptable[fs.Abs(p)] = true
					}
				}
			}
			if !acceptable[got] {
				c.Fail("fault", "%+v: with failing calls %v the answer is %s, which is not what is found without what failed", q, uniq, got)
			}
		}
	})
}

// ---- C15 ----

func init() {
	register(&Check{ID: "C15", Quick: 60000, Thorough: 3000000, Gen: genC15, Judge: judgeC15,
		Rule: "1-4 loads (at the same time, by one or several plugin instances) of random projects with and without failures; each load has to return what compiling the file directly gives, or every diagnostic of that compilation exactly once, with the place of the offending text"})
}

func genC15(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 4}
	g := &gen{r: r, o: GenOpts{MaxFiles: 5, MaxItems: 3, Missing: 0.12, Bad: 0.1, Diags: 0.15, Conds: 0.1, Vars: true, FreeVars: r.P(0.3), DupImport: 0.2, Unicode: true, Nested: r.P(0.3)}}
	if r.P(0.5) {
		g.o.Missing, g.o.Bad, g.o.Diags, g.o.Conds = 0.03, 0.03, 0.03, 0.02
	}
	paths := g.project(s)
	if r.P(0.2) {
		breakFiles(r, s, 0.25)
	}
	t := genTransforms(r, []int{0, 1, 2, 2}[r.N(4)])
	res := ResolverSpec{}
	if r.P(0.2) {
		cm := Compile{}
		breakResolver(r, s, &cm, 0.15)
		res = cm.Resolver
	} else if r.P(0.3) {
		res = ResolverSpec{Kind: "node", Delay: r.N(6)}
	}
	for k := 1 + r.N(4); k > 0; k-- {
		p := paths[r.N(len(paths))]
		if r.P(0.05) {
			p = "/p/absent.css"
		}
		cm := Compile{Entries: []string{p}, T: t, Resolver: res, Plugin: 1}
		if r.P(0.15) {
			cm.Plugin = 2
		}
		s.Compiles = append(s.Compiles, cm)
	}
	if r.P(0.07) {
		for i := range s.Compiles {
			s.Compiles[i].Reporter.Kind = "option"
		}
	}
	if r.P(0.25) {
		// A bundler that watches: load, change, load again.
		k := 1 + r.N(3)
		if r.P(0.05) {
			k = 5 + r.N(25)
			s.Runs = 1
		}
		for i := range s.Compiles {
			s.Compiles[i].After = i
		}
		for ; k > 0; k-- {
			cm := s.Compiles[r.N(len(s.Compiles))]
			if r.P(0.2) {
				cm.Entries = []string{paths[r.N(len(paths))]}
			}
			cm.After = len(s.Compiles)
			if r.P(0.7) {
				p := paths[r.N(len(paths))]
				if r.P(0.4) {
					p = cm.Entries[0]
				}
				if f := s.File(p); f != nil && f.Err == "" && !s.linked(p) {
					g.raws = g.o.Raws && f.EOL != "\r"
					v := FileV{Items: []Item{g.rule(), g.item()}}
					v.Items[1].Sep = "\n"
					if r.P(0.15) {
						v = FileV{Err: "EACCES"}
					}
					f.Versions = append(f.Versions, v)
					s.Writers = append(s.Writers, Writer{Path: p, After: cm.After, To: len(f.Versions)})
				}
			}
			s.Compiles = append(s.Compiles, cm)
		}
	}
	return s
}

func judgeC15(c *Ctx) {
	type ref struct {
		run  *CompileRun
		locs []Loc
	}
	refs := make([]ref, len(c.S.Compiles))
	at := map[string]outcome{} // which version of each file the loads see
	first := map[int]*Compile{}
	for i := range c.S.Compiles {
		cm := &c.S.Compiles[i]
		if len(c.S.Writers) > 0 && cm.After != i {
			return // not a sequence of loads: nothing says which version each of them sees
		}
		if first[cm.Plugin] == nil {
			first[cm.Plugin] = cm
		}
		eff := *first[cm.Plugin] // the options are the plugin instance's
		eff.Entries = cm.Entries
		eff.Plugin, eff.After = 0, 0
		for _, w := range c.S.Writers {
			if w.After > 0 && w.After == cm.After {
				at[w.Path] = outcome{ver: w.To}
			}
		}
		n := c.S.frozen(&eff, at)
		w := NewWorld(n, &eff)
		refs[i] = ref{c.Ref(n).Runs[0], w.Locs(&eff)}
	}
	c.Each(func(h *History) {
		for i := range c.S.Compiles {
			r, want := h.Runs[i], refs[i]
			path := c.S.Abs(c.S.Compiles[i].Entries[0])
			if r.Load == nil {
				c.Fail("load", "the load of %s gave nothing", path)
			}
			var texts []string
			for _, m := range r.Load.Errors {
				texts = append(texts, Key(m.Text))
			}
			for _, m := range r.Load.Warnings {
				texts = append(texts, Key(m.Text))
			}
			sort.Strings(texts)
			keys := want.run.DiagKeys()
			if first[c.S.Compiles[i].Plugin].Reporter.Kind == "option" {
				keys, texts = nil, nil // somebody else gets them
			}
			if d := diffStrings(keys, texts); d != "" && !(len(keys) == 0 && r.LoadErr != "" && len(texts) == 0) {
				c.Fail("messages", "the messages of the load of %s are not the diagnostics of its compilation: %s", path, d)
			}
			if r.Load.Contents != nil && r.Load.Loader != api.LoaderCSS && r.Load.Loader != api.LoaderDefault {
				c.Fail("loader", "the contents for %s are not said to be a style sheet (loader %d)", path, r.Load.Loader)
			}
			errs := len(r.Load.Errors) > 0 || r.LoadErr != ""
			if errs && r.Load.Contents != nil {
				c.Fail("both", "the load of %s has contents and errors", path)
			}
			if !errs {
				if r.Load.Contents == nil {
					c.Fail("neither", "the load of %s has neither contents nor errors", path)
				}
				exp, ok := want.run.Files[path]
				if !ok {
					c.Fail("contents", "the load of %s has contents, compiling it has no output", path)
				}
				if *r.Load.Contents != exp {
					c.Fail("contents", "the contents for %s are not its output: %s", path, firstDiff(exp, *r.Load.Contents))
				}
				c.probe("contents")
				continue
			}
			if len(want.run.Diags) == 0 {
				if _, ok := want.run.Files[path]; ok {
					c.Fail("spurious", "compiling %s has no diagnostics, the load fails: %s", path, r.LoadErr)
				}
			}
			c.probe("errors")
			for _, m := range append(r.Load.Errors[:len(r.Load.Errors):len(r.Load.Errors)], r.Load.Warnings...) {
				var at []Loc
				for _, l := range want.locs {
					if l.shownIn(m.Text) {
						at = append(at, l)
					}
				}
				if len(at) == 0 {
					continue
				}
				if m.Location == nil {
					c.Fail("location", "a message about %+v carries no location: %q", at[0], m.Text)
				}
				ok := false
				for _, l := range at {
					if m.Location.File != l.Path || m.Location.Line != l.Line || strings.TrimSuffix(m.Location.LineText, "\r") != l.Text {
						continue
					}
					for _, col := range l.Cols {
						ok = ok || m.Location.Column == col-1
					}
				}
				if !ok {
					c.Fail("location", "a message about %+v carries location %+v", at, *m.Location)
				}
				c.probe("located_message")
			}
		}
	})
}

// ---- C16 ----

func init() {
	register(&Check{ID: "C16", Quick: 60000, Thorough: 3000000, Gen: genC16, Judge: judgeC16,
		Rule: "1-4 concurrent compilations with many diagnostics and the default reporter, while another task writes to standard error too; the simulated standard error records every write; its content has to be made of whole diagnostics, each exactly once and followed by a newline. With standard error failing, full or accepting only part of a write, outputs have to stay the same and the compilation has to return"})
}

func genC16(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 5}
	g := &gen{r: r, o: GenOpts{MaxFiles: 5, MaxItems: 4, Missing: 0.35, Bad: 0.2, Diags: 0.3, Conds: 0.2, Vars: true, DupImport: 0.15}}
	paths := g.project(s)
	if r.P(0.3) {
		breakFiles(r, s, 0.3)
	}
	for k := 1 + r.N(4); k > 0; k-- {
		cm := Compile{Entries: pickEntries(r, s, paths, 4, true), T: genTransforms(r, r.N(3)), Reporter: ReporterSpec{Kind: "default"}}
		if r.P(0.7) {
			cm.T.Vars, cm.T.Calc = 1, 1
		}
		if r.P(0.3) {
			cm.Entries = append(cm.Entries, "absent.css")
		}
		s.Compiles = append(s.Compiles, cm)
	}
	if r.P(0.5) {
		s.Noise = 1 + r.N(6)
	}
	if r.P(0.3) {
		ft := simfs.Fault{Op: "stderr", Kind: []string{"EIO", "EPIPE", "ENOSPC", "short", "short"}[r.N(5)], N: r.N(20)}
		if r.P(0.6) {
			ft.Nth = 1 + r.N(5)
		}
		s.Faults = append(s.Faults, ft)
	}
	return s
}

func judgeC16(c *Ctx) {
	var want []*CompileRun
	for i := range c.S.Compiles {
		cm := c.S.Compiles[i]
		cm.Reporter.Kind = ""
		want = append(want, c.Ref(c.S.frozen(&cm, nil)).Runs[0])
	}
	c.Each(func(h *History) {
		for i, r := range h.Runs {
			for _, k := range sortedKeys(want[i].Files) {
				if r.Files[k] != want[i].Files[k] {
					c.Fail("output", "the output for %s differs from that of a compilation with a recording reporter", k)
				}
			}
			if len(r.Files) != len(want[i].Files) {
				c.Fail("output", "compilation %d has %d outputs, with a recording reporter %d", i+1, len(r.Files), len(want[i].Files))
			}
		}
		for _, n := range h.FS.Fired {
			if n > 0 {
				c.probe("standard_error_failed")
				return
			}
		}
		left := map[int]map[string]int{}
		for i := range want {
			left[label(i)] = map[string]int{}
			for _, k := range want[i].DiagKeys() {
				left[label(i)][k]++
			}
		}
		// Writes of one goroutine that nothing else came between are one piece.
		for k := 0; k < len(h.FS.Stderrs); k++ {
			w := h.FS.Stderrs[k]
			if w.Label < 1 {
				continue
			}
			piece := w.Text
			take := func() bool {
				if !strings.HasSuffix(piece, "\n") {
					return false
				}
				// The newline at the end of a diagnostic's text may be the one after it.
				for _, key := range []string{Key(strings.TrimSuffix(piece, "\n")), Key(piece)} {
					if left[w.Label][key] > 0 {
						left[w.Label][key]--
						return true
					}
				}
				return false
			}
			ok := take()
			for !ok && k+1 < len(h.FS.Stderrs) && h.FS.Stderrs[k+1].Task == w.Task {
				k++
				piece += h.FS.Stderrs[k].Text
				ok = take()
			}
			if k+1 < len(h.FS.Stderrs) && h.FS.Stderrs[k+1].Task == w.Task && h.FS.Stderrs[k+1].Text == "\n" && strings.HasSuffix(piece, "\n") {
				k++
			}
			if !ok {
				c.Fail("piece", "standard error received %q in one piece, which is not one whole diagnostic (or one too many)", piece)
			}
			c.probe("diagnostic_written")
		}
		for l, m := range left {
			for k, n := range m {
				if n > 0 {
					c.Fail("lost", "compilation %d: %d diagnostics were not written to standard error: %q", l, n, k)
				}
			}
		}
	})
}

// ---- C17 ----

func init() {
	register(&Check{ID: "C17", Quick: 60000, Thorough: 3000000, Gen: genC17, Judge: judgeC17,
		Rule: "random projects with failures, slow resolvers and slow reporters; when the compilation returns, no goroutine it started may be left, and until the simulation ends nothing of it may use the file system, the resolver or the reporter or change the result"})
}

func genC17(r *simrt.RNG, tier string) *Scenario {
	s := &Scenario{Runs: 5}
	g := &gen{r: r, o: GenOpts{MaxFiles: 7, MaxItems: 3, Cycles: r.P(0.2), Missing: 0.25, Bad: 0.2, Diags: 0.15, Conds: 0.1, Vars: true, DupImport: 0.3, BareSpecs: true}}
	if g.o.Cycles {
		g.o.MaxFiles, g.o.Density = 4, 0.35
	}
	paths := g.project(s)
	nc := 1
	if r.P(0.2) {
		nc = 2
	}
	for k := 0; k < nc; k++ {
		cm := Compile{Entries: pickEntries(r, s, paths, 5, true), T: genTransforms(r, r.N(3))}
		if r.P(0.3) {
			cm.Entries = append(cm.Entries, "absent.css")
		}
		if r.P(0.2) {
			breakResolver(r, s, &cm, 0.3)
		}
		slowness(r, s, &cm)
		if r.P(0.3) {
			if cm.Resolver.Kind == "" {
				cm.Resolver.Kind = "node"
			}
			cm.Resolver.Delay = 4 + r.N(30)
			cm.Resolver.Sleep = duration(r)
		}
		s.Compiles = append(s.Compiles, cm)
	}
	if r.P(0.4) {
		breakFiles(r, s, 0.3)
	}
	if r.P(0.1) {
		for i := range s.Compiles {
			s.Compiles[i].Plugin = i + 1
			s.Compiles[i].Entries = s.Compiles[i].Entries[:1]
		}
	}
	return s
}

func judgeC17(c *Ctx) {
	c.Each(func(h *History) {
		for i, r := range h.Runs {
			// A goroutine that has reported that it is done may still have its last
			// statements (of deferred calls) to execute.
			for _, l := range r.Live {
				n, waited := l.Since()
				if waited {
					c.Fail("live", "after compilation %d had returned a goroutine it had started was still waiting for something", i+1)
				}
				if n > 60 {
					c.Fail("live", "after compilation %d had returned a goroutine it had started executed another %d statements", i+1, n)
				}
			}
			if len(r.Open) > 0 {
				c.Fail("open", "when compilation %d returned, files it had opened were not closed: %q", i+1, r.Open)
			}
			for _, cl := range r.Calls {
				if cl.Late {
					c.Fail("late", "the resolver was asked for %s after compilation %d had returned", cl.Spec, i+1)
				}
			}
			for _, d := range r.Diags {
				if d.Late {
					c.Fail("late", "a diagnostic was delivered after compilation %d had returned: %q", i+1, Key(d.Text))
				}
			}
			if len(r.Files) != len(r.AtReturn) {
				c.Fail("changed", "the result of compilation %d had %d files when it returned and has %d now", i+1, len(r.AtReturn), len(r.Files))
			}
			for k, v := range r.AtReturn {
				if r.Files[k] != v {
					c.Fail("changed", "the result of compilation %d for %s changed after it had returned", i+1, k)
				}
			}
			if len(r.Diags) > 0 {
				c.probe("with_diagnostics")
			}
		}
		if len(h.FS.Lates) > 0 {
			c.Fail("late", "%s", h.FS.Lates[0])
		}
		if h.Out.Tasks > 3 {
			c.probe("several_goroutines")
		}
	})
}

// ---- C18 ----

func init() {
	register(&Check{ID: "C18", Quick: 60000, Thorough: 3000000, Gen: genC18, Judge: judgeC18,
		Rule: "random projects with arbitrary specifiers and a scripted resolver whose answers (any file of the project, in any spelling, or an error, after any delay) depend on specifier and directory; the set of questions has to be exactly the import statements of the loaded files, and the outputs those the reference model builds from the answers"})
}

func genC18(r *simrt.RNG, tier string) *Scenario {
	for {
		s := &Scenario{Runs: 4}
		g := &gen{r: r, o: GenOpts{MaxFiles: 6, MaxItems: 3, NoImports: true, Bad: 0.05, Vars: r.P(0.5)}}
		paths := g.project(s)
		specs := []string{"./a.css", "../a.css", "a", "a/b", "http://x.example/y.css?z=1", "//cdn/x.css", "/abs/x.css", ".", "..", "~pkg/x", "@scope/pkg", "x#frag", "%20", "\u00e9.css", "a b", "foo:bar", "./a", "#x", "?", "a//b", "./", " lead", "x,y", ""}
		if r.P(0.3) {
			// Specifiers that become the same if they are joined with their directories.
			specs = []string{"b", "./b", "lib/b", "./lib/b", "deep/b", "lib/deep/b", "../b", "../lib/b", "./../b"}
		}
		rs := ResolverSpec{Kind: "table", Delay: r.N(10) * r.N(2)}
		if r.P(0.2) {
			rs.Sleep = duration(r)
		}
		slowDisk(r, s)
		known := map[string]bool{}
		for i := range s.Files {
			f := &s.Files[i]
			var imps []Item
			for n := r.N(4); n > 0; n-- {
				sp := specs[r.N(len(specs))]
				it := g.importItem(sp, "")
				if r.P(0.1) && !strings.ContainsAny(sp, " ") {
					it.Text = []string{"@import url( " + sp + " );", "@import url(\t\"" + sp + "\" );", "@import\n\turl('" + sp + "')\n;", "@import/**/\"" + sp + "\";"}[r.N(4)]
					it.Diags = nil
					it.Cond = ""
				}
				imps = append(imps, it)
			}
			for k := 1; k < len(imps); k++ {
				imps[k].Sep = "\n"
			}
			if len(f.Items) > 0 && f.Items[0].Sep == "" {
				f.Items[0].Sep = "\n"
			}
			f.Items = append(imps, f.Items...)
		}
		if i, j := r.N(len(s.Files)), r.N(len(s.Files)); i != j && r.P(0.3) {
			// The same text, but the question depends on where it was found.
			s.Files[i].Link = s.Files[j].Path
			s.relink()
		}
		for i := range s.Files {
			f := &s.Files[i]
			for _, it := range f.Items {
				k := it.Spec + "\x00" + filepath.Dir(f.Path)
				if it.Kind != "import" || known[k] {
					continue
				}
				known[k] = true
				a := Answer{Spec: it.Spec, Dir: filepath.Dir(f.Path)}
				switch {
				case r.P(0.15):
					a.Err = "refused"
				case r.P(0.1):
					continue // unknown to the resolver
				default:
					a.Path = spell(r, s.Cwd, paths[r.N(len(paths))])
					if r.P(0.05) {
						a.Path = "/p/absent.css"
					}
				}
				rs.Answers = append(rs.Answers, a)
			}
		}
		cm := Compile{Entries: pickEntries(r, s, paths, 4, true), T: genTransforms(r, 1+r.N(2)), Resolver: rs}
		if r.P(0.3) {
			cm.Reporter.Delay = r.N(6)
		}
		if r.P(0.15) {
			breakFiles(r, s, 0.2)
		}
		s.Compiles = []Compile{cm}
		if r.P(0.2) {
			// Another compilation, whose resolver says other things.
			c2 := Compile{Entries: pickEntries(r, s, paths, 3, true), T: genTransforms(r, 1+r.N(2)), Resolver: rs, After: r.N(2)}
			c2.Resolver.Answers = nil
			for _, a := range rs.Answers {
				switch {
				case r.P(0.15):
					a.Path, a.Err = "", "refused"
				case r.P(0.6):
					a.Path, a.Err = spell(r, s.Cwd, paths[r.N(len(paths))]), ""
				}
				c2.Resolver.Answers = append(c2.Resolver.Answers, a)
			}
			s.Compiles = append(s.Compiles, c2)
		}
		total, ok := 0, true
		for i := range s.Compiles {
			w := NewWorld(s, &s.Compiles[i])
			for _, e := range s.absEntries(&s.Compiles[i]) {
				n := w.Paths(e, 200)
				ok = ok && n != nil
				for p, k := range n {
					if f := s.File(p); f != nil {
						t, _ := f.Text(0)
						total += k * (len(t) + 100)
					}
				}
			}
		}
		if !ok || total > 20000 {
			continue
		}
		return s
	}
}

func judgeC18(c *Ctx) {
	var worlds []*World
	var wants []map[string]bool
	for i := range c.S.Compiles {
		cm := &c.S.Compiles[i]
		w := NewWorld(c.S, cm)
		want := map[string]bool{}
		for p := range w.Touches(c.S.absEntries(cm)...) {
			for _, it := range w.Items(p) {
				if it.Kind == "import" {
					want[fmt.Sprintf("%q from %s", it.Spec, filepath.Dir(p))] = true
				}
			}
		}
		worlds, wants = append(worlds, w), append(wants, want)
	}
	if len(worlds) > 1 {
		c.probe("several_resolvers")
	}
	one := func(i int, r *CompileRun) {
		cm, w, want := &c.S.Compiles[i], worlds[i], wants[i]
		got := map[string]bool{}
		for _, cl := range r.Calls {
			k := fmt.Sprintf("%q from %s", cl.Spec, cl.Dir)
			got[k] = true
			if !want[k] {
				c.Fail("question", "the resolver was asked for %s, which no loaded file imports; imported are %q", k, setList(want))
			}
		}
		for _, k := range setList(want) {
			if !got[k] {
				c.Fail("unasked", "the resolver was not asked for %s", k)
			}
		}
		c.checkKeys(w, cm, r)
		for p := range w.Keys(cm) {
			if cm.T.Imports == 2 && w.Cyclic(p) {
				paths := w.Paths(p, 4000)
				for _, t := range ParseOutput(r.Files[p]).Toks() {
					if t.Kind != "m" {
						continue
					}
					ok := false
					for f := range paths {
						for _, it := range w.Items(f) {
							ok = ok || it.Marker == t.Name
						}
					}
					if !ok {
						c.Fail("answer", "the output for %s contains %s of a file no answer leads to", p, t.Name)
					}
				}
				continue
			}
			if wt, gt := w.Flatten(p, cm.T.Imports == 2), ParseOutput(r.Files[p]).Toks(); !sameToks(wt, gt) {
				c.Fail("answer", "by the resolver's answers the output for %s consists of %s, it is %s", p, tokStr(wt), tokStr(gt))
			}
			c.probe("output")
		}
		if len(r.Calls) > 0 {
			c.probe("asked")
		}
	}
	c.Each(func(h *History) {
		for i := range c.S.Compiles {
			one(i, h.Runs[i])
		}
	})
}
