package h

import (
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"verifsim/simrt"
)

// GenOpts says what a generated project may contain.
type GenOpts struct {
	MaxFiles  int
	Cycles    bool    // import cycles
	Missing   float64 // probability that a file has an import that cannot be resolved
	Bad       float64 // probability that a file does not parse
	Diags     float64 // probability that a rule causes a diagnostic
	Conds     float64 // probability that an import has a media condition
	Unicode   bool
	MaxItems  int
	Vars      bool
	FreeVars  bool // uses of variables defined elsewhere in the project
	Redefine  bool // the same variable or custom media defined in several files
	Weird     bool // unusual paths
	NoImports bool
	Density   float64 // probability of each possible import edge
	DupImport float64 // probability of importing the same file twice
	BareSpecs bool
	Links     bool // symbolic links to files
	Raws      bool // declarations that only parse as raw text
	Nested    bool // diagnostics inside nested, substituted and multi-line expressions
}

type gen struct {
	r       *simrt.RNG
	o       GenOpts
	seq     int
	defined []string // variables defined anywhere so far
	media   []string
	tag     string
	raws    bool
}

func (g *gen) id(prefix string) string {
	g.seq++
	return fmt.Sprintf("%s%s%dx", prefix, g.tag, g.seq)
}

var dirPool = []string{"/p", "/p/lib", "/p/lib/deep", "/p/src", "/w"}

// project generates files and returns their paths; the first is a good entry.
func (g *gen) project(s *Scenario) []string {
	r := g.r
	n := 1 + r.N(g.o.MaxFiles)
	if n == 1 && r.P(0.7) && g.o.MaxFiles > 1 {
		n = 2
	}
	s.Cwd = "/p"
	// Now and then a long chain of imports.
	chain := !g.o.NoImports && g.o.MaxFiles > 3 && r.P(0.008)
	if chain {
		n = 10 + r.N(22)
		if r.P(0.15) {
			n = 60 + r.N(90)
			if r.P(0.15) {
				n = 513 + r.N(200)
			}
		}
	}
	// Or one file that imports a great many.
	wide := !chain && !g.o.NoImports && g.o.MaxFiles > 3 && r.P(0.004)
	if wide {
		n = 15 + r.N(60)
		if r.P(0.1) {
			n = 257 + r.N(60)
			if r.P(0.25) {
				n = 513 + r.N(200)
			}
		}
	}
	var paths []string
	links := map[int]int{}
	nameOf := func(i int) string {
		base := string(rune('a' + i%26))
		if g.o.Weird && r.P(0.3) {
			base = []string{"sp ace", "q\"uote", "back\\slash", "uni\u00e9", "per%cent", "d.ot.ted", "hash#", "per.css"}[r.N(8)] + base
		}
		return base
	}
	for i := 0; i < n; i++ {
		var p string
		if chain || wide {
			paths = append(paths, fmt.Sprintf("%s/n%d.css", dirPool[r.N(len(dirPool))], i))
			continue
		}
		if i > 0 && r.P(0.03) && !strings.Contains(paths[i-1], "node_modules") {
			// A name that differs in the case of its letters only.
			o := paths[r.N(i)]
			if up := filepath.Join(filepath.Dir(o), strings.ToUpper(strings.TrimSuffix(filepath.Base(o), ".css"))+".css"); !contains(paths, up) && !strings.Contains(up, "node_modules") {
				paths = append(paths, up)
				continue
			}
		}
		if g.o.Links && i > 0 && r.P(0.05) {
			// Another name for a file that comes after it.
			if o := paths[i-1]; !strings.Contains(o, "node_modules") && !strings.Contains(o, "/ix") {
				if _, ok := links[i-2]; !ok {
					links[i-1] = i
					paths = append(paths, filepath.Join(filepath.Dir(o), fmt.Sprintf("real%d.css", i)))
					continue
				}
			}
		}
		switch k := r.N(10); {
		case g.o.BareSpecs && k == 0 && i > 0:
			pk := fmt.Sprintf("/p/node_modules/pk%d", i)
			p = pk + "/main.css"
			s.Files = append(s.Files, FileSpec{Path: pk + "/package.json", Raw: `{"name":"x","style":"main.css"}`})
		case g.o.BareSpecs && k == 1 && i > 0:
			p = fmt.Sprintf("/p/lib/ix%d/index.css", i)
		default:
			p = filepath.Join(dirPool[r.N(len(dirPool))], nameOf(i)+".css")
		}
		paths = append(paths, p)
	}
	// Edges. Without cycles file i only imports files with larger numbers.
	dens := g.o.Density
	if dens == 0 {
		dens = []float64{0.25, 0.4, 0.7}[r.N(3)]
	}
	for i := 0; i < n; i++ {
		f := FileSpec{Path: paths[i]}
		switch {
		case r.P(0.15):
			f.EOL = "\r\n"
		case r.P(0.06):
			f.EOL = "\r"
		}
		g.raws = g.o.Raws && f.EOL != "\r" // raw text goes to the output as it is
		var imps []Item
		if !g.o.NoImports {
			for j := 0; j < n; j++ {
				ok := j > i || g.o.Cycles
				d := dens
				if chain {
					if d = math.Min(0.003, 3/float64(n*n)); j == i+1 {
						d = 1
					}
				}
				if wide {
					if d = math.Min(0.01, 0.4/float64(n)); i == 0 {
						d = 0.95
					}
				}
				if !ok || !r.P(d) || strings.ContainsAny(paths[j], "\"\\") {
					continue // such a specifier would not be printed as it was written
				}
				times := 1
				if r.P(g.o.DupImport) && !chain && !wide {
					times = 2
				}
				for ; times > 0; times-- {
					imps = append(imps, g.imp(s, paths[i], paths[j]))
				}
			}
			if r.P(g.o.Missing) {
				imps = append(imps, g.missing(paths[i]))
			}
			if g.o.Missing > 0 && r.P(0.004) { // a great many of them
				for k := []int{15 + r.N(90), 15 + r.N(90), 15 + r.N(90), 257 + r.N(90)}[r.N(4)]; k > 0; k-- {
					imps = append(imps, g.missing(paths[i]))
				}
			}
		}
		for k := len(imps) - 1; k > 0; k-- {
			j := r.N(k + 1)
			imps[k], imps[j] = imps[j], imps[k]
		}
		m := r.N(g.o.MaxItems + 1)
		if m == 0 && len(imps) == 0 && r.P(0.8) {
			m = 1
		}
		var items []Item
		for k := 0; k < m; k++ {
			items = append(items, g.item())
		}
		if r.P(0.6) { // imports first, as style sheets mostly have them
			items = append(imps, items...)
		} else {
			for _, im := range imps {
				at := r.N(len(items) + 1)
				items = append(items[:at], append([]Item{im}, items[at:]...)...)
			}
		}
		if r.P(g.o.Bad) {
			at := r.N(len(items) + 1)
			items = append(items[:at], append([]Item{g.bad()}, items[at:]...)...)
		}
		for k := range items {
			if k > 0 || r.P(0.2) {
				items[k].Sep = []string{"\n", "\n\n", " ", "", "\n/* sep */\n", "\t"}[r.N(6)]
				if items[k].Sep == "" && k > 0 && items[k-1].Kind == "cmedia" {
					items[k].Sep = "\n"
				}
				switch {
				case r.P(0.01):
					items[k].Sep += []string{"<!--", "-->", ";", ";\n;"}[r.N(4)]
				case r.P(0.0004): // a great many lines
					items[k].Sep += strings.Repeat("\n", 30000+r.N(50000))
				}
			}
		}
		if len(items) > 0 && items[0].Kind == "rule" && strings.HasPrefix(items[0].Text, ".") && r.P(0.03) {
			// A byte order mark.
			items[0].Text = "\ufeff" + items[0].Text
			for k := range items[0].Diags {
				items[0].Diags[k].Off += len("\ufeff")
			}
		}
		if r.P(0.8) {
			f.Tail = "\n"
		}
		f.Items = items
		s.Files = append(s.Files, f)
	}
	for from, to := range links {
		s.File(paths[from]).Link = paths[to]
	}
	s.relink()
	return paths
}

func contains(list []string, x string) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

func (g *gen) imp(s *Scenario, from, to string) Item {
	r := g.r
	dir := filepath.Dir(from)
	rel, err := filepath.Rel(dir, to)
	if err != nil {
		panic(err)
	}
	if !strings.HasPrefix(rel, "../") {
		rel = "./" + rel
	}
	spec := rel
	switch {
	case strings.Contains(to, "/node_modules/pk") && strings.HasPrefix(from, "/p/"):
		pk := filepath.Base(filepath.Dir(to))
		spec = []string{pk, pk + "/main.css", pk + "/main"}[r.N(3)]
	case strings.Contains(to, "/lib/ix") && r.P(0.7):
		spec = strings.TrimSuffix(rel, "/index.css")
		if spec == "." || spec == "./" || spec == rel || strings.HasSuffix(spec, "..") {
			spec = rel
		}
	case r.P(0.25):
		spec = strings.TrimSuffix(rel, ".css")
	case r.P(0.15):
		spec = "./" + strings.TrimPrefix(rel, "./")
		if strings.HasPrefix(rel, "../") {
			spec = "./" + rel
		}
	}
	return g.importItem(spec, to)
}

func (g *gen) importItem(spec, to string) Item {
	r := g.r
	it := Item{Kind: "import", Spec: spec, To: to}
	q := `"`
	if r.P(0.3) || strings.Contains(spec, `"`) {
		q = `'`
	}
	form := r.N(4)
	switch {
	case form < 2 || strings.ContainsAny(spec, " '\"()\\"):
		it.Text = "@import " + q + spec + q
	case form == 2:
		it.Text = "@import url(" + spec + ")"
	default:
		it.Text = "@import url(" + q + spec + q + ")"
	}
	if r.P(0.05) {
		it.Text = strings.Replace(it.Text, "@import ", []string{"@import   ", "@import\n", "@import/* c */ ", "@import/**/"}[r.N(4)], 1)
	}
	if r.P(0.05) && form >= 2 && !strings.Contains(spec, "(") {
		it.Text = strings.Replace(strings.Replace(it.Text, "url(", "url( ", 1), ")", " )", 1)
	}
	if r.P(0.05) {
		it.Text += []string{" ", "\n", "/* c */"}[r.N(3)]
	}
	if r.P(g.o.Conds) {
		it.Cond = []string{"screen", "print", "(min-width:100px)"}[r.N(3)]
		it.Text += " " + it.Cond
		it.Diags = append(it.Diags, ItemDiag{Off: 0, Need: "inline"})
	}
	it.Text += ";"
	return it
}

func (g *gen) missing(from string) Item {
	g.seq++
	spec := []string{"./none%dx.css", "../none%dx", "none%dx", "none%dx/sub.css", "./none%dx/index.css", "http://none%dx.example/x.css", "https://none%dx.example/x", "//none%dx.example/x.css", "/none%dx.css", "~none%dx/x.css", "data:text/css,none%dx", "./none%dx.css?x=1", "none%dx.css#x"}[g.r.N(13)]
	if g.r.P(0.02) {
		it := g.importItem("empty", "")
		it.Spec, it.Text = "", strings.ReplaceAll(it.Text, "empty", "")
		return it
	}
	return g.importItem(fmt.Sprintf(spec, g.seq), "")
}

func (g *gen) bad() Item {
	r := g.r
	if r.P(0.6) {
		// The offending place comes after the mark.
		f := []string{"@import\x1f;", "@import \x1ffoo;", ".x:not(\n \x1f{ top: 0 }", "a[\x1f=b] { top: 0 }", "a[b^\x1fc] { top: 0 }", "a[b=\x1f] { top: 0 }", "@custom-media \x1f12\n (width: 1px);",
			"@custom-media --x\n\x1f;", "@keyframes \x1f12 { from { top: 0 } }", "@keyframes b { to { top: 0 }\n \x1fmiddle { top: 1px } }", ".x:nth-child(\x1ffoo) { top: 0 }", "a::\x1f1 { top: 0 }", "a:\x1f1 { top: 0 }",
			"\x1f} a { top: 0 }", "a { top: 0 }\n\x1f] b { top: 0 }", "\x1f# { top: 0 }", "a,\n \x1f{ top: 0 }", "\x1f, a { top: 0 }", "@media (\x1f5px\n) { a { top: 0 } }", "@media (\x1f5px\n: 6px) { a { top: 0 } }", "@media (width \x1f=\n 5px) { a { top: 0 } }",
			"@media (1px < width \x1f>\n 5px) { a { top: 0 } }", "@media (\x1f1px\n< 5px) { a { top: 0 } }", "@media screen\n\x1f5px { a { top: 0 } }", "@media \x1f12 { a { top: 0 } }", "@media (width\n\x1f{ a { top: 0 } }", "@keyframes \x1f{ from { top: 0 } }",
			"@keyframes x \x1ffrom { top: 0 }", "@keyframes x { from,\n\x1f{ top: 0 } }", "a[b \x1f{ top: 0 }", "a:nth-child(2n + \x1f) { top: 0 }", "@import \"./x.css\" \x1f12px;"}[r.N(32)]
		return Item{Kind: "bad", Text: strings.Replace(f, "\x1f", "", 1), Diags: []ItemDiag{{Off: strings.Index(f, "\x1f"), Need: "parse"}}}
	}
	switch r.N(6) {
	case 0:
		return Item{Kind: "bad", Text: "9px { color: red }", Diags: []ItemDiag{{Off: 0, Need: "parse"}}}
	case 1:
		return Item{Kind: "bad", Text: "@import 12;", Diags: []ItemDiag{{Off: 8, Need: "parse"}}}
	case 2:
		return Item{Kind: "bad", Text: ".bad..worse { color: red }", Diags: []ItemDiag{{Off: 5, Need: "parse"}}}
	case 3:
		return Item{Kind: "bad", Text: "@keyframes bad {\n  13 { top: 0 }\n}", Diags: []ItemDiag{{Off: 19, Need: "parse"}}}
	case 4:
		return Item{Kind: "bad", Text: "@media (min-width: 10px) {\n  .x { top: 0 }\n  5em { top: 1px }\n}", Diags: []ItemDiag{{Off: 45, Need: "parse"}}}
	default:
		return Item{Kind: "bad", Text: "a b, =c { top: 0 }", Diags: []ItemDiag{{Off: 5, Need: "parse"}}}
	}
}

func (g *gen) decl(off int) (string, []ItemDiag) {
	r := g.r
	if r.P(0.003) { // a long line
		n := []int{200, 1000, 5000, 5000, 9000}[r.N(5)]
		if r.P(0.03) {
			n = 70000
		}
		return `content: "` + strings.Repeat([]string{"x", "long "}[r.N(2)], n/5+r.N(n)) + `"`, nil
	}
	if g.raws && r.P(0.08) {
		return []string{"weird\n  stuff: x;", "filter: progid:Foo(a='b');", "weird\n\n  {stuff} ;", "color: {red};", "a b", "foo(bar)", "{}"}[r.N(7)], nil
	}
	if g.o.Nested && g.r.P(g.o.Diags*0.5) {
		switch r.N(5) {
		case 0:
			return "width: calc(1px + 2px + 3)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		case 1:
			return "width: calc(2 * 3px * 4px)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		case 2:
			return "width: calc(1px + 4px * 5px)", []ItemDiag{{Off: off + 18, Need: "calc"}}
		case 3:
			return "width: calc(\n\t\t2 +\n    5rem)", []ItemDiag{{Off: off + 15, Need: "calc"}}
		default:
			return "width: calc(1px + 2px - 6px - 1)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		}
	}
	if r.P(g.o.Diags * 0.5) {
		switch r.N(10) {
		case 0:
			return "color: var()", []ItemDiag{{Off: off + 7, Need: "vars"}}
		case 1:
			return "color: var(\"x\")", []ItemDiag{{Off: off + 7, Need: "vars"}}
		case 2:
			return "margin: 0 var(\n1px, 2px)", []ItemDiag{{Off: off + 10, Need: "vars"}}
		case 3:
			return "width: calc()", []ItemDiag{{Off: off + 7, Need: "calc"}}
		case 4:
			return "margin: 0 calc(1px,\n 2px)", []ItemDiag{{Off: off + 10, Need: "calc"}}
		case 5:
			return "width: calc(10px\n / 2px)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		case 6:
			return "width: calc(5rem + 2)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		case 7:
			return "width: calc(2 - 2%)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		case 8:
			return fmt.Sprintf("width: calc(1px + var(--u%dx))", r.N(9)), []ItemDiag{{Off: off + 18, Need: "varcalc"}}
		default:
			return "width: calc(0 / 0px)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		}
	}
	if r.P(g.o.Diags) {
		switch r.N(5) {
		case 0:
			return fmt.Sprintf("color: var(--u%dx)", r.N(9)), []ItemDiag{{Off: off + 7, Need: "vars"}}
		case 1:
			return "width: calc(2 + 5rem)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		case 2:
			return "width: calc(3px * 4px)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		case 3:
			return "width: calc(10px / 0)", []ItemDiag{{Off: off + 12, Need: "calc"}}
		default:
			return fmt.Sprintf("margin: 0 var(--u%dx) 1px", r.N(9)), []ItemDiag{{Off: off + 10, Need: "vars"}}
		}
	}
	if g.raws && r.P(0.03) {
		return rawDecls[r.N(len(rawDecls))], nil
	}
	if r.P(0.12) {
		return declarations[r.N(len(declarations))], nil
	}
	switch k := r.N(14); {
	case k < 3:
		return "color: " + []string{"red", "#fff", "rgba(0, 0, 0, 1)", "rebeccapurple"}[r.N(4)], nil
	case k == 3:
		return "margin: 0 auto", nil
	case k == 4:
		return []string{`content: "x;}{/* not a comment"`, `content: "a\"b"`, `content: 'it\'s'`, `content: "\\"`}[r.N(4)], nil
	case k == 5:
		return "width: calc(" + []string{"1px + 2px", "2px * 3", "10px / 2", "1px + 2em", "(1px + 2px) * 3", "10px / var(--never, 2)", "var(--never, 1px) + (2px - 1px)", "(1em + 2px) + 3px", ".5px + 1px"}[r.N(9)] + ")", nil
	case k == 6:
		return "background: url(data:image/png;base64,AA==)", nil
	case k == 7:
		return "font-family: Arial, \"Helvetica Neue\", sans-serif", nil
	case k == 8 && g.o.Unicode:
		return "content: \"\u00e9\u4e16\"", nil
	case k == 9:
		return "color: red !important", nil
	case k >= 10 && g.o.Vars:
		if g.o.FreeVars && len(g.defined) > 0 {
			v := g.defined[r.N(len(g.defined))]
			if r.P(0.5) {
				return "color: var(" + v + ")", []ItemDiag{{Off: off + 7, Need: "mayvar"}}
			}
			return "color: var(" + v + ", blue)", nil
		}
		if len(g.defined) > 0 {
			return "color: var(" + g.defined[r.N(len(g.defined))] + ", blue)", nil
		}
		return "color: var(--never, blue)", nil
	}
	return "top: 0", nil
}

func (g *gen) decls(off int) (string, []ItemDiag) {
	n := 1 + g.r.N(3)
	var b strings.Builder
	var ds []ItemDiag
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString([]string{"; ", ";\n  ", ";"}[g.r.N(3)])
		}
		d, dd := g.decl(off + b.Len())
		b.WriteString(d)
		ds = append(ds, dd...)
	}
	// A string or raw value before the end needs the semicolon in none of these forms.
	if g.r.P(0.6) {
		b.WriteString(";")
	}
	return b.String(), ds
}

// Forms of CSS that are accepted without a diagnostic. %s is the marker.
var (
	selectors = []string{
		".%s:nth-child(even)", ".%s:nth-child(odd)", ".%s:nth-child(n)", ".%s:nth-child(-n+3)", ".%s:nth-child(-2n + 1)", ".%s:nth-child(3)", ".%s:nth-child(+3)", ".%s:nth-child(2n-1)",
		".%s:nth-last-child(2n)", ".%s:nth-of-type(n + 2)", ".%s:nth-last-of-type(+2n - 3)", ".%s[a=b]", ".%s[a=\"b c\" i]", ".%s[a~=b]", ".%s[a^=\"x\"]", ".%s[a$='x' s]", ".%s[a*=x]", ".%s[a|=x]",
		".%s\\:x", ".%s .\\31 0x", ".%s .\\66 oo", ".%s .-x", ".%s .--x", ".%s ._x", ".%s .é世", ".%s #\\31 x", ".%s::selection", ".%s:hover::after", "*.%s", ".%s+.b~b>i", ".%s/**/.c", ".%s/* } */ b",
		".%s:is(a, b > c)", ".%s:not(:not(a), [b])", ".%s:lang(en)", ".%s:where(.a .b)", "a.%s.b.c#d[e]:f::g", ".%s\t\tb\n,\nc", ".%s |b", ".%s .\\0000e9 x", ".%s .\\1F600x", ".%s .x\\{y", ".%s .\\\"x", ".%s .\\.a\\;", ".%s .\\e9\tx", ".%s .\\/*b", ".w-1\\/2.%s:hover", ".%s .sm\\:p-0\\.5", ".%s:NOT(a)",
	}
	declarations = []string{
		"margin: 1.5px .5px -1px +2px", "margin: 1e3px", "margin: 1E-3px", "margin: 1e+3", "margin: -.5em", "margin: +.5em", "opacity: 0.50", "width: 50%", "width: 1.5%", "color: #abc", "color: #\\61 bc", "color: RED",
		"color: red!important", "color: red ! important", "color: red !IMPORTANT", "color: red !/**/important", "background: URL(a.png)", "background: url( a.png )", "background: url(\"a b.png\")", "background: url()", "background: Url( 'x' )",
		"content: \"\\22\"", "content: \"\\a\"", "content: '\\''", "content: \"\"", "-webkit-foo: bar", "_zoom: 1", "font: 12px/1.5 a,b", "grid-area: 1 / 2 / 3", "src: url(a) format(\"b\"), local(c)",
		"transition: a 1s cubic-bezier(.1, -.2, +.3, 4)", "transform: rotate( 45deg ) scale(1,2)", "grid-template: [a b] \"c d\" 1fr / auto", "unicode-range: u+26, U+0-7F, u+4??", "color: \\72 ed", "c\\6flor: red", "color: a\\b", "color: a\\;b", "background: url(a\\)b.png)", "background: url(a\\ b\\(.png)", "width: 1\\70x",
		"width: calc(1px + (2em*3))", "width: calc(-1 * 2px)", "width: calc(1px - -1px)", "width: min(1px, 2em)", "width: calc(1px/2)", "color/**/:/**/red/**/", "color:red;;;top:0", "top: 0;/* x */", "color: rgb(0 0 0 / 50%)",
		"width: 1PX", "width: 1e", "width: 1-x", "content: counter(x) \". \"", "filter: alpha(opacity=50)", "color: hsl(120deg 75% 25%)", "x: y z, w",
	}
	rawDecls  = []string{"a: (b)", "a: {b}", "a: @b", "a: <!-- b -->", "content: \"a\\\nb\""}
	keyframes = []string{
		"@keyframes %s {\n  from { top: 0 }\n  to { top: 10px; }\n}", "@keyframes %s { from, 50% { top: 0 } 100.0% { top: 1px } }", "@keyframes \"%s\" { from { top: 0 } }", "@-webkit-keyframes %s { from { top: 0 } to { } }",
		"@keyframes %s{0%{top:0}99.5%,to{top:1px;left:0}}", "@keyframes/**/%s/**/{/**/}",
	}
	queries = []string{
		"print, screen and (min-width:1px)", "not all and (color)", "only screen", "(1px <= width <= 2px)", "(2px >= width >= 1px)", "(width>1px)", "(min-width: 1px) and (max-width: 1e3px)", "(prefers-color-scheme:dark)",
		"screen\n and\n(color)", "only screen and (color) and (min-width: .5em)", "(height <= 5.5em), (height > 7px)",
	}
)

func (g *gen) rule() Item {
	m := g.id("m")
	sel := []string{".%s", ".%s a:any-link", ".%s > b, .%s i", "#i.%s::before", ".%s a:any-link, .%s b", "div.%s:hover", ".%s:not(.z) + p", ".%s [data-x]", "li:nth-child(2n + 1) .%s", "* .%s"}[g.r.N(10)]
	if g.r.P(0.12) {
		sel = selectors[g.r.N(len(selectors))]
	}
	sel = strings.ReplaceAll(sel, "%s", m)
	if g.o.Nested && g.o.Vars && g.r.P(g.o.Diags*0.5) {
		v := "--" + g.id("q")
		pre := ":root { " + v + ": " + []string{"2px", "7em"}[g.r.N(2)] + "; }\n"
		text := "." + m + " { top: 0; width: calc(var(" + v + ") + 3) }"
		d := ItemDiag{Off: len(pre) + strings.Index(text, "var("), Need: "varcalc"}
		if r := g.r; r.P(0.5) { // not a single value
			pre = ":root { " + v + ": 1px\n 2px }\n"
			k := r.N(3)
			text = "." + m + " { top: 0; width: " + []string{"calc(var(" + v + ") + 3px)", "calc(3px * var(" + v + "))", "calc(\nvar(" + v + "))"}[k] + " }"
			d.Off = len(pre) + strings.Index(text, []string{"var(", "var(", "calc("}[k])
		}
		return Item{Kind: "rule", Marker: m, Text: pre + text, Diags: []ItemDiag{d}}
	}
	head := sel + []string{" {\n  ", "{", " { "}[g.r.N(3)]
	ds, diags := g.decls(len(head))
	return Item{Kind: "rule", Marker: m, Text: head + ds + []string{"\n}", "}", " }"}[g.r.N(3)], Diags: diags}
}

func (g *gen) item() Item {
	r := g.r
	switch k := r.N(16); {
	case k < 7:
		return g.rule()
	case k == 7:
		return Item{Kind: "comment", Text: []string{"/* plain */", "/*/ .never { } */", "/***/", "/* @import \"never.css\"; */", "/** multi\n * line { } */", "/*\u00e9*/"}[r.N(6)]}
	case k == 8:
		m := g.id("k")
		return Item{Kind: "keyframes", Marker: m, Text: strings.ReplaceAll(keyframes[max(0, r.N(len(keyframes)+3)-3)], "%s", m)}
	case k == 9:
		m := g.id("f")
		return Item{Kind: "fontface", Marker: m, Text: []string{"@font-face", "@font-face", "@font-face", "@page", "@unheard-of"}[r.N(5)] + " { font-family: " + m + "; src: url(a.woff) }"}
	case k == 10 || k == 11 || (k >= 14 && !g.o.Vars):
		m := g.id("m")
		q := []string{"(min-width: 100px)", "screen and (width >= 100px)", "(100px < width < 200px)", "print", "not screen"}[r.N(5)]
		if r.P(0.15) {
			q = queries[r.N(len(queries))]
		}
		if len(g.media) > 0 && r.P(0.6) {
			q = "(" + g.media[r.N(len(g.media))] + ")"
			switch r.N(8) {
			case 0:
				q += ", (" + g.media[r.N(len(g.media))] + ")"
			case 1:
				q = "screen and " + q
			case 2:
				q += ", print"
			}
		}
		if r.P(g.o.Diags * 0.3) {
			q := []string{"(width < \"x\")", "(100px < width\n <\n foo)", "screen and\n(foo(1) < width)", "print, (\"y\" > height)"}[r.N(4)]
			d := ItemDiag{Off: len("@media ") + strings.IndexAny(q, "\"f"), Need: "ranges"}
			return Item{Kind: "media", Marker: m, Text: "@media " + q + " {\n  ." + m + " { top: 0 }\n}", Diags: []ItemDiag{d}}
		}
		if r.P(0.2) {
			return Item{Kind: "media", Marker: m, Text: "@media " + q + " {\n  ." + m + " { top: 0 }\n  b, i { color: red; margin: 0 auto }\n}"}
		}
		return Item{Kind: "media", Marker: m, Text: "@media " + q + " {\n  ." + m + " { top: 0 }\n}"}
	case k == 12 || k == 13:
		var name string
		if g.o.Redefine && len(g.media) > 0 && r.P(0.3) {
			name = g.media[r.N(len(g.media))]
		} else {
			name = "--" + g.id("c")
			g.media = append(g.media, name)
		}
		return Item{Kind: "cmedia", Text: "@custom-media " + name + " " + []string{"(max-width: 30em)", "(min-width: 10px)", "(width >= 5px)", "screen and (color)", "(100px < width < 300px)"}[r.N(5)] + ";"}
	case k >= 14:
		var name string
		if g.o.Redefine && len(g.defined) > 0 && r.P(0.3) {
			name = g.defined[r.N(len(g.defined))]
		} else {
			name = "--" + g.id("v")
			g.defined = append(g.defined, name)
		}
		extra := ""
		if r.P(0.3) {
			extra = " color: red;"
		}
		return Item{Kind: "root", Text: ":root {" + " " + name + ": " + []string{"10px", "red", "#123", "1 2 3"}[r.N(4)] + ";" + extra + " }"}
	}
	return g.rule()
}

func genTransforms(r *simrt.RNG, imports int) Transforms {
	t := Transforms{Imports: imports, Ranges: r.N(2), AnyLink: r.N(2), Vars: r.N(2), CMedia: r.N(2), Calc: r.N(2)}
	if r.P(0.2) {
		t = Transforms{Imports: imports}
	}
	return t
}

// spell writes an absolute path in one of the ways a caller may.
func spell(r *simrt.RNG, cwd, abs string) string {
	rel, err := filepath.Rel(cwd, abs)
	if err != nil {
		return abs
	}
	switch r.N(6) {
	case 0:
		return rel
	case 1:
		return "./" + rel
	case 2:
		return filepath.Dir(abs) + "//" + filepath.Base(abs)
	case 3:
		return filepath.Dir(abs) + "/./" + filepath.Base(abs)
	case 4:
		return cwd + "/../" + strings.TrimPrefix(abs, "/")
	}
	return abs
}
