package h

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// The reference model: which files fail, what every output consists of.

// World is what the model knows about the files of one run: content and failures.
type World struct {
	s *Scenario
	// Failing files: they cannot be loaded or parsed.
	Fails map[string]string
	// cm is the compilation the world is seen by: its resolver decides what imports mean.
	cm *Compile
	// Version of each file, 0 by default.
	Ver map[string]int
}

// NewWorld derives the failures that are part of the scenario itself.
func NewWorld(s *Scenario, cm *Compile) *World {
	w := &World{s: s, cm: cm, Fails: map[string]string{}, Ver: map[string]int{}}
	for i := range s.Files {
		f := &s.Files[i]
		if f.Err != "" {
			w.Fails[f.Path] = "read"
		}
		for _, it := range f.Items {
			if it.Kind == "bad" {
				w.Fails[f.Path] = "parse"
			}
		}
	}
	return w
}

// Items are the constructs of a file (nil if it fails or does not exist).
func (w *World) Items(path string) []Placed {
	f := w.s.File(path)
	if f == nil || w.Fails[path] != "" {
		return nil
	}
	_, placed := f.Text(w.Ver[path])
	return placed
}

// Loads reports whether a file can be read and parsed.
func (w *World) Loads(path string) bool {
	return w.s.File(path) != nil && w.Fails[path] == ""
}

// Target is the file an import statement names, or "" if it cannot be resolved.
func (w *World) Target(from string, it *Item) string {
	if w.cm != nil && w.cm.Resolver.Kind == "table" {
		dir := filepath.Dir(from)
		for _, a := range w.cm.Resolver.Answers {
			if a.Spec == it.Spec && a.Dir == dir {
				if a.Err != "" || w.s.noWd() && !strings.HasPrefix(a.Path, "/") {
					return ""
				}
				return w.s.Abs(a.Path)
			}
		}
		return ""
	}
	return it.To
}

func (w *World) resolves(from string, it *Item) bool { return w.Target(from, it) != "" }

// Reach is the set of loadable files reachable from the given ones, themselves included.
func (w *World) Reach(from ...string) map[string]bool {
	seen := map[string]bool{}
	var visit func(string)
	visit = func(p string) {
		if seen[p] || !w.Loads(p) {
			return
		}
		seen[p] = true
		for _, it := range w.Items(p) {
			if it.Kind == "import" && w.resolves(p, it.Item) {
				visit(w.Target(p, it.Item))
			}
		}
	}
	for _, p := range from {
		visit(p)
	}
	return seen
}

// Touches is the set of files, loadable or not, that loading the given ones involves.
func (w *World) Touches(from ...string) map[string]bool {
	seen := map[string]bool{}
	var visit func(string)
	visit = func(p string) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, it := range w.Items(p) {
			if it.Kind == "import" && w.resolves(p, it.Item) {
				visit(w.Target(p, it.Item))
			}
		}
	}
	for _, p := range from {
		visit(p)
	}
	return seen
}

// Cyclic reports whether a cycle can be reached from path.
func (w *World) Cyclic(path string) bool {
	state := map[string]int{}
	var visit func(string) bool
	visit = func(p string) bool {
		if state[p] == 1 {
			return true
		}
		if state[p] == 2 || !w.Loads(p) {
			return false
		}
		state[p] = 1
		for _, it := range w.Items(p) {
			if it.Kind == "import" && w.resolves(p, it.Item) && visit(w.Target(p, it.Item)) {
				return true
			}
		}
		state[p] = 2
		return false
	}
	return visit(path)
}

// Tok is one element of an output: a marked construct or an import left in place.
type Tok struct {
	Kind string // m, import
	Name string
}

func (t Tok) String() string { return t.Kind + ":" + t.Name }

func importTok(it *Item) Tok {
	n := it.Spec
	if it.Cond != "" {
		n += " " + strings.ReplaceAll(it.Cond, " ", "")
	}
	return Tok{"import", n}
}

// Flatten is the sequence of elements the output for path consists of. Inlining stops
// at cycles, so it is only meaningful without them.
func (w *World) Flatten(path string, inline bool) []Tok {
	return w.flatten(path, inline, map[string]bool{})
}

func (w *World) flatten(path string, inline bool, chain map[string]bool) []Tok {
	var out []Tok
	chain[path] = true
	defer delete(chain, path)
	for _, it := range w.Items(path) {
		switch it.Kind {
		case "import":
			if to := w.Target(path, it.Item); inline && to != "" && w.Loads(to) && !chain[to] {
				out = append(out, w.flatten(to, inline, chain)...)
			} else {
				out = append(out, importTok(it.Item))
			}
		default:
			if it.Marker != "" {
				out = append(out, Tok{"m", it.Marker})
			}
		}
	}
	return out
}

// Paste is the text of path with every inlinable import replaced by the text of the
// file it names.
func (w *World) Paste(path string) string {
	if !w.Loads(path) {
		return ""
	}
	f := w.s.File(path)
	text, placed := f.Text(w.Ver[path])
	var b strings.Builder
	at := 0
	for _, it := range placed {
		if it.Kind != "import" || !w.resolves(path, it.Item) || !w.Loads(w.Target(path, it.Item)) {
			continue
		}
		b.WriteString(text[at:it.Start])
		b.WriteString("\n")
		b.WriteString(w.Paste(w.Target(path, it.Item)))
		b.WriteString("\n")
		at = it.End
	}
	b.WriteString(text[at:])
	return b.String()
}

// Paths counts the simple import paths from `from` to each file, up to limit.
func (w *World) Paths(from string, limit int) map[string]int {
	count := map[string]int{}
	total := 0
	chain := map[string]bool{}
	var visit func(string)
	visit = func(p string) {
		if chain[p] || !w.Loads(p) || total > limit {
			return
		}
		total++
		count[p]++
		chain[p] = true
		for _, it := range w.Items(p) {
			if it.Kind == "import" && w.resolves(p, it.Item) {
				visit(w.Target(p, it.Item))
			}
		}
		delete(chain, p)
	}
	visit(from)
	if total > limit {
		return nil
	}
	return count
}

// Output is a parsed output file.
type Output struct {
	Body   string
	Map    *SourceMap
	MapErr string
	Chunks []Chunk
}

// Chunk is one top-level construct of an output.
type Chunk struct {
	Text  string
	Start int // offset in the body
	Toks  []Tok
}

// SourceMap is the embedded map.
type SourceMap struct {
	Version        int      `json:"version"`
	File           string   `json:"file"`
	Sources        []string `json:"sources"`
	SourcesContent []string `json:"sourcesContent"`
	Mappings       string   `json:"mappings"`
}

const mapPrefix = "/*# sourceMappingURL=data:application/json;base64,"

var markerRe = regexp.MustCompile(`(?:^|[^A-Za-z0-9_-])([mkf][a-z]?\d+x)\b`)

// ParseOutput splits an output into its constructs and its source map.
func ParseOutput(text string) *Output {
	o := &Output{Body: text}
	if i := strings.LastIndex(text, mapPrefix); i >= 0 {
		rest := text[i+len(mapPrefix):]
		end := strings.Index(rest, "*/")
		if end < 0 {
			o.MapErr = "unterminated source map comment"
		} else {
			if strings.TrimSpace(rest[end+2:]) != "" {
				o.MapErr = "text after the source map"
			}
			enc := strings.TrimSpace(rest[:end])
			raw, err := base64.StdEncoding.DecodeString(enc)
			if err != nil {
				o.MapErr = "source map: " + err.Error()
			} else {
				o.Map = &SourceMap{}
				if err := json.Unmarshal(raw, o.Map); err != nil {
					o.Map, o.MapErr = nil, "source map: "+err.Error()
				}
			}
		}
		o.Body = text[:i]
	} else {
		o.MapErr = "no source map"
	}
	o.Body = strings.TrimSuffix(o.Body, "\n")
	o.Chunks = chunks(o.Body)
	return o
}

// chunks splits CSS at the top level.
func chunks(body string) []Chunk {
	var out []Chunk
	start, depth := 0, 0
	flush := func(end int) {
		raw := body[start:end]
		lead := len(raw) - len(strings.TrimLeft(raw, " \t\r\n"))
		t := strings.TrimSpace(raw)
		if t != "" {
			out = append(out, Chunk{Text: t, Start: start + lead, Toks: toks(t)})
		}
		start = end
	}
	for i := 0; i < len(body); i++ {
		switch c := body[i]; c {
		case '"', '\'':
			for i++; i < len(body) && body[i] != c; i++ {
				if body[i] == '\\' {
					i++
				}
			}
		case '\\':
			i++
		case '(':
			if i >= 3 && strings.EqualFold(body[i-3:i], "url") {
				for i++; i < len(body) && body[i] != ')' && body[i] != '"' && body[i] != '\''; i++ {
					if body[i] == '\\' {
						i++
					}
				}
				i--
			}
		case '/':
			if i+1 < len(body) && body[i+1] == '*' {
				if e := strings.Index(body[i+2:], "*/"); e >= 0 {
					i += e + 3
				} else {
					i = len(body)
				}
			}
		case '{':
			depth++
		case '}':
			if depth > 0 {
				depth--
			}
			if depth == 0 {
				flush(i + 1)
			}
		case ';':
			if depth == 0 {
				flush(i + 1)
			}
		}
	}
	flush(len(body))
	return out
}

var importRe = regexp.MustCompile(`^@import\s*(?:url\(\s*)?(?:"([^"]*)"|'([^']*)'|([^\s"');]+))\s*\)?\s*(.*?);?$`)

func toks(t string) []Tok {
	if strings.HasPrefix(t, "@import") {
		m := importRe.FindStringSubmatch(t)
		if m == nil {
			return []Tok{{"import", "?" + t}}
		}
		name := m[1] + m[2] + m[3]
		if m[4] != "" {
			name += " " + strings.ReplaceAll(m[4], " ", "")
		}
		return []Tok{{"import", name}}
	}
	var out []Tok
	seen := map[string]bool{}
	for _, m := range markerRe.FindAllStringSubmatch(t, -1) {
		if !seen[m[1]] {
			seen[m[1]] = true
			out = append(out, Tok{"m", m[1]})
		}
	}
	return out
}

// Toks is the sequence of elements of an output.
func (o *Output) Toks() []Tok {
	var out []Tok
	for _, c := range o.Chunks {
		out = append(out, c.Toks...)
	}
	return out
}

func sameToks(a, b []Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func tokStr(t []Tok) string {
	var p []string
	for _, x := range t {
		p = append(p, x.String())
	}
	return "[" + strings.Join(p, " ") + "]"
}

// Body is an output without its source map.
func Body(text string) string { return ParseOutput(text).Body }

// DiagKeys is the sorted collection of diagnostics of a run.
func (r *CompileRun) DiagKeys() []string {
	var ks []string
	for _, d := range r.Diags {
		ks = append(ks, Key(d.Text))
	}
	sort.Strings(ks)
	return ks
}

func diffStrings(a, b []string) string {
	ca := map[string]int{}
	for _, x := range a {
		ca[x]++
	}
	for _, x := range b {
		ca[x]--
	}
	var out []string
	for x, n := range ca {
		if n > 0 {
			out = append(out, fmt.Sprintf("missing %dx %.300q", n, x))
		} else if n < 0 {
			out = append(out, fmt.Sprintf("extra %dx %.300q", -n, x))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}
