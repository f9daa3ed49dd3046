// Package h is the harness: scenarios, their execution under the simulator, the
// oracles, and the search for and reduction of failing runs.
package h

import (
	"encoding/json"
	"path/filepath"
	"sort"
	"strings"

	"verifsim/simfs"
)

// Item is one construct of a style sheet. Its text is rendered as is.
type Item struct {
	Kind   string     `json:"kind"` // rule, media, keyframes, fontface, root, cmedia, comment, import, bad
	Text   string     `json:"text"`
	Marker string     `json:"marker,omitempty"` // name that shows up in the output exactly where the construct is
	Spec   string     `json:"spec,omitempty"`   // import: specifier
	To     string     `json:"to,omitempty"`     // import: the file it resolves to; "" if it cannot be resolved
	Cond   string     `json:"cond,omitempty"`   // import: media condition
	Diags  []ItemDiag `json:"diags,omitempty"`
	Sep    string     `json:"sep,omitempty"` // text before the item
}

// ItemDiag is a diagnostic the item causes.
type ItemDiag struct {
	Off  int    `json:"off"`  // where the offending text starts within the item
	Need string `json:"need"` // vars, mayvar, calc, varcalc, ranges, inline, parse: what makes it appear
}

// FileSpec is one file. Versions[0] is its content, unless writers change it.
type FileSpec struct {
	Path     string  `json:"path"`
	EOL      string  `json:"eol,omitempty"` // line ending, if not a newline
	Items    []Item  `json:"items,omitempty"`
	Tail     string  `json:"tail,omitempty"`
	Raw      string  `json:"raw,omitempty"`    // used instead of Items if not empty
	Link     string  `json:"link,omitempty"`   // a symbolic link to this file, whose items these are
	Err      string  `json:"err,omitempty"`    // reading fails with this errno
	ErrAt    int     `json:"err_at,omitempty"` // >0: once ErrAt-1 bytes have been read
	Versions []FileV `json:"versions,omitempty"`
}

// FileV is a later version of a file.
type FileV struct {
	Items []Item `json:"items,omitempty"`
	Err   string `json:"err,omitempty"`
}

// Transforms are the six options, 0 or 1 (imports: 0 pass through, 1 follow, 2 inline).
type Transforms struct {
	Imports int `json:"imports"`
	Ranges  int `json:"ranges"`
	AnyLink int `json:"anylink"`
	Vars    int `json:"vars"`
	CMedia  int `json:"cmedia"`
	Calc    int `json:"calc"`
}

// Answer is one entry of a scripted resolver.
type Answer struct {
	Spec string `json:"spec"`
	Dir  string `json:"dir"`
	Path string `json:"path,omitempty"`
	Err  string `json:"err,omitempty"`
}

// ResolverSpec describes the resolver of a compilation.
type ResolverSpec struct {
	Kind    string   `json:"kind,omitempty"` // "" default, node (logged NodeResolver), table
	BaseURL string   `json:"base_url,omitempty"`
	Answers []Answer `json:"answers,omitempty"`
	Delay   int      `json:"delay,omitempty"` // scheduling points per call
	Sleep   int64    `json:"sleep,omitempty"` // simulated nanoseconds per call
}

// ReporterSpec describes the reporter.
type ReporterSpec struct {
	Kind  string `json:"kind,omitempty"` // "" recording, default (none: standard error), option (recording, set by an option of the plugin)
	Delay int    `json:"delay,omitempty"`
	Sleep int64  `json:"sleep,omitempty"`
	Gate  bool   `json:"gate,omitempty"` // blocks until every other task is blocked or done
	Pass  bool   `json:"pass,omitempty"` // passes every diagnostic on to a goroutine that renders it, too
}

// Compile is one compilation of the scenario (or one load of the bundler plugin).
type Compile struct {
	Entries  []string     `json:"entries"`
	T        Transforms   `json:"transforms"`
	Resolver ResolverSpec `json:"resolver"`
	Reporter ReporterSpec `json:"reporter"`
	Plugin   int          `json:"plugin,omitempty"` // >0: a load served by plugin instance number Plugin
	For      int          `json:"for,omitempty"`    // >0: its reporter and resolver wait until compilation number For has returned
	After    int          `json:"after,omitempty"`  // >0: starts once compilation number After (1-based) has returned
}

// Writer replaces a file by its next version (or one given) at some point of the run.
type Writer struct {
	Path  string `json:"path"`
	Waits int    `json:"waits"`           // scheduling points to wait
	To    int    `json:"to"`              // version
	After int    `json:"after,omitempty"` // only once compilation number After has returned
}

// Query is one question to the default resolver.
type Query struct {
	Spec string `json:"spec"`
	Dir  string `json:"dir"`
	Base string `json:"base,omitempty"`
	// Round: asked once all questions of the earlier rounds are answered and the edits
	// up to this round have been made.
	Round int `json:"round,omitempty"`
}

// Edit changes the file system before a round of questions.
type Edit struct {
	Round int    `json:"round"`
	Path  string `json:"path"`
	Text  string `json:"text,omitempty"`
	Gone  bool   `json:"gone,omitempty"`
}

// edit makes the edits of a round.
func (s *Scenario) edit(fs *simfs.FS, round int) {
	for _, e := range s.Edits {
		if e.Round != round {
			continue
		}
		delete(fs.Files, e.Path)
		if !e.Gone && fs.KindOf(filepath.Dir(e.Path)) == "dir" && fs.KindOf(e.Path) == "" {
			fs.Put(e.Path, simfs.Version{Text: e.Text})
		}
	}
}

// Scenario is everything that decides a run except the schedule.
type Scenario struct {
	Check    string            `json:"check"`
	Seed     uint64            `json:"seed"`
	Cwd      string            `json:"cwd"`
	Files    []FileSpec        `json:"files,omitempty"`
	Dirs     []string          `json:"dirs,omitempty"`
	Links    map[string]string `json:"links,omitempty"`
	Chunk    int               `json:"chunk,omitempty"`
	Slow     []simfs.Latency   `json:"slow,omitempty"`
	Faults   []simfs.Fault     `json:"faults,omitempty"`
	Writers  []Writer          `json:"writers,omitempty"`
	Compiles []Compile         `json:"compiles,omitempty"`
	Queries  []Query           `json:"queries,omitempty"`
	Edits    []Edit            `json:"edits,omitempty"`
	Noise    int               `json:"noise,omitempty"`  // lines an unrelated task writes to standard error
	Shared   bool              `json:"shared,omitempty"` // compilations share resolver and reporter objects
	Runs     int               `json:"runs"`             // schedules tried
	Budget   int64             `json:"budget"`
}

// Clone copies a scenario deeply.
func (s *Scenario) Clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// Placed is an item with its position in the rendered text.
type Placed struct {
	*Item
	Start, End int
}

// render gives the text of a list of items and where they are.
func render(items []Item, eol, tail string) (string, []Placed) {
	var b strings.Builder
	var placed []Placed
	nl := func(s string) string {
		if eol != "" {
			return strings.ReplaceAll(s, "\n", eol)
		}
		return s
	}
	for i := range items {
		it := &items[i]
		b.WriteString(nl(it.Sep))
		st := b.Len()
		b.WriteString(nl(it.Text))
		placed = append(placed, Placed{it, st, b.Len()})
	}
	b.WriteString(nl(tail))
	return b.String(), placed
}

// Text is the content of version v (0: the original).
func (f *FileSpec) Text(v int) (string, []Placed) {
	if v == 0 {
		if f.Raw != "" {
			return f.Raw, nil
		}
		return render(f.Items, f.EOL, f.Tail)
	}
	return render(f.Versions[v-1].Items, f.EOL, f.Tail)
}

// File finds a file by path.
func (s *Scenario) File(path string) *FileSpec {
	for i := range s.Files {
		if s.Files[i].Path == path {
			return &s.Files[i]
		}
	}
	return nil
}

// relink makes symbolic links have the items of what they link to.
func (s *Scenario) relink() {
	for i := range s.Files {
		f := &s.Files[i]
		if f.Link == "" {
			continue
		}
		to := s.File(f.Link)
		if to == nil || to.Link != "" || to.Err != "" || len(to.Versions) > 0 {
			f.Link = ""
			continue
		}
		f.Items, f.EOL, f.Tail = append([]Item(nil), to.Items...), to.EOL, to.Tail
	}
}

// linked tells whether a file is a symbolic link or what one links to.
func (s *Scenario) linked(path string) bool {
	for i := range s.Files {
		if s.Files[i].Link != "" && (s.Files[i].Path == path || s.Files[i].Link == path) {
			return true
		}
	}
	return false
}

// FS builds the simulated file system.
func (s *Scenario) FS() *simfs.FS {
	fs := simfs.New(s.Cwd)
	fs.Chunk = s.Chunk
	for _, d := range s.Dirs {
		fs.MkdirAll(d)
	}
	for i := range s.Files {
		f := &s.Files[i]
		if f.Link != "" {
			fs.MkdirAll(filepath.Dir(f.Path))
			to, err := filepath.Rel(filepath.Dir(f.Path), f.Link)
			if err != nil {
				panic(err)
			}
			fs.Links[f.Path] = to
			continue
		}
		text, _ := f.Text(0)
		vs := []simfs.Version{{Text: text, Err: f.Err, ErrAt: f.ErrAt}}
		for v := range f.Versions {
			t, _ := f.Text(v + 1)
			vs = append(vs, simfs.Version{Text: t, Err: f.Versions[v].Err})
		}
		fs.Put(f.Path, vs...)
	}
	for from, to := range s.Links {
		fs.MkdirAll(filepath.Dir(from))
		fs.Links[from] = to
	}
	fs.Slow = s.Slow
	fs.Faults = append([]simfs.Fault(nil), s.Faults...)
	return fs
}

// Abs is the absolute path an entry stands for.
func (s *Scenario) Abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = s.Cwd + "/" + p
	}
	return filepath.Clean(p)
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
