package h

import (
	"fmt"
	"os"
	"sort"
	"time"

	"verifsim/simrt"
)

// mainMin reduces a replay: first the scenario, searching schedules anew for each
// smaller one, then the schedule.
func mainMin(args []string) int {
	setup()
	rp, err := loadReplay(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := Checks[rp.Property]
	end := time.Now().Add(60 * time.Second)
	cur := rp
	search := func(s *Scenario) *Replay {
		c := &Ctx{S: s, St: NewStats()}
		if s.Runs > 0 && cur.Run >= 0 {
			n := s.Clone()
			n.Runs = 24
			c.S = n
		}
		v, r := judgeOne(ck, c)
		if v == nil || v.Class != rp.Violation.Class {
			return nil
		}
		r.Scenario.Runs = s.Runs
		if r.Run >= s.Runs && s.Runs > 0 {
			r.Scenario.Runs = r.Run + 1
		}
		return r
	}
	for progress := true; progress; {
		progress = false
		for _, cand := range smaller(cur.Scenario) {
			if time.Now().After(end) {
				break
			}
			if r := search(cand); r != nil {
				cur = r
				progress = true
				break
			}
		}
	}
	// The schedule.
	if cur.Run >= 0 {
		end = time.Now().Add(40 * time.Second)
		try := func(p []simrt.Preempt, order uint64) *Replay {
			if time.Now().After(end) {
				return nil
			}
			t := *cur
			t.Preempts, t.OrderSeed, t.Prefix = p, order, nil
			v, c := again(ck, &t, false)
			if v == nil || v.Class != rp.Violation.Class || c.run != cur.Run {
				return nil
			}
			t.Violation = *v
			// What the run really did differently from the default, which may be less.
			if c.h != nil && len(c.h.Out.Trace) <= len(p) {
				t.Preempts = append([]simrt.Preempt{}, c.h.Out.Trace...)
			}
			if c.h != nil {
				t.Steps = c.h.Out.Steps
			}
			return &t
		}
		if cur.OrderSeed != 0 {
			if t := try(cur.Preempts, 0); t != nil {
				cur = t
			}
		}
		for n := 2; len(cur.Preempts) > 0; {
			size := (len(cur.Preempts) + n - 1) / n
			done := false
			for at := 0; at < len(cur.Preempts); at += size {
				hi := at + size
				if hi > len(cur.Preempts) {
					hi = len(cur.Preempts)
				}
				rest := append(append([]simrt.Preempt{}, cur.Preempts[:at]...), cur.Preempts[hi:]...)
				if t := try(rest, cur.OrderSeed); t != nil {
					cur = t
					done = true
					break
				}
			}
			if done {
				if n > 2 {
					n--
				}
				continue
			}
			if size <= 1 || time.Now().After(end) {
				break
			}
			n *= 2
			if n > len(cur.Preempts) {
				n = len(cur.Preempts)
			}
		}
	}
	cur.Seed, cur.Index, cur.Tier, cur.Prefix = rp.Seed, rp.Index, rp.Tier, nil
	cur.Minimised = true
	if err := writeJSON(args[1], cur); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// smaller are the scenarios one reduction away.
func smaller(s *Scenario) []*Scenario {
	var out []*Scenario
	add := func(f func(n *Scenario)) {
		n := s.Clone()
		f(n)
		n.relink()
		out = append(out, n)
	}
	for i := range s.Compiles {
		i := i
		if len(s.Compiles) > 1 {
			add(func(n *Scenario) {
				before := n.Compiles[i].After
				n.Compiles = append(n.Compiles[:i], n.Compiles[i+1:]...)
				for j := range n.Compiles {
					if n.Compiles[j].After == i+1 {
						n.Compiles[j].After = before
					} else if n.Compiles[j].After > i+1 {
						n.Compiles[j].After--
					}
				}
				for j := range n.Compiles {
					if n.Compiles[j].For == i+1 {
						n.Compiles[j].For = 0
					} else if n.Compiles[j].For > i+1 {
						n.Compiles[j].For--
					}
				}
				for j := range n.Writers {
					if n.Writers[j].After == i+1 && n.Writers[j].After > 1 {
						n.Writers[j].After = before
					} else if n.Writers[j].After > i+1 {
						n.Writers[j].After--
					}
				}
			})
		}
	}
	var files []int
	for i := range s.Files {
		files = append(files, i)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(files)))
	if len(s.Files) > 12 { // many files: halves and quarters first
		for parts := 2; parts <= 8; parts *= 2 {
			for k := 0; k < parts; k++ {
				lo, hi := len(s.Files)*k/parts, len(s.Files)*(k+1)/parts
				add(func(n *Scenario) {
					for i := hi - 1; i >= lo; i-- {
						dropFile(n, i)
					}
				})
			}
		}
	}
	for _, i := range files {
		i := i
		add(func(n *Scenario) { dropFile(n, i) })
	}
	for i := range s.Compiles {
		for j := range s.Compiles[i].Entries {
			i, j := i, j
			if len(s.Compiles[i].Entries) > 1 {
				add(func(n *Scenario) {
					n.Compiles[i].Entries = append(n.Compiles[i].Entries[:j], n.Compiles[i].Entries[j+1:]...)
				})
			}
			if a := s.Abs(s.Compiles[i].Entries[j]); a != s.Compiles[i].Entries[j] {
				add(func(n *Scenario) { n.Compiles[i].Entries[j] = a })
			}
		}
	}
	for i := range s.Writers {
		i := i
		add(func(n *Scenario) { n.Writers = append(n.Writers[:i], n.Writers[i+1:]...) })
	}
	for i := range s.Faults {
		i := i
		add(func(n *Scenario) { n.Faults = append(n.Faults[:i], n.Faults[i+1:]...) })
	}
	for i := range s.Slow {
		i := i
		add(func(n *Scenario) { n.Slow = append(n.Slow[:i], n.Slow[i+1:]...) })
	}
	for i := range s.Queries {
		i := i
		add(func(n *Scenario) { n.Queries = append(n.Queries[:i], n.Queries[i+1:]...) })
	}
	for i := range s.Edits {
		i := i
		add(func(n *Scenario) { n.Edits = append(n.Edits[:i], n.Edits[i+1:]...) })
	}
	for i := range s.Files {
		i := i
		f := &s.Files[i]
		for j := range f.Items {
			j := j
			add(func(n *Scenario) {
				n.Files[i].Items = append(n.Files[i].Items[:j], n.Files[i].Items[j+1:]...)
			})
		}
		if f.Err != "" {
			add(func(n *Scenario) { n.Files[i].Err = "" })
		}
		if len(f.Versions) > 0 {
			used := false
			for _, w := range s.Writers {
				used = used || w.Path == f.Path
			}
			if !used {
				add(func(n *Scenario) { n.Files[i].Versions = nil })
			}
			for v := range f.Versions {
				for j := range f.Versions[v].Items {
					v, j := v, j
					add(func(n *Scenario) {
						n.Files[i].Versions[v].Items = append(n.Files[i].Versions[v].Items[:j], n.Files[i].Versions[v].Items[j+1:]...)
					})
				}
			}
		}
	}
	for i := range s.Compiles {
		i := i
		c := &s.Compiles[i]
		for k := 1; k < 6; k++ {
			k := k
			n := s.Clone()
			p := []*int{&n.Compiles[i].T.Imports, &n.Compiles[i].T.Ranges, &n.Compiles[i].T.AnyLink, &n.Compiles[i].T.Vars, &n.Compiles[i].T.CMedia, &n.Compiles[i].T.Calc}[k]
			if *p != 0 {
				*p = 0
				out = append(out, n)
			}
		}
		if c.For > 0 {
			add(func(n *Scenario) { n.Compiles[i].For = 0 })
		}
		if c.Resolver.Delay > 0 {
			add(func(n *Scenario) { n.Compiles[i].Resolver.Delay = 0 })
		}
		if c.Resolver.Sleep > 0 {
			add(func(n *Scenario) { n.Compiles[i].Resolver.Sleep = 0 })
		}
		if c.Resolver.Kind == "node" && c.Resolver.BaseURL == "" {
			add(func(n *Scenario) { n.Compiles[i].Resolver = ResolverSpec{} })
		}
		if c.Reporter.Delay > 0 || c.Reporter.Sleep > 0 || c.Reporter.Gate {
			add(func(n *Scenario) { n.Compiles[i].Reporter = ReporterSpec{Kind: c.Reporter.Kind, Pass: c.Reporter.Pass} })
		}
		if c.Reporter.Pass {
			add(func(n *Scenario) { n.Compiles[i].Reporter.Pass = false })
		}
		for j := range c.Resolver.Answers {
			j := j
			used := false
			for fi := range s.Files {
				for _, it := range s.Files[fi].Items {
					used = used || it.Spec == c.Resolver.Answers[j].Spec
				}
			}
			if !used {
				add(func(n *Scenario) {
					n.Compiles[i].Resolver.Answers = append(n.Compiles[i].Resolver.Answers[:j], n.Compiles[i].Resolver.Answers[j+1:]...)
				})
			}
		}
	}
	if s.Chunk > 0 {
		add(func(n *Scenario) { n.Chunk = 0 })
	}
	if s.Noise > 1 {
		add(func(n *Scenario) { n.Noise = 1 })
	}
	if s.Noise > 0 {
		add(func(n *Scenario) { n.Noise = 0 })
	}
	for from := range s.Links {
		from := from
		add(func(n *Scenario) { delete(n.Links, from) })
	}
	for i := range s.Dirs {
		i := i
		add(func(n *Scenario) { n.Dirs = append(n.Dirs[:i], n.Dirs[i+1:]...) })
	}
	for i := range s.Files {
		i := i
		if s.Files[i].Link != "" {
			add(func(n *Scenario) { n.Files[i].Link = "" })
		}
		if s.Files[i].EOL != "" {
			add(func(n *Scenario) { n.Files[i].EOL = "" })
		}
		for j := range s.Files[i].Items {
			j := j
			if it := s.Files[i].Items[j]; it.Sep != "\n" && it.Sep != "" {
				add(func(n *Scenario) { n.Files[i].Items[j].Sep = "\n" })
			}
		}
	}
	return out
}

// dropFile removes a file and the statements that import it.
func dropFile(n *Scenario, i int) {
	path := n.Files[i].Path
	n.Files = append(n.Files[:i], n.Files[i+1:]...)
	strip := func(items []Item) []Item {
		var keep []Item
		for _, it := range items {
			if it.Kind != "import" || it.To != path {
				keep = append(keep, it)
			}
		}
		return keep
	}
	for j := range n.Files {
		n.Files[j].Items = strip(n.Files[j].Items)
		for v := range n.Files[j].Versions {
			n.Files[j].Versions[v].Items = strip(n.Files[j].Versions[v].Items)
		}
	}
	for c := range n.Compiles {
		var keep []Answer
		for _, a := range n.Compiles[c].Resolver.Answers {
			if n.Abs(a.Path) != path {
				keep = append(keep, a)
			}
		}
		n.Compiles[c].Resolver.Answers = keep
	}
	var ws []Writer
	for _, w := range n.Writers {
		if w.Path != path {
			ws = append(ws, w)
		}
	}
	n.Writers = ws
}
