package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// The thorough tier decides the property again for other platforms (other build constraints, other sizes of int), and
// measures how sensitive the rules are on this tree: it applies small edits to the source in memory, bugs that the
// property must notice and rewrites that it must not, and records what the same rules say to each.

var platforms = [][2]string{{"linux", "386"}, {"darwin", "arm64"}, {"windows", "amd64"}, {"freebsd", "arm"}}

// otherPlatforms adds what fails on another platform only.
func (c *Ctx) otherPlatforms(dir string, pr *property) {
	type key struct{ rule, construct string }
	failed := map[key]bool{}
	for _, o := range c.obls {
		if !o.OK {
			failed[key{o.Rule, o.Construct}] = true
		}
	}
	for _, pf := range platforms {
		name := pf[0] + "/" + pf[1]
		p, err := Load(dir, []string{"GOOS=" + pf[0], "GOARCH=" + pf[1], "CGO_ENABLED=0"}, nil)
		if err != nil {
			c.notes = append(c.notes, "not decided for "+name+": "+firstLine(err.Error()))
			continue
		}
		x := newCtx(p, pr.id, c.tier)
		func() {
			defer func() {
				if r := recover(); r != nil {
					x.bad("analysis", "panic", "", fmt.Sprint(r))
				}
			}()
			pr.run(x)
		}()
		c.counts["platforms"]++
		for _, o := range x.obls {
			c.counts["obligations on other platforms"]++
			if k := (key{o.Rule, o.Construct}); !o.OK && !failed[k] {
				failed[k] = true
				o.Detail = "(" + name + ") " + o.Detail
				c.obls = append(c.obls, o)
			}
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

type edit struct {
	name, head string
	blocks     [][3]string // file, old, new
}

// loadEdits reads selftest/edits/*.txt.
func loadEdits(verif string) []edit {
	fs, _ := filepath.Glob(filepath.Join(verif, "selftest", "edits", "*.txt"))
	sort.Strings(fs)
	var out []edit
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		base := strings.TrimSuffix(filepath.Base(f), ".txt")
		for _, sec := range sections("\n"+string(b), "\n=== ") {
			head, rest, _ := strings.Cut(sec, "\n")
			name, kind, ok := strings.Cut(head, "|")
			if !ok {
				continue
			}
			e := edit{name: base + "/" + strings.TrimSpace(name), head: strings.TrimSpace(kind)}
			for _, blk := range sections("\n"+rest, "\n@@ ") {
				file, body, _ := strings.Cut(blk, "\n")
				for _, ed := range sections("\n"+body, "\n---\n") {
					i := strings.Index("\n"+ed, "\n+++\n")
					if i < 0 {
						continue
					}
					old, neu := ("\n" + ed)[:i], ("\n" + ed)[i+5:]
					e.blocks = append(e.blocks, [3]string{strings.TrimSpace(file), strings.Trim(strings.TrimPrefix(old, "\n"), "\n"), strings.TrimRight(neu, "\n")})
				}
			}
			out = append(out, e)
		}
	}
	return out
}

func sections(s, sep string) []string {
	parts := strings.Split(s, sep)
	return parts[1:]
}

func (e edit) about(id string) (bug, same bool) {
	if e.head == "same" {
		return false, true
	}
	for _, w := range strings.Fields(strings.TrimPrefix(e.head, "bug:")) {
		if w == id {
			return true, false
		}
	}
	return false, false
}

// overlay applies the edit to the current source, nil when it does not fit.
func (e edit) overlay(dir string) map[string][]byte {
	out := map[string][]byte{}
	for _, b := range e.blocks {
		p := filepath.Join(dir, b[0])
		cur, ok := out[p]
		if !ok {
			cur, _ = os.ReadFile(p)
		}
		s := string(cur)
		switch {
		case b[1] == "":
			s += b[2] + "\n"
		case strings.Count(s, b[1]) != 1:
			return nil
		default:
			s = strings.Replace(s, b[1], b[2], 1)
		}
		out[p] = []byte(s)
	}
	return out
}

// tryEdit decides a property on the edited source and prints the verdict (in a process of its own).
func tryEdit(dir, verif string, pr *property, name string, known []Known) {
	for _, e := range loadEdits(verif) {
		if e.name != name {
			continue
		}
		ov := e.overlay(dir)
		if ov == nil {
			fmt.Println("skip")
			return
		}
		p, err := Load(dir, nil, ov)
		if err != nil {
			fmt.Println("skip")
			return
		}
		c := newCtx(p, pr.id, "quick")
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.bad("analysis", "panic", "", fmt.Sprint(r))
				}
			}()
			pr.run(c)
		}()
		n := 0
		for _, o := range c.obls {
			if o.OK {
				n++
				continue
			}
			if !isKnown(known, c.prop, o) {
				fmt.Println("reported", o.Rule)
				return
			}
		}
		if n < pr.floor {
			fmt.Println("reported instances")
			return
		}
		fmt.Println("quiet")
		return
	}
	fmt.Println("skip")
}

func isKnown(known []Known, prop string, o Obl) bool {
	for _, k := range known {
		if k.prop == prop && k.rule == o.Rule && k.construct == o.Construct {
			return true
		}
	}
	return false
}

// sensitivity runs the edits; what they say goes to the evidence only.
func (c *Ctx) sensitivity(verif string, budget time.Duration) map[string]any {
	exe, err := os.Executable()
	if err != nil {
		return nil
	}
	end := time.Now().Add(budget)
	var bugs, same []edit
	for _, e := range loadEdits(verif) {
		b, s := e.about(c.prop)
		if b {
			bugs = append(bugs, e)
		}
		if s {
			same = append(same, e)
		}
	}
	var mu sync.Mutex
	count := map[string]int{}
	rules := map[string]int{}
	var odd []string
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	for _, e := range append(bugs, same...) {
		e := e
		sem <- struct{}{}
		if time.Now().After(end) {
			count["not tried, out of time"]++
			<-sem
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			cmd := exec.Command(exe, "edit", c.prop, e.name)
			out, _ := cmd.Output()
			lines := strings.Split(strings.TrimSpace(string(out)), "\n")
			v := strings.Fields(lines[len(lines)-1])
			mu.Lock()
			defer mu.Unlock()
			kind := "bugs"
			if e.head == "same" {
				kind = "rewrites"
			}
			if len(v) == 0 {
				v = []string{"skip"}
			}
			count[kind+" "+v[0]]++
			if kind == "bugs" && v[0] == "reported" && len(v) > 1 {
				rules[v[1]]++
			}
			if kind == "bugs" && v[0] == "quiet" || kind == "rewrites" && v[0] == "reported" {
				odd = append(odd, kind+" "+e.name+" "+strings.Join(v, " "))
			}
		}()
	}
	wg.Wait()
	sort.Strings(odd)
	return map[string]any{"counts": count, "bugs_reported_by_rule": rules, "unexpected": odd}
}
