package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one decided obligation: a rule applied to a construct.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where,omitempty"`
	Detail    string `json:"detail,omitempty"`
	OK        bool   `json:"holds"`
}

// Ctx collects the obligations of one property.
type Ctx struct {
	p      *Prog
	prop   string
	tier   string
	obls   []Obl
	graphs map[string]*Graph
	funcs  map[*ssa.Function]bool
	nodes  int
	counts map[string]int
	notes  []string
	extra  map[string]any
}

func newCtx(p *Prog, prop, tier string) *Ctx {
	return &Ctx{p: p, prop: prop, tier: tier, graphs: map[string]*Graph{}, funcs: map[*ssa.Function]bool{}, counts: map[string]int{}}
}

func (c *Ctx) ok(rule, construct, where, detail string) {
	c.obls = append(c.obls, Obl{rule, construct, where, detail, true})
}

func (c *Ctx) bad(rule, construct, where, detail string) {
	c.obls = append(c.obls, Obl{rule, construct, where, detail, false})
}

func (c *Ctx) check(cond bool, rule, construct, where, detail string) bool {
	if cond {
		c.ok(rule, construct, where, "")
	} else {
		c.bad(rule, construct, where, detail)
	}
	return cond
}

// graph builds (once) the inlined graph of a function and counts what it covers.
func (c *Ctx) graph(fn *ssa.Function, opaque func(*ssa.Function) bool, tag string) *Graph {
	if fn == nil {
		return nil
	}
	k := fn.String() + "|" + tag
	if g := c.graphs[k]; g != nil {
		return g
	}
	g := c.p.NewGraph(fn, opaque)
	c.graphs[k] = g
	for _, f := range g.fail {
		c.bad("analysis", fnLabel(fn), c.p.Pos(fn.Pos()), "the graph is incomplete: "+f)
	}
	c.nodes += len(g.liveNodes)
	for _, n := range g.liveNodes {
		c.funcs[n.fr.fn] = true
	}
	return g
}

// Known is a recorded, unrepaired defect.
type Known struct{ prop, rule, construct, text string }

func loadKnown(file string) ([]Known, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		if !strings.HasPrefix(l, "known: ") {
			return nil, fmt.Errorf("bad line in %s: %s", file, l)
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "known: "), " | ", 4)
		if len(parts) != 4 {
			return nil, fmt.Errorf("bad line in %s: %s", file, l)
		}
		out = append(out, Known{parts[0], parts[1], parts[2], parts[3]})
	}
	return out, nil
}

// finish writes the evidence and prints the verdict. It returns the exit code.
func (c *Ctx) finish(verif string, explanation string, floor int, start time.Time, known []Known) int {
	sort.SliceStable(c.obls, func(i, j int) bool { return false })
	n := 0
	for _, o := range c.obls {
		if o.OK {
			n++
		}
	}
	if n < floor {
		c.bad("instances", c.prop, "", fmt.Sprintf("only %d obligations were decided to hold, %d are expected: a rule no longer finds what it applies to", n, floor))
	}
	var bad []Obl
	var kf []string
	used := map[int]bool{}
	for _, o := range c.obls {
		if o.OK {
			continue
		}
		hit := false
		for i, k := range known {
			if k.prop == c.prop && k.rule == o.Rule && k.construct == o.Construct {
				hit = true
				if !used[i] {
					used[i] = true
					kf = append(kf, k.text)
				}
			}
		}
		if !hit {
			bad = append(bad, o)
		}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, fnLabel(f))
	}
	sort.Strings(fns)
	rules := map[string]int{}
	held := map[string]int{}
	for _, o := range c.obls {
		rules[o.Rule]++
		if o.OK {
			held[o.Rule]++
		}
	}
	samples := []any{}
	for i, o := range c.obls {
		if i < 400 {
			samples = append(samples, o)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":            explanation,
			"obligations":            len(c.obls),
			"discharged":             n,
			"obligations_by_rule":    rules,
			"discharged_by_rule":     held,
			"graphs":                 sortedKeys(c.graphs),
			"graph_nodes":            c.nodes,
			"functions_analysed":     len(fns),
			"functions":              fns,
			"packages_loaded":        len(c.p.ByID),
			"module_functions_total": len(c.p.Funcs),
			"instance_floor":         floor,
			"known_findings":         kf,
			"counts":                 c.counts,
			"samples":                samples,
			"notes":                  c.notes,
			"sensitivity":            c.extra,
		},
		"assumptions": assumptions[c.prop],
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(bad),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
	}
	replay := filepath.Join(dir, c.prop+".violation.txt")
	if len(bad) == 0 {
		os.Remove(replay)
		fmt.Printf("%s: %d obligations hold over %d functions (%d graph nodes), %.1f s\n", c.prop, n, len(fns), c.nodes, time.Since(start).Seconds())
		return 0
	}
	var txt strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&txt, "rule %s, construct %s: %s\n    at %s\n", o.Rule, o.Construct, o.Detail, o.Where)
	}
	os.WriteFile(replay, []byte(txt.String()), 0644)
	fmt.Print(txt.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, replay)
	return 1
}
