package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Choice is one alternative of a merged value with the node at which it is chosen.
type Choice struct {
	v  *Term
	at *Node
}

// choices expands a merged value into its alternatives, each with the place where control decides for it.
func (g *Graph) choices(t *Term, at *Node) []Choice {
	type key struct {
		t  *Term
		at *Node
	}
	seen := map[key]bool{}
	var out []Choice
	var rec func(t *Term, at *Node)
	rec = func(t *Term, at *Node) {
		if seen[key{t, at}] {
			return
		}
		seen[key{t, at}] = true
		switch t.op {
		case "phi":
			p := t.v.(*ssa.Phi)
			pn := t.fr.nodes[p]
			for i, e := range p.Edges {
				pb := p.Block().Preds[i]
				if t.fr.first[pb] == nil {
					continue
				}
				from := pn
				first := t.fr.first[p.Block()]
				for _, q := range first.pred {
					if predBlock(q) == pb {
						from = q
						break
					}
				}
				rec(g.term(t.fr, e), from)
			}
			return
		case "ret":
			cf := t.node.callee
			for _, r := range cf.rets {
				res := r.in.(*ssa.Return).Results
				if t.i < len(res) {
					n := r
					if len(cf.rets) == 1 {
						n = at
					}
					rec(g.term(cf, res[t.i]), n)
				}
			}
			return
		case "load":
			ms := g.memVals(t.node, t.args[0], t.typ)
			for _, m := range ms {
				n := m.node
				if n == nil || len(ms) == 1 {
					n = at
				}
				rec(m.val, n)
			}
			return
		}
		as := g.alts(t)
		if as == nil {
			out = append(out, Choice{t, at})
			return
		}
		for _, a := range as {
			rec(a, at)
		}
	}
	rec(t, at)
	return out
}

// rootResults are the alternatives of result i of the entry function, with where they are chosen.
func (g *Graph) rootResults(i int) []Choice {
	var out []Choice
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		res := r.in.(*ssa.Return).Results
		if i < len(res) {
			out = append(out, g.choices(g.term(g.root, res[i]), r)...)
		}
	}
	return out
}

func isZeroConst(t *Term) bool {
	return t.op == "const" && (t.s == "nil" || t.s == "zero" || t.s == "0" || t.s == "false" || t.s == `""`)
}

// stripConv drops numeric conversions.
func stripConv(t *Term) *Term {
	for t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// bare is the single value behind conversions.
func (g *Graph) bare(t *Term) *Term {
	t = g.single0(t)
	for t.op == "conv" {
		t = g.single0(t.args[0])
	}
	return t
}

// mainResult names the single source of result i of the entry function. Zero results are accepted where the
// source is known to be absent.
func (g *Graph) mainResult(i int) (string, string) {
	main := ""
	ch := g.rootResults(i)
	for _, c := range ch {
		v := stripConv(c.v)
		if isZeroConst(v) {
			continue
		}
		p := g.P(v)
		if main != "" && p != main {
			return "", "it returns " + main + " or " + p
		}
		main = p
	}
	if main == "" {
		return "", "it always returns the zero value"
	}
	for _, c := range ch {
		if isZeroConst(c.v) && !g.absentSomewhere(c.at, main) {
			return "", "it returns the zero value although " + main + " may exist (" + g.where(c.at) + ")"
		}
	}
	return main, ""
}

// absentSomewhere tells whether a node only runs when the named slot, or a container on the way to it, is absent.
func (g *Graph) absentSomewhere(n *Node, path string) bool {
	for _, b := range g.guards(n) {
		if g.absentBranch(b, path) {
			return true
		}
	}
	p := g.find([]*Node{n.fr.thread.entry}, searchOpt{
		avoid: func(m *Node) bool { return m != n && g.absentBranch(m, path) },
		goal:  func(m *Node) bool { return m == n },
	})
	return p == nil
}

// parentPath drops the last selector of a path.
func parentPath(p string) string {
	if strings.HasSuffix(p, "]") {
		d := 0
		for i := len(p) - 1; i >= 0; i-- {
			switch p[i] {
			case ']':
				d++
			case '[':
				d--
				if d == 0 {
					return p[:i]
				}
			}
		}
		return ""
	}
	d := 0
	for i := len(p) - 1; i >= 0; i-- {
		switch p[i] {
		case ']', ')':
			d++
		case '[', '(':
			d--
		case '.':
			if d == 0 {
				return p[:i]
			}
		}
	}
	return ""
}

// originOf names the container a value is, or is a complete copy of, at node at.
func (g *Graph) originOf(t *Term, at *Node) []string {
	var out []string
	for _, v := range g.vals(t) {
		if v.op == "fresh" {
			if _, ok := v.v.(*ssa.MakeMap); ok {
				out = append(out, g.copySources(v, at)...)
				continue
			}
		}
		if isZeroConst(v) {
			continue
		}
		if v.op == "call" && v.s == "maps.Clone" {
			out = append(out, g.deref(v.args[0], true))
			continue
		}
		out = append(out, g.deref(v, true))
	}
	return out
}
