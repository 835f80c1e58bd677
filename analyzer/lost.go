package main

import "golang.org/x/tools/go/ssa"

// lost looks for a way on which elements that were put into a list are gone when it is used: the list starts anew, or
// is cut, after that and before the use. It tells where, or "".
func (g *Graph) lost(s *Term, use *Node) string {
	type visit struct {
		t  *Term
		at *Node
	}
	var puts []*Node
	var starts []visit
	seen := map[visit]bool{}
	phis := map[*Node]bool{}
	cells := map[*Term]bool{}
	var rec func(t *Term, at *Node)
	rec = func(t *Term, at *Node) {
		if seen[visit{t, at}] {
			return
		}
		seen[visit{t, at}] = true
		switch t.op {
		case "append":
			if t.node == nil {
				return
			}
			puts = append(puts, t.node)
			rec(t.args[0], t.node)
			return
		case "slice":
			if t.args[0].op == "fresh" && g.madeLen(t) != nil {
				rec(t.args[0], at)
				return
			}
			lo, hi := g.single0(t.args[1]), g.single0(t.args[2])
			k, isC := constInt(lo)
			whole := (lo.op == "none" || isC && k == 0) && (hi.op == "none" || hi.op == "len" && g.sameCont(hi.args[0], t.args[0]))
			if !whole {
				e := at
				if t.node != nil {
					e = t.node
				}
				starts = append(starts, visit{t, e})
			}
			rec(t.args[0], at)
			return
		case "const":
			starts = append(starts, visit{t, at})
			return
		case "fresh":
			puts = append(puts, g.storesToSlice(t)...)
			starts = append(starts, visit{t, at})
			return
		case "phi":
			p := t.v.(*ssa.Phi)
			phis[t.fr.first[p.Block()]] = true
			for i, e := range p.Edges {
				pb := p.Block().Preds[i]
				if t.fr.first[pb] == nil {
					continue
				}
				from := at
				if last := g.lastOf(t.fr, pb); last != nil {
					from = last
				}
				for _, q := range t.fr.first[p.Block()].pred {
					if predBlock(q) == pb {
						from = q
						break
					}
				}
				rec(g.term(t.fr, e), from)
			}
			return
		case "ret":
			cf := t.node.callee
			for _, r := range cf.rets {
				if res := r.in.(*ssa.Return).Results; t.i < len(res) && g.live[r] {
					rec(g.term(cf, res[t.i]), r)
				}
			}
			return
		case "load":
			cells[t.args[0]] = true
			for _, m := range g.memVals(t.node, t.args[0], t.typ) {
				if m.node != nil {
					rec(m.val, m.node)
				} else if m.val.op != "const" {
					rec(m.val, at)
				}
			}
			return
		}
		for _, a := range g.alts(t) {
			rec(a, at)
		}
	}
	rec(s, use)
	// carried: the list outlives an iteration of a loop
	carried := func(o *Loop) bool {
		if phis[o.header] {
			return true
		}
		for c := range cells {
			for c.op == "fieldaddr" || c.op == "indexaddr" {
				c = c.args[0]
			}
			if c.op != "fresh" || c.node == nil || !g.inLoop(c.node, o) {
				return true
			}
		}
		return false
	}
	isUse := func(n *Node) bool { return n == use }
	climb := func(n *Node, th *Thread) *Node {
		for n != nil && n.fr.thread != th {
			n = n.fr.thread.spawn
		}
		return n
	}
	for _, a := range puts {
		for _, st := range starts {
			e := st.at
			if e == use && st.t.op == "slice" {
				return "it is cut at " + g.where(e)
			}
			if e == nil || e == use {
				continue
			}
			u := climb(use, e.fr.thread)
			b := climb(a, e.fr.thread)
			if u == nil || b == nil {
				continue
			}
			if u != use {
				isUse = func(n *Node) bool { return n == u }
			}
			again := map[*Node]bool{}
			for _, o := range g.loops {
				if o.body[e] && o.body[b] && o.body[u] && !carried(o) {
					again[o.header] = true
				}
			}
			if e == b {
				// the append itself starts anew
				if g.loopOf[e] == nil {
					continue
				}
			}
			p := g.find([]*Node{b}, searchOpt{
				avoid: func(n *Node) bool { return (isUse(n) || again[n]) && n != e },
				goalE: func(n *Node, en *env) bool {
					return n == e && g.find([]*Node{e}, searchOpt{start: en, goal: isUse}) != nil
				},
			})
			if p == nil {
				continue
			}
			return "what is put there at " + g.where(a) + " can be gone: it starts anew or is cut at " + g.where(e)
		}
	}
	return ""
}

// mapLost looks for a way on which a map that was filled is replaced by another one before it is used at a node.
func (g *Graph) mapLost(t *Term, use *Node, stop func(*Node) bool) string {
	ch := g.choices(t, use)
	for _, e := range g.effects() {
		if e.kind != "update" || e.m == nil || e.n.fr.thread != use.fr.thread {
			continue
		}
		vs := g.vals(e.m)
		in := false
		for _, c := range ch {
			for _, v := range vs {
				in = in || v == c.v && !isNilConst(v)
			}
		}
		if !in {
			continue
		}
		for _, c := range ch {
			if c.at == nil || c.at == use || c.at.fr.thread != use.fr.thread || len(vs) == 1 && vs[0] == c.v {
				continue
			}
			if c.v.op != "fresh" && !isNilConst(c.v) {
				continue
			}
			// one path, with what it knows where the other map is chosen
			p := g.find([]*Node{e.n}, searchOpt{
				avoid: func(n *Node) bool { return n != c.at && (n == use || stop(n)) },
				goalE: func(n *Node, e *env) bool {
					return n == c.at && g.find([]*Node{n}, searchOpt{start: e, avoid: stop, goal: func(n *Node) bool { return n == use }}) != nil
				},
			})
			if p != nil {
				return "what is put there at " + g.where(e.n) + " is not in the map chosen at " + g.where(c.at)
			}
		}
	}
	return ""
}
