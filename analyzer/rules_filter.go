package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C20: filters -------------------------------------------------------------------------------------------

// readsSlice lists the calls that only read a slice they are given.
func readsSlice(name string) bool {
	switch name {
	case "builtin.len", "builtin.cap", "builtin.append", "builtin.copy", "strings.Join", "slices.Clone", "slices.Contains", "slices.Index", "slices.ContainsFunc", "slices.IndexFunc":
		return true
	}
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.")
}

// argWrites lists the places that change the elements of a slice parameter.
func (g *Graph) argWrites(arg *Term) []string {
	var out []string
	isArg := func(t *Term) bool {
		for _, r := range g.sliceRoots(t) {
			if r == arg || g.K(r) == g.K(arg) {
				return true
			}
		}
		return false
	}
	for _, n := range g.elemStores() {
		if !g.live[n] {
			continue
		}
		ia := innerIndex(g.term(n.fr, n.in.(*ssa.Store).Addr))
		if isArg(ia.args[0]) {
			out = append(out, "an element is set at "+g.where(n))
		}
	}
	for _, n := range g.liveNodes {
		cc := n.common()
		if cc == nil || n.callee != nil {
			continue
		}
		name := n.callName()
		for i, a := range g.callArgs(n) {
			if a.typ == nil {
				continue
			}
			x := a
			if x.op == "iface" || x.op == "conv" {
				x = x.args[0]
			}
			if x.typ == nil {
				continue
			}
			if _, ok := x.typ.Underlying().(*types.Slice); !ok || !isArg(x) {
				continue
			}
			if (name == "builtin.append" || name == "builtin.copy" || name == "builtin.clear") && i == 0 {
				out = append(out, strings.TrimPrefix(name, "builtin.")+" writes into it at "+g.where(n))
			} else if !readsSlice(name) {
				out = append(out, name+" gets it at "+g.where(n))
			}
		}
	}
	return out
}

// ofToken decides that a value is computed from one token only.
func (g *Graph) ofToken(v *Term, l *Loop, arg *Term, seen map[*Term]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	v0 := g.single0(v)
	if g.isToken(v0, l, arg) {
		return ""
	}
	if seen[v0] && v0 != v {
		return ""
	}
	seen[v0] = true
	v = v0
	switch v.op {
	case "const", "func":
		return ""
	case "load":
		if innerIndex(v.args[0]) != nil {
			for _, r := range g.sliceRoots(innerIndex(v.args[0]).args[0]) {
				if g.K(r) == g.K(arg) {
					return "it depends on " + g.P(v)
				}
			}
		}
	case "init":
		if b := addrBase(v.args[0]); b.op == "global" && g.p.fixedGlobal(b) {
			return ""
		}
		if strings.HasPrefix(g.P(v), "$0.") {
			return "" // how the filter is set up
		}
		return "it depends on " + g.P(v)
	case "recv":
		return "it depends on " + g.P(v)
	case "len":
		if g.K(v.args[0]) == g.K(arg) {
			return "it depends on the number of tokens"
		}
	case "rangekey", "rangeval":
		// characters of the token
	case "phi":
		if p := v.v.(*ssa.Phi); l.header.in != nil && p.Block() == l.header.in.Block() && v.fr == l.header.fr {
			return "it depends on earlier tokens"
		}
	}
	if as := g.alts(v); as != nil {
		for _, a := range as {
			if why := g.ofToken(a, l, arg, seen); why != "" {
				return why
			}
		}
		return ""
	}
	for _, a := range v.args {
		if why := g.ofToken(a, l, arg, seen); why != "" {
			return why
		}
	}
	if v.op == "fresh" || v.op == "slice" {
		for _, sn := range g.storesTo(v) {
			if why := g.ofToken(g.term(sn.fr, sn.in.(*ssa.Store).Val), l, arg, seen); why != "" {
				return why
			}
		}
	}
	return ""
}

// fixedGlobal tells whether a package variable keeps the value it is initialized with.
func (p *Prog) fixedGlobal(t *Term) bool {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if x := globalOf(st.Addr); x != nil && x.Pkg.Pkg.Path()+"."+x.Name() == t.s && f.Name() != "init" {
						return false
					}
				}
			}
		}
	}
	return true
}

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// isToken tells whether a term is the element of a slice a loop is at.
func (g *Graph) isToken(t *Term, l *Loop, s *Term) bool {
	t = g.single0(t)
	if t.op != "load" {
		return false
	}
	ia := innerIndex(t.args[0])
	if ia == nil || t.args[0] != ia || l.key == nil {
		return false
	}
	if !g.sameCont(ia.args[0], s) {
		return false
	}
	if g.K(ia.args[1]) == g.K(l.key) {
		return true
	}
	c, ok := g.counter(l, ia.args[1])
	return ok && c == 0 && !l.desc
}

// stateful are values that may not be used by two goroutines at once.
func stateful(t types.Type) bool {
	if t == nil {
		return false
	}
	for _, m := range []string{"Transform", "SetSpan", "Span"} {
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, m) != nil && (ms.Lookup(nil, "Reset") != nil) {
			return true
		}
	}
	return false
}

func (c *Ctx) filterTypes() []*types.Named { return c.p.Implementers("filter", "Filter") }

func ruleC20(c *Ctx) {
	c.languages()
	fts := c.filterTypes()
	if len(fts) == 0 {
		c.bad("filters", "filter.Filter", "", "no type implements it")
		return
	}
	for _, nt := range fts {
		for _, f := range exportedMethods(c.p, nt) {
			if f.Name() == "Process" {
				c.filter(nt, f)
			}
		}
	}
}

// stopWords finds the set of words of a filter that drops tokens: a map from string to bool.
func stopWords(nt *types.Named) string {
	st, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok && isStringType(m.Key()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func (c *Ctx) filter(nt *types.Named, f *ssa.Function) {
	g := c.graph(f, nil, "")
	lab := nt.Obj().Name() + ".Process"
	where := c.p.Pos(f.Pos())
	fn := body(f)
	if fn == nil || len(fn.Params) == 0 {
		c.bad("filter", lab, where, "it has no body")
		return
	}
	arg := g.term(g.root, fn.Params[len(fn.Params)-1])
	ws := g.argWrites(arg)
	c.check(len(ws) == 0, "input-unchanged", lab, where, "its argument is changed: "+strings.Join(ws, "; "))
	words := stopWords(nt)

	// what is shared between calls
	for _, n := range g.liveNodes {
		if n.common() == nil || n.callee != nil {
			continue
		}
		for _, a := range g.callArgs(n) {
			for _, v := range g.vals(a) {
				for v.op == "iface" || v.op == "conv" {
					v = v.args[0]
				}
				if !stateful(v.typ) {
					continue
				}
				from := ""
				switch v.op {
				case "call", "res", "fresh", "const":
					x := v
					for x.op == "res" {
						x = x.args[0]
					}
					if x.node != nil && x.node.fr.thread != n.fr.thread && !n.fr.thread.callback {
						from = "goroutines share it"
					}
				default:
					if strings.Contains(g.P(v), "norm.") {
						continue // the normalization forms have no state
					}
					from = "it is " + g.P(v) + ", which all calls share"
				}
				c.check(from == "", "own-transformer", lab, g.where(n), "a transformer keeps state while it works, and "+from)
			}
		}
	}

	for _, e := range g.effects() {
		if !strings.HasPrefix(e.path, "$0") && !strings.HasPrefix(e.path, "glob:") {
			continue
		}
		held := false
		for _, v := range g.locks().must[e.n] {
			held = held || v == heldW
		}
		c.check(held, "no-shared-state", lab, g.where(e.n), e.path+" is changed, which runs of the filter share, without a lock")
	}

	empty := func(b *Node) bool {
		return g.emptyGuard(b, g.P(arg)) || words != "" && g.emptyGuard(b, "$0."+words)
	}
	c.noRaces(g, lab)
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		for _, ch := range g.outcomes(g.term(g.root, r.in.(*ssa.Return).Results[0]), r) {
			if x := g.single0(ch.v); isNilConst(x) || g.emptyFresh(x) || g.K(x) == g.K(arg) {
				c.check(g.onlyIf(ch.at, empty), "result", lab, g.where(ch.at), "tokens get lost or kept: it returns "+g.P(x))
				continue
			}
			c.filterList(g, lab, ch.v, arg, words, ch.at)
		}
	}
}

// outcomes splits a result at the returns of helpers and at merges outside of loops.
func (g *Graph) outcomes(t *Term, at *Node) []Choice {
	var out []Choice
	seen := map[*Term]bool{}
	var rec func(t *Term, at *Node)
	rec = func(t *Term, at *Node) {
		if seen[t] {
			return
		}
		switch t.op {
		case "ret":
			seen[t] = true
			cf := t.node.callee
			var rs []*Node
			for _, r := range cf.rets {
				if res := r.in.(*ssa.Return).Results; t.i < len(res) && g.live[r] {
					rs = append(rs, r)
				}
			}
			for _, r := range rs {
				if len(rs) > 1 {
					at = r
				}
				rec(g.term(cf, r.in.(*ssa.Return).Results[t.i]), at)
			}
			return
		case "phi":
			p := t.v.(*ssa.Phi)
			first := t.fr.first[p.Block()]
			for _, l := range g.loops {
				if l.header == first {
					out = append(out, Choice{t, at})
					return
				}
			}
			seen[t] = true
			for i, e := range p.Edges {
				pb := p.Block().Preds[i]
				if t.fr.first[pb] == nil {
					continue
				}
				from := first
				for _, q := range first.pred {
					if predBlock(q) == pb {
						from = q
					}
				}
				rec(g.term(t.fr, e), from)
			}
			return
		}
		out = append(out, Choice{t, at})
	}
	rec(t, at)
	return out
}

func (c *Ctx) filterList(g *Graph, lab string, res, arg *Term, words string, ret *Node) {
	l, why := g.listOf(res, ret)
	if !c.check(l != nil, "list", lab, g.where(ret), "the result is no list of the mapped tokens: "+why) {
		return
	}
	lp := l.loop
	if !c.check((lp.kind == "slice" || lp.kind == "count") && (lp.dom != nil && g.sameCont(lp.dom, arg) || lp.bound != nil && lp.bound.op == "len" && g.sameCont(lp.bound.args[0], arg)),
		"over-input", lab, g.where(lp.header), "the loop does not run over the tokens") {
		return
	}
	ex := g.exits(lp)
	for i := 0; i < len(ex); i++ {
		if g.dying(ex[i]) {
			ex = append(ex[:i], ex[i+1:]...)
			i--
		}
	}
	c.check(len(ex) == 0, "whole-input", lab, g.where(lp.header), "the loop over the tokens can be left early")
	// the loop is always run, except when there is nothing
	if p := g.find([]*Node{g.root.entry}, searchOpt{
		avoid: func(n *Node) bool { return n == lp.done || g.emptyGuard(n, g.P(arg)) },
		goal:  func(n *Node) bool { return n == ret },
	}); p != nil {
		c.bad("whole-input", lab, g.where(ret), "the loop over the tokens can be left out: "+g.pathText(p))
	}
	if l.kind == "append" {
		c.check(!lp.desc, "order", lab, g.where(lp.header), "the tokens are appended in reverse order")
	} else if lp.desc {
		for _, e := range l.elems {
			if g.K(e.idx) != g.K(lp.key) {
				c.bad("order", lab, g.where(e.node), "the tokens are stored in reverse order")
			}
		}
	}
	put := g.lift(l.put)
	isWord := func(b *Node, want bool) bool {
		if words == "" || b.kind != NBranch || b.maybe {
			return false
		}
		t, pol := g.single0(g.cond(b)), b.pol
		for t.op == "un" && t.s == "!" {
			t, pol = g.single0(t.args[0]), !pol
		}
		if t.op == "lookupok" && pol && want || t.op != "lookup" && t.op != "lookupok" || g.P(t.args[0]) != "$0."+words || !g.isToken(t.args[1], lp, arg) {
			return false
		}
		return pol == want
	}
	if words == "" {
		p := g.perIteration(lp, put)
		c.check(p == nil, "every-token", lab, g.where(lp.header), "a token can be left out: "+g.pathText(p))
	} else {
		p := g.perIteration(lp, func(n *Node) bool { return put(n) || isWord(n, true) })
		c.check(p == nil, "kept", lab, g.where(lp.header), "a token that is no stop word can be left out: "+g.pathText(p))
		if lp.enter != nil {
			p = g.find([]*Node{lp.enter}, searchOpt{
				avoid: func(n *Node) bool { return n == lp.header || isWord(n, false) },
				goal:  put,
			})
			c.check(p == nil, "dropped", lab, g.where(lp.header), "a stop word can be kept: "+g.pathText(p))
		}
	}
	if p := g.twice(l); p != nil {
		c.bad("once", lab, g.where(p[0]), "a token can give two: "+g.pathText(p))
	} else {
		c.ok("once", lab, g.where(lp.header), "")
	}
	for _, e := range l.elems {
		w := ""
		if words != "" {
			if !g.isToken(e.val, lp, arg) {
				w = "it keeps " + g.P(e.val)
			}
		} else {
			w = g.ofToken(e.val, lp, arg, map[*Term]bool{})
			if w == "" && !g.uses(e.val, lp, arg) {
				w = "it does not depend on the token: " + g.P(e.val)
			}
		}
		c.check(w == "", "own-token", lab, g.where(e.node), "the result of a token is not its own: "+w)
	}
	if words == "" {
		if b, why := g.chosenBy(l, arg); b != nil {
			c.bad("own-token", lab, g.where(b), "what becomes of a token is decided by something else: "+why)
		}
	}
	w := g.settled(l.nodes(), ret)
	c.check(w == "", "finished", lab, g.where(ret), w)
}

// chosenBy looks for a branch that depends on more than the token and decides what becomes of it.
func (g *Graph) chosenBy(l *List, arg *Term) (*Node, string) {
	events := map[*Node]string{}
	seen := map[*Term]bool{}
	merges := 0
	// the same computation at two places is the same choice
	var what func(t *Term) string
	what = func(t *Term) string {
		t = g.single0(t)
		if g.isToken(t, l.loop, arg) {
			return "token"
		}
		if t.op == "call" || t.op == "conv" || t.op == "iface" || t.op == "res" || t.op == "bin" {
			s := t.op + t.s + "("
			for _, a := range t.args {
				s += what(a) + ","
			}
			return s + ")"
		}
		return g.P(t)
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		as := g.alts(t)
		mark := func(n *Node, v *Term) {
			if n != nil && g.inLoop(n, l.loop) {
				events[n] = what(v)
			}
		}
		if len(as) > 1 {
			merges++
			switch t.op {
			case "phi":
				p := t.v.(*ssa.Phi)
				for i, e := range p.Edges {
					if pb := p.Block().Preds[i]; t.fr.first[pb] != nil {
						for _, n := range g.edgeNodes(t.fr, pb, p.Block()) {
							mark(n, g.term(t.fr, e))
						}
					}
				}
			case "ret":
				for _, r := range t.node.callee.rets {
					mark(r, g.retVal(t.node.callee, r, t.i))
				}
			case "load":
				for _, m := range g.memVals(t.node, t.args[0], t.typ) {
					mark(m.node, m.val)
				}
			}
		}
		for _, a := range as {
			rec(a)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, e := range l.elems {
		rec(e.val)
	}
	if len(l.elems) < 2 && merges == 0 {
		return nil, ""
	}
	for _, e := range l.elems {
		events[e.node] = what(e.val)
	}
	for _, th := range g.threads {
		if th.spawn == nil {
			continue
		}
		var es []string
		for n, v := range events {
			if n.fr.thread == th {
				es = append(es, v)
			}
		}
		if len(es) > 0 {
			sort.Strings(es)
			events[th.spawn] = strings.Join(es, "|")
		}
	}
	after := func(b *Node) string {
		set := map[string]bool{}
		st, vis := []*Node{b}, map[*Node]bool{}
		for len(st) > 0 {
			n := st[len(st)-1]
			st = st[:len(st)-1]
			if vis[n] || n == l.loop.header {
				continue
			}
			vis[n] = true
			if v, ok := events[n]; ok {
				set[v] = true
			}
			st = append(st, n.succ...)
		}
		return strings.Join(sortedKeys(set), "|")
	}
	for _, b := range g.liveNodes {
		if b.kind != NBranch || b.maybe || !b.pol || b.cond == nil || !g.inLoop(b, l.loop) || len(b.pred) == 0 {
			continue
		}
		if h := g.loopOf[b]; h != nil && h != l.loop && (h.enter == b || h.done == b) || l.loop.enter == b || l.loop.done == b {
			continue
		}
		var other *Node
		for _, o := range b.pred[0].succ {
			if o != b && o.kind == NBranch {
				other = o
			}
		}
		if other == nil || g.dying(b) || g.dying(other) || after(b) == after(other) {
			continue
		}
		if why := g.ofToken(g.cond(b), l.loop, arg, map[*Term]bool{}); why != "" {
			return b, why
		}
	}
	return nil, ""
}

// uses tells whether a value depends on the token.
func (g *Graph) uses(v *Term, l *Loop, arg *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if g.isToken(t, l, arg) {
			return true
		}
		for _, a := range g.alts(t) {
			if rec(a) {
				return true
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		if t.op == "fresh" {
			for _, sn := range g.storesTo(t) {
				if rec(g.term(sn.fr, sn.in.(*ssa.Store).Val)) {
					return true
				}
			}
			for _, n := range g.liveNodes {
				// a builder or buffer gets it
				if n.common() != nil && n.callee == nil {
					as := g.callArgs(n)
					if len(as) > 1 && g.single0(as[0]) == t {
						for _, a := range as[1:] {
							if rec(a) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return rec(v)
}

func init() {
	register("C20", 1, "", ruleC20)
}
