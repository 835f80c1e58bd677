package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C35: a set holds exactly what was put into it ------------------------------------------------------------

// branchHas reads a branch as "this key is in this map" and gives the map and the key, nil when it does not say so.
func (g *Graph) branchHas(b *Node) (m, k *Term) {
	if b.kind != NBranch || b.maybe {
		return nil, nil
	}
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if !pol || c.op != "lookupok" && (c.op != "lookup" || !isBoolType(c.typ)) {
		return nil, nil
	}
	return c.args[0], g.single0(c.args[1])
}

// setType is the map field of the set type, its name and its place.
func (c *Ctx) setType() (*types.Named, string) {
	n := c.p.Named("model", "Set")
	if n == nil {
		return nil, ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return n, ""
	}
	name := ""
	for i := 0; i < st.NumFields(); i++ {
		if isMap(st.Field(i).Type()) {
			if name != "" {
				return n, ""
			}
			name = st.Field(i).Name()
		}
	}
	return n, name
}

type setRule struct {
	c    *Ctx
	g    *Graph
	lab  string
	data string // name of the map of the receiver
}

// mine tells whether a map is the one of the receiver, or one that was made because there was none.
func (s *setRule) mine(m *Term) bool {
	g := s.g
	for _, v := range g.vals(m) {
		if g.deref(v, true) == s.data {
			continue
		}
		made := false
		if v.op == "fresh" {
			for _, e := range g.effects() {
				made = made || e.kind == "store" && e.path == s.data && g.mayBe(e.v, v)
			}
		}
		if !made && !isNilConst(v) {
			return false
		}
	}
	return true
}

// others decides that nothing else happens to the map: no other entry is put in or taken out, and it is replaced only
// by a new one where there was none.
func (s *setRule) others(kind string) {
	g, c := s.g, s.c
	for _, e := range g.effects() {
		why := ""
		switch {
		case e.kind == "store" && e.path == s.data:
			none := false
			for _, b := range g.guards(e.n) {
				none = none || s.noMap(b)
			}
			for _, v := range g.vals(e.v) {
				if v.op != "fresh" {
					none = false
				}
			}
			if !none {
				why = "it replaces the elements"
			}
		case e.kind == "store":
			continue
		case e.m == nil || !s.mine(e.m):
			continue
		case e.kind != kind:
			why = "it does not only " + map[string]string{"update": "add", "delete": "remove", "": "ask"}[kind]
		case g.P(g.single0(e.k)) != "$1":
			why = "it is about " + g.P(e.k) + ", not about the element"
		case kind == "update" && !isBoolConst(g.single0(e.v), true) && !isStructVal(e.v):
			why = "the element is put there with " + g.P(e.v)
		}
		c.check(why == "", "only", s.lab, g.where(e.n), why)
	}
}

func isStructVal(t *Term) bool {
	if t.typ == nil {
		return false
	}
	st, ok := t.typ.Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

// done decides that each way through the method does it.
func (s *setRule) done(kind string) {
	g, c := s.g, s.c
	p := g.find([]*Node{g.root.entry}, searchOpt{
		avoid: func(n *Node) bool {
			for _, e := range g.effects() {
				if e.n == n && e.kind == kind && e.m != nil && s.mine(e.m) && e.k != nil && g.P(g.single0(e.k)) == "$1" {
					return true
				}
			}
			if kind == "update" {
				m, k := g.branchHas(n)
				return m != nil && s.mine(m) && g.P(k) == "$1"
			}
			return s.hasNot(n)
		},
		goal: g.isRootExit,
	})
	c.check(p == nil, "done", s.lab, g.where(g.root.entry), "it may not happen: "+g.pathText(p))
}

// hasNot reads a branch as "the element is not there".
func (s *setRule) hasNot(n *Node) bool {
	g := s.g
	if n.kind != NBranch || n.maybe {
		return false
	}
	if s.hasNone(n) {
		return true
	}
	t, pol := g.single0(g.cond(n)), n.pol
	for t.op == "un" && t.s == "!" {
		t, pol = g.single0(t.args[0]), !pol
	}
	return !pol && t.op == "lookupok" && s.mine(t.args[0]) && g.P(g.single0(t.args[1])) == "$1"
}

// answers decides that the answer is whether the element is there.
func (s *setRule) answers() {
	g, c := s.g, s.c
	asked := map[*Term]bool{}
	for _, n := range g.liveNodes {
		l, ok := n.in.(*ssa.Lookup)
		if !ok || n.kind != NInstr {
			continue
		}
		t := g.term(n.fr, l)
		m, k := t, t
		if len(t.args) == 2 {
			m, k = t.args[0], t.args[1]
		}
		if len(t.args) != 2 || !s.mine(m) || g.P(g.single0(k)) != "$1" {
			continue
		}
		kk := &crash{c, g, s.lab}
		for _, o := range kk.okTerms(n) {
			asked[o] = true
		}
		if isBoolType(l.X.Type().Underlying().(*types.Map).Elem()) {
			if l.CommaOk {
				asked[g.mk(&Term{op: "lookup", node: n, args: t.args, typ: types.Typ[types.Bool], fr: n.fr, v: l})] = true
			} else {
				asked[t] = true
			}
		}
	}
	why := ""
	if len(asked) == 0 {
		why = "it does not look for the element"
	}
	for _, in := range []bool{true, false} {
		start := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
		for t := range asked {
			start.facts[t] = in
		}
		for _, r := range g.root.rets {
			if !g.live[r] {
				continue
			}
			res := g.single0(g.term(g.root, r.in.(*ssa.Return).Results[0]))
			g.watch(res)
			p := g.find([]*Node{g.root.entry}, searchOpt{
				start: start,
				avoid: func(n *Node) bool {
					return in && s.hasNot(n)
				},
				goalE: func(n *Node, e *env) bool {
					return n == r && g.eval(g.subst(g.resolve(res, e), e, 0), e) != tri(in)
				},
			})
			if p != nil && why == "" {
				why = "the answer may be wrong for an element that is" + map[bool]string{true: "", false: " not"}[in] + " there: " + g.P(res) + " " + g.pathText(p)
			}
		}
	}
	c.check(why == "", "answer", s.lab, g.where(g.root.entry), why)
}

// size decides that the answer is the number of elements.
func (s *setRule) size() {
	g, c := s.g, s.c
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		res := g.term(g.root, r.in.(*ssa.Return).Results[0])
		counts := false
		for _, l := range g.loops {
			if l.kind == "map" && l.dom != nil && g.deref(l.dom, true) == s.data {
				st, ok := g.counter(l, g.bare(res))
				counts = counts || ok && st == 0
			}
		}
		why := ""
		for _, ch := range g.choices(res, r) {
			v := g.bare(ch.v)
			switch {
			case counts, g.lenCall(v) && g.deref(g.single0(v.args[0]), true) == s.data:
			case isZeroConst(v):
				p := g.find([]*Node{g.root.entry}, searchOpt{
					avoid: s.hasNone,
					goalE: g.usedAs(res, ch.v, r),
				})
				if p != nil {
					why = "it answers 0: " + g.pathText(p)
				}
			default:
				why = "it answers " + g.P(v)
			}
		}
		c.check(why == "", "size", s.lab, g.where(r), why)
	}
}

// hasNone reads a branch as "there are no elements".
func (s *setRule) hasNone(n *Node) bool { return s.g.emptyGuard(n, s.data) || s.noMap(n) }

// noMap reads a branch as "the map was not made yet".
func (s *setRule) noMap(n *Node) bool {
	g := s.g
	if n.kind != NBranch || n.maybe {
		return false
	}
	t, pol := g.single0(g.cond(n)), n.pol
	for t.op == "un" && t.s == "!" {
		t, pol = g.single0(t.args[0]), !pol
	}
	if t.op != "bin" || t.s != "==" && t.s != "!=" || (t.s == "==") != pol {
		return false
	}
	return isNilConst(t.args[0]) && g.deref(t.args[1], true) == s.data || isNilConst(t.args[1]) && g.deref(t.args[0], true) == s.data
}

// copies decides that the result holds the same elements in a map of its own.
func (s *setRule) copies(typ types.Type) {
	g, c := s.g, s.c
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		res := g.term(g.root, r.in.(*ssa.Return).Results[0])
		t := typ
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		why := ""
		for _, ch := range g.setMaps(res, t, r) {
			if ch.v.op != "fresh" {
				why = "its elements are not in a new map: " + g.P(ch.v)
				continue
			}
			ok := false
			for _, src := range g.copySources(ch.v, r) {
				ok = ok || src == s.data
			}
			for _, e := range g.effects() {
				if e.m != nil && g.mayBe(e.m, ch.v) && e.kind != "update" {
					ok = false
				}
				if e.m != nil && g.mayBe(e.m, ch.v) && e.kind == "update" {
					if l, over := g.iterOf(e.k); l == nil || over != s.data {
						ok = false
					}
					for _, v := range g.vals(e.v) {
						if !isBoolConst(v, true) && !isStructVal(v) && g.deref(v, true) != s.data+"["+g.P(e.k)+"]" {
							ok = false
						}
					}
				}
			}
			if !ok {
				why = "the copy does not hold exactly the elements of the set"
			}
		}
		c.check(why == "", "copy", s.lab, g.where(r), why)
	}
}

// setMaps are the maps that a set, or what a pointer to one points to, may have.
func (g *Graph) setMaps(set *Term, st types.Type, at *Node) []Choice {
	if _, ok := set.typ.Underlying().(*types.Pointer); !ok {
		return g.choices(g.setData(set, st), at)
	}
	var out []Choice
	for _, f := range g.vals(set) {
		n := len(out)
		for _, e := range g.effects() {
			if e.kind == "store" && e.m.op == "fieldaddr" && g.mayBe(e.m.args[0], f) {
				out = append(out, g.choices(e.v, e.n)...)
			}
		}
		if n == len(out) {
			out = append(out, Choice{v: g.mk(&Term{op: "const", s: "nil"}), at: at})
		}
	}
	return out
}

func ruleC35(c *Ctx) {
	n, name := c.setType()
	if n == nil || name == "" {
		c.bad("anchor", "model.Set", "", "the set and its map are not found")
		return
	}
	lazy := true
	for _, m := range []string{"Add", "Remove", "Contains", "Size", "Clone"} {
		f := c.p.Method(n, m)
		if f == nil || f.Blocks == nil {
			c.bad("anchor", "model.Set."+m, "", "the method is not found")
			continue
		}
		g := c.graph(f, nil, "set")
		s := &setRule{c, g, fnLabel(f), "$0." + name}
		switch m {
		case "Add":
			s.done("update")
			s.others("update")
			made := false
			for _, e := range g.effects() {
				made = made || e.kind == "store" && e.path == s.data
			}
			lazy = made
		case "Remove":
			s.done("delete")
			s.others("delete")
		case "Contains":
			s.answers()
			s.others("")
		case "Size":
			s.size()
			s.others("")
		case "Clone":
			s.copies(f.Signature.Results().At(0).Type())
			s.others("")
		}
	}
	f := c.p.Func("model", "NewSet")
	if f == nil || f.Blocks == nil {
		c.bad("anchor", "model.NewSet", "", "the constructor is not found")
		return
	}
	g := c.graph(f, nil, "set")
	st := f.Signature.Results().At(0).Type()
	if p, ok := st.Underlying().(*types.Pointer); ok {
		st = p.Elem()
	}
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		why := ""
		for _, ch := range g.setMaps(g.term(g.root, r.in.(*ssa.Return).Results[0]), st, r) {
			if (isNilConst(ch.v) || isZeroConst(ch.v)) && lazy {
				continue
			}
			if ch.v.op != "fresh" {
				why = "its elements are in " + g.P(ch.v)
				continue
			}
			for _, e := range g.effects() {
				if e.m != nil && e.kind == "update" && g.mayBe(e.m, ch.v) {
					why = "it is not empty: " + g.P(e.k) + " is put there"
				}
			}
		}
		c.check(why == "", "new", fnLabel(f), g.where(r), why)
	}
}

func init() {
	register("C35", 1, "", ruleC35)
}
