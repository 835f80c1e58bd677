package main

import (
	"go/types"
	"strings"
)

// Maps in maps: what is put into an inner map counts only when the inner map is in the outer one.

// orphan looks for a way on which an entry is put into a new inner map that is in no outer map when the work at hand
// is over.
func (g *Graph) orphan(pl *placer, e Eff, isEnd func(*Node) bool) string {
	for _, ch := range g.choices(e.m, e.n) {
		f := ch.v
		if f.op != "fresh" || f.node == nil || len(pl.pubs[f]) == 0 {
			continue
		}
		pubs := map[*Node]bool{}
		for _, p := range pl.pubs[f] {
			pubs[p.n] = true
		}
		used := g.usedAs(e.m, f, e.n)
		p := g.find([]*Node{f.node}, searchOpt{
			avoid: func(n *Node) bool { return pubs[n] || isEnd(n) },
			goalE: func(n *Node, en *env) bool {
				return used(n, en) && g.find([]*Node{n}, searchOpt{start: en, avoid: func(n *Node) bool { return pubs[n] }, goal: isEnd}) != nil
			},
		})
		if p != nil {
			return "the map made at " + g.where(f.node) + " may not be where it belongs: " + g.pathText(p)
		}
	}
	return ""
}

// nilMap looks for a way on which an entry is put into a map that may not be there.
func (g *Graph) nilMap(pl *placer, e Eff) string {
	for _, ch := range g.choices(e.m, e.n) {
		v := ch.v
		slot := ""
		switch {
		case isNilConst(v) || isZeroConst(v):
		case v.op == "lookup" && isMap(v.typ):
			q := pl.of(v)
			if !q.ok() {
				continue
			}
			there := false
			for _, l := range g.loops {
				there = there || (l.body[e.n] || l.header == e.n) && g.entryOf(v, l)
			}
			if there {
				continue
			}
			slot = q.String()
		default:
			continue
		}
		p := g.find([]*Node{e.n.fr.thread.entry}, searchOpt{
			avoid: func(n *Node) bool {
				return slot != "" && n != e.n && (pl.says(n, slot, false) || pl.puts(n, slot))
			},
			goalE: g.usedAs(e.m, v, e.n),
		})
		if p != nil {
			return "there may be no map to put it into: " + g.pathText(p)
		}
	}
	return ""
}

// puts tells whether a node puts a map into a slot.
func (p *placer) puts(n *Node, slot string) bool {
	for _, e := range p.g.effects() {
		if e.n == n && e.kind == "update" && isMap(e.v.typ) {
			m := p.of(e.m)
			if !m.ok() || m.at(p.g.K(e.k)).String() != slot {
				continue
			}
			is := true
			for _, v := range p.g.vals(e.v) {
				q := p.of(v)
				is = is && !isNilConst(v) && (v.op == "fresh" || !q.ok() || q.String() != slot)
			}
			if is {
				return true
			}
		}
	}
	return false
}

// fieldAtExit is what a field of an object holds when the root function returns.
func (g *Graph) fieldAtExit(obj *Term, name string) []*Term {
	var out []*Term
	st, ok := derefType(obj.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				a := g.mk(&Term{op: "fieldaddr", s: name, args: []*Term{obj}, typ: types.NewPointer(st.Field(i).Type())})
				for _, m := range g.memVals(r, a, st.Field(i).Type()) {
					out = append(out, g.vals(m.val)...)
				}
			}
		}
	}
	return out
}

// mapsThere decides that the maps under a root exist whenever a method puts something into them.
func (b *Backend) mapsThere(rule, what, m, tmpl string) {
	c := b.c
	root := rootField(tmpl)
	if g := b.graph(m); g != nil {
		pl := g.newPlacer()
		n := 0
		for _, e := range g.effects() {
			if e.kind != "update" || !under(e.path, root) {
				continue
			}
			n++
			why := g.nilMap(pl, e)
			c.check(why == "", rule, b.obj(m)+"/"+what+"/map", g.where(e.n), why)
		}
	}
	name := strings.TrimPrefix(root, "$0.")
	made := 0
	for _, f := range append(c.ctorsOf("storage", b.name), c.ctorsOf("storage", "Storage")...) {
		g := c.graph(f, opaqueStore(c.p), "store")
		for _, r := range g.rootResults(0) {
			if r.v.op != "fresh" || namedOf(r.v.typ) == nil || namedOf(r.v.typ).Name() != b.name {
				continue
			}
			made++
			// a loader answers nil only with an error
			vs := g.fieldAtExit(r.v, name)
			none := len(vs) > 0
			for _, v := range vs {
				none = none && (isNilConst(v) || isZeroConst(v) || v.op == "zero")
			}
			c.check(!none, rule, fnLabel(f)+"/"+name, g.where(g.root.entry), "the store starts without a map for the "+what)
		}
	}
	c.check(made > 0, rule, b.name+"/constructor", "storage", "no function makes this store")
}

// holdsMap tells whether a type is a map, or a pointer to a struct with a map.
func holdsMap(t types.Type) bool {
	if isMap(t) {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if isMap(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// ownEntries decides that each key of a map of maps gets an inner map of its own: one that is made outside the walk
// over the keys would hold what belongs to all of them.
func (c *Ctx) ownEntries(g *Graph, rule, obj string, in func(*Node) bool) {
	for _, e := range g.effects() {
		if e.kind != "update" || e.v == nil || !in(e.n) || !holdsMap(e.v.typ) {
			continue
		}
		l, _ := g.iterOf(e.k)
		if l == nil || !l.body[e.n] {
			continue
		}
		for _, v := range g.vals(e.v) {
			if v.op != "fresh" || v.node == nil || v.node.fr.thread != e.n.fr.thread {
				continue
			}
			c.check(l.body[v.node], rule, obj+"/own", g.where(e.n), "two keys share the map made at "+g.where(v.node))
		}
	}
}
