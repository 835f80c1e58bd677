package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Slices that a loop fills: one element per iteration, by append or by position.

// List is a slice whose elements are put there by one loop.
type List struct {
	loop  *Loop
	kind  string // "append" or "slots"
	elems []Elem
	fresh *Term // the slice of a slots list
}

// lift turns an event into one that also counts the start of a goroutine that always has it.
func (g *Graph) lift(hit func(*Node) bool) func(*Node) bool {
	memo := map[*Thread]int{}
	var ev func(n *Node) bool
	ev = func(n *Node) bool {
		if hit(n) {
			return true
		}
		for _, th := range g.threads {
			if th.spawn != n || th.callback && !runsOnce(th.of) {
				continue
			}
			if memo[th] == 0 {
				memo[th] = no
				if g.find([]*Node{th.entry}, searchOpt{avoid: ev, goal: func(m *Node) bool { return m == th.exit }}) == nil {
					memo[th] = yes
				}
			}
			if memo[th] == yes {
				return true
			}
		}
		return false
	}
	return ev
}

// runsOnce lists the external functions that call their function argument exactly once.
func runsOnce(name string) bool {
	switch name {
	case "(*sync.WaitGroup).Go", "(*golang.org/x/sync/errgroup.Group).Go":
		return true
	}
	return false
}

// counter recognises a number that is start in the first iteration of a loop and one more in each following one.
func (g *Graph) counter(l *Loop, t *Term) (start int64, ok bool) {
	off := int64(0)
	t = g.single0(t)
	for t.op == "bin" && (t.s == "+" || t.s == "-") {
		x, c := t.args[0], t.args[1]
		k, isC := constInt(c)
		if !isC && t.s == "+" {
			x, c = c, x
			k, isC = constInt(c)
		}
		if !isC {
			return 0, false
		}
		if t.s == "-" {
			k = -k
		}
		off += k
		t = g.single0(x)
	}
	if t.op != "phi" {
		return 0, false
	}
	p := t.v.(*ssa.Phi)
	if t.fr != l.header.fr || l.header.in == nil || p.Block() != l.header.in.Block() {
		return 0, false
	}
	var init *Term
	for i, e := range p.Edges {
		pb := p.Block().Preds[i]
		if t.fr.first[pb] == nil {
			continue
		}
		v := g.term(t.fr, e)
		last := g.lastOf(t.fr, pb)
		if last != nil && l.body[last] {
			// every way round adds one
			var one func(v *Term, d int) bool
			one = func(v *Term, d int) bool {
				if d > 6 || v == t {
					return false
				}
				if v.op == "phi" && v != t {
					for _, a := range g.alts(v) {
						if !one(a, d+1) {
							return false
						}
					}
					return true
				}
				if v.op != "bin" || v.s != "+" {
					return false
				}
				for k := 0; k < 2; k++ {
					if c, isC := constInt(v.args[1-k]); isC && c == 1 && v.args[k] == t {
						return true
					}
				}
				return false
			}
			if !one(v, 0) {
				return 0, false
			}
			continue
		}
		if init != nil && init != v {
			return 0, false
		}
		init = v
	}
	if init == nil {
		return 0, false
	}
	c, isC := constInt(g.single0(init))
	return c + off, isC
}

// sizeOf names the length of a slice: the length it was made with.
func (g *Graph) madeLen(f *Term) *Term {
	if ms, ok := f.v.(*ssa.MakeSlice); ok {
		return g.term(f.fr, ms.Len)
	}
	// make with a constant length is an array
	if f.op == "slice" && f.args[1].op == "none" && f.args[0].op == "fresh" && f.args[2].op != "none" {
		if al, ok := f.args[0].v.(*ssa.Alloc); ok {
			if _, ok := derefType(al.Type()).Underlying().(*types.Array); ok {
				return f.args[2]
			}
		}
	}
	return nil
}

// isCount tells whether a number is the count of iterations of a loop.
func (g *Graph) isCount(n *Term, l *Loop) bool {
	if n == nil {
		return false
	}
	n = g.single0(n)
	name := g.P(n)
	if l.bound != nil && g.P(l.bound) == name {
		return true
	}
	if l.dom == nil {
		return false
	}
	if n.op != "len" {
		d := g.single(l.dom)
		if d == nil || l.kind != "slice" {
			return false
		}
		m := g.madeLen(d)
		return m != nil && g.P(g.single0(m)) == name
	}
	return g.sameCont(n.args[0], l.dom)
}

// sameCont tells whether two terms are the same container.
func (g *Graph) sameCont(a, b *Term) bool {
	if a == b {
		return true
	}
	x, y := g.single(a), g.single(b)
	if x != nil && x == y {
		return true
	}
	if g.deref(a, true) == g.deref(b, true) {
		return true
	}
	if x != nil && y != nil {
		return false
	}
	// one of the same values
	xs, ys := g.vals(a), g.vals(b)
	if len(xs) != len(ys) || len(xs) == 0 {
		return false
	}
	for _, v := range xs {
		ok := false
		for _, w := range ys {
			ok = ok || v == w
		}
		if !ok || v.op == "slice" || isNilConst(v) && len(xs) == 1 {
			return false
		}
	}
	return true
}

// inLoop tells whether a node runs inside an iteration of a loop, in goroutines started there too.
func (g *Graph) inLoop(n *Node, l *Loop) bool {
	for _, m := range g.loopsAround(n) {
		if m == l {
			return true
		}
	}
	return false
}

// listOf finds the loop that fills a slice that is used at a node. The description says why it is no such list.
func (g *Graph) listOf(s *Term, use *Node) (*List, string) {
	if use == nil && s.op == "phi" {
		use = s.fr.nodes[s.v.(*ssa.Phi)]
	}
	if use != nil {
		if why := g.lost(s, use); why != "" {
			return nil, why
		}
	}
	ct, ok := g.contents(s)
	if !ok {
		return nil, "its elements come from elsewhere"
	}
	if len(ct) == 0 {
		return nil, "nothing is put into it"
	}
	l := &List{}
	roots := map[*Term]bool{}
	for _, r := range g.sliceRoots(s) {
		if r.op != "append" {
			roots[r] = true
		}
	}
	for _, e := range ct {
		kind := "append"
		if e.idx != nil {
			kind = "slots"
		}
		if e.rest != nil {
			return nil, "whole slices are appended to it at " + g.where(e.node)
		}
		if l.kind != "" && l.kind != kind {
			return nil, "it is filled in two ways"
		}
		l.kind = kind
		ls := g.loopsAround(e.node)
		if len(ls) == 0 {
			return nil, "an element is put into it outside of a loop at " + g.where(e.node)
		}
		if l.loop != nil && l.loop != ls[0] {
			return nil, "several loops fill it"
		}
		l.loop = ls[0]
	}
	l.elems = ct
	if l.kind == "append" {
		for r := range roots {
			switch {
			case isNilConst(r):
			case r.op == "fresh":
				if n := g.madeLen(r); n != nil {
					if c, ok := constInt(g.single0(n)); !ok || c != 0 {
						return nil, "it starts with empty elements"
					}
				} else if al, ok := r.v.(*ssa.Alloc); ok {
					if arr, ok := derefType(al.Type()).Underlying().(*types.Array); !ok || arr.Len() != 0 && !startsEmpty(al) {
						return nil, "it starts with elements"
					}
				}
				if r.node != nil && g.inLoop(r.node, l.loop) {
					return nil, "it starts anew in the loop"
				}
			default:
				return nil, "it starts with " + g.P(r)
			}
		}
		if why := g.carried(l); why != "" {
			return nil, why
		}
		return l, ""
	}
	if len(roots) != 1 {
		return nil, "it is one of several slices"
	}
	for r := range roots {
		if r.op != "fresh" {
			return nil, "it may be " + g.P(r)
		}
		l.fresh = r
		if r.node != nil && g.inLoop(r.node, l.loop) {
			return nil, "it starts anew in the loop"
		}
	}
	if !g.isCount(g.madeLen(l.fresh), l.loop) {
		return nil, "its length is not the number of its elements"
	}
	for _, e := range ct {
		if l.loop.key != nil && g.K(e.idx) == g.K(l.loop.key) && (l.loop.kind == "slice" || l.loop.kind == "count") {
			continue
		}
		c, ok := g.counter(l.loop, e.idx)
		if !ok || c != 0 {
			return nil, "the position " + g.P(e.idx) + " does not count the elements (" + g.where(e.node) + ")"
		}
	}
	return l, ""
}

// startsEmpty tells whether an array is the memory of a slice that is made without elements.
func startsEmpty(al *ssa.Alloc) bool {
	if al.Comment != "makeslice" {
		return false
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Slice:
			if c, ok := r.High.(*ssa.Const); !ok || c.Int64() != 0 {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// carried decides that each append extends what the earlier iterations appended.
func (g *Graph) carried(l *List) string {
	app := map[*Node]bool{}
	for _, e := range l.elems {
		app[e.node] = true
	}
	for _, e := range l.elems {
		c := e.node.common()
		if c == nil {
			return "it is filled in an unknown way"
		}
		base := g.term(e.node.fr, c.Args[0])
		own := false
		for _, r := range g.sliceRoots(base) {
			if r.op == "append" && r.node != nil && app[r.node] {
				own = true
			}
		}
		if !own {
			return "the append at " + g.where(e.node) + " forgets earlier elements"
		}
		// no reset inside the loop
		type visit struct {
			t  *Term
			in bool
		}
		seen := map[visit]bool{}
		bad := ""
		var rec func(t *Term, in bool)
		rec = func(t *Term, in bool) {
			if seen[visit{t, in}] || bad != "" {
				return
			}
			seen[visit{t, in}] = true
			switch t.op {
			case "phi":
				p := t.v.(*ssa.Phi)
				for i, ed := range p.Edges {
					pb := p.Block().Preds[i]
					if t.fr.first[pb] == nil {
						continue
					}
					last := g.lastOf(t.fr, pb)
					rec(g.term(t.fr, ed), last != nil && l.loop.body[last])
				}
			case "append":
				if t.node == nil || !app[t.node] {
					bad = "it is extended by " + g.P(t)
					return
				}
				rec(t.args[0], true)
			case "load":
				for _, m := range g.memVals(t.node, t.args[0], t.typ) {
					rec(m.val, m.node != nil && l.loop.body[m.node])
				}
			case "slice":
				if in {
					bad = "it is cut in the loop"
				}
				rec(t.args[0], in)
			case "const", "fresh":
				if in {
					bad = "it starts anew in the loop"
				}
			default:
				for _, a := range g.alts(t) {
					rec(a, in)
				}
			}
		}
		rec(base, false)
		if bad != "" {
			return bad
		}
	}
	return ""
}

// put tells whether a node puts an element into a list.
func (l *List) put(n *Node) bool {
	for _, e := range l.elems {
		if e.node == n {
			return true
		}
	}
	return false
}

// field gives the stored parts of the elements: the whole value, or what is stored to a field of it.
func (g *Graph) elemField(l *List, name string) []*Term {
	var out []*Term
	for _, e := range l.elems {
		if e.sub != nil {
			if e.sub.s == name {
				out = append(out, e.val)
			}
			continue
		}
		for _, v := range g.fieldVals(e.val, name) {
			out = append(out, v)
		}
	}
	return out
}

// fieldVals gives the values of a field of a struct value.
func (g *Graph) fieldVals(t *Term, name string) []*Term {
	st, ok := derefType(t.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			f := g.fieldOf(t, name, i, st.Field(i).Type())
			return []*Term{f}
		}
	}
	return nil
}

// twice looks for an iteration that puts two elements into an append list (or one and the same field twice).
func (g *Graph) twice(l *List) []*Node {
	for _, e := range l.elems {
		if l.kind != "append" {
			continue
		}
		p := g.find([]*Node{e.node}, searchOpt{
			avoid: func(n *Node) bool { return n == l.loop.header },
			goal:  func(n *Node) bool { return l.put(n) },
		})
		if p != nil {
			return p
		}
	}
	return nil
}
