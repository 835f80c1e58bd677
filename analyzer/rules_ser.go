package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: the readers of serialized data put back what the writers wrote. The writer is turned into the tree of tables,
// vectors and leaves it builds (by slot number, whatever generated function was used); the reader is evaluated over
// this tree and must give back the identity.

const fbB = "(*github.com/google/flatbuffers/go.Builder)."
const fbT = "(*github.com/google/flatbuffers/go.Table)."

// sval is a piece of written data.
type sval struct {
	kind  string // str, num, table, vec
	t     *Term  // of a leaf
	num   string // kind of number
	def   string // default of a number
	slots map[int64]*sval
	// vec
	loop *Loop // over the map whose entries the elements are
	dom  string
	elem *sval
	n    *Node
}

type serW struct {
	c    *Ctx
	g    *Graph
	lab  string
	b    *Term
	memo map[*Term]*sval
	deep int
}

func constOf(t *Term) (int64, bool) { return constInt(stripConv(t)) }

// builder calls of a method
func (w *serW) bcalls(suffix string) []*Node {
	var out []*Node
	for _, n := range w.g.liveNodes {
		if n.kind == NInstr && strings.HasPrefix(n.callName(), fbB+suffix) {
			out = append(out, n)
		}
	}
	return out
}

func isB(n *Node, m string) bool { return n.callName() == fbB+m }

// opens finds the start that an end belongs to.
func (w *serW) opens(end *Node, start, stop string) *Node {
	g := w.g
	var out *Node
	for _, s := range w.bcalls(start) {
		if !isB(s, start) || s.fr.thread != end.fr.thread {
			continue
		}
		p := g.find([]*Node{s}, searchOpt{
			avoid: func(n *Node) bool { return n != end && (isB(n, start) || isB(n, stop)) },
			goal:  func(n *Node) bool { return n == end },
		})
		if p == nil {
			continue
		}
		if out != nil {
			return nil
		}
		out = s
	}
	return out
}

// between tells whether n can run after s and before e without leaving the two.
func (w *serW) between(s, n, e *Node, start, stop string) bool {
	av := func(x *Node) bool { return isB(x, start) || isB(x, stop) }
	return w.g.find([]*Node{s}, searchOpt{avoid: av, goal: func(x *Node) bool { return x == n }}) != nil &&
		w.g.find([]*Node{n}, searchOpt{avoid: func(x *Node) bool { return x != e && av(x) }, goal: func(x *Node) bool { return x == e }}) != nil
}

func (w *serW) bad(n *Node, text string) *sval {
	w.c.bad("written", w.lab, w.g.where(n), text)
	return nil
}

// offset is what was written at an offset.
func (w *serW) offset(t *Term, at *Node) *sval {
	g := w.g
	t = g.one(stripConv(t))
	if v, ok := w.memo[t]; ok {
		return v
	}
	if w.deep > 20 {
		return w.bad(at, "the data refers to itself")
	}
	w.deep++
	defer func() { w.deep-- }()
	if t.op != "call" || t.node == nil || !strings.HasPrefix(t.s, fbB) {
		return w.bad(at, "it writes "+g.P(t)+", which is nothing built before")
	}
	if g.one(t.args[0]) != w.b {
		return w.bad(at, "the data was built by another builder")
	}
	var v *sval
	switch strings.TrimPrefix(t.s, fbB) {
	case "CreateString", "CreateByteString", "CreateSharedString", "CreateByteVector":
		v = &sval{kind: "str", t: g.single0(t.args[1]), n: t.node}
	case "EndObject":
		v = w.object(t.node)
	case "EndVector":
		v = w.vector(t.node)
	default:
		return w.bad(at, "it writes the result of "+t.s)
	}
	w.memo[t] = v
	return v
}

func (w *serW) object(end *Node) *sval {
	g := w.g
	s := w.opens(end, "StartObject", "EndObject")
	if s == nil {
		return w.bad(end, "the object has no single start")
	}
	n, ok := constOf(g.callArgs(s)[1])
	if !ok {
		return w.bad(s, "the number of slots is not constant")
	}
	v := &sval{kind: "table", slots: map[int64]*sval{}, n: end}
	for _, p := range w.bcalls("Prepend") {
		m := strings.TrimPrefix(p.callName(), fbB)
		if !strings.HasSuffix(m, "Slot") || !w.between(s, p, end, "StartObject", "EndObject") {
			continue
		}
		as := g.callArgs(p)
		if g.one(as[0]) != w.b {
			return w.bad(p, "the slot is written with another builder")
		}
		k, ok := constOf(as[1])
		if !ok || k < 0 || k >= n {
			return w.bad(p, fmt.Sprintf("slot %s does not exist, the object has %d", g.P(as[1]), n))
		}
		if v.slots[k] != nil {
			return w.bad(p, fmt.Sprintf("slot %d is written more than once", k))
		}
		def := g.bare(as[3])
		if def.op != "const" {
			return w.bad(p, "the default is not constant")
		}
		var x *sval
		kind := strings.TrimSuffix(strings.TrimPrefix(m, "Prepend"), "Slot")
		if kind == "UOffsetT" {
			if x = w.offset(as[2], p); x == nil {
				return nil
			}
		} else {
			if why := g.narrowed(as[2]); why != "" {
				return w.bad(p, why)
			}
			x = &sval{kind: "num", num: kind, def: def.s, t: stripAll(g, as[2]), n: p}
		}
		v.slots[k] = x
		// on every path, except where it is the default
		path := g.find([]*Node{s}, searchOpt{
			avoid: func(q *Node) bool { return q == p || x.kind == "num" && g.saysEqual(q, x.t, def) },
			goal:  func(q *Node) bool { return q == end },
		})
		if path != nil {
			return w.bad(p, fmt.Sprintf("slot %d may not be written: %s", k, g.pathText(path)))
		}
	}
	return v
}

// stripAll drops conversions and single choices.
func stripAll(g *Graph, t *Term) *Term {
	for i := 0; i < 20; i++ {
		u := g.bare(t)
		if u == t {
			return t
		}
		t = u
	}
	return t
}

// narrowed reports a conversion that loses numbers of 32 bits.
func (g *Graph) narrowed(t *Term) string {
	for i := 0; i < 20; i++ {
		t = g.single0(t)
		if t.op != "conv" {
			return ""
		}
		switch t.s {
		case "int", "int32", "int64":
		default:
			return "the number is converted to " + t.s
		}
		t = t.args[0]
	}
	return ""
}

// saysEqual: a branch says that a value is the constant.
func (g *Graph) saysEqual(n *Node, t, c *Term) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	x, pol := g.single0(g.cond(n)), n.pol
	for x.op == "un" && x.s == "!" {
		x, pol = g.single0(x.args[0]), !pol
	}
	if x.op != "bin" {
		return false
	}
	for i := 0; i < 2; i++ {
		d := g.bare(x.args[1-i])
		if d.op == "const" && d.s == c.s && g.K(stripAll(g, x.args[i])) == g.K(t) {
			return x.s == "==" && pol || x.s == "!=" && !pol
		}
	}
	return false
}

func (w *serW) vector(end *Node) *sval {
	g := w.g
	s := w.opens(end, "StartVector", "EndVector")
	if s == nil {
		return w.bad(end, "the vector has no single start")
	}
	sa := g.callArgs(s)
	if k, ok := constOf(sa[1]); !ok || k != 4 {
		return w.bad(s, "the elements of the vector are not offsets of 4 bytes")
	}
	var put *Node
	for _, p := range w.bcalls("Prepend") {
		if !w.between(s, p, end, "StartVector", "EndVector") {
			continue
		}
		if !isB(p, "PrependUOffsetT") || put != nil {
			return w.bad(p, "it is filled by something else than one PrependUOffsetT")
		}
		put = p
	}
	if put == nil {
		return w.bad(end, "nothing is put into the vector")
	}
	if g.one(g.callArgs(put)[0]) != w.b {
		return w.bad(put, "it is filled by another builder")
	}
	var L *Loop
	for _, l := range g.loopsAround(put) {
		if !l.body[s] && !l.body[end] {
			L = l
		}
	}
	if L == nil || g.loopOf[put] != L {
		return w.bad(put, "the elements are not put there by one loop")
	}
	val := g.callArgs(put)[1]
	et := g.elemOf(val)
	if et == nil {
		return w.bad(put, "the element "+g.P(val)+" is not taken from a list")
	}
	xs, idx := et.args[0], et.args[1]
	if why := g.everyIndex(L, xs, idx); why != "" {
		return w.bad(put, why)
	}
	if p := g.perIteration(L, func(n *Node) bool { return n == put }); p != nil {
		return w.bad(put, "an element can be left out: "+g.pathText(p))
	}
	if p := g.find([]*Node{s}, searchOpt{avoid: func(n *Node) bool { return n == L.done }, goal: func(n *Node) bool { return n == end }}); p != nil {
		return w.bad(put, "the elements can be left out: "+g.pathText(p))
	}
	l, why := g.listOf(xs, L.header)
	if l == nil {
		return w.bad(put, "the elements are no complete list: "+why)
	}
	if why := g.startsAnew(l); why != "" {
		return w.bad(l.elems[0].node, why)
	}
	if p := g.perIteration(l.loop, l.put); p != nil {
		return w.bad(l.elems[0].node, "an entry can be left out: "+g.pathText(p))
	}
	if l.kind == "append" {
		for _, e := range l.elems {
			if p := g.find([]*Node{e.node}, searchOpt{avoid: func(n *Node) bool { return n == l.loop.header }, goal: l.put}); p != nil {
				return w.bad(e.node, "an entry can be put there twice: "+g.pathText(p))
			}
		}
	}
	for _, n := range []*Node{s, end} {
		a := g.callArgs(n)
		k := stripAll(g, a[len(a)-1])
		if n == s {
			k = stripAll(g, a[2])
		}
		if !(k.op == "len" && g.sameCont(k.args[0], xs)) && !g.isCount(k, l.loop) && !g.isCount(k, L) {
			return w.bad(n, "the length of the vector is "+g.P(k)+", not the number of its elements")
		}
	}
	// the list is complete
	if p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return n == l.loop.done }, goal: func(n *Node) bool { return n == s }}); p != nil {
		return w.bad(s, "the vector can be written before all entries are there: "+g.pathText(p))
	}
	ml, dom := g.mapLoop(l.loop)
	if ml == "" {
		return w.bad(l.elems[0].node, "the entries are not those of a map: "+g.P(l.loop.dom))
	}
	v := &sval{kind: "vec", loop: l.loop, dom: dom, n: end}
	for _, e := range l.elems {
		x := w.offset(e.val, e.node)
		if x == nil {
			return nil
		}
		if v.elem != nil && !sameSval(g, v.elem, x) {
			return w.bad(e.node, "the elements differ in their form")
		}
		v.elem = x
	}
	return v
}

func sameSval(g *Graph, a, b *sval) bool {
	if a == b {
		return true
	}
	if a.kind != b.kind || a.num != b.num || a.def != b.def || a.dom != b.dom || len(a.slots) != len(b.slots) {
		return false
	}
	if a.t != nil && g.K(a.t) != g.K(b.t) {
		return false
	}
	for k, x := range a.slots {
		if b.slots[k] == nil || !sameSval(g, x, b.slots[k]) {
			return false
		}
	}
	return a.elem == nil || sameSval(g, a.elem, b.elem)
}

// elemOf is the address of the list element a value is.
func (g *Graph) elemOf(t *Term) *Term {
	for i := 0; i < 20; i++ {
		t = stripConv(t)
		if t.op == "load" && t.args[0].op == "indexaddr" {
			return t.args[0]
		}
		u := g.single0(t)
		if u == t {
			return nil
		}
		t = u
	}
	return nil
}

// everyIndex decides that a loop takes each index of a list once.
func (g *Graph) everyIndex(l *Loop, xs, idx *Term) string {
	if l.key == nil || l.kind != "slice" && l.kind != "count" {
		return "the loop does not count through the list"
	}
	if l.kind == "slice" && !g.sameCont(l.dom, xs) || l.kind == "count" && !g.isLen(l.bound, xs) {
		return "the loop is over " + g.P(l.bound) + ", not over the list"
	}
	i := stripConv(idx)
	if g.K(i) == g.K(l.key) {
		return ""
	}
	// len-1-i
	if s := g.K(i); i.op == "bin" && i.s == "-" {
		x, y := stripConv(i.args[0]), stripConv(i.args[1])
		one := func(t *Term) bool { c, ok := constInt(t); return ok && c == 1 }
		islen := func(t *Term) bool { return g.isLen(t, xs) }
		isidx := func(t *Term) bool { return g.K(t) == g.K(l.key) }
		if isidx(y) && x.op == "bin" && x.s == "-" && islen(x.args[0]) && one(x.args[1]) ||
			one(y) && x.op == "bin" && x.s == "-" && islen(x.args[0]) && isidx(x.args[1]) {
			return ""
		}
		_ = s
	}
	return "the index is " + g.P(idx)
}

func (g *Graph) isLen(n, xs *Term) bool {
	if n == nil {
		return false
	}
	n = g.single0(n)
	if n.op == "len" {
		return g.sameCont(n.args[0], xs)
	}
	if f := g.single(xs); f != nil && f.op == "fresh" {
		if m := g.madeLen(f); m != nil && g.P(g.single0(m)) == g.P(n) {
			return true
		}
	}
	return false
}

// startsAnew decides that a list that is filled inside another loop is a new one in each iteration of it.
func (g *Graph) startsAnew(l *List) string {
	outer := l.loop.parent
	if outer == nil {
		return ""
	}
	if l.kind == "slots" {
		if l.fresh.node == nil || !outer.body[l.fresh.node] {
			return "the list of an earlier entry is used again"
		}
		return ""
	}
	// what it is when its loop starts
	bad := ""
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || bad != "" {
			return
		}
		seen[t] = true
		switch t.op {
		case "append":
			bad = "the list still has the elements of earlier entries"
			return
		case "slice":
			if t.args[1].op == "none" && t.args[2].op != "none" {
				if c, ok := constInt(t.args[2]); ok && c == 0 {
					return
				}
			}
			rec(t.args[0])
			return
		case "const", "fresh":
			return
		case "load":
			if a := t.args[0]; a.op == "fresh" && a.node != nil && outer.body[a.node] && !l.loop.body[a.node] {
				return // a variable of this iteration
			}
			for _, m := range g.memVals(l.loop.enter, t.args[0], t.typ) {
				if m.node != nil && l.loop.body[m.node] {
					// stored by an iteration of the loop: the start of the next outer iteration must replace it
					if g.find([]*Node{m.node}, searchOpt{
						avoid: func(n *Node) bool {
							st, ok := n.in.(*ssa.Store)
							return ok && n.kind == NInstr && !l.loop.body[n] && g.term(n.fr, st.Addr) == t.args[0]
						},
						goal: func(n *Node) bool { return n == outer.header },
					}) != nil && g.find([]*Node{outer.enter}, searchOpt{
						avoid: func(n *Node) bool {
							st, ok := n.in.(*ssa.Store)
							return ok && n.kind == NInstr && !l.loop.body[n] && g.term(n.fr, st.Addr) == t.args[0]
						},
						goal: func(n *Node) bool { return n == l.loop.header },
					}) != nil {
						bad = "the list still has the elements of earlier entries"
					}
					continue
				}
				rec(m.val)
			}
			return
		}
		for _, a := range g.alts(t) {
			rec(a)
		}
	}
	// at the start of the loop: what comes into its header from outside
	var start func(t *Term, d int)
	start = func(t *Term, d int) {
		if t.op == "phi" && d < 10 {
			p := t.v.(*ssa.Phi)
			if t.fr == l.loop.header.fr && l.loop.header.in != nil && p.Block() == l.loop.header.in.Block() {
				for i, ed := range p.Edges {
					pb := p.Block().Preds[i]
					if t.fr.first[pb] == nil {
						continue
					}
					if last := g.lastOf(t.fr, pb); last == nil || !l.loop.body[last] {
						rec(g.term(t.fr, ed))
					}
				}
				return
			}
			if n := t.fr.nodes[p]; n != nil && l.loop.body[n] {
				for _, a := range g.alts(t) {
					start(a, d+1)
				}
				return
			}
		}
		if t.op == "append" && t.node != nil && l.loop.body[t.node] {
			start(t.args[0], d+1)
			return
		}
		rec(t)
	}
	for _, e := range l.elems {
		if c := e.node.common(); c != nil {
			start(g.term(e.node.fr, c.Args[0]), 0)
		}
	}
	return bad
}

// mapLoop tells over which map a loop goes, directly or by a list of its keys, and the name of the key.
func (g *Graph) mapLoop(l *Loop) (key, dom string) {
	switch l.kind {
	case "map":
		return g.K(l.key), g.K(l.dom)
	case "slice":
		if m := g.keysOf(l.dom, l.header); m != "" {
			return "elem", m
		}
	}
	return "", ""
}

// isKey and isVal tell whether a value is the key, or the value, of the entry a vector element is made of.
func (g *Graph) entryKey(v *sval, t *Term) bool {
	l := v.loop
	t = g.single0(t)
	if l.kind == "map" {
		return g.K(t) == g.K(l.key)
	}
	e := g.elemOf(t)
	return e != nil && g.sameCont(e.args[0], l.dom) && g.K(e.args[1]) == g.K(l.key)
}

// serialized builds the tree of a serializer.
func (c *Ctx) serialized(f *ssa.Function, lab string) (*Graph, *sval) {
	g := c.graph(f, nil, "ser")
	if g == nil {
		return nil, nil
	}
	w := &serW{c: c, g: g, lab: lab, memo: map[*Term]*sval{}}
	where := g.where(g.root.entry)
	for _, th := range g.threads {
		if th.spawn != nil {
			c.bad("written", lab, g.where(th.spawn), "the data is built by several goroutines")
			return g, nil
		}
	}
	fins := w.bcalls("Finish")
	var fin *Node
	for _, n := range fins {
		if isB(n, "Finish") {
			if fin != nil {
				c.bad("written", lab, g.where(n), "there is more than one end")
				return g, nil
			}
			fin = n
		}
	}
	if why := g.builderOrder(); !c.check(why == "", "written", lab+"/order", where, why) {
		return g, nil
	}
	if !c.check(fin != nil, "written", lab, where, "the data is never finished") {
		return g, nil
	}
	w.b = g.one(g.callArgs(fin)[0])
	if !c.check(w.b.op == "call" && strings.HasSuffix(w.b.s, "flatbuffers/go.NewBuilder") && g.loopOf[w.b.node] == nil, "own-builder", lab, g.where(fin), "it is built by "+g.P(w.b)+", which others may use at the same time or again") {
		return g, nil
	}
	root := w.offset(g.callArgs(fin)[1], fin)
	if root == nil {
		return g, nil
	}
	if !c.check(root.kind == "table", "written", lab, g.where(fin), "the root is no table") {
		return g, nil
	}
	// the result
	for _, ch := range g.rootResults(0) {
		v := g.one(ch.v)
		ok := v.op == "call" && v.s == fbB+"FinishedBytes" && g.one(v.args[0]) == w.b
		if !ok && v.op == "slice" {
			ok = g.fieldOfB(v.args[0], w.b, "Bytes") && v.args[2].op == "none" && v.args[1].op == "call" && v.args[1].s == fbB+"Head"
		}
		if ok {
			p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return n == fin }, goal: func(n *Node) bool { return n == v.node }})
			ok = p == nil
		}
		c.check(ok, "result", lab, g.where(ch.at), "it returns "+g.P(v)+" and not the finished data")
	}
	// it does not change what it is given
	for _, e := range g.effects() {
		if b := baseParam(e); b {
			c.bad("input-kept", lab, g.where(e.n), "it changes "+e.cont)
		}
	}
	c.ok("input-kept", lab, where, "")
	return g, root
}

func baseParam(e Eff) bool {
	p := strings.TrimLeft(e.cont, "&*")
	return strings.HasPrefix(p, "$")
}

func (g *Graph) fieldOfB(t, b *Term, name string) bool {
	return t.op == "load" && t.args[0].op == "fieldaddr" && t.args[0].s == name && g.one(t.args[0].args[0]) == b
}

// ---- reading ------------------------------------------------------------------------------------------------

// bufAcc is what a generated function of the buffers does.
type bufAcc struct {
	kind string // root, str, num, len, table, elemtable, elemstr
	slot int64
	num  string
	def  string
	obj  int // parameter that is filled, -1: none
	idx  int // parameter with the index
}

// bufReader tells whether a function reads a table.
func bufReader(f *ssa.Function) bool {
	isTab := func(t types.Type) bool {
		st, ok := derefType(t).Underlying().(*types.Struct)
		if !ok || st.NumFields() == 0 {
			return false
		}
		return strings.HasSuffix(st.Field(0).Type().String(), "flatbuffers/go.Table")
	}
	if f.Parent() != nil || f.Name() == "Init" || f.Name() == "Table" {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		return isTab(r.Type())
	}
	return f.Signature.Results().Len() == 1 && isTab(f.Signature.Results().At(0).Type()) && f.Signature.Params().Len() == 2
}

// accessor decides what a function reads.
func (c *Ctx) accessor(f *ssa.Function) (*bufAcc, string) {
	g := c.graph(f, nil, "acc")
	if g == nil {
		return nil, "it has no source"
	}
	var parse func(t *Term) string
	parse = func(t *Term) string {
		t = stripAll(g, t)
		switch t.op {
		case "call":
			if t.s == fbT+"Offset" && isTabOf(g, t.args[0], 0) {
				k, ok := constOf(t.args[1])
				if !ok || k < 4 || k%2 != 0 {
					return "?"
				}
				return fmt.Sprintf("o%d", (k-4)/2)
			}
			if (t.s == fbT+"Vector" || t.s == fbT+"Indirect") && isTabOf(g, t.args[0], 0) {
				return map[string]string{"Vector": "vec", "Indirect": "ind"}[strings.TrimPrefix(t.s, fbT)] + "(" + parse(t.args[1]) + ")"
			}
			if strings.HasSuffix(t.s, "flatbuffers/go.GetUOffsetT") {
				x := t.args[0]
				if x.op == "slice" && x.args[0].op == "param" && x.args[2].op == "none" && x.args[1].op != "none" {
					return "u(" + parse(x.args[0]) + "@" + parse(x.args[1]) + ")"
				}
				if x.op == "param" {
					return "u(" + parse(x) + "@0)"
				}
			}
		case "load", "init":
			if a := t.args[0]; a.op == "fieldaddr" && a.s == "Pos" && isTabOf(g, a.args[0], 0) {
				return "pos"
			}
			if a := t.args[0]; a.op == "fieldaddr" && a.s == "Bytes" && isTabOf(g, a.args[0], 0) {
				return "bytes"
			}
		case "param":
			return "$" + t.s
		case "const":
			return t.s
		case "bin":
			switch t.s {
			case "+":
				var ps []string
				var fl func(u *Term)
				fl = func(u *Term) {
					u = stripAll(g, u)
					if u.op == "bin" && u.s == "+" {
						fl(u.args[0])
						fl(u.args[1])
						return
					}
					ps = append(ps, parse(u))
				}
				fl(t)
				sort.Strings(ps)
				return strings.Join(ps, "+")
			case "*":
				a, b := parse(t.args[0]), parse(t.args[1])
				if strings.HasPrefix(b, "$") {
					a, b = b, a
				}
				return a + "*" + b
			case "<<":
				if k, ok := constInt(t.args[1]); ok && k == 2 {
					return parse(t.args[0]) + "*4"
				}
			}
		}
		return "?" + g.P(t)
	}
	slotIn := func(s, pat string) (int64, bool) {
		var k int64
		n, err := fmt.Sscanf(s, pat, &k)
		return k, err == nil && n == 1 && fmt.Sprintf(pat, k) == s
	}
	// what is put into another table
	var pos []string
	bytesOK := true
	obj := -1
	fresh := false
	for _, e := range g.effects() {
		if e.kind != "store" {
			return nil, "it changes " + e.cont
		}
		a := e.m
		if a.op != "fieldaddr" || a.args[0].op != "fieldaddr" || a.args[0].s != "_tab" {
			return nil, "it changes " + e.path
		}
		for _, x := range g.vals(a.args[0].args[0]) {
			switch {
			case x.op == "param" && x.i > 0:
				obj = x.i
			case x.op == "fresh":
				fresh = true
			default:
				return nil, "it changes " + e.path
			}
		}
		switch a.s {
		case "Pos":
			pos = append(pos, parse(e.v))
		case "Bytes":
			b := parse(e.v)
			bytesOK = bytesOK && (b == "bytes" || b == "$0" && f.Signature.Recv() == nil)
		default:
			return nil, "it changes " + e.path
		}
	}
	if f.Signature.Recv() == nil {
		if len(pos) == 1 && pos[0] == "$1+u($0@$1)" && bytesOK && fresh {
			return &bufAcc{kind: "root", obj: -1}, ""
		}
		return nil, "the root is at " + strings.Join(pos, ",")
	}
	// only absent when the slot is
	absent := func(slot int64, at *Node) bool {
		return g.onlyIf(at, func(n *Node) bool {
			if n.kind != NBranch || n.maybe {
				return false
			}
			t, pol := g.single0(g.cond(n)), n.pol
			for t.op == "un" && t.s == "!" {
				t, pol = g.single0(t.args[0]), !pol
			}
			if t.op != "bin" {
				return false
			}
			x, y, op := t.args[0], t.args[1], t.s
			if k, ok := constOf(x); ok && k == 0 {
				x, y = y, x
				op = map[string]string{"<": ">", ">": "<", "==": "==", "!=": "!="}[op]
			}
			if k, ok := constOf(y); !ok || k != 0 || parse(x) != fmt.Sprintf("o%d", slot) {
				return false
			}
			return op == "==" && pol || (op == "!=" || op == ">") && !pol
		})
	}
	acc := (*bufAcc)(nil)
	set := func(a bufAcc) string {
		if acc != nil && *acc != a {
			return "it reads two things"
		}
		acc = &a
		return ""
	}
	idxOf := func(pat string) int {
		for i := 1; i <= 2; i++ {
			if strings.Contains(pat, fmt.Sprintf("$%d*4", i)) {
				return i
			}
		}
		return 0
	}
	norm := func(s string) string { return strings.NewReplacer("$1*4", "J", "$2*4", "J").Replace(s) }
	var zero []Choice
	for _, ch := range g.rootResults(0) {
		v := stripConv(ch.v)
		if v.op == "const" && v.s != "true" {
			zero = append(zero, ch)
			continue
		}
		switch {
		case v.op == "call" && strings.HasPrefix(v.s, fbT) && isTabOf(g, v.args[0], 0):
			m := strings.TrimPrefix(v.s, fbT)
			p := parse(v.args[1])
			var why string
			if k, ok := slotIn(p, "o%d"); ok && m == "VectorLen" {
				why = set(bufAcc{kind: "len", slot: k, obj: -1})
			} else if k, ok := slotIn(p, "o%d+pos"); ok && (m == "ByteVector" || m == "String") {
				why = set(bufAcc{kind: "str", slot: k, obj: -1})
			} else if k, ok := slotIn(norm(p), "J+vec(o%d)"); ok && (m == "ByteVector" || m == "String") {
				why = set(bufAcc{kind: "elemstr", slot: k, obj: -1, idx: idxOf(p)})
			} else if k, ok := slotIn(norm(p), "vec(o%d)+J"); ok && (m == "ByteVector" || m == "String") {
				why = set(bufAcc{kind: "elemstr", slot: k, obj: -1, idx: idxOf(p)})
			} else if k, ok := slotIn(p, "o%d+pos"); ok && strings.HasPrefix(m, "Get") {
				why = set(bufAcc{kind: "num", slot: k, num: strings.TrimPrefix(m, "Get"), obj: -1})
			} else {
				why = "it reads " + m + " at " + p
			}
			if why != "" {
				return nil, why
			}
		case v.op == "const" || v.op == "param" || v.op == "fresh":
			if len(pos) == 0 || obj < 0 || !bytesOK {
				return nil, "it gives back a table that it does not fill"
			}
			for _, p := range pos {
				var why string
				if k, ok := slotIn(p, "ind(o%d+pos)"); ok {
					why = set(bufAcc{kind: "table", slot: k, obj: obj})
				} else if k, ok := slotIn(norm(p), "ind(J+vec(o%d))"); ok {
					why = set(bufAcc{kind: "elemtable", slot: k, obj: obj, idx: idxOf(p)})
				} else if k, ok := slotIn(norm(p), "ind(vec(o%d)+J)"); ok {
					why = set(bufAcc{kind: "elemtable", slot: k, obj: obj, idx: idxOf(p)})
				} else {
					why = "the table is at " + p
				}
				if why != "" {
					return nil, why
				}
			}
		default:
			return nil, "it returns " + g.P(v)
		}
	}
	if acc == nil {
		return nil, "it reads nothing"
	}
	for _, z := range zero {
		if !absent(acc.slot, z.at) {
			return nil, "it may say that slot " + fmt.Sprint(acc.slot) + " is empty although it is not"
		}
		if acc.kind == "num" {
			acc.def = stripConv(z.v).s
		}
	}
	return acc, ""
}

// isTabOf tells whether a term is the address of the table of a parameter.
func isTabOf(g *Graph, t *Term, param int) bool {
	t = g.single0(t)
	return t.op == "fieldaddr" && t.s == "_tab" && t.args[0].op == "param" && t.args[0].i == param
}

type serR struct {
	c     *Ctx
	g     *Graph
	wg    *Graph // of the writer
	root  *sval
	lab   string
	accs  map[string]*bufAcc
	loops map[*sval]*Loop // the loop that reads a vector
	why   string
}

func (r *serR) fail(n *Node, s string) *sval {
	if r.why == "" {
		r.why = s + " (" + r.g.where(n) + ")"
	}
	return nil
}

func (r *serR) acc(n *Node) *bufAcc {
	if n == nil {
		return nil
	}
	name := n.callName()
	if a, ok := r.accs[name]; ok {
		return a
	}
	r.accs[name] = nil
	cc := n.common()
	if cc == nil {
		return nil
	}
	f := cc.StaticCallee()
	if f == nil || !bufReader(f) {
		return nil
	}
	a, why := r.c.accessor(f)
	if a == nil {
		r.fail(n, fnLabel(f)+" is no reader of a slot: "+why)
	}
	r.accs[name] = a
	return a
}

// table evaluates which written table a reader object stands for at a place.
func (r *serR) table(t *Term, at *Node, d int) *sval {
	g := r.g
	if d > 10 {
		return r.fail(at, "the tables refer to each other")
	}
	t = g.one(t)
	if t.op == "call" && t.node != nil {
		a := r.acc(t.node)
		if a == nil {
			return r.fail(at, "it reads "+g.P(t))
		}
		switch a.kind {
		case "root":
			as := g.callArgs(t.node)
			if k, ok := constOf(as[1]); !ok || k != 0 || g.single0(as[0]).op != "param" {
				return r.fail(t.node, "the root is not read from the start of the data")
			}
			return r.root
		case "table", "elemtable":
			return r.filled(a, t.node, d)
		}
		return r.fail(at, "it reads "+g.P(t))
	}
	if t.op != "fresh" {
		return r.fail(at, "it reads the table "+g.P(t))
	}
	var by *Node
	var ba *bufAcc
	for _, n := range g.liveNodes {
		if n.kind != NInstr || n.common() == nil {
			continue
		}
		a := r.acc(n)
		if a == nil || a.obj < 0 {
			continue
		}
		if !g.mayBe(g.callArgs(n)[a.obj], t) {
			continue
		}
		if by != nil {
			return r.fail(n, "the table "+g.P(t)+" is filled in several places")
		}
		by, ba = n, a
	}
	if by == nil {
		return r.fail(at, "the table that is read was never filled")
	}
	if p := g.find([]*Node{at.fr.thread.entry}, searchOpt{avoid: func(n *Node) bool { return n == by }, goal: func(n *Node) bool { return n == at }}); p != nil {
		return r.fail(at, "the table may be read before it is filled: "+g.pathText(p))
	}
	for l := g.loopOf[by]; l != nil; l = l.parent {
		if !l.body[at] {
			return r.fail(at, "the table of the last entry is read after the loop")
		}
		if l.enter == nil {
			return r.fail(at, "the loop is not understood")
		}
		if p := g.find([]*Node{l.enter}, searchOpt{avoid: func(n *Node) bool { return n == by }, goal: func(n *Node) bool { return n == at }}); p != nil {
			return r.fail(at, "the table of an earlier entry may be read: "+g.pathText(p))
		}
	}
	return r.filled(ba, by, d)
}

func (r *serR) filled(a *bufAcc, by *Node, d int) *sval {
	g := r.g
	as := g.callArgs(by)
	p := r.table(as[0], by, d+1)
	if p == nil {
		return nil
	}
	x := p.slots[a.slot]
	if x == nil {
		return r.fail(by, fmt.Sprintf("slot %d is never written", a.slot))
	}
	if a.kind == "table" {
		if x.kind != "table" {
			return r.fail(by, fmt.Sprintf("slot %d is no table", a.slot))
		}
		return x
	}
	if x.kind != "vec" || x.elem.kind != "table" {
		return r.fail(by, fmt.Sprintf("slot %d is no list of tables", a.slot))
	}
	if !r.index(x, as[a.idx], p, by, d) {
		return nil
	}
	return x.elem
}

// index decides that an index runs over all elements of a vector.
func (r *serR) index(x *sval, idx *Term, p *sval, by *Node, d int) bool {
	g := r.g
	idx = stripAll(g, idx)
	for l := g.loopOf[by]; l != nil; l = l.parent {
		if l.key == nil || g.K(stripConv(l.key)) != g.K(idx) {
			continue
		}
		b := l.bound
		if b == nil {
			continue
		}
		b = stripAll(g, b)
		if b.op != "call" || b.node == nil {
			r.fail(by, "the loop goes up to "+g.P(b))
			return false
		}
		a := r.acc(b.node)
		if a == nil || a.kind != "len" {
			r.fail(by, "the loop goes up to "+g.P(b))
			return false
		}
		q := r.table(g.callArgs(b.node)[0], b.node, d+1)
		if q == nil {
			return false
		}
		if q.slots[a.slot] != x {
			r.fail(by, "the loop goes up to the length of another list")
			return false
		}
		if o := r.loops[x]; o != nil && o != l {
			r.fail(by, "several loops read the list")
			return false
		}
		r.loops[x] = l
		return true
	}
	r.fail(by, "the index "+g.P(idx)+" does not go through the list")
	return false
}

// leaf evaluates a value that is read.
func (r *serR) leaf(t *Term, at *Node) *sval {
	g := r.g
	if why := g.narrowed(t); why != "" {
		return r.fail(at, why)
	}
	t = stripAll(g, t)
	if t.op != "call" || t.node == nil {
		return r.fail(at, "it is "+g.P(t)+", which is not read")
	}
	a := r.acc(t.node)
	if a == nil {
		return r.fail(at, "it is "+g.P(t))
	}
	as := g.callArgs(t.node)
	p := r.table(as[0], t.node, 0)
	if p == nil {
		return nil
	}
	x := p.slots[a.slot]
	if x == nil {
		return r.fail(t.node, fmt.Sprintf("slot %d is never written", a.slot))
	}
	switch a.kind {
	case "str":
		if x.kind == "str" {
			return x
		}
	case "num":
		if x.kind == "num" {
			if x.num != a.num {
				return r.fail(t.node, "it was written as "+x.num+" and is read as "+a.num)
			}
			if x.def != a.def {
				return r.fail(t.node, "the writer leaves out "+x.def+", the reader takes "+a.def+" for it")
			}
			return x
		}
	case "elemstr":
		if x.kind == "vec" && x.elem.kind == "str" {
			if !r.index(x, as[a.idx], p, t.node, 0) {
				return nil
			}
			return x.elem
		}
	}
	return r.fail(t.node, fmt.Sprintf("slot %d was written as %s", a.slot, x.kind))
}

// vecs lists the vectors of a tree.
func (v *sval) vecs(f func(*sval)) {
	if v.kind == "vec" {
		f(v)
		v.elem.vecs(f)
	}
	for _, x := range v.slots {
		x.vecs(f)
	}
}

// entryNames are the names of the value of the entry that a vector element is made of.
func (r *serR) entryNames(v *sval) []string {
	g := r.wg
	l := v.loop
	var out []string
	if l.kind == "map" {
		out = append(out, g.K(l.dom)+"["+g.K(l.key)+"]")
		if l.val != nil {
			out = append(out, g.K(l.val))
		}
		return out
	}
	// by a list of keys: what is looked up with the key
	for _, n := range g.liveNodes {
		lk, ok := n.in.(*ssa.Lookup)
		if !ok || n.kind != NInstr {
			continue
		}
		t := g.term(n.fr, lk)
		if lk.CommaOk {
			continue
		}
		if g.entryKey(v, g.term(n.fr, lk.Index)) && g.K(g.term(n.fr, lk.X)) == v.dom {
			out = append(out, g.K(t))
		}
	}
	return out
}

func (r *serR) isOne(t *Term, names []string) bool {
	k := r.wg.K(stripAll(r.wg, t))
	for _, n := range names {
		if n == k {
			return true
		}
	}
	return false
}

// same decides that a value that was read is the written one.
func (r *serR) same(t *Term, typ types.Type, names []string, at *Node, rule, what string) bool {
	g, c := r.g, r.c
	ok := func(cond bool, n *Node, s string) bool {
		r.why, s = "", s
		return c.check(cond, rule, r.lab+"/"+what, g.where(n), s)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		r.why = ""
		x := r.leaf(t, at)
		if x == nil {
			return ok(false, at, r.why)
		}
		return ok(r.isOne(x.t, names), at, "it is read from where "+r.wg.P(x.t)+" was written")
	case *types.Struct:
		all := true
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			var ns []string
			for _, n := range names {
				ns = append(ns, n+"."+f.Name())
			}
			all = r.same(g.fieldOf(g.single0(t), f.Name(), i, f.Type()), f.Type(), ns, at, rule, what+"."+f.Name()) && all
		}
		return all
	case *types.Map:
		return r.sameMap(t, u, names, at, rule, what)
	}
	return ok(false, at, "values of type "+typ.String()+" are not read back")
}

func (r *serR) sameMap(t *Term, mt *types.Map, names []string, at *Node, rule, what string) bool {
	g, c := r.g, r.c
	check := func(cond bool, n *Node, s string) bool {
		return c.check(cond, rule, r.lab+"/"+what, g.where(n), s)
	}
	R := g.single(t)
	if !check(R != nil && R.op == "fresh", at, "the map is "+g.P(t)+", no single new map") {
		return false
	}
	outer := g.loopOf[at]
	if R.node != nil && outer != nil {
		for l := outer; l != nil; l = l.parent {
			if !l.body[R.node] && !check(false, at, "all entries share one map") {
				return false
			}
		}
	}
	put := map[*Node]bool{}
	var V *sval
	for _, e := range g.effects() {
		if e.m == nil || !g.mayBe(e.m, R) || e.kind == "store" {
			continue
		}
		if !check(e.kind == "update", e.n, "it removes entries that it read") {
			return false
		}
		// the key
		r.why = ""
		k := r.leaf(e.k, e.n)
		if k == nil {
			return check(false, e.n, "its key: "+r.why)
		}
		var vec *sval
		for _, v := range r.allVecs() {
			for _, n := range names {
				if v.dom == n && r.wg.entryKey(v, k.t) {
					vec = v
				}
			}
		}
		if !check(vec != nil, e.n, "its key is read from where "+r.wg.P(k.t)+" was written") {
			return false
		}
		L := r.loops[vec]
		if !check(L != nil && L.body[e.n], e.n, "the entry is not put there in the loop that reads it") {
			return false
		}
		V = vec
		if basicBool(mt.Elem()) {
			if !check(isBoolConst(g.single0(e.v), true), e.n, "the value is "+g.P(e.v)) {
				return false
			}
		} else if !r.same(e.v, mt.Elem(), r.entryNames(vec), e.n, rule, what+"[]") {
			return false
		}
		put[e.n] = true
	}
	if !check(V != nil, at, "nothing is put into the map") {
		return false
	}
	L := r.loops[V]
	absent := func(n *Node) bool { return r.saysAbsent(n, V) }
	if p := g.perIteration(L, func(n *Node) bool { return put[n] || absent(n) }); p != nil {
		return check(false, at, "an entry can be left out: "+g.pathText(p))
	}
	// the loop runs
	start := g.root.entry
	goal := at
	if L.parent != nil {
		start = L.parent.enter
		par := L.parent
		pv := r.vecOf(par)
		p := g.find([]*Node{start}, searchOpt{
			avoid: func(n *Node) bool { return n == L.done || pv != nil && r.saysAbsent(n, pv) },
			goal:  func(n *Node) bool { return n == par.header || !par.body[n] && !g.dying(n) },
		})
		return check(p == nil, at, "the entries can be left out: "+g.pathText(p))
	}
	p := g.find([]*Node{start}, searchOpt{avoid: func(n *Node) bool { return n == L.done }, goal: func(n *Node) bool { return n == goal }})
	return check(p == nil, at, "the entries can be left out: "+g.pathText(p))
}

func basicBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (r *serR) allVecs() []*sval {
	var out []*sval
	r.root.vecs(func(v *sval) { out = append(out, v) })
	return out
}

func (r *serR) vecOf(l *Loop) *sval {
	for v, x := range r.loops {
		if x == l {
			return v
		}
	}
	return nil
}

// saysAbsent: the branch says that the element of a vector is not there, which never happens.
func (r *serR) saysAbsent(n *Node, v *sval) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	g := r.g
	t, pol := g.single0(g.cond(n)), n.pol
	for t.op == "un" && t.s == "!" {
		t, pol = g.single0(t.args[0]), !pol
	}
	if t.op == "bin" && (t.s == "==" || t.s == "!=") {
		for i := 0; i < 2; i++ {
			x := g.single0(t.args[i])
			if isNilConst(t.args[1-i]) && x.op == "call" && x.node != nil {
				t, pol = x, pol == (t.s == "!=")
				break
			}
		}
	}
	if t.op != "call" || t.node == nil || pol {
		return false
	}
	a := r.acc(t.node)
	return a != nil && (a.kind == "elemtable" || a.kind == "table")
}

func ruleC13(c *Ctx) {
	pairs := 0
	seen := map[string]bool{}
	pkg := c.p.Package("storage")
	if pkg == nil {
		c.bad("anchor", "storage", "", "the package does not exist")
		return
	}
	var names []string
	for n := range pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := c.p.Func("storage", n)
		if f == nil || f.Signature.Recv() != nil {
			continue
		}
		for _, pre := range []string{"Serialize", "Deserialize"} {
			if strings.HasPrefix(n, pre) {
				seen[strings.TrimPrefix(n, pre)] = true
			}
		}
	}
	for _, kind := range sortedKeys(seen) {
		s, d := c.p.Func("storage", "Serialize"+kind), c.p.Func("storage", "Deserialize"+kind)
		if !c.check(s != nil && d != nil, "pair", kind, "storage", "there is no writer and reader") {
			continue
		}
		pairs++
		c.roundTripOf(kind, s, d)
	}
	c.check(pairs >= 4, "pair", "all", "storage", "fewer pairs of writer and reader than kinds of files")
}

func (c *Ctx) roundTripOf(kind string, s, d *ssa.Function) {
	wg, root := c.serialized(s, "Serialize"+kind)
	if root == nil {
		return
	}
	g := c.graph(d, bufReader, "deser")
	c.ownEntries(g, "own-entries", "Deserialize"+kind, func(*Node) bool { return true })
	r := &serR{c: c, g: g, wg: wg, root: root, lab: "Deserialize" + kind, accs: map[string]*bufAcc{}, loops: map[*sval]*Loop{}}
	for _, th := range g.threads {
		if th.spawn != nil {
			c.bad("read", r.lab, g.where(th.spawn), "the data is read by several goroutines")
			return
		}
	}
	// the loops of all lists, found by reading every accessor call
	for _, n := range g.liveNodes {
		if n.kind == NInstr && n.common() != nil {
			if a := r.acc(n); a != nil && (a.kind == "str" || a.kind == "num" || a.kind == "elemstr") {
				r.leaf(g.result(n, 0), n)
			}
		}
	}
	if r.why != "" {
		c.bad("read", r.lab, g.where(g.root.entry), r.why)
		return
	}
	res := d.Signature.Results()
	par := s.Signature.Params()
	if !c.check(res.Len() == par.Len(), "read", r.lab, g.where(g.root.entry), "the reader gives back another number of parts than the writer gets") {
		return
	}
	for i := 0; i < res.Len(); i++ {
		c.check(types.Identical(res.At(i).Type(), par.At(i).Type()), "read", fmt.Sprintf("%s/%d", r.lab, i), g.where(g.root.entry), "part "+fmt.Sprint(i)+" is read back as "+res.At(i).Type().String())
		for _, rt := range g.root.rets {
			if !g.live[rt] {
				continue
			}
			t := g.term(g.root, rt.in.(*ssa.Return).Results[i])
			r.same(t, res.At(i).Type(), []string{fmt.Sprintf("$%d", i)}, rt, "read", fmt.Sprint(i))
		}
	}
	for _, e := range g.effects() {
		if baseParam(e) {
			c.bad("input-kept", r.lab, g.where(e.n), "it changes "+e.cont)
		}
	}
}

func init() { register("C13", 1, "", ruleC13) }

// builderOrder looks for calls on a flatbuffers builder in an order that it refuses: a string, vector or table begun
// inside another one, a field set outside a table, an end without a beginning.
func (g *Graph) builderOrder() string {
	type call struct {
		n      *Node
		b      string
		op     string
		opened string // what it begins
		closed string // what it ends
		within string // where it is allowed
	}
	var calls []call
	for _, n := range g.liveNodes {
		nm := n.callName()
		if n.kind != NInstr || !strings.HasPrefix(nm, fbB) {
			continue
		}
		as := g.callArgs(n)
		if len(as) == 0 {
			continue
		}
		k := call{n: n, b: g.K(as[0]), op: strings.TrimPrefix(nm, fbB)}
		switch {
		case k.op == "StartObject":
			k.opened, k.within = "table", "none"
		case k.op == "StartVector":
			k.opened, k.within = "vector", "none"
		case k.op == "EndObject":
			k.closed, k.within = "table", "table"
		case k.op == "EndVector":
			k.closed, k.within = "vector", "vector"
		case strings.HasPrefix(k.op, "Create"), strings.HasPrefix(k.op, "Finish") && k.op != "FinishedBytes":
			k.within = "none"
		case strings.HasSuffix(k.op, "Slot"):
			k.within = "table"
		default:
			continue
		}
		calls = append(calls, k)
	}
	by := map[*Node]call{}
	for _, k := range calls {
		by[k.n] = k
	}
	for _, k := range calls {
		switch {
		case k.opened != "":
			// nothing that is refused before its end
			p := g.find([]*Node{k.n}, searchOpt{
				avoid: func(n *Node) bool { o, ok := by[n]; return ok && o.b == k.b && o.closed == k.opened },
				goal: func(n *Node) bool {
					o, ok := by[n]
					return ok && o.b == k.b && o.within != k.opened
				},
			})
			if p != nil {
				return "the builder refuses " + by[p[len(p)-1]].op + " at " + g.where(p[len(p)-1]) + " inside the " + k.opened + " begun at " + g.where(k.n) + ": " + g.pathText(p)
			}
		case k.within != "none":
			// inside one
			starts := []*Node{g.root.entry}
			for _, o := range calls {
				if o.b == k.b && o.closed == k.within {
					starts = append(starts, o.n.succ...)
				}
			}
			p := g.find(starts, searchOpt{
				avoid: func(n *Node) bool { o, ok := by[n]; return ok && o.b == k.b && o.opened == k.within },
				goal:  func(n *Node) bool { return n == k.n },
			})
			if p != nil {
				return "the builder refuses " + k.op + " at " + g.where(k.n) + " outside a " + k.within + ": " + g.pathText(p)
			}
		}
	}
	return ""
}
