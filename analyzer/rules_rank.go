package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C18: rankings ------------------------------------------------------------------------------------------

// elemSource finds the slice element (and its field) a value was loaded from.
func (g *Graph) elemSource(t *Term) (ia *Term, field string) {
	for i := 0; i < 12; i++ {
		switch t.op {
		case "load":
			a := t.args[0]
			if x := innerIndex(a); x != nil {
				if a == x {
					return x, ""
				}
				if a.op == "fieldaddr" && a.args[0] == x {
					return x, a.s
				}
				return nil, ""
			}
		case "field":
			x, f := g.elemSource(t.args[0])
			if x != nil && f == "" {
				return x, t.s
			}
		}
		as := g.alts(t)
		if len(as) != 1 {
			return nil, ""
		}
		t = as[0]
	}
	return nil, ""
}

// partsOf splits a field value given as (element, field) or a map entry.
type entrySrc struct {
	ia     *Term // slice element
	kf, vf string
	key    *Term // or: key of a map that is iterated
}

func (c *Ctx) searchTypes() []*ssa.Function {
	var out []*ssa.Function
	for _, nt := range c.p.Implementers("search", "Search") {
		for _, f := range exportedMethods(c.p, nt) {
			if f.Name() == "Search" {
				out = append(out, f)
			}
		}
	}
	return out
}

func ruleC18(c *Ctx) {
	fs := c.searchTypes()
	if len(fs) == 0 {
		c.bad("search", "search.Search", "", "nothing implements it")
	}
	for _, f := range fs {
		r := c.ranking(f)
		if r != nil {
			r.all()
		}
	}
}

// Ranking collects how a search makes its result.
type Ranking struct {
	c     *Ctx
	g     *Graph
	lab   string
	query *Term
	ret   *Node // a return of the result
	rets  map[*Node]bool
	res   *Term
	list  *List
	sums  *Term // the map of sums
	kName string
	parts []rankPart
}

// rankPart is one place where scores are computed.
type rankPart struct {
	loop   *Loop // over the documents of a part
	qloop  *Loop // over the query
	call   *Term // the index search
	fd     *Term // the documents
	score  *Term
	at     *Node
	thread *Thread
}

func (c *Ctx) ranking(f *ssa.Function) *Ranking {
	g := c.graph(f, nil, "")
	fn := body(f)
	r := &Ranking{c: c, g: g, lab: fnLabel(f), rets: map[*Node]bool{}}
	if len(fn.Params) < 2 {
		c.bad("search", r.lab, c.p.Pos(f.Pos()), "it takes no query")
		return nil
	}
	r.query = g.term(g.root, fn.Params[1])
	return r
}

// noResults tells whether a branch says that there is nothing to rank.
func (r *Ranking) noResults(b *Node) bool {
	g := r.g
	if g.emptyGuard(b, g.P(r.query)) {
		return true
	}
	if r.sums != nil && g.emptyGuard(b, g.P(r.sums)) {
		return true
	}
	return r.res != nil && g.emptyGuard(b, g.P(r.res))
}

func (r *Ranking) all() {
	g, c := r.g, r.c
	// the result that is a list
	var empties []Choice
	n := 0
	for _, rn := range g.root.rets {
		if !g.live[rn] {
			continue
		}
		for _, ch := range g.outcomes(g.term(g.root, rn.in.(*ssa.Return).Results[0]), rn) {
			v := g.single0(ch.v)
			if isNilConst(v) || g.emptyFresh(v) {
				empties = append(empties, ch)
				continue
			}
			n++
			if n > 1 && g.P(v) != g.P(r.res) {
				c.bad("result", r.lab, g.where(ch.at), "it returns "+g.P(v)+" or "+g.P(r.res))
				return
			}
			r.res, r.ret = ch.v, rn
			r.rets[rn] = true
		}
	}
	if !c.check(r.res != nil, "result", r.lab, g.where(g.root.entry), "it returns no documents") {
		return
	}
	l, why := g.listOf(r.res, r.ret)
	if s := g.single0(r.res); s.op == "slice" {
		l, why = nil, "it is cut"
	}
	if !c.check(l != nil, "complete", r.lab, g.where(r.ret), "the result is no list of the ranked documents: "+why) {
		return
	}
	r.list = l
	r.fromSums()
	if r.sums != nil {
		r.sumUp()
	}
	for _, ch := range empties {
		c.check(g.onlyIf(ch.at, r.noResults), "complete", r.lab, g.where(ch.at), "it returns nothing although documents may match")
	}
	r.sorted()
	c.noRaces(g, r.lab)
}

func (r *Ranking) fieldNames() (id, score string) {
	t := r.res.typ
	if t == nil {
		return "Id", "Score"
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return "Id", "Score"
	}
	st, ok := derefType(sl.Elem()).Underlying().(*types.Struct)
	if !ok {
		return "Id", "Score"
	}
	for i := 0; i < st.NumFields(); i++ {
		if isStringType(st.Field(i).Type()) {
			id = st.Field(i).Name()
		} else if isFloat(st.Field(i).Type()) {
			score = st.Field(i).Name()
		}
	}
	return
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// fromSums: each summed document is in the result once, with its sum.
func (r *Ranking) fromSums() {
	g, c, l := r.g, r.c, r.list
	idF, scF := r.fieldNames()
	lp := l.loop
	where := g.where(lp.header)
	var key *Term
	switch lp.kind {
	case "map":
		r.sums = g.single(lp.dom)
		key = lp.key
	case "slice":
		// over the keys of the map
		name := g.keysOf(lp.dom, lp.header)
		for _, n := range g.liveNodes {
			if mm, ok := n.in.(*ssa.MakeMap); ok && n.kind == NInstr && name != "" {
				if t := g.term(n.fr, mm); g.deref(t, true) == name {
					r.sums = t
				}
			}
		}
	}
	if !c.check(r.sums != nil && r.sums.op == "fresh", "complete", r.lab, where, "the result is not made from the map of the summed documents") {
		return
	}
	isKey := func(t *Term) bool {
		if key != nil {
			return g.K(g.single0(t)) == g.K(key)
		}
		ia, f := g.elemSource(t)
		return ia != nil && f == "" && g.sameCont(ia.args[0], lp.dom) && (g.K(ia.args[1]) == g.K(lp.key))
	}
	isSum := func(t *Term) bool {
		t = g.single0(t)
		switch t.op {
		case "rangeval":
			return key != nil && t.node == key.node
		case "lookup":
			return g.sameCont(t.args[0], r.sums) && isKey(t.args[1])
		case "res":
			if x := t.args[0]; x.op == "lookup" && t.i == 0 {
				return g.sameCont(x.args[0], r.sums) && isKey(x.args[1])
			}
		}
		return g.K(t) == g.K(r.sums)+"["+g.K(lp.key)+"]"
	}
	ok := func(ts []*Term, is func(*Term) bool) bool {
		for _, t := range ts {
			if !is(t) {
				return false
			}
		}
		return len(ts) > 0
	}
	c.check(ok(g.elemField(l, idF), isKey), "own-id", r.lab, where, "an entry of the result does not get the id of its document")
	c.check(ok(g.elemField(l, scF), isSum), "own-score", r.lab, where, "an entry of the result does not get the sum of its document")
	p := g.perIteration(lp, g.lift(l.put))
	c.check(p == nil, "complete", r.lab, where, "a document can be left out: "+g.pathText(p))
	if p := g.twice(l); p != nil {
		c.bad("once", r.lab, where, "a document can be listed twice: "+g.pathText(p))
	}
	c.check(len(g.exits(lp)) == 0, "complete", r.lab, where, "the loop over the documents can be left early")
	p = g.find([]*Node{g.root.entry}, searchOpt{
		avoid: func(n *Node) bool { return n == lp.done || r.noResults(n) },
		goal:  func(n *Node) bool { return r.rets[n] },
	})
	c.check(p == nil, "complete", r.lab, where, "the result can be returned without its documents: "+g.pathText(p))
	for _, rn := range g.root.rets {
		if r.rets[rn] {
			w := g.settled(l.nodes(), rn)
			c.check(w == "", "complete", r.lab, where, w)
		}
	}
}

// sumUp: the sums hold all scores of all parts, in the order of the query.
func (r *Ranking) sumUp() {
	g, c := r.g, r.c
	n := 0
	for _, e := range g.effects() {
		if e.m == nil || !g.mayBe(e.m, r.sums) && !g.sameCont(e.m, r.sums) {
			continue
		}
		if e.kind == "delete" || e.kind == "clear" {
			c.bad("sums", r.lab, g.where(e.n), "a document is taken out of the sums")
			continue
		}
		if e.kind != "update" {
			continue
		}
		n++
		r.oneSum(e)
	}
	c.check(n > 0, "sums", r.lab, g.where(r.ret), "no scores are summed up")
}

func (r *Ranking) oneSum(e Eff) {
	g, c := r.g, r.c
	where := g.where(e.n)
	d := g.deltaOf(e)
	if !c.check(d != nil, "sums", r.lab, where, "the score is not added to the document's sum") {
		return
	}
	if e.n.fr.thread != g.threads[0] && !e.n.fr.thread.sequential() {
		c.bad("repeatable", r.lab, where, "workers add their scores in the order in which they run; a sum of floats depends on it")
		return
	}
	all := func(n *Node) bool {
		// another statement that adds to the same document
		for _, o := range g.effects() {
			if o.n == n && o.kind == "update" && o.path == e.path && g.deltaOf(o) != nil && g.sameElem(g.deltaOf(o), d) {
				return true
			}
		}
		return false
	}
	if p := g.find([]*Node{e.n}, searchOpt{avoid: func(m *Node) bool { return g.headerOf(e.n, m) }, goal: all}); p != nil {
		c.bad("once", r.lab, where, "a score can be added twice: "+g.pathText(p))
	}
	ia, kf := g.elemSource(e.k)
	ib, vf := g.elemSource(d)
	if ia == nil || ib == nil {
		for _, l := range g.loopsAround(e.n) {
			if l.kind == "map" && l.val != nil && g.K(e.k) == g.K(l.key) && g.K(g.single0(d)) == g.K(l.val) {
				// the scores of a part are in a map
				r.ofMap(e, l, all)
				return
			}
		}
		// computed on the spot
		r.direct(e, d, all)
		return
	}
	if !c.check(g.K(ia) == g.K(ib), "own-score", r.lab, where, "the id and the score come from different entries") {
		return
	}
	// the loop over the scores of a part
	var li, lo *Loop
	for _, l := range g.loopsAround(e.n) {
		if li == nil {
			if (l.kind == "slice" || l.kind == "count") && l.key != nil && g.K(l.key) == g.K(ia.args[1]) && r.covers(l, ia.args[0]) {
				li = l
				continue
			}
			break
		}
		lo = l
		break
	}
	if !c.check(li != nil, "all-scores", r.lab, where, "no loop runs over all scores of a part") {
		return
	}
	p := g.perIteration(li, all)
	c.check(p == nil, "all-scores", r.lab, where, "a score can be left out: "+g.pathText(p))
	c.check(len(g.exits(li)) == 0, "all-scores", r.lab, g.where(li.header), "the loop over the scores can be left early")
	inner := ia.args[0]
	if lo == nil {
		// one flat list
		l, why := g.listOf(inner, li.header)
		if !c.check(l != nil, "all-scores", r.lab, where, "the list of scores is not understood: "+why) {
			return
		}
		r.part(l, kf, vf, nil, li)
		return
	}
	r.ofParts(e, li, lo, inner, func(v *Term, at *Node) (*List, string) {
		if s := g.single0(v); s.op == "slice" {
			return nil, "it is cut"
		}
		return g.listOf(v, at)
	}, kf, vf)
}

// ofMap: the scores of a part are in a map from the id.
func (r *Ranking) ofMap(e Eff, li *Loop, all func(*Node) bool) {
	g, c := r.g, r.c
	where := g.where(e.n)
	lo := li.parent
	if !c.check(lo != nil, "all-scores", r.lab, where, "no loop runs over all parts") {
		return
	}
	p := g.perIteration(li, all)
	c.check(p == nil, "all-scores", r.lab, where, "a score can be left out: "+g.pathText(p))
	c.check(len(g.exits(li)) == 0, "all-scores", r.lab, g.where(li.header), "the loop over the scores can be left early")
	r.ofParts(e, li, lo, li.dom, func(v *Term, at *Node) (*List, string) {
		f := g.single0(v)
		if f.op != "fresh" || f.node == nil {
			return nil, "it is " + g.P(v)
		}
		l := &List{kind: "map", fresh: f}
		for _, u := range g.effects() {
			if u.m == nil || !g.mayBe(u.m, f) {
				continue
			}
			if u.kind != "update" {
				return nil, "something is taken out of it"
			}
			for _, w := range g.loopsAround(u.n) {
				if r.isDoc(u.k, w) {
					if l.loop != nil && l.loop != w {
						return nil, "several loops fill it"
					}
					l.loop = w
					break
				}
			}
			l.elems = append(l.elems, Elem{idx: u.k, val: u.v, node: u.n})
		}
		if l.loop == nil {
			return nil, "no loop over the documents fills it"
		}
		for _, x := range g.loopsAround(f.node) {
			if x == r.loopOverQuery(l.loop) {
				return l, ""
			}
		}
		return nil, "several parts share it"
	}, "", "")
}

// loopOverQuery is the loop over the query around the search whose documents a loop runs over.
func (r *Ranking) loopOverQuery(l *Loop) *Loop {
	call := r.source(l)
	if call == nil {
		return nil
	}
	return r.queryLoop(call)
}

// ofParts: the scores that are summed up in a loop are those of all parts.
func (r *Ranking) ofParts(e Eff, li, lo *Loop, inner *Term, scores func(*Term, *Node) (*List, string), kf, vf string) {
	g, c := r.g, r.c
	oa, of := g.elemSource(inner)
	if !c.check(oa != nil && of == "" && (lo.kind == "slice" || lo.kind == "count") && lo.key != nil && g.K(lo.key) == g.K(oa.args[1]) && r.covers(lo, oa.args[0]),
		"all-scores", r.lab, g.where(lo.header), "the loop does not run over all parts of the query in their order") {
		return
	}
	p := g.perIteration(lo, func(n *Node) bool { return n == li.done || g.emptyGuard(n, g.P(inner)) })
	c.check(p == nil, "all-scores", r.lab, g.where(lo.header), "a part can be left out: "+g.pathText(p))
	c.check(len(g.exits(lo)) == 0, "all-scores", r.lab, g.where(lo.header), "the loop over the parts can be left early")
	p = g.find([]*Node{g.root.entry}, searchOpt{
		avoid: func(n *Node) bool { return n == lo.done || g.emptyGuard(n, g.P(r.query)) },
		goal:  func(n *Node) bool { return n == r.list.loop.header },
	})
	c.check(p == nil, "all-scores", r.lab, g.where(lo.header), "the parts may not be summed up: "+g.pathText(p))
	outer, why := g.listOf(oa.args[0], lo.header)
	if !c.check(outer != nil, "all-parts", r.lab, g.where(lo.header), "the list of the parts is not understood: "+why) {
		return
	}
	for _, el := range outer.elems {
		if el.sub != nil {
			c.bad("all-parts", r.lab, g.where(el.node), "the list of the parts is not understood")
			return
		}
		pl, why := scores(el.val, el.node)
		if !c.check(pl != nil, "all-scores", r.lab, g.where(el.node), "the list of the scores of a part is not understood: "+why) {
			continue
		}
		r.part(pl, kf, vf, outer, lo)
	}
}

// sameElem tells whether two values are the same, or the same field of the same slice element.
func (g *Graph) sameElem(a, b *Term) bool {
	if g.K(a) == g.K(b) {
		return true
	}
	x, f := g.elemSource(a)
	y, h := g.elemSource(b)
	return x != nil && y != nil && f == h && g.K(x) == g.K(y)
}

// headerOf tells whether m starts the next iteration of the loop around n.
func (g *Graph) headerOf(n, m *Node) bool {
	l := g.loopOf[n]
	return l != nil && l.header == m
}

// covers tells whether a loop runs over all elements of a slice.
func (r *Ranking) covers(l *Loop, s *Term) bool {
	return r.g.coversSlice(l, s)
}

func (g *Graph) coversSlice(l *Loop, s *Term) bool {
	if l.dom != nil && g.sameCont(l.dom, s) {
		return true
	}
	if l.bound != nil && l.bound.op == "len" && g.sameCont(l.bound.args[0], s) {
		return true
	}
	if l.bound != nil {
		if g.lengthIs(s, l.bound) {
			return true
		}
	}
	// made with the length of the container the loop runs over
	if f := g.single(s); f != nil && f.op == "fresh" {
		return g.isCount(g.madeLen(f), l)
	}
	return false
}

// part: the list of a part has one entry for each document the index found for it.
func (r *Ranking) part(l *List, kf, vf string, outer *List, use *Loop) {
	g, c := r.g, r.c
	where := g.where(l.loop.header)
	for _, e := range l.elems {
		if outer == nil && e.node.fr.thread != g.threads[0] {
			c.bad("repeatable", r.lab, g.where(e.node), "the order of the scores depends on the workers")
		}
	}
	if p := g.perIteration(l.loop, g.lift(l.put)); p != nil {
		c.bad("all-scores", r.lab, where, "a document of a part can be left out: "+g.pathText(p))
	}
	if p := g.twice(l); p != nil {
		c.bad("once", r.lab, where, "a document of a part can be listed twice: "+g.pathText(p))
	}
	c.check(len(g.exits(l.loop)) == 0, "all-scores", r.lab, where, "the loop over the documents of a part can be left early")
	var ids, scs []*Term
	if l.kind == "map" {
		for _, e := range l.elems {
			ids, scs = append(ids, e.idx), append(scs, e.val)
		}
	} else {
		ids, scs = g.elemField(l, kf), g.elemField(l, vf)
	}
	for _, id := range ids {
		c.check(r.isDoc(id, l.loop), "own-id", r.lab, where, "a score is listed under "+g.P(id))
	}
	c.check(len(ids) > 0 && len(scs) > 0, "own-id", r.lab, where, "scores are listed without id")
	call := r.source(l.loop)
	if !c.check(call != nil, "all-scores", r.lab, where, "the loop does not run over the documents the index found") {
		return
	}
	for _, s := range scs {
		r.parts = append(r.parts, rankPart{loop: l.loop, call: call, fd: l.loop.dom, score: s, at: l.elems[0].node, thread: l.elems[0].node.fr.thread})
	}
	// the list is complete when it is stored
	for _, e := range l.elems {
		_ = e
	}
	w := g.settled(l.nodes(), use.header)
	c.check(w == "", "all-scores", r.lab, where, w)
	ql := r.queryLoop(call)
	if !c.check(ql != nil, "all-parts", r.lab, where, "no loop runs over all parts of the query") {
		return
	}
	for i := range r.parts {
		r.parts[i].qloop = ql
	}
	r.ofPart(call, ql)
	if outer != nil {
		if !c.check(outer.loop == ql, "all-parts", r.lab, g.where(outer.loop.header), "the list of the parts is not filled by the loop over the query") {
			return
		}
		for _, e := range outer.elems {
			// filled before it is stored for others to read
			p := g.find([]*Node{e.node.fr.thread.entry}, searchOpt{
				avoid: func(n *Node) bool { return n == l.loop.done || r.noDocs(n, call) },
				goal:  func(n *Node) bool { return n == e.node || n == e.node.fr.thread.exit },
			})
			if p != nil && g.reaches(e.node, l.loop.header) {
				p = g.find([]*Node{e.node}, searchOpt{
					avoid: func(n *Node) bool { return n == l.loop.done || r.noDocs(n, call) },
					goal:  func(n *Node) bool { return n == e.node.fr.thread.exit || n == ql.header },
				})
			}
			c.check(p == nil, "all-scores", r.lab, g.where(e.node), "a part can be stored before its scores are in it: "+g.pathText(p))
			if e.idx == nil && e.node.fr.thread != ql.header.fr.thread {
				c.bad("repeatable", r.lab, g.where(e.node), "the order of the parts depends on the workers; a sum of floats depends on it")
			}
		}
		if p := g.perIteration(ql, g.lift(func(n *Node) bool { return outer.put(n) || outer.kind == "slots" && r.noDocs(n, call) })); p != nil {
			c.bad("all-parts", r.lab, g.where(ql.header), "a part can be left out: "+g.pathText(p))
		} else {
			c.ok("all-parts", r.lab, g.where(ql.header), "")
		}
		c.check(len(g.exits(ql)) == 0, "all-parts", r.lab, g.where(ql.header), "the loop over the query can be left early")
		w := g.settled(outer.nodes(), use.header)
		c.check(w == "", "all-parts", r.lab, g.where(use.header), w)
		p := g.find([]*Node{g.root.entry}, searchOpt{
			avoid: func(n *Node) bool { return n == ql.done || g.emptyGuard(n, g.P(r.query)) },
			goal:  func(n *Node) bool { return n == use.header },
		})
		c.check(p == nil, "all-parts", r.lab, g.where(ql.header), "parts may not be searched: "+g.pathText(p))
	}
}

func (r *Ranking) noDocs(n *Node, call *Term) bool {
	if n.kind != NBranch {
		return false
	}
	return r.g.emptyGuard(n, r.g.P(call)+".FieldDocuments")
}

// isDoc tells whether a value is the id of the document a loop is at.
func (r *Ranking) isDoc(t *Term, l *Loop) bool {
	g := r.g
	if l.kind == "map" {
		return g.K(g.single0(t)) == g.K(l.key)
	}
	if l.kind == "slice" {
		ia, f := g.elemSource(t)
		return ia != nil && f == "" && l.key != nil && g.K(ia.args[1]) == g.K(l.key) && g.sameCont(ia.args[0], l.dom)
	}
	return false
}

// source is the index search whose documents a loop runs over.
func (r *Ranking) source(l *Loop) *Term {
	g := r.g
	if l.kind == "slice" {
		name := g.keysOf(l.dom, l.header)
		for _, n := range g.liveNodes {
			if t := r.indexCall(n); t != nil && name == g.P(t)+".FieldDocuments" {
				return t
			}
		}
		return nil
	}
	if l.kind != "map" {
		return nil
	}
	t := g.single(l.dom)
	if t == nil || t.op != "field" || t.s != "FieldDocuments" {
		return nil
	}
	x := g.single(t.args[0])
	if x != nil && x.op == "call" && r.indexCall(x.node) != nil {
		return x
	}
	return nil
}

func (r *Ranking) indexCall(n *Node) *Term {
	if n == nil || n.kind != NInstr || n.common() == nil || n.callee != nil {
		return nil
	}
	name := n.callName()
	if !strings.HasSuffix(name, ".Search") || !strings.Contains(name, "/index.") {
		return nil
	}
	return r.g.result(n, 0)
}

// queryLoop is the loop over the query in which a call is made, in each iteration.
func (r *Ranking) queryLoop(call *Term) *Loop {
	g := r.g
	for _, l := range g.loopsAround(call.node) {
		if (l.kind == "slice" || l.kind == "count") && g.coversSlice(l, r.query) {
			return l
		}
	}
	return nil
}

// ofPart: the index is searched for the terms and the field of the part.
func (r *Ranking) ofPart(call *Term, ql *Loop) {
	g, c := r.g, r.c
	as := g.callArgs(call.node)
	want := []string{"Terms", "FieldName"}
	if len(as) < 3 {
		c.bad("own-part", r.lab, g.where(call.node), "the index is searched in an unknown way")
		return
	}
	for i, f := range want {
		ia, sf := g.elemSource(as[1+i])
		c.check(ia != nil && sf == f && g.sameCont(ia.args[0], r.query) && g.K(ia.args[1]) == g.K(ql.key),
			"own-part", r.lab, g.where(call.node), "the index is not searched with the "+f+" of the part")
	}
}

// direct: scores are added where they are computed.
func (r *Ranking) direct(e Eff, d *Term, all func(*Node) bool) {
	g, c := r.g, r.c
	where := g.where(e.n)
	ls := g.loopsAround(e.n)
	var ld *Loop
	for _, l := range ls {
		if r.isDoc(e.k, l) {
			ld = l
			break
		}
	}
	if !c.check(ld != nil, "own-score", r.lab, where, "the score is added under "+g.P(e.k)) {
		return
	}
	call := r.source(ld)
	if !c.check(call != nil, "all-scores", r.lab, where, "the loop does not run over the documents the index found") {
		return
	}
	ql := r.queryLoop(call)
	if !c.check(ql != nil, "all-parts", r.lab, where, "no loop runs over all parts of the query") {
		return
	}
	r.parts = append(r.parts, rankPart{loop: ld, qloop: ql, call: call, fd: ld.dom, score: d, at: e.n, thread: e.n.fr.thread})
	p := g.perIteration(ld, all)
	c.check(p == nil, "all-scores", r.lab, where, "a score can be left out: "+g.pathText(p))
	c.check(len(g.exits(ld)) == 0, "all-scores", r.lab, g.where(ld.header), "the loop over the documents of a part can be left early")
	p = g.perIteration(ql, func(n *Node) bool { return n == ld.done || r.noDocs(n, call) })
	c.check(p == nil, "all-parts", r.lab, g.where(ql.header), "a part can be left out: "+g.pathText(p))
	c.check(len(g.exits(ql)) == 0, "all-parts", r.lab, g.where(ql.header), "the loop over the query can be left early")
	r.ofPart(call, ql)
	p = g.find([]*Node{g.root.entry}, searchOpt{
		avoid: func(n *Node) bool { return n == ql.done || g.emptyGuard(n, g.P(r.query)) },
		goal:  func(n *Node) bool { return n == r.list.loop.header },
	})
	c.check(p == nil, "all-parts", r.lab, g.where(ql.header), "parts may not be searched: "+g.pathText(p))
}

// ---- the order ----------------------------------------------------------------------------------------------

func (r *Ranking) sorted() {
	g, c := r.g, r.c
	var good []*Node
	for _, n := range g.liveNodes {
		if n.common() == nil || n.callee != nil || n.fr.thread != r.ret.fr.thread {
			continue
		}
		name := n.callName()
		switch {
		case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Reverse"):
		default:
			continue
		}
		as := g.callArgs(n)
		if len(as) == 0 {
			continue
		}
		x := as[0]
		for x.op == "iface" || x.op == "conv" {
			x = x.args[0]
		}
		if !g.sameCont(x, r.res) {
			continue
		}
		why := r.comparator(n, name)
		c.check(why == "", "order", r.lab, g.where(n), "the result is not ordered by score, best first, then by id: "+why)
		if why == "" {
			good = append(good, n)
		}
	}
	isGood := func(n *Node) bool {
		for _, m := range good {
			if m == n {
				return true
			}
		}
		return false
	}
	p := g.find([]*Node{g.root.entry}, searchOpt{
		avoid: func(n *Node) bool { return isGood(n) || r.noResults(n) || r.single(n) },
		goal:  func(n *Node) bool { return r.rets[n] },
	})
	c.check(p == nil, "ordered", r.lab, g.where(r.ret), "the result can be returned unsorted: "+g.pathText(p))
	for _, s := range good {
		for _, n := range g.elemStores() {
			if !g.live[n] {
				continue
			}
			ia := innerIndex(g.term(n.fr, n.in.(*ssa.Store).Addr))
			if g.sameCont(ia.args[0], r.res) && g.reaches(s, n) {
				c.bad("ordered", r.lab, g.where(n), "an entry is changed after sorting")
			}
		}
		for _, e := range r.list.elems {
			if g.reaches(s, e.node) {
				c.bad("ordered", r.lab, g.where(e.node), "an entry is added after sorting")
			}
		}
	}
}

// single tells whether a branch says that there is at most one entry to sort.
func (r *Ranking) single(b *Node) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	g := r.g
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op != "bin" {
		return false
	}
	x, y, op := c.args[0], c.args[1], c.s
	if y.op == "len" {
		x, y = y, x
		op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
	}
	if x.op != "len" || !g.sameCont(x.args[0], r.res) && !(r.sums != nil && g.sameCont(x.args[0], r.sums)) {
		return false
	}
	k, ok := constInt(y)
	if !ok {
		return false
	}
	if !pol {
		op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	switch op {
	case "<":
		return k <= 2
	case "<=", "==":
		return k <= 1
	}
	return false
}

// comparator decides the order a sort call establishes over all orderings of two entries.
func (r *Ranking) comparator(n *Node, name string) string {
	g := r.g
	idF, scF := r.fieldNames()
	switch name {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		for _, th := range g.threads {
			if th.spawn == n && th.callback {
				return g.orders(th.fr, func(t *Term) (int, string) { return r.operand(t, th, idF, scF) }, strings.HasPrefix(name, "slices."))
			}
		}
		return "its comparison is not known"
	case "sort.Sort", "sort.Stable":
		a := g.term(n.fr, n.common().Args[0])
		mi, ok := n.common().Args[0].(*ssa.MakeInterface)
		if !ok {
			return g.P(a) + " is not understood"
		}
		nt, ok := mi.X.Type().(*types.Named)
		if !ok {
			return "its type is not known"
		}
		less := r.c.p.Method(nt, "Less")
		if less == nil {
			return "it has no Less method"
		}
		if why := swapLen(r.c.p.Method(nt, "Swap"), r.c.p.Method(nt, "Len")); why != "" {
			return why
		}
		lg := r.c.graph(less, nil, "")
		fn := body(less)
		if fn == nil || len(fn.Params) != 3 {
			return "its Less method is not understood"
		}
		p := []*Term{lg.term(lg.root, fn.Params[1]), lg.term(lg.root, fn.Params[2])}
		return lg.orders(lg.root, func(t *Term) (int, string) {
			ia, f := lg.elemSource(t)
			if ia == nil {
				return -1, ""
			}
			for i := range p {
				if ia.args[1] == p[i] {
					return i, kindOf(f, idF, scF)
				}
			}
			return -1, ""
		}, false)
	}
	return name + " is not understood"
}

// swapLen decides that a list that sorts itself exchanges whole entries and knows its length.
func swapLen(swap, length *ssa.Function) string {
	type cell struct {
		p     ssa.Value // the position
		field int       // -1: the whole entry
	}
	sb, lb := body(swap), body(length)
	if sb == nil || lb == nil || len(sb.Params) != 3 {
		return "its Swap method is not understood"
	}
	if len(lb.Blocks) == 1 {
		if ret, ok := lb.Blocks[0].Instrs[len(lb.Blocks[0].Instrs)-1].(*ssa.Return); ok {
			c, ok := ret.Results[0].(*ssa.Call)
			if b, _ := callBuiltin(c, ok); b != "len" {
				return "its Len is not the length of the list"
			}
		}
	}
	if len(sb.Blocks) != 1 {
		return ""
	}
	addr := map[ssa.Value]cell{} // the addresses of entries and of their fields
	val := map[ssa.Value]cell{}  // what was loaded, as it was at the start
	now := map[cell]cell{}       // what is there now
	read := func(c cell) (cell, bool) {
		if v, ok := now[c]; ok {
			return v, true
		}
		if v, ok := now[cell{c.p, -1}]; ok && c.field >= 0 {
			return cell{v.p, c.field}, v.field < 0
		}
		for x := range now {
			if x.p == c.p && c.field < 0 {
				return c, false
			}
		}
		return c, true
	}
	for _, in := range sb.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.IndexAddr:
			if x.Index == sb.Params[1] || x.Index == sb.Params[2] {
				addr[x] = cell{x.Index, -1}
			}
		case *ssa.FieldAddr:
			if a, ok := addr[x.X]; ok {
				if a.field >= 0 {
					return ""
				}
				addr[x] = cell{a.p, x.Field}
			}
		case *ssa.Field:
			if v, ok := val[x.X]; ok {
				if v.field >= 0 {
					return ""
				}
				val[x] = cell{v.p, x.Field}
			}
		case *ssa.UnOp:
			if a, ok := addr[x.X]; ok && x.Op == token.MUL {
				v, ok := read(a)
				if !ok {
					return ""
				}
				val[x] = v
			}
		case *ssa.Store:
			a, ok := addr[x.Addr]
			if !ok {
				continue
			}
			v, ok := val[x.Val]
			if !ok {
				return "its Swap method does not exchange entries"
			}
			if a.field < 0 {
				for y := range now {
					if y.p == a.p {
						delete(now, y)
					}
				}
			}
			now[a] = v
		case ssa.CallInstruction:
			return ""
		}
	}
	fields := 0
	if st, ok := elemStruct(swap); ok {
		fields = st.NumFields()
	}
	for i := 1; i <= 2; i++ {
		p, q := sb.Params[i], sb.Params[3-i]
		if v, ok := now[cell{p, -1}]; ok && v == (cell{q, -1}) {
			continue
		}
		n := 0
		for f := 0; f < fields; f++ {
			if v, ok := now[cell{p, f}]; ok && v == (cell{q, f}) {
				n++
			}
		}
		if n == 0 || n < fields {
			return "its Swap method does not exchange the whole entries"
		}
	}
	return ""
}

// elemStruct is the type of the entries that a method reads by position.
func elemStruct(f *ssa.Function) (*types.Struct, bool) {
	for _, in := range body(f).Blocks[0].Instrs {
		if x, ok := in.(*ssa.IndexAddr); ok {
			if p, ok := x.Type().Underlying().(*types.Pointer); ok {
				st, ok := p.Elem().Underlying().(*types.Struct)
				return st, ok
			}
		}
	}
	return nil, false
}

func callBuiltin(c *ssa.Call, ok bool) (string, bool) {
	if !ok {
		return "", false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok {
		return "", false
	}
	return b.Name(), true
}

func kindOf(f, idF, scF string) string {
	switch f {
	case idF:
		return "id"
	case scF:
		return "score"
	}
	return ""
}

// operand tells which of the two compared entries a value belongs to, and which part it is.
func (r *Ranking) operand(t *Term, th *Thread, idF, scF string) (int, string) {
	g := r.g
	if ia, f := g.elemSource(t); ia != nil && g.sameCont(ia.args[0], r.res) {
		if x := g.single0(ia.args[1]); x.op == "cbparam" && x.fr == th.fr {
			return x.i, kindOf(f, idF, scF)
		}
		return -1, ""
	}
	// the entries themselves are given
	x, f := t, ""
	for i := 0; i < 10; i++ {
		switch x.op {
		case "field":
			if f == "" {
				f = x.s
				x = x.args[0]
				continue
			}
		case "load":
			if x.args[0].op == "fieldaddr" && f == "" {
				if as := g.alts(x); len(as) == 1 && as[0].op != "init" {
					x = as[0]
					continue
				}
				f = x.args[0].s
				x = x.args[0].args[0]
				continue
			}
		case "cbparam":
			if x.fr == th.fr {
				return x.i, kindOf(f, idF, scF)
			}
			return -1, ""
		}
		as := g.alts(x)
		if len(as) != 1 {
			return -1, ""
		}
		x = as[0]
	}
	return -1, ""
}

// orders decides a comparison function: score descending, then id ascending.
func (g *Graph) orders(fr *Frame, operand func(*Term) (int, string), three bool) string {
	cmp := func(op string, r int) int {
		switch op {
		case "<":
			return tri(r < 0)
		case "<=":
			return tri(r <= 0)
		case ">":
			return tri(r > 0)
		case ">=":
			return tri(r >= 0)
		case "==":
			return tri(r == 0)
		case "!=":
			return tri(r != 0)
		}
		return unknown
	}
	for _, s := range []int{-1, 0, 1} { // score of the first against the second
		for _, id := range []int{-1, 0, 1} {
			rel := func(a, b *Term) (int, bool) {
				i, k1 := operand(a)
				j, k2 := operand(b)
				if i < 0 || j < 0 || k1 == "" || k1 != k2 {
					return 0, false
				}
				v := s
				if k1 == "id" {
					v = id
				}
				if i == j {
					return 0, true
				}
				if i > j {
					v = -v
				}
				return v, true
			}
			var d *decider
			var num func(t *Term) (int64, bool)
			num = func(t *Term) (int64, bool) {
				t = d.now(t)
				if k, ok := constInt(t); ok {
					return k, true
				}
				switch t.op {
				case "call":
					if (strings.HasPrefix(t.s, "cmp.Compare") || t.s == "strings.Compare") && len(t.args) == 2 {
						v, ok := rel(t.args[0], t.args[1])
						return int64(v), ok
					}
				case "un":
					if t.s == "-" {
						v, ok := num(t.args[0])
						return -v, ok
					}
				case "bin":
					a, ok1 := num(t.args[0])
					b, ok2 := num(t.args[1])
					if ok1 && ok2 {
						switch t.s {
						case "*":
							return a * b, true
						case "-":
							return a - b, true
						case "+":
							return a + b, true
						}
					}
				}
				return 0, false
			}
			d = &decider{g: g, oracle: func(t *Term) int {
				if t.op != "bin" {
					if t.op == "call" && strings.HasPrefix(t.s, "cmp.Less") && len(t.args) == 2 {
						if v, ok := rel(t.args[0], t.args[1]); ok {
							return tri(v < 0)
						}
					}
					return unknown
				}
				if v, ok := rel(t.args[0], t.args[1]); ok {
					return cmp(t.s, v)
				}
				if a, ok := num(t.args[0]); ok {
					if b, ok := num(t.args[1]); ok {
						x := 0
						if a < b {
							x = -1
						} else if a > b {
							x = 1
						}
						return cmp(t.s, x)
					}
				}
				// a difference compared with zero
				for k := 0; k < 2; k++ {
					if isZeroConst(t.args[1-k]) {
						if b := d.now(t.args[k]); b.op == "bin" && b.s == "-" {
							if v, ok := rel(b.args[0], b.args[1]); ok {
								if k == 1 {
									v = -v
								}
								return cmp(t.s, v)
							}
						}
					}
				}
				return unknown
			}}
			want := s > 0 || s == 0 && id < 0
			res := d.result(fr, 0)
			if res == nil {
				if d.stuck != nil {
					return "it depends on " + g.P(d.stuck)
				}
				return "it is not understood"
			}
			desc := map[int]string{-1: "lower", 0: "equal", 1: "higher"}
			dsc := "of two entries with " + desc[s] + " score and " + map[int]string{-1: "smaller", 0: "equal", 1: "greater"}[id] + " id the first "
			if three {
				v, ok := num(res)
				if !ok {
					return "it depends on " + g.P(res)
				}
				w := 1
				if want {
					w = -1
				} else if s == 0 && id == 0 {
					w = 0
				}
				if sign64(v) != w {
					return dsc + "is put in the wrong place"
				}
				continue
			}
			v := d.boolean(res)
			if v == unknown {
				return "it depends on " + g.P(d.stuck)
			}
			if v != tri(want) {
				if want {
					return dsc + "does not come first"
				}
				return dsc + "comes first"
			}
		}
	}
	return ""
}

func sign64(v int64) int {
	switch {
	case v < 0:
		return -1
	case v > 0:
		return 1
	}
	return 0
}

func init() {
	register("C18", 1, "", ruleC18)
}
