package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C17: what a search of the index considers --------------------------------------------------------------

type indexSearch struct {
	c            *Ctx
	g            *Graph
	lab          string
	terms, field *Term
	ret          *Node
}

func ruleC17(c *Ctx) {
	n := 0
	for _, nt := range c.p.Implementers("index", "Index") {
		for _, f := range exportedMethods(c.p, nt) {
			if f.Name() == "Search" {
				n++
				if ix := c.indexSearch(f); ix != nil {
					ix.statistics()
					ix.documents()
					c.noRaces(ix.g, ix.lab)
				}
			}
		}
	}
	if n == 0 {
		c.bad("search", "index.Index", "", "nothing implements it")
	}
}

func (c *Ctx) indexSearch(f *ssa.Function) *indexSearch {
	g := c.graph(f, nil, "")
	fn := body(f)
	ix := &indexSearch{c: c, g: g, lab: fnLabel(f)}
	if len(fn.Params) < 3 {
		c.bad("search", ix.lab, c.p.Pos(f.Pos()), "it takes no terms and field")
		return nil
	}
	ix.terms, ix.field = g.term(g.root, fn.Params[1]), g.term(g.root, fn.Params[2])
	return ix
}

// storageCall tells which operation of the storage a node calls.
func (g *Graph) storageCall(n *Node) string {
	if n == nil || n.kind != NInstr || n.common() == nil || n.callee != nil || isDeferOrGo(n) {
		return ""
	}
	name := n.callName()
	i := strings.LastIndex(name, ".")
	if i < 0 || !strings.Contains(name, "/storage.") {
		return ""
	}
	return name[i+1:]
}

// isParam tells whether a value is one of the parameters of the search.
func (ix *indexSearch) isParam(t, p *Term) bool {
	return ix.g.K(ix.g.single0(t)) == ix.g.K(p)
}

// nothing tells whether a branch says that nothing can be found.
func (ix *indexSearch) nothing(b *Node) bool {
	g := ix.g
	if g.emptyGuard(b, g.P(ix.terms)) {
		return true
	}
	if b.kind != NBranch || b.maybe {
		return false
	}
	s := ix.numbers(false)
	return s.truth(g.cond(b)) == tri(!b.pol)
}

// numbers evaluates numbers over the size and length of the field.
func (ix *indexSearch) numbers(empty bool) *scoring {
	g := ix.g
	s := &scoring{g: g, logs: map[string]*ratio{}, zero: map[string]bool{"size": empty, "length": empty}, signs: map[string]int{"size": 1, "length": 0}}
	s.cls = func(t *Term) string {
		switch t.op {
		case "const", "bin", "phi", "ret", "conv":
			return ""
		}
		t = g.single0(t)
		if t.op != "call" {
			return ""
		}
		as := g.callArgs(t.node)
		switch g.storageCall(t.node) {
		case "GetFieldSize":
			if len(as) > 0 && ix.isParam(as[len(as)-1], ix.field) {
				return "size"
			}
		case "GetFieldLength":
			if len(as) > 0 && ix.isParam(as[len(as)-1], ix.field) {
				return "length"
			}
		}
		return ""
	}
	return s
}

func (ix *indexSearch) returns() []*Node {
	var out []*Node
	for _, r := range ix.g.root.rets {
		if ix.g.live[r] {
			out = append(out, r)
		}
	}
	return out
}

// part is a field of the returned result.
func (ix *indexSearch) part(r *Node, name string) *Term {
	g := ix.g
	t := g.term(g.root, r.in.(*ssa.Return).Results[0])
	fs := g.fieldVals(t, name)
	if len(fs) != 1 {
		return nil
	}
	return fs[0]
}

// statistics: the numbers in the result are those of the field.
func (ix *indexSearch) statistics() {
	g, c := ix.g, ix.c
	for _, r := range ix.returns() {
		if g.onlyIf(r, func(b *Node) bool { return g.emptyGuard(b, g.P(ix.terms)) }) {
			continue
		}
		where := g.where(r)
		for _, empty := range []bool{false, true} {
			s := ix.numbers(empty)
			if !s.feasible(r, nil) {
				continue
			}
			size, avg := s.atom("size"), rat("0")
			if !empty {
				avg = s.atom("length").div(size)
			}
			for _, w := range []struct {
				name string
				want *ratio
			}{{"TotalDocuments", size}, {"AvgDocLength", avg}} {
				t := ix.part(r, w.name)
				if t == nil {
					c.bad("statistics", ix.lab, where, "the result has no "+w.name)
					continue
				}
				s.bad = ""
				vs := s.eval(t, r)
				if !c.check(len(vs) > 0, "statistics", ix.lab, where, w.name+" is not understood: "+s.bad) {
					continue
				}
				for _, v := range vs {
					desc := "documents in the field"
					if empty {
						desc = "an empty field"
					}
					c.check(v.same(w.want), "statistics", ix.lab, where, w.name+" is "+v.String()+" instead of "+w.want.String()+" for "+desc)
				}
			}
		}
		t := ix.part(r, "NumFieldsWithTerm")
		if t == nil {
			c.bad("statistics", ix.lab, where, "the result has no NumFieldsWithTerm")
			continue
		}
		for _, v := range g.vals(t) {
			ok := false
			if v.op == "call" && g.storageCall(v.node) == "GetNumberFieldTerm" {
				as := g.callArgs(v.node)
				if k := len(as); k >= 2 {
					ok = ix.isParam(as[k-2], ix.field) && g.sameCont(as[k-1], ix.terms)
				}
			}
			c.check(ok, "statistics", ix.lab, where, "NumFieldsWithTerm is "+g.P(v)+", not the document frequencies of the terms in the field")
		}
	}
}

// documents: the fields of all documents of all terms are in the result.
func (ix *indexSearch) documents() {
	g, c := ix.g, ix.c
	for _, r := range ix.returns() {
		ix.ret = r
		t := ix.part(r, "FieldDocuments")
		if t == nil {
			c.bad("documents", ix.lab, g.where(r), "the result has no documents")
			continue
		}
		for _, v := range g.vals(t) {
			switch {
			case isNilConst(v) || v.op == "const":
				c.check(g.onlyIf(r, ix.nothing), "documents", ix.lab, g.where(r), "it returns no documents although some may match")
			case v.op == "call" && g.storageCall(v.node) == "GetFields":
				ix.fetched(v.node)
			case v.op == "fresh":
				ups := 0
				for _, e := range g.effects() {
					if e.m != nil && g.sameCont(e.m, v) {
						if e.kind == "update" {
							ups++
						} else {
							c.bad("documents", ix.lab, g.where(e.n), "documents are taken out of the result")
						}
					}
				}
				if ups == 0 {
					c.check(g.onlyIf(r, ix.nothing), "documents", ix.lab, g.where(r), "it returns no documents although some may match")
					continue
				}
				ix.fill(v)
			default:
				c.bad("documents", ix.lab, g.where(r), "the documents of the result are "+g.P(v))
			}
		}
	}
}

// entry tells whether a key and a value are the entry a map loop is at.
func (g *Graph) entry(l *Loop, k, v *Term) bool {
	if l.kind != "map" || l.key == nil || g.K(g.single0(k)) != g.K(l.key) {
		return false
	}
	v = g.single0(v)
	if v.op == "res" && v.i == 0 {
		v = v.args[0]
	}
	switch v.op {
	case "rangeval":
		return v.node == l.key.node
	case "lookup":
		return g.sameCont(v.args[0], l.dom) && g.K(g.single0(v.args[1])) == g.K(l.key)
	}
	return false
}

// after decides that a node is always followed by another one before its iteration or goroutine ends, unless skipped.
func (g *Graph) after(n *Node, then, skip func(*Node) bool) []*Node {
	return g.find([]*Node{n}, searchOpt{
		avoid: func(m *Node) bool { return then(m) || skip != nil && skip(m) },
		goal: func(m *Node) bool {
			if m == n.fr.thread.exit {
				return true
			}
			for l := g.loopOf[n]; l != nil; l = l.parent {
				if m == l.header {
					return true
				}
			}
			return false
		},
	})
}

// fill: every entry of every fetched map ends in the result map.
func (ix *indexSearch) fill(m *Term) {
	g, c := ix.g, ix.c
	var ups []Eff
	for _, e := range g.effects() {
		if e.m != nil && e.kind == "update" && g.sameCont(e.m, m) {
			ups = append(ups, e)
		}
	}
	isUp := func(n *Node) bool {
		for _, e := range ups {
			if e.n == n {
				return true
			}
		}
		return false
	}
	used := map[*Node]bool{}
	n := 0
	for _, gn := range g.liveNodes {
		if g.storageCall(gn) != "GetFields" {
			continue
		}
		n++
		res := g.result(gn, 0)
		ok := false
		why := "the fetched fields do not reach the result"
		for _, l := range g.loops {
			if l.kind != "map" || !g.sameCont(l.dom, res) {
				continue
			}
			hit := func(x *Node) bool { return false }
			for _, e := range ups {
				if g.loopOf[e.n] == l && g.entry(l, e.k, e.v) {
					used[e.n] = true
					hit = isUp
				}
			}
			for _, ch := range g.chans() {
				for _, s := range ch.sends {
					if g.loopOf[s] != l {
						continue
					}
					if w := ix.relay(ch, s, l, ups, used); w == "" {
						hit = func(x *Node) bool { return contains(ch.sends, x) }
					} else {
						why = w
					}
				}
			}
			if p := g.perIteration(l, hit); p != nil {
				why = "a fetched field can get lost: " + g.pathText(p)
				continue
			}
			if len(g.exits(l)) > 0 {
				why = "the loop over the fetched fields can be left early"
				continue
			}
			if p := g.after(gn, func(x *Node) bool { return x == l.done }, func(x *Node) bool { return g.emptyGuard(x, g.P(res)) }); p != nil {
				why = "the fetched fields can get lost: " + g.pathText(p)
				continue
			}
			ok = true
		}
		if !ok {
			// the whole map is sent
			for _, ch := range g.chans() {
				for _, s := range ch.sends {
					snd, isS := s.in.(*ssa.Send)
					if !isS || !g.sameCont(g.term(s.fr, snd.X), res) {
						continue
					}
					if w := ix.receive(ch, nil, ups, used); w != "" {
						why = w
						continue
					}
					if p := g.after(gn, func(x *Node) bool { return x == s }, func(x *Node) bool { return g.emptyGuard(x, g.P(res)) }); p != nil {
						why = "the fetched fields can get lost: " + g.pathText(p)
						continue
					}
					ok = true
				}
			}
		}
		c.check(ok, "documents", ix.lab, g.where(gn), why)
		ix.fetched(gn)
	}
	c.check(n > 0, "documents", ix.lab, g.where(ix.ret), "no fields are fetched")
	var nodes []*Node
	for _, e := range ups {
		nodes = append(nodes, e.n)
		c.check(used[e.n], "documents", ix.lab, g.where(e.n), "something else than a fetched field is put into the result")
	}
	w := g.settled(nodes, ix.ret)
	c.check(w == "", "documents", ix.lab, g.where(ix.ret), w)
}

func contains(ns []*Node, n *Node) bool {
	for _, x := range ns {
		if x == n {
			return true
		}
	}
	return false
}

// relay: a fetched entry is sent and the receiver puts it into the result.
func (ix *indexSearch) relay(ch *Chan, s *Node, l *Loop, ups []Eff, used map[*Node]bool) string {
	g := ix.g
	snd, ok := s.in.(*ssa.Send)
	if !ok {
		return "the fetched fields are sent in a way that is not understood"
	}
	v := g.single0(g.term(s.fr, snd.X))
	if v.op == "fresh" {
		if _, isMap := v.v.(*ssa.MakeMap); isMap {
			// a map with the entry
			n := 0
			for _, e := range g.effects() {
				if e.m == nil || !g.sameCont(e.m, v) {
					continue
				}
				if e.kind != "update" || !g.entry(l, e.k, e.v) {
					return "something else than the fetched field is sent"
				}
				if g.loopOf[e.n] != l || !g.dominates(e.n, s) {
					return "an empty map can be sent"
				}
				n++
			}
			if n == 0 {
				return "an empty map is sent"
			}
			if !g.inLoop(v.node, l) {
				return "the same map is sent again and again"
			}
			return ix.receive(ch, nil, ups, used)
		}
	}
	// a struct with id and field
	kf, vf := "", ""
	for _, name := range structFields(snd.X.Type()) {
		for _, x := range g.fieldVals(g.term(s.fr, snd.X), name) {
			if g.K(g.single0(x)) == g.K(l.key) {
				kf = name
			} else if g.entry(l, l.key, x) {
				vf = name
			}
		}
	}
	if kf == "" || vf == "" {
		return "the fetched entry is not what is sent"
	}
	return ix.receive(ch, []string{kf, vf}, ups, used)
}

// receive: everything received from a channel is put into the result.
func (ix *indexSearch) receive(ch *Chan, fields []string, ups []Eff, used map[*Node]bool) string {
	g := ix.g
	why := "nothing receives the fetched fields"
	for _, l := range g.loops {
		if l.kind != "chan" || g.chanOf(l.dom) != ch.made {
			continue
		}
		if len(g.exits(l)) > 0 {
			return "the loop over the fetched fields can be left early"
		}
		isItem := func(t *Term) bool {
			t = g.single0(t)
			return t.op == "recv" && t.node != nil && g.chanOf(t.args[0]) == ch.made && (l.body[t.node] || t.node == l.header)
		}
		if fields != nil {
			hit := map[*Node]bool{}
			for _, e := range ups {
				k, v := g.single0(e.k), g.single0(e.v)
				if g.loopOf[e.n] == l && k.op == "field" && v.op == "field" && k.s == fields[0] && v.s == fields[1] && isItem(k.args[0]) && isItem(v.args[0]) {
					hit[e.n], used[e.n] = true, true
				}
			}
			if p := g.perIteration(l, func(n *Node) bool { return hit[n] }); p != nil {
				return "a received field can get lost: " + g.pathText(p)
			}
			why = ""
			break
		}
		for _, in := range g.loops {
			if in.kind != "map" || in.parent != l || !isItem(in.dom) {
				continue
			}
			hit := map[*Node]bool{}
			for _, e := range ups {
				if g.loopOf[e.n] == in && g.entry(in, e.k, e.v) {
					hit[e.n], used[e.n] = true, true
				}
			}
			if p := g.perIteration(in, func(n *Node) bool { return hit[n] }); p != nil {
				return "a received field can get lost: " + g.pathText(p)
			}
			if len(g.exits(in)) > 0 {
				return "the loop over the received fields can be left early"
			}
			if p := g.perIteration(l, func(n *Node) bool { return n == in.done || n.kind == NBranch && g.emptyItem(n, isItem) }); p != nil {
				return "received fields can get lost: " + g.pathText(p)
			}
			why = ""
		}
		if why == "" {
			if p := g.find([]*Node{g.root.entry}, searchOpt{
				avoid: func(n *Node) bool { return n == l.done || ix.nothing(n) },
				goal:  func(n *Node) bool { return n == ix.ret },
			}); p != nil && l.header.fr.thread == ix.ret.fr.thread {
				return "the fetched fields may not be received: " + g.pathText(p)
			}
			return ""
		}
	}
	return why
}

// emptyItem tells whether a branch says that the received map is empty.
func (g *Graph) emptyItem(n *Node, isItem func(*Term) bool) bool {
	c := g.single0(g.cond(n))
	if c.op != "bin" {
		return false
	}
	for _, a := range c.args {
		a = g.single0(a)
		if a.op == "len" && isItem(a.args[0]) && g.emptyGuard(n, g.deref(a.args[0], true)) {
			return true
		}
	}
	return false
}

// fetched: the list of a GetFields call is a batch of the collected ids.
func (ix *indexSearch) fetched(gn *Node) {
	g, c := ix.g, ix.c
	where := g.where(gn)
	as := g.callArgs(gn)
	if len(as) < 2 {
		c.bad("documents", ix.lab, where, "the fields are fetched in an unknown way")
		return
	}
	ids, field := as[len(as)-2], as[len(as)-1]
	c.check(ix.isParam(field, ix.field), "own-field", ix.lab, where, "fields of "+g.P(field)+" are fetched")
	var use *Node = gn
	for use.fr.thread.spawn != nil {
		use = use.fr.thread.spawn
	}
	before := func(n *Node) string {
		p := g.find([]*Node{g.root.entry}, searchOpt{
			avoid: func(m *Node) bool { return m == n || ix.nothing(m) },
			goal:  func(m *Node) bool { return m == ix.ret },
		})
		if p != nil {
			return g.pathText(p)
		}
		return ""
	}
	ia, f := g.elemSource(ids)
	if ia == nil {
		// one list
		w := ""
		if g.find([]*Node{g.root.entry}, searchOpt{
			avoid: func(m *Node) bool { return m == use || ix.nothing(m) || g.emptyGuard(m, g.P(ids)) },
			goal:  func(m *Node) bool { return m == ix.ret },
		}) != nil {
			w = "the fields may not be fetched"
		}
		c.check(w == "", "documents", ix.lab, where, w)
		ix.collected(ids, nil, use)
		return
	}
	if f != "" {
		c.bad("documents", ix.lab, where, "the list of documents is not understood")
		return
	}
	var lb *Loop
	for _, l := range g.loopsAround(gn) {
		if (l.kind == "slice" || l.kind == "count") && l.key != nil && g.K(l.key) == g.K(ia.args[1]) && g.coversSlice(l, ia.args[0]) {
			lb = l
			break
		}
	}
	if !c.check(lb != nil, "documents", ix.lab, where, "no loop runs over all batches") {
		return
	}
	emptyBatch := func(n *Node) bool { return n.kind == NBranch && g.emptyElem(n, ia) }
	p := g.perIteration(lb, g.lift(func(n *Node) bool { return n == gn || emptyBatch(n) }))
	c.check(p == nil, "documents", ix.lab, where, "a batch can be left out: "+g.pathText(p))
	c.check(len(g.exits(lb)) == 0, "documents", ix.lab, g.where(lb.header), "the loop over the batches can be left early")
	if w := before(lb.done); w != "" {
		c.bad("documents", ix.lab, g.where(lb.header), "the batches may not be fetched: "+w)
	}
	ix.collected(ia.args[0], ia, lb.header)
}

// emptyElem tells whether a branch says that the element of a slice is empty.
func (g *Graph) emptyElem(n *Node, ia *Term) bool {
	c := g.single0(g.cond(n))
	if c.op != "bin" {
		return false
	}
	for _, a := range c.args {
		a = g.single0(a)
		if a.op == "len" && g.emptyGuard(n, g.deref(a.args[0], true)) {
			if x, f := g.elemSource(a.args[0]); x != nil && f == "" && g.K(x) == g.K(ia) {
				return true
			}
		}
	}
	return false
}

// collected: the lists hold each found id once.
func (ix *indexSearch) collected(lists, ia *Term, use *Node) {
	g, c := ix.g, ix.c
	where := g.where(use)
	var puts []putIn
	unique := false
	if ia == nil {
		if name := g.keysOf(lists, use); name != "" {
			// the keys of a set
			for _, e := range g.effects() {
				if e.m != nil && e.cont == name {
					if e.kind != "update" {
						c.bad("collected", ix.lab, g.where(e.n), "a found document is dropped")
						continue
					}
					puts = append(puts, putIn{e.n, e.k})
				}
			}
			unique = true
		} else {
			ct, ok := g.contents(lists)
			if !c.check(ok && len(ct) > 0 && g.single0(lists).op != "slice", "collected", ix.lab, where, "the list of documents is not understood") {
				return
			}
			for _, e := range ct {
				if e.idx != nil || e.val == nil {
					c.bad("collected", ix.lab, g.where(e.node), "the list of documents is not understood")
					return
				}
				puts = append(puts, putIn{e.node, e.val})
			}
			w := g.lost(lists, use)
			c.check(w == "", "collected", ix.lab, where, "a found document is dropped: "+w)
		}
	} else {
		root := g.single(lists)
		if !c.check(root != nil && (root.op == "fresh" || g.madeLen(root) != nil), "collected", ix.lab, where, "the batches are not understood") {
			return
		}
		ct, ok := g.contents(lists)
		if !c.check(ok && len(ct) > 0, "collected", ix.lab, where, "nothing is put into the batches") {
			return
		}
		for _, e := range ct {
			v := g.single0(e.val)
			if e.idx == nil || e.sub != nil {
				c.bad("collected", ix.lab, g.where(e.node), "the batches are not understood")
				return
			}
			if isNilConst(v) || g.emptyFresh(v) {
				c.check(!g.reachesAfterPut(e.node, ct), "collected", ix.lab, g.where(e.node), "a batch is emptied")
				continue
			}
			if v.op != "append" {
				c.bad("collected", ix.lab, g.where(e.node), "a batch is replaced by "+g.P(v))
				continue
			}
			x, f := g.elemSource(v.args[0])
			if !c.check(x != nil && f == "" && g.sameCont(x.args[0], lists) && g.K(x.args[1]) == g.K(e.idx), "collected", ix.lab, g.where(e.node), "a batch is replaced by documents of another one") {
				continue
			}
			va, ok := g.varargs(v.args[1])
			if !c.check(ok && len(va) == 1, "collected", ix.lab, g.where(e.node), "what is put into the batch is not understood") {
				continue
			}
			c.check(g.inRange(e.idx, root), "collected", ix.lab, g.where(e.node), "the batch "+g.P(e.idx)+" may not exist")
			puts = append(puts, putIn{e.node, va[0]})
		}
	}
	ix.gathered(puts, unique, use)
}

// putIn is a place where an id is put into a list or a set.
type putIn struct {
	n  *Node
	id *Term
}

// gathered: what is put into a list or a set (unique) are the ids found, each once, all before a node runs.
func (ix *indexSearch) gathered(puts []putIn, unique bool, use *Node) {
	g, c := ix.g, ix.c
	where := g.where(use)
	isPut := func(n *Node) bool {
		for _, p := range puts {
			if p.n == n {
				return true
			}
		}
		return false
	}
	if !c.check(len(puts) > 0, "collected", ix.lab, where, "no found documents are collected") {
		return
	}
	// inherited: the ids come from a list or a set that holds each once
	inherited := func(l *Loop, n *Node) {
		p := g.perIteration(l, isPut)
		c.check(p == nil, "collected", ix.lab, g.where(l.header), "a found document can be left out: "+g.pathText(p))
		if unique {
			return
		}
		c.check(len(g.loopsAround(n)) == 1, "once", ix.lab, g.where(n), "a document can be fetched twice: it is put there in nested loops")
		for _, q := range puts {
			if g.loopOf[q.n] == l {
				p := g.find([]*Node{q.n}, searchOpt{
					avoid: func(m *Node) bool { return m == l.header },
					goal:  func(m *Node) bool { return m != q.n && isPut(m) },
				})
				c.check(p == nil, "once", ix.lab, g.where(n), "a document can be fetched twice: "+g.pathText(p))
			}
		}
	}
	seen := map[*Loop]bool{}
	var nodes []*Node
	for _, p := range puts {
		nodes = append(nodes, p.n)
		ls := g.loopsAround(p.n)
		if !c.check(len(ls) > 0, "collected", ix.lab, g.where(p.n), "something else than a found document is fetched") {
			continue
		}
		l := ls[0]
		id := g.single0(p.id)
		fromChan := l.kind == "chan" && id.op == "recv" && g.chanOf(id.args[0]) == g.chanOf(l.dom) && g.chanOf(l.dom) != nil
		fromSet := l.kind == "map" && l.key != nil && g.K(id) == g.K(l.key)
		var list *Term
		if x, f := g.elemSource(p.id); x != nil && f == "" && l.key != nil && (l.kind == "slice" || l.kind == "count") &&
			g.K(x.args[1]) == g.K(l.key) && g.coversSlice(l, x.args[0]) {
			list = x.args[0]
		}
		if !c.check(fromChan || fromSet || list != nil, "collected", ix.lab, g.where(p.n), "something else than a found document is fetched: "+g.P(id)) {
			continue
		}
		if seen[l] {
			continue
		}
		seen[l] = true
		c.check(len(g.exits(l)) == 0, "collected", ix.lab, g.where(l.header), "the loop over the found documents can be left early")
		if l.header.fr.thread == use.fr.thread {
			// the loop over what one term found can be part of the loop over the terms
			outer := l
			for _, o := range g.loopsAround(l.header) {
				if o.body[outer.header] && !o.body[use] {
					outer = o
				}
			}
			w := g.find([]*Node{g.root.entry}, searchOpt{
				avoid: func(m *Node) bool { return m == outer.done || ix.nothing(m) },
				goal:  func(m *Node) bool { return m == use },
			})
			c.check(w == nil, "collected", ix.lab, g.where(l.header), "documents may be fetched before all are found: "+g.pathText(w))
		}
		if list != nil {
			inherited(l, p.n)
			ix.collected(list, nil, l.header)
			continue
		}
		if h := g.single(l.dom); fromSet && h != nil && h.op == "fresh" {
			inherited(l, p.n)
			var in []putIn
			for _, e := range g.effects() {
				if e.m == nil || !g.sameCont(e.m, h) {
					continue
				}
				if e.kind != "update" {
					c.bad("collected", ix.lab, g.where(e.n), "a found document is dropped")
					continue
				}
				in = append(in, putIn{e.n, e.k})
			}
			ix.gathered(in, true, l.header)
			continue
		}
		missed, twice := g.oncePerKey(l, id, isPut)
		c.check(missed == "", "collected", ix.lab, g.where(l.header), "a found document can be left out: "+missed)
		c.check(unique || twice == "", "once", ix.lab, g.where(p.n), "a document can be fetched twice: "+twice)
		if fromChan {
			for _, ch := range g.chans() {
				if ch.made != g.chanOf(l.dom) {
					continue
				}
				src := map[*Node]bool{}
				for _, s := range ch.sends {
					ix.found(s, src)
				}
				ix.allFound(ch.sends, src)
			}
			continue
		}
		src := map[*Node]bool{}
		if ix.postings(l, src) {
			ix.allFound([]*Node{p.n}, src)
		}
	}
	w := g.settled(nodes, use)
	c.check(w == "", "collected", ix.lab, where, w)
}

// reachesAfterPut tells whether a store that empties a batch can follow one that fills it.
func (g *Graph) reachesAfterPut(n *Node, ct []Elem) bool {
	for _, e := range ct {
		if e.node != n && e.val != nil && g.single0(e.val).op == "append" && g.reaches(e.node, n) {
			return true
		}
	}
	return false
}

// inRange decides that an index is x % length with x not negative.
func (g *Graph) inRange(idx, slice *Term) bool {
	n := g.madeLen(slice)
	idx = g.single0(idx)
	if idx.op == "bin" && idx.s == "%" && n != nil {
		m := g.single0(idx.args[1])
		a, ok1 := constInt(m)
		b, ok2 := constInt(g.single0(n))
		if ok1 && ok2 && a <= b && a > 0 || g.K(m) == g.K(g.single0(n)) || m.op == "len" && g.sameCont(m.args[0], slice) {
			return g.nonNeg(idx.args[0], map[*Term]bool{})
		}
	}
	return n != nil && g.wraps(idx, func(m *Term) bool {
		m = g.single0(m)
		a, ok1 := constInt(m)
		b, ok2 := constInt(g.single0(n))
		return ok1 && ok2 && a == b || g.K(m) == g.K(g.single0(n)) || m.op == "len" && g.sameCont(m.args[0], slice)
	}, map[*Term]bool{})
}

// wraps tells whether a number counts from 0 and starts again before it is the limit.
func (g *Graph) wraps(t *Term, limit func(*Term) bool, seen map[*Term]bool) bool {
	t = g.single0(t)
	if seen[t] {
		return true
	}
	seen[t] = true
	if k, ok := constInt(t); ok {
		return k == 0
	}
	if t.op != "phi" {
		return false
	}
	p := t.v.(*ssa.Phi)
	for i, e := range p.Edges {
		from := (&scoring{g: g}).edge(t, i)
		if from == nil {
			continue
		}
		v := g.single0(g.term(t.fr, e))
		if v.op != "bin" {
			if !g.wraps(v, limit, seen) {
				return false
			}
			continue
		}
		if k, ok := constInt(v.args[1]); v.s != "+" || !ok || k != 1 || !g.wraps(v.args[0], limit, seen) {
			return false
		}
		below := func(n *Node) bool {
			if n.kind != NBranch || n.maybe {
				return false
			}
			c := g.single0(g.cond(n))
			if c.op != "bin" || len(c.args) != 2 || g.K(g.single0(c.args[0])) != g.K(v) || !limit(c.args[1]) {
				return false
			}
			switch c.s {
			case "<", "!=":
				return n.pol
			case ">=", "==":
				return !n.pol
			}
			return false
		}
		if !below(from) && !g.onlyIf(from, below) {
			return false
		}
	}
	return true
}

func (g *Graph) nonNeg(t *Term, seen map[*Term]bool) bool {
	t = g.single0(t)
	if seen[t] {
		return true
	}
	seen[t] = true
	if k, ok := constInt(t); ok {
		return k >= 0
	}
	switch t.op {
	case "len":
		return true
	case "phi":
		for _, a := range g.alts(t) {
			if !g.nonNeg(a, seen) {
				return false
			}
		}
		return true
	case "bin":
		for _, l := range g.loops {
			if l.kind == "slice" && l.key != nil && l.dom != nil && g.K(l.key) == g.K(t) {
				return true
			}
		}
		if t.s == "+" || t.s == "*" {
			return g.nonNeg(t.args[0], seen) && g.nonNeg(t.args[1], seen)
		}
		if t.s == "%" || t.s == "/" {
			return g.nonNeg(t.args[0], seen) && g.nonNeg(t.args[1], seen)
		}
	case "load":
		for _, a := range g.alts(t) {
			if !g.nonNeg(a, seen) {
				return false
			}
		}
		return len(g.alts(t)) > 0
	}
	return false
}

// oncePerKey decides that each iteration of a loop has the event unless its key was seen before, and whether the
// event can happen twice for one key.
func (g *Graph) oncePerKey(l *Loop, key *Term, ev func(*Node) bool) (missed, twice string) {
	k := g.K(key)
	var sets []*Term
	skip := func(n *Node) bool {
		if n.kind != NBranch || n.maybe {
			return false
		}
		c, pol := g.single0(g.cond(n)), n.pol
		for c.op == "un" && c.s == "!" {
			c, pol = g.single0(c.args[0]), !pol
		}
		if !pol || (c.op != "lookupok" && c.op != "lookup") || g.K(g.single0(c.args[1])) != k {
			return false
		}
		h := g.single(c.args[0])
		if h == nil || h.op != "fresh" || g.inLoop(h.node, l) {
			return false
		}
		for _, e := range g.effects() {
			if e.m == nil || !g.sameCont(e.m, h) {
				continue
			}
			if e.kind != "update" || g.K(g.single0(e.k)) != k {
				return false
			}
			if c.op == "lookup" && !isBoolConst(g.single0(e.v), true) {
				return false
			}
			// marked but not taken
			if !ev(e.n) && g.find([]*Node{l.enter}, searchOpt{avoid: ev, goal: func(m *Node) bool { return m == e.n }}) != nil &&
				g.find([]*Node{e.n}, searchOpt{avoid: ev, goal: func(m *Node) bool { return m == l.header }}) != nil {
				return false
			}
		}
		for _, s := range sets {
			if s == h {
				return true
			}
		}
		sets = append(sets, h)
		return true
	}
	if p := g.perIteration(l, func(n *Node) bool { return ev(n) || skip(n) }); p != nil {
		missed = g.pathText(p)
	}
	twice = "nothing remembers the documents found"
	for _, h := range sets {
		mark := func(n *Node) bool {
			for _, e := range g.effects() {
				if e.n == n && e.m != nil && e.kind == "update" && g.sameCont(e.m, h) {
					return true
				}
			}
			return false
		}
		// taken without being marked, or without having been looked up
		p := g.find([]*Node{l.enter}, searchOpt{avoid: mark, goal: ev})
		ok := true
		if p != nil && !mark(p[len(p)-1]) {
			if q := g.find([]*Node{p[len(p)-1]}, searchOpt{avoid: mark, goal: func(m *Node) bool { return m == l.header }}); q != nil {
				ok = false
				twice = g.pathText(p)
			}
		}
		if p := g.find([]*Node{l.enter}, searchOpt{avoid: func(n *Node) bool { return g.notIn(n, h, k) }, goal: ev}); p != nil {
			ok = false
			twice = g.pathText(p)
		}
		if ok {
			return missed, ""
		}
	}
	return missed, twice
}

// notIn tells whether a branch says that a key is not in a map.
func (g *Graph) notIn(n *Node, h *Term, k string) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	c, pol := g.single0(g.cond(n)), n.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	return !pol && (c.op == "lookupok" || c.op == "lookup") && g.K(g.single0(c.args[1])) == k && g.single(c.args[0]) == h
}

// found: what a node sends is an id of a posting set.
func (ix *indexSearch) found(s *Node, src map[*Node]bool) {
	g, c := ix.g, ix.c
	snd, ok := s.in.(*ssa.Send)
	ls := g.loopsAround(s)
	if !c.check(ok && len(ls) > 0 && ls[0].kind == "map" && ls[0].key != nil && g.K(g.single0(g.term(s.fr, snd.X))) == g.K(ls[0].key),
		"postings", ix.lab, g.where(s), "something else than the ids of a posting set is sent") {
		return
	}
	l := ls[0]
	if ix.postings(l, src) {
		p := g.perIteration(l, func(n *Node) bool { return n == s })
		c.check(p == nil, "postings", ix.lab, g.where(s), "a document of a posting set can be left out: "+g.pathText(p))
	}
	c.check(len(g.exits(l)) == 0, "postings", ix.lab, g.where(l.header), "the loop over a posting set can be left early")
}

// postings: a loop runs over the documents of a posting set, whenever there is one.
func (ix *indexSearch) postings(l *Loop, src map[*Node]bool) bool {
	g, c := ix.g, ix.c
	x := g.single0(l.dom)
	if x.op == "field" {
		x = g.single0(x.args[0])
	}
	var d *Node
	if x.op == "res" && x.i == 0 && x.args[0].op == "call" && g.storageCall(x.args[0].node) == "GetDocuments" {
		d = x.args[0].node
	}
	if x.op == "load" || x.op == "field" {
		for _, v := range g.vals(x) {
			if v.op == "res" && v.args[0].op == "call" && g.storageCall(v.args[0].node) == "GetDocuments" {
				d = v.args[0].node
			}
		}
	}
	if !c.check(d != nil, "postings", ix.lab, g.where(l.header), "the loop runs over "+g.P(l.dom)+", not over a posting set") {
		return false
	}
	src[d] = true
	okRes := g.result(d, 1)
	set := g.result(d, 0)
	absent := func(n *Node) bool {
		if n.kind != NBranch || n.maybe {
			return false
		}
		t, pol := g.single0(g.cond(n)), n.pol
		for t.op == "un" && t.s == "!" {
			t, pol = g.single0(t.args[0]), !pol
		}
		if okRes != nil && t == okRes && !pol {
			return true
		}
		return g.emptyGuard(n, g.P(l.dom)) || set != nil && g.emptyGuard(n, g.P(set))
	}
	p := g.after(d, func(n *Node) bool { return n == l.done }, absent)
	return c.check(p == nil, "postings", ix.lab, g.where(d), "the documents of a term can be left out: "+g.pathText(p))
}

// allFound: the posting set of each term is looked up.
func (ix *indexSearch) allFound(at []*Node, src map[*Node]bool) {
	g, c := ix.g, ix.c
	if !c.check(len(src) > 0, "postings", ix.lab, g.where(ix.ret), "no posting sets are looked up") {
		return
	}
	for _, n := range g.liveNodes {
		if !src[n] {
			continue
		}
		as := g.callArgs(n)
		if len(as) < 2 {
			continue
		}
		field, term := as[len(as)-2], as[len(as)-1]
		c.check(ix.isParam(field, ix.field), "own-field", ix.lab, g.where(n), "the posting sets of "+g.P(field)+" are looked up")
		ia, f := g.elemSource(term)
		var lt *Loop
		if ia != nil && f == "" && g.sameCont(ia.args[0], ix.terms) {
			for _, l := range g.loopsAround(n) {
				if (l.kind == "slice" || l.kind == "count") && l.key != nil && g.K(l.key) == g.K(ia.args[1]) && g.coversSlice(l, ix.terms) {
					lt = l
				}
			}
		}
		if !c.check(lt != nil, "all-terms", ix.lab, g.where(n), "no loop looks up the posting sets of all terms, but that of "+g.P(term)) {
			continue
		}
		missed, _ := g.oncePerKey(lt, g.single0(term), g.lift(func(m *Node) bool { return m == n }))
		c.check(missed == "", "all-terms", ix.lab, g.where(n), "a term can be left out: "+missed)
		c.check(len(g.exits(lt)) == 0, "all-terms", ix.lab, g.where(lt.header), "the loop over the terms can be left early")
		p := g.find([]*Node{g.root.entry}, searchOpt{
			avoid: func(m *Node) bool { return m == lt.done || ix.nothing(m) },
			goal:  func(m *Node) bool { return m == ix.ret },
		})
		if lt.header.fr.thread == ix.ret.fr.thread {
			c.check(p == nil, "all-terms", ix.lab, g.where(lt.header), "terms may not be looked up: "+g.pathText(p))
		}
	}
}

func init() {
	register("C17", 1, "", ruleC17)
}

func structFields(t types.Type) []string {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Name())
	}
	return out
}
