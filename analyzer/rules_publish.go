package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C23, C24: caches that publish complete maps --------------------------------------------------------------

// pointees are the values the pointer holds at a node: what a local cell holds, or the slot itself.
func (g *Graph) pointees(t *Term, at *Node) []Choice {
	var out []Choice
	for _, ch := range g.choices(t, at) {
		if ch.v.op == "fresh" {
			if _, ok := ch.v.v.(*ssa.Alloc); ok {
				for _, m := range g.memVals(ch.at, ch.v, derefType(ch.v.typ)) {
					n := m.node
					if n == nil {
						n = ch.at
					}
					for _, c2 := range g.choices(m.val, n) {
						out = append(out, Choice{c2.v, ch.at})
					}
				}
				continue
			}
		}
		out = append(out, ch)
	}
	return out
}

func isBoolConst(t *Term, v bool) bool {
	if t.op != "const" {
		return false
	}
	if v {
		return t.s == "true"
	}
	return t.s == "false" || t.s == "zero"
}

// slotGetter decides that a method answers from one slot: (pointer to) the value of slot when present, absent otherwise.
// It returns the slot.
func (c *Ctx) slotGetter(g *Graph, obj, rule string) string {
	slot := ""
	for _, v := range g.pointeesOfResults(0) {
		if isZeroConst(v.v) {
			continue
		}
		p := g.P(v.v)
		if v.v.op != "lookup" && !strings.HasSuffix(p, "]") {
			c.bad(rule, obj, g.where(v.at), "it returns "+p)
			return ""
		}
		if slot != "" && slot != p {
			c.bad(rule, obj, g.where(v.at), "it returns "+slot+" or "+p)
			return ""
		}
		slot = p
	}
	if !c.check(strings.HasPrefix(slot, "$0.") && strings.HasSuffix(slot, "[$1]"), rule, obj, g.where(g.root.entry), "it answers from "+slot+", not from an entry of the requested key") {
		return ""
	}
	// found exactly when present
	for _, r := range g.rootResults(1) {
		why := ""
		switch {
		case r.v.op == "lookupok" && g.P(r.v) == "has("+slot+")", r.v.op == "bin" && g.saysEmpty(r.v, false, slot):
		case isBoolConst(r.v, true):
			if !g.onlyIf(r.at, func(b *Node) bool { return g.saysPresent(b, slot) }) {
				why = "it reports a key as found that may be missing"
			}
		case isBoolConst(r.v, false):
			if !g.onlyIf(r.at, func(b *Node) bool { return g.emptyGuard(b, slot) }) {
				why = "it reports a key as missing that may be there"
			}
		default:
			why = "whether the key was found is " + g.P(r.v)
		}
		c.check(why == "", rule, obj+"/found", g.where(r.at), why)
	}
	// the zero value only when absent
	for _, v := range g.pointeesOfResults(0) {
		if isZeroConst(v.v) {
			c.check(g.onlyIf(v.at, func(b *Node) bool { return g.emptyGuard(b, slot) }), rule, obj+"/value", g.where(v.at), "it returns no value although the key may be there")
		}
	}
	return slot
}

func (g *Graph) pointeesOfResults(i int) []Choice {
	var out []Choice
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		res := r.in.(*ssa.Return).Results
		if i < len(res) {
			out = append(out, g.pointees(g.term(g.root, res[i]), r)...)
		}
	}
	return out
}

// saysPresent tells whether a branch outcome says that a slot holds something.
func (g *Graph) saysPresent(b *Node, slot string) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	return g.saysEmpty(g.cond(b), !b.pol, slot)
}

type pubCache struct {
	typ, ctor, prop string
}

func rulePublish(typ string) func(c *Ctx) {
	return func(c *Ctx) { c.publishing(typ) }
}

// ctorsOf finds the functions of a package that return a pointer to a named type.
func (c *Ctx) ctorsOf(pkg, typ string) []*ssa.Function {
	var out []*ssa.Function
	sp := c.p.Package(pkg)
	if sp == nil {
		return nil
	}
	for _, name := range sortedKeys(sp.Members) {
		f, ok := sp.Members[name].(*ssa.Function)
		if !ok {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if tn := namedOf(res.At(i).Type()); tn != nil && tn.Name() == typ && tn.Pkg() == sp.Pkg && f.Object() != nil && f.Object().Exported() {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func (c *Ctx) publishing(typ string) {
	nt := c.p.Named("cache", typ)
	if nt == nil {
		c.bad("anchor", "cache."+typ, "", "the type does not exist")
		return
	}
	meth := map[string]*ssa.Function{}
	for _, f := range exportedMethods(c.p, nt) {
		meth[f.Name()] = f
	}
	if meth["Get"] == nil || meth["Put"] == nil {
		c.bad("anchor", "cache."+typ, "", "Get or Put does not exist")
		return
	}
	gg := c.graph(meth["Get"], nil, "full")
	slot := c.slotGetter(gg, typ+".Get", "reader")
	if slot == "" {
		return
	}
	pub := strings.TrimSuffix(slot, "[$1]") // $0.data
	field := strings.TrimPrefix(pub, "$0.")
	// Put hands each pair over
	gp := c.graph(meth["Put"], nil, "full")
	type qsend struct {
		ch    string
		parts map[string]string // part -> "key" or "value"
		n     *Node
	}
	var sends []qsend
	for _, n := range gp.liveNodes {
		in, ok := n.in.(*ssa.Send)
		if !ok || n.kind != NInstr || n.fr.thread != gp.threads[0] {
			continue
		}
		ch := gp.P(gp.term(n.fr, in.Chan))
		q := qsend{ch: strings.TrimPrefix(ch, "$0."), parts: map[string]string{}, n: n}
		msg := gp.term(n.fr, in.X)
		if st, ok := msg.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				switch gp.P(gp.fieldOf(msg, f.Name(), i, f.Type())) {
				case "$1":
					q.parts["key"] = f.Name()
				case "$2":
					q.parts["value"] = f.Name()
				}
			}
		}
		sends = append(sends, q)
	}
	isSend := map[*Node]bool{}
	var send qsend
	for _, s := range sends {
		if s.parts["key"] != "" && s.parts["value"] != "" {
			isSend[s.n] = true
			send = s
		} else {
			c.bad("put", typ+".Put", gp.where(s.n), "what is handed over is not the pair of key and value")
		}
	}
	p := gp.find([]*Node{gp.root.entry}, searchOpt{avoid: func(n *Node) bool { return isSend[n] }, goal: gp.isRootExit})
	c.check(p == nil && len(isSend) > 0, "put", typ+".Put", gp.where(gp.root.entry), "a pair may not be handed over to the writer: "+gp.pathText(p))
	// no method changes the published map or its place
	for _, name := range sortedMethods(meth) {
		g := c.graph(meth[name], nil, "full")
		n := 0
		for _, e := range g.effects() {
			if under(e.path, pub) || (e.kind != "store" && under(e.cont, pub)) {
				n++
				c.bad("published-unchanged", typ+"."+name, g.where(e.n), "it changes the published map: "+e.path)
			}
		}
		for _, x := range g.liveNodes {
			if isAtomicStore(x.callName()) && g.deref(g.callArgs(x)[0], true) == pub {
				n++
				c.bad("published-unchanged", typ+"."+name, g.where(x), "it publishes another map beside the writer")
			}
		}
		if n == 0 {
			c.ok("published-unchanged", typ+"."+name, g.where(g.root.entry), "")
		}
	}
	if len(isSend) == 0 {
		return
	}
	ctors := c.ctorsOf("cache", typ)
	c.check(len(ctors) > 0, "writer", typ, "", "it has no constructor")
	for _, f := range ctors {
		c.publisher(typ, f, field, send.ch, send.parts["key"], send.parts["value"])
	}
}

type pubEvent struct {
	n   *Node
	v   *Term
	box *Term // the variable whose address is published, when it is one
}

// publications of the object: stores into its field, plain or atomic.
func (g *Graph) pubEvents(objs []*Term, field string) []pubEvent {
	isObj := func(t *Term) bool {
		vs := g.vals(t)
		for _, v := range vs {
			ok := false
			for _, o := range objs {
				ok = ok || v == o
			}
			if !ok {
				return false
			}
		}
		return len(vs) > 0
	}
	isPlace := func(a *Term) bool {
		a = g.canonAddr(a)
		return a.op == "fieldaddr" && a.s == field && isObj(a.args[0])
	}
	var out []pubEvent
	for _, n := range g.liveNodes {
		if n.kind == NInstr {
			if st, ok := n.in.(*ssa.Store); ok && isPlace(g.term(n.fr, st.Addr)) {
				out = append(out, g.unboxed(n, g.term(n.fr, st.Val)))
			}
		}
		if cn := n.callName(); isAtomicStore(cn) || (strings.HasPrefix(cn, "(*sync/atomic.") && (strings.HasSuffix(cn, ".Swap") || strings.HasSuffix(cn, ".CompareAndSwap"))) {
			as := g.callArgs(n)
			if isPlace(as[0]) {
				out = append(out, g.unboxed(n, as[len(as)-1]))
			}
		}
	}
	return out
}

// unboxed is the publication of a map, or of the map in a variable by the address of the variable.
func (g *Graph) unboxed(n *Node, v *Term) pubEvent {
	x := g.single0(v)
	if x.op == "fresh" && x.typ != nil {
		if pt, ok := x.typ.Underlying().(*types.Pointer); ok && isMap(pt.Elem()) {
			if mv := g.memVals(n, x, pt.Elem()); len(mv) == 1 {
				return pubEvent{n, mv[0].val, x}
			}
		}
	}
	return pubEvent{n, v, nil}
}

func (c *Ctx) publisher(typ string, ctor *ssa.Function, field, queue, keyPart, valPart string) {
	g := c.graph(ctor, nil, "full")
	obj := typ + " writer"
	var objs []*Term
	for _, r := range g.rootResults(0) {
		if r.v.op == "fresh" {
			objs = append(objs, r.v)
		}
	}
	if !c.check(len(objs) == 1, "writer", fnLabel(ctor), g.where(g.root.entry), "it does not return one new "+typ) {
		return
	}
	isObjField := func(t *Term, name string) bool {
		t = g.canonAddr(t)
		return t.op == "fieldaddr" && t.s == name && g.single0(t.args[0]) == objs[0]
	}
	_ = isObjField
	// the queue
	var ch *Term
	for _, n := range g.liveNodes {
		if st, ok := n.in.(*ssa.Store); ok && n.kind == NInstr && isObjField(g.term(n.fr, st.Addr), queue) {
			ch = g.single(g.term(n.fr, st.Val))
		}
	}
	if !c.check(ch != nil && ch.op == "fresh", "writer", fnLabel(ctor)+"/queue", g.where(g.root.entry), "the queue of Put is not made") {
		return
	}
	var ws []*Writer
	for _, th := range g.threads {
		if th.spawn == nil || th.callback {
			continue
		}
		if w := c.newWriter(g, th, obj, func(t *Term) bool { return g.single(t) == ch }); w != nil {
			ws = append(ws, w)
			p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return n == th.spawn }, goal: g.isRootExit})
			c.check(p == nil, "writer", fnLabel(ctor)+"/started", g.where(th.spawn), "the writer may not be started: "+g.pathText(p))
			if g.loopOf[th.spawn] != nil {
				c.bad("writer", fnLabel(ctor)+"/started", g.where(th.spawn), "more than one writer may be started")
			}
		}
	}
	if !c.check(len(ws) == 1, "writer", fnLabel(ctor), g.where(g.root.entry), "not exactly one goroutine receives what Put sends") {
		return
	}
	w := ws[0]
	pubs := g.pubEvents(objs, field)
	// the first map is there before the constructor returns
	initial := map[*Node]bool{}
	isPub := map[*Node]bool{}
	for _, e := range pubs {
		if w.nodes[e.n] {
			isPub[e.n] = true
		} else {
			initial[e.n] = true
		}
	}
	p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return initial[n] }, goal: func(n *Node) bool { return n == w.th.spawn || g.isRootExit(n) }})
	c.check(p == nil, "writer", fnLabel(ctor)+"/initial", g.where(g.root.entry), "the first map may not be published before the cache is used: "+g.pathText(p))
	w.keyed(keyPart, valPart)
	w.buffered("part-buffered")
	if !c.check(len(isPub) > 0, "published", obj, g.where(w.th.entry), "the writer publishes nothing") {
		return
	}
	// it ends never
	p = g.find([]*Node{w.th.entry}, searchOpt{goal: func(n *Node) bool { return n == w.th.exit }})
	c.check(p == nil, "writer-lives", obj, g.where(w.th.entry), "the writer can end: "+g.pathText(p))
	w.comesBack("writer-lives")
	// each tick publishes
	ticks := 0
	for _, r := range w.timers {
		why := w.isTicker(r)
		if strings.HasPrefix(why, "it is not a timer") {
			continue
		}
		if !c.check(why == "", "tick", obj, g.where(r.node), why) {
			continue
		}
		p := g.find(r.start, searchOpt{avoid: func(n *Node) bool { return isPub[n] || w.emptyBranch(n) }, goal: w.isEnd})
		if p == nil {
			ticks++
		}
	}
	c.check(ticks > 0, "tick", obj+"/published", g.where(w.th.entry), "no timer tick surely publishes what was put")
	starts := w.starts()
	old := func(t *Term) bool {
		for _, v := range g.vals(t) {
			if v.op == "load" || v.op == "init" {
				v = g.single0(v.args[0]) // the variable with the published address
			}
			if v.op == "call" && isAtomicLoad(v.s) && isObjField(v.args[0], field) {
				continue
			}
			return false
		}
		return len(g.vals(t)) > 0
	}
	readOld := func(t *Term) []*Node { // the nodes at which the published map is read
		seen := map[*Term]bool{}
		var out []*Node
		var rec func(t *Term)
		rec = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			switch t.op {
			case "load":
				if isObjField(t.args[0], field) {
					out = append(out, t.node)
					return
				}
				rec(g.single0(t.args[0]))
			case "init":
				rec(g.single0(t.args[0]))
			case "call":
				if isAtomicLoad(t.s) && isObjField(t.args[0], field) {
					out = append(out, t.node)
					return
				}
			}
			for _, a := range g.alts(t) {
				rec(a)
			}
		}
		rec(t)
		return out
	}
	isOld := func(t *Term) bool { return old(t) || len(readOld(t)) > 0 }
	isBuf := func(t *Term) bool {
		q := w.pl.of(t)
		return q.ok() && w.roots[q.root] && len(q.keys) == 0
	}
	full := map[*Term]bool{}
	for _, l := range w.flushLoops() {
		full[g.domTerm(l)] = true
	}
	none := func(*Node) bool { return false }
	stop := w.isEnd
	var news []*Term           // the maps that are published
	copies := map[*Node]bool{} // ends of the loops that copy the buffer
	for _, e := range pubs {
		if !isPub[e.n] {
			continue
		}
		where := g.where(e.n)
		if e.box != nil {
			made := func(n *Node) bool { return n == e.box.node }
			p := g.find(starts, searchOpt{avoid: made, goal: func(n *Node) bool { return n == e.n }})
			if p == nil {
				p = g.find(e.n.succ, searchOpt{avoid: made, goal: func(n *Node) bool {
					st, ok := n.in.(*ssa.Store)
					return ok && n.kind == NInstr && g.canonAddr(g.term(n.fr, st.Addr)) == g.canonAddr(e.box)
				}})
			}
			c.check(p == nil, "published-unchanged", obj+"/variable", where, "the variable that is published may be one that is already published: "+g.pathText(p))
		}
		for _, ch := range g.choices(e.v, e.n) {
			v := ch.v
			if isBuf(v) {
				why := w.copied(starts, stop, v, ch.at, e.n, isOld, none, false)
				c.check(why == "", "complete", obj, where, "a published key can be lost: "+why)
			} else {
				if !c.check(v.op == "fresh", "complete", obj, where, "the map that is published is not a new one: "+g.P(v)) {
					continue
				}
				news = append(news, v)
				p := g.find(starts, searchOpt{avoid: func(n *Node) bool { return n == v.node }, goal: func(n *Node) bool { return n == e.n }})
				c.check(p == nil, "complete", obj+"/new", where, "the map that is published may be one that is already published: "+g.pathText(p))
				why := w.copied(starts, stop, v, ch.at, e.n, isOld, none, false)
				c.check(why == "", "complete", obj+"/old", where, "a published key can be lost: "+why)
				why = w.copied(starts, stop, v, ch.at, e.n, func(t *Term) bool { return full[t] }, func(n *Node) bool { return w.emptyBranch(n) }, true)
				c.check(why == "", "complete", obj+"/new values", where, "a value that was put can be missing: "+why)
			}
			// not changed any more
			renew := map[*Node]bool{v.node: true}
			if isBuf(v) {
				for f := range w.classFresh() {
					for _, n := range w.installs(f) {
						renew[n] = true
					}
				}
			}
			for _, e2 := range g.effects() {
				if e2.kind == "store" || !(g.mayBe(e2.m, v) || (isOld(e2.m) && !isBuf(e2.m))) {
					continue
				}
				p := g.find([]*Node{e.n}, searchOpt{avoid: func(n *Node) bool { return renew[n] }, goal: func(n *Node) bool { return n == e2.n }})
				if isOld(e2.m) && !g.mayBe(e2.m, v) {
					p = []*Node{e2.n}
				}
				c.check(p == nil, "published-unchanged", obj, g.where(e2.n), "it changes a map that is published: "+g.pathText(p))
			}
		}
		// the old map is the one published last
		for _, l := range g.loops {
			d := g.domTerm(l)
			if d == nil || !w.nodes[l.header] || !isOld(d) {
				continue
			}
			rd := map[*Node]bool{}
			for _, n := range readOld(d) {
				rd[n] = true
			}
			p := g.find(starts, searchOpt{avoid: func(n *Node) bool { return rd[n] }, goal: func(n *Node) bool { return n == e.n }})
			c.check(p == nil, "complete", obj+"/current", g.where(l.header), "the copied map may be an older one: "+g.pathText(p))
		}
		for _, l := range g.loops {
			if d := g.domTerm(l); d != nil && w.nodes[l.header] && full[d] {
				copies[l.done] = true
			}
		}
	}
	// the buffer is dropped only when it is published, or surely will be
	for _, d := range w.drops() {
		where := g.where(d.n)
		if !w.nodes[d.n] {
			c.bad("buffer-private", obj, where, "another goroutine changes the buffer")
			continue
		}
		after := g.find(starts, searchOpt{avoid: func(n *Node) bool { return isPub[n] || w.emptyBranch(n) }, goal: func(n *Node) bool { return n == d.n }})
		if after != nil {
			copied := g.find(starts, searchOpt{avoid: func(n *Node) bool { return copies[n] || w.emptyBranch(n) }, goal: func(n *Node) bool { return n == d.n }})
			sure := g.find([]*Node{d.n}, searchOpt{avoid: func(n *Node) bool { return isPub[n] }, goal: w.isEnd})
			if copied == nil && sure == nil && d.key == nil {
				after = nil
			}
			// each value when it is copied
			for _, l := range g.loopsAround(d.n) {
				if d.key == nil || sure != nil || l.key == nil || !full[g.domTerm(l)] || g.K(g.single0(d.key)) != g.K(l.key) {
					continue
				}
				put := func(n *Node) bool {
					for _, e := range g.effects() {
						if e.n == n && e.kind == "update" && g.entry(l, e.k, e.v) {
							for _, v := range news {
								if g.sameCont(e.m, v) {
									return true
								}
							}
						}
					}
					return false
				}
				if g.perIteration(l, put) == nil && len(g.exits(l)) == 0 {
					after = nil
				}
			}
		}
		c.check(after == nil, "dropped-after-publication", obj, where, "values are dropped from the buffer although they may not be published: "+g.pathText(after))
	}
}

// keyed decides that a buffered value is stored under its own key.
func (w *Writer) keyed(keyPart, valPart string) {
	c, g := w.c, w.g
	for _, ev := range w.events {
		ok := len(ev.keys) == 1 && ev.keys[0] == keyPart && ev.vals[""] == valPart
		if len(ev.keys) == 1 && ev.keys[0] == keyPart && ev.vals["."+valPart] == valPart {
			ok = true
		}
		c.check(ok, "part-buffered", w.obj+"/key", g.where(ev.e.n), "a value is buffered as "+ev.sig())
	}
	c.check(len(w.events) > 0, "part-buffered", w.obj+"/key", g.where(w.th.entry), "nothing is buffered")
}

func init() {
	register("C23", 1, "", rulePublish("RCU"))
	register("C24", 1, "", rulePublish("SyncMap"))
}
