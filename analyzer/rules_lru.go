package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C22: the LRU cache ---------------------------------------------------------------------------------------

// linear forms over integer atoms

type linForm map[string]int64

func (g *Graph) linear(t *Term, atom func(*Term) string) (linForm, bool) {
	t = g.bare(t)
	if n, ok := constInt(t); ok {
		return linForm{"1": n}, true
	}
	if a := atom(t); a != "" {
		return linForm{a: 1}, true
	}
	if t.op == "bin" && (t.s == "+" || t.s == "-") {
		x, ok1 := g.linear(t.args[0], atom)
		y, ok2 := g.linear(t.args[1], atom)
		if !ok1 || !ok2 {
			return nil, false
		}
		out := linForm{}
		for k, v := range x {
			out[k] += v
		}
		for k, v := range y {
			if t.s == "+" {
				out[k] += v
			} else {
				out[k] -= v
			}
		}
		return out, true
	}
	return nil, false
}

// linCond reads a branch outcome as  form >= 0  (or form == 0, form != 0).
func (g *Graph) linCond(b *Node, atom func(*Term) string) (f linForm, op string, ok bool) {
	if b.kind != NBranch || b.maybe {
		return nil, "", false
	}
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op != "bin" {
		return nil, "", false
	}
	o := c.s
	neg := map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
	if neg[o] == "" {
		return nil, "", false
	}
	if !pol {
		o = neg[o]
	}
	x, ok1 := g.linear(c.args[0], atom)
	y, ok2 := g.linear(c.args[1], atom)
	if !ok1 || !ok2 {
		return nil, "", false
	}
	sub := func(a, b linForm, k int64) linForm {
		out := linForm{"1": k}
		for n, v := range a {
			out[n] += v
		}
		for n, v := range b {
			out[n] -= v
		}
		for n, v := range out {
			if v == 0 && n != "1" {
				delete(out, n)
			}
		}
		return out
	}
	switch o {
	case ">=":
		return sub(x, y, 0), ">=", true
	case ">":
		return sub(x, y, -1), ">=", true
	case "<=":
		return sub(y, x, 0), ">=", true
	case "<":
		return sub(y, x, -1), ">=", true
	}
	return sub(x, y, 0), o, true
}

func (f linForm) is(coeff map[string]int64) (int64, bool) {
	for k, v := range f {
		if k != "1" && coeff[k] != v {
			return 0, false
		}
	}
	for k, v := range coeff {
		if f[k] != v {
			return 0, false
		}
	}
	return f["1"], true
}

const dll = "(*container/list.List)."

type lruRule struct {
	c                      *Ctx
	typ                    string
	pages, idx, cap        string // names of the places
	keyField, valField     string
	front, moveTo, evictAt string // orientation

	recycled map[*Node]bool // moves that give the oldest entry to a new key
	gone     []lruEvent
}

func ruleC22(c *Ctx) {
	nt := c.p.Named("cache", "LRUCache")
	if nt == nil {
		c.bad("anchor", "cache.LRUCache", "", "the type does not exist")
		return
	}
	r := &lruRule{c: c, typ: "LRUCache"}
	st, ok := nt.Underlying().(*types.Struct)
	if !ok {
		c.bad("anchor", "cache.LRUCache", "", "it is not a struct")
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ts := f.Type().String()
		switch {
		case ts == "map[string]*container/list.Element":
			r.idx = "$0." + f.Name()
		case strings.TrimPrefix(ts, "*") == "container/list.List":
			r.pages = "$0." + f.Name()
		case ts == "int":
			r.cap = "$0." + f.Name()
		}
	}
	if !c.check(r.idx != "" && r.pages != "" && r.cap != "", "anchor", "cache.LRUCache", "", "it has no index map, order list and capacity") {
		return
	}
	meth := map[string]*ssa.Function{}
	for _, f := range exportedMethods(c.p, nt) {
		meth[f.Name()] = f
	}
	if meth["Get"] == nil || meth["Put"] == nil {
		c.bad("anchor", "cache.LRUCache", "", "Get or Put does not exist")
		return
	}
	gp := c.graph(meth["Put"], nil, "full")
	if !r.orientation(gp) {
		return
	}
	r.put(gp)
	r.get(c.graph(meth["Get"], nil, "full"))
	for _, m := range sortedMethods(meth) {
		g := c.graph(meth[m], nil, "full")
		r.exclusive(g, m)
		if m != "Get" && m != "Put" {
			r.pairs(g, m)
		}
	}
	for _, f := range c.ctorsOf("cache", "LRUCache") {
		r.ctor(f)
	}
}

func (r *lruRule) obj(m string) string { return r.typ + "." + m }

// listCalls are the calls of a method of the order list.
func (r *lruRule) listCalls(g *Graph, names ...string) []*Node {
	var out []*Node
	for _, nm := range names {
		for _, n := range g.calls(dll + nm) {
			if g.deref(g.callArgs(n)[0], true) == r.pages {
				out = append(out, n)
			}
		}
	}
	return out
}

func set(ns []*Node) map[*Node]bool {
	m := map[*Node]bool{}
	for _, n := range ns {
		m[n] = true
	}
	return m
}

func (r *lruRule) orientation(g *Graph) bool {
	c := r.c
	f, b := r.listCalls(g, "PushFront"), r.listCalls(g, "PushBack")
	if len(f) > 0 && len(b) > 0 || len(f)+len(b) == 0 {
		c.bad("inserted", r.obj("Put"), g.where(g.root.entry), "new entries are not put at one end of the list")
		return false
	}
	r.front, r.moveTo, r.evictAt = "PushFront", "MoveToFront", "Back"
	if len(b) > 0 {
		r.front, r.moveTo, r.evictAt = "PushBack", "MoveToBack", "Front"
	}
	return true
}

func (r *lruRule) hit(g *Graph) string { return r.idx + "[$1]" }

// mutators of the list that are not understood here
func (r *lruRule) others(g *Graph, m string) {
	for _, n := range g.liveNodes {
		cn := n.callName()
		if !strings.HasPrefix(cn, dll) || g.deref(g.callArgs(n)[0], true) != r.pages {
			continue
		}
		switch strings.TrimPrefix(cn, dll) {
		case "Len", "Front", "Back", "Remove", r.front, r.moveTo:
		default:
			r.c.bad("order", r.obj(m), g.where(n), "it changes the order by "+strings.TrimPrefix(cn, dll))
		}
	}
}

func (r *lruRule) get(g *Graph) {
	c := r.c
	slot := r.hit(g)
	r.others(g, "Get")
	val := slot + ".Value." + r.valField
	present := func(b *Node) bool { return g.saysPresent(b, slot) }
	absent := func(b *Node) bool { return g.emptyGuard(b, slot) }
	for _, ch := range g.pointeesOfResults(0) {
		v := ch.v
		if isZeroConst(v) {
			c.check(g.onlyIf(ch.at, absent), "get", r.obj("Get")+"/value", g.where(ch.at), "it returns no value although the key may be cached")
			continue
		}
		p := g.P(v)
		why := ""
		switch {
		case p == "&"+val:
			why = "it returns the place that the next Put changes, not the value"
		case p != val:
			why = "it returns " + p + ", not the value of the key"
		}
		c.check(why == "", "get", r.obj("Get")+"/value", g.where(ch.at), why)
	}
	for _, ch := range g.rootResults(1) {
		why := ""
		switch {
		case ch.v.op == "lookupok" && g.P(ch.v) == "has("+slot+")", ch.v.op == "bin" && g.saysEmpty(ch.v, false, slot):
		case isBoolConst(ch.v, true):
			if !g.onlyIf(ch.at, present) {
				why = "it reports a key as found that may be missing"
			}
		case isBoolConst(ch.v, false):
			if !g.onlyIf(ch.at, absent) {
				why = "it reports a key as missing that may be cached"
			}
		default:
			why = "whether the key was found is " + g.P(ch.v)
		}
		c.check(why == "", "get", r.obj("Get")+"/found", g.where(ch.at), why)
	}
	r.used(g, "Get", present)
	for _, e := range g.effects() {
		if under(e.path, r.idx) || under(e.path, r.pages) {
			c.bad("get", r.obj("Get")+"/effect", g.where(e.n), "it changes "+e.path)
		}
	}
	for _, n := range r.listCalls(g, r.front, "Remove") {
		c.bad("get", r.obj("Get")+"/effect", g.where(n), "it adds or removes an entry")
	}
}

// used: a hit moves the entry to the recent end.
func (r *lruRule) used(g *Graph, m string, present func(*Node) bool) {
	c := r.c
	moves := map[*Node]bool{}
	for _, n := range r.listCalls(g, r.moveTo) {
		if r.recycled[n] {
			continue
		}
		if p := g.P(g.callArgs(n)[1]); p != r.hit(g) {
			c.bad("recent", r.obj(m), g.where(n), "it moves "+p+", not the entry of the key")
			continue
		}
		moves[n] = true
	}
	hits := g.branches(present)
	if !c.check(len(hits) > 0, "recent", r.obj(m), g.where(g.root.entry), "it does not look whether the key is cached") {
		return
	}
	for _, b := range hits {
		p := g.find([]*Node{b}, searchOpt{avoid: func(n *Node) bool { return moves[n] || r.isRecent(g, n) }, goal: g.isRootExit})
		c.check(p == nil, "recent", r.obj(m), g.where(b), "a used entry may keep its old place in the order: "+g.pathText(p))
	}
}

// isRecent: a branch outcome that says that the entry of the key is at the recent end already.
func (r *lruRule) isRecent(g *Graph, b *Node) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op != "bin" || !(c.s == "==" && pol || c.s == "!=" && !pol) {
		return false
	}
	top := "Front"
	if r.evictAt == "Front" {
		top = "Back"
	}
	for i := 0; i < 2; i++ {
		x, y := g.single0(c.args[i]), c.args[1-i]
		if x.op != "call" || x.s != dll+top || g.deref(x.args[0], true) != r.pages || g.P(y) != r.hit(g) {
			continue
		}
		for _, m := range r.listCalls(g, "PushFront", "PushBack", "MoveToFront", "MoveToBack", "Remove") {
			if g.reaches(x.node, m) && g.reaches(m, b) {
				return false
			}
		}
		return true
	}
	return false
}

// recycle finds the entries that are evicted by giving them to the new key: the oldest entry leaves the index, gets
// the new key and value and moves to the recent end.
func (r *lruRule) recycle(g *Graph) {
	r.recycled = map[*Node]bool{}
	if r.keyField == "" {
		return
	}
	for _, n := range r.listCalls(g, r.moveTo) {
		e := g.single(g.callArgs(n)[1])
		if e == nil || e.op != "call" || e.s != dll+r.evictAt || g.deref(e.args[0], true) != r.pages {
			continue
		}
		gone, key, val := map[*Node]bool{}, map[*Node]bool{}, map[*Node]bool{}
		bad := false
		for _, f := range g.effects() {
			if f.kind == "delete" && f.cont == r.idx && r.elemOfKey(g, f.k) == e {
				gone[f.n] = true
			}
			if f.kind != "store" || f.m.op != "fieldaddr" || !r.pageOf(g, f.m.args[0], e) {
				continue
			}
			switch {
			case f.m.s == r.keyField && g.P(f.v) == "$1":
				key[f.n] = true
			case f.m.s == r.valField && g.P(f.v) == "$2":
				val[f.n] = true
			default:
				bad = true
			}
		}
		miss := func(from *Node, evs map[*Node]bool, to func(*Node) bool) bool {
			return g.find([]*Node{from}, searchOpt{avoid: func(m *Node) bool { return evs[m] }, goal: to}) != nil
		}
		at := func(m *Node) bool { return m == n }
		for k := range key {
			// the old key leaves the index before it is overwritten
			bad = bad || miss(e.node, gone, func(m *Node) bool { return m == k })
		}
		for _, evs := range []map[*Node]bool{gone, key, val} {
			bad = bad || len(evs) == 0 || miss(e.node, evs, at) && miss(n, evs, g.isRootExit)
		}
		if !bad {
			r.recycled[n] = true
			r.gone = append(r.gone, lruEvent{n, e})
		}
	}
}

// pageOf tells whether a term is the page of a list element.
func (r *lruRule) pageOf(g *Graph, t, e *Term) bool {
	for i := 0; i < 6; i++ {
		t = g.single0(t)
		switch t.op {
		case "load", "init", "assert", "iface", "conv", "res", "fieldaddr":
			if t.op == "fieldaddr" {
				return t.s == "Value" && g.single(t.args[0]) == e
			}
			t = t.args[0]
			continue
		}
		return false
	}
	return false
}

type lruEvent struct {
	n    *Node
	elem *Term
}

func (r *lruRule) put(g *Graph) {
	c := r.c
	slot := r.hit(g)
	r.others(g, "Put")
	present := func(b *Node) bool { return g.saysPresent(b, slot) }
	absent := func(b *Node) bool { return g.emptyGuard(b, slot) }
	pushes := r.listCalls(g, r.front)
	isPush := set(pushes)
	// what is pushed
	for _, n := range pushes {
		x := g.single(g.callArgs(n)[1])
		if !c.check(x != nil && x.op == "fresh", "inserted", r.obj("Put")+"/page", g.where(n), "the new entry is not a new page") {
			return
		}
		st, ok := derefType(x.typ).Underlying().(*types.Struct)
		if !ok {
			c.bad("inserted", r.obj("Put")+"/page", g.where(n), "the new entry does not hold key and value")
			return
		}
		key, val := "", ""
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if t := g.fieldNow(x, f.Name(), f.Type(), n); t != nil {
				switch g.P(t) {
				case "$1":
					key = f.Name()
				case "$2":
					val = f.Name()
				}
			}
		}
		if !c.check(key != "" && val != "", "inserted", r.obj("Put")+"/page", g.where(n), "the new entry does not hold the key and the value") {
			return
		}
		r.keyField, r.valField = key, val
	}
	r.recycle(g)
	for n := range r.recycled {
		isPush[n] = true
	}
	// effects on the index
	inserts, deletes, vals := map[*Node]bool{}, map[*Node]Eff{}, map[*Node]bool{}
	for _, e := range g.effects() {
		where := g.where(e.n)
		switch {
		case e.kind == "update" && e.path == slot:
			v := g.single(e.v)
			re := false
			for _, x := range r.gone {
				re = re || v == x.elem
			}
			if c.check(v != nil && v.op == "call" && (isPush[v.node] || re), "inserted", r.obj("Put")+"/index", where, "the index gets "+g.P(e.v)+", not the new entry of the list") {
				inserts[e.n] = true
			}
		case e.kind == "delete" && e.cont == r.idx:
			deletes[e.n] = e
		case e.kind == "store" && e.path == slot+".Value."+r.valField:
			if c.check(g.P(e.v) == "$2", "replaced", r.obj("Put"), where, "the cached value becomes "+g.P(e.v)) {
				vals[e.n] = true
			}
		case e.kind == "store" && e.path == slot+".Value."+r.keyField && g.P(e.v) == "$1":
		case e.kind == "store" && e.path == slot+".Value":
			x := g.single(e.v)
			ok := false
			if x != nil && x.op == "fresh" {
				if st, is := derefType(x.typ).Underlying().(*types.Struct); is {
					n := 0
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						p := g.P(g.fieldNow(x, f.Name(), f.Type(), e.n))
						if f.Name() == r.keyField && p == "$1" || f.Name() == r.valField && p == "$2" {
							n++
						}
					}
					ok = n == 2
				}
			}
			if c.check(ok, "replaced", r.obj("Put"), where, "the cached page becomes "+g.P(e.v)) {
				vals[e.n] = true
			}
		case under(e.path, r.idx) || under(e.path, r.pages) || under(e.path, r.cap):
			c.bad("order", r.obj("Put"), where, "it changes "+e.path)
		}
	}
	// a hit: the value is replaced, nothing is added
	for _, b := range g.branches(present) {
		p := g.find([]*Node{b}, searchOpt{avoid: func(n *Node) bool { return vals[n] }, goal: g.isRootExit})
		c.check(p == nil, "replaced", r.obj("Put"), g.where(b), "the value of a cached key may not be replaced: "+g.pathText(p))
		p = g.find([]*Node{b}, searchOpt{goal: func(n *Node) bool { return isPush[n] || deletes[n].n != nil }})
		c.check(p == nil, "replaced", r.obj("Put")+"/once", g.where(b), "a key that is cached is added again, or another one evicted: "+g.pathText(p))
	}
	r.used(g, "Put", present)
	for n := range isPush {
		c.check(g.onlyIf(n, absent), "inserted", r.obj("Put")+"/once", g.where(n), "a key that may be cached is added again")
		p := g.find([]*Node{n}, searchOpt{goal: func(m *Node) bool { return isPush[m] }})
		c.check(p == nil, "inserted", r.obj("Put")+"/once", g.where(n), "the key is added twice: "+g.pathText(p))
		p = g.find([]*Node{n}, searchOpt{avoid: func(m *Node) bool { return inserts[m] }, goal: g.isRootExit})
		c.check(p == nil, "inserted", r.obj("Put")+"/index", g.where(n), "the new entry may not get into the index: "+g.pathText(p))
	}
	// sizes
	atom := func(t *Term) string {
		if t.op == "call" && t.s == dll+"Len" && g.deref(t.args[0], true) == r.pages {
			return "len"
		}
		if t.op == "len" && g.deref(t.args[0], true) == r.idx {
			return "len"
		}
		if g.P(t) == r.cap {
			return "cap"
		}
		return ""
	}
	// is the size looked at before or after the new entry was added?
	evicts := r.listCalls(g, "Remove")
	after := len(evicts) > 0
	for _, x := range r.gone {
		evicts = append(evicts, x.n)
		after = false
	}
	isEvict := set(evicts)
	for _, n := range evicts {
		if g.find([]*Node{n}, searchOpt{goal: func(m *Node) bool { return isPush[m] }}) != nil {
			after = false
		}
	}
	limit := int64(0) // full: len - cap >= limit
	if after {
		limit = 1
	}
	full := func(b *Node) bool {
		f, op, ok := g.linCond(b, atom)
		if !ok {
			return false
		}
		switch op {
		case ">=":
			k, ok := f.is(map[string]int64{"len": 1, "cap": -1})
			return ok && k == -limit
		case "==":
			if k, ok := f.is(map[string]int64{"len": 1, "cap": -1}); ok && k == -limit {
				return true
			}
			k, ok := f.is(map[string]int64{"len": -1, "cap": 1})
			return ok && k == limit
		}
		return false
	}
	room := func(b *Node) bool {
		if b.kind != NBranch || b.maybe {
			return false
		}
		// an empty list has no oldest entry
		if c := g.single0(g.cond(b)); c.op == "bin" && (c.s == "==" && b.pol || c.s == "!=" && !b.pol) {
			for i := range c.args {
				x := g.single0(c.args[i])
				if isNilConst(g.single0(c.args[1-i])) && x.op == "call" && (x.s == dll+"Back" || x.s == dll+"Front") && g.deref(x.args[0], true) == r.pages {
					return true
				}
			}
		}
		f, op, ok := g.linCond(b, atom)
		if !ok {
			return false
		}
		switch op {
		case ">=":
			k, ok := f.is(map[string]int64{"len": -1, "cap": 1})
			return ok && k == limit-1
		case "!=":
			if k, ok := f.is(map[string]int64{"len": 1, "cap": -1}); ok && k == -limit {
				return true
			}
			k, ok := f.is(map[string]int64{"len": -1, "cap": 1})
			return ok && k == limit
		}
		return false
	}
	positive := func(b *Node) bool {
		f, op, ok := g.linCond(b, atom)
		k, is := f.is(map[string]int64{"cap": 1})
		return ok && op == ">=" && is && k == -1
	}
	notPositive := func(b *Node) bool {
		f, op, ok := g.linCond(b, atom)
		if k, is := f.is(map[string]int64{"cap": -1}); ok && op == ">=" && is && k == 0 {
			return true
		}
		return false
	}
	exit := g.isRootExit
	c.check(len(evicts) > 0, "evicted", r.obj("Put"), g.where(g.root.entry), "nothing is ever evicted")
	misses := g.branches(absent)
	if len(misses) == 0 {
		misses = []*Node{g.root.entry}
	}
	for _, b := range misses {
		p := g.find([]*Node{b}, searchOpt{avoid: func(n *Node) bool { return isPush[n] || notPositive(n) }, goal: exit})
		c.check(p == nil, "inserted", r.obj("Put"), g.where(b), "a new key may not be added: "+g.pathText(p))
		goal := func(n *Node) bool { return isPush[n] && !isEvict[n] }
		start := []*Node{b}
		if after {
			start, goal = pushes, exit
		}
		p = g.find(start, searchOpt{avoid: func(n *Node) bool { return room(n) || isEvict[n] }, goal: goal})
		c.check(p == nil, "evicted", r.obj("Put"), g.where(b), "a full cache may grow: "+g.pathText(p))
		if !after {
			p = g.find([]*Node{b}, searchOpt{avoid: positive, goal: func(n *Node) bool { return isPush[n] || isEvict[n] }})
			c.check(p == nil, "inserted", r.obj("Put")+"/capacity", g.where(b), "a cache without capacity may get an entry: "+g.pathText(p))
		}
	}
	for _, n := range evicts {
		where := g.where(n)
		c.check(g.onlyIf(n, full), "evicted", r.obj("Put")+"/full", where, "an entry is evicted although the cache may not be full")
		c.check(g.onlyIf(n, absent), "evicted", r.obj("Put")+"/full", where, "an entry may be evicted for a key that is cached")
		// once, unless the size is looked at again
		p := g.find([]*Node{n}, searchOpt{avoid: full, goal: func(m *Node) bool { return isEvict[m] || r.recycled[n] && isPush[m] }})
		c.check(p == nil, "evicted", r.obj("Put")+"/once", where, "two entries are evicted: "+g.pathText(p))
		e := g.single(g.callArgs(n)[1])
		ok := e != nil && e.op == "call" && e.s == dll+r.evictAt && g.deref(e.args[0], true) == r.pages
		if !c.check(ok, "evicted", r.obj("Put")+"/oldest", where, "it evicts "+g.P(g.callArgs(n)[1])+", not the entry whose last use is oldest") {
			continue
		}
		r.oldest(g, e, n)
	}
	r.pairs(g, "Put")
}

// fieldNow is the value a field of a new struct has at a node.
func (g *Graph) fieldNow(x *Term, name string, typ types.Type, at *Node) *Term {
	return g.single(g.mk(&Term{op: "field", s: name, args: []*Term{g.mk(&Term{op: "snapshot", node: at, args: []*Term{x}, typ: derefType(x.typ)})}, typ: typ}))
}

// oldest: between asking for the oldest entry and using the answer the list does not change.
func (r *lruRule) oldest(g *Graph, e *Term, use *Node) {
	change := r.listCalls(g, "PushFront", "PushBack", "MoveToFront", "MoveToBack", "Remove")
	for _, m := range change {
		if m == use {
			continue
		}
		p := g.find([]*Node{e.node}, searchOpt{avoid: func(n *Node) bool { return n == use }, goal: func(n *Node) bool { return n == m }})
		if p == nil {
			continue
		}
		q := g.find([]*Node{m}, searchOpt{avoid: func(n *Node) bool { return n == e.node }, goal: func(n *Node) bool { return n == use }})
		r.c.check(q == nil, "evicted", r.obj("Put")+"/oldest", g.where(m), "the list changes before the entry that was oldest is evicted")
	}
}

// pairs: an entry leaves the index and the list together.
func (r *lruRule) pairs(g *Graph, m string) {
	c := r.c
	type ev struct {
		n    *Node
		elem *Term // the list element, or nil
	}
	var removes, deletes []ev
	for _, n := range r.listCalls(g, "Remove") {
		removes = append(removes, ev{n, g.single(g.callArgs(n)[1])})
	}
	for _, x := range r.gone {
		if g.live[x.n] {
			removes = append(removes, ev{x.n, x.elem})
		}
	}
	for _, e := range g.effects() {
		if e.kind == "clear" && e.cont == r.idx {
			c.bad("paired", r.obj(m), g.where(e.n), "the index is emptied at once")
		}
		if e.kind != "delete" || e.cont != r.idx {
			continue
		}
		deletes = append(deletes, ev{e.n, r.elemOfKey(g, e.k)})
	}
	same := func(a, b ev) bool {
		if a.elem == nil || b.elem == nil {
			return false
		}
		if a.elem == b.elem {
			return true
		}
		if g.P(a.elem) == g.P(b.elem) && a.elem.op != "call" {
			return true
		}
		// asked twice for the oldest entry, with no change in between
		if a.elem.op == "call" && b.elem.op == "call" && a.elem.s == b.elem.s {
			x, y := a.elem.node, b.elem.node
			for _, ch := range r.listCalls(g, "PushFront", "PushBack", "MoveToFront", "MoveToBack", "Remove") {
				for _, pr := range [][2]*Node{{x, y}, {y, x}} {
					if g.find([]*Node{pr[0]}, searchOpt{goal: func(n *Node) bool { return n == ch }, avoid: func(n *Node) bool { return n == pr[1] }}) != nil &&
						g.find([]*Node{ch}, searchOpt{goal: func(n *Node) bool { return n == pr[1] }, avoid: func(n *Node) bool { return n == pr[0] }}) != nil {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	both := func(as, bs []ev, what string) {
		for _, a := range as {
			var ok []*Node
			for _, b := range bs {
				if same(a, b) {
					ok = append(ok, b.n)
				}
			}
			isOk := set(ok)
			before := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return isOk[n] }, goal: func(n *Node) bool { return n == a.n }})
			after := g.find([]*Node{a.n}, searchOpt{avoid: func(n *Node) bool { return isOk[n] }, goal: g.isRootExit})
			c.check(before == nil || after == nil, "paired", r.obj(m), g.where(a.n), what+": "+g.pathText(after))
		}
	}
	both(removes, deletes, "the entry that leaves the list may stay in the index")
	both(deletes, removes, "the entry that leaves the index may stay in the list")
}

// elemOfKey is the list element whose key a term is.
func (r *lruRule) elemOfKey(g *Graph, k *Term) *Term {
	k = g.one(k)
	for i := 0; i < 8 && k != nil; i++ {
		switch k.op {
		case "load", "init":
			a := k.args[0]
			if a.op == "fieldaddr" {
				if a.s == r.keyField || a.s == "Value" {
					if a.s == "Value" {
						return g.one(a.args[0])
					}
					k = g.one(a.args[0])
					continue
				}
			}
			return nil
		case "field":
			if k.s != r.keyField {
				return nil
			}
			k = g.one(k.args[0])
			continue
		case "call":
			if k.s == dll+"Remove" {
				return g.single(k.args[1])
			}
			return nil
		case "res":
			k = g.one(k.args[0])
			continue
		}
		return nil
	}
	return nil
}

// exclusive: index and list change under the exclusive lock, in one critical section.
func (r *lruRule) exclusive(g *Graph, m string) {
	c := r.c
	var uses []*Node
	ls := g.locks()
	okLock := func(n *Node) bool {
		for _, v := range ls.must[n] {
			if v == heldW {
				return true
			}
		}
		return false
	}
	for _, n := range g.liveNodes {
		if strings.HasPrefix(n.callName(), dll) && len(g.callArgs(n)) > 0 && g.deref(g.callArgs(n)[0], true) == r.pages {
			uses = append(uses, n)
			switch strings.TrimPrefix(n.callName(), dll) {
			case "Len", "Front", "Back":
			default:
				c.check(okLock(n), "atomic", r.obj(m), g.where(n), "the order list changes without the exclusive lock")
			}
		}
		if n.kind == NInstr {
			if lk, ok := n.in.(*ssa.Lookup); ok && g.deref(g.term(n.fr, lk.X), true) == r.idx {
				uses = append(uses, n)
			}
		}
	}
	for _, e := range g.effects() {
		if under(e.path, r.idx) {
			uses = append(uses, e.n)
			c.check(okLock(e.n), "atomic", r.obj(m), g.where(e.n), "the index changes without the exclusive lock")
		}
	}
	for _, n := range g.liveNodes {
		op := lockOp(n.callName())
		if (op != "w" && op != "r") || (n.kind == NInstr && isDeferOrGo(n)) {
			continue
		}
		for _, a := range uses {
			for _, b := range uses {
				if g.reaches(a, n) && g.reaches(n, b) {
					c.bad("atomic", r.obj(m), g.where(n), "the lock is released between two steps of the operation")
				}
			}
		}
	}
}

func (r *lruRule) ctor(f *ssa.Function) {
	c := r.c
	g := c.graph(f, nil, "full")
	for _, ch := range g.rootResults(0) {
		o := ch.v
		if !c.check(o.op == "fresh", "made", fnLabel(f), g.where(ch.at), "it does not return a new cache") {
			continue
		}
		st := derefType(o.typ).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			v := g.fieldNow(o, fl.Name(), fl.Type(), ch.at)
			why := ""
			switch "$0." + fl.Name() {
			case r.idx:
				if v == nil || v.op != "fresh" {
					why = "the index is not a new map"
				}
			case r.pages:
				if strings.HasPrefix(fl.Type().String(), "*") && (v == nil || v.op != "call" || v.s != "container/list.New") && (v == nil || v.op != "fresh") {
					why = "the order list is not a new list"
				}
			case r.cap:
				if v == nil || g.P(v) != "$0" {
					why = "the capacity is not the requested one"
				}
			default:
				continue
			}
			c.check(why == "", "made", fnLabel(f)+"/"+fl.Name(), g.where(ch.at), why)
		}
	}
}

func init() {
	register("C22", 1, "", ruleC22)
}
