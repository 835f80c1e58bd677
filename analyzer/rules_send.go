package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C06: each change of the disk store is handed to its writer ----------------------------------------------

// partsOf splits a message into its parts.
func (g *Graph) partOf(t *Term, name string) *Term {
	if name == "" {
		return nil
	}
	if name == "." {
		return t
	}
	st, ok := t.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return g.fieldOf(t, name, i, st.Field(i).Type())
		}
	}
	return nil
}

// isElem tells whether a value is the key (or element) a loop is at.
func (g *Graph) isElem(t *Term, l *Loop) bool {
	e := g.elemKey(l)
	if e == nil || t == nil {
		return false
	}
	for i := 0; i < 12; i++ {
		if t == e || g.K(t) == g.K(e) {
			return true
		}
		as := g.alts(t)
		if len(as) != 1 {
			return false
		}
		t = as[0]
	}
	return false
}

type sendSite struct {
	n    *Node
	kind string
	msg  *Term
	w    *diskWriter
	sure bool // a plain send of the calling goroutine
}

func (s sendSite) part(g *Graph, role string) *Term { return g.partOf(s.msg, s.w.parts[role]) }

// storeSends lists the sends on the queues of the background writers.
func (g *Graph) storeSends(ws []*diskWriter) []sendSite {
	var out []sendSite
	add := func(n *Node, ch, x *Term, sure bool) {
		p := g.P(ch)
		for _, w := range ws {
			if w.field != "" && p == "$0."+w.field {
				out = append(out, sendSite{n, w.kind, x, w, sure && n.fr.thread == g.threads[0]})
			}
		}
	}
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.Send:
			add(n, g.term(n.fr, in.Chan), g.term(n.fr, in.X), true)
		case *ssa.Select:
			for _, s := range in.States {
				if s.Dir == types.SendOnly {
					add(n, g.term(n.fr, s.Chan), g.term(n.fr, s.Send), false)
				}
			}
		}
	}
	return out
}

// saver describes the parameters of an operation that saves a field: the document id and the field.
func saver(f *ssa.Function) (id, fld string) {
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if nt := namedOf(t); nt != nil && nt.Name() == "Field" && fld == "" {
			fld = "$" + string(rune('1'+i))
		} else if isStringType(t) && id == "" {
			id = "$" + string(rune('1'+i))
		}
	}
	return
}

func isUnlock(n *Node) bool {
	op := lockOp(n.callName())
	return op == "w" && !(n.kind == NInstr && isDeferOrGo(n))
}

func ruleC06(c *Ctx) {
	g0, ws := c.diskWriters()
	if g0 == nil {
		return
	}
	var disk *Backend
	for _, b := range c.backends() {
		if b.name == "Disk" {
			disk = b
		}
	}
	if disk == nil || !disk.roles(false) {
		return
	}
	kinds := map[string]*diskWriter{}
	for _, w := range ws {
		if w.kind != "" {
			kinds[w.kind] = w
		}
	}
	for _, k := range []string{"metrics", "nfterm", "doc", "index"} {
		w := kinds[k]
		if !c.check(w != nil && w.field != "", "queue", k, g0.where(g0.root.entry), "no background writer of this kind with a queue of the store") {
			return
		}
		for _, r := range writerRoles[k] {
			if !c.check(w.parts[r] != "", "queue", k+"/"+r, g0.where(w.recvs[0].node), "the "+r+" does not come with the messages") {
				return
			}
		}
	}
	for _, m := range sortedMethods(disk.methods) {
		disk.handed(m, ws, "handed-over")
	}
}

// handed checks one operation of the disk store.
func (b *Backend) handed(m string, ws []*diskWriter, rule string) {
	c := b.c
	g := b.graph(m)
	if g == nil {
		return
	}
	id, fld := saver(b.methods[m])
	name := fld + ".Name"
	var changes = map[string][]Eff{}
	slotSize, slotLen := inst(b.size, name, ""), inst(b.length, name, "")
	for _, e := range g.effects() {
		switch {
		case under(e.path, rootField(b.size)) || under(e.path, rootField(b.length)):
			if e.kind == "update" && !isMap(e.v.typ) {
				changes["metrics"] = append(changes["metrics"], e)
			}
		case under(e.path, rootField(b.nf)):
			if e.kind == "update" && !isMap(e.v.typ) {
				changes["nfterm"] = append(changes["nfterm"], e)
			}
		case under(e.path, rootField(b.post)):
			if id != "" && e.kind == "update" && g.P(e.k) == id {
				changes["index"] = append(changes["index"], e)
			}
		}
	}
	var puts []*Node
	if !strings.HasPrefix(m, "Get") {
		for _, n := range g.calls(lruPut) {
			if strings.HasPrefix(g.deref(g.callArgs(n)[0], true), "$0.") {
				puts = append(puts, n)
			}
		}
	}
	sends := g.storeSends(ws)
	good := map[string][]sendSite{}
	for _, s := range sends {
		why := ""
		switch s.kind {
		case "metrics":
			why = b.metricsSent(g, s, name, map[string]string{"size": slotSize, "length": slotLen}, changes["metrics"])
		case "nfterm":
			why = b.termSent(g, s, fld, changes["nfterm"])
		case "index":
			why = b.postSent(g, s, id, fld)
		case "doc":
			why = b.docSent(g, s, id, fld, puts)
		}
		if why == "" && !s.sure {
			why = "the message may not be delivered, or later than a newer one: it is not a plain send of the saving goroutine"
		}
		if rule == "part-saved" {
			if s.kind == "metrics" {
				c.check(why == "", rule, b.obj(m)+"/"+s.kind, g.where(s.n), "what is saved in its place is not what the store means: "+why)
			}
			continue
		}
		c.check(why == "", "sent-value", b.obj(m)+"/"+s.kind, g.where(s.n), why)
		if why == "" {
			good[s.kind] = append(good[s.kind], s)
		}
	}
	if rule == "part-saved" {
		return
	}
	for _, n := range g.calls("builtin.close") {
		for _, w := range ws {
			if g.P(g.callArgs(n)[0]) == "$0."+w.field {
				c.bad("queue", b.obj(m)+"/close", g.where(n), "the queue of the background writer is closed")
			}
		}
	}
	for _, kind := range []string{"metrics", "nfterm", "index", "doc"} {
		var at []*Node
		for _, e := range changes[kind] {
			at = append(at, e.n)
		}
		if kind == "doc" {
			at = puts
		}
		for _, n := range at {
			why := b.followed(g, n, good[kind], kind == "nfterm" || kind == "index", fld+".TF")
			c.check(why == "", rule, b.obj(m)+"/"+kind, g.where(n), "the change of the "+kindText[kind]+" may not be handed to the background writer: "+why)
		}
		if len(at) == 0 && len(good[kind]) == 0 {
			c.ok(rule, b.obj(m)+"/"+kind, g.where(g.root.entry), "it does not change the "+kindText[kind])
		}
	}
}

var kindText = map[string]string{"metrics": "field statistics", "nfterm": "document frequencies", "index": "postings", "doc": "document"}

// followed decides that a change is handed over before the lock is released.
func (b *Backend) followed(g *Graph, n *Node, sends []sendSite, perTerm bool, tf string) string {
	if len(sends) == 0 {
		return "nothing is sent"
	}
	var inLoop *Loop
	if perTerm {
		for _, l := range g.loopsAround(n) {
			if g.loopOver(l, tf) {
				inLoop = l
			}
		}
	}
	stop := map[*Node]bool{}
	here := map[*Node]bool{}
	for _, s := range sends {
		if !perTerm {
			stop[s.n] = true
			here[s.n] = true
			continue
		}
		for _, l := range g.loopsAround(s.n) {
			if !g.loopOver(l, tf) {
				continue
			}
			if l == inLoop {
				here[s.n] = true
				continue
			}
			ns := map[*Node]bool{}
			for _, s2 := range sends {
				if l.body[s2.n] {
					ns[s2.n] = true
				}
			}
			if g.perIteration(l, func(x *Node) bool { return ns[x] }) == nil {
				stop[l.done] = true
			}
		}
	}
	end := func(x *Node) bool { return isUnlock(x) || x == g.root.exit }
	// after the change
	goal := end
	if perTerm && len(stop) == 0 && inLoop != nil {
		goal = func(x *Node) bool { return x == inLoop.header || end(x) }
	}
	p := g.find([]*Node{n}, searchOpt{avoid: func(x *Node) bool { return x != n && (stop[x] || here[x]) }, goal: goal})
	if p == nil {
		return ""
	}
	// or before it, with nothing in between that releases the lock
	start := g.root.entry
	if inLoop != nil && len(here) > 0 {
		start = inLoop.enter
	}
	q := g.find([]*Node{start}, searchOpt{avoid: func(x *Node) bool { return here[x] || stop[x] }, goal: func(x *Node) bool { return x == n }})
	if q == nil {
		okay := true
		again := func(x *Node) bool { return inLoop != nil && x == inLoop.header }
		before := map[*Node]bool{}
		for s := range here {
			before[s] = true
		}
		for s := range stop {
			before[s] = true
		}
		for s := range before {
			if g.find([]*Node{s}, searchOpt{avoid: again, goal: func(x *Node) bool { return x == n }}) == nil {
				continue
			}
			if g.find([]*Node{s}, searchOpt{avoid: func(x *Node) bool { return x == n }, goal: end}) != nil {
				okay = false
			}
		}
		if okay {
			return ""
		}
	}
	return g.pathText(p)
}

// current decides that a value is what the slot holds after the changes.
func (g *Graph) current(v *Term, slot string, changes []Eff, from *Node, send *Node) string {
	var own []Eff
	nodes := map[*Node]bool{}
	for _, e := range changes {
		if e.path == slot {
			own = append(own, e)
			nodes[e.n] = true
		}
	}
	for _, x := range g.vals(g.bare(v)) {
		x = g.bare(x)
		if x.op == "lookup" && g.P(x) == slot {
			if len(own) == 0 {
				continue
			}
			if p := g.find([]*Node{from}, searchOpt{avoid: func(n *Node) bool { return nodes[n] }, goal: func(n *Node) bool { return n == x.node }}); p != nil {
				return "it is read before it is changed: " + g.pathText(p)
			}
			if p := g.find([]*Node{x.node}, searchOpt{avoid: func(n *Node) bool { return n == send || (n == from && n != x.node) }, goal: func(n *Node) bool { return nodes[n] }}); p != nil && g.reaches(p[len(p)-1], send) {
				if p2 := g.find([]*Node{p[len(p)-1]}, searchOpt{avoid: func(n *Node) bool { return n == x.node || n == from }, goal: func(n *Node) bool { return n == send }}); p2 != nil {
					return "it is changed again after it was read: " + g.pathText(p)
				}
			}
			continue
		}
		// the very value that is stored
		ok := len(own) > 0
		for _, e := range own {
			if g.bare(e.v) != x {
				ok = false
			}
		}
		if !ok {
			return "it is " + g.P(x)
		}
	}
	return ""
}

func (b *Backend) metricsSent(g *Graph, s sendSite, name string, slots map[string]string, changes []Eff) string {
	if got := g.P(s.part(g, "name")); got != name {
		return "the statistics are sent for " + got + ", not for the field"
	}
	for _, role := range []string{"size", "length"} {
		if why := g.current(s.part(g, role), slots[role], changes, g.root.entry, s.n); why != "" {
			return "the " + role + " that is sent is not " + slots[role] + " after the change: " + why
		}
	}
	return ""
}

func (b *Backend) termSent(g *Graph, s sendSite, fld string, changes []Eff) string {
	if got := g.P(s.part(g, "name")); got != fld+".Name" {
		return "the count is sent for field " + got
	}
	for _, l := range g.loopsAround(s.n) {
		if !g.loopOver(l, fld+".TF") {
			continue
		}
		key := g.P(g.elemKey(l))
		if got := g.P(s.part(g, "term")); !g.isElem(s.part(g, "term"), l) {
			return "the count is sent for term " + got
		}
		slot := inst(b.nf, fld+".Name", key)
		from := l.enter
		same := false
		for _, e := range changes {
			if e.path == slot && l.body[e.n] {
				same = true
			}
		}
		if !same { // counted by an earlier loop
			for _, l2 := range g.loops {
				if l2 == l || !g.loopOver(l2, fld+".TF") {
					continue
				}
				s2 := inst(b.nf, fld+".Name", g.P(g.elemKey(l2)))
				for _, e := range changes {
					if e.path == s2 && l2.body[e.n] {
						if p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return n == l2.done }, goal: func(n *Node) bool { return n == l.header }}); p == nil {
							same = true
						}
					}
				}
			}
			if !same {
				return "it is not the count after the change"
			}
		}
		if why := g.current(s.part(g, "size"), slot, changes, from, s.n); why != "" {
			return "the count that is sent is not " + slot + " after the change: " + why
		}
		return ""
	}
	return "it is not sent for each term of the field"
}

func (b *Backend) postSent(g *Graph, s sendSite, id, fld string) string {
	if got := g.P(s.part(g, "name")); got != fld+".Name" {
		return "the posting is sent for field " + got
	}
	if got := g.P(s.part(g, "id")); got != id {
		return "the posting is sent for document " + got
	}
	for _, l := range g.loopsAround(s.n) {
		if g.loopOver(l, fld+".TF") {
			if got := g.P(s.part(g, "term")); !g.isElem(s.part(g, "term"), l) {
				return "the posting is sent for term " + got
			}
			return ""
		}
	}
	return "it is not sent for each term of the field"
}

func (b *Backend) docSent(g *Graph, s sendSite, id, fld string, puts []*Node) string {
	if got := g.P(s.part(g, "id")); got != id {
		return "the fields are sent for document " + got
	}
	part := s.part(g, "fields")
	for _, f := range g.vals(part) {
		if isNilConst(f) && g.find([]*Node{g.root.entry}, searchOpt{goalE: g.usedAs(part, f, s.n)}) == nil {
			continue
		}
		made := f.node
		if file := g.ownDoc(f, id); file != nil {
			made = file.node
		} else if f.op != "fresh" {
			return "the fields that are sent are " + g.P(f)
		}
		stores := map[*Node]bool{}
		for _, e := range g.effects() {
			if e.kind == "update" && g.mayBe(e.m, f) && g.P(e.k) == fld+".Name" && g.sameAs(e.v, fld, e.n) {
				stores[e.n] = true
			}
		}
		if p := g.find([]*Node{made}, searchOpt{avoid: func(n *Node) bool { return stores[n] }, goalE: g.usedAs(part, f, s.n)}); p == nil {
			continue
		}
		// a copy of the cached map
		ok := false
		for _, put := range puts {
			for _, src := range g.copySources(f, s.n) {
				if src == g.deref(g.callArgs(put)[2], true) {
					ok = true
				}
			}
		}
		if !ok {
			return "the saved field may not be among the fields that are sent"
		}
	}
	return ""
}

func init() {
	register("C06", 1, "", ruleC06)
}
