package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The background writers: goroutines that receive messages, keep their parts in buffers of their own and now and
// then hand the buffers over (to files, or to a published map).

// Place names a slot of a nested map by the variable that holds the outermost map and the keys on the way. All maps
// that one variable holds in turn share a root.
type Place struct {
	root string
	keys []string
	sub  string // field of a struct value
}

func (p Place) String() string {
	s := p.root
	for _, k := range p.keys {
		s += "[" + k + "]"
	}
	return s + p.sub
}

func (p Place) ok() bool { return p.root != "" }

func (p Place) at(k string) Place {
	return Place{root: p.root, keys: append(append([]string{}, p.keys...), k), sub: ""}
}

type placer struct {
	g    *Graph
	memo map[*Term]Place
	busy map[*Term]bool
	uf   map[*Term]*Term
	pubs map[*Term][]Eff
}

func (g *Graph) newPlacer() *placer {
	p := &placer{g: g, memo: map[*Term]Place{}, busy: map[*Term]bool{}, uf: map[*Term]*Term{}, pubs: map[*Term][]Eff{}}
	for _, e := range g.effects() {
		if e.kind != "update" || !isMap(e.v.typ) {
			continue
		}
		for _, v := range g.vals(e.v) {
			if v.op == "fresh" {
				p.pubs[v] = append(p.pubs[v], e)
			}
		}
	}
	// the maps one variable holds belong together
	for _, n := range g.liveNodes {
		v, ok := n.in.(ssa.Value)
		if !ok || n.kind != NInstr || !isMap(v.Type()) {
			continue
		}
		vs := g.vals(g.term(n.fr, v))
		var roots []*Term
		all := true
		for _, x := range vs {
			if isNilConst(x) {
				continue
			}
			if x.op != "fresh" || len(p.pubs[x]) > 0 {
				all = false
				break
			}
			roots = append(roots, x)
		}
		if all {
			for i := 1; i < len(roots); i++ {
				p.union(roots[0], roots[i])
			}
		}
	}
	return p
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (p *placer) find(t *Term) *Term {
	for p.uf[t] != nil {
		t = p.uf[t]
	}
	return t
}

func (p *placer) union(a, b *Term) {
	a, b = p.find(a), p.find(b)
	if a == b {
		return
	}
	if a.id > b.id {
		a, b = b, a
	}
	p.uf[b] = a
}

// of names the map (or value) a term stands for.
func (p *placer) of(t *Term) Place {
	if r, ok := p.memo[t]; ok {
		return r
	}
	if p.busy[t] {
		return Place{}
	}
	p.busy[t] = true
	r := p.of1(t)
	delete(p.busy, t)
	if len(p.busy) == 0 || r.ok() {
		p.memo[t] = r
	}
	return r
}

func (p *placer) of1(t *Term) Place {
	g := p.g
	switch t.op {
	case "lookup":
		m := p.of(t.args[0])
		if !m.ok() {
			return Place{}
		}
		return m.at(g.K(t.args[1]))
	case "rangeval":
		m := p.of(t.args[0])
		if !m.ok() {
			return Place{}
		}
		return m.at("key" + g.nid(t.node))
	case "conv":
		return p.of(t.args[0])
	case "field":
		if g.alts(t) == nil {
			m := p.of(t.args[0])
			if m.ok() {
				m.sub += "." + t.s
				return m
			}
			return Place{}
		}
	case "fresh":
		if len(p.pubs[t]) > 0 {
			var out Place
			for _, e := range p.pubs[t] {
				m := p.of(e.m)
				if !m.ok() {
					continue
				}
				q := m.at(g.K(e.k))
				if out.ok() && out.String() != q.String() {
					return Place{root: fmt.Sprintf("map%d", t.node.id)}
				}
				out = q
			}
			if out.ok() {
				return out
			}
		}
		if t.node == nil {
			return Place{}
		}
		return Place{root: fmt.Sprintf("map%d", p.find(t).node.id)}
	case "const":
		return Place{}
	}
	as := g.alts(t)
	if as == nil {
		return Place{root: g.deref(t, true)}
	}
	var out Place
	for _, a := range as {
		q := p.of(a)
		if !q.ok() {
			continue
		}
		if out.ok() && out.String() != q.String() {
			return Place{root: "?" + fmt.Sprint(t.id)}
		}
		out = q
	}
	return out
}

// saysAbsent tells whether a branch outcome says that the slot holds nothing (want) or something.
func (p *placer) says(b *Node, slot string, absent bool) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	g := p.g
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op == "lookupok" {
		m := p.of(c.args[0])
		return m.ok() && m.at(g.K(c.args[1])).String() == slot && pol == !absent
	}
	if c.op == "lookup" { // a set of true values
		return p.of(c).String() == slot && pol == !absent
	}
	if c.op != "bin" {
		return false
	}
	x, y, op := c.args[0], c.args[1], c.s
	swap := map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
	neg := map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
	if x.op == "const" {
		x, y, op = y, x, swap[op]
	}
	if !pol {
		op = neg[op]
	}
	if isNilConst(y) {
		q := p.of(x)
		return q.ok() && q.String() == slot && (op == "==") == absent
	}
	l := g.single0(x)
	if l.op == "len" {
		q := p.of(l.args[0])
		n, ok := constInt(y)
		if !q.ok() || q.String() != slot || !ok {
			return false
		}
		if absent {
			return op == "==" && n == 0 || op == "<=" && n == 0 || op == "<" && n == 1
		}
		return op == "!=" && n == 0 || op == ">" && n == 0 || op == ">=" && n == 1
	}
	return false
}

// onlyIf tells whether a node runs only after a branch with the property.
func (g *Graph) onlyIf(n *Node, says func(*Node) bool) bool {
	if says(n) {
		return true
	}
	for _, b := range g.guards(n) {
		if says(b) {
			return true
		}
	}
	return g.find([]*Node{n.fr.thread.entry}, searchOpt{
		avoid: func(m *Node) bool { return m != n && says(m) },
		goal:  func(m *Node) bool { return m == n },
	}) == nil
}

// recvSite is a place where a goroutine takes a message.
type recvSite struct {
	node  *Node
	ch    *Term
	msg   *Term
	start []*Node // where control goes on with the message
}

// recvSites lists the receives of a thread.
func (g *Graph) recvSites(th *Thread) []recvSite {
	var out []recvSite
	live := g.threadNodes(th)
	for _, n := range g.liveNodes {
		if n.kind != NInstr || !live[n] {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.UnOp:
			if in.Op.String() != "<-" {
				continue
			}
			ch := g.term(n.fr, in.X)
			rs := recvSite{node: n, ch: ch, start: []*Node{n}}
			rs.msg = g.mk(&Term{op: "recv", node: n, args: []*Term{ch}, fr: n.fr})
			if in.CommaOk {
				ok := g.branches(func(b *Node) bool {
					c := g.cond(b)
					return c.op == "recvok" && c.node == n && b.pol
				})
				if len(ok) > 0 {
					rs.start = ok
				}
			}
			if rs.msg.typ == nil {
				rs.msg.typ = in.X.Type().Underlying().(*types.Chan).Elem()
			}
			out = append(out, rs)
		case *ssa.Select:
			for i, s := range in.States {
				if s.Dir != types.RecvOnly {
					continue
				}
				ch := g.term(n.fr, s.Chan)
				rs := recvSite{node: n, ch: ch}
				rs.msg = g.mk(&Term{op: "recv", node: n, args: []*Term{ch}, fr: n.fr})
				if rs.msg.typ == nil {
					rs.msg.typ = s.Chan.Type().Underlying().(*types.Chan).Elem()
				}
				rs.start = g.selStart(n, i)
				out = append(out, rs)
			}
		}
	}
	return out
}

// selStart finds where control goes when state i of a select was chosen.
func (g *Graph) selStart(n *Node, i int) []*Node {
	var out []*Node
	sel := n.in.(*ssa.Select)
	last := len(sel.States) - 1
	if !sel.Blocking {
		last = -1
	}
	for _, b := range g.branches(func(b *Node) bool { return true }) {
		c := g.cond(b)
		if c.op != "bin" || c.s != "==" {
			continue
		}
		x, y := c.args[0], c.args[1]
		if x.op == "const" {
			x, y = y, x
		}
		k, ok := constInt(y)
		if x.op == "selidx" && x.node == n && ok && int(k) == i && b.pol {
			out = append(out, b)
		}
	}
	if len(out) == 0 && i == last {
		out = []*Node{n}
	}
	return out
}

// bufEvent is a statement that keeps parts of a message in a buffer.
type bufEvent struct {
	e     Eff
	root  string
	keys  []string          // message parts, "*" for the keys of a part that is a map
	vals  map[string]string // field of the value -> message part
	over  string            // part whose entries are copied
	loop  *Loop
	place Place
}

func (b bufEvent) sig() string {
	s := b.root + "[" + strings.Join(b.keys, "][") + "]="
	for _, k := range sortedKeys(b.vals) {
		s += k + ":" + b.vals[k] + ","
	}
	return s
}

// Writer is a goroutine that buffers what it receives.
type Writer struct {
	c      *Ctx
	g      *Graph
	th     *Thread
	obj    string
	pl     *placer
	nodes  map[*Node]bool
	recvs  []recvSite
	timers []recvSite
	events []bufEvent
	roots  map[string]bool
	// entryDepth is the number of keys from the buffer to what is copied at once
	entryDepth int
	parts      []string
}

// newWriter collects what a thread does with the messages of a channel.
func (c *Ctx) newWriter(g *Graph, th *Thread, obj string, isCh func(*Term) bool) *Writer {
	w := &Writer{c: c, g: g, th: th, obj: obj, pl: g.newPlacer(), nodes: g.threadNodes(th), roots: map[string]bool{}}
	var mt types.Type
	for _, r := range g.recvSites(th) {
		if isCh(r.ch) {
			w.recvs = append(w.recvs, r)
			mt = r.msg.typ
		} else {
			w.timers = append(w.timers, r)
		}
	}
	if len(w.recvs) == 0 {
		return nil
	}
	if st, ok := mt.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			w.parts = append(w.parts, st.Field(i).Name())
		}
	}
	for _, r := range w.recvs {
		for _, e := range g.effects() {
			if e.kind != "update" || !w.nodes[e.n] {
				continue
			}
			if ev, ok := w.event(r, e); ok {
				w.events = append(w.events, ev)
				w.roots[ev.root] = true
			}
		}
	}
	return w
}

// comesBack decides that the writer always gets to its next receive, unless it stops the process.
func (w *Writer) comesBack(rule string) {
	g := w.g
	back := map[*Node]bool{}
	var work []*Node
	for n := range w.nodes {
		stop := w.isRecv(n) || n == w.th.exit || len(n.succ) == 0
		if _, ok := n.in.(*ssa.Panic); ok && n.kind == NInstr || n.common() != nil && isNoReturn(n.common()) {
			stop = true
		}
		if stop {
			back[n] = true
			work = append(work, n)
		}
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range n.pred {
			if !back[p] {
				back[p] = true
				work = append(work, p)
			}
		}
	}
	var lost *Node
	for n := range w.nodes {
		if g.live[n] && !back[n] && (lost == nil || n.id < lost.id) {
			lost = n
		}
	}
	at := w.th.entry
	if lost != nil {
		at = lost
	}
	w.c.check(lost == nil, rule, w.obj+"/next", g.where(at), "from here the writer never gets to the next message")
}

func (w *Writer) isRecv(n *Node) bool {
	for _, r := range w.recvs {
		if r.node == n {
			return true
		}
	}
	return false
}

// part is the name of the message part a term is.
func (w *Writer) part(r recvSite, t *Term) string {
	k, m := w.g.K(t), w.g.K(r.msg)
	if k == m {
		return "."
	}
	if strings.HasPrefix(k, m+".") && !strings.ContainsAny(k[len(m)+1:], ".[(") {
		return k[len(m)+1:]
	}
	return ""
}

func (w *Writer) partName(r recvSite, name string) string {
	m := w.g.K(r.msg)
	if name == m {
		return "."
	}
	if strings.HasPrefix(name, m+".") && !strings.ContainsAny(name[len(m)+1:], ".[(") {
		return name[len(m)+1:]
	}
	return ""
}

func (w *Writer) event(r recvSite, e Eff) (bufEvent, bool) {
	g := w.g
	m := w.pl.of(e.m)
	if !m.ok() || strings.HasPrefix(m.root, "?") {
		return bufEvent{}, false
	}
	ev := bufEvent{e: e, root: m.root, vals: map[string]string{}, place: m.at(g.K(e.k))}
	for _, k := range m.keys {
		p := w.partName(r, k)
		if p == "" {
			return ev, false
		}
		ev.keys = append(ev.keys, p)
	}
	if p := w.part(r, e.k); p != "" {
		ev.keys = append(ev.keys, p)
	} else {
		l, over := g.iterOf(e.k)
		if l == nil {
			return ev, false
		}
		p := w.partName(r, over)
		if p == "" || !g.sameEntry(e, over) || len(g.freshIn(e.v)) > 0 {
			return ev, false
		}
		ev.keys = append(ev.keys, "*")
		ev.over, ev.loop = p, l
		ev.vals[""] = p
		return ev, true
	}
	// the value
	if isMap(e.v.typ) {
		if p := w.part(r, e.v); p != "" {
			ev.vals[""] = p
			return ev, true
		}
		return ev, false
	}
	if p := w.part(r, e.v); p != "" {
		ev.vals[""] = p
		if p == "." { // the whole message
			for _, f := range w.parts {
				ev.vals["."+f] = f
			}
		}
		return ev, true
	}
	if v := g.single0(e.v); v.op == "const" {
		if v.s == "true" || v.s == "zero" {
			ev.vals[""] = "+"
			return ev, true
		}
		return ev, false
	}
	if st, ok := e.v.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if p := w.part(r, g.fieldOf(e.v, f.Name(), i, f.Type())); p != "" {
				ev.vals["."+f.Name()] = p
			}
		}
		if len(ev.vals) > 0 {
			return ev, true
		}
	}
	return ev, false
}

// isEnd: the goroutine waits for the next message, or is over.
func (w *Writer) isEnd(n *Node) bool {
	for _, r := range w.recvs {
		if n == r.node {
			return true
		}
	}
	for _, r := range w.timers {
		if n == r.node {
			return true
		}
	}
	return n == w.th.exit
}

// buffered decides that every part of every message gets into a buffer.
func (w *Writer) buffered(rule string) {
	c, g := w.c, w.g
	for _, r := range w.recvs {
		if len(r.start) == 0 {
			c.bad(rule, w.obj, g.where(r.node), "nothing is done with a received message")
			continue
		}
		groups := map[string][]bufEvent{}
		for _, ev := range w.events {
			if ev.usesRecv(w, r) {
				groups[ev.sig()] = append(groups[ev.sig()], ev)
			}
		}
		covered := map[string]bool{}
		why := map[string]string{}
		for _, sig := range sortedKeys(groups) {
			evs := groups[sig]
			fail := w.mustBuffer(r, evs)
			uses := map[string]bool{}
			for _, k := range evs[0].keys {
				uses[k] = true
			}
			for _, v := range evs[0].vals {
				uses[v] = true
			}
			for u := range uses {
				if fail == "" {
					covered[u] = true
				} else {
					why[u] = fail
				}
			}
		}
		for _, p := range w.parts {
			if covered["."] {
				covered[p] = true
			}
			txt := "it is never stored in a buffer"
			if why[p] != "" {
				txt = why[p]
			}
			c.check(covered[p], rule, w.obj+"/"+p, g.where(r.node), "part "+p+" of a received message can be lost: "+txt)
		}
	}
	// inner maps of the buffer are there, and in it
	for _, e := range g.effects() {
		if e.kind != "update" || !w.nodes[e.n] {
			continue
		}
		m := w.pl.of(e.m)
		if !m.ok() || !w.roots[m.root] {
			continue
		}
		why := g.nilMap(w.pl, e)
		if why == "" {
			why = g.orphan(w.pl, e, w.isEnd)
		}
		c.check(why == "", rule, w.obj+"/in-buffer", g.where(e.n), "what is put there can be lost: "+why)
	}
	// a buffer is changed by messages only
	evNode := map[*Node]bool{}
	for _, ev := range w.events {
		evNode[ev.e.n] = true
	}
	for _, e := range g.effects() {
		if evNode[e.n] || (e.kind != "update" && e.kind != "store") {
			continue
		}
		if e.kind == "store" {
			continue
		}
		m := w.pl.of(e.m)
		if !m.ok() || !w.roots[m.root] {
			continue
		}
		slot := m.at(g.K(e.k)).String()
		where := g.where(e.n)
		if !w.nodes[e.n] {
			c.bad("buffer-private", w.obj, where, "another goroutine changes the buffer")
			continue
		}
		bad := ""
		for _, ch := range g.choices(e.v, e.n) {
			v := ch.v
			if q := w.pl.of(v); q.ok() && q.String() == slot && v.op != "fresh" {
				continue // the same map again
			}
			abs := func(b *Node) bool {
				return w.pl.says(b, slot, true) || len(m.keys) > 0 && w.pl.says(b, m.String(), true)
			}
			if g.onlyIf(e.n, abs) || g.onlyIf(ch.at, abs) {
				continue
			}
			if v.op == "fresh" && v.node != nil && g.onlyIf(v.node, abs) {
				continue
			}
			bad = "it writes " + g.P(v) + " over " + slot + ", which may hold something that is not saved yet"
		}
		c.check(bad == "", "buffer-kept", w.obj, where, bad)
	}
}

func (ev bufEvent) usesRecv(w *Writer, r recvSite) bool {
	for _, k := range ev.place.keys {
		if w.partName(r, k) != "" {
			return true
		}
	}
	return false
}

// mustBuffer: on every path from the receive to the next one some event of the group happens.
func (w *Writer) mustBuffer(r recvSite, evs []bufEvent) string {
	g := w.g
	nodes := map[*Node]bool{}
	var loops []bufEvent
	for _, ev := range evs {
		if ev.loop != nil {
			loops = append(loops, ev)
		} else {
			nodes[ev.e.n] = true
		}
	}
	if len(loops) > 0 {
		over := g.K(r.msg) + "." + loops[0].over
		return g.forAll(r.start[0], w.isEnd, over, func(l *Loop) func(*Node) bool {
			return func(n *Node) bool {
				for _, ev := range loops {
					if ev.e.n == n {
						return true
					}
				}
				return false
			}
		})
	}
	slots := map[string]bool{}
	for _, ev := range evs {
		if ev.vals[""] == "+" {
			slots[ev.place.String()] = true
		}
	}
	p := g.find(r.start, searchOpt{
		avoid: func(n *Node) bool {
			if nodes[n] {
				return true
			}
			for s := range slots {
				if w.pl.says(n, s, false) {
					return true
				}
			}
			return false
		},
		goal: w.isEnd,
	})
	if p == nil {
		return ""
	}
	return g.pathText(p)
}

// domTerm is the map a loop walks by its keys: directly, or through a slice that holds all of them.
func (g *Graph) domTerm(l *Loop) *Term {
	switch l.kind {
	case "map":
		return l.dom
	case "slice":
		ct, ok := g.contents(l.dom)
		if !ok || g.keysOf(l.dom, l.header) == "" {
			return nil
		}
		for _, e := range ct {
			if e.val == nil {
				return nil
			}
			kt := g.single0(e.val)
			if kt.op == "rangekey" {
				return kt.args[0]
			}
		}
	}
	return nil
}

// flushLoops are the loops over all entries of a buffer.
func (w *Writer) flushLoops() []*Loop {
	var out []*Loop
	for _, l := range w.g.loops {
		if !w.nodes[l.header] {
			continue
		}
		d := w.g.domTerm(l)
		if d == nil {
			continue
		}
		q := w.pl.of(d)
		if q.ok() && len(q.keys) == 0 && w.roots[q.root] && !w.emptied(d, l.header) {
			out = append(out, l)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].header.id < out[j].header.id })
	return out
}

// starts are the places where the goroutine goes on after it waited.
func (w *Writer) starts() []*Node {
	var out []*Node
	for _, r := range w.recvs {
		out = append(out, r.start...)
	}
	for _, r := range w.timers {
		out = append(out, r.start...)
	}
	return out
}

// emptied tells whether a buffer is one that was made since the goroutine last waited, so that nothing is in it.
func (w *Writer) emptied(d *Term, at *Node) bool {
	g := w.g
	vs := g.vals(d)
	for _, f := range vs {
		if f.op != "fresh" || f.node == nil || !w.nodes[f.node] {
			return false
		}
		if g.find(w.starts(), searchOpt{avoid: func(n *Node) bool { return n == f.node }, goal: func(n *Node) bool { return n == at }}) != nil {
			return false
		}
	}
	return len(vs) > 0
}

// sameRootGroup: buffers that are filled together hold the same keys.
func (w *Writer) emptyBranch(n *Node) bool {
	for r := range w.roots {
		if w.pl.says(n, r, true) {
			return true
		}
	}
	return false
}

// isTicker tells whether a channel is that of a timer that fires again and again.
func (w *Writer) isTicker(r recvSite) string {
	g := w.g
	k := g.K(r.ch)
	ct := g.one(r.ch)
	base := addrBase(g.canonAddr(baseLoad(ct)))
	base = g.one(base)
	node := base.node
	inLoop := func() bool {
		for l := g.loopOf[r.node]; l != nil; l = l.parent {
			if node != nil && l.body[node] {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasPrefix(k, "time.NewTicker(") && strings.HasSuffix(k, ".C"), strings.HasPrefix(k, "time.Tick("):
		if inLoop() {
			return "the timer is made anew for each message, so that messages postpone the flush forever"
		}
		if base.op == "call" && len(base.args) == 1 {
			for _, d := range g.vals(base.args[0]) {
				if v, ok := constInt(d); ok && v <= 0 {
					return "a timer with the interval " + itoa64(v) + " fails or never fires"
				}
			}
		}
		for _, n := range g.calls("(*time.Ticker).Stop") {
			if !w.nodes[n] || n.kind == NDeferred || isDeferOrGo(n) {
				continue
			}
			if g.reaches(n, r.node) {
				return "the timer is stopped"
			}
		}
		return ""
	case strings.HasPrefix(k, "time.NewTimer(") && strings.HasSuffix(k, ".C"):
		resets := map[*Node]bool{}
		for _, n := range g.calls("(*time.Timer).Reset") {
			resets[n] = true
		}
		if p := g.find(r.start, searchOpt{avoid: func(n *Node) bool { return resets[n] }, goal: w.isEnd}); p != nil {
			return "the timer fires only once"
		}
		return ""
	case strings.HasPrefix(k, "time.After("):
		if inLoop() {
			return "the timer is made anew for each message, so that messages postpone the flush forever"
		}
		return "the timer fires only once"
	}
	return "it is not a timer: " + k
}

func baseLoad(t *Term) *Term {
	for t.op == "load" || t.op == "init" {
		t = t.args[0]
	}
	return t
}

// drop is a statement after which buffered entries are gone.
type drop struct {
	n    *Node
	what string
	key  *Term // nil: the whole buffer
	e    Eff
}

func (w *Writer) drops() []drop {
	g := w.g
	var out []drop
	for _, e := range g.effects() {
		if e.kind != "delete" && e.kind != "clear" {
			continue
		}
		m := w.pl.of(e.m)
		if !m.ok() || !w.roots[m.root] {
			continue
		}
		d := drop{n: e.n, what: e.kind + " of " + m.String(), e: e}
		if e.kind == "delete" && len(m.keys) == 0 {
			d.key = e.k
		}
		out = append(out, d)
	}
	// a new map in the place of the old one
	for f := range w.classFresh() {
		if f.node == nil || !w.nodes[f.node] {
			continue
		}
		again := false
		for _, r := range w.recvs {
			if g.reaches(r.node, f.node) {
				again = true
			}
		}
		if again {
			for _, n := range w.installs(f) {
				out = append(out, drop{n: n, what: "replacement of the buffer"})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].n.id < out[j].n.id })
	return out
}

// classFresh are the maps the buffer variables hold.
func (w *Writer) classFresh() map[*Term]bool {
	out := map[*Term]bool{}
	g := w.g
	for _, n := range g.liveNodes {
		v, ok := n.in.(*ssa.MakeMap)
		if !ok || !w.nodes[n] {
			continue
		}
		t := g.term(n.fr, v)
		if q := w.pl.of(t); q.ok() && len(q.keys) == 0 && w.roots[q.root] {
			out[t] = true
		}
	}
	return out
}

// installs lists where a map becomes the value of the buffer variable.
func (w *Writer) installs(f *Term) []*Node {
	g := w.g
	var out []*Node
	for _, n := range g.liveNodes {
		if n.kind != NInstr || !w.nodes[n] {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.Store:
			if isMap(in.Val.Type()) && g.mayBe(g.term(n.fr, in.Val), f) {
				if x := g.readAs(g.term(n.fr, in.Val)); x.op == "load" && w.isBufVar(x.args[0], f) {
					continue // what the buffer held is kept in another variable
				}
				out = append(out, n)
			}
		case *ssa.Phi:
			if !isMap(in.Type()) {
				continue
			}
			t := g.term(n.fr, in)
			if q := w.pl.of(t); !q.ok() || !w.roots[q.root] || len(q.keys) > 0 {
				continue
			}
			for _, c := range g.choices(t, n) {
				if c.v == f && c.at != n {
					out = append(out, c.at)
				}
			}
		}
	}
	if len(out) == 0 {
		out = append(out, f.node)
	}
	return out
}

// isBufVar: a map that was made is stored there.
func (w *Writer) isBufVar(addr, f *Term) bool {
	g := w.g
	a := g.canonAddr(addr)
	for _, n := range g.liveNodes {
		if n.kind != NInstr || !w.nodes[n] {
			continue
		}
		if st, ok := n.in.(*ssa.Store); ok && isMap(st.Val.Type()) && g.canonAddr(g.term(n.fr, st.Addr)) == a && g.readAs(g.term(n.fr, st.Val)) == f {
			return true
		}
	}
	return false
}

func itoa64(v int64) string { return strconv.FormatInt(v, 10) }
