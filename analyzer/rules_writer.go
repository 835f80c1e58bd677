package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const serPrefix = Module + "/storage.Serialize"

// diskWriter is a writer of the disk store with what its files hold.
type diskWriter struct {
	*Writer
	kind  string            // metrics, nfterm, doc, index
	parts map[string]string // role (name, size, length, term, id, fields) -> message part
	field string            // field of Disk that holds its queue
	saves []saveSite
}

// saveSite is a rename that puts the new version of a file in place.
type saveSite struct {
	rename, write *Node
	ser           *Term
	dst           []string
	loop          *Loop
}

// diskWriters finds the goroutines NewDiskStore starts that receive from a queue it makes.
func (c *Ctx) diskWriters() (*Graph, []*diskWriter) {
	fn := c.p.Func("storage", "NewDiskStore")
	if fn == nil {
		c.bad("anchor", "storage.NewDiskStore", "", "the function does not exist")
		return nil, nil
	}
	g := c.graph(fn, opaqueStore(c.p), "store")
	var out []*diskWriter
	for _, th := range g.threads {
		if th.spawn == nil || th.callback {
			continue
		}
		seen := map[*Term]bool{}
		for _, r := range g.recvSites(th) {
			ch := g.single(r.ch)
			if ch == nil || ch.op != "fresh" || seen[ch] {
				continue
			}
			seen[ch] = true
			w := c.newWriter(g, th, fnLabel(th.fr.fn), func(t *Term) bool { return g.single(t) == ch })
			if w == nil {
				continue
			}
			w.entryDepth = 1
			dw := &diskWriter{Writer: w, parts: map[string]string{}}
			for _, p := range g.publicationsAny(ch) {
				dw.field = p
			}
			for p, b := range g.builtParts() {
				if strings.Contains(p, ".") && g.single(b.v) == ch {
					dw.field = p
				}
			}
			dw.classify()
			out = append(out, dw)
		}
	}
	return g, out
}

// builtPart is the value of a part of the object that a constructor gives.
type builtPart struct {
	v  *Term
	at *Node
}

// builtParts are the parts of the object that a constructor gives, those of the structs in it included.
func (g *Graph) builtParts() map[string]builtPart {
	out := map[string]builtPart{}
	var parts func(addr *Term, t types.Type, path string, at *Node, d int)
	parts = func(addr *Term, t types.Type, path string, at *Node, d int) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || d > 3 {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			a := g.mk(&Term{op: "fieldaddr", s: f.Name(), args: []*Term{addr}, typ: types.NewPointer(f.Type())})
			if n, ok := f.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				parts(a, f.Type(), path+f.Name()+".", at, d+1)
				continue
			}
			if mv := g.memVals(at, a, f.Type()); len(mv) == 1 {
				out[path+f.Name()] = builtPart{mv[0].val, at}
			}
		}
	}
	for _, r := range g.rootResults(0) {
		v := r.v
		if v.op == "iface" {
			v = g.single0(v.args[0])
		}
		if v.op == "fresh" {
			parts(v, derefType(v.typ), "", r.at, 0)
		}
	}
	return out
}

// publicationsAny lists the struct fields an object is stored in.
func (g *Graph) publicationsAny(f *Term) []string {
	var out []string
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		if st, ok := n.in.(*ssa.Store); ok {
			a := g.term(n.fr, st.Addr)
			if a.op == "fieldaddr" && g.mayBe(g.term(n.fr, st.Val), f) {
				out = append(out, a.s)
			}
		}
	}
	return out
}

// serOf is the Serialize call whose (compressed) result a term is.
func (g *Graph) serOf(t *Term) *Term {
	t = g.one(t)
	if t.op == "call" && t.s == zip {
		t = g.one(t.args[0])
	}
	if t.op == "call" && strings.HasPrefix(t.s, serPrefix) {
		return t
	}
	return nil
}

// saveSites lists the renames of a thread with the data of the file that is renamed.
func (w *diskWriter) saveSites() []saveSite {
	g := w.g
	var out []saveSite
	for _, rn := range g.calls("os.Rename") {
		if !w.nodes[rn] {
			continue
		}
		as := g.callArgs(rn)
		s := saveSite{rename: rn, dst: g.pathSegs(as[1])}
		for _, wr := range g.calls("os.WriteFile") {
			if w.nodes[wr] && g.K(g.callArgs(wr)[0]) == g.K(as[0]) {
				s.write = wr
				s.ser = g.serOf(g.callArgs(wr)[1])
			}
		}
		fl := map[*Loop]bool{}
		for _, l := range w.flushLoops() {
			fl[l] = true
		}
		for l := g.loopOf[rn]; l != nil; l = l.parent {
			if fl[l] {
				s.loop = l
			}
		}
		out = append(out, s)
	}
	return out
}

// classify finds what kind of file a writer makes and which message part ends up where.
func (w *diskWriter) classify() {
	w.saves = w.saveSites()
	for _, s := range w.saves {
		if s.ser == nil {
			continue
		}
		kind := map[string]string{"FieldSizeLength": "metrics", "NumberFieldTerm": "nfterm", "FieldMap": "doc", "Index": "index"}[strings.TrimPrefix(s.ser.s, serPrefix)]
		if kind != "" {
			w.kind = kind
		}
		if kind == "metrics" && len(s.ser.args) == 3 {
			for i, role := range []string{"", "size", "length"} {
				if role == "" {
					continue
				}
				q := w.pl.of(stripConv(g1(w.g, s.ser.args[i])))
				for _, ev := range w.events {
					if ev.root == q.root && len(ev.keys) == 1 && len(q.keys) == 1 {
						if p := ev.vals[q.sub]; p != "" {
							w.parts[role] = p
							w.parts["name"] = ev.keys[0]
						}
					}
				}
			}
		}
	}
	for _, ev := range w.events {
		switch w.kind {
		case "nfterm":
			if len(ev.keys) == 2 && ev.vals[""] != "" {
				w.parts["name"], w.parts["term"], w.parts["size"] = ev.keys[0], ev.keys[1], ev.vals[""]
			}
		case "index":
			if len(ev.keys) == 3 && ev.vals[""] == "+" {
				w.parts["name"], w.parts["term"], w.parts["id"] = ev.keys[0], ev.keys[1], ev.keys[2]
			}
		case "doc":
			if len(ev.keys) == 2 && ev.keys[1] == "*" {
				w.parts["id"], w.parts["fields"] = ev.keys[0], ev.vals[""]
			}
			if len(ev.keys) == 1 && ev.vals[""] != "" && ev.vals[""] != "+" {
				w.parts["id"], w.parts["fields"] = ev.keys[0], ev.vals[""]
			}
		}
	}
}

func g1(g *Graph, t *Term) *Term { return g.single0(t) }

var writerRoles = map[string][]string{
	"metrics": {"name", "size", "length"}, "nfterm": {"name", "term", "size"}, "index": {"name", "term", "id"}, "doc": {"id", "fields"},
}

// ---- C08 ----------------------------------------------------------------------------------------------------

func ruleC08(c *Ctx) {
	g, ws := c.diskWriters()
	if g == nil {
		return
	}
	kinds := map[string]int{}
	for _, w := range ws {
		if !c.check(w.kind != "", "writer", w.obj, g.where(w.recvs[0].node), "what it receives is never written to a file") {
			continue
		}
		kinds[w.kind]++
		for _, r := range writerRoles[w.kind] {
			c.check(w.parts[r] != "", "part-saved", w.obj+"/"+r, g.where(w.recvs[0].node), "the "+r+" in the file does not come from the messages")
		}
		w.buffered("part-buffered")
		w.comesBack("writer-lives")
		w.flushes()
	}
	c.foldersThere(g, "folders", func(n *Node) bool { return n.fr.thread != g.root.thread })
	for _, b := range c.backends() {
		if b.name == "Disk" && b.roles(false) {
			b.handed("SaveOrUpdate", ws, "part-saved")
		}
	}
	for _, k := range []string{"metrics", "nfterm", "doc", "index"} {
		c.check(kinds[k] > 0, "writer", k, g.where(g.root.entry), "no background writer of the store writes these files")
	}
}

// flushes decides that a timer tick saves all of the buffer, and that nothing is dropped before.
func (w *diskWriter) flushes() {
	c, g := w.c, w.g
	loops := w.flushLoops()
	if len(loops) == 0 {
		c.bad("flush", w.obj, g.where(w.th.entry), "no loop goes through all entries of the buffer")
		return
	}
	isFlush := map[*Loop]bool{}
	done := map[*Node]*Loop{}
	for _, l := range loops {
		has := false
		for _, s := range w.saves {
			if l.body[s.rename] {
				has = true
			}
		}
		if has {
			isFlush[l] = true
			done[l.done] = l
		}
	}
	if len(isFlush) == 0 {
		c.bad("flush", w.obj, g.where(loops[0].header), "the loop over the buffer saves nothing")
		return
	}
	// it ticks, and each tick flushes
	ticks := 0
	for _, r := range w.timers {
		why := w.isTicker(r)
		if strings.HasPrefix(why, "it is not a timer") {
			continue
		}
		c.check(why == "", "tick", w.obj, g.where(r.node), why)
		if why != "" {
			continue
		}
		p := g.find(r.start, searchOpt{
			avoid: func(n *Node) bool { return done[n] != nil || w.emptyBranch(n) },
			goal:  w.isEnd,
		})
		if p == nil {
			ticks++
		}
	}
	c.check(ticks > 0, "tick", w.obj+"/flush", g.where(w.th.entry), "no timer tick leads to saving the whole buffer")
	whole := false
	for _, d := range w.drops() {
		if d.key == nil {
			whole = true
		}
	}
	// each entry is saved
	complete := map[*Node]bool{}
	for _, s := range w.saves {
		l := s.loop
		if l == nil || !isFlush[l] {
			c.bad("saved", w.obj, g.where(s.rename), "a file is saved outside the loop over the buffer")
			continue
		}
		why := w.completeSave(l, s)
		if c.check(why == "", "complete", w.obj, g.where(s.rename), why) {
			complete[s.rename] = true
		}
	}
	saved := func(n *Node) bool {
		for r := range complete {
			if g.saysErr(n, r, false) {
				return true
			}
		}
		return false
	}
	failed := func(n *Node) bool {
		for _, s := range w.saves {
			if g.saysErr(n, s.rename, true) || (s.write != nil && g.saysErr(n, s.write, true)) {
				return true
			}
		}
		return false
	}
	for l := range isFlush {
		p := g.perIteration(l, func(n *Node) bool { return saved(n) || (!whole && failed(n)) })
		c.check(p == nil, "saved", w.obj, g.where(l.header), "an entry of the buffer may not be saved: "+g.pathText(p))
	}
	for _, d := range w.drops() {
		where := g.where(d.n)
		if !w.nodes[d.n] {
			c.bad("buffer-private", w.obj, where, "another goroutine changes the buffer")
			continue
		}
		if d.key != nil {
			l, over := g.iterOf(d.key)
			_ = over
			if l != nil && isFlush[l] && l.body[d.n] {
				p := g.find([]*Node{l.enter}, searchOpt{avoid: saved, goal: func(n *Node) bool { return n == d.n }})
				c.check(p == nil, "dropped-after-save", w.obj, where, "an entry is removed from the buffer although it may not be saved: "+g.pathText(p))
				continue
			}
			c.bad("dropped-after-save", w.obj, where, "an entry other than the saved one is removed from the buffer")
			continue
		}
		if q := w.pl.of(d.e.m2()); d.e.n != nil && len(q.keys) > 0 {
			c.bad("dropped-after-save", w.obj, where, "part of an entry is removed from the buffer")
			continue
		}
		var starts []*Node
		for _, r := range w.recvs {
			starts = append(starts, r.start...)
		}
		for _, r := range w.timers {
			starts = append(starts, r.start...)
		}
		p := g.find(starts, searchOpt{
			avoid: func(n *Node) bool { return done[n] != nil || w.emptyBranch(n) },
			goal:  func(n *Node) bool { return n == d.n },
		})
		if p != nil && w.savedAfter(d.n, starts, isFlush, saved) {
			p = nil
		}
		// when the store of the new map is the start itself
		c.check(p == nil, "dropped-after-save", w.obj, where, "the buffer is emptied although its entries may not be saved: "+g.pathText(p))
	}
}

// savedAfter: the buffer that is replaced was taken before, and surely all of it is saved afterwards.
func (w *diskWriter) savedAfter(drop *Node, starts []*Node, isFlush map[*Loop]bool, saved func(*Node) bool) bool {
	g := w.g
	for l := range isFlush {
		d := g.domTerm(l)
		if d != nil {
			d = g.readAs(d)
		}
		if d == nil || d.op != "load" || d.node == nil {
			continue
		}
		is := func(n *Node) func(*Node) bool { return func(m *Node) bool { return m == n } }
		if g.find(starts, searchOpt{avoid: is(d.node), goal: is(drop)}) == nil &&
			g.find([]*Node{drop}, searchOpt{avoid: w.isEnd, goal: is(d.node)}) == nil &&
			g.find([]*Node{drop}, searchOpt{avoid: is(l.done), goal: w.isEnd}) == nil &&
			g.perIteration(l, saved) == nil {
			return true
		}
	}
	return false
}

// readAs follows a value through local variables and results to the place it was read from.
func (g *Graph) readAs(t *Term) *Term {
	for i := 0; i < 20; i++ {
		as := g.alts(t)
		if len(as) != 1 {
			break
		}
		t = as[0]
	}
	return t
}

func (e Eff) m2() *Term {
	if e.m == nil {
		return &Term{op: "const"}
	}
	return e.m
}

// completeSave decides that the saved file belongs to the entry and holds all of it, and what older files held.
func (w *diskWriter) completeSave(l *Loop, s saveSite) string {
	g := w.g
	if s.write == nil {
		return "it renames a file that was not written here"
	}
	if s.ser == nil {
		return "the file does not get the serialized entry but " + g.P(g.callArgs(s.write)[1])
	}
	key := g.elemKey(l)
	k := g.K(key)
	entry := w.pl.of(g.domTerm(l)).at(g.domKey(l))
	if w.kind == "doc" {
		if len(s.dst) < 2 || s.dst[len(s.dst)-1] != safeName+"("+k+")" {
			return "the file of an entry is not named after it: " + strings.Join(s.dst, "/")
		}
	} else if len(s.dst) < 2 || s.dst[1] != safeName+"("+k+")" {
		return "the file of an entry is not in its folder: " + strings.Join(s.dst, "/")
	}
	if p := g.find([]*Node{l.enter}, searchOpt{avoid: func(n *Node) bool { return g.saysErr(n, s.write, false) }, goal: func(n *Node) bool { return n == s.rename }}); p != nil {
		return "the file may be renamed although it was not written: " + g.pathText(p)
	}
	switch w.kind {
	case "metrics":
		if len(s.ser.args) != 3 {
			return "unexpected arguments"
		}
		if g.K(s.ser.args[0]) != k {
			return "the name in the file is " + g.P(s.ser.args[0]) + ", not that of the entry"
		}
		for i := 1; i < 3; i++ {
			q := w.pl.of(stripConv(g1(g, s.ser.args[i])))
			if !w.roots[q.root] || len(q.keys) != 1 || !w.sameKey(l, q.keys[0]) {
				return "the file gets " + g.P(s.ser.args[i]) + ", not what is buffered for the entry"
			}
		}
		return ""
	case "index":
		q := w.pl.of(s.ser.args[0])
		if !w.isEntry(l, q, entry) {
			return "the file gets " + g.P(s.ser.args[0]) + ", not the buffered entry"
		}
		if !g.uniqueName(s.dst[len(s.dst)-1], l) {
			return "a later fragment replaces this one: its name " + s.dst[len(s.dst)-1] + " is not unique"
		}
		return ""
	}
	return w.merged(l, s, entry)
}

// domKey is the name of the key of a loop inside its map.
func (g *Graph) domKey(l *Loop) string {
	if l.kind == "map" {
		return "key" + g.nid(l.key.node)
	}
	return g.K(g.elemKey(l))
}

func (w *diskWriter) sameKey(l *Loop, k string) bool {
	return k == w.g.domKey(l) || k == w.g.K(w.g.elemKey(l))
}

func (w *diskWriter) isEntry(l *Loop, q, entry Place) bool {
	return q.ok() && q.root == entry.root && len(q.keys) == 1 && w.sameKey(l, q.keys[0]) && q.sub == ""
}

// uniqueName tells whether a file name contains something that is new in every iteration.
func (g *Graph) uniqueName(seg string, l *Loop) bool {
	for _, n := range g.liveNodes {
		if !l.body[n] || n.common() == nil {
			continue
		}
		switch n.callName() {
		case "github.com/google/uuid.New", "github.com/google/uuid.NewString", "github.com/google/uuid.NewRandom", "github.com/google/uuid.NewUUID", "os.CreateTemp":
			if strings.Contains(seg, "@"+g.nid(n)) {
				return true
			}
		}
	}
	return false
}

// merged decides that what is written is the buffered entry laid over the stored file.
func (w *diskWriter) merged(l *Loop, s saveSite, entry Place) string {
	g := w.g
	data := s.ser.args[0]
	ser := s.ser.node
	dst := strings.Join(s.dst, "/")
	stored := func(t *Term) bool { return w.isStored(t, dst) }
	absent := func(n *Node) bool {
		for _, rn := range append(g.calls("os.ReadFile"), append(g.calls("os.Stat"), g.calls("os.Open")...)...) {
			if w.nodes[rn] && g.saysErr(n, rn, true) && strings.Join(g.pathSegs(g.callArgs(rn)[0]), "/") == dst {
				return true
			}
		}
		return false
	}
	for _, ch := range g.choices(data, ser) {
		v := ch.v
		if isZeroConst(v) {
			continue
		}
		if q := w.pl.of(v); w.isEntry(l, q, entry) && !stored(v) {
			// the buffered map itself gets what only the file has
			if p := w.copied([]*Node{l.enter}, func(n *Node) bool { return n == l.header }, v, ch.at, ser, stored, absent, false); p != "" {
				return "what the file already holds can be lost: " + p
			}
			continue
		}
		isBase := stored(v)
		if !isBase && v.op != "fresh" {
			return "the file gets " + g.P(v)
		}
		// the buffered entry is laid over it
		if p := w.copied([]*Node{l.enter}, func(n *Node) bool { return n == l.header }, v, ch.at, ser, func(t *Term) bool { return w.isEntry(l, w.pl.of(t), entry) }, func(n *Node) bool { return false }, true); p != "" {
			return "the buffered entry may not get into the file: " + p
		}
		if isBase {
			continue
		}
		if g.onlyIf(ch.at, absent) {
			continue
		}
		if p := w.copied([]*Node{l.enter}, func(n *Node) bool { return n == l.header }, v, ch.at, ser, stored, absent, false); p != "" {
			return "what the file already holds can be lost: " + p
		}
	}
	return ""
}

func (w *diskWriter) isStored(t *Term, dst string) bool {
	g := w.g
	vs := g.vals(t)
	n := 0
	for _, v := range vs {
		if isZeroConst(v) {
			continue
		}
		if v.op == "fresh" {
			if _, ok := v.v.(*ssa.MakeMap); ok && len(vs) > 1 {
				continue // an empty map stands for a missing file
			}
			return false
		}
		if v.op != "call" || !strings.HasPrefix(v.s, dsPrefix) {
			return false
		}
		rd := g.readOf(v.args[0])
		if rd == nil || strings.Join(g.pathSegs(rd.args[0]), "/") != dst {
			return false
		}
		n++
	}
	return n > 0
}

// copied decides that on every path from the start of an iteration to the serialization all entries of a source map
// get into m, which is decided on at a node (via) on the way. When the source is not newer, entries that are already there may be kept; when it is, nothing that
// is copied later may replace them.
func (w *Writer) copied(starts []*Node, stop func(*Node) bool, m *Term, via, ser *Node, src func(*Term) bool, skip func(*Node) bool, newer bool) string {
	g := w.g
	dones := map[*Node]bool{}
	evs := map[*Node]bool{}
	why := "no loop copies it"
	for _, cl := range g.loops {
		d := g.domTerm(cl)
		if d == nil || !w.nodes[cl.header] || !src(d) {
			continue
		}
		var upd []Eff
		for _, e := range g.effects() {
			if e.kind == "update" && cl.body[e.n] && (g.mayBe(e.m, m) || g.K(e.m) == g.K(m) || (w.pl.of(m).ok() && w.pl.of(e.m).String() == w.pl.of(m).String())) {
				lk, over := g.iterOf(e.k)
				if lk == cl && (g.entryOf(e.v, cl) || g.sameEntry(e, over) && len(g.freshIn(e.v)) == 0) {
					upd = append(upd, e)
				}
			}
		}
		p := g.perIteration(cl, func(n *Node) bool {
			for _, e := range upd {
				if e.n == n {
					return true
				}
				if !newer {
					b := w.pl.of(m)
					if b.ok() && w.pl.says(n, b.at(g.K(e.k)).String(), false) {
						return true
					}
					if g.saysHas(n, m, e.k) {
						return true
					}
				}
			}
			return false
		})
		if p != nil {
			why = "an entry can be left out: " + g.pathText(p)
			continue
		}
		for _, e := range upd {
			evs[e.n] = true
		}
		if !newer {
			// it must not replace newer entries
			for _, e := range upd {
				if bad := w.replaces(stop, e, m); bad != "" {
					return bad
				}
			}
		}
		dones[cl.done] = true
	}
	not := func(n *Node) bool { return dones[n] || skip(n) }
	if via != nil && via != ser && w.nodes[via] {
		// the place that decides for this map
		if g.find(starts, searchOpt{avoid: func(n *Node) bool { return n != via && not(n) }, goal: func(n *Node) bool { return n == via }}) == nil || not(via) {
			return ""
		}
		starts = []*Node{via}
	}
	p := g.find(starts, searchOpt{
		avoid: not,
		goal:  func(n *Node) bool { return n == ser },
	})
	if p != nil {
		if len(dones) > 0 {
			why = g.pathText(p)
		}
		return why
	}
	return ""
}

// replaces: an entry of the file must not replace the buffered one.
func (w *Writer) replaces(stop func(*Node) bool, e Eff, m *Term) string {
	g := w.g
	b := w.pl.of(m)
	abs := func(n *Node) bool {
		if b.ok() && w.pl.says(n, b.at(g.K(e.k)).String(), true) {
			return true
		}
		if n.kind != NBranch || n.maybe {
			return false
		}
		c, pol := g.single0(g.cond(n)), n.pol
		for c.op == "un" && c.s == "!" {
			c, pol = g.single0(c.args[0]), !pol
		}
		return c.op == "lookupok" && !pol && g.mayBe(c.args[0], m) && g.K(c.args[1]) == g.K(e.k)
	}
	if g.onlyIf(e.n, abs) {
		return ""
	}
	// or the buffered entries come later: no buffered entry can be in m yet
	if b.ok() && w.roots[b.root] {
		return "an old entry replaces the buffered one at " + g.where(e.n)
	}
	for _, cl := range g.loops {
		d := g.domTerm(cl)
		if d == nil || !w.nodes[cl.header] {
			continue
		}
		q := w.pl.of(d)
		if !q.ok() || !w.roots[q.root] || len(q.keys) != w.entryDepth {
			continue
		}
		if p := g.find([]*Node{cl.done}, searchOpt{goal: func(n *Node) bool { return n == e.n }, avoid: stop}); p != nil {
			return "an old entry replaces the buffered one at " + g.where(e.n)
		}
	}
	return ""
}

func init() {
	register("C08", 1, "", ruleC08)
}

var _ = fmt.Sprint

// entryOf tells whether a value is the entry of the current key of a loop over a map, looked up instead of taken.
func (g *Graph) entryOf(t *Term, l *Loop) bool {
	t = g.single0(t)
	if t.op != "lookup" || l.dom == nil || l.key == nil || g.single0(t.args[1]) != g.single0(l.key) {
		return false
	}
	m, d := g.single0(t.args[0]), g.single0(l.dom)
	if g.K(m) == g.K(d) || g.deref(m, true) == g.deref(d, true) {
		return true
	}
	if m.op != "load" || d.op != "load" || g.K(m.args[0]) != g.K(d.args[0]) {
		return false
	}
	// the same variable, which the loop leaves alone
	loc := g.loc(d.args[0], true)
	for _, e := range g.effects() {
		if e.kind == "store" && l.body[e.n] && (e.path == loc || under(loc, e.path)) {
			return false
		}
	}
	return true
}
