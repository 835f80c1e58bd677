package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Merging index fragments, and loading a store.

// merge is a place where the index file of a field is written from fragments.
type merge struct {
	c     *Ctx
	g     *Graph
	rn    *fileOp // puts the index file in place
	write *fileOp
	ser   *Term
	th    *Thread
	L     *Loop // over the folders of the fields
	dir   string
	srcs  []*mergeSrc
	T     []*Term // the map everything is merged into
	uses  []mapUse
}

type mergeSrc struct {
	rd    dataRead
	data  *Term
	frag  bool
	path  string // of the file
	files *Loop  // over the fragments
}

type mapUse struct {
	t  *Term
	at *Node
}

func segKeys(g *Graph, t *Term) []string { return g.pathSegs(t) }

// merges finds them: renames to a file of a folder from which fragments are read too.
func (c *Ctx) merges() []*merge {
	g, _ := c.diskWriters()
	if g == nil {
		return nil
	}
	var all []dataRead
	for _, r := range c.dataReads([]*Graph{g}, false) {
		if r.kind == "index" {
			all = append(all, r)
		}
	}
	ops := g.fileOps()
	var out []*merge
	for i, o := range ops {
		if o.kind != "rename-from" {
			continue
		}
		dst := ops[i+1]
		for _, w := range ops {
			if w.kind != "write" || g.K(w.t) != g.K(o.t) || w.n.fr.thread != o.n.fr.thread || w.n.callName() != "os.WriteFile" {
				continue
			}
			ser := g.serOf(g.callArgs(w.n)[1])
			if ser == nil || dataKinds[strings.TrimPrefix(ser.s, serPrefix)] != "index" {
				continue
			}
			m := &merge{c: c, g: g, rn: dst, write: w, ser: ser, th: o.n.fr.thread}
			segs := segKeys(g, dst.t)
			if len(segs) < 2 {
				continue
			}
			m.dir = strings.Join(segs[:len(segs)-1], "/")
			if dst.path[len(dst.path)-1].kind == "unique" {
				continue // that makes a fragment
			}
			for _, l := range g.loopsAround(dst.n) {
				if l.body[dst.n] && l.kind == "slice" {
					m.L = l
				}
			}
			for _, r := range all {
				if r.n.fr.thread != m.th || m.L == nil || !m.L.body[r.n] {
					continue
				}
				rs := segKeys(g, r.rd.args[0])
				s := &mergeSrc{rd: r, data: g.result(r.n, 0), path: strings.Join(rs, "/")}
				if r.shape != dst.shape() {
					s.frag = true
					for l := g.loopOf[r.rd.node]; l != nil && l != m.L; l = l.parent {
						s.files = l
					}
				}
				m.srcs = append(m.srcs, s)
			}
			if len(m.srcs) > 0 {
				out = append(out, m)
			}
		}
	}
	return out
}

func ruleC10(c *Ctx) {
	ms := c.merges()
	if !c.check(len(ms) > 0, "merge", "storage", "storage", "no index file is written from its fragments") {
		return
	}
	for _, m := range ms {
		m.decide()
	}
	c.stagingApart(c.diskOps())
}

func (m *merge) label() string {
	if m.th.spawn != nil {
		return "background"
	}
	return "open"
}

func (m *merge) decide() { m.decideAs(true) }

func (m *merge) decideAs(deletes bool) {
	c, g := m.c, m.g
	where := g.where(m.rn.n)
	lab := m.label()
	dirSeg := m.rn.path[0]
	if !c.check(m.L != nil && dirSeg.kind == "listed" && len(dirSeg.dir) == 1, "every-field", lab, where, "the merge does not go through the folders that are on disk") {
		return
	}
	if why := m.overFolders(m.L); !c.check(why == "", "every-field", lab, where, why) {
		return
	}
	c.ownEntries(g, "each-term", lab, func(*Node) bool { return true })
	// what is merged
	old, frags := 0, 0
	for _, s := range m.srcs {
		sw := g.where(s.rd.n)
		if !strings.HasPrefix(s.path, m.dir+"/") {
			c.bad("same-field", lab, sw, "it merges "+s.rd.shape+" of another folder")
			continue
		}
		if s.frag {
			frags++
		} else {
			old++
		}
	}
	c.check(old > 0, "sources", lab+"/index", where, "what the index file already has is not read")
	c.check(frags > 0, "sources", lab+"/fragments", where, "the fragments are not read")
	if old == 0 || frags == 0 {
		return
	}
	// the map everything is merged into
	if !c.check(m.target(), "merged-map", lab, g.where(m.write.n), "what is saved ("+g.P(m.ser.args[0])+") is not a copy of one map of this field") {
		return
	}
	for _, s := range m.srcs {
		m.source(s)
	}
	m.kept()
	m.savedAll()
	m.result()
	for _, u := range m.uses {
		w := g.mapLost(u.t, u.at, func(n *Node) bool { return n == m.L.header })
		c.check(w == "", "kept", lab, g.where(u.at), "what was merged is lost: "+w)
	}
	if deletes {
		m.deletes("deleted")
	}
}

// overFolders decides that a loop runs once for each folder of a field.
func (m *merge) overFolders(l *Loop) string { return m.g.overFolders(l) }

func (g *Graph) overFolders(l *Loop) string {
	if l.kind != "slice" {
		return "it is no loop over the folders"
	}
	d := g.single0(l.dom)
	if g.isListing(d) && !g.cutSlice(l.dom) {
		return "" // filtered inside the loop
	}
	ct, ok := g.contents(l.dom)
	if !ok || len(ct) == 0 {
		return "the folders come from " + g.P(l.dom)
	}
	var inner *Loop
	put := map[*Node]bool{}
	for _, e := range ct {
		if e.val == nil || g.entryName(e.val) == nil {
			return "the folders contain " + g.P(e.val)
		}
		put[e.node] = true
		for _, x := range g.loopsAround(e.node) {
			if x.kind == "slice" && g.isListing(g.single0(x.dom)) {
				inner = x
				break
			}
		}
	}
	if inner == nil {
		return "the list of folders is not made from a listing"
	}
	if g.cutSlice(l.dom) {
		return "it goes through a part of the folders only"
	}
	if _, why := g.listOf(l.dom, l.header); why != "" {
		return "folders are lost: " + why
	}
	p := g.perIteration(inner, func(n *Node) bool { return put[n] || g.notField(n) })
	if p != nil {
		return "a folder can be left out: " + g.pathText(p)
	}
	return ""
}

func (g *Graph) isListing(t *Term) bool {
	if t.op == "res" && t.i == 0 {
		t = t.args[0]
	}
	return t.op == "call" && (t.s == "os.ReadDir" || t.s == "io/ioutil.ReadDir")
}

// notField: the entry is no folder, or the folder of the documents.
func (g *Graph) notField(n *Node) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	t, pol := g.single0(g.cond(n)), n.pol
	for t.op == "un" && t.s == "!" {
		t, pol = g.single0(t.args[0]), !pol
	}
	if t.op == "call" && strings.HasSuffix(t.s, ").IsDir") {
		return !pol
	}
	if t.op == "bin" && (t.s == "==" || t.s == "!=") && pol == (t.s == "==") {
		for i := 0; i < 2; i++ {
			if s, ok := constString(g.single0(t.args[i])); ok && s == "docs" && g.entryName(t.args[1-i]) != nil {
				return true
			}
		}
	}
	return false
}

// target finds the map that is saved, or from whose sets the saved map is made.
func (m *merge) target() bool {
	g := m.g
	d := m.ser.args[0]
	for _, e := range g.effects() {
		if e.kind != "update" || e.n.fr.thread != m.th || !g.mayBe(e.m, g.one(d)) {
			continue
		}
		l, _ := g.iterOf(e.k)
		if l == nil || l.kind != "map" || !m.L.body[l.header] {
			continue
		}
		if m.entryData(l, e.v) {
			m.uses = append(m.uses, mapUse{l.dom, l.header})
			for _, v := range g.vals(l.dom) {
				if v.op == "fresh" {
					m.T = append(m.T, v)
				}
			}
		}
	}
	if len(m.T) == 0 {
		m.uses = append(m.uses, mapUse{d, m.ser.node})
		for _, v := range g.vals(d) {
			if v.op != "fresh" {
				return false
			}
			m.T = append(m.T, v)
		}
	}
	return len(m.T) > 0
}

// entryData tells whether a value is what the map of a loop has under the loop's key (the set, or its documents).
func (m *merge) entryData(l *Loop, v *Term) bool {
	g := m.g
	name := g.K(l.dom) + "[" + g.K(l.key) + "]"
	k := strings.TrimPrefix(g.K(g.single0(v)), "&")
	if k == name || strings.HasPrefix(k, name+".") && !strings.Contains(k[len(name)+1:], "[") {
		return true
	}
	// a copy of it
	for _, x := range g.vals(v) {
		if x.op != "fresh" {
			return false
		}
		ok := false
		for _, src := range g.copySources(x, x.node) {
			_ = src
		}
		for _, e := range g.effects() {
			if e.kind != "update" || !g.mayBe(e.m, x) {
				continue
			}
			il, _ := g.iterOf(e.k)
			if il == nil || il.kind != "map" || !l.body[il.header] {
				continue
			}
			dk := strings.TrimPrefix(g.K(g.single0(il.dom)), "&")
			if (dk == name || strings.HasPrefix(dk, name+".")) && g.perIteration(il, func(n *Node) bool { return n == e.n }) == nil {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(g.vals(v)) > 0
}

func (m *merge) inT(t *Term) bool {
	for _, v := range m.g.vals(t) {
		for _, x := range m.T {
			if v == x {
				return true
			}
		}
	}
	return false
}

func (m *merge) srcName(s *mergeSrc) string {
	if s.frag {
		return m.label() + "/fragments"
	}
	return m.label() + "/index"
}

// absentFile: a branch says that the file at a path does not exist.
func (g *Graph) absentFile(n *Node, path string) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	for _, call := range g.calls("os.Stat", "os.Lstat", "os.ReadFile", "os.Open") {
		if call.fr.thread == n.fr.thread && strings.Join(g.pathSegs(g.callArgs(call)[0]), "/") == path && g.saysMissing(n, call) {
			return true
		}
	}
	return false
}

type missKey struct {
	call *Node
	t    *Term
	pol  bool
	want bool
	d    int
}

// saysMissing: a branch outcome says that a call failed because the file does not exist.
func (g *Graph) saysMissing(b *Node, call *Node) bool { return g.saysMiss(b, call, true) }

// saysMiss: a branch outcome says that a call failed because the file does not exist, or (want false) that this is
// not so.
func (g *Graph) saysMiss(b *Node, call *Node, want bool) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	e := g.callErr(call, errResult(call.common().Signature()))
	if g.missMemo == nil {
		g.missMemo = map[missKey]bool{}
	}
	var rec, rec1 func(t *Term, pol bool, d int) bool
	rec = func(t *Term, pol bool, d int) bool {
		if d > 8 {
			return false
		}
		k := missKey{call, t, pol, want, d}
		v, ok := g.missMemo[k]
		if !ok {
			v = rec1(t, pol, d)
			g.missMemo[k] = v
		}
		return v
	}
	is := func(x *Term) bool { return x == e || g.one(x) == e || g.K(x) == g.K(e) }
	rec1 = func(t *Term, pol bool, d int) bool {
		switch t.op {
		case "un":
			if t.s == "!" {
				return rec(t.args[0], !pol, d+1)
			}
		case "call":
			switch t.s {
			case "os.IsNotExist":
				return pol == want && is(t.args[0])
			case "errors.Is":
				name := g.K(t.args[1])
				return pol == want && is(t.args[0]) && (strings.HasSuffix(name, "os.ErrNotExist") || strings.HasSuffix(name, "fs.ErrNotExist"))
			}
		case "bin":
			if t.s == "==" || t.s == "!=" {
				if !want && pol == (t.s == "==") && (isNilConst(t.args[0]) && is(t.args[1]) || isNilConst(t.args[1]) && is(t.args[0])) {
					return true // no error
				}
				for k := 0; k < 2; k++ {
					if isBoolConst(t.args[k], true) || isBoolConst(t.args[k], false) {
						return rec(t.args[1-k], pol == (isBoolConst(t.args[k], true) == (t.s == "==")), d+1)
					}
				}
			}
		case "phi", "ret", "load":
			// the result of a helper: each way to this answer goes through the answer "missing"
			cf := (*Frame)(nil)
			if t.op == "ret" {
				cf = t.node.callee
			}
			if cf != nil {
				hit := false
				for _, r := range cf.rets {
					v := g.retVal(cf, r, t.i)
					if isBoolConst(v, !pol) {
						continue
					}
					if isBoolConst(v, pol) {
						if !g.onlyIf(r, func(n *Node) bool { return n.kind == NBranch && !n.maybe && rec(g.cond(n), n.pol, d+1) }) {
							return false
						}
						hit = true
						continue
					}
					if !rec(v, pol, d+1) {
						return false
					}
					hit = true
				}
				return hit
			}
			as := g.alts(t)
			for _, a := range as {
				if isBoolConst(a, !pol) {
					continue
				}
				if !rec(a, pol, d+1) {
					return false
				}
			}
			return len(as) > 0
		}
		return false
	}
	return rec(g.cond(b), b.pol, 0)
}

// source decides that every posting of a file that is read gets into the map.
func (m *merge) source(s *mergeSrc) {
	c, g := m.c, m.g
	lab := m.srcName(s)
	where := g.where(s.rd.n)
	dones := map[*Node]bool{}
	why := "no loop goes through its terms"
	for _, l := range g.loops {
		if l.kind != "map" || l.header.fr.thread != m.th || g.one(l.dom) != g.one(s.data) && g.K(l.dom) != g.K(s.data) {
			continue
		}
		if w := m.terms(l); w != "" {
			why = w
			continue
		}
		dones[l.done] = true
	}
	if m.inT(s.data) { // the decoded map itself
		dones[s.rd.n] = true
	}
	if !c.check(len(dones) > 0, "every-posting", lab, where, why) {
		return
	}
	if s.frag {
		// each listed file
		l := s.files
		if !c.check(l != nil && l.kind == "slice" || l != nil && l.kind == "count", "every-fragment", lab, where, "it reads no list of fragments") {
			return
		}
		if w := m.listsFiles(s); !c.check(w == "", "every-fragment", lab, where, w) {
			return
		}
		p := g.perIterationErr(l, func(n *Node) bool { return dones[n] || g.notFile(n) }, m.failed)
		if !c.check(p == nil, "every-fragment", lab, where, "a fragment can be left out: "+g.pathText(p)) {
			return
		}
		p = g.find([]*Node{m.L.enter}, searchOpt{avoid: func(n *Node) bool { return n == l.done }, goal: func(n *Node) bool { return n == m.ser.node }})
		c.check(p == nil, "before-save", lab, where, "the index file may be written before the fragments are merged: "+g.pathText(p))
		return
	}
	p := g.find([]*Node{m.L.enter}, searchOpt{
		avoid: func(n *Node) bool { return dones[n] || g.absentFile(n, s.path) },
		goal:  func(n *Node) bool { return n == m.ser.node },
	})
	c.check(p == nil, "before-save", lab, where, "the index file may be written without what it had before: "+g.pathText(p))
}

// failed: the branch says that reading failed, which ends this merge.
func (m *merge) failed(n *Node) bool {
	for _, call := range m.g.calls("os.ReadFile") {
		if call.fr.thread == m.th && m.g.saysErr(n, call, true) {
			return true
		}
	}
	return false
}

// perIterationErr is perIteration for loops that a failure may end.
func (g *Graph) perIterationErr(l *Loop, event, failed func(*Node) bool) []*Node {
	if l.enter == nil {
		return []*Node{l.header}
	}
	return g.find([]*Node{l.enter}, searchOpt{
		avoid: func(n *Node) bool { return event(n) || failed(n) && !g.backTo(n, l) },
		goal:  func(n *Node) bool { return n == l.header || (!l.body[n] && !g.dying(n)) },
	})
}

// backTo tells whether the iterations go on after a node.
func (g *Graph) backTo(n *Node, l *Loop) bool {
	return g.find([]*Node{n}, searchOpt{goal: func(m *Node) bool { return m == l.header }, avoid: func(m *Node) bool {
		return l.parent != nil && m == l.parent.header
	}}) != nil
}

// notFile: the entry is a folder.
func (g *Graph) notFile(n *Node) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	t, pol := g.single0(g.cond(n)), n.pol
	for t.op == "un" && t.s == "!" {
		t, pol = g.single0(t.args[0]), !pol
	}
	return t.op == "call" && strings.HasSuffix(t.s, ").IsDir") && pol
}

// listsFiles decides that the loop over the fragments walks everything in the folder.
func (m *merge) listsFiles(s *mergeSrc) string {
	g := m.g
	l := s.files
	if l.dom == nil {
		return "it does not walk a listing"
	}
	return g.wholeListing(l, 0)
}

// wholeListing decides that a loop walks all files of a folder: its listing, or a list of names or paths made from it.
func (g *Graph) wholeListing(l *Loop, d int) string {
	if g.isListing(g.single0(l.dom)) && !g.cutSlice(l.dom) {
		return ""
	}
	ct, ok := g.contents(l.dom)
	if !ok || len(ct) == 0 || d > 3 {
		return "the names come from " + g.P(l.dom)
	}
	var inner *Loop
	put := map[*Node]bool{}
	for _, e := range ct {
		name := e.val
		if name != nil && g.entryName(name) == nil {
			// its path
			if j := g.single0(name); j.op == "call" && (j.s == "path/filepath.Join" || j.s == "path.Join") {
				if va, ok := g.varargs(j.args[0]); ok && len(va) > 1 {
					name = va[len(va)-1]
				}
			}
		}
		if name == nil || g.entryName(name) == nil {
			return "the names contain " + g.P(e.val)
		}
		put[e.node] = true
		for _, x := range g.loopsAround(e.node) {
			if x.kind == "slice" && (g.isListing(g.single0(x.dom)) || x != l && len(ct) == 1 && g.isElem(name, x)) {
				inner = x
				break
			}
		}
	}
	if inner == nil {
		return "the names are not made from a listing"
	}
	if !g.isListing(g.single0(inner.dom)) {
		if why := g.wholeListing(inner, d+1); why != "" {
			return why
		}
	}
	if g.cutSlice(l.dom) {
		return "it goes through a part of the names only"
	}
	if _, why := g.listOf(l.dom, l.header); why != "" {
		return "names are lost: " + why
	}
	if p := g.perIteration(inner, func(n *Node) bool { return put[n] || g.notFile(n) }); p != nil {
		return "a file can be left out of the list: " + g.pathText(p)
	}
	for n := range put {
		if p := g.find([]*Node{n}, searchOpt{avoid: func(x *Node) bool { return x == inner.header }, goal: func(x *Node) bool { return put[x] }}); p != nil {
			return "a file can be in the list twice, the second time it is gone: " + g.pathText(p)
		}
	}
	return ""
}

// givesObject finds the ways out of a constructor with an object.
func (g *Graph) givesObject() func(*Node, *env) bool {
	for _, r := range g.root.rets {
		if rs := r.in.(*ssa.Return).Results; len(rs) > 0 {
			g.watch(g.single0(g.term(g.root, rs[0])))
		}
	}
	return func(n *Node, e *env) bool {
		if n.kind != NInstr || n.fr != g.root || !isReturn(n) {
			return false
		}
		return !isNilConst(g.resolve(g.single0(g.term(g.root, n.in.(*ssa.Return).Results[0])), e))
	}
}

// terms decides that a loop over the terms of a source puts each of its documents into the set of the term.
func (m *merge) terms(l *Loop) string {
	g := m.g
	key := g.K(l.key)
	// loops that copy all documents of the term
	type inner struct {
		l *Loop
		o *Term // the set
	}
	var ins []inner
	for _, il := range g.loops {
		if il.kind != "map" || !l.body[il.header] || il == l {
			continue
		}
		if !m.isVal(l, il.dom) {
			continue
		}
		for _, e := range g.effects() {
			if e.kind != "update" || !il.body[e.n] || g.K(e.k) != g.K(il.key) {
				continue
			}
			if !isBoolConst(g.single0(e.v), true) && g.K(g.single0(e.v)) != g.K(il.dom)+"["+g.K(il.key)+"]" {
				return "the document is not in the set afterwards: it is put there with " + g.P(e.v)
			}
			if p := g.perIteration(il, func(n *Node) bool {
				if n == e.n {
					return true
				}
				h, k := g.branchHas(n)
				return h != nil && e.m != nil && g.K(k) == g.K(il.key) && (g.sameCont(e.m, h) || g.K(h) == g.K(e.m))
			}); p != nil {
				return "a document can be left out: " + g.pathText(p)
			}
			ins = append(ins, inner{il, e.m})
		}
	}
	direct := map[*Node]bool{}
	stored := func(o *Term) func(n *Node) bool {
		return func(n *Node) bool {
			for _, e := range g.effects() {
				if e.n == n && e.kind == "update" && m.inT(e.m) && g.K(e.k) == key && m.sameSet(e.v, o) {
					return true
				}
			}
			if n.kind == NBranch && m.hasTerm(n, key) {
				return m.lookedUp(o, key)
			}
			return false
		}
	}
	for _, e := range g.effects() {
		// the decoded set itself becomes the set of the term
		if e.kind == "update" && l.body[e.n] && m.inT(e.m) && g.K(e.k) == key && m.entryDataOf(l, e.v) {
			direct[e.n] = true
		}
	}
	if len(ins) == 0 && len(direct) == 0 {
		return "no loop goes through the documents of a term"
	}
	ok := map[*Node]bool{}
	why := ""
	for _, in := range ins {
		if p := g.perIteration(l, func(n *Node) bool { return stored(in.o)(n) }); p != nil {
			// it may be another branch: the set must be stored whenever this loop runs
			before := g.find([]*Node{l.enter}, searchOpt{avoid: stored(in.o), goal: func(n *Node) bool { return n == in.l.done }}) != nil
			after := g.find([]*Node{in.l.done}, searchOpt{avoid: stored(in.o), goal: func(n *Node) bool { return n == l.header }}) != nil
			if before && after && !m.allLookedUp(in.o, key) {
				why = "the set with the documents may not be the set of the term: " + g.pathText(p)
				continue
			}
		}
		ok[in.l.done] = true
	}
	if why != "" && len(ok) == 0 && len(direct) == 0 {
		return why
	}
	if p := g.perIteration(l, func(n *Node) bool { return ok[n] || direct[n] }); p != nil {
		if why != "" {
			return why
		}
		return "a term can be left out: " + g.pathText(p)
	}
	return ""
}

// isVal: the term is what the map of the loop has under its key.
func (m *merge) isVal(l *Loop, t *Term) bool {
	g := m.g
	name := g.K(l.dom) + "[" + g.K(l.key) + "]"
	k := g.K(g.single0(t))
	if k == name || l.val != nil && k == g.K(l.val) {
		return true
	}
	s := g.single0(t)
	return s.op == "lookup" && g.K(s.args[1]) == g.K(l.key) && g.K(g.one(s.args[0])) == g.K(g.one(l.dom))
}

func (m *merge) entryDataOf(l *Loop, v *Term) bool {
	return m.isVal(l, v) || len(m.g.vals(v)) > 0 && m.entryData(l, v) && !m.isFreshSet(v)
}

func (m *merge) isFreshSet(v *Term) bool { return !isMap(v.typ) }

// setOf strips the way from a set to its documents.
func (m *merge) setOf(t *Term) *Term {
	g := m.g
	t = g.single0(t)
	for i := 0; i < 4; i++ {
		switch t.op {
		case "load":
			if t.args[0].op == "fieldaddr" {
				return g.single0(t.args[0].args[0])
			}
		case "field":
			return g.single0(t.args[0])
		case "init":
			if t.args[0].op == "fieldaddr" {
				return g.single0(t.args[0].args[0])
			}
		}
		break
	}
	return t
}

// sameSet tells whether the value stored for a term is the set whose documents are filled.
func (m *merge) sameSet(v, docs *Term) bool {
	g := m.g
	a, b := g.single0(v), m.setOf(docs)
	if a == b || g.K(a) == g.K(b) {
		return true
	}
	// all it can be
	bs := g.vals(b)
	for _, x := range g.vals(a) {
		for _, y := range bs {
			if x == y && x.op == "fresh" {
				return true
			}
		}
	}
	// the documents are the map a new set was made with
	for _, x := range g.vals(a) {
		if x.op == "fresh" {
			for _, y := range g.vals(docs) {
				if y.op == "fresh" && (x == y || g.holds(x, y) || g.storedIn(x, y)) {
					return true
				}
			}
		}
	}
	return false
}

// storedIn: a part of the object x is set to y.
func (g *Graph) storedIn(x, y *Term) bool {
	for _, n := range g.storesTo(x) {
		st, ok := n.in.(*ssa.Store)
		if !ok || n.kind != NInstr {
			continue
		}
		for _, v := range g.vals(g.term(n.fr, st.Val)) {
			if v == y {
				return true
			}
		}
	}
	return false
}

func (m *merge) hasTerm(n *Node, key string) bool {
	g := m.g
	if n.maybe {
		return false
	}
	t, pol := g.single0(g.cond(n)), n.pol
	for t.op == "un" && t.s == "!" {
		t, pol = g.single0(t.args[0]), !pol
	}
	if t.op == "lookupok" {
		return pol && m.inT(t.args[0]) && g.K(t.args[1]) == key
	}
	if t.op == "bin" && (t.s == "==" || t.s == "!=") {
		for i := 0; i < 2; i++ {
			x := g.single0(t.args[i])
			if isNilConst(t.args[1-i]) && x.op == "lookup" && m.inT(x.args[0]) && g.K(x.args[1]) == key {
				return pol == (t.s == "!=")
			}
		}
	}
	return false
}

// lookedUp: one of the values of the set is the one the map has for the term; allLookedUp: all are.
func (m *merge) lookedUp(docs *Term, key string) bool { return m.lookups(docs, key, false) }

func (m *merge) allLookedUp(docs *Term, key string) bool { return m.lookups(docs, key, true) }

func (m *merge) lookups(docs *Term, key string, all bool) bool {
	g := m.g
	one := false
	for _, v := range g.vals(m.setOf(docs)) {
		if v.op == "lookup" && m.inT(v.args[0]) && g.K(v.args[1]) == key {
			one = true
			continue
		}
		if all {
			return false
		}
	}
	return one
}

// kept decides that nothing replaces the set of a term or removes it once it may hold postings.
func (m *merge) kept() {
	c, g := m.c, m.g
	var ups []Eff
	for _, e := range g.effects() {
		if e.n.fr.thread != m.th || e.m == nil || e.kind == "store" || !m.inT(e.m) {
			continue
		}
		if e.kind != "update" {
			c.bad("kept", m.label(), g.where(e.n), "it removes a term")
			continue
		}
		ups = append(ups, e)
	}
	for _, e := range ups {
		where := g.where(e.n)
		key := g.K(e.k)
		bad := ""
		for _, v := range g.vals(e.v) {
			if v.op == "lookup" && m.inT(v.args[0]) && g.K(v.args[1]) == key {
				continue
			}
			// a new set: the term had none
			if m.newOnly(e, v, key) {
				continue
			}
			// or this is the first thing put into the map
			first := true
			for _, o := range ups {
				if o.n == e.n {
					continue
				}
				if g.find([]*Node{o.n}, searchOpt{goal: func(n *Node) bool { return n == e.n }, avoid: func(n *Node) bool { return n == m.L.header }}) != nil {
					first = false
				}
			}
			if l, _ := g.iterOf(e.k); first && l != nil && l.kind == "map" && l.body[e.n] {
				// once per fragment is not first
				out := l.parent
				if out == m.L || out == nil || out.body[m.L.header] {
					continue
				}
			}
			bad = "the set of a term is replaced by " + g.P(v) + ", what was merged before is lost"
		}
		c.check(bad == "", "kept", m.label(), where, bad)
	}
	// the map itself is new for every field
	for _, t := range m.T {
		c.check(t.node != nil && m.L.body[t.node], "own-map", m.label(), g.where(m.rn.n), "the map is shared by all fields: postings of one field get into the index of the next")
	}
}

// newOnly: the value is stored only when the term has no set yet (or is the one looked up otherwise).
func (m *merge) newOnly(e Eff, v *Term, key string) bool {
	g := m.g
	absent := func(n *Node) bool {
		if n.kind != NBranch || n.maybe {
			return false
		}
		t, pol := g.single0(g.cond(n)), n.pol
		for t.op == "un" && t.s == "!" {
			t, pol = g.single0(t.args[0]), !pol
		}
		if t.op == "lookupok" {
			return !pol && m.inT(t.args[0]) && g.K(t.args[1]) == key
		}
		if t.op == "bin" && (t.s == "==" || t.s == "!=") {
			for i := 0; i < 2; i++ {
				x := g.single0(t.args[i])
				if isNilConst(t.args[1-i]) && x.op == "lookup" && m.inT(x.args[0]) && g.K(x.args[1]) == key {
					return pol == (t.s == "==")
				}
			}
		}
		return false
	}
	if v.node == nil {
		return false
	}
	return g.onlyIf(v.node, absent) || g.onlyIf(e.n, absent)
}

// savedAll decides that the saved map gets every term of the merged one, after the merge.
func (m *merge) savedAll() {
	c, g := m.c, m.g
	d := m.ser.args[0]
	if m.inT(d) {
		c.ok("saved-whole", m.label(), g.where(m.write.n), "")
		return
	}
	why := "no loop copies it"
	ok := false
	for _, e := range g.effects() {
		if e.kind != "update" || e.n.fr.thread != m.th || !g.mayBe(e.m, g.one(d)) {
			continue
		}
		l, _ := g.iterOf(e.k)
		if l == nil || !m.inT(l.dom) || !m.entryData(l, e.v) {
			why = "it gets " + g.P(e.v)
			continue
		}
		if p := g.perIteration(l, func(n *Node) bool { return n == e.n }); p != nil {
			why = "a term can be left out: " + g.pathText(p)
			continue
		}
		// nothing is merged after it, and it always runs
		late := ""
		for _, u := range g.effects() {
			if u.kind != "update" || u.n.fr.thread != m.th || !m.L.body[u.n] {
				continue
			}
			if !m.inT(u.m) {
				continue
			}
			if p := g.find([]*Node{u.n}, searchOpt{avoid: func(n *Node) bool { return n == l.done || n == m.L.header }, goal: func(n *Node) bool { return n == m.ser.node }}); p != nil {
				late = "it is saved before everything is merged: " + g.pathText(p)
			}
		}
		if p := g.find([]*Node{m.L.enter}, searchOpt{avoid: func(n *Node) bool { return n == l.done }, goal: func(n *Node) bool { return n == m.ser.node }}); p != nil {
			late = "it may be saved empty: " + g.pathText(p)
		}
		if late != "" {
			why = late
			continue
		}
		ok = true
	}
	fr := g.one(d)
	if ok && (fr.node == nil || !m.L.body[fr.node]) {
		ok, why = false, "the map that is saved is shared by all fields"
	}
	c.check(ok, "saved-whole", m.label(), g.where(m.write.n), "not everything that was merged is saved: "+why)
}

// result decides that the merged map is returned under the name of the field.
func (m *merge) result() {
	c, g := m.c, m.g
	if m.th.spawn != nil {
		return // nobody uses it
	}
	elem := m.rn.path[0]
	ok := false
	why := "it is put nowhere"
	put := map[*Node]bool{}
	for _, e := range g.effects() {
		if e.kind != "update" || !m.inT(e.v) || e.n.fr.thread != m.th || m.inT(e.m) {
			continue
		}
		if w := g.decodedName(e.k, elem.t); w != "" {
			why = w
			continue
		}
		m.uses = append(m.uses, mapUse{e.v, e.n})
		put[e.n] = true
		ok = true
	}
	if ok {
		if p := g.perIterationErr(m.L, func(n *Node) bool { return put[n] }, m.anyFailed); p != nil {
			ok, why = false, "a field can be left out: "+g.pathText(p)
		}
	}
	c.check(ok, "returned", m.label(), g.where(m.rn.n), "the merged index is not returned under the name of its field: "+why)
}

func (m *merge) anyFailed(n *Node) bool {
	if m.failed(n) {
		return true
	}
	for _, call := range m.g.calls("os.WriteFile", "os.Rename", "os.Remove") {
		if call.fr.thread == m.th && m.g.saysErr(n, call, true) {
			return true
		}
	}
	return false
}

// decodedName decides that a key is the name that a listed folder was made from.
func (g *Graph) decodedName(k, folder *Term) string {
	k = g.single0(k)
	if k.op == "call" && k.s == origName && g.K(g.single0(k.args[0])) == g.K(g.single0(folder)) {
		return ""
	}
	return "the name is " + g.P(k)
}

// deletes decides that a fragment is removed only after the file with its postings was saved, and only when it was
// read in this merge.
func (m *merge) deletes(rule string) {
	c, g := m.c, m.g
	ops := g.fileOps()
	n := 0
	for _, o := range ops {
		if (o.kind != "remove" && o.kind != "removeall") || o.n.fr.thread != m.th {
			continue
		}
		where := g.where(o.n)
		if o.kind == "remove" && g.K(o.t) == g.K(m.write.t) {
			// the file that was to be renamed, and cannot be
			p := g.find([]*Node{m.L.enter}, searchOpt{
				avoid: func(x *Node) bool { return g.saysErr(x, m.write.n, true) || x == m.rn.n },
				goal:  func(x *Node) bool { return x == o.n },
			})
			c.check(p == nil, rule, m.label(), where, "the merged file is removed before it is put in place: "+g.pathText(p))
			continue
		}
		n++
		if o.kind == "removeall" {
			c.bad(rule, m.label(), where, "it removes everything in "+o.shape()+", also what was not merged")
			continue
		}
		p := g.find([]*Node{m.L.enter}, searchOpt{
			avoid: func(x *Node) bool { return g.saysErr(x, m.rn.n, false) },
			goal:  func(x *Node) bool { return x == o.n },
		})
		if p != nil || !m.L.body[o.n] {
			c.bad(rule, m.label(), where, "a fragment is removed although the index file with its postings may not be saved: "+g.pathText(p))
			continue
		}
		// it is one that was read
		okr := false
		why := "it was not read in this merge"
		path := strings.Join(g.pathSegs(o.t), "/")
		for _, s := range m.srcs {
			if !s.frag || s.files == nil {
				continue
			}
			dl := g.loopOf[o.n]
			for dl != nil && dl != m.L && dl.dom == nil {
				dl = dl.parent
			}
			if dl == nil || dl == m.L || dl.dom == nil {
				continue
			}
			if dl != s.files && !g.sameCont(dl.dom, s.files.dom) {
				why = "it removes what another listing has"
				continue
			}
			a, b := g.pathTerms(o.t), g.pathTerms(s.rd.rd.args[0])
			same := len(a) == len(b)
			for i := 0; same && i < len(a)-1; i++ {
				same = g.K(a[i]) == g.K(b[i])
			}
			if !same {
				why = "it removes " + path + ", but " + s.path + " was read"
				continue
			}
			okr = true
		}
		c.check(okr, rule, m.label(), where, why)
	}
	if rule == "deleted" {
		c.check(n > 0, "deleted", m.label(), g.where(m.rn.n), "merged fragments are never removed")
	}
}

// ---- C11 ----------------------------------------------------------------------------------------------------

func ruleC11(c *Ctx) {
	g, ws := c.diskWriters()
	if g == nil {
		return
	}
	var b *Backend
	for _, x := range c.backends() {
		if x.name == "Disk" {
			b = x
		}
	}
	if b == nil || !b.roles(true) {
		c.bad("anchor", "Disk", "storage", "the parts of the disk store are not recognized")
		return
	}
	// returns of the store
	isStore := g.givesObject()
	l := &opening{c: c, g: g, b: b}
	for _, x := range []struct{ name, slot, kind, part string }{
		{"field sizes", b.size, "metrics", "1"}, {"field lengths", b.length, "metrics", "2"},
		{"term counts", b.nf, "nfterm", ""}, {"index", b.index, "index", ""},
	} {
		l.loaded(x.name, strings.TrimPrefix(rootField(x.slot), "$0."), x.kind, x.part)
	}
	c.check(true, "opening", "NewDiskStore", g.where(g.root.entry), "")
	c.founded(g, "only-failures", "NewDiskStore")
	c.ownEntries(g, "own-entries", "NewDiskStore", func(n *Node) bool { return n.fr.thread == g.root.thread })
	c.foldersThere(g, "folders", func(n *Node) bool { return n.fr.thread == g.root.thread })
	c.newFiles(g, "new-field", "NewDiskStore", func(n *Node) bool { return n.fr.thread == g.root.thread })
	// writers
	kinds := map[string][]*diskWriter{}
	for _, w := range ws {
		kinds[w.kind] = append(kinds[w.kind], w)
	}
	for _, k := range []string{"metrics", "nfterm", "index", "doc"} {
		if !c.check(len(kinds[k]) == 1, "writer-once", k, g.where(g.root.entry), "not exactly one background writer of this kind is started") {
			continue
		}
		w := kinds[k][0]
		th := w.th
		for th.spawn != nil && th.spawn.fr.thread.spawn != nil {
			th = th.spawn.fr.thread
		}
		p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return n == th.spawn }, goalE: isStore})
		c.check(p == nil, "writer-started", k, g.where(th.spawn), "the store can be opened without it: "+g.pathText(p))
		c.check(!g.many(w.th), "writer-once", k+"/loop", g.where(th.spawn), "it may be started several times")
		fed := w.field != "" && b.sendsOn(w.field)
		c.check(fed, "writer-queue", k, g.where(th.spawn), "no operation of the store sends to the queue it receives from")
		out := g.find([]*Node{w.th.entry}, searchOpt{goal: func(n *Node) bool { return n == w.th.exit }})
		c.check(out == nil, "writer-stays", k, g.where(th.spawn), "it can end: "+g.pathText(out))
	}
	// failures
	for _, o := range g.fileOps() {
		if o.n.fr.thread.spawn != nil || o.kind == "stat" || o.kind == "rename-to" {
			continue
		}
		n := o.n
		p := g.find([]*Node{n}, searchOpt{
			start: g.failedEnv(n),
			avoid: func(x *Node) bool { return g.saysErr(x, n, false) || g.saysMissing(x, n) },
			goalE: func(x *Node, en *env) bool {
				return isStore(x, en) && g.normalReturn(x, en)
			},
		})
		c.check(p == nil, "fails", o.kind+" "+o.shape(), g.where(n), "the store is opened although this failed: "+g.pathText(p))
	}
	for _, m := range c.merges() {
		if m.th.spawn == nil {
			m.decideAs(false)
		}
	}
	l.mergeLoop()
}

// failedEnv is what is known after a call failed.
func (g *Graph) failedEnv(n *Node) *env {
	en := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
	i := errResult(n.common().Signature())
	if i < 0 {
		return en
	}
	if e := g.callErr(n, i); e != nil {
		nil_ := g.mk(&Term{op: "const", s: "nil", typ: types_error()})
		en.facts[g.mk(&Term{op: "bin", s: "==", args: []*Term{e, nil_}, typ: types_bool()})] = false
	}
	return en
}

// sendsOn tells whether a save operation sends on the queue in a field of the store.
func (b *Backend) sendsOn(field string) bool {
	for _, m := range sortedMethods(b.methods) {
		g := b.graph(m)
		if g == nil {
			continue
		}
		for _, n := range g.liveNodes {
			if s, ok := n.in.(*ssa.Send); ok && n.kind == NInstr {
				if g.P(g.term(n.fr, s.Chan)) == "$0."+field {
					return true
				}
			}
		}
	}
	return false
}

type opening struct {
	c *Ctx
	g *Graph
	b *Backend
}

// isStore tells whether an object is the one that the constructor gives.
func (l *opening) isStore(obj *Term) bool {
	for _, r := range l.g.rootResults(0) {
		v := r.v
		if v.op == "iface" {
			v = l.g.single0(v.args[0])
		}
		if v == obj {
			return true
		}
	}
	return false
}

// loaded decides that a part of the store starts with what is on disk for every field.
func (l *opening) loaded(name, field, kind, part string) {
	c, g := l.c, l.g
	where := g.where(g.root.entry)
	var val *Term
	for _, n := range g.liveNodes {
		st, ok := n.in.(*ssa.Store)
		if !ok || n.kind != NInstr || n.fr.thread.spawn != nil {
			continue
		}
		a := g.term(n.fr, st.Addr)
		if a.op != "fieldaddr" || a.s != field {
			continue
		}
		if obj := g.single0(a.args[0]); obj.op == "fieldaddr" || obj.op == "fresh" && !l.isStore(obj) {
			continue // a part of another object with that name
		}
		val = g.term(n.fr, st.Val)
		where = g.where(n)
	}
	if !c.check(val != nil, "loaded", name, where, "the store starts without it") {
		return
	}
	var R *Term
	for _, v := range g.vals(val) {
		if isNilConst(v) {
			continue
		}
		if R != nil && R != v {
			c.bad("loaded", name, where, "it may be "+g.P(R)+" or "+g.P(v))
			return
		}
		R = v
	}
	if !c.check(R != nil && R.op == "fresh", "loaded", name, where, "it is "+g.P(val)) {
		return
	}
	var reads []dataRead
	for _, r := range c.dataReads([]*Graph{g}, false) {
		if r.kind == kind && r.n.fr.thread.spawn == nil {
			reads = append(reads, r)
		}
	}
	put := map[*Node]bool{}
	var L *Loop
	var path string
	for _, e := range g.effects() {
		if e.m == nil || !g.mayBe(e.m, R) || e.n.fr.thread.spawn != nil {
			continue
		}
		ew := g.where(e.n)
		if !c.check(e.kind == "update", "loaded", name, ew, "it removes what was loaded") {
			continue
		}
		lp := g.folderLoop(e.n)
		if !c.check(lp != nil, "loaded", name, ew, "it is not filled for every folder") {
			continue
		}
		why := "its value is " + g.P(e.v)
		for _, r := range reads {
			if !lp.body[r.n] && !lp.body[r.rd.node] {
				continue
			}
			if w := l.from(r, e, part); w == "" {
				why = ""
				path = strings.Join(g.pathSegs(r.rd.args[0]), "/")
			} else if why != "" {
				why = w
			}
		}
		if !c.check(why == "", "loaded", name, ew, why) {
			continue
		}
		put[e.n] = true
		L = lp
	}
	if !c.check(len(put) > 0, "loaded", name, where, "nothing is loaded into it") {
		return
	}
	if w := g.overFolders(L); !c.check(w == "", "loaded", name+"/folders", g.where(L.header), w) {
		return
	}
	failed := func(n *Node) bool {
		for _, call := range g.calls("os.ReadFile", "os.WriteFile", "os.Rename", "os.Remove", "os.Open") {
			if call.fr.thread.spawn == nil && g.saysErr(n, call, true) {
				return true
			}
		}
		return false
	}
	p := g.perIterationErr(L, func(n *Node) bool { return put[n] || g.absentFile(n, path) || g.notField(n) }, failed)
	c.check(p == nil, "loaded", name+"/every-field", g.where(L.header), "a field on disk can be left out: "+g.pathText(p))
	p = g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return n == L.done }, goalE: g.givesObject()})
	c.check(p == nil, "loaded", name+"/before", g.where(L.header), "the store can be opened without loading: "+g.pathText(p))
}

func isReturn(n *Node) bool { _, ok := n.in.(*ssa.Return); return ok }

// folderLoop is the loop over the folders around a node.
func (g *Graph) folderLoop(n *Node) *Loop {
	for _, l := range g.loopsAround(n) {
		if l.kind == "slice" && (g.isListing(g.single0(l.dom)) || g.overFolders(l) == "") {
			return l
		}
	}
	return nil
}

// from decides that what is put under a key was read from the folder of that name.
func (l *opening) from(r dataRead, e Eff, part string) string {
	g := l.g
	ops := g.fileOps()
	var op *fileOp
	for _, o := range ops {
		if o.n == r.rd.node && o.kind == "read" {
			op = o
		}
	}
	if op == nil || len(op.path) == 0 || op.path[0].kind != "listed" {
		return "it is read from " + strings.Join(g.pathSegs(r.rd.args[0]), "/")
	}
	folder := op.path[0].t
	key := g.decodedName(e.k, folder)
	if key != "" && part != "" {
		// the name in the file
		k := g.single0(e.k)
		if k.op == "res" && k.i == 0 && g.K(k.args[0]) == g.K(g.callOf(r.n)) {
			key = ""
		}
	}
	if key != "" {
		return key
	}
	if part != "" {
		v := g.bare(e.v)
		if v.op == "res" && itoa(v.i) == part && g.K(v.args[0]) == g.K(g.callOf(r.n)) {
			return ""
		}
		return "the value is " + g.P(e.v)
	}
	if r.kind == "index" {
		return "" // C10
	}
	// the decoded map, or an empty one
	hit := false
	for _, v := range g.vals(e.v) {
		if v.op == "call" && g.K(v) == g.K(g.callOf(r.n)) {
			hit = true
			continue
		}
		if isNilConst(v) {
			continue
		}
		if v.op == "fresh" {
			if _, ok := v.v.(*ssa.MakeMap); ok && g.onlyMissing(v, e, r) {
				continue
			}
		}
		return "the value may be " + g.P(v)
	}
	if !hit {
		return "the value is " + g.P(e.v)
	}
	return ""
}

// callOf is the term of a call with all its results.
func (g *Graph) callOf(n *Node) *Term {
	v := n.in.(*ssa.Call)
	return g.callTerm(n.fr, n, v.Common(), v.Type())
}

// onlyMissing: an empty map stands only for a missing file.
func (g *Graph) onlyMissing(f *Term, e Eff, r dataRead) bool {
	path := strings.Join(g.pathSegs(r.rd.args[0]), "/")
	if g.onlyIf(f.node, func(n *Node) bool { return g.absentFile(n, path) }) {
		return true
	}
	// or it is filled from the decoded map
	for _, src := range g.copySources(f, e.n) {
		if src == g.P(g.callOf(r.n)) {
			return true
		}
	}
	return false
}

// mergeLoop decides that merging goes on for ever, whatever fails.
func (l *opening) mergeLoop() {
	c, g := l.c, l.g
	n := 0
	for _, m := range c.merges() {
		if m.th.spawn == nil {
			continue
		}
		n++
		th := m.th
		where := g.where(th.spawn)
		var outer *Loop
		for _, x := range g.loopsAround(m.L.header) {
			if x != m.L && x.body[m.L.header] {
				outer = x
			}
		}
		if !c.check(outer != nil, "merge-goes-on", "loop", where, "the merge is not repeated") {
			continue
		}
		p := g.find([]*Node{th.entry}, searchOpt{goal: func(x *Node) bool { return x == th.exit }})
		c.check(p == nil, "merge-goes-on", "survives", where, "merging can end: "+g.pathText(p))
		c.check(!g.many(th), "merge-goes-on", "once", where, "several merges run at the same time")
		// every round waits and merges
		waits := func(x *Node) bool {
			switch x.callName() {
			case "time.Sleep":
				return true
			}
			return g.waitsOnTicker(x)
		}
		p = g.find([]*Node{outer.header}, searchOpt{avoid: waits, goal: func(x *Node) bool { return x == outer.header }})
		c.check(p == nil, "merge-goes-on", "waits", where, "a round may not wait: "+g.pathText(p))
		p = g.find([]*Node{outer.header}, searchOpt{avoid: func(x *Node) bool { return m.L.body[x] || x == m.L.done || x == m.L.header }, goal: func(x *Node) bool { return x == outer.header }})
		c.check(p == nil, "merge-goes-on", "merges", where, "a round may not merge: "+g.pathText(p))
		// the store is not opened without it
		p = g.find([]*Node{g.root.entry}, searchOpt{avoid: func(x *Node) bool { return x == th.spawn }, goalE: g.givesObject()})
		c.check(p == nil, "merge-goes-on", "started", where, "the store can be opened without it: "+g.pathText(p))
		// a failed merge does not stop the process
		for _, o := range g.fileOps() {
			if o.n.fr.thread != th {
				continue
			}
			switch o.kind {
			case "read", "write", "rename-from", "remove":
			default:
				continue
			}
			p := g.find([]*Node{o.n}, searchOpt{
				start: g.failedEnv(o.n),
				avoid: func(x *Node) bool { return g.saysErr(x, o.n, false) || x == outer.header },
				goal: func(x *Node) bool {
					cc := x.common()
					return cc != nil && isNoReturn(cc)
				},
			})
			c.check(p == nil, "merge-goes-on", "fails/"+o.kind+" "+o.shape(), g.where(o.n), "when this fails the process ends: "+g.pathText(p))
		}
	}
	c.check(n > 0, "merge-goes-on", "goroutine", g.where(g.root.entry), "fragments are merged only when the store is opened")
}

// isTimer: the channel is one of package time, which never closes it.
func (g *Graph) isTimer(t *Term) bool {
	t = g.single0(t)
	if t.op == "field" && t.s == "C" {
		t = g.single0(t.args[0])
	}
	if t.op == "res" || t.op == "load" {
		t = g.single0(t.args[0])
	}
	k := g.K(t)
	for _, f := range []string{"time.NewTicker", "time.After", "time.Tick", "time.NewTimer"} {
		if strings.Contains(k, f) {
			return true
		}
	}
	return false
}

// waitsOnTicker: it receives from a timer.
func (g *Graph) waitsOnTicker(x *Node) bool {
	if x.kind != NInstr {
		return false
	}
	isTimer := g.isTimer
	switch in := x.in.(type) {
	case *ssa.UnOp:
		return in.Op.String() == "<-" && isTimer(g.term(x.fr, in.X))
	case *ssa.Select:
		if !in.Blocking {
			return false
		}
		for _, s := range in.States {
			if !isTimer(g.term(x.fr, s.Chan)) {
				return false
			}
		}
		return true
	case *ssa.Next:
		it := g.term(x.fr, in.Iter)
		return it.op == "range" && isTimer(it.args[0])
	}
	return false
}

func init() {
	register("C10", 1, "", ruleC10)
	register("C11", 1, "", ruleC11)
}
