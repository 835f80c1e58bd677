package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	lruGet   = "(*" + Module + "/cache.LRUCache[T]).Get"
	lruPut   = "(*" + Module + "/cache.LRUCache[T]).Put"
	dsPrefix = Module + "/storage.Deserialize"
	unzip    = Module + "/file.DecompressData"
	zip      = Module + "/file.CompressData"
	safeName = Module + "/file.SafeName"
	origName = Module + "/file.OriginalName"
)

// DocSource is a place from which all fields of one document can be read.
type DocSource struct {
	kind  string // map, cache, file
	name  string // name of the map of fields
	node  *Node  // call that reads it
	cache string // name of the cache or map
	path  []string
}

// docSource recognises a term as the fields of the document whose id is named id.
func (g *Graph) docSource(t *Term, id string) *DocSource {
	t = g.one(t)
	switch t.op {
	case "lookup":
		m := g.deref(t.args[0], true)
		if g.P(t.args[1]) == id && strings.HasPrefix(m, "$0.") && !strings.ContainsAny(m, "[(") {
			return &DocSource{kind: "map", name: m + "[" + id + "]", cache: m, node: t.node}
		}
	case "load", "init":
		return g.docSource1(t, id)
	case "res", "call":
		return g.docSource1(t, id)
	}
	return nil
}

// docSourceAt is the source of the document that a value is when a node is reached: what is decided on the way there
// (a flag that tells where it came from) leaves out the other sources.
func (g *Graph) docSourceAt(t *Term, id string, at *Node) *DocSource {
	if s := g.docSource(t, id); s != nil {
		return s
	}
	var out *DocSource
	for _, v := range g.valuesAt(t, at) {
		s := g.docSource(v, id)
		if s == nil || out != nil && out.kind != s.kind {
			return nil
		}
		out = s
	}
	return out
}

// valuesAt are the values that a term can have on the ways that reach a node.
func (g *Graph) valuesAt(t *Term, at *Node) []*Term {
	g.watch(t)
	var out []*Term
	seen := map[*Term]bool{}
	g.find([]*Node{at.fr.thread.entry}, searchOpt{goalE: func(n *Node, en *env) bool {
		if n == at {
			if v := g.single0(g.resolve(g.single0(t), en)); !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
		return false
	}})
	return out
}

func (g *Graph) docSource1(t *Term, id string) *DocSource {
	c := t
	for c.op == "init" || c.op == "load" || (c.op == "res" && c.i == 0) {
		if c.op == "load" {
			if v := g.single(c); v != nil && v != c {
				c = v
				continue
			}
		}
		c = g.one(c.args[0])
	}
	if c.op != "call" {
		return nil
	}
	switch {
	case c.s == lruGet && len(c.args) == 2:
		if g.P(c.args[1]) == id {
			return &DocSource{kind: "cache", name: g.deref(t, true), cache: g.deref(c.args[0], true), node: c.node}
		}
	case strings.HasPrefix(c.s, dsPrefix) && len(c.args) == 1:
		rd := g.readOf(c.args[0])
		if rd == nil {
			return nil
		}
		segs := g.pathSegs(rd.args[0])
		if len(segs) > 1 && segs[len(segs)-1] == safeName+"("+id+")" {
			return &DocSource{kind: "file", name: g.deref(t, true), node: rd.node, path: segs}
		}
	}
	return nil
}

// one is the only value, besides nil, that t can stand for; element loads stay as they are.
func (g *Graph) one(t *Term) *Term {
	t = g.single0(t)
	if g.alts(t) == nil || (t.op == "load" && innerIndex(t.args[0]) != nil) {
		return t
	}
	var out *Term
	for _, v := range g.vals(t) {
		if isNilConst(v) {
			continue
		}
		if out != nil && out != v {
			return t
		}
		out = v
	}
	if out == nil {
		return t
	}
	return out
}

// readOf is the os.ReadFile call whose (decompressed) content a term is.
func (g *Graph) readOf(t *Term) *Term {
	t = g.one(t)
	if t.op == "call" && t.s == unzip {
		t = g.one(t.args[0])
	}
	if t.op == "res" && t.i == 0 {
		t = g.one(t.args[0])
	}
	if t.op == "call" && t.s == "os.ReadFile" {
		return t
	}
	return nil
}

// saysErr tells whether a branch outcome says that the error of a call is there (want) or not.
func (g *Graph) saysErr(b *Node, call *Node, want bool) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	return g.condErr(g.cond(b), b.pol, call, want, 0)
}

func (g *Graph) condErr(c *Term, pol bool, call *Node, want bool, d int) bool {
	if d > 6 {
		return false
	}
	c = g.single0(c)
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op == "call" && len(c.args) >= 1 {
		// os.IsNotExist(err), errors.Is(err, x): true says that there is an error
		switch c.s {
		case "os.IsNotExist", "os.IsPermission", "os.IsExist", "errors.Is", "errors.As":
			return pol && want && g.errOf(c.args[0]) == call
		}
	}
	if c.op != "bin" || (c.s != "==" && c.s != "!=") {
		return false
	}
	x := c.args[0]
	if isNilConst(x) {
		x = c.args[1]
	} else if !isNilConst(c.args[1]) {
		return false
	}
	there := (c.s == "!=") == pol
	return there == want && g.errOf(x) == call
}

// errOf is the call whose error result a term is (itself or wrapped), nil when it is not one call's.
func (g *Graph) errOf(t *Term) *Node {
	var node *Node
	for _, v := range g.vals(t) {
		n := g.errOf1(v, 0)
		if n == nil {
			if isNilConst(v) {
				continue
			}
			return nil
		}
		if node != nil && node != n {
			return nil
		}
		node = n
	}
	return node
}

func (g *Graph) errOf1(v *Term, d int) *Node {
	if d > 5 {
		return nil
	}
	switch v.op {
	case "res":
		if c := g.single0(v.args[0]); c.op == "call" && types.Identical(v.typ, types.Universe.Lookup("error").Type()) {
			return c.node
		}
	case "call":
		if v.s == "fmt.Errorf" || v.s == "errors.Join" {
			els, ok := g.varargs(v.args[len(v.args)-1])
			if !ok {
				return nil
			}
			for _, e := range els {
				for _, x := range g.vals(e) {
					for x.op == "iface" || x.op == "conv" {
						x = x.args[0]
					}
					if n := g.errOf(x); n != nil {
						return n
					}
				}
			}
			return nil
		}
		if v.typ != nil && types.Identical(v.typ, types.Universe.Lookup("error").Type()) {
			return v.node
		}
	}
	return nil
}

// ---- C03 ----------------------------------------------------------------------------------------------------

func ruleC03(c *Ctx) {
	for _, b := range c.backends() {
		b.roles(true)
		srcs := b.fields()
		b.docTest()
		if len(srcs) == 0 {
			continue
		}
		disk := false
		for _, s := range srcs {
			if s.kind == "cache" || s.kind == "file" {
				disk = true
			}
		}
		if disk {
			b.docSaveDisk(srcs)
			b.readYourWrites(srcs)
			for _, m := range []string{"GetFields", "SaveOrUpdate"} {
				if g := b.graph(m); g != nil {
					if m == "GetFields" {
						b.cacheFills(g, m)
					}
					c.newFiles(g, "absent-document", b.obj(m), func(*Node) bool { return true })
				}
			}
			for _, s := range srcs {
				if s.kind == "cache" {
					c.noBackground("documents", s.cache)
				}
			}
		} else {
			b.docSaveMem(srcs[0])
		}
	}
}

// fields checks GetFields: one entry per requested document that has the field, with the field as saved.
func (b *Backend) fields() []*DocSource {
	c := b.c
	m := "GetFields"
	g := b.graph(m)
	if g == nil {
		return nil
	}
	f, why := b.mapResult(g, 0)
	if f == nil {
		c.bad("getter", b.obj(m), g.where(g.root.entry), why)
		return nil
	}
	found := map[string]*DocSource{}
	var srcs []*DocSource
	events := map[*Node]bool{}
	ids := map[string]bool{}
	n0 := g.root.entry
	for _, e := range g.effects() {
		if !g.mayBe(e.m, f) {
			continue
		}
		where := g.where(e.n)
		if e.kind != "update" {
			c.bad("getter", b.obj(m), where, "entries are removed from the answer")
			continue
		}
		id := g.P(e.k)
		if _, over := g.iterOf(e.k); over != "elems($1)" {
			c.bad("getter", b.obj(m), where, "an entry is made for "+id+", which is not a requested document")
			continue
		}
		ids[id] = true
		good := true
		reached := func(v *Term, avoid func(*Node) bool) bool {
			return g.find([]*Node{n0}, g.standsFor(e.v, v, e.n, avoid)) != nil
		}
		for _, ch := range g.choices(e.v, e.n) {
			v := g.single0(ch.v)
			var s *DocSource
			if v.op == "lookup" && g.P(v.args[1]) == "$2" {
				for _, d := range g.vals(v.args[0]) {
					if isZeroConst(d) {
						continue
					}
					s = g.docSource(d, id)
					if s == nil {
						break
					}
					if found[s.name] == nil {
						found[s.name] = s
						srcs = append(srcs, s)
					}
					if !g.present(e.n, s, id) && reached(ch.v, func(n *Node) bool { return g.saysStored(n, s) }) {
						c.bad("getter", b.obj(m), where, "an entry is made for a document that may not have the field")
						good = false
					}
				}
			}
			if s == nil && reached(ch.v, nil) {
				c.bad("getter", b.obj(m), where, "the entry of a document is "+g.P(ch.v)+", not its stored field")
				good = false
			}
		}
		if good {
			events[e.n] = true
		}
	}
	if len(srcs) == 0 {
		c.bad("getter", b.obj(m), g.where(g.root.entry), "no entry is made from a stored document")
		return nil
	}
	// the entry may only be left out when the document or its field is absent
	why = g.forAll(g.root.entry, g.isRootExit, "elems($1)", func(l *Loop) func(*Node) bool {
		return func(n *Node) bool {
			if events[n] {
				return true
			}
			for _, s := range srcs {
				if s.kind == "map" && (g.absentBranch(n, s.name+"[$2]")) {
					return true
				}
				if s.kind == "cache" && g.saysEmptyBranch(n, s.name+"[$2]") {
					return true
				}
				if s.kind == "file" && (g.saysEmptyBranch(n, s.name+"[$2]") || g.saysErr(n, s.node, true)) {
					return true
				}
			}
			return false
		}
	})
	c.check(why == "", "getter", b.obj(m)+"/every document", g.where(g.root.entry), "a requested document can be left out although it has the field: "+why)
	return srcs
}

// saysEmptyBranch tells whether a branch outcome says that exactly this slot is absent.
func (g *Graph) saysEmptyBranch(n *Node, slot string) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	c, pol := g.cond(n), n.pol
	for c.op == "un" && c.s == "!" {
		c, pol = c.args[0], !pol
	}
	if c.op == "lookupok" && !pol {
		for _, v := range g.vals(c.args[0]) {
			if g.deref(v, true)+"["+g.P(c.args[1])+"]" == slot {
				return true
			}
		}
	}
	return false
}

// present tells whether a node only runs when the field of the document is there.
func (g *Graph) present(n *Node, s *DocSource, id string) bool {
	says := func(b *Node) bool { return g.saysStored(b, s) }
	for _, b := range g.guards(n) {
		if says(b) {
			return true
		}
	}
	p := g.find([]*Node{n.fr.thread.entry}, searchOpt{
		avoid: func(m *Node) bool { return m != n && says(m) },
		goal:  func(m *Node) bool { return m == n },
	})
	return p == nil
}

// saysStored tells whether a branch outcome says that the document has the field.
func (g *Graph) saysStored(b *Node, s *DocSource) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	c, pol := g.cond(b), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = c.args[0], !pol
	}
	if c.op != "lookupok" || !pol {
		return false
	}
	for _, v := range g.vals(c.args[0]) {
		if g.deref(v, true)+"["+g.P(c.args[1])+"]" == s.name+"[$2]" {
			return true
		}
	}
	return false
}

// standsFor searches for a path on which t stands for v at a node.
func (g *Graph) standsFor(t, v *Term, at *Node, avoid func(*Node) bool) searchOpt {
	g.watch(t)
	want := g.single0(v)
	return searchOpt{avoid: avoid, goalE: func(n *Node, e *env) bool {
		if n != at {
			return false
		}
		r := g.single0(g.resolve(t, e))
		if r == want {
			return true
		}
		for _, x := range g.vals(r) {
			if x == want || g.single0(x) == want {
				return true
			}
		}
		return false
	}}
}

// docTest: every other query that returns a whole document answers for that document.
func (b *Backend) docTest() {
	known := map[string]bool{"GetFields": true, "GetIndex": true, "GetDocuments": true, "GetFieldLength": true, "GetFieldSize": true, "GetNumberFieldTerm": true}
	for _, m := range sortedMethods(b.methods) {
		if !strings.HasPrefix(m, "Get") || known[m] {
			continue
		}
		f := b.methods[m]
		if f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
			continue
		}
		if mt, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Map); !ok || !isNamed(mt.Elem(), "Field") {
			continue
		}
		g := b.graph(m)
		ok := false
		for _, ch := range g.rootResults(0) {
			for _, o := range g.originOf(ch.v, ch.at) {
				if strings.HasPrefix(o, "$0.") && strings.HasSuffix(o, "[$1]") {
					ok = true
				}
			}
		}
		b.c.check(ok, "getter", b.obj(m), g.where(g.root.entry), "it does not return all fields of the requested document")
	}
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

// sameAs tells whether a value is the parameter named want, as a whole or field by field.
func (g *Graph) sameAs(v *Term, want string, at *Node) bool {
	if g.P(v) == want {
		return true
	}
	st, ok := v.typ.Underlying().(*types.Struct)
	if !ok {
		if _, isMap := v.typ.Underlying().(*types.Map); isMap {
			for _, x := range g.vals(v) {
				o := g.originOf(x, at)
				if len(o) == 0 || o[0] != want {
					return false
				}
			}
			return true
		}
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !g.sameAs(g.fieldOf(v, f.Name(), i, f.Type()), want+"."+f.Name(), at) {
			return false
		}
	}
	return true
}

// docSaveMem: a save stores the field in the document map that GetFields answers from and keeps everything else.
func (b *Backend) docSaveMem(s *DocSource) {
	c := b.c
	m := "SaveOrUpdate"
	g := b.graph(m)
	if g == nil {
		return
	}
	root := s.cache
	slot := root + "[$1][$2.Name]"
	events := map[*Node]bool{}
	for _, e := range g.effects() {
		if !under(e.path, root) {
			continue
		}
		where := g.where(e.n)
		if e.kind == "delete" || e.kind == "clear" {
			c.bad("field-saved", b.obj(m), where, "fields of documents are removed: "+e.path)
			continue
		}
		if e.path == slot {
			if !g.sameAs(e.v, "$2", e.n) {
				c.bad("field-saved", b.obj(m), where, "the stored field is "+g.P(e.v)+", not the saved one")
				continue
			}
			events[e.n] = true
			for _, f := range g.chain(e.m) {
				b.published(g, m, f, root)
			}
			continue
		}
		if why := g.clobbers(e); why != "" {
			c.bad("field-saved", b.obj(m), where, why)
		} else {
			c.ok("field-kept", b.obj(m), where, e.path)
		}
	}
	p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return events[n] }, goal: g.isRootExit})
	c.check(p == nil, "field-saved", b.obj(m), g.where(g.root.entry), "a save can end without storing the field in "+slot+": "+g.pathText(p))
	for name := range b.methods {
		if name == "SaveOrUpdate" {
			continue
		}
		gg := b.graph(name)
		n := 0
		for _, e := range gg.effects() {
			if under(e.path, root) {
				n++
			}
		}
		c.check(n == 0, "field-kept", b.obj(name), gg.where(gg.root.entry), "it changes the stored documents")
	}
}

// docSaveDisk: a save puts a map with the saved field and all older fields of the document into the cache.
func (b *Backend) docSaveDisk(srcs []*DocSource) {
	c := b.c
	m := "SaveOrUpdate"
	g := b.graph(m)
	if g == nil {
		return
	}
	cacheName := ""
	for _, s := range srcs {
		if s.kind == "cache" {
			cacheName = s.cache
		}
	}
	if cacheName == "" {
		c.bad("field-saved", b.obj("GetFields"), "", "documents are not answered from a cache")
		return
	}
	puts := map[*Node]bool{}
	for _, n := range g.calls(lruPut) {
		as := g.callArgs(n)
		if g.deref(as[0], true) != cacheName {
			continue
		}
		if g.P(as[1]) != "$1" {
			c.bad("field-saved", b.obj(m), g.where(n), "the fields are cached for "+g.P(as[1])+", not for the saved document")
			continue
		}
		puts[n] = true
		for _, f := range g.vals(as[2]) {
			b.completeDoc(g, m, f, n, as[2], cacheName)
		}
	}
	p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return puts[n] }, goal: g.isRootExit})
	c.check(p == nil, "field-saved", b.obj(m), g.where(g.root.entry), "a save can end without caching the document: "+g.pathText(p))
}

// completeDoc checks that the map used at node at holds the new field and every older field of the document.
func (b *Backend) completeDoc(g *Graph, m string, f *Term, at *Node, t *Term, cacheName string) {
	c := b.c
	if isNilConst(f) && g.find([]*Node{g.root.entry}, searchOpt{goalE: g.usedAs(t, f, at)}) == nil {
		return // never on a path that gets here
	}
	file := g.ownDoc(f, "$1")
	if f.op != "fresh" && file == nil {
		c.bad("field-saved", b.obj(m), g.where(at), "the cached map "+g.P(f)+" is not a new copy of the document")
		return
	}
	made := f.node
	if file != nil {
		made = file.node
	}
	stores := map[*Node]bool{}
	type cp struct {
		src  *DocSource
		done *Node
		upd  *Node
		dom  []Choice // alternatives of what is copied, when there are several
	}
	var copies []cp
	for _, e := range g.effects() {
		if !g.mayBe(e.m, f) {
			continue
		}
		where := g.where(e.n)
		if e.kind != "update" {
			c.bad("field-saved", b.obj(m), where, "fields are removed from the document")
			continue
		}
		if g.P(e.k) == "$2.Name" {
			if !g.sameAs(e.v, "$2", e.n) {
				c.bad("field-saved", b.obj(m), where, "the stored field is "+g.P(e.v)+", not the saved one")
				continue
			}
			stores[e.n] = true
			continue
		}
		l, over := g.iterOf(e.k)
		var dom *Term
		if l != nil && l.kind == "map" {
			dom = l.dom
		} else if l != nil {
			for _, l2 := range g.loops {
				if l2.kind == "map" && g.deref(l2.dom, true) == over {
					dom = l2.dom
				}
			}
		}
		var all []*DocSource
		var dch []Choice
		if dom != nil && g.sameEntry(e, over) {
			dch = g.choices(dom, l.header)
			for _, d := range dch {
				if isZeroConst(d.v) {
					continue
				}
				s := g.docSource(d.v, "$1")
				if s == nil {
					all = nil
					break
				}
				all = append(all, s)
			}
		}
		if len(all) == 0 {
			c.bad("field-saved", b.obj(m), where, "the document gets "+g.P(e.v)+" under "+g.P(e.k))
			continue
		}
		missed := g.perIteration(l, func(n *Node) bool { return n == e.n || g.saysHas(n, f, e.k) || g.branchIsName(n, e.k) })
		if missed != nil {
			c.bad("field-kept", b.obj(m), where, "a field of the document can be left out: "+g.pathText(missed))
			continue
		}
		for _, src := range all {
			copies = append(copies, cp{src, l.done, e.n, dch})
		}
	}
	for _, n := range g.calls("maps.Copy") {
		as := g.callArgs(n)
		if g.mayBe(as[0], f) {
			if src := g.docSource(as[1], "$1"); src != nil {
				copies = append(copies, cp{src, n, n, nil})
			} else {
				c.bad("field-saved", b.obj(m), g.where(n), "the document gets all entries of "+g.P(as[1]))
			}
		}
	}
	if file != nil { // it is what the file has
		copies = append(copies, cp{file, made, made, nil})
	}
	goal := func(n *Node) bool { return n == at }
	goalF := g.usedAs(t, f, at)
	// the cache is asked on every path
	gets := map[*Node]bool{}
	for _, n := range g.calls(lruGet) {
		as := g.callArgs(n)
		if g.deref(as[0], true) == cacheName && g.P(as[1]) == "$1" {
			gets[n] = true
		}
	}
	p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return gets[n] }, goal: goal})
	c.check(p == nil, "field-kept", b.obj(m)+"/cached", g.where(at), "the cached version of the document may not be looked at: "+g.pathText(p))
	// lost looks for a path from a branch to the use of the map on which no version of that kind was copied
	lost := func(br *Node, kind string, stop func(*Node) bool) []*Node {
		return g.find([]*Node{br}, searchOpt{
			goalE: goalF,
			avoid: func(n *Node) bool {
				if stop(n) {
					return true
				}
				for _, x := range copies {
					if x.src.kind != kind || n != x.done {
						continue
					}
					other := map[*Node]bool{}
					for _, d := range x.dom {
						if s := g.docSource(d.v, "$1"); isZeroConst(d.v) || (s != nil && s.kind != kind) {
							other[d.at] = true
						}
					}
					if len(other) == 0 || g.find([]*Node{br}, searchOpt{avoid: stop, goal: func(n *Node) bool { return other[n] }}) == nil {
						return true
					}
				}
				return false
			},
		})
	}
	for n := range gets {
		hit := func(want bool) func(x *Node) bool {
			return func(x *Node) bool { return g.saysResult(x, n, 1, want) }
		}
		for _, br := range g.branches(hit(true)) {
			p := lost(br, "cache", func(*Node) bool { return false })
			c.check(p == nil, "field-kept", b.obj(m)+"/cached", g.where(br), "the other fields of a cached document can be lost: "+g.pathText(p))
		}
		for _, br := range g.branches(hit(false)) {
			p := lost(br, "file", func(x *Node) bool {
				// no stored version
				for _, r := range g.calls("os.ReadFile") {
					if g.saysErr(x, r, true) {
						if segs := g.pathSegs(g.callArgs(r)[0]); len(segs) > 1 && segs[len(segs)-1] == safeName+"($1)" {
							return true
						}
					}
				}
				return false
			})
			c.check(p == nil, "field-kept", b.obj(m)+"/stored", g.where(br), "the other fields of a document that is not cached can be lost: "+g.pathText(p))
		}
		if len(g.branches(hit(true))) == 0 {
			c.bad("field-kept", b.obj(m)+"/cached", g.where(n), "whether the document is cached is not looked at")
		}
	}
	// the new field is stored, last
	p = g.find([]*Node{made}, searchOpt{avoid: func(n *Node) bool { return stores[n] }, goalE: goalF})
	c.check(p == nil, "field-saved", b.obj(m), g.where(at), "the saved field may not be in the cached document: "+g.pathText(p))
	for s := range stores {
		for _, x := range copies {
			if g.saysHasGuard(x.upd, f) {
				continue
			}
			p := g.find([]*Node{s}, searchOpt{goal: func(n *Node) bool { return n == x.upd }, avoid: goal})
			c.check(p == nil, "field-saved", b.obj(m), g.where(x.upd), "the saved field can be overwritten by the older one: "+g.pathText(p))
		}
	}
	for _, x := range copies {
		for _, y := range copies {
			if x.src.kind == "cache" && y.src.kind == "file" && !g.saysHasGuard(y.upd, f) {
				p := g.find([]*Node{x.done}, searchOpt{goal: func(n *Node) bool { return n == y.upd }, avoid: goal})
				c.check(p == nil, "field-kept", b.obj(m)+"/stored", g.where(y.upd), "the file is older than the cache but overwrites it: "+g.pathText(p))
			}
		}
	}
}

// ownDoc is the file that a map was just read from.
func (g *Graph) ownDoc(f *Term, id string) *DocSource {
	if f.op != "call" || !strings.HasPrefix(f.s, dsPrefix) {
		return nil
	}
	if s := g.docSource(f, id); s != nil && s.kind == "file" && s.node != nil {
		return s
	}
	return nil
}

// usedAs tells whether a path gets to a node where t stands for f.
func (g *Graph) usedAs(t, f *Term, at *Node) func(n *Node, e *env) bool {
	t = g.single0(t)
	g.watch(t)
	return func(n *Node, e *env) bool { return n == at && g.mayBe(g.resolve(t, e), f) }
}

// branches lists the branch nodes with a property.
func (g *Graph) branches(ok func(*Node) bool) []*Node {
	var out []*Node
	for _, n := range g.liveNodes {
		if n.kind == NBranch && !n.maybe && ok(n) {
			out = append(out, n)
		}
	}
	return out
}

// saysResult tells whether a branch outcome says that boolean result i of a call is as wanted. For pointers and
// maps (i == 0) it is compared with nil.
func (g *Graph) saysResult(b *Node, call *Node, i int, want bool) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op == "res" && c.i == i && c.args[0].node == call {
		return pol == want
	}
	if c.op == "bin" && (c.s == "==" || c.s == "!=") {
		x := c.args[0]
		if isNilConst(x) {
			x = c.args[1]
		} else if !isNilConst(c.args[1]) {
			return false
		}
		x = g.single0(x)
		if x.op == "res" && x.i == 0 && x.args[0].node == call {
			return ((c.s == "!=") == pol) == want
		}
	}
	return false
}

// saysHas tells whether a branch outcome says that map f already has the key.
func (g *Graph) saysHas(b *Node, f *Term, key *Term) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	c, pol := g.cond(b), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = c.args[0], !pol
	}
	return c.op == "lookupok" && pol && g.mayBe(c.args[0], f) && (key == nil || g.P(c.args[1]) == g.P(key))
}

// branchIsName: the key is the name of the saved field, which is stored separately.
func (g *Graph) branchIsName(b *Node, key *Term) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	c, pol := g.cond(b), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = c.args[0], !pol
	}
	if c.op != "bin" || (c.s != "==" && c.s != "!=") || (c.s == "==") != pol {
		return false
	}
	a, x := g.P(c.args[0]), g.P(c.args[1])
	k := g.P(key)
	return (a == k && x == "$2.Name") || (x == k && a == "$2.Name")
}

// saysHasGuard: the node only runs when map f does not have the key yet.
func (g *Graph) saysHasGuard(n *Node, f *Term) bool {
	for _, b := range g.guards(n) {
		c, pol := g.cond(b), b.pol
		for c.op == "un" && c.s == "!" {
			c, pol = c.args[0], !pol
		}
		if c.op == "lookupok" && !pol && g.mayBe(c.args[0], f) {
			return true
		}
		if c.op == "bin" && ((c.s == "!=") == pol) && (g.P(c.args[0]) == "$2.Name" || g.P(c.args[1]) == "$2.Name") {
			return true
		}
	}
	return false
}

// readYourWrites: what was saved is visible before it is on disk. A bounded cache and files written later do not
// give that.
func (b *Backend) readYourWrites(srcs []*DocSource) {
	g := b.graph("GetFields")
	for _, s := range srcs {
		if s.kind == "map" {
			b.c.ok("read-your-writes", b.obj("GetFields"), "", s.name)
			return
		}
	}
	sg := b.graph("SaveOrUpdate")
	for _, n := range sg.liveNodes {
		if n.kind == NInstr {
			if _, ok := n.in.(*ssa.Send); ok {
				b.c.bad("read-your-writes", b.obj("GetFields"), g.where(g.root.entry), "documents are answered from a bounded cache and from files that are written later: an evicted document is incomplete until the flush")
				return
			}
		}
	}
	b.c.ok("read-your-writes", b.obj("GetFields"), "", "files are written by the save itself")
}

// ---- C04 ----------------------------------------------------------------------------------------------------

func (b *Backend) queries() []string {
	var out []string
	for _, m := range sortedMethods(b.methods) {
		if strings.HasPrefix(m, "Get") {
			out = append(out, m)
		}
	}
	return out
}

var writingCalls = map[string]bool{
	"os.WriteFile": true, "os.Rename": true, "os.Remove": true, "os.RemoveAll": true, "os.Create": true, "os.OpenFile": true,
	"os.Mkdir": true, "os.MkdirAll": true, "os.Truncate": true, "os.Link": true, "os.Symlink": true, "os.CreateTemp": true,
}

func ruleC04(c *Ctx) {
	for _, b := range c.backends() {
		for _, m := range b.queries() {
			g := b.graph(m)
			n := 0
			for _, e := range g.effects() {
				if b.ownState(g, e) {
					n++
					c.bad("query-changes", b.obj(m), g.where(e.n), "it changes "+e.path)
				}
			}
			for _, x := range g.liveNodes {
				if x.kind != NInstr && x.kind != NDeferred {
					continue
				}
				if _, ok := x.in.(*ssa.Send); ok {
					if ch := g.P(g.term(x.fr, x.in.(*ssa.Send).Chan)); strings.HasPrefix(ch, "$0") {
						n++
						c.bad("query-changes", b.obj(m), g.where(x), "it sends to "+ch)
					}
				}
				if x.common() == nil {
					continue
				}
				cn := x.callName()
				if writingCalls[cn] {
					n++
					c.bad("query-changes", b.obj(m), g.where(x), "it calls "+cn)
				}
				if strings.HasPrefix(cn, "(*"+Module+"/cache.") && !strings.HasSuffix(cn, ").Get") {
					as := g.callArgs(x)
					ok := false
					var s *DocSource
					if cn == lruPut {
						// filling the cache with what was loaded for the same document
						s = g.docSourceAt(as[2], g.P(as[1]), x)
						ok = s != nil && s.kind == "file"
					}
					if !ok {
						n++
						c.bad("query-changes", b.obj(m), g.where(x), "it changes the cache by other than the stored version of the document: "+g.P(as[len(as)-1]))
					} else {
						c.ok("cache-filled", b.obj(m), g.where(x), "")
						// only when it was missing: the file is older than the cache
						b.onlyMissing(g, m, x, as)
						b.onlyFound(g, m, x, s)
					}
				}
			}
			if n == 0 {
				c.ok("query-changes", b.obj(m), g.where(g.root.entry), "")
			}
			b.leaks(m)
		}
	}
}

// cacheFills: a query caches a document only when the cache has none and its file was found.
func (b *Backend) cacheFills(g *Graph, m string) {
	for _, x := range g.calls(lruPut) {
		as := g.callArgs(x)
		if s := g.docSourceAt(as[2], g.P(as[1]), x); s != nil && s.kind == "file" {
			b.onlyMissing(g, m, x, as)
			b.onlyFound(g, m, x, s)
		}
	}
}

// onlyMissing: the stored version is cached only after the cache said that it has none.
func (b *Backend) onlyMissing(g *Graph, m string, put *Node, as []*Term) {
	gets := map[*Node]bool{}
	for _, n := range g.calls(lruGet) {
		ga := g.callArgs(n)
		if g.P(ga[0]) == g.P(as[0]) && g.P(ga[1]) == g.P(as[1]) {
			gets[n] = true
		}
	}
	miss := func(x *Node) bool {
		for n := range gets {
			if g.saysResult(x, n, 1, false) {
				return true
			}
		}
		return false
	}
	starts := []*Node{g.root.entry}
	for n := range gets {
		starts = append(starts, n)
	}
	p := g.find(starts, searchOpt{avoid: miss, goal: func(n *Node) bool { return n == put }})
	b.c.check(p == nil, "cache-filled", b.obj(m)+"/only when missing", g.where(put), "the stored version can replace a newer cached one: "+g.pathText(p))
}

// onlyFound: nothing is cached for a document that has no file (yet): it would hide the file that is written later.
func (b *Backend) onlyFound(g *Graph, m string, put *Node, s *DocSource) {
	if s.node == nil {
		return
	}
	fails := g.branches(func(n *Node) bool { return g.saysErr(n, s.node, true) || g.saysMiss(n, s.node, true) })
	opt := searchOpt{avoid: func(n *Node) bool { return n == s.node }, goal: func(n *Node) bool { return n == put }}
	var p []*Node
	if len(fails) > 0 {
		p = g.find(fails, opt)
	}
	if p == nil {
		var gets []*Node
		gets = append(gets, g.root.entry)
		gets = append(gets, g.calls(lruGet)...)
		p = g.find(gets, opt)
	}
	b.c.check(p == nil, "cache-filled", b.obj(m)+"/only when found", g.where(put), "a document that has no file is cached as one without fields, which hides the file written later: "+g.pathText(p))
}

// ownState tells whether an effect changes something that outlives the call.
func (b *Backend) ownState(g *Graph, e Eff) bool {
	if strings.HasPrefix(e.path, "$0") || strings.HasPrefix(e.path, "glob:") {
		return true
	}
	base := e.m
	if e.kind == "store" {
		base = addrBase(g.canonAddr(e.m))
	}
	for _, v := range g.vals(base) {
		if v.op != "fresh" && !(v.op == "call") {
			return true
		}
	}
	return false
}

// leaks checks that a query returns nothing through which the store can be changed.
func (b *Backend) leaks(m string) {
	g := b.graph(m)
	sig := b.methods[m].Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		why := ""
		for _, r := range g.root.rets {
			if !g.live[r] {
				continue
			}
			t := g.term(g.root, r.in.(*ssa.Return).Results[i])
			if w := g.leak(t, sig.At(i).Type(), r, map[*Term]bool{}); w != "" {
				why = w + " at " + g.where(r)
			}
		}
		b.c.check(why == "", "result-shared", fmt.Sprintf("%s/%d", b.obj(m), i), g.where(g.root.entry), "the result shares "+why+" with the store")
	}
}

// leak names the mutable state a value gives access to, "" when it gives none.
func (g *Graph) leak(t *Term, typ types.Type, at *Node, seen map[*Term]bool) string {
	if isNamed(typ, "Field") && typ.(*types.Named).Obj().Pkg().Path() == Module+"/model" {
		return "" // its counts are never changed after indexing (C07)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return ""
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if w := g.leak(g.fieldOf(t, f.Name(), i, f.Type()), f.Type(), at, seen); w != "" {
				return w
			}
		}
		return ""
	}
	for _, v := range g.vals(t) {
		if seen[v] {
			continue
		}
		seen[v] = true
		switch v.op {
		case "const", "func", "closure":
			continue
		case "fresh":
			if w := g.leakFresh(v, at, seen); w != "" {
				return w
			}
		case "call", "res":
			s := g.P(v)
			if strings.HasPrefix(v.s, "maps.Clone") || strings.Contains(s, ".Deserialize") {
				continue
			}
			if strings.HasPrefix(s, lruGet) {
				return "the cached document " + s
			}
			if ct := v; ct.op == "call" && (ct.s == "slices.Clone" || ct.s == "slices.Sorted" || ct.s == "slices.Collect") {
				continue
			}
			return s
		case "append":
			continue
		default:
			s := g.P(v)
			if strings.HasPrefix(s, "$") && !strings.HasPrefix(s, "$0") {
				continue
			}
			return s
		}
	}
	return ""
}

func (g *Graph) leakFresh(f *Term, at *Node, seen map[*Term]bool) string {
	for _, e := range g.effects() {
		if e.kind == "update" && g.mayBe(e.m, f) {
			if w := g.leak(e.v, e.m.typ.Underlying().(*types.Map).Elem(), e.n, seen); w != "" {
				return w
			}
		}
	}
	if ptr, ok := f.typ.Underlying().(*types.Pointer); ok {
		if st, ok := ptr.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				fd := st.Field(i)
				a := g.mk(&Term{op: "fieldaddr", s: fd.Name(), args: []*Term{f}, typ: types.NewPointer(fd.Type())})
				v := g.mk(&Term{op: "load", node: at, args: []*Term{a}, typ: fd.Type()})
				if w := g.leak(v, fd.Type(), at, seen); w != "" {
					return w
				}
			}
		}
	}
	if _, ok := f.typ.Underlying().(*types.Slice); ok {
		if ct, ok := g.contents(f); ok {
			for _, e := range ct {
				if e.val != nil {
					if w := g.leak(e.val, e.val.typ, at, seen); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

func init() {
	register("C03", 1, "", ruleC03)
	register("C04", 1, "", ruleC04)
}
