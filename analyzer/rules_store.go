package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Backend is one implementation of storage.Storage with the state its getters answer from. Templates use $1 and
// $2 for the parameters of the getter.
type Backend struct {
	c       *Ctx
	name    string
	typ     *types.Named
	methods map[string]*ssa.Function
	size    string // GetFieldSize($1)
	length  string // GetFieldLength($1)
	nf      string // GetNumberFieldTerm($1, {@})
	post    string // data of the set of GetDocuments($1, $2)
	index   string // GetIndex($1)
	doc     string // document map of a document @ (Memory)
	cache   string // name of the document cache (Disk)
}

func opaqueStore(p *Prog) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		path := funcPkgPath(f)
		switch path {
		case Module + "/cache":
			return isExportedMethod(f)
		case Module + "/storage/buffers":
			return true
		case Module + "/storage":
			return f.Parent() == nil && f.Signature.Recv() == nil && (strings.HasPrefix(f.Name(), "Serialize") || strings.HasPrefix(f.Name(), "Deserialize"))
		case Module + "/file":
			return pureFileFuncs[f.Name()]
		}
		return false
	}
}

var pureFileFuncs = map[string]bool{"CompressData": true, "DecompressData": true, "SafeName": true, "OriginalName": true}

func init() {
	for _, n := range []string{"CompressData", "DecompressData", "SafeName", "OriginalName"} {
		pureCalls[Module+"/file."+n] = true
	}
	for _, n := range []string{"FieldSizeLength", "NumberFieldTerm", "FieldMap", "Index"} {
		pureCalls[Module+"/storage.Deserialize"+n] = true
	}
}

func isExportedMethod(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() && f.Parent() == nil
}

func (c *Ctx) backends() []*Backend {
	var out []*Backend
	for _, n := range c.p.Implementers("storage", "Storage") {
		b := &Backend{c: c, name: n.Obj().Name(), typ: n, methods: map[string]*ssa.Function{}}
		for _, f := range exportedMethods(c.p, n) {
			b.methods[f.Name()] = f
		}
		out = append(out, b)
	}
	var names []string
	for _, b := range out {
		names = append(names, b.name)
	}
	for _, want := range []string{"Disk", "Memory"} {
		found := false
		for _, n := range names {
			found = found || n == want
		}
		c.check(found, "backends", want, "storage", "storage."+want+" no longer implements storage.Storage")
	}
	return out
}

func (b *Backend) graph(m string) *Graph {
	f := b.methods[m]
	if f == nil {
		b.c.bad("anchor", b.name+"."+m, "", "the method does not exist")
		return nil
	}
	return b.c.graph(f, opaqueStore(b.c.p), "store")
}

func (b *Backend) obj(m string) string { return b.name + "." + m }

// scalarRole finds what GetFieldSize and GetFieldLength return.
func (b *Backend) scalarRole(m string, report bool) string {
	g := b.graph(m)
	if g == nil {
		return ""
	}
	p, why := g.mainResult(0)
	good := why == "" && strings.HasPrefix(p, "$0.") && strings.Contains(p, "[$1]")
	if why == "" && !good {
		why = "it returns " + p + ", which is not a counter of the requested field"
	}
	if report || !good {
		b.c.check(good, "getter", b.obj(m), g.where(g.root.entry), why)
	}
	if !good {
		return ""
	}
	return p
}

// mapResult is the map made by a getter that it returns on every path.
func (b *Backend) mapResult(g *Graph, i int) (*Term, string) {
	var f *Term
	for _, c := range g.rootResults(i) {
		if c.v.op != "fresh" {
			if isZeroConst(c.v) {
				continue
			}
			return nil, "it returns " + g.P(c.v) + " at " + g.where(c.at)
		}
		if f != nil && f != c.v {
			return nil, "it returns more than one map"
		}
		f = c.v
	}
	if f == nil {
		return nil, "it never returns a map"
	}
	return f, ""
}

// nfRole checks GetNumberFieldTerm: one entry per requested term with the stored count.
func (b *Backend) nfRole(report bool) string {
	m := "GetNumberFieldTerm"
	g := b.graph(m)
	if g == nil {
		return ""
	}
	f, why := b.mapResult(g, 0)
	role := ""
	if f != nil {
		why = "no entry is made"
		for _, e := range g.effects() {
			if e.kind != "update" || !g.mayBe(e.m, f) {
				continue
			}
			l, over := g.iterOf(e.k)
			if l == nil || over != "elems($2)" {
				why = "the entries are not made for each requested term"
				continue
			}
			k := g.P(e.k)
			main := ""
			bad := ""
			for _, ch := range g.choices(e.v, e.n) {
				v := stripConv(ch.v)
				if isZeroConst(v) {
					continue
				}
				if p := g.P(v); main == "" || main == p {
					main = p
				} else {
					bad = main + " or " + p
				}
			}
			if bad != "" || !strings.Contains(main, "["+k+"]") || !strings.Contains(main, "[$1]") || !strings.HasPrefix(main, "$0.") {
				why = "the entry of a term is " + main + bad + ", not its count in the requested field"
				continue
			}
			for _, ch := range g.choices(e.v, e.n) {
				if isZeroConst(ch.v) && !g.absentSomewhere(ch.at, main) {
					bad = "zero although the count may exist"
				}
			}
			if bad != "" {
				why = bad
				continue
			}
			role = strings.ReplaceAll(main, "["+k+"]", "[@]")
			why = g.forAllSkip(g.root.entry, g.isRootExit, "elems($2)", func(l *Loop) func(*Node) bool {
				return func(n *Node) bool { return n == e.n }
			}, func(n *Node) bool { return g.absentBranch(n, main) })
		}
	}
	if report || why != "" {
		b.c.check(why == "", "getter", b.obj(m), g.where(g.root.entry), why)
	}
	if why != "" {
		return ""
	}
	return role
}

func (g *Graph) isRootExit(n *Node) bool { return n == g.root.exit }

// absentBranch tells whether a branch outcome says that the slot, or a container on the way to it, is absent.
func (g *Graph) absentBranch(b *Node, path string) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	c := g.cond(b)
	for p := path; p != ""; p = parentPath(p) {
		if g.saysEmpty(c, b.pol, p) || g.saysZero(c, b.pol, p) {
			return true
		}
	}
	return false
}

// forAllSkip is forAll where an iteration may also take a branch for which skip holds.
func (g *Graph) forAllSkip(start *Node, goal func(*Node) bool, over string, event func(l *Loop) func(*Node) bool, skip func(*Node) bool) string {
	return g.forAll(start, goal, over, func(l *Loop) func(*Node) bool {
		ev := event(l)
		return func(n *Node) bool { return ev(n) || skip(n) }
	})
}

// postRole checks GetDocuments: the set stored for the term, and true exactly when there is one.
func (b *Backend) postRole(report bool) string {
	m := "GetDocuments"
	g := b.graph(m)
	if g == nil {
		return ""
	}
	role, why := "", ""
	sig := b.methods[m].Signature.Results()
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		res := r.in.(*ssa.Return).Results
		for _, okc := range g.choices(g.term(g.root, res[1]), r) {
			okv := okc.v
			set := g.term(g.root, res[0])
			data := g.setData(set, sig.At(0).Type())
			switch {
			case okv.op == "const" && okv.s == "true", okv.op == "lookupok":
				srcs := g.originOf(data, r)
				p := ""
				for _, s := range srcs {
					if strings.Contains(s, "[$1]") && strings.Contains(s, "[$2]") && strings.HasPrefix(s, "$0.") {
						if p != "" && p != s {
							why = "two different sources: " + p + " and " + s
						}
						p = s
					}
				}
				if p == "" {
					why = fmt.Sprintf("the returned set is not the stored set of the term (it is %v) at %s", srcs, g.where(r))
				}
				if role != "" && role != p {
					why = "two different sources: " + role + " and " + p
				}
				role = p
			case okv.op == "const" && okv.s == "false":
			default:
				why = "the found flag is " + g.P(okv)
			}
		}
	}
	if role == "" && why == "" {
		why = "it never reports a term as found"
	}
	if why == "" {
		for _, r := range g.root.rets {
			if !g.live[r] {
				continue
			}
			for _, okc := range g.choices(g.term(g.root, r.in.(*ssa.Return).Results[1]), r) {
				if okc.v.op == "const" && okc.v.s == "false" && !g.absentSomewhere(okc.at, parentPath(role)) {
					why = "a stored term can be reported as not found at " + g.where(okc.at)
				}
			}
		}
	}
	if report || why != "" {
		b.c.check(why == "", "getter", b.obj(m), g.where(g.root.entry), why)
	}
	if why != "" {
		return ""
	}
	return role
}

// setData is the term of the document map inside a model.Set value.
func (g *Graph) setData(set *Term, typ types.Type) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return set
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			return g.fieldOf(set, st.Field(i).Name(), i, st.Field(i).Type())
		}
	}
	return set
}

// indexRole checks GetIndex: all terms of the field, each with its set.
func (b *Backend) indexRole(report bool) string {
	m := "GetIndex"
	g := b.graph(m)
	if g == nil {
		return ""
	}
	role, why := "", ""
	for _, ch := range g.rootResults(0) {
		if isZeroConst(ch.v) {
			continue
		}
		srcs := g.originOf(ch.v, ch.at)
		p := ""
		for _, s := range srcs {
			if strings.HasPrefix(s, "$0.") && strings.Contains(s, "[$1]") {
				p = s
			}
		}
		if p == "" {
			why = fmt.Sprintf("the result is not the stored index of the field (it is %v)", srcs)
		}
		if ch.v.op == "fresh" {
			// the sets of the copy are the stored sets, or copies of them
			for _, e := range g.effects() {
				if e.kind != "update" || !g.mayBe(e.m, ch.v) {
					continue
				}
				for _, v := range g.vals(e.v) {
					if v.op != "fresh" {
						if g.P(v) != p+"["+g.P(e.k)+"]" {
							why = "a term gets the set " + g.P(v)
						}
						continue
					}
					d := g.fieldAt(v, e.n)
					ok := false
					for _, s := range g.originOf(d, e.n) {
						if strings.HasPrefix(s, p+"["+g.P(e.k)+"]") {
							ok = true
						}
					}
					if !ok {
						why = fmt.Sprintf("the copied set of a term is not its stored set (%v) at %s", g.originOf(d, e.n), g.where(e.n))
					}
				}
			}
		}
		if role != "" && role != p {
			why = "two different sources"
		}
		role = p
	}
	if role == "" && why == "" {
		why = "it never returns the index"
	}
	if why == "" {
		for _, ch := range g.rootResults(0) {
			if isZeroConst(ch.v) && !g.absentSomewhere(ch.at, role) {
				why = "it returns nil although the field may have an index"
			}
		}
	}
	if report || why != "" {
		b.c.check(why == "", "getter", b.obj(m), g.where(g.root.entry), why)
	}
	if why != "" {
		return ""
	}
	return role
}

// fieldAt is the map inside the struct a fresh pointer leads to, as of node n.
func (g *Graph) fieldAt(f *Term, n *Node) *Term {
	t := derefType(f.typ)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return f
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			a := g.mk(&Term{op: "fieldaddr", s: st.Field(i).Name(), args: []*Term{f}, typ: types.NewPointer(st.Field(i).Type())})
			return g.mk(&Term{op: "load", node: n, args: []*Term{a}, typ: st.Field(i).Type()})
		}
	}
	return f
}

func (b *Backend) roles(report bool) bool {
	b.size = b.scalarRole("GetFieldSize", report)
	b.length = b.scalarRole("GetFieldLength", report)
	b.nf = b.nfRole(report)
	b.post = b.postRole(report)
	b.index = b.indexRole(report)
	if b.post != "" && b.index != "" {
		want := strings.SplitN(b.post, "[$2]", 2)[0]
		b.c.check(want == b.index, "getter", b.obj("GetIndex/GetDocuments"), "", "GetIndex answers from "+b.index+", GetDocuments from "+b.post)
	}
	return b.size != "" && b.length != "" && b.nf != "" && b.post != "" && b.index != ""
}

// inst instantiates a role template.
func inst(tmpl, f, t string) string {
	s := strings.ReplaceAll(tmpl, "[$1]", "\x01")
	s = strings.ReplaceAll(s, "[$2]", "\x02")
	s = strings.ReplaceAll(s, "[@]", "\x02")
	s = strings.ReplaceAll(s, "\x01", "["+f+"]")
	return strings.ReplaceAll(s, "\x02", "["+t+"]")
}

// rootField is the receiver field a role lives in: "$0.index".
func rootField(tmpl string) string {
	i := strings.IndexAny(tmpl[3:], ".[")
	if i < 0 {
		return tmpl
	}
	return tmpl[:3+i]
}

// under tells whether a path lies at or below a root.
func under(path, root string) bool {
	return path == root || strings.HasPrefix(path, root+"[") || strings.HasPrefix(path, root+".")
}

// ---- C01 ----------------------------------------------------------------------------------------------------

func ruleC01(c *Ctx) {
	for _, b := range c.backends() {
		if !b.roles(false) {
			continue
		}
		for _, m := range []string{"SaveOrUpdate", "UpdateIndex"} {
			b.postings(m)
			b.mapsThere("every-term-posted", "postings", m, b.post)
		}
		// no other operation of the store changes the postings
		for name := range b.methods {
			if name == "SaveOrUpdate" || name == "UpdateIndex" {
				continue
			}
			g := b.graph(name)
			n := 0
			for _, e := range g.effects() {
				if under(e.path, rootField(b.post)) {
					n++
					c.bad("postings-changed", b.obj(name), g.where(e.n), "it changes the postings ("+e.path+")")
				}
			}
			if n == 0 {
				c.ok("postings-changed", b.obj(name), g.where(g.root.entry), "")
			}
		}
		if b.name == "Disk" {
			c.noBackground("postings", b.post)
		}
	}
}

func (b *Backend) postings(m string) {
	c := b.c
	g := b.graph(m)
	if g == nil {
		return
	}
	root := rootField(b.post)
	// the additions: data of the set of (field, term) gets the document id
	adds := map[*Loop]map[*Node]bool{}
	var addEffs []Eff
	all := map[*Node]bool{}
	for _, e := range g.effects() {
		if e.kind != "update" || g.P(e.k) != "$1" || !under(e.path, root) {
			continue
		}
		for _, l := range g.loopsAround(e.n) {
			if !g.loopOver(l, "$2.TF") || l.key == nil {
				continue
			}
			if e.cont == inst(b.post, "$2.Name", g.P(g.elemKey(l))) {
				if adds[l] == nil {
					adds[l] = map[*Node]bool{}
				}
				adds[l][e.n] = true
				all[e.n] = true
				addEffs = append(addEffs, e)
			}
		}
	}
	why := g.forAll(g.root.entry, g.isRootExit, "$2.TF", func(l *Loop) func(*Node) bool {
		return func(n *Node) bool {
			if adds[l][n] {
				return true
			}
			m, k := g.branchHas(n)
			return m != nil && g.P(k) == "$1" && l.key != nil && g.deref(m, true) == inst(b.post, "$2.Name", g.P(g.elemKey(l)))
		}
	})
	c.check(why == "", "every-term-posted", b.obj(m), g.where(g.root.entry), "a term of the field may not get the document into "+inst(b.post, "$2.Name", "term")+": "+why)

	// new containers are published, and never over existing ones
	seen := map[*Term]bool{}
	for _, e := range addEffs {
		for _, f := range g.chain(e.m) {
			if seen[f] {
				continue
			}
			seen[f] = true
			b.published(g, m, f, root)
		}
	}
	for _, e := range g.effects() {
		if !under(e.path, root) || all[e.n] {
			continue
		}
		where := g.where(e.n)
		if e.kind == "delete" || e.kind == "clear" {
			c.bad("no-posting-lost", b.obj(m), where, "postings are removed: "+e.path)
			continue
		}
		if why := g.clobbers(e); why != "" {
			c.bad("no-posting-lost", b.obj(m), where, why)
		} else {
			c.ok("no-posting-lost", b.obj(m), where, e.path)
		}
	}
}

// elemKey is the term that stands for the key (or element) a loop is at.
func (g *Graph) elemKey(l *Loop) *Term {
	if l.kind == "map" {
		return l.key
	}
	if l.kind == "slice" {
		// the element load inside the loop
		for _, n := range g.liveNodes {
			if !l.body[n] || n.kind != NInstr {
				continue
			}
			if u, ok := n.in.(*ssa.UnOp); ok && u.Op.String() == "*" {
				t := g.term(n.fr, u)
				if t.op == "load" && t.args[0].op == "indexaddr" && t.args[0].args[1] == l.key && g.P(t.args[0].args[0]) == g.P(l.dom) {
					return t
				}
			}
		}
	}
	if l.kind == "chan" {
		return l.val
	}
	return l.key
}

// chain lists the containers made here on the way to a container, itself included.
func (g *Graph) chain(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, v := range g.vals(t) {
			switch v.op {
			case "fresh":
				out = append(out, v)
				// the struct it is a field of
				for _, p := range g.publications(v) {
					if st, ok := p.node.in.(*ssa.Store); ok {
						rec(addrBase(g.canonAddr(g.term(p.node.fr, st.Addr))))
					}
					if mu, ok := p.node.in.(*ssa.MapUpdate); ok {
						rec(g.term(p.node.fr, mu.Map))
					}
				}
			case "lookup", "rangeval":
				rec(v.args[0])
			case "init":
				rec(addrBase(v.args[0]))
			}
		}
	}
	rec(t)
	return out
}

// published checks that an object made by the method is stored into the state on every path to the end.
func (b *Backend) published(g *Graph, m string, f *Term, root string) {
	pubs := map[*Node]bool{}
	for _, p := range g.publications(f) {
		pubs[p.node] = true
	}
	p := g.find([]*Node{f.node}, searchOpt{
		avoid: func(n *Node) bool { return pubs[n] },
		goal:  func(n *Node) bool { return n == g.root.exit || n == f.node },
	})
	if p != nil && len(pubs) > 0 && onlyBefore(g, pubs, f) {
		p = nil
	}
	b.c.check(p == nil, "new-container-published", b.obj(m), g.where(f.node), "a new container may never be stored into "+root+": "+g.pathText(p))
}

func onlyBefore(g *Graph, pubs map[*Node]bool, f *Term) bool { return false }

// clobbers decides whether storing a container can replace one that already has data.
func (g *Graph) clobbers(e Eff) string {
	for _, ch := range g.choices(e.v, e.n) {
		v := ch.v
		if v.op != "fresh" {
			if g.deref(v, true) == e.path {
				continue // the container that is there already
			}
			if isZeroConst(v) {
				return "it stores nothing over " + e.path
			}
			return "it replaces " + e.path + " by " + g.P(v)
		}
		if g.guardedAbsent(ch.at, e.path) || g.guardedAbsent(v.node, e.path) || g.guardedAbsent(e.n, e.path) {
			continue
		}
		if g.underFresh(e) {
			continue
		}
		// a complete copy of what was there
		ok := false
		for _, s := range g.copySources(v, e.n) {
			if s == e.path {
				ok = true
			}
		}
		if ok {
			continue
		}
		// a struct around such a copy
		if _, isStruct := derefType(v.typ).Underlying().(*types.Struct); isStruct {
			d := g.fieldAt(v, e.n)
			for _, s := range g.originOf(d, e.n) {
				if strings.HasPrefix(s, e.path+".") || s == e.path {
					ok = true
				}
			}
		}
		if !ok {
			return "it stores a new container over " + e.path + " which may already hold data"
		}
	}
	return ""
}

// underFresh tells whether the changed slot belongs to an object that was made in this call.
func (g *Graph) underFresh(e Eff) bool {
	base := e.m
	if e.kind == "store" {
		base = addrBase(g.canonAddr(e.m))
	}
	vs := g.vals(base)
	for _, v := range vs {
		if v.op != "fresh" {
			return false
		}
	}
	return len(vs) > 0
}

// ---- C02 ----------------------------------------------------------------------------------------------------

func ruleC02(c *Ctx) {
	for _, b := range c.backends() {
		if !b.roles(false) {
			continue
		}
		b.counter("SaveOrUpdate", "size", inst(b.size, "$2.Name", ""), "1")
		b.counter("SaveOrUpdate", "length", inst(b.length, "$2.Name", ""), "$2.Length")
		b.termCounter("SaveOrUpdate")
		b.resave("SaveOrUpdate")
		b.mapsThere("counted-once", "size", "SaveOrUpdate", b.size)
		b.mapsThere("counted-once", "length", "SaveOrUpdate", b.length)
		b.mapsThere("counted-once", "document frequency", "SaveOrUpdate", b.nf)
		// no method but the save operation and the operations it is made of counts
		for name := range b.methods {
			g := b.graph(name)
			for _, r := range []struct{ what, tmpl string }{{"size", b.size}, {"length", b.length}, {"document frequency", b.nf}} {
				n := 0
				for _, e := range g.effects() {
					if under(e.path, rootField(r.tmpl)) {
						n++
					}
				}
				if !strings.HasPrefix(name, "Get") && name != "UpdateIndex" {
					continue
				}
				c.check(n == 0, "not-counted-elsewhere", b.obj(name)+"/"+r.what, g.where(g.root.entry), "it changes the "+r.what+" of a field")
			}
		}
		if b.name == "Disk" {
			c.noBackground("statistics", b.size, b.length, b.nf)
		}
	}
}

// counter checks that a statistic changes exactly once on every path of the method, by the given amount.
func (b *Backend) counter(m, what, slot, delta string) {
	c := b.c
	g := b.graph(m)
	if g == nil {
		return
	}
	var effs []Eff
	nodes := map[*Node]bool{}
	for _, e := range g.effects() {
		if !under(e.path, rootField(b.tmpl(what))) {
			continue
		}
		if e.path != slot {
			// creating an entry of zero, or a container, is harmless when nothing is there
			if e.kind != "delete" && e.kind != "clear" && (g.guardedAbsent(e.n, e.path) || g.clobbers(e) == "") {
				continue
			}
			c.bad("statistic", b.obj(m)+"/"+what, g.where(e.n), "another slot changes: "+e.path)
			continue
		}
		if (e.kind == "update" || e.kind == "store") && isZeroConst(e.v) && g.guardedAbsent(e.n, e.path) {
			continue
		}
		if e.kind == "delete" {
			c.bad("statistic", b.obj(m)+"/"+what, g.where(e.n), "the statistic is deleted")
			continue
		}
		d := g.deltaOf(e)
		if d == nil || g.K(stripConv(d)) != delta {
			got := g.P(e.v)
			c.bad("statistic", b.obj(m)+"/"+what, g.where(e.n), fmt.Sprintf("the %s becomes %s, expected its old value + %s", what, got, delta))
			continue
		}
		effs = append(effs, e)
		nodes[e.n] = true
	}
	if len(effs) == 0 {
		c.bad("statistic", b.obj(m)+"/"+what, g.where(g.root.entry), "no statement adds "+delta+" to "+slot)
		return
	}
	p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return nodes[n] }, goal: g.isRootExit})
	c.check(p == nil, "counted-once", b.obj(m)+"/"+what, g.where(g.root.entry), "a save can leave the "+what+" as it is: "+g.pathText(p))
	for _, e := range effs {
		p := g.find([]*Node{e.n}, searchOpt{goal: func(n *Node) bool { return nodes[n] }})
		c.check(p == nil, "counted-once", b.obj(m)+"/"+what+"/again", g.where(e.n), "a save can count the "+what+" twice: "+g.pathText(p))
	}
}

func (b *Backend) tmpl(what string) string {
	switch what {
	case "size":
		return b.size
	case "length":
		return b.length
	}
	return b.nf
}

// termCounter checks that the document frequency of each term of the field grows by one, once.
func (b *Backend) termCounter(m string) {
	c := b.c
	g := b.graph(m)
	if g == nil {
		return
	}
	root := rootField(b.nf)
	incs := map[*Loop]map[*Node]bool{}
	all := map[*Node]bool{}
	var effs []Eff
	for _, e := range g.effects() {
		if !under(e.path, root) {
			continue
		}
		isInc := false
		for _, l := range g.loopsAround(e.n) {
			if !g.loopOver(l, "$2.TF") {
				continue
			}
			if e.kind == "update" && e.path == inst(b.nf, "$2.Name", g.P(g.elemKey(l))) {
				isInc = true
				if isZeroConst(e.v) && g.guardedAbsent(e.n, e.path) {
					continue
				}
				d := g.deltaOf(e)
				if d == nil || g.K(stripConv(d)) != "1" {
					c.bad("statistic", b.obj(m)+"/document frequency", g.where(e.n), "the document frequency of a term becomes "+g.P(e.v)+", expected its old value + 1")
					continue
				}
				if incs[l] == nil {
					incs[l] = map[*Node]bool{}
				}
				incs[l][e.n] = true
				all[e.n] = true
				effs = append(effs, e)
			}
		}
		if !isInc {
			if e.kind == "delete" || e.kind == "clear" {
				c.bad("statistic", b.obj(m)+"/document frequency", g.where(e.n), "counts are removed: "+e.path)
			} else if why := g.clobbers(e); why != "" {
				c.bad("statistic", b.obj(m)+"/document frequency", g.where(e.n), why)
			} else {
				c.ok("statistic", b.obj(m)+"/document frequency container", g.where(e.n), e.path)
			}
		}
	}
	why := g.forAll(g.root.entry, g.isRootExit, "$2.TF", func(l *Loop) func(*Node) bool {
		return func(n *Node) bool { return incs[l][n] }
	})
	c.check(why == "", "counted-once", b.obj(m)+"/document frequency", g.where(g.root.entry), "a term of the field may not be counted: "+why)
	seen := map[*Term]bool{}
	for _, e := range effs {
		// not twice for the same term: a second loop, or twice in one iteration
		p := g.find([]*Node{e.n}, searchOpt{
			goal: func(n *Node) bool { return all[n] },
			avoid: func(n *Node) bool {
				l := g.loopOf[e.n]
				for ; l != nil; l = l.parent {
					if n == l.header {
						return true
					}
				}
				return false
			},
		})
		c.check(p == nil, "counted-once", b.obj(m)+"/document frequency/again", g.where(e.n), "a term can be counted twice in one iteration: "+g.pathText(p))
		for _, f := range g.chain(e.m) {
			if !seen[f] {
				seen[f] = true
				b.published(g, m, f, root)
			}
		}
	}
	// a second loop over the terms
	for l := range incs {
		p := g.find([]*Node{l.done}, searchOpt{goal: func(n *Node) bool { return all[n] }})
		c.check(p == nil, "counted-once", b.obj(m)+"/document frequency/again", g.where(l.header), "the terms are counted a second time: "+g.pathText(p))
	}
}

// resave looks for what a second save of the same document and field would need: a read of the version that is
// stored. Without it the statistics count the field twice and the postings keep the old terms.
func (b *Backend) resave(m string) {
	c := b.c
	g := b.graph(m)
	if g == nil {
		return
	}
	ok := false
	for _, n := range g.liveNodes {
		if n.kind != NBranch || n.maybe {
			continue
		}
		// a decision that depends on the stored field of this document, before the counters change
		k := g.P(g.cond(n))
		if strings.Contains(k, "[$1][$2.Name]") || strings.Contains(k, ".data[$1]") {
			ok = true
		}
	}
	c.check(ok, "resave-replaces", b.obj(m), g.where(g.root.entry), "saving the same document and field again counts it a second time and keeps its old terms: the stored version is never looked at")
}

func sortedMethods(m map[string]*ssa.Function) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
