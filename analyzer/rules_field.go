package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C27: flattening ------------------------------------------------------------------------------------------

func isObject(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isStringType(m.Key()) {
		return false
	}
	i, ok := m.Elem().Underlying().(*types.Interface)
	return ok && i.Empty()
}

// stripAssert drops type assertions and interface conversions, which keep the value.
func (g *Graph) stripAssert(t *Term) *Term {
	for {
		t = g.single(t)
		switch t.op {
		case "assert", "iface", "changetype":
			t = t.args[0]
			continue
		case "res":
			if t.i == 0 && t.args[0].op == "assert" {
				t = t.args[0].args[0]
				continue
			}
		}
		return t
	}
}

// isObjectBranch tells whether a branch outcome says that a value is (want) or is not an object.
func (g *Graph) isObjectBranch(b *Node, val string, want bool) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if strings.HasPrefix(g.P(c), "typeok:map[string]interface{}("+val+")") || strings.HasPrefix(g.P(c), "typeok:map[string]any("+val+")") {
		return pol == want
	}
	// another type found is no object either
	if !want && pol && strings.HasPrefix(g.P(c), "typeok:") && strings.HasSuffix(g.P(c), "("+val+")") && !strings.HasPrefix(g.P(c), "typeok:interface") && !strings.HasPrefix(g.P(c), "typeok:any(") {
		return true
	}
	if !want && c.op == "bin" && (c.s == "==") == pol && (c.s == "==" || c.s == "!=") {
		for i := 0; i < 2; i++ {
			if isNilConst(c.args[i]) && g.P(c.args[1-i]) == val {
				return true
			}
		}
	}
	return false
}

func ruleC27(c *Ctx) {
	flat := c.p.Func("field", "Flatten")
	if flat == nil {
		c.bad("anchor", "field.Flatten", "", "the function does not exist")
		return
	}
	g := c.graph(flat, nil, "full")
	lab := "field.Flatten"
	// the recursive function that walks an object
	var walk *ssa.Function
	var first *Frame
	for _, n := range g.liveNodes {
		if n.callee == nil || first != nil {
			continue
		}
		rec := false
		for _, m := range g.liveNodes {
			if m.fr == n.callee || g.inFrame(m, n.callee) {
				if cc := m.common(); cc != nil && m.callee == nil && g.callsBack(m, n.callee.fn) {
					rec = true
				}
			}
		}
		if rec {
			walk, first = n.callee.fn, n.callee
		}
	}
	if !c.check(walk != nil, "walk", lab, g.where(g.root.entry), "no recursive function walks nested objects") {
		return
	}
	in, pre, out := -1, -1, -1 // parameters of the walk
	outFree := ""
	wg := c.graph(walk, nil, "walk")
	wlab := fnLabel(walk)
	for i, p := range walk.Params {
		switch {
		case isObject(p.Type()):
			for _, l := range wg.loops {
				if l.kind == "map" && wg.deref(l.dom, true) == "$"+itoa(i) {
					in = i
				}
			}
			for _, e := range wg.effects() {
				if e.kind == "update" && e.cont == "$"+itoa(i) {
					out = i
				}
			}
		case isStringType(p.Type()):
			if pre < 0 {
				pre = i
			}
		}
	}
	outName := ""
	if out >= 0 {
		outName = "$" + itoa(out)
	} else {
		for _, e := range wg.effects() {
			if e.kind == "update" && strings.HasPrefix(e.cont, "fv:") {
				outName, outFree = e.cont, e.cont
			}
		}
	}
	if !c.check(in >= 0 && pre >= 0 && in != out && outName != "", "walk", wlab, wg.where(wg.root.entry), "no object is walked with a prefix into an output") {
		return
	}
	inName, preName := "$"+itoa(in), "$"+itoa(pre)
	keyIs := func(t *Term, at *Node, k string, suffix []string) string {
		for _, ch := range wg.choices(t, at) {
			var parts []string
			for _, x := range wg.concat(ch.v) {
				if x.op == "const" && x.s == `""` {
					continue
				}
				parts = append(parts, wg.P(x))
			}
			want := append([]string{preName, k}, suffix...)
			if strings.Join(parts, " ") == strings.Join(want, " ") {
				continue
			}
			if strings.Join(parts, " ") == strings.Join(want[1:], " ") && wg.onlyIf(ch.at, func(b *Node) bool { return wg.emptyText(b, preName) || wg.emptyGuard(b, preName) }) {
				continue
			}
			return strings.Join(parts, " ")
		}
		return ""
	}
	handled := map[*Node]bool{}
	why := ""
	for _, e := range wg.effects() {
		if e.cont != outName && e.path != outName {
			if !strings.HasPrefix(e.cont, "new") && !strings.HasPrefix(e.path, "new") {
				c.bad("input", wlab, wg.where(e.n), "it changes "+e.path)
			}
			continue
		}
		if e.kind != "update" {
			c.bad("adds-nothing", wlab, wg.where(e.n), "it removes entries of the output")
			continue
		}
		v := wg.stripAssert(e.v)
		l := wg.loopOf[e.n]
		if l == nil || l.kind != "map" || wg.deref(l.dom, true) != inName {
			c.bad("adds-nothing", wlab, wg.where(e.n), "it stores "+e.path+" outside the walk over the object")
			continue
		}
		val, key := wg.P(l.val), wg.P(l.key)
		if wg.P(v) != val {
			c.bad("value", wlab, wg.where(e.n), "it stores "+wg.P(e.v)+", not the value of the entry")
			continue
		}
		if w := keyIs(e.k, e.n, key, nil); w != "" {
			c.bad("path", wlab, wg.where(e.n), "the value is stored under "+w+", not under the path of its keys")
			continue
		}
		if !wg.onlyIf(e.n, func(b *Node) bool { return wg.isObjectBranch(b, val, false) }) {
			c.bad("leaf", wlab, wg.where(e.n), "an object may be stored as a value instead of being walked")
			continue
		}
		handled[e.n] = true
		c.ok("leaf", wlab, wg.where(e.n), e.path)
	}
	for _, n := range wg.liveNodes {
		cc := n.common()
		if cc == nil || n.callee != nil || !wg.callsBack(n, walk) {
			continue
		}
		args := wg.recArgs(n)
		if _, isGo := n.in.(*ssa.Go); isGo && wg.find([]*Node{n}, searchOpt{avoid: waitsForOthers, goal: wg.isRootExit}) != nil {
			c.bad("descend", wlab, wg.where(n), "it may return before the entry is walked")
			continue
		}
		l := wg.loopOf[n]
		if l == nil || l.kind != "map" || wg.deref(l.dom, true) != inName || len(args) <= in || len(args) <= pre {
			c.bad("descend", wlab, wg.where(n), "it descends outside the walk over the object")
			continue
		}
		val, key := wg.P(l.val), wg.P(l.key)
		switch {
		case wg.P(wg.stripAssert(args[in])) != val:
			c.bad("descend", wlab, wg.where(n), "it descends into "+wg.P(args[in])+", not into the entry")
		case out >= 0 && wg.P(args[out]) != outName:
			c.bad("descend", wlab, wg.where(n), "it descends with another output")
		case !wg.onlyIf(n, func(b *Node) bool { return wg.isObjectBranch(b, val, true) }):
			c.bad("descend", wlab, wg.where(n), "it may descend into a value that is no object")
		default:
			if w := keyIs(args[pre], n, key, []string{`"."`}); w != "" {
				c.bad("path", wlab, wg.where(n), "it descends with the prefix "+w+", not with the path of the entry and a dot")
				continue
			}
			handled[n] = true
			c.ok("descend", wlab, wg.where(n), "")
		}
	}
	_ = outFree
	why = wg.forAll(wg.root.entry, wg.isRootExit, inName, func(l *Loop) func(*Node) bool {
		return func(n *Node) bool { return handled[n] }
	})
	c.check(why == "", "every-entry", wlab, wg.where(wg.root.entry), "an entry may be neither stored nor walked: "+why)
	// the first call
	var outs []*Term
	for _, r := range g.rootResults(0) {
		v := r.v
		if v.op != "fresh" {
			c.bad("result", lab, g.where(r.at), "it returns "+g.P(v)+", not a new map")
			return
		}
		outs = append(outs, v)
	}
	start := map[*Node]bool{}
	calls := 0
	for _, n := range g.liveNodes {
		if n.callee == nil || n.callee.fn != walk {
			continue
		}
		calls++
		arg := func(i int) *Term { return g.argTerm(n.callee.args[i]) }
		bad := ""
		if len(n.callee.args) <= in || len(n.callee.args) <= pre {
			bad = "it is called in an unknown way"
		} else if g.P(arg(in)) != "$0" {
			bad = "it walks " + g.P(arg(in)) + ", not the document"
		} else if p := g.single(arg(pre)); p.op != "const" || p.s != `""` {
			bad = "it starts with the prefix " + g.P(p)
		} else if out >= 0 {
			for _, o := range outs {
				if g.single(arg(out)) != o {
					bad = "it walks into another map than it returns"
				}
			}
		}
		if c.check(bad == "", "start", lab, g.where(n), bad) {
			start[n] = true
		}
		if g.loopOf[n] != nil {
			c.bad("start", lab, g.where(n), "it walks the document more than once")
		}
		sp := n
		if _, isGo := n.in.(*ssa.Go); !isGo {
			sp = n.fr.thread.spawn
		}
		if sp != nil {
			p := g.find([]*Node{sp}, searchOpt{avoid: waitsForOthers, goal: g.isRootExit})
			c.check(p == nil, "start", lab+"/finished", g.where(n), "it may return before the document is walked: "+g.pathText(p))
		}
	}
	p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return start[n] }, goal: g.isRootExit,
		skip: func(a, b *Node) bool { return g.emptyGuard(b, "$0") }})
	c.check(p == nil && len(start) > 0, "start", lab, g.where(g.root.entry), "the document may not be walked: "+g.pathText(p))
	// nothing else is put into the result
	for _, e := range g.effects() {
		if e.kind == "store" && strings.HasPrefix(e.path, "new") {
			continue
		}
		if e.n.fr == first || g.inFrame(e.n, first) {
			continue
		}
		c.bad("adds-nothing", lab, g.where(e.n), "it changes "+e.path+" beside the walk")
	}
	c.docID()
}

// waitsForOthers tells whether a node waits for another goroutine.
func waitsForOthers(n *Node) bool {
	if n.callName() == "(*sync.WaitGroup).Wait" {
		return true
	}
	u, ok := n.in.(*ssa.UnOp)
	return ok && n.kind == NInstr && u.Op == token.ARROW
}

func itoa(i int) string { return string(rune('0' + i)) }

func (g *Graph) inFrame(n *Node, f *Frame) bool {
	for x := n.fr; x != nil; x = x.parent {
		if x == f {
			return true
		}
	}
	return false
}

// callsBack tells whether a call that was not inlined calls fn again.
func (g *Graph) callsBack(n *Node, fn *ssa.Function) bool {
	cc := n.common()
	if cc == nil || cc.IsInvoke() {
		return false
	}
	if f := cc.StaticCallee(); f != nil {
		return f == fn || body(f) == fn
	}
	t := g.single(g.term(n.fr, cc.Value))
	if t.op == "func" || t.op == "closure" {
		return t.fn == fn || body(t.fn) == fn
	}
	// the variable that holds the closure itself
	if fn.Parent() != nil && n.fr.fn == fn {
		base := t
		for len(base.args) > 0 {
			base = base.args[0]
		}
		if base.op == "freevar" && types.Identical(cc.Signature().Params(), fn.Signature.Params()) {
			return true
		}
	}
	return false
}

func (g *Graph) recArgs(n *Node) []*Term {
	var out []*Term
	for _, a := range n.common().Args {
		out = append(out, g.term(n.fr, a))
	}
	return out
}

// docID: the id is the formatted value of the id field.
func (c *Ctx) docID() {
	f := c.p.Func("field", "GetID")
	if f == nil {
		c.bad("anchor", "field.GetID", "", "the function does not exist")
		return
	}
	g := c.graph(f, nil, "full")
	lab := "field.GetID"
	const id = `"Id"`
	slot := "$0[" + id + "]"
	// a key of a walk over the document that is known to be the id
	idKey := func(b *Node) *Loop {
		if b.kind != NBranch || b.maybe {
			return nil
		}
		t, pol := g.single0(g.cond(b)), b.pol
		for t.op == "un" && t.s == "!" {
			t, pol = g.single0(t.args[0]), !pol
		}
		if t.op != "bin" || t.s != "==" && t.s != "!=" || (t.s == "==") != pol {
			return nil
		}
		for i := 0; i < 2; i++ {
			if g.P(t.args[i]) == id {
				for _, l := range g.loops {
					if l.kind == "map" && g.deref(l.dom, true) == "$0" && g.single0(t.args[1-i]) == g.single0(l.key) {
						return l
					}
				}
			}
		}
		return nil
	}
	isVal := func(t *Term, at *Node) bool {
		t = g.stripAssert(t)
		if g.P(t) == slot {
			return true
		}
		for _, b := range append(g.guards(at), at) {
			if l := idKey(b); l != nil && l.val != nil && g.P(t) == g.P(l.val) {
				return true
			}
		}
		return false
	}
	found := false
	for _, ch := range g.rootResults(0) {
		v := ch.v
		if v.op == "const" && v.s == `""` {
			// only when the id is missing: a failed look-up, or a walk that met every key
			p := g.find([]*Node{g.root.entry}, searchOpt{goal: func(n *Node) bool { return n == ch.at },
				skip: func(a, b *Node) bool { return g.emptyGuard(b, slot) || g.emptyGuard(b, "$0") || g.walkEnd(b, idKey) }})
			c.check(p == nil, "id", lab, g.where(ch.at), "no id is returned although the document has one: "+g.pathText(p))
			continue
		}
		ok := false
		switch {
		case v.op == "call" && v.s == "fmt.Sprintf":
			if vs, isV := g.varargs(v.args[1]); isV && len(vs) == 1 && v.args[0].s == `"%v"` {
				ok = isVal(vs[0], ch.at)
			}
		case v.op == "call" && v.s == "fmt.Sprint":
			if vs, isV := g.varargs(v.args[0]); isV && len(vs) == 1 {
				ok = isVal(vs[0], ch.at)
			}
		default:
			// the text itself, when it is one
			if isVal(v, ch.at) {
				ok = g.onlyIf(ch.at, func(b *Node) bool {
					return b.kind == NBranch && !b.maybe && b.pol && strings.HasPrefix(g.P(g.cond(b)), "typeok:string(")
				})
			}
		}
		found = found || ok
		c.check(ok, "id", lab, g.where(ch.at), "the id is "+g.P(v)+", not the text of the value of the id field")
	}
	c.check(found, "id", lab, g.where(g.root.entry), "the id is never returned")
	for _, e := range g.effects() {
		if !strings.HasPrefix(e.path, "new") {
			c.bad("input", lab, g.where(e.n), "it changes "+e.path)
		}
	}
}

// walkEnd: the end of a walk over all keys that cannot pass the wanted key by.
func (g *Graph) walkEnd(b *Node, hit func(*Node) *Loop) bool {
	for _, l := range g.loops {
		if l.done != b || l.kind != "map" {
			continue
		}
		hits := 0
		for _, n := range g.liveNodes {
			if hit(n) == l && g.loopsHas(l, n.pred) {
				hits++
				if l.body[n] && g.find([]*Node{n}, searchOpt{goal: func(x *Node) bool { return x == l.header }}) != nil {
					return false
				}
			}
		}
		// each iteration tests its key
		if hits > 0 && g.perIteration(l, func(n *Node) bool {
			if n.kind != NInstr || len(n.succ) != 2 {
				return false
			}
			return hit(n.succ[0]) == l || hit(n.succ[1]) == l
		}) == nil {
			return true
		}
	}
	return false
}

func (g *Graph) loopsHas(l *Loop, ns []*Node) bool {
	for _, n := range ns {
		if l.body[n] {
			return true
		}
	}
	return false
}

func init() {
	register("C27", 1, "", ruleC27)
}
