package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C21: documents and queries are analysed alike ----------------------------------------------------------

// opaqueService keeps the steps of the text analysis and the operations of the index and the search as calls.
func opaqueService(p *Prog) func(*ssa.Function) bool {
	leaf := map[*ssa.Function]bool{}
	add := func(pkg, iface string, all bool) {
		for _, nt := range p.Implementers(pkg, iface) {
			for _, f := range exportedMethods(p, nt) {
				if all || !p.callsMethod(f, pkg, iface) {
					leaf[f] = true
				}
			}
		}
	}
	add("filter", "Filter", false)
	add("tokenizer", "Tokenizer", false)
	add("index", "Index", true)
	add("search", "Search", true)
	add("storage", "Storage", true)
	return func(f *ssa.Function) bool {
		if leaf[f] || isCounting(f) {
			return true
		}
		switch funcPkgPath(f) {
		case Module + "/language", Module + "/storage", Module + "/cache", Module + "/index", Module + "/search", Module + "/field", Module + "/file", Module + "/testecolection":
			return true
		}
		return false
	}
}

// isCounting tells whether a function makes counts of a list of tokens.
func isCounting(f *ssa.Function) bool {
	s := f.Signature
	return s.Recv() == nil && f.Parent() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 &&
		s.Params().At(0).Type().String() == "[]string" && s.Results().At(0).Type().String() == "map[string]int"
}

// callsMethod tells whether a function calls a method of an interface of the module.
func (p *Prog) callsMethod(f *ssa.Function, pkg, iface string) bool {
	it := p.Named(pkg, iface)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && it != nil && types.Identical(c.Common().Value.Type(), it) {
				return true
			}
		}
	}
	return false
}

type service struct {
	c   *Ctx
	g   *Graph
	lab string

	lists []*Term // lists of tokens that calls made
}

// analysis is how a list of tokens is made from a text.
type analysis struct {
	steps []string // what is done, in order
	kinds []string // names of the types that do it
	text  *Term
	node  *Node
}

func (a *analysis) String() string { return strings.Join(a.steps, ", ") }

// chain finds the steps that lead from a text to a list of tokens.
func (s *service) chain(t *Term, d int) (*analysis, string) {
	g := s.g
	if d > 24 {
		return nil, "the analysis is too long"
	}
	t = g.single0(t)
	if t.op == "conv" || t.op == "iface" {
		return s.chain(t.args[0], d+1)
	}
	if isStringType(t.typ) && t.op != "call" {
		if t.op == "slice" {
			a, why := s.chain(t.args[0], d+1)
			if a == nil {
				return nil, why
			}
			a.steps = append(a.steps, "part of the text")
			a.kinds = append(a.kinds, "")
			return a, ""
		}
		if t.op == "phi" || t.op == "ret" {
			return s.merged(t, d)
		}
		return &analysis{text: t}, ""
	}
	switch t.op {
	case "call":
		i := strings.LastIndex(t.s, ".")
		m := t.s[i+1:]
		if isStringList(t.typ) {
			s.lists = append(s.lists, t)
		}
		switch {
		case (m == "Process" && strings.Contains(t.s, "/filter.") || m == "Tokenize" && strings.Contains(t.s, "/tokenizer.")) && len(t.args) == 2:
			a, why := s.chain(t.args[1], d+1)
			if a == nil {
				return nil, why
			}
			kind, desc := s.describe(t.args[0], 0)
			a.steps = append(a.steps, m+" of "+desc)
			a.kinds = append(a.kinds, kind)
			a.node = t.node
			return a, ""
		case t.s == "strings.TrimSpace" || t.s == "strings.Clone" || t.s == "slices.Clone":
			return s.chain(t.args[0], d+1)
		case strings.HasPrefix(t.s, "strings.") && len(t.args) > 0:
			if isStringType(t.args[0].typ) || isStringList(t.args[0].typ) {
				a, why := s.chain(t.args[0], d+1)
				if a == nil {
					return nil, why
				}
				desc := t.s
				for _, x := range t.args[1:] {
					_, ds := s.describe(x, 0)
					desc += " " + ds
				}
				a.steps = append(a.steps, desc)
				a.kinds = append(a.kinds, t.s)
				a.node = t.node
				return a, ""
			}
		}
		if isStringType(t.typ) {
			return &analysis{text: t}, ""
		}
		return nil, "how the tokens are made is not known: " + g.P(t)
	case "slice":
		a, why := s.chain(t.args[0], d+1)
		if a == nil {
			return nil, why
		}
		lo, hi := g.single0(t.args[1]), g.single0(t.args[2])
		if k, ok := constInt(lo); (lo.op == "none" || ok && k == 0) && (hi.op == "none" || hi.op == "len" && g.sameCont(hi.args[0], t.args[0])) {
			return a, ""
		}
		a.steps = append(a.steps, "part of the tokens")
		a.kinds = append(a.kinds, "")
		return a, ""
	case "append":
		// a copy
		if len(t.args) == 2 {
			if b := g.single0(t.args[0]); isNilConst(b) || b.op == "fresh" || b.op == "slice" {
				if _, ok := g.varargs(t.args[1]); !ok {
					return s.chain(t.args[1], d+1)
				}
			}
		}
	case "phi":
		if a, why, ok := s.fold(t, d); ok {
			return a, why
		}
		return s.merged(t, d)
	case "ret", "load":
		return s.merged(t, d)
	}
	if isStringType(t.typ) {
		return &analysis{text: t}, ""
	}
	return nil, "how the tokens are made is not known: " + g.P(t)
}

func isStringList(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStringType(s.Elem())
}

// merged: all alternatives are the same analysis; no tokens are a choice for a text without tokens.
func (s *service) merged(t *Term, d int) (*analysis, string) {
	g := s.g
	type alt struct {
		v  *Term
		at []*Node // nodes one of which runs when this is the value
		fr *Frame
	}
	var as []alt
	switch t.op {
	case "phi":
		p := t.v.(*ssa.Phi)
		for i, e := range p.Edges {
			pb := p.Block().Preds[i]
			if t.fr.first[pb] == nil {
				continue
			}
			as = append(as, alt{g.term(t.fr, e), g.edgeNodes(t.fr, pb, p.Block()), t.fr})
		}
	case "ret":
		cf := t.node.callee
		for _, r := range cf.rets {
			as = append(as, alt{g.retVal(cf, r, t.i), []*Node{r}, cf})
		}
	case "load":
		for _, m := range g.memVals(t.node, t.args[0], t.typ) {
			var at []*Node
			if m.node != nil {
				at = []*Node{m.node}
			}
			as = append(as, alt{m.val, at, t.fr})
		}
	}
	var out *analysis
	var empty []alt
	for _, a := range as {
		if s.noTokens(a.v) {
			empty = append(empty, a)
			continue
		}
		x, why := s.chain(a.v, d+1)
		if x == nil {
			return nil, why
		}
		if out != nil && (out.String() != x.String() || g.K(out.text) != g.K(x.text)) {
			return nil, "it is analysed in different ways: " + out.String() + " (of " + g.P(out.text) + ") or " + x.String() + " (of " + g.P(x.text) + ")"
		}
		out = x
	}
	if out == nil {
		return nil, "no tokens are made: " + g.P(t)
	}
	for _, a := range empty {
		from := g.threads[0].entry
		if len(a.at) == 0 {
			return nil, "there may be no tokens although there is a text"
		}
		from = a.at[0].fr.thread.entry
		p := g.find([]*Node{from}, searchOpt{
			avoid: func(n *Node) bool { return s.saysNone(n, out, d) },
			goal:  func(n *Node) bool { return contains(a.at, n) },
		})
		if p != nil {
			return nil, "there may be no tokens although there is a text: " + g.pathText(p)
		}
	}
	return out, ""
}

// edgeNodes are the nodes that run when control goes from one block to another.
func (g *Graph) edgeNodes(fr *Frame, from, to *ssa.BasicBlock) []*Node {
	var out []*Node
	for _, n := range fr.first[to].pred {
		if n.in != nil && n.fr == fr && n.in.Block() == from {
			out = append(out, n)
		}
		if n.fr != fr && n == g.lastOf(fr, from) {
			out = append(out, n)
		}
	}
	if len(out) == 0 {
		if l := g.lastOf(fr, from); l != nil {
			out = append(out, l)
		}
	}
	return out
}

func (s *service) noTokens(t *Term) bool {
	g := s.g
	t = g.single0(t)
	if isNilConst(t) {
		return true
	}
	if isEmptyStr(t) {
		return true
	}
	if t.op == "fresh" || t.op == "slice" {
		if n := g.madeLen(t); n != nil {
			k, ok := constInt(g.single0(n))
			return ok && k == 0
		}
		if va, ok := g.varargs(t); ok && len(va) == 0 {
			return true
		}
	}
	return false
}

// saysNone tells whether a branch says that the text, or the tokens made from it so far, are empty.
func (s *service) saysNone(n *Node, a *analysis, d int) bool {
	g := s.g
	if n.kind != NBranch || n.maybe || n.cond == nil {
		return false
	}
	c, pol := g.single0(g.cond(n)), n.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op != "bin" {
		return false
	}
	x, y, op := g.single0(c.args[0]), g.single0(c.args[1]), c.s
	if x.op == "const" {
		x, y = y, x
		op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
	}
	if !pol {
		op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	isIt := func(t *Term) bool {
		if g.K(t) == g.K(a.text) {
			return true
		}
		if d > 6 {
			return false
		}
		b, _ := s.chain(t, d+8)
		if b == nil || g.K(b.text) != g.K(a.text) || len(b.steps) > len(a.steps) {
			return false
		}
		for i := range b.steps {
			if b.steps[i] != a.steps[i] {
				return false
			}
		}
		return true
	}
	if x.op == "len" {
		k, ok := constInt(y)
		return ok && (op == "==" && k == 0 || op == "<" && k == 1 || op == "<=" && k == 0) && isIt(g.single0(x.args[0]))
	}
	if op == "==" && (isEmptyStr(y) || isNilConst(y)) {
		return isIt(x)
	}
	return false
}

// fold: a loop over a list of filters that hands the tokens from one to the next.
func (s *service) fold(t *Term, d int) (*analysis, string, bool) {
	g := s.g
	var l *Loop
	for _, x := range g.loops {
		if x.header.fr == t.fr && x.header.in != nil && x.header.in.Block() == t.v.(*ssa.Phi).Block() {
			l = x
		}
	}
	if l == nil || l.key == nil || !(l.kind == "slice" && l.dom != nil || l.kind == "count" && l.bound != nil) {
		return nil, "", false
	}
	p := t.v.(*ssa.Phi)
	var init *Term
	var step *Term
	for i, e := range p.Edges {
		pb := p.Block().Preds[i]
		if t.fr.first[pb] == nil {
			continue
		}
		last := g.lastOf(t.fr, pb)
		v := g.single0(g.term(t.fr, e))
		if last != nil && l.body[last] {
			if step != nil && step != v {
				return nil, "a filter may be skipped", true
			}
			step = v
		} else {
			if init != nil && init != v {
				return nil, "", false
			}
			init = v
		}
	}
	if init == nil || step == nil {
		return nil, "", false
	}
	if step.op != "call" || !strings.HasSuffix(step.s, ".Process") || len(step.args) != 2 || g.single0(step.args[1]) != t {
		return nil, "the tokens are not handed from filter to filter: " + g.P(step), true
	}
	ia, f := g.elemSource(step.args[0])
	if ia == nil || f != "" || g.K(ia.args[1]) != g.K(l.key) {
		return nil, "it is not each filter of the list that is applied", true
	}
	list := ia.args[0]
	og, es, ok := g.literal(list)
	whole := g.coversSlice(l, list)
	if ok && l.kind == "count" {
		if k, isK := constInt(g.single0(l.bound)); isK {
			whole = k == int64(len(es))
		}
	}
	if !whole {
		return nil, "it is not each filter of the list that is applied", true
	}
	if len(g.exits(l)) > 0 {
		return nil, "filters can be left out, the loop over them can be left early", true
	}
	a, why := s.chain(init, d+1)
	if a == nil {
		return nil, why, true
	}
	if !ok {
		return nil, "the filters are not known: " + g.P(list), true
	}
	os := &service{c: s.c, g: og}
	for _, e := range es {
		kind, desc := os.describe(e, 0)
		a.steps = append(a.steps, "Process of "+desc)
		a.kinds = append(a.kinds, kind)
	}
	a.node = step.node
	return a, "", true
}

// literal lists the elements of a slice literal, of a package variable too.
func (g *Graph) literal(t *Term) (*Graph, []*Term, bool) {
	s := g.single(t)
	if s == nil {
		return nil, nil, false
	}
	if b := s; s.op == "load" || s.op == "init" {
		if b = s.args[0]; b.op == "global" {
			if og, v := g.globalValue(b); v != nil {
				return og.literal(v)
			}
		}
		return nil, nil, false
	}
	es, ok := g.varargs(s)
	return g, es, ok && s.op != "const"
}

// globalValue is what a package variable that is never assigned again is initialized with.
func (g *Graph) globalValue(b *Term) (*Graph, *Term) {
	if !g.p.fixedGlobal(b) {
		return nil, nil
	}
	for path, sp := range g.p.ByID {
		if !strings.HasPrefix(b.s, path+".") || strings.Contains(b.s[len(path)+1:], "/") {
			continue
		}
		gl := sp.Var(b.s[len(path)+1:])
		init := sp.Func("init")
		if gl == nil || init == nil {
			continue
		}
		og := g.p.initGraph(init, g.opaque)
		for _, n := range og.liveNodes {
			if n.kind != NInstr {
				continue
			}
			if st, ok := n.in.(*ssa.Store); ok && st.Addr == gl {
				return og, og.term(n.fr, st.Val)
			}
		}
	}
	return nil, nil
}

var initGraphs = map[*ssa.Function]*Graph{}

func (p *Prog) initGraph(f *ssa.Function, opaque func(*ssa.Function) bool) *Graph {
	if g := initGraphs[f]; g != nil && g.p == p {
		return g
	}
	g := p.NewGraph(f, func(x *ssa.Function) bool { return x.Name() == "init" || opaque != nil && opaque(x) })
	initGraphs[f] = g
	return g
}

// describe names a value by its type and parts, the same in every place that makes it alike.
func (s *service) describe(t *Term, d int) (kind, desc string) {
	g := s.g
	if d > 6 {
		return "", "..."
	}
	t = g.single0(t)
	if t.op == "conv" || t.op == "iface" {
		return s.describe(t.args[0], d+1)
	}
	if t.op == "load" || t.op == "init" {
		if b := t.args[0]; b.op == "global" {
			if og, v := g.globalValue(b); v != nil && !types.IsInterface(v.typ) {
				if _, ok := v.typ.Underlying().(*types.Map); !ok {
					return (&service{c: s.c, g: og}).describe(v, d+1)
				}
			}
			return typeName(t.typ), b.s
		}
		if t.op == "load" {
			if v := g.single(t); v != nil && v != t {
				return s.describe(v, d+1)
			}
		}
	}
	kind = typeName(t.typ)
	switch t.op {
	case "const", "zero":
		if st, ok := derefType(t.typ).Underlying().(*types.Struct); ok {
			return kind, kind + fmt.Sprint("{", st.NumFields(), "}")
		}
		return kind, g.P(t)
	case "fresh":
		al, ok := t.v.(*ssa.Alloc)
		if !ok {
			return kind, kind
		}
		st, ok := derefType(al.Type()).Underlying().(*types.Struct)
		if !ok {
			return kind, kind
		}
		kind = typeName(derefType(al.Type()))
		parts := map[string]string{}
		for _, n := range g.storesTo(t) {
			a := g.term(n.fr, n.in.(*ssa.Store).Addr)
			if a.op == "fieldaddr" && a.args[0] == t {
				_, v := s.describe(g.term(n.fr, n.in.(*ssa.Store).Val), d+1)
				if o := parts[a.s]; o != "" && o != v {
					v = o + "|" + v
				}
				parts[a.s] = v
			}
		}
		desc = kind + fmt.Sprint("{", st.NumFields())
		for _, k := range sortedKeys(parts) {
			if st.NumFields() > 0 && parts[k] != "" {
				desc += " " + k + ":" + parts[k]
			}
		}
		return kind, desc + "}"
	case "call":
		desc = t.s + "("
		for i, a := range t.args {
			if i > 0 {
				desc += ","
			}
			_, x := s.describe(a, d+1)
			desc += x
		}
		return kind, desc + ")"
	}
	return kind, g.P(t)
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	if n, ok := derefType(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// ---- the places that index or query

// part is one stored field of a document, or one part of a query.
type part struct {
	base *Term
	node *Node
	vals map[string][]*Term
}

// built lists the values of a struct type that are made in a graph.
func (s *service) built(pkg, name string) []*part {
	g := s.g
	nt := g.p.Named(pkg, name)
	by := map[*Term]*part{}
	var out []*part
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		st, ok := n.in.(*ssa.Store)
		if !ok {
			continue
		}
		a := g.term(n.fr, st.Addr)
		if a.op != "fieldaddr" || a.args[0].typ == nil || nt == nil || !types.Identical(derefType(a.args[0].typ), nt) {
			continue
		}
		b := a.args[0]
		p := by[b]
		if p == nil {
			p = &part{base: b, node: n, vals: map[string][]*Term{}}
			by[b] = p
			out = append(out, p)
		}
		p.vals[a.s] = append(p.vals[a.s], g.term(n.fr, st.Val))
	}
	// a value that is copied before it is complete
	copied := map[*part]bool{}
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		st, ok := n.in.(*ssa.Store)
		if !ok || nt == nil || !types.Identical(st.Val.Type(), nt) {
			continue
		}
		to := by[g.term(n.fr, st.Addr)]
		v := g.term(n.fr, st.Val)
		if to == nil || v.op != "snapshot" && v.op != "load" {
			continue
		}
		from := by[v.args[0]]
		if from == nil || from == to {
			continue
		}
		for _, f := range sortedKeys(from.vals) {
			if len(to.vals[f]) == 0 {
				to.vals[f] = from.vals[f]
			}
		}
		copied[from] = true
	}
	var left []*part
	for _, p := range out {
		if !copied[p] {
			left = append(left, p)
		}
	}
	return left
}

// roots are the functions of the service that nobody of the service calls.
func (c *Ctx) serviceRoots() []*ssa.Function {
	sp := c.p.Package("")
	if sp == nil {
		return nil
	}
	called := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if funcPkgPath(f) != Module {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if x, ok := (*op).(*ssa.Function); ok && x != f {
						called[x] = true
						if o, ok := x.Object().(*types.Func); ok && x.Synthetic != "" { // a bound method
							called[c.p.SSA.FuncValue(o)] = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		if funcPkgPath(f) == Module && f.Parent() == nil && !called[f] && f.Name() != "init" && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

func ruleC21(c *Ctx) {
	opq := opaqueService(c.p)
	var first *analysis
	var firstAt string
	same := func(s *service, t *Term, what, where string) *analysis {
		a, why := s.chain(t, 0)
		if !c.check(a != nil, "analysis", s.lab, where, what+": "+why) {
			return nil
		}
		if first == nil {
			first, firstAt = a, where
			c.ok("analysis", s.lab, where, "")
			s.order(a, where)
			return a
		}
		c.check(a.String() == first.String(), "analysis", s.lab, where, what+" are made by ["+a.String()+"], but those of "+firstAt+" by ["+first.String()+"]")
		return a
	}
	fields, queries := 0, 0
	counting := map[*ssa.Function]bool{}
	for _, f := range c.serviceRoots() {
		g := c.graph(f, opq, "service")
		s := &service{c: c, g: g, lab: fnLabel(f)}
		names := map[string]bool{}
		type asked struct{ name, where string }
		var qs []asked
		for _, p := range s.built("model", "Field") {
			fields++
			where := g.where(p.node)
			if !c.check(len(p.vals["TF"]) > 0 && len(p.vals["Length"]) > 0 && len(p.vals["Name"]) > 0, "field", s.lab, where, "a field is stored without its name, length or term counts") {
				continue
			}
			for _, nm := range p.vals["Name"] {
				for _, v := range s.names(nm) {
					names[v] = true
				}
			}
			var of *analysis
			for _, tf := range p.vals["TF"] {
				x := g.single0(tf)
				fn := calledBy(x)
				if !c.check(fn != nil && isCounting(fn), "counts", s.lab, where, "the term counts are not counted from the tokens: "+g.P(x)) {
					continue
				}
				counting[fn] = true
				changed := ""
				for _, e := range g.effects() {
					if e.kind != "store" && g.mayBe(e.m, x) {
						changed = g.where(e.n)
					}
				}
				c.check(changed == "", "counts", s.lab+"/as-counted", where, "the term counts are changed after they were counted, at "+changed)
				a := same(s, x.args[0], "the tokens of a field", where)
				of = a
			}
			for _, ln := range p.vals["Length"] {
				x := g.single0(ln)
				if !c.check(x.op == "len", "length", s.lab, where, "the length of a field is not the number of its tokens: "+g.P(x)) || of == nil {
					continue
				}
				a, why := s.chain(x.args[0], 0)
				if c.check(a != nil, "length", s.lab, where, why) {
					c.check(a.String() == of.String() && g.K(a.text) == g.K(of.text), "length", s.lab, where, "the length of a field belongs to other tokens than its term counts: "+g.P(a.text)+" and "+g.P(of.text))
				}
			}
		}
		for _, p := range s.built("model", "Query") {
			queries++
			where := g.where(p.node)
			for _, t := range p.vals["Terms"] {
				same(s, t, "the terms of a query", where)
			}
			for _, nm := range p.vals["FieldName"] {
				for _, v := range s.names(nm) {
					qs = append(qs, asked{v, where})
				}
			}
		}
		for _, n := range g.liveNodes {
			if n.kind == NInstr && n.common() != nil && !isDeferOrGo(n) && strings.HasSuffix(n.callName(), "/index.Index).Search") {
				queries++
				as := g.callArgs(n)
				same(s, as[len(as)-2], "the terms of a search", g.where(n))
			}
		}
		s.untouched()
		for _, q := range qs {
			c.check(names[q.name] || names["*"], "field-name", s.lab, q.where, "field "+q.name+" is asked for but never indexed")
		}
	}
	c.check(fields > 0, "sites", "main", "", "nothing is indexed")
	c.check(queries > 0, "sites", "main", "", "nothing is asked for")
	for _, f := range sortedFuncs(counting) {
		c.countsTokens(f)
	}
	ruleC20(c)
}

// untouched decides that nobody overwrites tokens after a step made them.
func (s *service) untouched() {
	g := s.g
	made := map[*Term]bool{}
	for _, t := range s.lists {
		made[t] = true
	}
	base := func(t *Term) bool {
		for i := 0; i < 8; i++ {
			if t = g.single0(t); t.op != "slice" {
				break
			}
			t = t.args[0]
		}
		for _, v := range g.vals(t) {
			if made[v] {
				return true
			}
		}
		return made[t]
	}
	bad := ""
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		if st, ok := n.in.(*ssa.Store); ok {
			if a := g.term(n.fr, st.Addr); a.op == "indexaddr" && base(a.args[0]) {
				bad = g.where(n)
			}
		}
		if cc := n.common(); cc != nil && !isDeferOrGo(n) && len(cc.Args) > 0 {
			switch cn := n.callName(); {
			case cn == "builtin.copy", cn == "builtin.clear":
				if base(g.term(n.fr, cc.Args[0])) {
					bad = g.where(n)
				}
			case cn == "builtin.append":
				// into the array of the tokens
				if a := g.single0(g.term(n.fr, cc.Args[0])); a.op == "slice" && base(a) && g.single0(a.args[3]).op == "none" {
					bad = g.where(n)
				}
			}
		}
	}
	if len(made) > 0 {
		s.c.check(bad == "", "tokens-kept", s.lab, g.where(g.root.entry), "tokens are overwritten after they were made, at "+bad)
	}
}

// names lists the constants a name can be; * when it is anything.
func (s *service) names(t *Term) []string {
	g := s.g
	t = g.single0(t)
	if k := constStr(t); k != "" {
		return []string{k}
	}
	if t.op == "rangekey" {
		if l, _ := g.iterOf(t); l != nil && l.dom != nil {
			if ks, ok := g.literalKeys(l.dom); ok {
				return ks
			}
		}
	}
	if ia, f := g.elemSource(t); ia != nil {
		if _, es, ok := g.literalParts(ia.args[0], f); ok {
			var out []string
			for _, e := range es {
				out = append(out, s.names(e)...)
			}
			return out
		}
	}
	return []string{"*"}
}

// literalKeys lists the constant keys of a map literal.
func (g *Graph) literalKeys(m *Term) ([]string, bool) {
	x := g.single(m)
	if x == nil || x.op != "fresh" {
		return nil, false
	}
	var out []string
	for _, e := range g.effects() {
		if e.m == nil || e.kind == "store" || !g.sameCont(e.m, x) {
			continue
		}
		k := constStr(g.single0(e.k))
		if e.kind != "update" || k == "" {
			return nil, false
		}
		out = append(out, k)
	}
	return out, true
}

// literalParts lists one field of the elements of a slice literal (the elements themselves without a field).
func (g *Graph) literalParts(t *Term, field string) ([]*Node, []*Term, bool) {
	s := g.single(t)
	if s == nil {
		return nil, nil, false
	}
	for s.op == "slice" {
		s = s.args[0]
	}
	if s.op != "fresh" {
		return nil, nil, false
	}
	al, ok := s.v.(*ssa.Alloc)
	if !ok {
		return nil, nil, false
	}
	arr, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, nil, false
	}
	out := make([]*Term, arr.Len())
	nodes := make([]*Node, arr.Len())
	for _, n := range g.storesToSlice(s) {
		a := g.term(n.fr, n.in.(*ssa.Store).Addr)
		ia := innerIndex(a)
		i, ok := constInt(g.single0(ia.args[1]))
		if !ok || i < 0 || i >= arr.Len() {
			return nil, nil, false
		}
		v := g.term(n.fr, n.in.(*ssa.Store).Val)
		switch {
		case a == ia && field == "":
			out[i], nodes[i] = v, n
		case a == ia:
			if fs := g.fieldVals(v, field); len(fs) == 1 {
				out[i], nodes[i] = fs[0], n
			}
		case a.op == "fieldaddr" && a.args[0] == ia && a.s == field:
			out[i], nodes[i] = v, n
		}
	}
	for i := range out {
		if out[i] == nil {
			if st, ok := arr.Elem().Underlying().(*types.Struct); ok && field != "" {
				for k := 0; k < st.NumFields(); k++ {
					if st.Field(k).Name() == field {
						out[i] = g.zero(st.Field(k).Type())
					}
				}
			}
			if out[i] == nil {
				return nil, nil, false
			}
		}
	}
	return nodes, out, true
}

func constStr(t *Term) string {
	if t == nil || t.op != "const" || t.cv == nil || t.cv.Kind() != constant.String {
		return ""
	}
	return constant.StringVal(t.cv)
}

func isEmptyStr(t *Term) bool {
	return t.op == "const" && t.cv != nil && t.cv.Kind() == constant.String && constant.StringVal(t.cv) == ""
}

func calledBy(t *Term) *ssa.Function {
	if t.op != "call" || t.node == nil || t.node.in == nil {
		return nil
	}
	if c, ok := t.node.in.(ssa.CallInstruction); ok {
		return c.Common().StaticCallee()
	}
	return nil
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// order: case is folded before stop words are looked up, and words are not stemmed before that.
func (s *service) order(a *analysis, where string) {
	c := s.c
	low, tok, stem := -1, -1, -1
	for i, k := range a.kinds {
		switch {
		case k == "Lowercase" || k == "strings.ToLower":
			low = i
		case strings.HasPrefix(a.steps[i], "Tokenize"):
			c.check(tok < 0, "order", s.lab, where, "the text is split twice")
			tok = i
		case k == "Stemmer":
			stem = i
		case k == "StopWords":
			c.check(low >= 0, "order", s.lab, where, "stop words are looked up before the case is folded: "+a.String())
			c.check(stem < 0, "order", s.lab, where, "stop words are looked up after the words were stemmed: "+a.String())
		}
	}
	c.check(tok >= 0 || contains2(a.kinds, "strings."), "order", s.lab, where, "the text is not split into tokens: "+a.String())
}

func contains2(ss []string, prefix string) bool {
	for _, s := range ss {
		if strings.HasPrefix(s, prefix) {
			return true
		}
	}
	return false
}

// countsTokens: a function counts each token of its argument once.
func (c *Ctx) countsTokens(f *ssa.Function) {
	g := c.graph(f, nil, "")
	lab := fnLabel(f)
	arg := g.term(g.root, body(f).Params[0])
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		v := g.single(g.retVal(g.root, r, 0))
		where := g.where(r)
		if !c.check(v != nil && v.op == "fresh", "counting", lab, where, "the counts are not made for this call") {
			continue
		}
		var loops []*Loop
		puts := map[*Node]bool{}
		for _, e := range g.effects() {
			if e.m == nil || e.kind == "store" || !g.sameCont(e.m, v) {
				continue
			}
			w := g.where(e.n)
			if !c.check(e.kind == "update", "counting", lab, w, "a count is taken away") {
				continue
			}
			var l *Loop
			for _, x := range g.loopsAround(e.n) {
				if x.kind == "slice" && g.isToken(e.k, x, arg) {
					l = x
				}
			}
			if l == nil && len(g.loopsAround(e.n)) > 0 {
				for _, x := range g.loopsAround(e.n) {
					if (x.kind == "count" || x.kind == "slice") && x.key != nil {
						if ia, fl := g.elemSource(e.k); ia != nil && fl == "" && g.sameCont(ia.args[0], arg) && g.K(ia.args[1]) == g.K(x.key) && (x.dom != nil && g.sameCont(x.dom, arg) || g.isCountOf(x, arg)) {
							l = x
						}
					}
				}
			}
			if !c.check(l != nil, "counting", lab, w, "what is counted is not each token of the list: "+g.P(e.k)) {
				continue
			}
			loops = append(loops, l)
			puts[e.n] = true
			d := g.deltaOf(e)
			one := false
			if d != nil {
				k, ok := constInt(g.single0(d))
				one = ok && k == 1
			}
			c.check(one, "counting", lab, w, "a token does not count as one: "+g.P(e.v))
			if e.n.fr.thread != g.threads[0] {
				c.check(e.n.fr.thread.sequential(), "counting", lab, w, "tokens are counted by goroutines")
			}
		}
		if !c.check(len(loops) > 0, "counting", lab, where, "nothing is counted") {
			continue
		}
		isPut := func(n *Node) bool { return puts[n] }
		for _, l := range loops {
			if l != loops[0] {
				c.bad("counting", lab, where, "several loops count the tokens")
				continue
			}
			if p := g.perIteration(l, isPut); p != nil {
				c.bad("counting", lab, where, "a token may not be counted: "+g.pathText(p))
			}
			for n := range puts {
				if p := g.find([]*Node{n}, searchOpt{avoid: func(m *Node) bool { return m == l.header }, goal: isPut}); p != nil {
					c.bad("counting", lab, where, "a token can be counted twice: "+g.pathText(p))
				}
			}
			c.check(len(g.exits(l)) == 0, "counting", lab, where, "the loop over the tokens can be left early")
			p := g.find([]*Node{g.root.entry}, searchOpt{
				avoid: func(n *Node) bool { return n == l.done || g.emptyGuard(n, g.P(arg)) },
				goal:  func(n *Node) bool { return n == r },
			})
			c.check(p == nil, "counting", lab, where, "the counts can be returned without the tokens: "+g.pathText(p))
		}
	}
}

// isCountOf tells whether a counting loop runs once per element of a slice.
func (g *Graph) isCountOf(l *Loop, s *Term) bool {
	if l.bound == nil {
		return false
	}
	b := g.single0(l.bound)
	return b.op == "len" && g.sameCont(b.args[0], s)
}

func init() {
	register("C21", 1, "", ruleC21)
}
