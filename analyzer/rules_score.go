package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- C19: BM25 ----------------------------------------------------------------------------------------------

func ruleC19(c *Ctx) {
	fs := c.searchTypes()
	if len(fs) == 0 {
		c.bad("search", "search.Search", "", "nothing implements it")
	}
	for _, f := range fs {
		r := c.ranking(f)
		if r == nil {
			continue
		}
		// find the scores; what is wrong with the ranking itself is C18's business
		q := newCtx(c.p, c.prop, c.tier)
		r.c = q
		r.all()
		r.c = c
		if !c.check(len(r.parts) > 0, "scores", r.lab, c.p.Pos(f.Pos()), "no scores of documents are found") {
			continue
		}
		c.indexStatistics()
		for _, p := range r.parts {
			if p.qloop != nil {
				s := &scoring{r: r, g: r.g, c: c, part: p, logs: map[string]*ratio{}}
				s.check()
			}
		}
	}
}

// indexStatistics: the numbers the formula is about are those the index gives for the field.
func (c *Ctx) indexStatistics() {
	for _, nt := range c.p.Implementers("index", "Index") {
		for _, f := range exportedMethods(c.p, nt) {
			if f.Name() == "Search" {
				if ix := c.indexSearch(f); ix != nil {
					ix.statistics()
				}
			}
		}
	}
}

type scoring struct {
	r    *Ranking
	g    *Graph
	c    *Ctx
	part rankPart
	loop *Loop // over the terms
	acc  *Term // the running sum
	zero map[string]bool
	logs map[string]*ratio
	busy map[*Term]bool
	bad  string

	// for other formulas
	cls   func(*Term) string
	signs map[string]int // 1 positive, 0 not negative
}

// the atoms of the formula
const (
	aBoost = "boost"
	aF     = "f"
	aLen   = "length"
	aAvg   = "average"
	aN     = "N"
	an     = "n"
	aAcc   = "sum"
)

func (s *scoring) logAtom(x *ratio) *ratio {
	for k, y := range s.logs {
		if y.same(x) {
			return ratAtom(k)
		}
	}
	k := fmt.Sprintf("ln%d", len(s.logs))
	s.logs[k] = x
	return ratAtom(k)
}

func rat(s string) *ratio {
	r, _ := new(big.Rat).SetString(s)
	return ratConst(r)
}

// formula is the expected summand.
func (s *scoring) formula() *ratio {
	f, n, N := s.atom(aF), s.atom(an), s.atom(aN)
	boost := ratAtom(aBoost)
	if s.zero[aBoost] {
		boost = rat("1")
	}
	if s.zero[aF] {
		return rat("0")
	}
	idf := s.logAtom(rat("1").add(N.add(n, -1).add(rat("0.5"), 1).div(n.add(rat("0.5"), 1)), 1))
	k1, b := rat("1.2"), rat("0.75")
	den := f.add(k1.mul(rat("1").add(b, -1).add(b.mul(s.atom(aLen).div(s.atom(aAvg))), 1)), 1)
	return boost.mul(idf).mul(f.mul(k1.add(rat("1"), 1)).div(den))
}

func (s *scoring) atom(a string) *ratio {
	if s.zero[a] {
		return rat("0")
	}
	return ratAtom(a)
}

func (s *scoring) check() {
	c, g := s.c, s.g
	where := g.where(s.part.at)
	for _, zb := range []bool{false, true} {
		for _, zf := range []bool{false, true} {
			s.zero = map[string]bool{aBoost: zb, aF: zf}
			s.loop, s.acc, s.bad = nil, nil, ""
			desc := map[bool]string{false: "", true: "boost = 0, "}[zb] + map[bool]string{false: "f > 0", true: "f = 0"}[zf]
			vals := s.eval(s.part.score, s.part.at)
			if vals == nil {
				c.bad("formula", s.r.lab, where, "the score is not understood ("+desc+"): "+s.bad)
				return
			}
			if s.acc == nil {
				c.bad("formula", s.r.lab, where, "the score is no sum over the terms")
				return
			}
			want := s.formula()
			for _, v := range vals {
				// the result is factor*sum
				k, ok := s.factor(v)
				if !ok {
					c.bad("formula", s.r.lab, where, "the score is not the sum of its summands: "+v.String())
					return
				}
				for _, sm := range s.summands() {
					if sm == nil {
						c.bad("formula", s.r.lab, g.where(s.loop.header), "a summand is not understood ("+desc+"): "+s.bad)
						return
					}
					got := sm.mul(k)
					if !c.check(got.same(want), "formula", s.r.lab, g.where(s.loop.header), "with "+desc+" a term adds "+s.show(got)+" instead of "+s.show(want)) {
						return
					}
				}
			}
		}
	}
	c.check(len(g.exits(s.loop)) == 0, "all-terms", s.r.lab, g.where(s.loop.header), "the loop over the terms can be left early")
}

func (s *scoring) show(r *ratio) string {
	out := r.String()
	for _, k := range sortedKeys(s.logs) {
		out += ", " + k + " = ln(" + s.logs[k].String() + ")"
	}
	return out
}

// factor gives k when v is k*sum.
func (s *scoring) factor(v *ratio) (*ratio, bool) {
	num := poly{}
	for m, c := range v.num {
		rest, n := dropAtom(m, aAcc)
		if n != 1 {
			return nil, false
		}
		num[rest] = c
	}
	for m := range v.den {
		if _, n := dropAtom(m, aAcc); n != 0 {
			return nil, false
		}
	}
	return &ratio{num, v.den}, len(num) > 0
}

func dropAtom(m, a string) (string, int) {
	out, n := "", 0
	for _, x := range splitMono(m) {
		if x == a {
			n++
			if n == 1 {
				continue
			}
		}
		out = mulMono(out, x)
	}
	return out, n
}

func splitMono(m string) []string {
	if m == "" {
		return nil
	}
	var out []string
	st := 0
	for i := 0; i <= len(m); i++ {
		if i == len(m) || m[i] == '*' {
			out = append(out, m[st:i])
			st = i + 1
		}
	}
	return out
}

// summands are what one iteration can add to the running sum.
func (s *scoring) summands() []*ratio {
	g := s.g
	var out []*ratio
	p := s.acc.v.(*ssa.Phi)
	fr := s.acc.fr
	for i, e := range p.Edges {
		from := s.edge(s.acc, i)
		if from == nil {
			continue
		}
		if !s.loop.body[from] {
			// the start
			for _, v := range s.evalOr(g.term(fr, e), from) {
				if v == nil || len(v.num) != 0 {
					s.bad = "it does not start with zero"
					return []*ratio{nil}
				}
			}
			continue
		}
		if !s.feasible(from, s.loop.header) {
			continue
		}
		for _, v := range s.evalOr(g.term(fr, e), from) {
			if v == nil {
				return []*ratio{nil}
			}
			d := v.add(ratAtom(aAcc), -1)
			for m := range d.num {
				if _, n := dropAtom(m, aAcc); n != 0 {
					s.bad = "the sum is changed otherwise: " + v.String()
					return []*ratio{nil}
				}
			}
			out = append(out, d)
		}
	}
	if len(out) == 0 {
		s.bad = "nothing is added"
		return []*ratio{nil}
	}
	return out
}

func (s *scoring) evalOr(t *Term, at *Node) []*ratio {
	if v := s.eval(t, at); v != nil {
		return v
	}
	return []*ratio{nil}
}

// edge is the node from which control enters edge i of a merge.
func (s *scoring) edge(t *Term, i int) *Node {
	p := t.v.(*ssa.Phi)
	pb := p.Block().Preds[i]
	if t.fr.first[pb] == nil {
		return nil
	}
	for _, q := range t.fr.first[p.Block()].pred {
		if predBlock(q) == pb {
			return q
		}
	}
	return nil
}

// feasible tells whether a node can run in the current case.
func (s *scoring) feasible(at, from *Node) bool {
	if from == nil {
		from = at.fr.thread.entry
	}
	no := func(n *Node) bool {
		if n.kind != NBranch || n.maybe {
			return false
		}
		v := s.truth(s.g.cond(n))
		return v != unknown && v != tri(n.pol)
	}
	if no(at) {
		return false
	}
	return s.g.find([]*Node{from}, searchOpt{avoid: no, goal: func(n *Node) bool { return n == at }}) != nil || from == at
}

func (s *scoring) known(a string) (int, bool) {
	if s.signs != nil {
		v, ok := s.signs[a]
		return v, ok
	}
	switch a {
	case aF, aN, aAvg:
		return 1, true
	case an:
		if !s.zero[aF] {
			return 1, true
		}
		return 0, true
	case aLen:
		return 0, true
	}
	return 0, false
}

// truth decides a condition in the current case.
func (s *scoring) truth(t *Term) int {
	if s.busy[t] || len(s.busy) > 40 {
		return unknown
	}
	if s.busy == nil {
		s.busy = map[*Term]bool{}
	}
	s.busy[t] = true
	defer delete(s.busy, t)
	g := s.g
	t = g.single0(t)
	switch t.op {
	case "const":
		if isBoolConst(t, true) {
			return yes
		}
		if isBoolConst(t, false) {
			return no
		}
	case "un":
		if t.s == "!" {
			return not(s.truth(t.args[0]))
		}
	case "lookupok":
		if a := s.classify(g.mk(&Term{op: "lookup", args: t.args, typ: types.Typ[types.Int], node: t.node, fr: t.fr})); a == aF && !s.zero[aF] || a == an && !s.zero[aF] {
			return yes
		}
	case "bin":
		switch t.s {
		case "==", "!=", "<", "<=", ">", ">=":
		default:
			return unknown
		}
		if !isNumeric(t.args[0].typ) {
			return unknown
		}
		bad := s.bad
		xs, ys := s.eval(t.args[0], nil), s.eval(t.args[1], nil)
		s.bad = bad
		if len(xs) != 1 || len(ys) != 1 {
			return unknown
		}
		d := xs[0].add(ys[0], -1)
		if len(d.num) == 1 && len(d.den) >= 1 {
			// boost against zero
			for m := range d.num {
				if m == aBoost {
					switch t.s {
					case "==":
						return no
					case "!=":
						return yes
					}
				}
			}
		}
		sn, strict, ok := d.num.sign(s.known)
		ds, dstrict, dok := d.den.sign(s.known)
		if !ok || !dok || !dstrict {
			return unknown
		}
		if len(d.num) == 0 {
			return cmpTri(t.s, 0)
		}
		sn *= ds
		if strict {
			return cmpTri(t.s, sn)
		}
		// not negative (or not positive)
		switch {
		case sn > 0 && t.s == ">=", sn < 0 && t.s == "<=":
			return yes
		case sn > 0 && t.s == "<", sn < 0 && t.s == ">":
			return no
		}
	}
	return unknown
}

func cmpTri(op string, r int) int {
	switch op {
	case "<":
		return tri(r < 0)
	case "<=":
		return tri(r <= 0)
	case ">":
		return tri(r > 0)
	case ">=":
		return tri(r >= 0)
	case "==":
		return tri(r == 0)
	case "!=":
		return tri(r != 0)
	}
	return unknown
}

// eval gives the values a term can have in the current case; nil when it is not understood.
func (s *scoring) eval(t *Term, at *Node) []*ratio {
	return s.evalD(t, at, 0)
}

func (s *scoring) evalD(t *Term, at *Node, d int) []*ratio {
	g := s.g
	if d > 60 {
		s.bad = "too deep"
		return nil
	}
	if s.acc != nil && t == s.acc {
		return []*ratio{ratAtom(aAcc)}
	}
	if a := s.classify(t); a != "" {
		return []*ratio{s.atom(a)}
	}
	one := func(xs []*ratio, f func(*ratio) *ratio) []*ratio {
		var out []*ratio
		for _, x := range xs {
			y := f(x)
			if y == nil {
				s.bad = "a division by zero"
				return nil
			}
			out = s.add(out, y)
		}
		return out
	}
	switch t.op {
	case "const":
		if t.cv != nil && (t.cv.Kind() == constant.Int || t.cv.Kind() == constant.Float) {
			r, ok := new(big.Rat).SetString(t.cv.ExactString())
			if ok {
				return []*ratio{ratConst(r)}
			}
		}
		if t.s == "zero" || t.s == "0" {
			return []*ratio{rat("0")}
		}
	case "conv":
		from, to := t.args[0].typ, t.typ
		if isNumeric(from) && isNumeric(to) && (!isFloat(from) || isFloat(to)) && !isFloat32(to) && !narrow(from, to) {
			return s.evalD(t.args[0], at, d+1)
		}
	case "un":
		if t.s == "-" {
			return one(s.evalD(t.args[0], at, d+1), func(x *ratio) *ratio { return rat("0").add(x, -1) })
		}
	case "bin":
		if !isNumeric(t.typ) || isFloat32(t.typ) {
			break
		}
		xs := s.evalD(t.args[0], at, d+1)
		if xs == nil {
			return nil
		}
		ys := s.evalD(t.args[1], at, d+1)
		if ys == nil {
			return nil
		}
		var out []*ratio
		for _, x := range xs {
			for _, y := range ys {
				var v *ratio
				switch t.s {
				case "+":
					v = x.add(y, 1)
				case "-":
					v = x.add(y, -1)
				case "*":
					v = x.mul(y)
				case "/":
					if !isFloat(t.typ) {
						s.bad = "a division of integers"
						return nil
					}
					v = x.div(y)
				}
				if v == nil {
					s.bad = "it cannot compute " + g.P(t)
					return nil
				}
				out = s.add(out, v)
			}
		}
		return out
	case "call":
		switch t.s {
		case "math.Log":
			return one(s.evalD(t.args[0], at, d+1), s.logOf)
		case "math.Log1p":
			return one(s.evalD(t.args[0], at, d+1), func(x *ratio) *ratio { return s.logOf(x.add(rat("1"), 1)) })
		case "math.FMA":
			xs, ys, zs := s.evalD(t.args[0], at, d+1), s.evalD(t.args[1], at, d+1), s.evalD(t.args[2], at, d+1)
			if len(xs) == 1 && len(ys) == 1 && len(zs) == 1 {
				return []*ratio{xs[0].mul(ys[0]).add(zs[0], 1)}
			}
		}
	case "phi":
		p := t.v.(*ssa.Phi)
		first := t.fr.first[p.Block()]
		for _, l := range g.loops {
			if l.header == first {
				return s.sum(t, l)
			}
		}
		var out []*ratio
		for i, e := range p.Edges {
			from := s.edge(t, i)
			if from == nil || !s.feasible(from, s.start(from)) {
				continue
			}
			v := g.term(t.fr, e)
			vs := s.evalD(v, from, d+1)
			if vs == nil {
				return nil
			}
			for _, x := range vs {
				if len(x.num) == 0 && s.noTerms(from) {
					continue
				}
				out = s.add(out, x)
			}
		}
		return out
	case "ret":
		cf := t.node.callee
		var out []*ratio
		for _, r := range cf.rets {
			res := r.in.(*ssa.Return).Results
			if t.i >= len(res) || !g.live[r] || !s.feasible(r, s.start(r)) {
				continue
			}
			vs := s.evalD(g.term(cf, res[t.i]), r, d+1)
			if vs == nil {
				return nil
			}
			for _, x := range vs {
				if len(x.num) == 0 && s.noTerms(r) {
					continue
				}
				out = s.add(out, x)
			}
		}
		return out
	}
	if vs, ok := s.memory(t, d); ok {
		return vs
	}
	if t.op == "field" && t.args[0].op == "ret" {
		// a part of what a helper returns
		x := t.args[0]
		cf := x.node.callee
		var out []*ratio
		for _, r := range cf.rets {
			res := r.in.(*ssa.Return).Results
			if x.i >= len(res) || !g.live[r] || !s.feasible(r, s.start(r)) {
				continue
			}
			whole := g.term(cf, res[x.i])
			if ld, ok := res[x.i].(*ssa.UnOp); ok && ld.Op == token.MUL {
				whole = g.mk(&Term{op: "snapshot", node: r, args: []*Term{g.term(cf, ld.X)}, typ: ld.Type()})
			}
			vs := s.evalD(g.mk(&Term{op: "field", s: t.s, args: []*Term{whole}, typ: t.typ}), r, d+1)
			if vs == nil {
				return nil
			}
			for _, v := range vs {
				out = s.add(out, v)
			}
		}
		return out
	}
	as := g.alts(t)
	if len(as) == 0 {
		if s.bad == "" {
			s.bad = "it depends on " + g.P(t)
		}
		return nil
	}
	var out []*ratio
	for _, a := range as {
		vs := s.evalD(a, at, d+1)
		if vs == nil {
			return nil
		}
		for _, x := range vs {
			out = s.add(out, x)
		}
	}
	return out
}

// memory evaluates what a variable holds, in the current case.
func (s *scoring) memory(t *Term, d int) ([]*ratio, bool) {
	g := s.g
	var addr *Term
	var at *Node
	switch {
	case t.op == "load" && t.node != nil:
		addr, at = t.args[0], t.node
	case t.op == "field" && (t.args[0].op == "snapshot" || t.args[0].op == "load") && t.args[0].node != nil:
		x := t.args[0]
		addr = g.mk(&Term{op: "fieldaddr", s: t.s, args: []*Term{x.args[0]}, typ: types.NewPointer(t.typ)})
		at = x.node
	default:
		return nil, false
	}
	ms := g.memVals(at, addr, t.typ)
	if len(ms) < 2 {
		return nil, false
	}
	no := func(n *Node) bool {
		if n.kind != NBranch || n.maybe {
			return false
		}
		v := s.truth(g.cond(n))
		return v != unknown && v != tri(n.pol)
	}
	var out []*ratio
	for _, m := range ms {
		from := m.node
		if from == nil {
			from = at.fr.thread.entry
		}
		if from.fr.thread == at.fr.thread {
			if !s.feasible(from, nil) {
				continue
			}
			p := g.find([]*Node{from}, searchOpt{
				avoid: func(n *Node) bool {
					if no(n) {
						return true
					}
					for _, o := range ms {
						if o.node == n && n != from {
							return true
						}
					}
					return false
				},
				goal: func(n *Node) bool { return n == at },
			})
			if p == nil {
				continue
			}
		}
		vs := s.evalD(m.val, m.node, d+1)
		if vs == nil {
			return nil, true
		}
		for _, x := range vs {
			out = s.add(out, x)
		}
	}
	return out, true
}

// start is where the walk to a node begins: the iteration over the terms it belongs to.
func (s *scoring) start(n *Node) *Node {
	if s.loop != nil && s.loop.body[n] {
		return s.loop.header
	}
	return nil
}

func (s *scoring) add(out []*ratio, v *ratio) []*ratio {
	for _, o := range out {
		if o.same(v) {
			return out
		}
	}
	return append(out, v)
}

func (s *scoring) logOf(x *ratio) *ratio {
	if x.same(rat("1")) {
		return rat("0")
	}
	return s.logAtom(x)
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Float32 || b.Info()&types.IsComplex != 0)
}

// narrow tells whether an integer conversion can lose values.
func narrow(from, to types.Type) bool {
	a, ok1 := from.Underlying().(*types.Basic)
	b, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || b.Info()&types.IsInteger == 0 {
		return false
	}
	size := map[types.BasicKind]int{types.Int8: 1, types.Uint8: 1, types.Int16: 2, types.Uint16: 2, types.Int32: 4, types.Uint32: 4}
	sz := func(k types.BasicKind) int {
		if v := size[k]; v > 0 {
			return v
		}
		return 8
	}
	return sz(b.Kind()) < sz(a.Kind()) || b.Info()&types.IsUnsigned != a.Info()&types.IsUnsigned
}

// sum takes a value carried around the loop over the terms as the running sum.
func (s *scoring) sum(t *Term, l *Loop) []*ratio {
	g := s.g
	if len(s.busy) > 0 || s.cls != nil {
		return nil
	}
	if s.acc != nil {
		s.bad = "there are two running sums"
		return nil
	}
	if (l.kind != "slice" && l.kind != "count") || !s.overTerms(l) {
		s.bad = "the loop at " + g.where(l.header) + " does not run over the terms of the part"
		return nil
	}
	s.acc, s.loop = t, l
	return []*ratio{ratAtom(aAcc)}
}

func (s *scoring) isTerms(t *Term) bool {
	ia, f := s.g.elemSource(t)
	return ia != nil && f == "Terms" && s.g.sameCont(ia.args[0], s.r.query) && s.g.K(ia.args[1]) == s.g.K(s.part.qloop.key)
}

func (s *scoring) overTerms(l *Loop) bool {
	if l.dom != nil && s.isTerms(l.dom) {
		return true
	}
	return l.bound != nil && l.bound.op == "len" && s.isTerms(l.bound.args[0])
}

// noTerms tells whether a node only runs for a part without terms.
func (s *scoring) noTerms(n *Node) bool {
	if s.cls != nil {
		return false
	}
	for _, b := range s.g.guards(n) {
		c := s.g.single0(s.g.cond(b))
		if c.op != "bin" {
			continue
		}
		for i := 0; i < 2; i++ {
			x := s.g.single0(c.args[i])
			if x.op == "len" && s.isTerms(x.args[0]) && s.g.emptyGuard(b, s.g.deref(x.args[0], true)) {
				return true
			}
		}
	}
	return false
}

// classify names the quantity a value is.
func (s *scoring) classify(t *Term) string {
	if s.cls != nil {
		return s.cls(t)
	}
	g := s.g
	if t.typ == nil || !isNumeric(t.typ) {
		return ""
	}
	switch t.op {
	case "const", "bin", "phi", "ret", "conv":
		return ""
	}
	t0 := t
	t = g.single0(t)
	if ia, f := g.elemSource(t0); ia != nil {
		if f == "Boost" && g.sameCont(ia.args[0], s.r.query) && g.K(ia.args[1]) == g.K(s.part.qloop.key) {
			return aBoost
		}
		return ""
	}
	if t.op == "res" && t.i == 0 && t.args[0].op == "lookup" {
		t = t.args[0]
	}
	if t.op == "lookup" {
		if !s.isTerm(t.args[1]) {
			return ""
		}
		m := g.single0(t.args[0])
		if m.op == "field" && m.s == "TF" && s.isField(m.args[0]) {
			return aF
		}
		if m.op == "field" && m.s == "NumFieldsWithTerm" && s.isCall(m.args[0]) {
			return an
		}
		return ""
	}
	if t.op == "field" {
		switch t.s {
		case "TotalDocuments":
			if s.isCall(t.args[0]) {
				return aN
			}
		case "AvgDocLength":
			if s.isCall(t.args[0]) {
				return aAvg
			}
		case "Length":
			if s.isField(t.args[0]) {
				return aLen
			}
		}
	}
	return ""
}

func (s *scoring) isCall(t *Term) bool {
	x := s.g.single0(t)
	return x == s.part.call || x.op == "call" && x.node == s.part.call.node
}

// isField tells whether a value is the stored field of the document that is scored.
func (s *scoring) isField(t *Term) bool {
	g := s.g
	t = g.single0(t)
	l := s.part.loop
	if l.kind == "map" && t.op == "rangeval" && l.key != nil && t.node == l.key.node {
		return true
	}
	if t.op == "res" && t.i == 0 {
		t = t.args[0]
	}
	if t.op == "lookup" {
		m := g.single0(t.args[0])
		return m.op == "field" && m.s == "FieldDocuments" && s.isCall(m.args[0]) && s.r.isDoc(t.args[1], l)
	}
	return false
}

// isTerm tells whether a value is the term the loop is at.
func (s *scoring) isTerm(t *Term) bool {
	if s.loop == nil {
		// not in the loop yet: any loop over the terms
		for _, l := range s.g.loops {
			if s.overTerms(l) && s.termOf(t, l) {
				return true
			}
		}
		return false
	}
	return s.termOf(t, s.loop)
}

func (s *scoring) termOf(t *Term, l *Loop) bool {
	ia, f := s.g.elemSource(t)
	if ia == nil || l.key == nil || s.g.K(ia.args[1]) != s.g.K(l.key) {
		return false
	}
	return f == "" && s.isTerms(ia.args[0])
}

func init() {
	register("C19", 1, "", ruleC19)
}
