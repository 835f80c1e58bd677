package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C34: nothing that comes from outside makes the program crash ---------------------------------------------

type crash struct {
	c   *Ctx
	g   *Graph
	lab string
}

// crashRoots are the functions that somebody outside calls: the exported ones of the module and main.
func (c *Ctx) crashRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		pkg := funcPkgPath(f)
		if f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" || f.Object() == nil || f.Origin() != nil && f.Origin() != f {
			continue
		}
		if strings.HasSuffix(pkg, "/storage/buffers") || !strings.HasPrefix(pkg, Module) {
			continue
		}
		if !f.Object().Exported() && !(f.Name() == "main" && pkg == Module) {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// opaqueCrash keeps the calls of exported functions, which are roots of their own, as calls.
func opaqueCrash(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if _, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return false // it runs what it is given
		}
	}
	return true
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// derefs are the values that must be there for an instruction not to fail.
func derefs(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return []ssa.Value{x.X}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return []ssa.Value{x.X}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return []ssa.Value{x.X}
		}
	case *ssa.Store:
		return []ssa.Value{x.Addr}
	case *ssa.MapUpdate:
		return []ssa.Value{x.Map}
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() {
			return []ssa.Value{cc.Value}
		}
		f := cc.StaticCallee()
		if f == nil {
			if _, ok := cc.Value.(*ssa.Builtin); !ok {
				return []ssa.Value{cc.Value}
			}
			return nil
		}
		if f.Signature.Recv() == nil || len(cc.Args) == 0 {
			return nil
		}
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); !ok || asksReceiver(f) {
			return nil
		}
		return []ssa.Value{cc.Args[0]}
	}
	return nil
}

// asksReceiver tells whether a method accepts that there is no object: it compares the receiver with nil.
func asksReceiver(f *ssa.Function) bool {
	f = body(f)
	if f == nil {
		return true
	}
	if strings.HasPrefix(funcPkgPath(f), "os") {
		return true // the methods of os.File answer with an error
	}
	if f.Blocks == nil {
		return false
	}
	if len(f.Params) == 0 || f.Params[0].Referrers() == nil {
		return true
	}
	for _, r := range *f.Params[0].Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			return true
		}
	}
	return len(*f.Params[0].Referrers()) == 0
}

// mayGiveNil tells whether a function of the module has a way of giving nil for its first result together with false.
func (c *Ctx) mayGiveNil(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f = body(f); f == nil || !c.p.InModule(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) < 2 {
				continue
			}
			if k, ok := r.Results[0].(*ssa.Const); ok && k.IsNil() {
				return true
			}
			// a function with deferred calls keeps its results in variables
			if u, ok := r.Results[0].(*ssa.UnOp); ok && u.Op == token.MUL && u.X.Referrers() != nil {
				for _, w := range *u.X.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u.X {
						if k, ok := st.Val.(*ssa.Const); ok && k.IsNil() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// unwrapNil drops what leaves a nil what it is.
func unwrapNil(t *Term) *Term {
	for t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// missing decides that what was not found, or not made, is not used.
func (k *crash) missing() {
	g, c := k.g, k.c
	nilOf := func(t types.Type) *Term { return g.mk(&Term{op: "const", s: "nil", typ: t}) }
	eq := func(t *Term) *Term {
		return g.mk(&Term{op: "bin", s: "==", args: []*Term{t, nilOf(t.typ)}, typ: types.Typ[types.Bool]})
	}
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		start := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
		var v *Term
		what, strict, asMap := "", false, false
		switch in := n.in.(type) {
		case *ssa.Lookup:
			m, ok := in.X.Type().Underlying().(*types.Map)
			if !ok {
				continue
			}
			asMap = isMap(m.Elem())
			if !nillable(m.Elem()) && !asMap {
				continue
			}
			l := g.term(n.fr, in)
			v = g.mk(&Term{op: "lookup", node: n, args: l.args, typ: m.Elem(), fr: n.fr, v: in})
			if in.CommaOk {
				start.facts[g.mk(&Term{op: "lookupok", node: n, args: l.args, typ: types.Typ[types.Bool], fr: n.fr})] = false
				for _, t := range k.okTerms(n) {
					start.facts[t] = false
				}
			} else if k.known(n, l) {
				continue
			}
			what = "it is not in the map"
		case *ssa.Call:
			cc := in.Common()
			tup, ok := in.Type().(*types.Tuple)
			if !ok || tup.Len() < 2 || n.callee != nil || !nillable(tup.At(0).Type()) {
				continue
			}
			last := tup.Len() - 1
			switch {
			case errResult(cc.Signature()) == last:
				if g.cannotFail(n) {
					continue
				}
				e := g.result(n, last)
				start.facts[eq(e)] = false
				what, strict = n.callName()+" failed", cc.StaticCallee() != nil && c.p.InModule(cc.StaticCallee())
			case isBoolType(tup.At(last).Type()) && c.mayGiveNil(cc.StaticCallee()):
				start.facts[g.result(n, last)] = false
				what = n.callName() + " did not find it"
			default:
				continue
			}
			v = g.result(n, 0)
		default:
			continue
		}
		start.facts[eq(v)] = true
		is := func(t *Term) bool { t = unwrapNil(t); return t == v }
		for _, m := range g.liveNodes {
			if m.in != nil {
				for _, x := range derefs(m.in) {
					g.watch(g.single0(g.term(m.fr, x)))
				}
			}
		}
		p := g.find([]*Node{n}, searchOpt{
			start: start,
			avoid: func(m *Node) bool { return m == n },
			goalE: func(m *Node, en *env) bool {
				if m.in == nil || m.kind != NInstr && m.kind != NDeferred {
					return false
				}
				if _, ok := m.in.(*ssa.Defer); ok && m.kind == NInstr {
					return false
				}
				if asMap {
					if u, ok := m.in.(*ssa.MapUpdate); ok {
						return is(g.resolve(g.single0(g.term(m.fr, u.Map)), en))
					}
					return false
				}
				for _, x := range derefs(m.in) {
					if is(g.resolve(g.single0(g.term(m.fr, x)), en)) {
						return true
					}
				}
				if ci, ok := m.in.(ssa.CallInstruction); ok && strict {
					for _, a := range ci.Common().Args {
						t := g.resolve(g.single0(g.term(m.fr, a)), en)
						if t.op == "iface" {
							t = t.args[0]
						}
						if is(t) {
							return true
						}
					}
				}
				return false
			},
		})
		if p != nil {
			c.bad("missing", k.lab, g.where(p[len(p)-1]), "it is used although "+what+" at "+g.where(n)+": "+g.pathText(p))
		} else {
			c.ok("missing", k.lab, g.where(n), "")
		}
	}
}

// okTerms are the terms of the answer of a lookup.
func (k *crash) okTerms(n *Node) []*Term {
	var out []*Term
	v := n.in.(ssa.Value)
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			out = append(out, k.g.term(n.fr, e))
		}
	}
	return out
}

// known tells whether something in the function shows that a key is in a map: it was asked for, put there, or comes
// from a loop.
func (k *crash) known(n *Node, l *Term) bool {
	g := k.g
	place := func(t *Term) string {
		t = g.single0(t)
		if t.op == "load" && len(t.args) > 0 {
			return "*" + g.K(g.single0(t.args[0])) // the same variable, loaded at another place
		}
		return g.K(t)
	}
	dom := place(l.args[0])
	key := g.single0(l.args[1])
	switch key.op {
	case "rangekey":
		if place(key.args[0]) == dom {
			return true
		}
	case "rangeval":
		return true
	}
	tells := map[*Node]bool{}
	for _, m := range g.liveNodes {
		switch in := m.in.(type) {
		case *ssa.MapUpdate:
			if place(g.term(m.fr, in.Map)) != dom {
				continue
			}
		case *ssa.Lookup:
			if m == n || !in.CommaOk && !comparedWithNil(in) || place(g.term(m.fr, in.X)) != dom {
				continue
			}
		default:
			continue
		}
		tells[m] = true
		for _, lp := range g.loops {
			if lp.body[m] && !lp.body[n] && lp.header != n {
				tells[lp.header] = true
			}
		}
	}
	return g.find([]*Node{n.fr.thread.entry}, searchOpt{
		avoid: func(m *Node) bool { return tells[m] },
		goal:  func(m *Node) bool { return m == n },
	}) == nil
}

func comparedWithNil(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			return true
		}
	}
	return false
}

// nilMaps decides that no entry is put into a map that was never made.
func (k *crash) nilMaps() {
	g, c := k.g, k.c
	for _, n := range g.liveNodes {
		u, ok := n.in.(*ssa.MapUpdate)
		if !ok || n.kind != NInstr {
			continue
		}
		m := g.term(n.fr, u.Map)
		why := ""
		for _, ch := range g.choices(m, n) {
			if !isNilConst(ch.v) && !isZeroConst(ch.v) {
				continue
			}
			if p := g.find([]*Node{n.fr.thread.entry}, searchOpt{goalE: g.usedAs(m, ch.v, n)}); p != nil {
				why = "the map was never made: " + g.pathText(p)
			}
		}
		c.check(why == "", "nil-map", k.lab, g.where(n), why)
	}
}

// nilUses decides that nothing is used that was set to nothing.
func (k *crash) nilUses() {
	g, c := k.g, k.c
	for _, n := range g.liveNodes {
		if n.in == nil || n.kind != NInstr && n.kind != NDeferred {
			continue
		}
		if _, ok := n.in.(*ssa.MapUpdate); ok {
			continue
		}
		if _, ok := n.in.(*ssa.Defer); ok && n.kind == NInstr {
			continue
		}
		for _, x := range derefs(n.in) {
			if !nillable(x.Type()) {
				continue
			}
			t := g.term(n.fr, x)
			why := ""
			for _, ch := range g.choices(t, n) {
				if !isNilConst(ch.v) {
					continue
				}
				if p := g.find([]*Node{n.fr.thread.entry}, searchOpt{goalE: g.usedAs(t, ch.v, n)}); p != nil {
					why = "there is nothing: " + g.pathText(p)
				}
			}
			if why != "" {
				c.bad("nil-use", k.lab, g.where(n), why)
			}
		}
	}
}

// small is the value of a divisor when every list it mentions has a given length, and whether it can be told.
func (g *Graph) small(t *Term, l int64) (int64, bool) {
	t = g.single0(t)
	if v, ok := g.constIdx(t); ok {
		return v, true
	}
	switch {
	case t.op == "conv":
		return g.small(t.args[0], l)
	case g.lenCall(t):
		return l, true
	case t.op == "bin":
		a, ok := g.small(t.args[0], l)
		b, ok2 := g.small(t.args[1], l)
		if !ok || !ok2 {
			return 0, false
		}
		switch t.s {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "/":
			if b != 0 {
				return a / b, true
			}
		case "%":
			if b != 0 {
				return a % b, true
			}
		}
	case t.op == "call" && (t.s == "builtin.min" || t.s == "builtin.max"):
		r, has := int64(0), false
		for _, a := range t.args {
			v, ok := g.small(a, l)
			if !ok {
				return 0, false
			}
			if !has || t.s == "builtin.min" && v < r || t.s == "builtin.max" && v > r {
				r, has = v, true
			}
		}
		return r, has
	}
	return 0, false
}

// divisions decides that no whole number is divided by zero.
func (k *crash) divisions() {
	g, c := k.g, k.c
	for _, n := range g.liveNodes {
		b, ok := n.in.(*ssa.BinOp)
		if !ok || n.kind != NInstr || b.Op != token.QUO && b.Op != token.REM {
			continue
		}
		bt, ok := b.X.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		why := ""
		d := g.term(n.fr, b.Y)
		for d.op == "conv" {
			d = d.args[0]
		}
		for _, ch := range g.choices(d, n) {
			v := ch.v
			for v.op == "conv" {
				v = g.single0(v.args[0])
			}
			if v.op == "const" && (v.s == "0" || v.s == "zero") {
				if p := g.find([]*Node{n.fr.thread.entry}, searchOpt{goalE: g.usedAs(d, ch.v, n)}); p != nil {
					why = "it divides by zero: " + g.pathText(p)
				}
			}
			lists := map[*Term]bool{}
			g.eachPart(v, func(t *Term) {
				if x := t; g.lenCall(t) {
					if x = g.single0(x.args[0]); x.op == "load" || x.op == "init" || x.op == "field" {
						return // whether an object may have an empty list is not known here
					}
					lists[t.args[0]] = true
				}
			})
			if len(lists) != 1 {
				continue
			}
			from := int64(0)
			if g.loopOf[n] != nil {
				from = 1 // it may be the list that the loop is about
			}
			for l := from; l <= 3; l++ {
				if r, ok := g.small(v, l); !ok || r != 0 {
					continue
				}
				for x := range lists {
					if p := g.find([]*Node{n.fr.thread.entry}, searchOpt{avoid: k.asked(n, x), goal: func(m *Node) bool { return m == n }}); p != nil {
						why = "with " + itoa64(l) + " elements it divides by zero: " + g.pathText(p)
					}
				}
				break
			}
		}
		c.check(why == "", "division", k.lab, g.where(n), why)
	}
}

func (g *Graph) lenCall(t *Term) bool {
	return t.op == "call" && t.s == "builtin.len" && len(t.args) == 1 || t.op == "len" && len(t.args) == 1
}

// asks finds the branches that have to do with a list: its length, its content, or that there is a next element.
func (k *crash) asks(x *Term) func(*Node) bool {
	g := k.g
	x = g.single0(x)
	key := g.K(x)
	var has func(t *Term, d int) bool
	has = func(t *Term, d int) bool {
		t = g.single0(t)
		if t == x || g.K(t) == key {
			return true
		}
		if d > 6 {
			return false
		}
		for _, a := range t.args {
			if has(a, d+1) {
				return true
			}
		}
		return false
	}
	return func(n *Node) bool {
		return n.kind == NBranch && !n.maybe && has(g.cond(n), 0)
	}
}

// constIdx is the value of a constant whole number.
func (g *Graph) constIdx(t *Term) (int64, bool) {
	t = g.single0(t)
	for t.op == "conv" {
		t = g.single0(t.args[0])
	}
	if t.op == "const" && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	if t.op == "const" && t.s == "zero" {
		return 0, true
	}
	return 0, false
}

// sizeOf is the known length of a list, -1 when it is not known.
func (g *Graph) sizeOf(x *Term) int64 {
	x = g.single0(x)
	if x.op == "fresh" && x.node != nil {
		if ms, ok := x.node.in.(*ssa.MakeSlice); ok {
			if l, ok := g.constIdx(g.term(x.node.fr, ms.Len)); ok {
				return l
			}
		}
	}
	if a, ok := derefType(x.typ).Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

// indexes decides that no place outside a list or text is asked for, where that follows from constants and the
// conditions on the way.
func (k *crash) indexes() {
	g, c := k.g, k.c
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		var x ssa.Value
		var need []ssa.Value // have to be at most the length
		var idx ssa.Value    // has to be below the length
		switch in := n.in.(type) {
		case *ssa.IndexAddr:
			x, idx = in.X, in.Index
		case *ssa.Index:
			x, idx = in.X, in.Index
		case *ssa.Lookup:
			if isMap(in.X.Type()) {
				continue
			}
			x, idx = in.X, in.Index
		case *ssa.Slice:
			x = in.X
			for _, b := range []ssa.Value{in.Low, in.High} {
				if b != nil {
					need = append(need, b)
				}
			}
		default:
			continue
		}
		xt := g.single0(g.term(n.fr, x))
		why := ""
		at := func(v ssa.Value, least int64) {
			t := g.single0(g.term(n.fr, v))
			if i, ok := g.constIdx(t); ok {
				if i < 0 || i+least <= 0 {
					if i < 0 {
						why = "the place is below zero"
					}
					return
				}
				size := g.sizeOf(xt)
				if size >= 0 {
					if i+least > size {
						why = "the list has only " + itoa64(size) + " elements"
					}
					return
				}
				k.shorter(n, xt, i+least, &why)
				return
			}
			if w := k.outside(n, xt, t, least); w != "" {
				why = w
				return
			}
			if least == 1 {
				k.overrun(n, xt, t, &why)
			}
		}
		if idx != nil {
			at(idx, 1)
		}
		for _, b := range need {
			at(b, 0)
		}
		c.check(why == "", "index", k.lab, g.where(n), why)
	}
}

// outside looks for a place computed from the length of a list that is not in the list when it is short.
func (k *crash) outside(n *Node, x, i *Term, least int64) string {
	g := k.g
	var list *Term
	one := true
	g.eachPart(i, func(t *Term) {
		if g.lenCall(t) {
			y := g.single0(t.args[0])
			one = one && (list == nil || list == y)
			list = y
		}
	})
	if list == nil || !one || list.op == "fresh" && x != list {
		return ""
	}
	same := x != nil && (list == x || g.K(list) == g.K(x))
	from := int64(0)
	if g.loopOf[n] != nil {
		from = 1
	}
	for l := from; l <= 3; l++ {
		v, ok := g.small(i, l)
		if !ok || v >= 0 && !(same && v+least > l) {
			continue
		}
		if p := g.find([]*Node{n.fr.thread.entry}, searchOpt{avoid: k.asked(n, list), goal: func(m *Node) bool { return m == n }}); p != nil {
			return "with " + itoa64(l) + " elements the place is " + itoa64(v) + ": " + g.pathText(p)
		}
	}
	return ""
}

// sizes decides that nothing is made with a size below zero.
func (k *crash) sizes() {
	g, c := k.g, k.c
	for _, n := range g.liveNodes {
		var v ssa.Value
		switch in := n.in.(type) {
		case *ssa.MakeSlice:
			v = in.Len
		case *ssa.MakeChan:
			v = in.Size
		default:
			continue
		}
		if n.kind == NInstr {
			why := k.outside(n, nil, g.single0(g.term(n.fr, v)), 0)
			c.check(why == "", "size", k.lab, g.where(n), why)
		}
	}
}

// asserts decides that what comes from outside is not taken for a type without asking.
func (k *crash) asserts() {
	g, c := k.g, k.c
	for _, n := range g.liveNodes {
		a, ok := n.in.(*ssa.TypeAssert)
		if !ok || n.kind != NInstr || a.CommaOk || types.Identical(a.X.Type(), a.AssertedType) {
			continue
		}
		x := g.single0(g.term(n.fr, a.X))
		why := ""
		switch x.op {
		case "lookup", "rangeval", "param", "cbparam", "recv", "out":
			asked := false
			for _, m := range g.liveNodes {
				if b, ok := m.in.(*ssa.TypeAssert); ok && b.CommaOk && g.K(g.single0(g.term(m.fr, b.X))) == g.K(x) {
					asked = true
				}
			}
			if !asked {
				why = g.P(x) + " may be of another type"
			}
		}
		c.check(why == "", "assertion", k.lab, g.where(n), why)
	}
}

// musts decides that nothing that ends the process when its argument is wrong gets one from outside.
func (k *crash) musts() {
	g, c := k.g, k.c
	for _, n := range g.liveNodes {
		if n.kind != NInstr || n.common() == nil || n.callee != nil || n.common().IsInvoke() {
			continue
		}
		nm := n.callName()
		if !strings.HasPrefix(nm[strings.LastIndex(nm, ".")+1:], "Must") || strings.HasPrefix(nm, "(*github.com/gin") {
			continue
		}
		why := ""
		for _, a := range g.callArgs(n) {
			for _, v := range g.vals(a) {
				if g.fromOutside(v, 0) {
					why = "it ends the process for some values of " + g.P(v)
				}
			}
		}
		c.check(why == "", "must", k.lab, g.where(n), why)
	}
}

// fromOutside tells whether a value is given by a caller, read from a map or list, or computed from such a value.
func (g *Graph) fromOutside(t *Term, d int) bool {
	t = g.single0(t)
	switch t.op {
	case "param", "cbparam", "lookup", "rangeval", "rangekey", "recv", "out":
		return true
	}
	if d > 6 || t.op == "call" && t.s == "regexp.QuoteMeta" || t.op == "fresh" {
		return false
	}
	for _, a := range t.args {
		if g.fromOutside(a, d+1) {
			return true
		}
	}
	return false
}

// lenFact reads a branch as a bound on the length of x: min <= len(x) <= max.
func (k *crash) lenFact(b *Node, x *Term) (min, max int64, ok bool) {
	g := k.g
	if b.kind != NBranch || b.maybe {
		return 0, 0, false
	}
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op != "bin" {
		return 0, 0, false
	}
	const big = int64(1) << 40
	l, r, op := g.single0(c.args[0]), g.single0(c.args[1]), c.s
	flip := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
	neg := map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
	if _, known := flip[op]; !known {
		return 0, 0, false
	}
	isL := func(t *Term) bool {
		return g.lenCall(t) && (g.single0(t.args[0]) == x || g.K(g.single0(t.args[0])) == g.K(x))
	}
	if isL(r) {
		l, r, op = r, l, flip[op]
	}
	if !isL(l) {
		return 0, 0, false
	}
	v, isC := g.constIdx(r)
	if !isC {
		return 0, 0, false
	}
	if !pol {
		op = neg[op]
	}
	switch op {
	case "<":
		return 0, v - 1, true
	case "<=":
		return 0, v, true
	case ">":
		return v + 1, big, true
	case ">=":
		return v, big, true
	case "==":
		return v, v, true
	case "!=":
		if v == 0 {
			return 1, big, true
		}
		return 0, big, true
	}
	return 0, 0, false
}

// shorter looks for a way on which a list may have fewer than size elements.
func (k *crash) shorter(n *Node, x *Term, size int64, why *string) {
	g := k.g
	if x.op == "fresh" && x.node != nil {
		// it was made as long as another list
		if ms, ok := x.node.in.(*ssa.MakeSlice); ok {
			l := g.bare(g.term(x.node.fr, ms.Len))
			if g.lenCall(l) {
				y := g.single0(l.args[0])
				if isMap(y.typ) {
					return
				}
				k.shorter2(n, []*Term{x, y}, size, why)
			}
		}
		return
	}
	if x.op == "fresh" || x.op == "const" || x.op == "varargs" {
		return
	}
	if x.op == "call" && strings.HasPrefix(x.s, "strings.Split") && size <= 1 {
		return // there is always a first part
	}
	k.shorter2(n, []*Term{x}, size, why)
}

// asked finds the branches that have to do with lists, those apart that only say that a loop over one is over.
func (k *crash) asked(n *Node, xs ...*Term) func(*Node) bool {
	g := k.g
	return func(m *Node) bool {
		// that a loop over the list is over says nothing
		for _, lp := range g.loops {
			if !lp.body[n] && lp.header != n && m.kind == NBranch {
				for _, q := range m.pred {
					if q == lp.header || lp.body[q] {
						return false
					}
				}
			}
		}
		for _, x := range xs {
			if k.asks(x)(m) {
				return true
			}
		}
		return false
	}
}

func (k *crash) shorter2(n *Node, xs []*Term, size int64, why *string) {
	g := k.g
	asked := k.asked(n, xs...)
	p := g.find([]*Node{n.fr.thread.entry}, searchOpt{
		avoid: func(m *Node) bool {
			fact := false
			for _, x := range xs {
				if min, _, ok := k.lenFact(m, x); ok {
					if min >= size {
						return true
					}
					fact = true
				}
			}
			return !fact && asked(m)
		},
		goal: func(m *Node) bool { return m == n },
	})
	if p != nil {
		*why = "there may be fewer than " + itoa64(size) + " elements: " + g.pathText(p)
	}
}

// overrun looks for a loop that goes one too far: its condition says only that the place is at most the length.
func (k *crash) overrun(n *Node, x, i *Term, why *string) {
	g := k.g
	is := func(a, b *Term) bool { return a == b || g.K(a) == g.K(b) }
	isL := func(t *Term) bool { t = g.single0(t); return g.lenCall(t) && is(g.single0(t.args[0]), x) }
	if isL(i) {
		*why = "the place is the length itself"
		return
	}
	loose := ""
	for _, b := range g.guards(n) {
		c, pol := g.single0(g.cond(b)), b.pol
		for c.op == "un" && c.s == "!" {
			c, pol = g.single0(c.args[0]), !pol
		}
		if c.op != "bin" {
			continue
		}
		l, r := g.single0(c.args[0]), g.single0(c.args[1])
		switch {
		case is(l, i) && isL(r) && (c.s == "<=" && pol || c.s == ">" && !pol),
			is(r, i) && isL(l) && (c.s == ">=" && pol || c.s == "<" && !pol):
			loose = g.where(b)
		case is(l, i) && isL(r) || is(r, i) && isL(l):
			return
		}
	}
	if loose != "" {
		*why = "the condition at " + loose + " lets the place be the length itself"
	}
}

// panics decides that only a failure, or a value that nobody declared, ends the process.
func (k *crash) panics() {
	g, c := k.g, k.c
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		pn, isP := n.in.(*ssa.Panic)
		if cc := n.common(); !isP && (cc == nil || !isNoReturn(cc)) {
			continue
		}
		if isP && pn.Pos() == token.NoPos {
			continue // a select without a default has no other way
		}
		why := ""
		enums := map[*Term][]*Term{}
		for _, b := range g.liveNodes {
			if b.kind != NBranch || b.maybe || !g.reaches(b, n) {
				continue
			}
			g.eachPart(g.cond(b), func(t *Term) {
				if t.op != "bin" || t.s != "==" && t.s != "!=" {
					return
				}
				for j := 0; j < 2; j++ {
					if x, v := t.args[j], g.single0(t.args[1-j]); v.op == "const" && isOption(g.single0(x)) && c.declared(x.typ, v) {
						enums[x] = append(enums[x], v)
					}
				}
			})
		}
		for x, vs := range enums {
			vs = c.allDeclared(x.typ, vs)
			for _, v := range vs {
				start := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
				for _, w := range vs {
					start.facts[g.mk(&Term{op: "bin", s: "==", args: []*Term{x, g.mk(w)}, typ: types.Typ[types.Bool]})] = w == v
				}
				p := g.find([]*Node{n.fr.thread.entry}, searchOpt{
					start: start,
					avoid: func(m *Node) bool { return k.saysFailed(m) && m != n },
					goal:  func(m *Node) bool { return m == n },
				})
				if p != nil {
					why = "it ends the process for the declared value " + v.s + ": " + g.pathText(p)
				}
			}
		}
		if why == "" {
			p := g.find([]*Node{n.fr.thread.entry}, searchOpt{
				avoid: func(m *Node) bool {
					if m.kind != NBranch || m.maybe {
						return false
					}
					if k.saysFailed(m) {
						return true
					}
					enum := false
					g.eachPart(g.cond(m), func(t *Term) {
						for x := range enums {
							for _, a := range t.args {
								enum = enum || a == x
							}
						}
					})
					return enum
				},
				goal: func(m *Node) bool { return m == n },
			})
			if p != nil && p[0] != n {
				why = "it ends the process although nothing failed: " + g.pathText(p)
			}
		}
		c.check(why == "", "panic", k.lab, g.where(n), why)
	}
}

// isOption tells whether a value is given from outside: a parameter or a field.
func isOption(t *Term) bool {
	switch t.op {
	case "param", "load", "init", "field":
		return true
	}
	return false
}

// eachPart visits a condition and its parts.
func (g *Graph) eachPart(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if d > 8 || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a, d+1)
		}
		for _, a := range g.vals(t) {
			if a != t {
				rec(a, d+1)
			}
		}
	}
	rec(t, 0)
}

// saysFailed finds the branches that have to do with a failure: an error, or the answer of a call or of a lookup.
func (k *crash) saysFailed(n *Node) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	g := k.g
	is := false
	g.eachPart(g.cond(n), func(t *Term) {
		switch t.op {
		case "res", "lookupok", "lookup", "recvok", "call", "assertok":
			if t.op == "call" && strings.HasPrefix(t.s, "builtin.") {
				return
			}
			is = true
		}
		if t.typ != nil && isErrorType(t.typ) {
			is = true
		}
	})
	return is
}

// declared tells whether a constant is one of those the module declares for its type.
func (c *Ctx) declared(t types.Type, v *Term) bool {
	if v.cv == nil || t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		// an alias of a basic type
		for path, s := range c.p.ByID {
			if !strings.HasPrefix(path, Module) {
				continue
			}
			for _, m := range s.Members {
				if k, ok := m.(*ssa.NamedConst); ok && k.Value.Value != nil && k.Value.Value.Kind() == constant.Int && k.Value.Value.ExactString() == v.cv.ExactString() {
					return true
				}
			}
		}
		return false
	}
	if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), Module) {
		return false
	}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if k, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), t) && k.Val().ExactString() == v.cv.ExactString() {
			return true
		}
	}
	return false
}

// allDeclared adds the other constants that the module declares for a type.
func (c *Ctx) allDeclared(t types.Type, vs []*Term) []*Term {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return vs
	}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		k, ok := sc.Lookup(nm).(*types.Const)
		if !ok || !types.Identical(k.Type(), t) {
			continue
		}
		has := false
		for _, v := range vs {
			has = has || v.cv != nil && v.cv.ExactString() == k.Val().ExactString()
		}
		if !has {
			vs = append(vs, &Term{op: "const", s: k.Val().ExactString(), cv: k.Val(), typ: t})
		}
	}
	return vs
}

func ruleC34(c *Ctx) {
	for _, f := range c.crashRoots() {
		g := c.graph(f, opaqueCrash, "crash")
		k := &crash{c, g, fnLabel(f)}
		k.missing()
		k.nilMaps()
		k.nilUses()
		k.divisions()
		k.indexes()
		k.sizes()
		k.asserts()
		k.musts()
		k.panics()
	}
}

func init() {
	register("C34", 1, "", ruleC34)
}
