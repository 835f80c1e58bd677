package main

import (
	"go/types"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Functions of the module that do what a function of the standard library does, step by step: they create a file,
// write all of a buffer to it and close it, or open a file and read all of it. Once a function is shown to be one
// of these, calls to it are calls of os.WriteFile or os.ReadFile.

var modelled sync.Map // *ssa.Function -> name

func modelName(f *ssa.Function) string {
	if s, ok := modelled.Load(f); ok {
		return s.(string)
	}
	return ""
}

func (p *Prog) findModels() {
	defer func() { recover() }() // a function that cannot be analysed is no model
	for _, f := range p.Funcs {
		sig := f.Signature
		if f.Parent() != nil || sig.Recv() != nil || sig.TypeParams() != nil || sig.Params().Len() == 0 || !isStringType(sig.Params().At(0).Type()) {
			continue
		}
		calls := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					calls[calleeName(ci.Common())]++
				}
			}
		}
		c := newCtx(p, "models", "")
		switch {
		case calls["os.Create"]+calls["os.OpenFile"] == 1 && c.writesFile(f):
			modelled.Store(f, "os.WriteFile")
		case calls["os.Open"] == 1 && calls["io.ReadAll"] == 1 && c.readsFile(f):
			modelled.Store(f, "os.ReadFile")
		}
	}
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.Byte])
}

// steps collects the calls of a function that has no loops, goroutines or effects of its own, nil when there are others.
func (c *Ctx) steps(f *ssa.Function, allowed map[string]bool) (*Graph, map[string][]*Node) {
	g := c.graph(f, opaqueErr, "err")
	if len(g.fail) > 0 || len(g.loops) > 0 || len(g.threads) > 1 {
		return nil, nil
	}
	out := map[string][]*Node{}
	for _, n := range g.liveNodes {
		cc := n.common()
		if cc == nil {
			continue
		}
		if _, isDefer := n.in.(*ssa.Defer); isDefer && n.kind == NInstr {
			continue
		}
		nm := n.callName()
		if !allowed[nm] && !isNoReturn(cc) && nm != "fmt.Errorf" && nm != "(error).Error" {
			return nil, nil
		}
		out[nm] = append(out[nm], n)
	}
	for _, n := range g.failing() {
		if c.swallowed(g, n, errResult(n.common().Signature())) != "" {
			return nil, nil
		}
	}
	return g, out
}

// handle: the calls on the handle are made on the opened one, and on every path on which it is open.
func (g *Graph) handle(open, use *Node) bool {
	h := g.one(g.callArgs(use)[0])
	return h.op == "res" && h.i == 0 && h.args[0].node == open
}

func (g *Graph) onSuccess(from, must *Node) bool {
	nilErr := func(n *Node, e *env) bool {
		r, ok := n.in.(*ssa.Return)
		if n.kind != NInstr || !ok || n.fr != g.root {
			return false
		}
		t := g.subst(g.term(n.fr, r.Results[errResult(g.root.fn.Signature)]), e, 0)
		if isNilConst(t) {
			return true
		}
		if t.op == "call" && (t.s == "fmt.Errorf" || t.s == "errors.New") {
			return false
		}
		return g.eval(g.mk(&Term{op: "bin", s: "!=", args: []*Term{t, g.nilErr()}, typ: types.Typ[types.Bool]}), e) != yes
	}
	return g.find([]*Node{from}, searchOpt{avoid: func(n *Node) bool { return n == must }, goalE: nilErr}) == nil
}

func (g *Graph) nilErr() *Term {
	return g.mk(&Term{op: "const", s: "nil", typ: types.Universe.Lookup("error").Type()})
}

func (c *Ctx) writesFile(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Params().Len() < 2 || !isBytes(sig.Params().At(1).Type()) || sig.Results().Len() != 1 || errResult(sig) != 0 {
		return false
	}
	const write, clos, sync = "(*os.File).Write", "(*os.File).Close", "(*os.File).Sync"
	g, st := c.steps(f, map[string]bool{"os.Create": true, "os.OpenFile": true, write: true, clos: true, sync: true})
	if g == nil || len(st[write]) != 1 || len(st["os.Create"])+len(st["os.OpenFile"]) != 1 || len(st[clos]) == 0 {
		return false
	}
	var open *Node
	for _, n := range append(st["os.Create"], st["os.OpenFile"]...) {
		open = n
	}
	as := g.callArgs(open)
	if g.P(as[0]) != "$0" {
		return false
	}
	if open.callName() == "os.OpenFile" {
		fl, ok := constInt(g.single0(as[1]))
		if !ok || fl&int64(os.O_CREATE) == 0 || fl&int64(os.O_TRUNC) == 0 || fl&3 == 0 || fl&int64(os.O_APPEND|os.O_EXCL) != 0 {
			return false
		}
	}
	w := st[write][0]
	if !g.handle(open, w) || g.P(g.callArgs(w)[1]) != "$1" || !g.onSuccess(g.root.entry, w) {
		return false
	}
	for _, n := range append(st[clos], st[sync]...) {
		if !g.handle(open, n) {
			return false
		}
	}
	// closed on success, and not before it is written
	isClose := map[*Node]bool{}
	for _, n := range st[clos] {
		isClose[n] = true
		if g.find([]*Node{n}, searchOpt{goal: func(m *Node) bool { return m == w }}) != nil {
			return false
		}
	}
	return g.find([]*Node{w}, searchOpt{
		avoid: func(n *Node) bool { return isClose[n] },
		goal:  func(n *Node) bool { return n == g.threads[0].exit },
	}) == nil
}

func (c *Ctx) readsFile(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 || !isBytes(sig.Results().At(0).Type()) || errResult(sig) != 1 {
		return false
	}
	const read, clos = "io.ReadAll", "(*os.File).Close"
	g, st := c.steps(f, map[string]bool{"os.Open": true, read: true, clos: true})
	if g == nil || len(st["os.Open"]) != 1 || len(st[read]) != 1 {
		return false
	}
	open, rd := st["os.Open"][0], st[read][0]
	if g.P(g.callArgs(open)[0]) != "$0" || !g.onSuccess(g.root.entry, rd) {
		return false
	}
	if h := g.one(stripIface(g.callArgs(rd)[0])); h.op != "res" || h.i != 0 || h.args[0].node != open {
		return false
	}
	for _, n := range st[clos] {
		if !g.handle(open, n) || g.find([]*Node{n}, searchOpt{goal: func(m *Node) bool { return m == rd }}) != nil {
			return false
		}
	}
	// on success it returns what was read
	for _, ch := range g.rootResults(0) {
		v := g.single0(ch.v)
		if isNilConst(v) || v.op == "res" && v.i == 0 && v.args[0].node == rd {
			continue
		}
		return false
	}
	for _, r := range g.root.rets {
		if !g.live[r] {
			continue
		}
		t := g.term(g.root, r.in.(*ssa.Return).Results[0])
		g.watch(t)
		if g.find([]*Node{rd}, searchOpt{
			start: &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{g.mk(&Term{op: "bin", s: "==", args: []*Term{g.result(rd, 1), g.nilErr()}, typ: types.Typ[types.Bool]}): true}},
			goalE: func(n *Node, e *env) bool { return n == r && isNilConst(g.single0(g.resolve(t, e))) },
		}) != nil {
			return false
		}
	}
	return true
}
