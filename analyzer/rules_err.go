package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C15 (and part of C29): errors ----------------------------------------------------------------------------

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// errResult is the index of the error result of a call, -1 when it has none.
func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// cannotFail lists calls whose error says nothing about the data: printing, memory buffers, closing what was only read.
func (g *Graph) cannotFail(n *Node) bool {
	name := n.callName()
	switch {
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"):
		return true
	case strings.HasPrefix(name, "(*bytes.Buffer).Write"), strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(hash."):
		return true
	case strings.HasPrefix(name, "errors."), name == "fmt.Errorf", strings.Contains(name, "error)."):
		return true
	case name == "(*compress/gzip.Reader).Close", strings.HasPrefix(name, "(io.ReadCloser).Close"), name == "(io.Closer).Close":
		return true
	case name == "(*os.File).Close":
		// opened for reading
		as := g.callArgs(n)
		if len(as) == 0 {
			return false
		}
		for _, v := range g.vals(as[0]) {
			x := v
			for x.op == "res" {
				x = x.args[0]
			}
			if x.op != "call" || x.s != "os.Open" {
				return false
			}
		}
		return true
	}
	return false
}

var readCalls = map[string]bool{"os.ReadFile": true, "os.Open": true, "os.Stat": true, "os.Lstat": true, "os.ReadDir": true, "os.Remove": true, "io/ioutil.ReadFile": true, "os.OpenFile": false,
	"path/filepath.Glob": true, "os.RemoveAll": true, "io/ioutil.ReadDir": true}

// mayBeMissing tells whether a call only reads, so that a missing file may be an answer.
func (c *Ctx) mayBeMissing(n *Node) bool {
	cc := n.common()
	if cc == nil {
		return false
	}
	if readCalls[n.callName()] {
		return true
	}
	f := cc.StaticCallee()
	if f == nil || !c.p.InModule(f) {
		return false
	}
	ok := false
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		f = body(f)
		if f == nil || seen[f] {
			return true
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if !isCall {
					continue
				}
				sc := ci.Common().StaticCallee()
				if sc == nil {
					continue
				}
				if c.p.InModule(sc) {
					if !rec(sc) {
						return false
					}
					continue
				}
				if readCalls[calleeName(ci.Common())] {
					ok = true
				} else if strings.HasPrefix(calleeName(ci.Common()), "os.") && errResult(sc.Signature) >= 0 {
					return false
				}
			}
		}
		return true
	}
	return rec(f) && ok
}

// opaqueErr keeps functions with an error result as calls.
func opaqueErr(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if _, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return false // it runs what it is given
		}
	}
	return errResult(f.Signature) >= 0 && f.Parent() == nil
}

// isProbe tells whether a call only asks about a file, itself or in a function that does nothing else that may fail.
func (c *Ctx) isProbe(cc *ssa.CallCommon, d int) bool {
	if cc == nil || cc.IsInvoke() {
		return false
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if nm := f.String(); nm == "os.Stat" || nm == "os.Lstat" {
		return true
	}
	f = body(f)
	if f == nil || d > 3 || !c.p.InModule(f) || f.Blocks == nil {
		return false
	}
	any := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || errResult(ci.Common().Signature()) < 0 {
				continue
			}
			if !c.isProbe(ci.Common(), d+1) {
				return false
			}
			any = true
		}
	}
	return any
}

// swallowed looks for a path on which a call has failed and its thread goes on to report success.
// It returns a description of the path, "" when there is none.
func (c *Ctx) swallowed(g *Graph, n *Node, i int) string { return c.swallowedBut(g, n, i, nil) }

// swallowedBut is swallowed, leaving out the paths on which a branch says that the error is one that is expected.
func (c *Ctx) swallowedBut(g *Graph, n *Node, i int, expected func(e, cond *Term, pol bool) bool) string {
	e := g.callErr(n, i)
	nil_ := g.mk(&Term{op: "const", s: "nil", typ: types.Universe.Lookup("error").Type()})
	ne := func(t *Term) *Term {
		return g.mk(&Term{op: "bin", s: "==", args: []*Term{t, nil_}, typ: types.Typ[types.Bool]})
	}
	start := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
	if e != nil {
		start.facts[ne(e)] = false
	}
	// what the branches before it have shown
	for _, b := range g.guards(n) {
		c, pol := g.single0(g.cond(b)), b.pol
		for c.op == "un" && c.s == "!" {
			c, pol = g.single0(c.args[0]), !pol
		}
		if c.op == "bin" && (c.s == "==" || c.s == "!=") && stable(c) && (isNilConst(c.args[0]) || isNilConst(c.args[1])) {
			if _, ok := start.facts[c]; !ok {
				start.facts[c] = pol
			}
		}
	}
	probe := c.isProbe(n.common(), 0)
	missing := c.mayBeMissing(n)
	isNotExist := func(t *Term, en *env) bool {
		if t.op != "call" || e == nil {
			return false
		}
		switch t.s {
		case "os.IsNotExist":
			return g.subst(t.args[0], en, 0) == e
		case "errors.Is":
			name := g.K(t.args[1])
			return g.subst(t.args[0], en, 0) == e && (strings.HasSuffix(name, "os.ErrNotExist") || strings.HasSuffix(name, "fs.ErrNotExist"))
		}
		return false
	}
	th := n.fr.thread
	endless := !g.reaches(n, th.exit)
	var headers map[*Node]bool
	if endless {
		headers = map[*Node]bool{}
		for _, l := range g.loops {
			if l.body[n] || l.header == n {
				headers[l.header] = true
			}
		}
	}
	cond := func(b *Node, en *env) (*Term, bool) {
		t, pol := g.subst(g.cond(b), en, 0), b.pol
		for t.op == "un" && t.s == "!" {
			t, pol = g.subst(t.args[0], en, 0), !pol
		}
		// b == true
		for t.op == "bin" && (t.s == "==" || t.s == "!=") {
			sw := false
			for k := 0; k < 2; k++ {
				if x := t.args[k]; isBoolConst(x, true) || isBoolConst(x, false) {
					if isBoolConst(x, true) != (t.s == "==") {
						pol = !pol
					}
					t = g.subst(t.args[1-k], en, 0)
					sw = true
					break
				}
			}
			if !sw {
				break
			}
		}
		return t, pol
	}
	p := g.find([]*Node{n}, searchOpt{
		start: start,
		keep: func(t *Term) bool {
			if t.op != "bin" {
				return t.op == "call"
			}
			return isNilConst(t.args[0]) || isNilConst(t.args[1]) || isErrorType(t.args[0].typ)
		},
		avoidE: func(m *Node, en *env) bool {
			if m.kind != NBranch || m.maybe || !missing && expected == nil {
				return false
			}
			t, pol := cond(m, en)
			if expected != nil && e != nil && expected(e, t, pol) {
				return true
			}
			if missing && isNotExist(t, en) {
				return pol || probe
			}
			return false
		},
		goalE: func(m *Node, en *env) bool {
			if headers[m] {
				return true
			}
			if m.kind != NInstr {
				return m == th.exit && th != g.threads[0]
			}
			r, ok := m.in.(*ssa.Return)
			if !ok || m.fr != th.fr0(g) || th != g.threads[0] {
				return false
			}
			k := errResult(g.root.fn.Signature)
			if k < 0 || k >= len(r.Results) {
				return true
			}
			t := g.subst(g.term(m.fr, r.Results[k]), en, 0)
			if isNilConst(t) || t.op == "const" {
				return true
			}
			if t == e {
				return false
			}
			v := g.eval(ne(t), en)
			if v == unknown && e != nil && otherErr(t, e) {
				return true // the error of something else, which may not have failed
			}
			return v == yes
		},
	})
	if p == nil {
		return ""
	}
	return g.pathText(p)
}

// otherErr tells whether t is the error of a call that has nothing to do with error e.
func otherErr(t, e *Term) bool {
	c := t
	if c.op == "res" {
		c = c.args[0]
	}
	if c.op != "call" || strings.HasPrefix(c.s, "errors.") || strings.HasPrefix(c.s, "fmt.") {
		return false
	}
	f := e
	if f.op == "res" {
		f = f.args[0]
	}
	if f.op == "call" && f.s == c.s {
		return false // tried again
	}
	for _, a := range c.args {
		if a == e || a.typ != nil && isErrorType(a.typ) {
			return false
		}
	}
	return true
}

// fr0 is the frame of the function a thread runs.
func (t *Thread) fr0(g *Graph) *Frame {
	if t.fr != nil {
		return t.fr
	}
	return g.root
}

// callErr is the error a call gives, nil when it is dropped with the call (go, defer).
func (g *Graph) callErr(n *Node, i int) *Term { return g.result(n, i) }

func (c *Ctx) errorRoots(pkgs ...string) []*ssa.Function {
	in := map[string]bool{}
	for _, p := range pkgs {
		in[Module+"/"+p] = true
	}
	called := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if ci, ok := x.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil && in[funcPkgPath(f)] {
						called[body(sc)] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		if !in[funcPkgPath(f)] || f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		if errResult(f.Signature) >= 0 || !called[f] {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// failing lists the calls of the live graph whose failure somebody must hear of.
func (g *Graph) failing() []*Node {
	var out []*Node
	for _, n := range g.liveNodes {
		if n.kind != NInstr && n.kind != NDeferred {
			continue
		}
		cc := n.common()
		if cc == nil || n.callee != nil {
			continue
		}
		if _, isDefer := n.in.(*ssa.Defer); isDefer && n.kind == NInstr {
			continue
		}
		if errResult(cc.Signature()) < 0 || g.cannotFail(n) {
			continue
		}
		out = append(out, n)
	}
	return out
}

func ruleC15(c *Ctx) {
	pkgs := []string{"file", "storage"}
	seen := map[ssa.Instruction]bool{}
	done := map[*ssa.Function]bool{}
	do := func(f *ssa.Function) {
		if done[f] {
			return
		}
		done[f] = true
		g := c.graph(f, opaqueErr, "err")
		for _, n := range g.nodes {
			if n.in != nil {
				seen[n.in] = true
			}
		}
		for _, n := range g.failing() {
			i := errResult(n.common().Signature())
			why := c.swallowed(g, n, i)
			if why != "" && c.mergeRetry(g, n) {
				c.ok("merge-retry", fnLabel(n.fr.fn)+": "+n.callName(), g.where(n), "the merge is tried again")
				continue
			}
			c.check(why == "", "reported", fnLabel(n.fr.fn)+": "+n.callName(), g.where(n), "its failure does not stop "+fnLabel(f)+": "+why)
		}
	}
	for _, f := range c.errorRoots(pkgs...) {
		do(f)
	}
	// whatever was not reached from there
	in := map[string]bool{}
	for _, p := range pkgs {
		in[Module+"/"+p] = true
	}
	for _, f := range c.p.Funcs {
		if !in[funcPkgPath(f)] || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				ci, ok := x.(ssa.CallInstruction)
				if !ok || errResult(ci.Common().Signature()) < 0 {
					continue
				}
				if seen[x] {
					continue
				}
				top := f
				for top.Parent() != nil {
					top = top.Parent()
				}
				do(top)
			}
		}
	}
}

// mergeRetry: the background merge of the disk store, which C11 covers.
func (c *Ctx) mergeRetry(g *Graph, n *Node) bool {
	th := n.fr.thread
	if th.spawn == nil || th.callback {
		return false
	}
	cc := n.common()
	sc := cc.StaticCallee()
	return sc != nil && sc.Name() == "LoadIndexOnHD" && c.p.InModule(sc) && g.loopOf[n] != nil
}

func init() {
	register("C15", 1, "", ruleC15)
}
