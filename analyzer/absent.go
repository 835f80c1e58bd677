package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// missingFails looks for a way on which a file that does not exist makes the operation fail: it is read without
// asking, and the error "does not exist" ends the process or is returned like any other.
func (g *Graph) missingFails(rd *Node) string {
	args := g.callArgs(rd)
	path := strings.Join(g.pathSegs(args[0]), "/")
	th := rd.fr.thread
	var asked []*Node
	for _, s := range g.calls("os.Stat", "os.Lstat") {
		if s.fr.thread == th && strings.Join(g.pathSegs(g.callArgs(s)[0]), "/") == path {
			asked = append(asked, s)
		}
	}
	if len(asked) > 0 {
		p := g.find([]*Node{th.entry}, searchOpt{
			avoid: func(n *Node) bool {
				for _, s := range asked {
					if g.saysMiss(n, s, false) {
						return true
					}
				}
				return false
			},
			goal: func(n *Node) bool { return n == rd },
		})
		if p == nil {
			return "" // it is read only when it is there
		}
	}
	e := g.callErr(rd, errResult(rd.common().Signature()))
	p := g.find([]*Node{rd}, searchOpt{
		keep: func(t *Term) bool { return t.op == "bin" },
		avoidE: func(n *Node, en *env) bool {
			if n != rd && (g.saysErr(n, rd, false) || g.saysMiss(n, rd, false) || n == rd) {
				return true
			}
			// another failure
			if n.kind == NBranch && !n.maybe && n != rd {
				c, pol := g.single0(g.cond(n)), n.pol
				for c.op == "un" && c.s == "!" {
					c, pol = g.single0(c.args[0]), !pol
				}
				if c.op == "bin" && (c.s == "==" || c.s == "!=") && pol == (c.s == "!=") {
					x, y := c.args[0], c.args[1]
					if isNilConst(x) {
						x, y = y, x
					}
					if x = g.subst(x, en, 0); isNilConst(y) && isErrorType(x.typ) && x != e && g.errOf(x) != rd {
						return true
					}
				}
			}
			return false
		},
		goalE: func(n *Node, en *env) bool {
			if n.kind != NInstr {
				return false
			}
			if cc := n.common(); cc != nil && isNoReturn(cc) {
				return true
			}
			switch in := n.in.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Return:
				if n.fr != g.root {
					return false
				}
				k := errResult(g.root.fn.Signature)
				if k < 0 || k >= len(in.Results) {
					return false
				}
				t := g.subst(g.term(n.fr, in.Results[k]), en, 0)
				return t == e || g.errOf(t) == rd
			}
			return false
		},
	})
	if p == nil {
		return ""
	}
	return g.pathText(p)
}

// newFiles decides that no file has to be there already: those whose names come from a listing are.
func (c *Ctx) newFiles(g *Graph, rule, obj string, in func(*Node) bool) {
	for _, rd := range g.calls("os.ReadFile", "os.Open", "io/ioutil.ReadFile") {
		if !in(rd) {
			continue
		}
		ts := g.pathTerms(g.callArgs(rd)[0])
		if len(ts) == 0 || g.entryName(ts[len(ts)-1]) != nil {
			continue
		}
		why := g.missingFails(rd)
		c.check(why == "", rule, obj, g.where(rd), "it fails when the file was not written yet: "+why)
	}
}

// unfounded looks for a way on which an operation that did not fail is taken for failed: its error is wrapped, or ends
// the process, although nothing on the way says that there is one.
func (g *Graph) unfounded(n *Node) string {
	cc := n.common()
	var args []*Term
	switch {
	case n.kind != NInstr:
		return ""
	case cc != nil && (isNoReturn(cc) || n.callName() == "fmt.Errorf"):
		for i, a := range g.callArgs(n) {
			if i == len(g.callArgs(n))-1 && cc.Signature().Variadic() {
				va, ok := g.varargs(a)
				if !ok {
					continue
				}
				args = append(args, va...)
				continue
			}
			args = append(args, a)
		}
	default:
		p, ok := n.in.(*ssa.Panic)
		if !ok {
			return ""
		}
		args = []*Term{g.term(n.fr, p.X)}
	}
	for _, a := range args {
		for i := 0; i < 4; i++ {
			a = g.single0(a)
			if a.op == "iface" || a.op == "conv" {
				a = a.args[0]
			} else if a.op == "call" && (a.s == "(error).Error" || a.s == "fmt.Sprint") && len(a.args) == 1 {
				a = a.args[0]
			} else {
				break
			}
		}
		if !isErrorType(a.typ) {
			continue
		}
		for _, v := range g.vals(a) {
			if isNilConst(v) {
				if p := g.find([]*Node{n.fr.thread.entry}, searchOpt{goalE: g.usedAs(a, v, n)}); p != nil {
					return "although nothing failed: " + g.pathText(p)
				}
				continue
			}
			call := g.errOf(v)
			if call == nil || call.fr.thread != n.fr.thread {
				continue
			}
			p := g.find([]*Node{call}, searchOpt{
				avoid: func(m *Node) bool { return m == call || g.saysErr(m, call, true) },
				goalE: g.usedAs(a, v, n),
			})
			if p != nil {
				return "although " + call.callName() + " at " + g.where(call) + " may not have failed: " + g.pathText(p)
			}
		}
	}
	return ""
}

// founded decides that only failures are reported, or end the process.
func (c *Ctx) founded(g *Graph, rule, obj string) {
	k := 0
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		_, isP := n.in.(*ssa.Panic)
		if cc := n.common(); !isP && (cc == nil || !isNoReturn(cc) && n.callName() != "fmt.Errorf") {
			continue
		}
		if why := g.unfounded(n); why != "" {
			c.bad(rule, obj, g.where(n), "it stops or reports a failure "+why)
		} else {
			k++
		}
	}
	if k > 0 {
		c.ok(rule, obj, g.where(g.root.entry), "")
	}
}

// afterClose looks for a use of a file or a response that was closed before.
func (c *Ctx) afterClose(g *Graph, rule, obj string) {
	base := func(t *Term) *Term {
		for i := 0; i < 12; i++ {
			t = g.single0(t)
			switch {
			case t.op == "iface" || t.op == "conv":
				t = t.args[0]
			case t.op == "call" && len(t.args) > 0 && strings.Contains(t.s, ".New") && !strings.HasPrefix(t.s, "net/"):
				t = t.args[0]
			default:
				return t
			}
		}
		return t
	}
	for _, n := range g.liveNodes {
		nm := n.callName()
		if n.common() == nil || !strings.HasSuffix(nm, ").Close") || len(g.callArgs(n)) == 0 || nm == "(*os.File).Close" && n.kind == NBranch {
			continue
		}
		if nm != "(*os.File).Close" && nm != "(io.ReadCloser).Close" && nm != "(io.Closer).Close" {
			continue
		}
		f := base(g.callArgs(n)[0])
		if f.node == nil && f.op != "res" && f.op != "field" && f.op != "load" {
			continue
		}
		opened := f.node
		if f.op == "res" {
			opened = f.args[0].node
		}
		p := g.find([]*Node{n}, searchOpt{
			avoid: func(m *Node) bool { return m == opened },
			goal: func(m *Node) bool {
				if m == n || m.common() == nil || m.kind != NInstr && m.kind != NDeferred {
					return false
				}
				un := m.callName()
				if un == "" || strings.Contains(un, ".New") || strings.HasSuffix(un, ".Close") || strings.HasSuffix(un, ".Name") || !strings.HasPrefix(un, "(*bufio.") && !strings.HasPrefix(un, "io.") && !strings.HasPrefix(un, "io/") && !strings.HasPrefix(un, "(*os.File).") && !strings.HasPrefix(un, "(*encoding/") && !strings.HasPrefix(un, "(io.") {
					return false
				}
				for _, a := range g.callArgs(m) {
					if base(a) == f {
						return true
					}
				}
				return false
			},
		})
		if p != nil {
			c.bad(rule, obj, g.where(p[len(p)-1]), "it uses what was closed at "+g.where(n)+": "+g.pathText(p))
		} else {
			c.ok(rule, obj, g.where(n), "")
		}
	}
}
