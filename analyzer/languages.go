package main

import (
	"go/ast"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wordsOf are the keys that a package variable is initialised with, nil when they are not a literal.
func (c *Ctx) wordsOf(pkg, name string) map[string]bool {
	p := c.p.Syn[pkg]
	if p == nil {
		return nil
	}
	var out map[string]bool
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Values) != len(vs.Names) {
					continue
				}
				for i, n := range vs.Names {
					cl, ok := vs.Values[i].(*ast.CompositeLit)
					if n.Name != name || !ok {
						continue
					}
					out = map[string]bool{}
					for _, e := range cl.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							e = kv.Key
						}
						if l, ok := e.(*ast.BasicLit); ok {
							if w, err := strconv.Unquote(l.Value); err == nil {
								out[w] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// sample are words that only one of the languages has among its stop words.
var sample = map[string][2][]string{ // has, has not
	"EN": {{"the", "and", "of"}, {"que", "de", "uma"}},
	"PT": {{"que", "de", "uma"}, {"the", "and", "of"}},
}

// languages decides that the stop words of a declared language are those of that language.
func (c *Ctx) languages() {
	pkg := Module + "/language"
	p := c.p.ByID[pkg]
	if p == nil {
		return
	}
	for _, m := range p.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() < 1 || !isMap(f.Signature.Results().At(0).Type()) {
			continue
		}
		nt, ok := types.Unalias(f.Signature.Params().At(0).Type()).(*types.Named)
		if !ok {
			continue
		}
		g := c.graph(f, nil, "languages")
		x := g.term(g.root, g.root.fn.Params[0])
		ks := c.allDeclared(nt, nil)
		for _, k := range ks {
			lang := constant.StringVal(k.cv)
			want, ok := sample[lang]
			if !ok {
				continue
			}
			start := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
			for _, w := range ks {
				start.facts[g.mk(&Term{op: "bin", s: "==", args: []*Term{x, g.mk(w)}, typ: types.Typ[types.Bool]})] = w == k
			}
			for _, r := range g.root.rets {
				if !g.live[r] {
					continue
				}
				t := g.single0(g.term(g.root, r.in.(*ssa.Return).Results[0]))
				g.watch(t)
				why := ""
				g.find([]*Node{g.root.entry}, searchOpt{start: start, goalE: func(n *Node, en *env) bool {
					if n != r {
						return false
					}
					v := g.resolve(t, en)
					if !strings.HasPrefix(g.K(v), "glob:") {
						return false
					}
					nm := strings.TrimPrefix(g.K(v), "glob:")
					ws := c.wordsOf(pkg, nm[strings.LastIndex(nm, ".")+1:])
					if ws == nil {
						return false
					}
					for _, w := range want[0] {
						if !ws[w] {
							why = nm + " has no " + strconv.Quote(w)
						}
					}
					for _, w := range want[1] {
						if ws[w] {
							why = nm + " has " + strconv.Quote(w)
						}
					}
					return why != ""
				}})
				c.check(why == "", "languages", f.Name()+" "+lang, g.where(r), "the stop words of "+lang+" are those of another language: "+why)
			}
		}
	}
}
