// refac writes behaviour-preserving rewrites of single sites of the repository's source, one JSON object per line:
// {"name", "file", "content"}. selftest/refac.py builds each and runs the checks, which must stay quiet.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type file struct {
	pkg  *packages.Package
	fs   *token.FileSet
	f    *ast.File
	src  string
	rel  string
	n    map[string]int
	ids  int
	out  *json.Encoder
	fn   *ast.FuncDecl
	imps map[string]string
	errs int
}

func (x *file) off(p token.Pos) int    { return x.fs.Position(p).Offset }
func (x *file) text(n ast.Node) string { return x.src[x.off(n.Pos()):x.off(n.End())] }
func (x *file) body(b *ast.BlockStmt) string {
	return x.src[x.off(b.Lbrace)+1 : x.off(b.Rbrace)]
}
func (x *file) span(a, b ast.Node) string { return x.src[x.off(a.Pos()):x.off(b.End())] }

func (x *file) emit(kind string, at ast.Node, es ...edit) {
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	s := x.src
	for _, e := range es {
		s = s[:e.from] + e.text + s[e.to:]
	}
	fn := ""
	if x.fn != nil {
		fn = x.fn.Name.Name
	}
	x.out.Encode(map[string]string{
		"name": fmt.Sprintf("%s %s:%d %s", kind, x.rel, x.fs.Position(at.Pos()).Line, fn), "file": x.rel, "content": s})
}

func (x *file) rep(n ast.Node, text string) edit { return edit{x.off(n.Pos()), x.off(n.End()), text} }

func (x *file) qual(p *types.Package) string {
	if p == x.pkg.Types {
		return ""
	}
	for _, i := range x.f.Imports {
		path := strings.Trim(i.Path.Value, `"`)
		if path == p.Path() {
			if i.Name != nil {
				return i.Name.Name
			}
			return p.Name()
		}
	}
	x.errs++
	return p.Name()
}

func (x *file) typ(t types.Type) string { return types.TypeString(t, x.qual) }

// jumps tells whether a statement can leave its place: return, break, continue, goto (of itself, not of what is in it).
func jumps(n ast.Node, ret bool) bool {
	found := false
	depth := 0
	var walk func(n ast.Node, loop, sw int)
	walk = func(n ast.Node, loop, sw int) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || found {
				return false
			}
			if m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt:
				walk(m.Body, loop+1, sw)
				return false
			case *ast.RangeStmt:
				walk(m.Body, loop+1, sw)
				return false
			case *ast.SwitchStmt:
				walk(m.Body, loop, sw+1)
				return false
			case *ast.TypeSwitchStmt:
				walk(m.Body, loop, sw+1)
				return false
			case *ast.SelectStmt:
				walk(m.Body, loop, sw+1)
				return false
			case *ast.ReturnStmt:
				if ret {
					found = true
				}
			case *ast.BranchStmt:
				if m.Label != nil || m.Tok == token.GOTO {
					found = true
				} else if m.Tok == token.BREAK && loop+sw == 0 {
					found = true
				} else if m.Tok == token.CONTINUE && loop == 0 {
					found = true
				}
			}
			return true
		})
	}
	_ = depth
	walk(&ast.BlockStmt{List: []ast.Stmt{wrap(n)}}, 0, 0)
	return found
}

func wrap(n ast.Node) ast.Stmt {
	switch n := n.(type) {
	case ast.Stmt:
		return n
	case ast.Expr:
		return &ast.ExprStmt{X: n}
	}
	panic("node")
}

func hasDefer(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.DeferStmt:
			found = true
		case *ast.CallExpr:
			if id, ok := m.(*ast.CallExpr).Fun.(*ast.Ident); ok && id.Name == "recover" {
				found = true
			}
		}
		return true
	})
	return found
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	}
	return false
}

func (x *file) tmp() string { x.ids++; return fmt.Sprintf("rv%d", x.ids) }

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	}
	return false
}

// neg negates a condition.
func (x *file) neg(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.NOT {
			return x.text(e.X)
		}
	case *ast.BinaryExpr:
		t := x.pkg.TypesInfo.TypeOf(e.X)
		b, _ := t.Underlying().(*types.Basic)
		fl := b != nil && b.Info()&types.IsFloat != 0
		m := map[token.Token]string{token.EQL: "!=", token.NEQ: "=="}
		if !fl {
			m[token.LSS], m[token.GEQ], m[token.GTR], m[token.LEQ] = ">=", "<", "<=", ">"
		}
		if o := m[e.Op]; o != "" {
			return x.text(e.X) + " " + o + " " + x.text(e.Y)
		}
	case *ast.Ident, *ast.CallExpr, *ast.SelectorExpr, *ast.IndexExpr:
		return "!" + x.text(e)
	}
	return "!(" + x.text(e) + ")"
}

// written tells whether a variable is assigned or its address is taken in n.
func (x *file) written(n ast.Node, o types.Object) bool {
	w := false
	is := func(e ast.Expr) bool {
		for {
			switch y := e.(type) {
			case *ast.ParenExpr:
				e = y.X
				continue
			case *ast.SelectorExpr:
				if _, ok := x.pkg.TypesInfo.TypeOf(y.X).Underlying().(*types.Pointer); ok {
					return false
				}
				e = y.X
				continue
			case *ast.IndexExpr:
				if _, ok := x.pkg.TypesInfo.TypeOf(y.X).Underlying().(*types.Array); !ok {
					return false
				}
				e = y.X
				continue
			}
			break
		}
		id, ok := e.(*ast.Ident)
		return ok && x.pkg.TypesInfo.ObjectOf(id) == o
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.AssignStmt:
			for _, l := range m.Lhs {
				w = w || is(l)
			}
		case *ast.IncDecStmt:
			w = w || is(m.X)
		case *ast.UnaryExpr:
			if m.Op == token.AND {
				w = w || is(m.X)
			}
		case *ast.RangeStmt:
			w = w || m.Key != nil && is(m.Key) || m.Value != nil && is(m.Value)
		case *ast.CallExpr:
			if s, ok := m.Fun.(*ast.SelectorExpr); ok {
				if sel := x.pkg.TypesInfo.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					if _, ok := sel.Recv().(*types.Pointer); !ok {
						if f, ok := sel.Obj().(*types.Func); ok {
							if r := f.Type().(*types.Signature).Recv(); r != nil {
								if _, ok := r.Type().(*types.Pointer); ok {
									w = w || is(s.X)
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	return w
}

// free lists the local variables a node uses that are declared outside of it.
func (x *file) free(n ast.Node) []*types.Var {
	seen := map[types.Object]bool{}
	var out []*types.Var
	ast.Inspect(n, func(m ast.Node) bool {
		id, ok := m.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := x.pkg.TypesInfo.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Parent() == nil || v.Parent() == x.pkg.Types.Scope() || v.Parent() == types.Universe || seen[v] {
			return true
		}
		if v.Pkg() != x.pkg.Types {
			return true
		}
		if v.Pos() >= n.Pos() && v.Pos() < n.End() {
			return true
		}
		seen[v] = true
		out = append(out, v)
		return true
	})
	return out
}

func (x *file) generic() bool {
	if x.fn.Type.TypeParams != nil {
		return true
	}
	if x.fn.Recv != nil && len(x.fn.Recv.List) > 0 {
		t := x.fn.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		switch t.(type) {
		case *ast.IndexExpr, *ast.IndexListExpr:
			return true
		}
	}
	return false
}

// helper extracts a node as a top-level function with the variables it uses as parameters, or "".
func (x *file) helper(name string, n ast.Node, body string) (call, decl string) {
	if x.generic() || hasDefer(n) {
		return "", ""
	}
	x.errs = 0
	var ps, as []string
	for _, v := range x.free(n) {
		if x.written(n, v) {
			return "", ""
		}
		// captured by a closure and written elsewhere: a copy would not do
		if x.captured(n, v) && x.writtenOutside(n, v) {
			return "", ""
		}
		if lock(v.Type()) {
			return "", ""
		}
		ps = append(ps, v.Name()+" "+x.typ(v.Type()))
		as = append(as, v.Name())
	}
	if x.errs > 0 {
		return "", ""
	}
	return name + "(" + strings.Join(as, ", ") + ")", "\n\nfunc " + name + "(" + strings.Join(ps, ", ") + ") {" + body + "}\n"
}

func lock(t types.Type) bool {
	s := t.String()
	return strings.HasPrefix(s, "sync.") && !strings.HasPrefix(s, "*")
}

func (x *file) captured(n ast.Node, o types.Object) bool {
	c := false
	ast.Inspect(n, func(m ast.Node) bool {
		if f, ok := m.(*ast.FuncLit); ok {
			ast.Inspect(f, func(k ast.Node) bool {
				if id, ok := k.(*ast.Ident); ok && x.pkg.TypesInfo.ObjectOf(id) == o {
					c = true
				}
				return true
			})
		}
		return true
	})
	return c
}

func (x *file) writtenOutside(n ast.Node, o types.Object) bool { return x.written(x.fn.Body, o) }

func (x *file) do() {
	for _, d := range x.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		x.fn = fd
		x.delegate(fd)
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				x.stmts(n.List, n)
			case *ast.CaseClause:
				x.stmts(n.Body, nil)
			case *ast.CommClause:
				x.stmts(n.Body, nil)
			case *ast.RangeStmt:
				x.rangeStmt(n)
			case *ast.ForStmt:
				x.forStmt(n)
			case *ast.IfStmt:
				x.ifStmt(n)
			case *ast.BinaryExpr:
				x.binary(n)
			case *ast.GoStmt:
				if fl, ok := n.Call.Fun.(*ast.FuncLit); ok {
					t := x.tmp()
					x.emit("go-var", n, x.rep(n, t+" := "+x.text(fl)+"\n go "+t+x.src[x.off(fl.End()):x.off(n.End())]))
					if len(n.Call.Args) == 0 {
						if call, decl := x.helper("rvWorker", fl, x.body(fl.Body)); call != "" {
							x.emit("go-helper", n, x.rep(n, "go "+call), edit{len(x.src), len(x.src), decl})
						}
					}
				}
			case *ast.FuncLit:
				x.lit(n)
			}
			return true
		})
		// last statement of a function without results
		if fd.Type.Results == nil && len(fd.Body.List) > 0 {
			if s, ok := fd.Body.List[len(fd.Body.List)-1].(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
				x.emit("early-return", s, x.rep(s, "if "+x.neg(s.Cond)+" {\nreturn\n}\n"+x.body(s.Body)))
			}
		}
	}
}

// delegate: the function calls another one that has its body.
func (x *file) delegate(fd *ast.FuncDecl) {
	if fd.Name.Name == "main" || fd.Name.Name == "init" {
		return
	}
	var as []string
	if fd.Type.Params != nil {
		for _, f := range fd.Type.Params.List {
			if len(f.Names) == 0 {
				return
			}
			for _, nm := range f.Names {
				if nm.Name == "_" {
					return
				}
				s := nm.Name
				if _, ok := f.Type.(*ast.Ellipsis); ok {
					s += "..."
				}
				as = append(as, s)
			}
		}
	}
	name := strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Impl"
	call := name
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 {
			return
		}
		call = fd.Recv.List[0].Names[0].Name + "." + name
	} else if fd.Type.TypeParams != nil {
		var ts []string
		for _, f := range fd.Type.TypeParams.List {
			for _, nm := range f.Names {
				ts = append(ts, nm.Name)
			}
		}
		call += "[" + strings.Join(ts, ", ") + "]"
	}
	call += "(" + strings.Join(as, ", ") + ")"
	if fd.Type.Results != nil {
		call = "return " + call
	}
	whole := x.src[x.off(fd.Pos()):x.off(fd.End())]
	i := x.off(fd.Name.Pos()) - x.off(fd.Pos())
	other := whole[:i] + name + whole[i+len(fd.Name.Name):]
	x.emit("delegate", fd, x.rep(fd.Body, "{\n"+call+"\n}\n\n"+other))
}

func (x *file) declares(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.DeclStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok == token.DEFINE
	case *ast.LabeledStmt:
		return true
	}
	return false
}

func (x *file) stmts(list []ast.Stmt, b *ast.BlockStmt) {
	for i, s := range list {
		switch s := s.(type) {
		case *ast.ExprStmt:
			x.callStmt(s, s.X)
			if i+1 < len(list) && x.isCall(s.X, "Lock", "RLock") {
				x.locked(list[i:], s)
			}
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				x.callStmt(s, s.Rhs[0])
			}
			x.assign(s)
			x.named(list, i)
		case *ast.IncDecStmt:
			op := "+"
			if s.Tok == token.DEC {
				op = "-"
			}
			x.emit("incdec", s, x.rep(s, x.text(s.X)+" "+op+"= 1"))
		case *ast.ReturnStmt:
			if len(s.Results) == 1 && !pure(s.Results[0]) {
				if _, ok := x.pkg.TypesInfo.TypeOf(s.Results[0]).(*types.Tuple); !ok {
					t := x.tmp()
					x.emit("return-var", s, x.rep(s, t+" := "+x.text(s.Results[0])+"\nreturn "+t))
				}
			}
		case *ast.IfStmt:
			if s.Else == nil && terminates(s.Body) && i+1 < len(list) && s.Init == nil {
				rest := x.span(list[i+1], list[len(list)-1])
				x.emit("else-rest", s, edit{x.off(s.Pos()), x.off(list[len(list)-1].End()), "if " + x.text(s.Cond) + x.text(s.Body) + " else {\n" + rest + "\n}"})
				// positive condition around the rest
				if r, ok := s.Body.List[len(s.Body.List)-1].(*ast.BranchStmt); ok && r.Tok == token.CONTINUE && r.Label == nil && len(s.Body.List) == 1 {
					x.emit("positive", s, edit{x.off(s.Pos()), x.off(list[len(list)-1].End()), "if " + x.neg(s.Cond) + " {\n" + rest + "\n}"})
				}
			}
		}
		// a statement as a closure, or a function
		if !x.declares(s) && !jumps(s, true) && !hasDefer(s) {
			switch s.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.AssignStmt:
				x.emit("closure", s, x.rep(s, "func() {\n"+x.text(s)+"\n}()"))
				if call, decl := x.helper("rvStep", s, "\n"+x.text(s)+"\n"); call != "" {
					x.emit("helper", s, x.rep(s, call), edit{len(x.src), len(x.src), decl})
				}
			case *ast.ExprStmt:
				if call, decl := x.helper("rvStep", s, "\n"+x.text(s)+"\n"); call != "" {
					x.emit("helper", s, x.rep(s, call), edit{len(x.src), len(x.src), decl})
				}
			}
		}
	}
}

// named: a value computed in its own function.
func (x *file) named(list []ast.Stmt, i int) {
	s := list[i].(*ast.AssignStmt)
	if len(s.Rhs) != 1 || pure(s.Rhs[0]) || x.generic() {
		return
	}
	t := x.pkg.TypesInfo.TypeOf(s.Rhs[0])
	if t == nil || s.Tok != token.DEFINE && s.Tok != token.ASSIGN {
		return
	}
	switch s.Rhs[0].(type) {
	case *ast.FuncLit:
		return
	}
	var rs string
	x.errs = 0
	if tu, ok := t.(*types.Tuple); ok {
		if len(s.Lhs) != tu.Len() {
			return
		}
		var ts []string
		for k := 0; k < tu.Len(); k++ {
			ts = append(ts, x.typ(tu.At(k).Type()))
		}
		rs = "(" + strings.Join(ts, ", ") + ")"
	} else {
		if len(s.Lhs) != 1 {
			return
		}
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		rs = x.typ(t)
	}
	call, decl := x.helper("rvValue", s.Rhs[0], "\nreturn "+x.text(s.Rhs[0])+"\n")
	if call == "" || x.errs > 0 {
		return
	}
	decl = strings.Replace(decl, ") {", ") "+rs+" {", 1)
	x.emit("value-helper", s, x.rep(s.Rhs[0], call), edit{len(x.src), len(x.src), decl})
}

func (x *file) isCall(e ast.Expr, names ...string) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	for _, n := range names {
		if s.Sel.Name == n {
			return true
		}
	}
	return false
}

// locked: a critical section as a closure with a deferred unlock.
func (x *file) locked(list []ast.Stmt, lk *ast.ExprStmt) {
	sel := lk.X.(*ast.CallExpr).Fun.(*ast.SelectorExpr)
	un := x.text(sel.X) + "." + strings.Replace(sel.Sel.Name, "Lock", "Unlock", 1) + "()"
	for j := 1; j < len(list); j++ {
		e, ok := list[j].(*ast.ExprStmt)
		if ok && x.text(e) == un {
			if j == 1 {
				return
			}
			x.emit("locked-closure", lk, edit{x.off(lk.Pos()), x.off(e.End()), "func() {\n" + x.text(lk) + "\ndefer " + un + "\n" + x.span(list[1], list[j-1]) + "\n}()"})
			return
		}
		if x.declares(list[j]) || jumps(list[j], true) {
			return
		}
	}
}

// callStmt: arguments of a call are computed before it.
func (x *file) callStmt(s ast.Stmt, e ast.Expr) {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return
	}
	if tv := x.pkg.TypesInfo.Types[c.Fun]; tv.IsType() || tv.IsBuiltin() {
		return
	}
	var pre []string
	var es []edit
	for _, a := range c.Args {
		if pure(a) {
			continue
		}
		switch a.(type) {
		case *ast.FuncLit:
			t := x.tmp()
			pre = append(pre, t+" := "+x.text(a))
			es = append(es, x.rep(a, t))
			continue
		}
		t := x.pkg.TypesInfo.TypeOf(a)
		if _, ok := t.(*types.Tuple); ok {
			return
		}
		if tv := x.pkg.TypesInfo.Types[a]; tv.Value != nil {
			continue
		}
		v := x.tmp()
		pre = append(pre, v+" := "+x.text(a))
		es = append(es, x.rep(a, v))
	}
	if len(pre) > 0 {
		es = append(es, edit{x.off(s.Pos()), x.off(s.Pos()), strings.Join(pre, "\n") + "\n"})
		x.emit("args-var", s, es...)
	}
	if se, ok := c.Fun.(*ast.SelectorExpr); ok {
		if sel := x.pkg.TypesInfo.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
			t := x.tmp()
			x.emit("method-value", s, edit{x.off(s.Pos()), x.off(s.Pos()), t + " := " + x.text(se) + "\n"}, x.rep(se, t))
			if !pure(se.X) {
				t := x.tmp()
				x.emit("recv-var", s, edit{x.off(s.Pos()), x.off(s.Pos()), t + " := " + x.text(se.X) + "\n"}, x.rep(se.X, t))
			}
		}
	}
}

func (x *file) assign(s *ast.AssignStmt) {
	ops := map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.QUO_ASSIGN: "/", token.OR_ASSIGN: "|"}
	if op := ops[s.Tok]; op != "" {
		x.emit("op-assign", s, x.rep(s, x.text(s.Lhs[0])+" = "+x.text(s.Lhs[0])+" "+op+" ("+x.text(s.Rhs[0])+")"))
	}
	if len(s.Lhs) != 1 || len(s.Rhs) != 1 {
		return
	}
	if s.Tok == token.ASSIGN && !pure(s.Rhs[0]) {
		t := x.tmp()
		x.emit("value-var", s, x.rep(s, t+" := "+x.text(s.Rhs[0])+"\n"+x.text(s.Lhs[0])+" = "+t))
	}
	if cl, ok := s.Rhs[0].(*ast.CompositeLit); ok && s.Tok == token.DEFINE && len(cl.Elts) > 0 {
		if _, ok := x.pkg.TypesInfo.TypeOf(cl).Underlying().(*types.Struct); ok {
			v := x.text(s.Lhs[0])
			out := "var " + v + " " + x.text(cl.Type)
			for _, e := range cl.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return
				}
				out += "\n" + v + "." + x.text(kv.Key) + " = " + x.text(kv.Value)
			}
			x.emit("struct-fields", s, x.rep(s, out))
		}
	}
	if s.Tok == token.DEFINE {
		t := x.pkg.TypesInfo.TypeOf(s.Lhs[0])
		x.errs = 0
		ts := x.typ(t)
		if x.errs == 0 && t != nil {
			x.emit("var-decl", s, x.rep(s, "var "+x.text(s.Lhs[0])+" "+ts+"\n"+x.text(s.Lhs[0])+" = "+x.text(s.Rhs[0])))
		}
	}
}

func (x *file) binary(b *ast.BinaryExpr) {
	m := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}
	if o := m[b.Op]; o != "" {
		x.emit("swap-operands", b, x.rep(b, x.text(b.Y)+" "+o+" "+x.text(b.X)))
	}
}

func (x *file) ifStmt(s *ast.IfStmt) {
	cond, body := x.text(s.Cond), x.body(s.Body)
	init := ""
	if s.Init != nil {
		init = x.text(s.Init) + "; "
		if s.Else == nil {
			x.emit("if-init", s, x.rep(s, "{\n"+x.text(s.Init)+"\nif "+cond+" "+x.text(s.Body)+"\n}"))
		}
	}
	if eb, ok := s.Else.(*ast.BlockStmt); ok {
		x.emit("invert", s, x.rep(s, "if "+init+x.neg(s.Cond)+" "+x.text(eb)+" else "+x.text(s.Body)))
	}
	if !jumpsBreak(s.Body) && (s.Else == nil || !jumpsBreak(s.Else)) {
		out := "switch " + init + "{\ncase " + cond + ":\n" + body
		if s.Else != nil {
			e := x.text(s.Else)
			if eb, ok := s.Else.(*ast.BlockStmt); ok {
				e = x.body(eb)
			}
			out += "\ndefault:\n" + e
		}
		x.emit("switch", s, x.rep(s, out+"\n}"))
	}
	if s.Else == nil && s.Init == nil {
		x.emit("not-not", s, x.rep(s, "if "+x.neg(s.Cond)+" {\n} else {"+body+"}"))
	}
	if b, ok := s.Cond.(*ast.BinaryExpr); ok && s.Else == nil {
		switch b.Op {
		case token.LAND:
			x.emit("split-and", s, x.rep(s, "if "+init+x.text(b.X)+" {\nif "+x.text(b.Y)+" {"+body+"}\n}"))
		case token.LOR:
			if s.Init == nil && terminates(s.Body) {
				x.emit("split-or", s, x.rep(s, "if "+x.text(b.X)+" {"+body+"}\nif "+x.text(b.Y)+" {"+body+"}"))
			}
		}
	}
	if s.Init == nil {
		t := x.tmp()
		x.emit("cond-var", s, edit{x.off(s.Pos()), x.off(s.Pos()), t + " := " + cond + "\n"}, x.rep(s.Cond, t))
	}
	// the condition in a function
	if !x.generic() {
		if call, decl := x.helper("rvCond", s.Cond, "\nreturn "+cond+"\n"); call != "" && s.Init == nil {
			decl = strings.Replace(decl, ") {", ") bool {", 1)
			x.emit("cond-helper", s, x.rep(s.Cond, call), edit{len(x.src), len(x.src), decl})
		}
	}
}

func jumpsBreak(n ast.Node) bool {
	found := false
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || found {
				return false
			}
			switch m := m.(type) {
			case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
				return false
			case *ast.BranchStmt:
				if m.Tok == token.BREAK {
					found = true
				}
			}
			return true
		})
	}
	walk(n)
	return found
}

func (x *file) loopBody(kind string, n ast.Node, b *ast.BlockStmt) {
	if len(b.List) == 0 {
		return
	}
	if !jumps(b, true) && !hasDefer(b) {
		x.emit(kind+"-body-closure", n, x.rep(b, "{\nfunc() {"+x.body(b)+"}()\n}"))
		if call, decl := x.helper("rvBody", b, x.body(b)); call != "" {
			x.emit(kind+"-body-helper", n, x.rep(b, "{\n"+call+"\n}"), edit{len(x.src), len(x.src), decl})
		}
	}
	if s, ok := b.List[len(b.List)-1].(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
		x.emit("early-continue", s, x.rep(s, "if "+x.neg(s.Cond)+" {\ncontinue\n}\n"+x.body(s.Body)))
	}
}

func (x *file) rangeStmt(r *ast.RangeStmt) {
	x.loopBody("range", r, r.Body)
	t := x.pkg.TypesInfo.TypeOf(r.X)
	name := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		id, ok := e.(*ast.Ident)
		if !ok || id.Name == "_" {
			return ""
		}
		return id.Name
	}
	if !pure(r.X) {
		v := x.tmp()
		x.emit("range-var", r, edit{x.off(r.Pos()), x.off(r.Pos()), v + " := " + x.text(r.X) + "\n"}, x.rep(r.X, v))
	}
	if r.Tok != token.DEFINE {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		i := name(r.Key)
		pre := ""
		xs := x.text(r.X)
		if !pure(r.X) {
			v := x.tmp()
			pre = v + " := " + xs + "\n"
			xs = v
		}
		if i == "" {
			i = x.tmp()
		}
		el := ""
		if v := name(r.Value); v != "" {
			el = "\n" + v + " := " + xs + "[" + i + "]"
		}
		if !x.captured(r.Body, x.pkg.TypesInfo.ObjectOf(r.Key.(*ast.Ident))) {
			x.emit("index-loop", r, x.rep(r, pre+"for "+i+" := 0; "+i+" < len("+xs+"); "+i+"++ {"+el+x.body(r.Body)+"}"))
		}
		if v := name(r.Value); v != "" {
			x.emit("range-index", r, x.rep(r, pre+"for "+i+" := range "+xs+" {"+el+x.body(r.Body)+"}"))
		}
	case *types.Map:
		_ = u
		if v, k := name(r.Value), name(r.Key); v != "" && k != "" && pure(r.X) {
			x.emit("range-key", r, x.rep(r, "for "+k+" := range "+x.text(r.X)+" {\n"+v+" := "+x.text(r.X)+"["+k+"]"+x.body(r.Body)+"}"))
		}
	case *types.Chan:
		if v := name(r.Key); v != "" {
			ok := x.tmp()
			x.emit("recv-loop", r, x.rep(r, "for {\n"+v+", "+ok+" := <-"+x.text(r.X)+"\nif !"+ok+" {\nbreak\n}"+x.body(r.Body)+"}"))
		}
	}
}

func (x *file) forStmt(f *ast.ForStmt) {
	x.loopBody("for", f, f.Body)
	if f.Cond != nil && f.Post != nil && f.Init != nil && !jumpsContinue(f.Body) {
		x.emit("while", f, x.rep(f, "{\n"+x.text(f.Init)+"\nfor "+x.text(f.Cond)+" {"+x.body(f.Body)+"\n"+x.text(f.Post)+"\n}\n}"))
	}
	if f.Cond != nil {
		init, post := "", ""
		if f.Init != nil {
			init = x.text(f.Init)
		}
		if f.Post != nil {
			post = x.text(f.Post)
		}
		x.emit("break-loop", f, x.rep(f, "for "+init+";;"+post+" {\nif "+x.neg(f.Cond)+" {\nbreak\n}"+x.body(f.Body)+"}"))
	}
}

func jumpsContinue(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if b, ok := m.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
			found = true
		}
		return true
	})
	return found
}

// lit: a function literal's last if, its body as a call.
func (x *file) lit(l *ast.FuncLit) {
	if l.Type.Results == nil && len(l.Body.List) > 0 {
		if s, ok := l.Body.List[len(l.Body.List)-1].(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
			x.emit("early-return", s, x.rep(s, "if "+x.neg(s.Cond)+" {\nreturn\n}\n"+x.body(s.Body)))
		}
	}
}

func main() {
	repo := os.Args[1]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	out := json.NewEncoder(os.Stdout)
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			fn := p.GoFiles[i]
			rel, _ := filepath.Rel(repo, fn)
			if strings.HasSuffix(fn, "_test.go") || strings.Contains(rel, "buffers/") || strings.HasPrefix(rel, "testecolection") {
				continue
			}
			src, _ := os.ReadFile(fn)
			x := &file{pkg: p, fs: p.Fset, f: f, src: string(src), rel: rel, out: out}
			x.do()
		}
	}
}
