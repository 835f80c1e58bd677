package main

import (
	"fmt"
	"go/ast"
	"go/token"
)

// Function literals that are called where they are written, and local functions (f := func(…) {…}) that change variables
// of the function around them and are only called, are replaced by their bodies before the tree is type-checked:
//
//	x := f(a)
//
// becomes
//
//	var r T; { var in A = a; p := in; { body, with r = e; goto end for return e }; end: }; x := r
//
// A literal with defer, recover, labels or named results is left alone, and so is one whose names could mean something
// else where it is called.

const expandMax = 8

// expand replaces one call or one local function and tells whether there was one.
func (u *unroller) expand(fd *ast.FuncDecl) bool {
	done := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if done {
			return false
		}
		list := stmtList(n)
		if list == nil {
			return true
		}
		for i, s := range *list {
			if call := stmtCall(s); call != nil {
				if lit, ok := unparen(call.Fun).(*ast.FuncLit); ok && expandable(lit, call) {
					*list = splice(*list, i, u.inPlace(s, call, lit))
					done = true
					return false
				}
			}
			if as, ok := s.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
				name := identName(as.Lhs[0])
				lit, ok := as.Rhs[0].(*ast.FuncLit)
				if name != "" && ok && u.localFunc(fd, list, i, name, lit) {
					done = true
					return false
				}
			}
		}
		return true
	})
	return done
}

func stmtList(n ast.Node) *[]ast.Stmt {
	switch n := n.(type) {
	case *ast.BlockStmt:
		return &n.List
	case *ast.CaseClause:
		return &n.Body
	case *ast.CommClause:
		return &n.Body
	}
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// stmtCall is the call a statement consists of.
func stmtCall(s ast.Stmt) *ast.CallExpr {
	var e ast.Expr
	switch s := s.(type) {
	case *ast.ExprStmt:
		e = s.X
	case *ast.AssignStmt:
		if len(s.Rhs) != 1 || s.Tok != token.DEFINE && s.Tok != token.ASSIGN {
			return nil
		}
		// what is assigned to must not depend on the call
		for _, l := range s.Lhs {
			if _, ok := l.(*ast.Ident); !ok {
				return nil
			}
		}
		e = s.Rhs[0]
	case *ast.ReturnStmt:
		if len(s.Results) != 1 {
			return nil
		}
		e = s.Results[0]
	default:
		return nil
	}
	c, _ := e.(*ast.CallExpr)
	return c
}

// expandable: the literal can be replaced by its body.
func expandable(lit *ast.FuncLit, call *ast.CallExpr) bool {
	ok := call == nil || !call.Ellipsis.IsValid()
	np := 0
	for _, f := range lit.Type.Params.List {
		if _, variadic := f.Type.(*ast.Ellipsis); variadic {
			ok = false
		}
		np += len(f.Names)
		if len(f.Names) == 0 {
			np++
		}
	}
	if call != nil && len(call.Args) != np {
		ok = false
	}
	if lit.Type.Results != nil {
		for _, f := range lit.Type.Results.List {
			if len(f.Names) > 0 {
				ok = false
			}
		}
	}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.DeferStmt, *ast.LabeledStmt:
			ok = false
		case *ast.BranchStmt:
			if n.Label != nil || n.Tok == token.GOTO {
				ok = false
			}
		case *ast.CallExpr:
			if identName(n.Fun) == "recover" {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// inPlace gives the statements that do what a statement with a call of a literal does.
func (u *unroller) inPlace(s ast.Stmt, call *ast.CallExpr, lit *ast.FuncLit) []ast.Stmt {
	at := s.Pos()
	id := func(n string) *ast.Ident { return &ast.Ident{NamePos: at, Name: n} }
	decl := func(n string, t, v ast.Expr) []ast.Stmt {
		vs := &ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: clone(t).(ast.Expr)}
		if v != nil {
			vs.Values = []ast.Expr{v}
		}
		return []ast.Stmt{
			&ast.DeclStmt{Decl: &ast.GenDecl{TokPos: at, Tok: token.VAR, Specs: []ast.Spec{vs}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, TokPos: at, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}},
		}
	}
	u.n++
	base := u.n
	var out, in []ast.Stmt
	var results []string
	if lit.Type.Results != nil {
		for i, f := range lit.Type.Results.List {
			n := fmt.Sprintf("expand_out_%d_%d", base, i)
			results = append(results, n)
			out = append(out, decl(n, f.Type, nil)...)
		}
	}
	var names, temps []string
	k := 0
	for _, f := range lit.Type.Params.List {
		ns := f.Names
		if len(ns) == 0 {
			ns = []*ast.Ident{{Name: "_"}}
		}
		for _, p := range ns {
			t := fmt.Sprintf("expand_in_%d_%d", base, k)
			in = append(in, decl(t, f.Type, call.Args[k])...)
			if p.Name != "_" {
				names, temps = append(names, p.Name), append(temps, t)
			}
			k++
		}
	}
	for i, n := range names {
		in = append(in,
			&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, TokPos: at, Tok: token.DEFINE, Rhs: []ast.Expr{id(temps[i])}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, TokPos: at, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}})
	}
	body := clone(lit.Body).(*ast.BlockStmt)
	end := fmt.Sprintf("expand_end_%d", base)
	used := false
	u.returns(body, func(r *ast.ReturnStmt) []ast.Stmt {
		used = true
		var o []ast.Stmt
		if len(r.Results) > 0 {
			as := &ast.AssignStmt{TokPos: r.Return, Tok: token.ASSIGN, Rhs: r.Results}
			for _, n := range results {
				as.Lhs = append(as.Lhs, &ast.Ident{NamePos: r.Return, Name: n})
			}
			o = append(o, as)
		}
		return append(o, &ast.BranchStmt{TokPos: r.Return, Tok: token.GOTO, Label: &ast.Ident{NamePos: r.Return, Name: end}})
	})
	in = append(in, body)
	if used {
		in = append(in, &ast.LabeledStmt{Label: id(end), Colon: at, Stmt: &ast.EmptyStmt{Semicolon: at, Implicit: true}})
	}
	out = append(out, &ast.BlockStmt{Lbrace: at, List: in, Rbrace: lit.Body.Rbrace})
	var rs []ast.Expr
	for _, n := range results {
		rs = append(rs, id(n))
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		out = append(out, &ast.AssignStmt{Lhs: s.Lhs, TokPos: s.TokPos, Tok: s.Tok, Rhs: rs})
	case *ast.ReturnStmt:
		out = append(out, &ast.ReturnStmt{Return: s.Return, Results: rs})
	}
	return out
}

// returns replaces the return statements of a body.
func (u *unroller) returns(n ast.Node, f func(*ast.ReturnStmt) []ast.Stmt) {
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			return false
		}
		if ls, ok := m.(*ast.LabeledStmt); ok {
			if r, ok := ls.Stmt.(*ast.ReturnStmt); ok {
				ls.Stmt = &ast.BlockStmt{Lbrace: r.Pos(), List: f(r), Rbrace: r.End()}
			}
		}
		if list := stmtList(m); list != nil {
			for i := 0; i < len(*list); i++ {
				if r, ok := (*list)[i].(*ast.ReturnStmt); ok {
					repl := f(r)
					*list = splice(*list, i, repl)
					i += len(repl) - 1
				}
			}
		}
		return true
	})
}

// localFunc replaces a local function that is only called by its body.
func (u *unroller) localFunc(fd *ast.FuncDecl, list *[]ast.Stmt, i int, name string, lit *ast.FuncLit) bool {
	if !expandable(lit, nil) || len(lit.Body.List) == 0 {
		return false
	}
	u.conditions(fd, name)
	// every use is a call that makes up a statement, and no goroutine or other literal has it
	uses := 0
	type site struct {
		list *[]ast.Stmt
		s    ast.Stmt
		call *ast.CallExpr
	}
	var sites []site
	ast.Inspect(fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			uses++
		}
		if l := stmtList(n); l != nil {
			for _, s := range *l {
				if c := stmtCall(s); c != nil && identName(unparen(c.Fun)) == name && expandable(lit, c) {
					sites = append(sites, site{l, s, c})
				}
			}
		}
		return true
	})
	if uses != len(sites)+1 || len(sites) == 0 || len(sites) > expandMax {
		return false
	}
	for _, s := range sites {
		if s.call.Pos() < lit.End() {
			return false
		}
	}
	// every name the literal has from around it means the same where it is called
	free := map[string]*ast.Ident{}
	writes := false
	in := &scopes{}
	written := func(e ast.Expr) {
		if n := identName(e); n != "" && n != "_" && in.lookup(n) == nil {
			writes = true
		}
	}
	in.visit = func(n ast.Node) {
		switch n := n.(type) {
		case *ast.Ident:
			if n.Name != "_" && in.lookup(n.Name) == nil {
				free[n.Name] = nil
			}
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				for _, l := range n.Lhs {
					written(l)
				}
			}
		case *ast.IncDecStmt:
			written(n.X)
		}
	}
	in.walk(lit)
	if !writes {
		return false
	}
	same, seen := true, 0
	var around *scopes
	around = &scopes{visit: func(n ast.Node) {
		if n == ast.Node(lit) {
			for v := range free {
				free[v] = around.lookup(v)
			}
			seen++
		}
		for _, s := range sites {
			if n == ast.Node(s.s) {
				for v, d := range free {
					same = same && around.lookup(v) == d
				}
				seen++
			}
		}
	}}
	around.walk(fd)
	if !same || seen != len(sites)+1 {
		return false
	}
	for _, s := range sites {
		for j := range *s.list {
			if (*s.list)[j] == s.s {
				repl := u.inPlace(s.s, s.call, lit)
				*s.list = splice(*s.list, j, repl)
				break
			}
		}
	}
	for j := range *list {
		if as, ok := (*list)[j].(*ast.AssignStmt); ok && len(as.Rhs) == 1 && as.Rhs[0] == ast.Expr(lit) {
			*list = splice(*list, j, nil)
			break
		}
	}
	return true
}

// conditions takes calls of a local function out of the heads of if statements.
func (u *unroller) conditions(fd *ast.FuncDecl, name string) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		list := stmtList(n)
		if list == nil {
			return true
		}
		for i, s := range *list {
			f, ok := s.(*ast.IfStmt)
			if !ok {
				continue
			}
			if f.Init != nil {
				if c := stmtCall(f.Init); c == nil || identName(unparen(c.Fun)) != name {
					continue
				}
				(*list)[i] = &ast.BlockStmt{Lbrace: f.If, List: []ast.Stmt{f.Init, f}, Rbrace: f.End()}
				f.Init = nil
				continue
			}
			at := &f.Cond
			for {
				if p, ok := (*at).(*ast.ParenExpr); ok {
					at = &p.X
				} else if x, ok := (*at).(*ast.UnaryExpr); ok && x.Op == token.NOT {
					at = &x.X
				} else if x, ok := (*at).(*ast.BinaryExpr); ok {
					at = &x.X // it is evaluated first
				} else {
					break
				}
			}
			c, ok := (*at).(*ast.CallExpr)
			if !ok || identName(unparen(c.Fun)) != name {
				continue
			}
			u.n++
			v := fmt.Sprintf("expand_cond_%d", u.n)
			*at = &ast.Ident{NamePos: c.Pos(), Name: v}
			(*list)[i] = &ast.BlockStmt{Lbrace: f.If, List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{&ast.Ident{NamePos: c.Pos(), Name: v}}, TokPos: c.Pos(), Tok: token.DEFINE, Rhs: []ast.Expr{c}}, f,
			}, Rbrace: f.End()}
		}
		return true
	})
}
