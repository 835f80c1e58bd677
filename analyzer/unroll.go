package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"
)

// Loops over short lists that are written out in the source ([]T{a, b, c}, directly or in a local variable that is used
// for nothing else) are replaced by their iterations before the tree is type-checked, so that a table of loaders or
// filters is judged like the same calls in a row:
//
//	for i, x := range []T{a, b} { body }
//
// becomes
//
//	var u1 T = a; var u2 T = b
//	{ { i := 0; x := u1; body; }; { i := 1; x := u2; body } }
//
// with goto for continue and break. A loop is left alone when that could change what the program does (loop variables
// captured by a closure or by address, labels) or when it is not understood.

const unrollMax = 8

type unroller struct {
	n      int
	tables map[string]ast.Expr // functions of the file that only return a list that is written out
}

// listFuncs finds the functions that take nothing and only return a list that is written out.
func (u *unroller) listFuncs(f *ast.File) {
	u.tables = map[string]ast.Expr{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Body == nil || len(fd.Body.List) != 1 || fd.Type.Params.NumFields() != 0 || fd.Type.TypeParams != nil {
			continue
		}
		if r, ok := fd.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
			if lit, ok := r.Results[0].(*ast.CompositeLit); ok {
				u.tables[fd.Name.Name] = lit
			}
		}
	}
}

// listCall gives the list a call of such a function returns, when its names mean the same in a function.
func (u *unroller) listCall(fd *ast.FuncDecl, c *ast.CallExpr) *ast.CompositeLit {
	lit, ok := u.tables[identName(c.Fun)].(*ast.CompositeLit)
	if !ok || len(c.Args) != 0 {
		return nil
	}
	local := map[string]bool{}
	name := func(es ...ast.Expr) {
		for _, e := range es {
			if n := identName(e); n != "" {
				local[n] = true
			}
		}
	}
	ast.Inspect(fd, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			for _, x := range n.Names {
				name(x)
			}
		case *ast.ValueSpec:
			for _, x := range n.Names {
				name(x)
			}
		case *ast.TypeSpec:
			name(n.Name)
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE {
				name(n.Lhs...)
			}
		case *ast.RangeStmt:
			if n.Tok == token.DEFINE {
				name(n.Key, n.Value)
			}
		}
		return true
	})
	clash := local[identName(c.Fun)]
	ast.Inspect(lit, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && local[id.Name] {
			clash = true
		}
		return true
	})
	if clash {
		return nil
	}
	return clone(lit).(*ast.CompositeLit)
}

func parseExpanded(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := parseUnrolled(fset, name, src)
	if f == nil || err != nil {
		return f, err
	}
	u := &unroller{n: 1000}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			for i := 0; i < 40 && u.expand(fd); i++ {
			}
		}
	}
	return f, nil
}

func parseUnrolled(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
	if f == nil || err != nil {
		return f, err
	}
	u := &unroller{}
	u.listFuncs(f)
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			for i := 0; i < 20 && u.function(fd); i++ {
			}
		}
	}
	return f, nil
}

// function unrolls one loop of a function and tells whether there was one.
func (u *unroller) function(fd *ast.FuncDecl) bool {
	done := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if done {
			return false
		}
		var list *[]ast.Stmt
		switch n := n.(type) {
		case *ast.BlockStmt:
			list = &n.List
		case *ast.CaseClause:
			list = &n.Body
		case *ast.CommClause:
			list = &n.Body
		default:
			return true
		}
		for i, s := range *list {
			r := asRange(s)
			if r == nil || !loopVars(r) || !plainBody(r.Body, identName(r.Key), identName(r.Value)) {
				continue
			}
			switch x := r.X.(type) {
			case *ast.CallExpr:
				if lit := u.listCall(fd, x); lit != nil {
					if repl := u.unroll(r, nil, lit); repl != nil {
						*list = splice(*list, i, repl)
						done = true
						return false
					}
				}
			case *ast.CompositeLit:
				if repl := u.unroll(r, nil, x); repl != nil {
					*list = splice(*list, i, repl)
					done = true
					return false
				}
			case *ast.Ident:
				if u.table(fd, r, x, list, i) {
					done = true
					return false
				}
			}
		}
		return true
	})
	return done
}

func splice(list []ast.Stmt, i int, repl []ast.Stmt) []ast.Stmt {
	out := append([]ast.Stmt{}, list[:i]...)
	out = append(out, repl...)
	return append(out, list[i+1:]...)
}

func identName(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
		return id.Name
	}
	return ""
}

// asRange reads `for i := 0; i < len(list); i++` as a loop over the list, too.
func asRange(s ast.Stmt) *ast.RangeStmt {
	switch s := s.(type) {
	case *ast.RangeStmt:
		return s
	case *ast.ForStmt:
		init, ok1 := s.Init.(*ast.AssignStmt)
		cond, ok2 := s.Cond.(*ast.BinaryExpr)
		post, ok3 := s.Post.(*ast.IncDecStmt)
		if !ok1 || !ok2 || !ok3 || init.Tok != token.DEFINE || len(init.Lhs) != 1 || cond.Op != token.LSS || post.Tok != token.INC {
			return nil
		}
		k := identName(init.Lhs[0])
		zero, ok := init.Rhs[0].(*ast.BasicLit)
		if k == "" || !ok || zero.Value != "0" || identName(cond.X) != k || identName(post.X) != k {
			return nil
		}
		call, ok := cond.Y.(*ast.CallExpr)
		if !ok || len(call.Args) != 1 || identName(call.Fun) != "len" {
			return nil
		}
		x, ok := call.Args[0].(*ast.Ident)
		if !ok {
			return nil
		}
		return &ast.RangeStmt{For: s.For, Key: init.Lhs[0], Tok: token.DEFINE, X: x, Body: s.Body}
	}
	return nil
}

// loopVars: the loop declares its variables itself.
func loopVars(r *ast.RangeStmt) bool {
	for _, e := range []ast.Expr{r.Key, r.Value} {
		if e == nil {
			continue
		}
		if _, ok := e.(*ast.Ident); !ok || r.Tok != token.DEFINE {
			return false
		}
	}
	return true
}

// plainBody: nothing in the body keeps the loop variables beyond the iteration, and no labels are declared in it.
func plainBody(b *ast.BlockStmt, vars ...string) bool {
	ok := true
	is := func(e ast.Node) bool {
		id, isID := e.(*ast.Ident)
		if !isID {
			return false
		}
		for _, v := range vars {
			if v != "" && id.Name == v {
				return true
			}
		}
		return false
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.LabeledStmt:
			ok = false
		case *ast.BranchStmt:
			if n.Tok == token.GOTO {
				ok = false
			}
		case *ast.FuncLit:
			ast.Inspect(n, func(m ast.Node) bool {
				if is(m) {
					ok = false
				}
				return ok
			})
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				ast.Inspect(n.X, func(m ast.Node) bool {
					if is(m) {
						ok = false
					}
					return ok
				})
			}
		case *ast.SliceExpr:
			if is(n.X) {
				ok = false
			}
		case *ast.IncDecStmt:
			if is(n.X) {
				ok = false
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if n.Tok != token.DEFINE && is(l) {
					ok = false
				}
			}
		}
		return ok
	})
	return ok
}

// elements lists the elements of a literal with their type.
func elements(c *ast.CompositeLit) (ast.Expr, []ast.Expr) {
	at, ok := c.Type.(*ast.ArrayType)
	if !ok || len(c.Elts) == 0 || len(c.Elts) > unrollMax {
		return nil, nil
	}
	switch l := at.Len.(type) {
	case nil, *ast.Ellipsis:
	case *ast.BasicLit:
		if n, err := strconv.Atoi(l.Value); err != nil || n != len(c.Elts) {
			return nil, nil
		}
	default:
		return nil, nil
	}
	var out []ast.Expr
	for _, e := range c.Elts {
		if _, ok := e.(*ast.KeyValueExpr); ok {
			return nil, nil
		}
		if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
			x := *cl
			if st, ok := at.Elt.(*ast.StarExpr); ok {
				x.Type = clone(st.X).(ast.Expr)
				out = append(out, &ast.UnaryExpr{OpPos: cl.Lbrace, Op: token.AND, X: &x})
				continue
			}
			x.Type = clone(at.Elt).(ast.Expr)
			out = append(out, &x)
			continue
		}
		out = append(out, e)
	}
	return at.Elt, out
}

// vars declares one variable for each element.
func (u *unroller) vars(at token.Pos, c *ast.CompositeLit) ([]ast.Stmt, []string) {
	typ, es := elements(c)
	if es == nil {
		return nil, nil
	}
	var out []ast.Stmt
	var names []string
	for _, e := range es {
		u.n++
		name := fmt.Sprintf("unroll_%d", u.n)
		names = append(names, name)
		// used, whatever the body does
		out = append(out,
			&ast.DeclStmt{Decl: &ast.GenDecl{TokPos: e.Pos(), Tok: token.VAR, Specs: []ast.Spec{
				&ast.ValueSpec{Names: []*ast.Ident{{NamePos: e.Pos(), Name: name}}, Type: clone(typ).(ast.Expr), Values: []ast.Expr{e}},
			}}},
			&ast.AssignStmt{Lhs: []ast.Expr{&ast.Ident{NamePos: e.Pos(), Name: "_"}}, TokPos: e.Pos(), Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.Ident{NamePos: e.Pos(), Name: name}}},
		)
	}
	return out, names
}

// unroll gives the statements that do what the loop does.
func (u *unroller) unroll(r *ast.RangeStmt, names []string, lit *ast.CompositeLit) []ast.Stmt {
	var pre []ast.Stmt
	if lit != nil {
		pre, names = u.vars(r.For, lit)
		if names == nil {
			return nil
		}
	}
	table := identName(r.X)
	key, val := identName(r.Key), identName(r.Value)
	u.n++
	end := fmt.Sprintf("unroll_end_%d", u.n)
	usedEnd := false
	at := r.For
	var outer []ast.Stmt
	for i, name := range names {
		body := clone(r.Body).(*ast.BlockStmt)
		next := fmt.Sprintf("unroll_next_%d_%d", u.n, i)
		usedNext := false
		if table != "" && key != "" {
			body = replaceElem(body, table, key, name).(*ast.BlockStmt)
		}
		jumps(body, true, true, func(b *ast.BranchStmt) {
			if b.Tok == token.CONTINUE {
				usedNext = true
				b.Tok, b.Label = token.GOTO, &ast.Ident{NamePos: b.TokPos, Name: next}
			} else {
				usedEnd = true
				b.Tok, b.Label = token.GOTO, &ast.Ident{NamePos: b.TokPos, Name: end}
			}
		})
		var in []ast.Stmt
		def := func(n string, v ast.Expr) {
			in = append(in,
				&ast.AssignStmt{Lhs: []ast.Expr{&ast.Ident{NamePos: at, Name: n}}, TokPos: at, Tok: token.DEFINE, Rhs: []ast.Expr{v}},
				&ast.AssignStmt{Lhs: []ast.Expr{&ast.Ident{NamePos: at, Name: "_"}}, TokPos: at, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.Ident{NamePos: at, Name: n}}})
		}
		if key != "" {
			def(key, &ast.BasicLit{ValuePos: at, Kind: token.INT, Value: strconv.Itoa(i)})
		}
		if val != "" {
			def(val, &ast.Ident{NamePos: at, Name: name})
		}
		in = append(in, body)
		outer = append(outer, &ast.BlockStmt{Lbrace: at, List: in, Rbrace: r.Body.Rbrace})
		if usedNext {
			outer = append(outer, &ast.LabeledStmt{Label: &ast.Ident{NamePos: at, Name: next}, Colon: at, Stmt: &ast.EmptyStmt{Semicolon: at, Implicit: true}})
		}
	}
	if usedEnd {
		outer = append(outer, &ast.LabeledStmt{Label: &ast.Ident{NamePos: at, Name: end}, Colon: at, Stmt: &ast.EmptyStmt{Semicolon: at, Implicit: true}})
	}
	return append(pre, &ast.BlockStmt{Lbrace: at, List: outer, Rbrace: r.Body.Rbrace})
}

// jumps visits the continue and break statements that mean the loop with this body.
func jumps(n ast.Node, brk, cont bool, visit func(*ast.BranchStmt)) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m == n {
			return true
		}
		switch m := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ForStmt, *ast.RangeStmt:
			return false
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			if cont {
				jumps(m, false, cont, visit)
			}
			return false
		case *ast.BranchStmt:
			if m.Label == nil && (m.Tok == token.CONTINUE && cont || m.Tok == token.BREAK && brk) {
				visit(m)
			}
		}
		return true
	})
}

// table unrolls a loop over a local variable that holds a literal and is only walked.
func (u *unroller) table(fd *ast.FuncDecl, r *ast.RangeStmt, x *ast.Ident, list *[]ast.Stmt, i int) bool {
	// where it is defined
	var defList *[]ast.Stmt
	defAt, defs := -1, 0
	var lit *ast.CompositeLit
	uses := 0
	ast.Inspect(fd, func(n ast.Node) bool {
		var l *[]ast.Stmt
		switch n := n.(type) {
		case *ast.Ident:
			if n.Name == x.Name {
				uses++
			}
		case *ast.BlockStmt:
			l = &n.List
		case *ast.CaseClause:
			l = &n.Body
		case *ast.CommClause:
			l = &n.Body
		}
		if l != nil {
			for j, s := range *l {
				if c := defines(s, x.Name); c != nil {
					defs++
					defList, defAt, lit = l, j, c
				}
			}
		}
		return true
	})
	if defs != 1 {
		return false
	}
	_, es := elements(lit)
	if es == nil {
		return false
	}
	// every other use is a loop over it
	known := 1
	var loops []*ast.RangeStmt
	ast.Inspect(fd, func(n ast.Node) bool {
		s, ok := n.(ast.Stmt)
		if !ok {
			return true
		}
		q := asRange(s)
		if q == nil || identName(q.X) != x.Name {
			return true
		}
		known++
		loops = append(loops, q)
		if !loopVars(q) || !plainBody(q.Body, identName(q.Key), identName(q.Value)) {
			known = -1 << 20
		}
		k := identName(q.Key)
		ast.Inspect(q.Body, func(m ast.Node) bool {
			if ix, ok := m.(*ast.IndexExpr); ok && k != "" && identName(ix.X) == x.Name && identName(ix.Index) == k {
				known++
			}
			if as, ok := m.(*ast.AssignStmt); ok {
				for _, l := range as.Lhs {
					if rootName(l) == x.Name {
						known = -1 << 20
					}
				}
			}
			if un, ok := m.(*ast.UnaryExpr); ok && un.Op == token.AND && rootName(un.X) == x.Name {
				known = -1 << 20
			}
			return true
		})
		return true
	})
	if known != uses || len(loops) != 1 {
		return false
	}
	pre, names := u.vars(r.For, lit)
	repl := u.unroll(r, names, nil)
	if defList == list {
		out := splice(*list, i, repl)
		*list = splice(out, defAt, pre)
		return true
	}
	*list = splice(*list, i, repl)
	*defList = splice(*defList, defAt, pre)
	return true
}

func rootName(e ast.Expr) string {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name
		case *ast.IndexExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return ""
		}
	}
}

// defines reads `name := []T{…}` and `var name = []T{…}`.
func defines(s ast.Stmt, name string) *ast.CompositeLit {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE && len(s.Lhs) == 1 && len(s.Rhs) == 1 && identName(s.Lhs[0]) == name {
			c, _ := s.Rhs[0].(*ast.CompositeLit)
			return c
		}
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR && len(gd.Specs) == 1 {
			if vs, ok := gd.Specs[0].(*ast.ValueSpec); ok && vs.Type == nil && len(vs.Names) == 1 && vs.Names[0].Name == name && len(vs.Values) == 1 {
				c, _ := vs.Values[0].(*ast.CompositeLit)
				return c
			}
		}
	}
	return nil
}

// replaceElem puts a variable in the place of table[key].
func replaceElem(n ast.Node, table, key, name string) ast.Node {
	return rewrite(reflect.ValueOf(n), func(e ast.Expr) ast.Expr {
		if ix, ok := e.(*ast.IndexExpr); ok && identName(ix.X) == table && identName(ix.Index) == key {
			return &ast.Ident{NamePos: ix.Pos(), Name: name}
		}
		return nil
	}).Interface().(ast.Node)
}

// clone copies a part of the syntax tree.
func clone(n ast.Node) ast.Node {
	return rewrite(reflect.ValueOf(n), func(ast.Expr) ast.Expr { return nil }).Interface().(ast.Node)
}

var (
	objType   = reflect.TypeOf((*ast.Object)(nil))
	scopeType = reflect.TypeOf((*ast.Scope)(nil))
)

// rewrite copies a value with all that hangs on it.
func rewrite(v reflect.Value, f func(ast.Expr) ast.Expr) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		if e, ok := v.Interface().(ast.Expr); ok {
			if r := f(e); r != nil {
				return reflect.ValueOf(r)
			}
		}
		return rewrite(v.Elem(), f)
	case reflect.Ptr:
		if v.IsNil() || v.Type() == objType || v.Type() == scopeType {
			return reflect.Zero(v.Type())
		}
		out := reflect.New(v.Type().Elem())
		for i := 0; i < v.Elem().NumField(); i++ {
			x := rewrite(v.Elem().Field(i), f)
			if x.IsValid() {
				out.Elem().Field(i).Set(x)
			}
		}
		return out
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			x := rewrite(v.Index(i), f)
			if x.IsValid() {
				out.Index(i).Set(x)
			}
		}
		return out
	}
	return v
}
