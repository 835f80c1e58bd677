package main

import (
	"go/ast"
	"go/token"
)

// scopes tells what the names of a function that is not type-checked yet mean: the declaration in the function they refer
// to, or none for what is declared outside.
type scopes struct {
	stack []map[string]*ast.Ident
	visit func(ast.Node)
}

func (s *scopes) lookup(name string) *ast.Ident {
	for i := len(s.stack) - 1; i >= 0; i-- {
		if d := s.stack[i][name]; d != nil {
			return d
		}
	}
	return nil
}

func (s *scopes) open()  { s.stack = append(s.stack, map[string]*ast.Ident{}) }
func (s *scopes) close() { s.stack = s.stack[:len(s.stack)-1] }

func (s *scopes) declare(id *ast.Ident, again bool) {
	top := s.stack[len(s.stack)-1]
	if id != nil && id.Name != "_" && (!again || top[id.Name] == nil) {
		top[id.Name] = id
	}
}

func (s *scopes) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		s.walk(f.Type)
		for _, n := range f.Names {
			s.declare(n, false)
		}
	}
}

func (s *scopes) list(l []ast.Stmt) {
	for _, x := range l {
		s.walk(x)
	}
}

// walk visits a part of the tree, each node with the declarations that hold before it.
func (s *scopes) walk(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		s.visit(m)
		switch m := m.(type) {
		case *ast.FuncDecl:
			s.open()
			s.fields(m.Recv)
			s.fields(m.Type.Params)
			s.fields(m.Type.Results)
			s.walk(m.Body)
			s.close()
		case *ast.FuncLit:
			s.open()
			s.fields(m.Type.Params)
			s.fields(m.Type.Results)
			s.walk(m.Body)
			s.close()
		case *ast.FuncType:
			for _, l := range []*ast.FieldList{m.Params, m.Results} {
				if l != nil {
					for _, f := range l.List {
						s.walk(f.Type)
					}
				}
			}
		case *ast.BlockStmt:
			s.open()
			s.list(m.List)
			s.close()
		case *ast.IfStmt:
			s.open()
			s.maybe(m.Init)
			s.walk(m.Cond)
			s.walk(m.Body)
			s.maybe(m.Else)
			s.close()
		case *ast.ForStmt:
			s.open()
			s.maybe(m.Init)
			if m.Cond != nil {
				s.walk(m.Cond)
			}
			s.maybe(m.Post)
			s.walk(m.Body)
			s.close()
		case *ast.RangeStmt:
			s.walk(m.X)
			s.open()
			for _, e := range []ast.Expr{m.Key, m.Value} {
				if id, ok := e.(*ast.Ident); ok && m.Tok == token.DEFINE {
					s.declare(id, false)
				} else if e != nil {
					s.walk(e)
				}
			}
			s.walk(m.Body)
			s.close()
		case *ast.SwitchStmt:
			s.open()
			s.maybe(m.Init)
			if m.Tag != nil {
				s.walk(m.Tag)
			}
			s.walk(m.Body)
			s.close()
		case *ast.TypeSwitchStmt:
			s.open()
			s.maybe(m.Init)
			s.maybe(m.Assign)
			s.walk(m.Body)
			s.close()
		case *ast.CaseClause:
			for _, e := range m.List {
				s.walk(e)
			}
			s.open()
			s.list(m.Body)
			s.close()
		case *ast.CommClause:
			s.open()
			s.maybe(m.Comm)
			s.list(m.Body)
			s.close()
		case *ast.AssignStmt:
			for _, e := range m.Rhs {
				s.walk(e)
			}
			for _, e := range m.Lhs {
				if id, ok := e.(*ast.Ident); ok && m.Tok == token.DEFINE {
					top := s.stack[len(s.stack)-1]
					if top[id.Name] != nil {
						s.visit(id)
					}
					s.declare(id, true)
				} else {
					s.walk(e)
				}
			}
		case *ast.ValueSpec:
			if m.Type != nil {
				s.walk(m.Type)
			}
			for _, e := range m.Values {
				s.walk(e)
			}
			for _, id := range m.Names {
				s.declare(id, false)
			}
		case *ast.TypeSpec:
			s.declare(m.Name, false)
			s.walk(m.Type)
		case *ast.SelectorExpr:
			s.walk(m.X)
		case *ast.KeyValueExpr:
			// the key of a struct literal is a field, but it can be a variable too
			s.walk(m.Key)
			s.walk(m.Value)
		case *ast.Field, *ast.LabeledStmt, *ast.BranchStmt:
			if l, ok := m.(*ast.LabeledStmt); ok {
				s.walk(l.Stmt)
			} else if f, ok := m.(*ast.Field); ok {
				s.walk(f.Type)
			}
		default:
			return true
		}
		return false
	})
}

func (s *scopes) maybe(n ast.Stmt) {
	if n != nil {
		s.walk(n)
	}
}
