// mutate writes small changes of single sites of the repository's source that are likely to break something, one JSON
// object per line: {"name", "file", "content"}. selftest/mutants.py runs the checks on each; what no check reports is
// read by hand: it changes nothing, it is outside the properties, or a check has to learn it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type file struct {
	pkg *packages.Package
	fs  *token.FileSet
	f   *ast.File
	src string
	rel string
	out *json.Encoder
	fn  *ast.FuncDecl
	n   map[string]int
}

func (x *file) off(p token.Pos) int    { return x.fs.Position(p).Offset }
func (x *file) text(n ast.Node) string { return x.src[x.off(n.Pos()):x.off(n.End())] }
func (x *file) rep(n ast.Node, text string) edit {
	return edit{x.off(n.Pos()), x.off(n.End()), text}
}

func (x *file) emit(kind string, at ast.Node, es ...edit) {
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	s := x.src
	for _, e := range es {
		s = s[:e.from] + e.text + s[e.to:]
	}
	name := fmt.Sprintf("%s %s:%d %s", kind, x.rel, x.fs.Position(at.Pos()).Line, x.fn.Name.Name)
	x.n[name]++
	if k := x.n[name]; k > 1 {
		name += "#" + strconv.Itoa(k)
	}
	x.out.Encode(map[string]string{"name": name, "file": x.rel, "content": s})
}

func (x *file) typeOf(e ast.Expr) types.Type { return x.pkg.TypesInfo.TypeOf(e) }

// others are the local variables and parameters of the same type that can be named here.
func (x *file) others(id *ast.Ident) []string {
	obj := x.pkg.TypesInfo.Uses[id]
	v, ok := obj.(*types.Var)
	if !ok || v.IsField() || v.Parent() == nil {
		return nil
	}
	var out []string
	for s := x.pkg.Types.Scope().Innermost(id.Pos()); s != nil && s != x.pkg.Types.Scope() && s != types.Universe; s = s.Parent() {
		for _, n := range s.Names() {
			o, ok := s.Lookup(n).(*types.Var)
			if !ok || o == v || n == "_" || o.Pos() >= id.Pos() || !types.Identical(o.Type(), v.Type()) {
				continue
			}
			if _, got := x.pkg.Types.Scope().Innermost(id.Pos()).LookupParent(n, id.Pos()); got != types.Object(o) {
				continue
			}
			out = append(out, n)
		}
	}
	sort.Strings(out)
	if len(out) > 3 {
		out = out[:3]
	}
	return out
}

func (x *file) siblings(sel *ast.SelectorExpr) []string {
	s := x.pkg.TypesInfo.Selections[sel]
	if s == nil {
		return nil
	}
	var out []string
	t := s.Recv()
	switch o := s.Obj().(type) {
	case *types.Var:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f != o && types.Identical(f.Type(), o.Type()) {
				out = append(out, f.Name())
			}
		}
	case *types.Func:
		ms := types.NewMethodSet(t)
		if _, isP := t.(*types.Pointer); !isP && !types.IsInterface(t) {
			ms = types.NewMethodSet(types.NewPointer(t))
		}
		for i := 0; i < ms.Len(); i++ {
			m, ok := ms.At(i).Obj().(*types.Func)
			if ok && m != o && (m.Exported() || m.Pkg() == x.pkg.Types) && sameSig(m, o) {
				out = append(out, m.Name())
			}
		}
	}
	return out
}

func sameSig(a, b *types.Func) bool {
	p, q := a.Type().(*types.Signature), b.Type().(*types.Signature)
	return types.Identical(p.Params(), q.Params()) && types.Identical(p.Results(), q.Results())
}

func (x *file) zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return `""`
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsNumeric != 0:
			return "0"
		}
		return "nil"
	case *types.Struct, *types.Array:
		return ""
	}
	return "nil"
}

func (x *file) stmts(list []ast.Stmt, loop ast.Stmt) {
	for i, s := range list {
		del := func(kind string) { x.emit(kind, s, x.rep(s, "")) }
		switch s := s.(type) {
		case *ast.ExprStmt:
			del("drop")
			if c, ok := s.X.(*ast.CallExpr); ok {
				x.emit("async", s, x.rep(s, "go "+x.text(c)))
				x.emit("later", s, x.rep(s, "defer "+x.text(c)))
				x.emit("twice", s, x.rep(s, x.text(c)+"\n"+x.text(c)))
			}
		case *ast.IncDecStmt:
			del("drop")
			x.emit("twice", s, x.rep(s, x.text(s)+"\n"+x.text(s)))
		case *ast.SendStmt:
			del("drop")
			x.emit("async", s, x.rep(s, "go func() { "+x.text(s)+" }()"))
			x.emit("try-send", s, x.rep(s, "select {\ncase "+x.text(s)+":\ndefault:\n}"))
			x.emit("twice", s, x.rep(s, x.text(s)+"\n"+x.text(s)))
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				del("drop")
			}
			if s.Tok != token.DEFINE && s.Tok != token.ASSIGN {
				x.emit("twice", s, x.rep(s, x.text(s)+"\n"+x.text(s)))
				x.emit("assign", s, edit{x.off(s.TokPos), x.off(s.TokPos) + 2, "="})
			}
			if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
				if c, ok := s.Rhs[0].(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && len(c.Args) > 1 && !c.Ellipsis.IsValid() {
						x.emit("append-anew", s, x.rep(c.Args[0], x.text(c.Args[0])+"[:0]"))
						x.emit("append-twice", s, x.rep(s, x.text(s)+"\n"+strings.Replace(x.text(s), ":=", "=", 1)))
					}
				}
				if ix, ok := s.Lhs[0].(*ast.IndexExpr); ok && s.Tok == token.ASSIGN {
					if _, isM := x.typeOf(ix.X).Underlying().(*types.Map); isM {
						x.emit("first-only", s, x.rep(s, "if _, ok := "+x.text(ix.X)+"["+x.text(ix.Index)+"]; !ok {\n"+x.text(s)+"\n}"))
						x.emit("again-only", s, x.rep(s, "if _, ok := "+x.text(ix.X)+"["+x.text(ix.Index)+"]; ok {\n"+x.text(s)+"\n}"))
					}
				}
			}
		case *ast.DeferStmt:
			del("drop")
			x.emit("undefer", s, x.rep(s, x.text(s.Call)))
		case *ast.GoStmt:
			del("drop")
			x.emit("ungo", s, x.rep(s, x.text(s.Call)))
			x.emit("twice", s, x.rep(s, x.text(s)+"\n"+x.text(s)))
		case *ast.IfStmt:
			del("drop")
			if s.Else == nil && s.Init == nil {
				x.emit("unguard", s, x.rep(s, strings.TrimSpace(x.text(s.Body))))
			}
		case *ast.RangeStmt, *ast.ForStmt:
			del("drop")
		case *ast.BranchStmt:
			del("drop")
			if s.Tok == token.CONTINUE {
				x.emit("break", s, x.rep(s, "break"))
			} else if s.Tok == token.BREAK {
				x.emit("continue", s, x.rep(s, "continue"))
			}
		}
		// swap with the next one
		if i+1 < len(list) {
			a, b := s, list[i+1]
			x.emit("swap", s, x.rep(a, x.text(b)), x.rep(b, x.text(a)))
		}
		if i+2 < len(list) {
			// two on
			a, b, c := s, list[i+1], list[i+2]
			x.emit("sink", s, edit{x.off(a.Pos()), x.off(c.End()), x.text(b) + "\n" + x.text(c) + "\n" + x.text(a)})
			x.emit("raise", s, edit{x.off(a.Pos()), x.off(c.End()), x.text(c) + "\n" + x.text(a) + "\n" + x.text(b)})
		}
		// only for some inputs
		switch s.(type) {
		case *ast.ExprStmt, *ast.AssignStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.RangeStmt, *ast.ForStmt, *ast.GoStmt, *ast.IfStmt:
			if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
				break
			}
			for _, g := range x.guards(s) {
				x.emit("only-if", s, x.rep(s, "if "+g+" {\n"+x.text(s)+"\n}"))
			}
		}
		// out of the loop
		if loop != nil {
			if i == 0 {
				x.emit("hoist", s, edit{x.off(loop.Pos()), x.off(loop.Pos()), x.text(s) + "\n"}, x.rep(s, ""))
			}
			if i == len(list)-1 {
				x.emit("after-loop", s, edit{x.off(loop.End()), x.off(loop.End()), "\n" + x.text(s)}, x.rep(s, ""))
				x.emit("loop-once", s, edit{x.off(s.End()), x.off(s.End()), "\nbreak"})
			}
		}
	}
}

// guards are conditions on the variables a statement uses.
func (x *file) guards(s ast.Stmt) []string {
	var out []string
	seen := map[string]bool{}
	ast.Inspect(s, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := x.pkg.TypesInfo.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Pos() >= s.Pos() && v.Pos() < s.End() || v.Parent() == x.pkg.Types.Scope() {
			return true
		}
		c := ""
		switch u := v.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				c = id.Name + ` != ""`
			case u.Info()&types.IsNumeric != 0:
				c = id.Name + " > 0"
			case u.Info()&types.IsBoolean != 0:
				c = id.Name
			}
		case *types.Slice, *types.Map:
			c = "len(" + id.Name + ") > 1"
		case *types.Interface:
			if types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
				c = id.Name + " == nil"
			}
		}
		if c != "" && !seen[c] && len(out) < 3 {
			seen[c] = true
			out = append(out, c)
		}
		return true
	})
	return out
}

func (x *file) do() {
	for _, d := range x.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		x.fn = fd
		loops := map[*ast.BlockStmt]ast.Stmt{}
		astutil.Apply(fd, func(c *astutil.Cursor) bool {
			switch n := c.Node().(type) {
			case *ast.RangeStmt:
				loops[n.Body] = n
				t := x.typeOf(n.X)
				if t == nil {
					break
				}
				if _, ok := t.Underlying().(*types.Slice); ok {
					x.emit("skip-first", n, x.rep(n.X, x.text(n.X)+"[1:]"))
					x.emit("skip-last", n, x.rep(n.X, x.text(n.X)+"[:len("+x.text(n.X)+")-1]"))
				}
			case *ast.ForStmt:
				loops[n.Body] = n
			case *ast.BlockStmt:
				x.stmts(n.List, loops[n])
			case *ast.CaseClause:
				x.stmts(n.Body, nil)
			case *ast.CommClause:
				x.stmts(n.Body, nil)
			case *ast.IfStmt:
				x.emit("negate", n.Cond, x.rep(n.Cond, "!("+x.text(n.Cond)+")"))
				x.emit("never", n.Cond, x.rep(n.Cond, "("+x.text(n.Cond)+") && false"))
				if n.Else != nil {
					x.emit("always", n.Cond, x.rep(n.Cond, "("+x.text(n.Cond)+") || true"))
					x.emit("no-else", n, edit{x.off(n.Body.End()), x.off(n.Else.End()), ""})
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					token.MUL: {"/", "+"}, token.QUO: {"*"}, token.REM: {"/"}}
				for _, o := range alt[n.Op] {
					x.emit("op", n, edit{x.off(n.OpPos), x.off(n.OpPos) + len(n.Op.String()), o})
				}
				x.emit("left", n, x.rep(n, x.text(n.X)))
				x.emit("right", n, x.rep(n, x.text(n.Y)))
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					x.emit("unnot", n, x.rep(n, x.text(n.X)))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					k, _ := strconv.Atoi(n.Value)
					x.emit("const", n, x.rep(n, strconv.Itoa(k+1)))
					if k > 0 {
						x.emit("const", n, x.rep(n, strconv.Itoa(k-1)))
					}
					if k > 1 {
						x.emit("const", n, x.rep(n, "0"))
					}
				case token.FLOAT:
					x.emit("const", n, x.rep(n, n.Value+"1"))
				case token.STRING:
					x.emit("string", n, x.rep(n, `"`+"x"+n.Value[1:len(n.Value)-1]+`"`))
				}
			case *ast.Ident:
				if p, ok := c.Parent().(*ast.AssignStmt); ok && c.Name() == "Lhs" && p.Tok == token.DEFINE {
					break
				}
				for _, o := range x.others(n) {
					x.emit("var", n, x.rep(n, o))
				}
				if n.Name == "true" {
					x.emit("bool", n, x.rep(n, "false"))
				} else if n.Name == "false" {
					x.emit("bool", n, x.rep(n, "true"))
				}
			case *ast.SelectorExpr:
				for _, o := range x.siblings(n) {
					x.emit("sibling", n, x.rep(n.Sel, o))
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					if t, u := x.typeOf(n.Args[i]), x.typeOf(n.Args[i+1]); t != nil && u != nil && types.Identical(t, u) {
						x.emit("swap-args", n, x.rep(n.Args[i], x.text(n.Args[i+1])), x.rep(n.Args[i+1], x.text(n.Args[i])))
					}
				}
				t := x.typeOf(n)
				if _, isStmt := c.Parent().(*ast.ExprStmt); t != nil && !isStmt && len(n.Args) == 1 {
					// a call left out
					if u := x.typeOf(n.Args[0]); u != nil && types.Identical(t, u) {
						x.emit("bare", n, x.rep(n, x.text(n.Args[0])))
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					t := x.typeOf(r)
					if t == nil {
						continue
					}
					if z := x.zero(t); z != "" && z != x.text(r) && z != "nil" || z == "nil" && types.Identical(t, types.Universe.Lookup("error").Type()) {
						x.emit("return-zero", n, x.rep(r, z))
					}
				}
			case *ast.KeyValueExpr:
				if _, ok := n.Key.(*ast.Ident); ok {
					if t := x.typeOf(n.Value); t != nil {
						if z := x.zero(t); z != "" && z != x.text(n.Value) {
							x.emit("zero-field", n, x.rep(n.Value, z))
						}
					}
				}
			}
			return true
		}, nil)
	}
}

func main() {
	repo := os.Args[1]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	out := json.NewEncoder(os.Stdout)
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			fn := p.GoFiles[i]
			rel, _ := filepath.Rel(repo, fn)
			if strings.HasSuffix(fn, "_test.go") || strings.Contains(rel, "buffers/") {
				continue
			}
			src, _ := os.ReadFile(fn)
			x := &file{pkg: p, fs: p.Fset, f: f, src: string(src), rel: rel, out: out, n: map[string]int{}}
			x.do()
		}
	}
}
