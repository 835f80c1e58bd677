package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms: a value numbering of the inlined graph. A term names the value an SSA register holds in one frame.
// Values that depend on memory keep the node at which they are read, and are resolved on demand by a backward
// search for the stores that reach it.

type termID struct {
	fr *Frame
	v  ssa.Value
}

type Term struct {
	op   string
	args []*Term
	s    string
	typ  types.Type
	node *Node
	key  string
	id   int
	fn   *ssa.Function
	mc   *ssa.MakeClosure
	fr   *Frame
	v    ssa.Value
	i    int
	cv   constant.Value
}

func (g *Graph) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	if t.s != "" {
		b.WriteString(":" + t.s)
	}
	if t.node != nil {
		fmt.Fprintf(&b, "@%d", t.node.id)
	}
	if t.i != 0 {
		fmt.Fprintf(&b, "#%d", t.i)
	}
	if len(t.args) > 0 {
		b.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "%d", a.id)
		}
		b.WriteString(")")
	}
	k := b.String()
	if o := g.intern[k]; o != nil {
		if o.typ == nil {
			o.typ = t.typ
		}
		return o
	}
	t.key = k
	t.id = len(g.intern) + 1
	g.intern[k] = t
	return t
}

func (g *Graph) konst(c constant.Value, typ types.Type) *Term {
	s := "nil"
	if c != nil {
		s = c.ExactString()
	} else if typ != nil {
		switch u := typ.Underlying().(type) {
		case *types.Struct, *types.Array:
			_ = u
			s = "zero"
		}
	}
	if s == "zero" || s == "nil" && typ != nil && g.p.boxedSet(typ) {
		// not one term for all types
		return g.mk(&Term{op: "const", s: s, typ: typ, i: g.typeID(typ)})
	}
	return g.mk(&Term{op: "const", s: s, typ: typ, cv: c})
}

func (g *Graph) typeID(t types.Type) int {
	for i, o := range g.typeIDs {
		if types.Identical(o, t) {
			return i + 1
		}
	}
	g.typeIDs = append(g.typeIDs, t)
	return len(g.typeIDs)
}

func (g *Graph) intConst(n int64) *Term { return g.konst(constant.MakeInt64(n), types.Typ[types.Int]) }

// zero is the zero value of a type.
func (g *Graph) zero(t types.Type) *Term {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return g.konst(constant.MakeBool(false), t)
		case b.Info()&types.IsNumeric != 0:
			return g.konst(constant.MakeInt64(0), t)
		case b.Info()&types.IsString != 0:
			return g.konst(constant.MakeString(""), t)
		}
	}
	return g.konst(nil, t)
}

func (g *Graph) term(fr *Frame, v ssa.Value) *Term {
	id := termID{fr, v}
	if t, ok := g.terms[id]; ok {
		return t
	}
	t := g.term1(fr, v)
	g.terms[id] = t
	return t
}

func (g *Graph) argTerm(a argVal) *Term { return g.term(a.fr, a.v) }

func (fr *Frame) node(v ssa.Value) *Node {
	if in, ok := v.(ssa.Instruction); ok {
		return fr.nodes[in]
	}
	return nil
}

func (g *Graph) term1(fr *Frame, v ssa.Value) *Term {
	n := fr.node(v)
	at := func(op string, args ...*Term) *Term {
		return g.mk(&Term{op: op, node: n, args: args, typ: v.Type(), fr: fr, v: v})
	}
	pure := func(op, s string, args ...*Term) *Term {
		return g.mk(&Term{op: op, s: s, args: args, typ: v.Type()})
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return g.zero(v.Type())
		}
		return g.konst(v.Value, v.Type())
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				if fr.args != nil && i < len(fr.args) {
					return g.argTerm(fr.args[i])
				}
				if fr.parent == nil {
					return g.mk(&Term{op: "param", s: fmt.Sprint(i), typ: v.Type(), i: i})
				}
				return g.mk(&Term{op: "cbparam", s: fmt.Sprintf("%d.%d", fr.entry.id, i), typ: v.Type(), i: i, fr: fr})
			}
		}
		return g.mk(&Term{op: "unknown", s: v.Name(), typ: v.Type()})
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == v && i < len(fr.binds) {
				return g.argTerm(fr.binds[i])
			}
		}
		return g.mk(&Term{op: "freevar", s: v.Name(), typ: v.Type()})
	case *ssa.Global:
		return g.mk(&Term{op: "global", s: v.Pkg.Pkg.Path() + "." + v.Name(), typ: v.Type()})
	case *ssa.Function:
		return g.mk(&Term{op: "func", s: fmt.Sprintf("%s|%p", v.String(), v), typ: v.Type(), fn: v})
	case *ssa.Builtin:
		return g.mk(&Term{op: "builtin", s: v.Name()})
	case *ssa.MakeClosure:
		t := at("closure")
		t.fn, t.mc = v.Fn.(*ssa.Function), v
		return t
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		return at("fresh")
	case *ssa.FieldAddr:
		return pure("fieldaddr", fieldName(v.X.Type(), v.Field), g.term(fr, v.X))
	case *ssa.Field:
		return g.fieldOf(g.term(fr, v.X), fieldName(v.X.Type(), v.Field), v.Field, v.Type())
	case *ssa.IndexAddr:
		return pure("indexaddr", "", g.term(fr, v.X), g.term(fr, v.Index))
	case *ssa.Index:
		if al := snapshotOf(v.X); al != nil {
			return at("load", pure("indexaddr", "", g.term(fr, al), g.term(fr, v.Index)))
		}
		return pure("index", "", g.term(fr, v.X), g.term(fr, v.Index))
	case *ssa.Lookup:
		t := at("lookup", g.term(fr, v.X), g.term(fr, v.Index))
		if tup, ok := t.typ.(*types.Tuple); ok {
			t.typ = tup.At(0).Type()
		}
		return t
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			return at("load", g.term(fr, v.X))
		case token.ARROW:
			return at("recv", g.term(fr, v.X))
		}
		return pure("un", v.Op.String(), g.term(fr, v.X))
	case *ssa.BinOp:
		return pure("bin", v.Op.String(), g.term(fr, v.X), g.term(fr, v.Y))
	case *ssa.Phi:
		return at("phi")
	case *ssa.Call:
		if n != nil && n.callee != nil {
			return g.mk(&Term{op: "ret", node: n, typ: v.Type(), fr: fr})
		}
		return g.callTerm(fr, n, v.Common(), v.Type())
	case *ssa.Extract:
		return g.extract(fr, v)
	case *ssa.Next:
		return at("next")
	case *ssa.Range:
		return at("range", g.term(fr, v.X))
	case *ssa.Select:
		return at("select")
	case *ssa.ChangeType:
		return g.term(fr, v.X)
	case *ssa.ChangeInterface:
		return g.term(fr, v.X)
	case *ssa.MakeInterface:
		x := g.term(fr, v.X)
		if x.op == "const" || x.typ == nil || !types.Identical(x.typ, v.X.Type()) {
			// keep the concrete type
			if x.op == "const" {
				return x
			}
		}
		return x
	case *ssa.Convert:
		x := g.term(fr, v.X)
		if isNumeric(v.Type()) && isNumeric(v.X.Type()) {
			if lossy(v.X.Type(), v.Type()) {
				return pure("trunc", v.Type().Underlying().String(), x)
			}
			return pure("conv", v.Type().Underlying().String(), x)
		}
		return x
	case *ssa.MultiConvert:
		return g.term(fr, v.X)
	case *ssa.SliceToArrayPointer:
		return g.term(fr, v.X)
	case *ssa.Slice:
		args := []*Term{g.term(fr, v.X)}
		for _, b := range []ssa.Value{v.Low, v.High, v.Max} {
			if b == nil {
				args = append(args, g.mk(&Term{op: "none"}))
			} else {
				args = append(args, g.term(fr, b))
			}
		}
		if args[1].op == "none" && args[2].op == "none" && args[3].op == "none" {
			return args[0]
		}
		return pure("slice", "", args...)
	case *ssa.TypeAssert:
		if v.CommaOk {
			return at("assert", g.term(fr, v.X))
		}
		return g.term(fr, v.X)
	}
	return g.mk(&Term{op: "unknown", node: n, s: fmt.Sprintf("%T", v), typ: v.Type()})
}

// lossy tells whether a conversion changes values that counts, lengths and scores really take. The 32-bit integers
// of the file format are not among them (C32).
func lossy(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || f.Kind() == t.Kind() {
		return false
	}
	if f.Info()&types.IsFloat != 0 && t.Info()&types.IsInteger != 0 {
		return true
	}
	size := map[types.BasicKind]int{types.Int8: 1, types.Uint8: 1, types.Int16: 2, types.Uint16: 2, types.Float32: 4}
	ts, small := size[t.Kind()]
	if !small {
		return false
	}
	fs, ok := size[f.Kind()]
	return !ok || fs > ts || fs == ts
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	// type parameter core types do not occur here
	return fmt.Sprintf("#%d", i)
}

func (g *Graph) callTerm(fr *Frame, n *Node, c *ssa.CallCommon, typ types.Type) *Term {
	name := calleeName(c)
	var args []*Term
	if c.IsInvoke() {
		args = append(args, g.term(fr, c.Value))
	} else if name == "" {
		args = append(args, g.term(fr, c.Value))
		name = "dynamic"
	}
	for _, a := range c.Args {
		args = append(args, g.term(fr, a))
	}
	t := &Term{op: "call", s: name, args: args, typ: typ, fr: fr}
	switch name {
	case "builtin.len":
		t.op, t.s = "len", ""
		t.node = nil
		return g.mk(t)
	case "builtin.cap":
		t.op, t.s = "cap", ""
		return g.mk(t)
	case "builtin.append":
		t.op, t.s, t.node = "append", "", n
		return g.mk(t)
	}
	if !pureCalls[name] {
		t.node = n
	}
	return g.mk(t)
}

// pureCalls are functions whose result depends on their arguments only.
var pureCalls = map[string]bool{
	"path/filepath.Join": true, "path.Join": true, "strings.ToLower": true, "math.Log": true, "fmt.Sprintf": true, "fmt.Sprint": true,
	"math.Log1p": true, "hash/crc32.ChecksumIEEE": true, "strings.Split": true, "unicode.IsLetter": true, "unicode.IsNumber": true,
	"unicode.IsDigit": true, "os.IsNotExist": true, "errors.Is": true, "unicode.ToLower": true, "(*strings.Replacer).Replace": true,
	"strings.TrimSpace": true, "strings.ReplaceAll": true, "strings.HasSuffix": true, "strings.HasPrefix": true, "strings.Contains": true,
	"path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Clean": true, "net/url.PathEscape": true, "net/url.QueryEscape": true,
	"math.Max": true, "math.Min": true, "builtin.min": true, "builtin.max": true, "strings.Compare": true, "strconv.Itoa": true,
}

func (g *Graph) extract(fr *Frame, v *ssa.Extract) *Term {
	tup := v.Tuple
	n := fr.node(tup)
	mk := func(op string, args ...*Term) *Term {
		return g.mk(&Term{op: op, node: n, args: args, typ: v.Type(), fr: fr})
	}
	switch x := tup.(type) {
	case *ssa.Call:
		if n != nil && n.callee != nil {
			return g.mk(&Term{op: "ret", node: n, i: v.Index, typ: v.Type(), fr: fr})
		}
		return g.mk(&Term{op: "res", i: v.Index, args: []*Term{g.callTerm(fr, n, x.Common(), x.Type())}, typ: v.Type()})
	case *ssa.Lookup:
		l := g.term(fr, x)
		if v.Index == 0 {
			return g.mk(&Term{op: "lookup", node: n, args: l.args, typ: v.Type(), fr: fr, v: x})
		}
		return mk("lookupok", l.args...)
	case *ssa.Next:
		it := g.term(fr, x.Iter)
		var src *Term
		if it.op == "range" {
			src = it.args[0]
		} else {
			src = it
		}
		switch v.Index {
		case 0:
			return mk("rangeok", src)
		case 1:
			return mk("rangekey", src)
		default:
			return mk("rangeval", src)
		}
	case *ssa.UnOp: // receive with ok
		ch := g.term(fr, x.X)
		if v.Index == 0 {
			return mk("recv", ch)
		}
		return mk("recvok", ch)
	case *ssa.Select:
		if v.Index == 0 {
			return mk("selidx")
		}
		if v.Index == 1 {
			return mk("selok")
		}
		k := 0
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				if k == v.Index-2 {
					return mk("recv", g.term(fr, s.Chan))
				}
				k++
			}
		}
	case *ssa.TypeAssert:
		if v.Index == 0 {
			return g.term(fr, x.X)
		}
		return g.mk(&Term{op: "typeok", s: x.AssertedType.String(), args: []*Term{g.term(fr, x.X)}, typ: v.Type()})
	}
	return mk("unknown")
}

func (g *Graph) fieldOf(x *Term, name string, idx int, typ types.Type) *Term {
	return g.mk(&Term{op: "field", s: name, args: []*Term{x}, typ: typ})
}

// ---- alternatives -------------------------------------------------------------------------------------------

// alts are the direct alternatives of a merged value: phi operands, returned values, stored values. nil when the
// term is not a merge.
func (g *Graph) alts(t *Term) []*Term {
	switch t.op {
	case "phi":
		p := t.v.(*ssa.Phi)
		var out []*Term
		for i, e := range p.Edges {
			if t.fr.first[p.Block().Preds[i]] == nil { // unreachable
				continue
			}
			out = append(out, g.term(t.fr, e))
		}
		return out
	case "ret":
		cf := t.node.callee
		var out []*Term
		for _, r := range cf.rets {
			res := r.in.(*ssa.Return).Results
			if t.i < len(res) {
				out = append(out, g.retVal(cf, r, t.i))
			}
		}
		return out
	case "load":
		var out []*Term
		for _, m := range g.memVals(t.node, t.args[0], t.typ) {
			out = append(out, m.val)
		}
		return out
	case "field":
		var out []*Term
		x := t.args[0]
		if x.op == "snapshot" {
			for _, m := range g.memVals(x.node, g.mk(&Term{op: "fieldaddr", s: t.s, args: []*Term{x.args[0]}, typ: types.NewPointer(t.typ)}), t.typ) {
				out = append(out, m.val)
			}
			return out
		}
		if x.op == "const" {
			return []*Term{g.zero(t.typ)}
		}
		if as := g.alts(x); as != nil {
			for _, a := range as {
				out = append(out, g.fieldOf(a, t.s, 0, t.typ))
			}
			return out
		}
		return nil
	}
	return nil
}

// retVal is result i of a return, which for named results is the value the cell holds when the function returns.
func (g *Graph) retVal(cf *Frame, r *Node, i int) *Term {
	return g.term(cf, r.in.(*ssa.Return).Results[i])
}

// vals expands a term into the values it can stand for.
func (g *Graph) vals(t *Term) []*Term {
	if v, ok := g.valsMem[t]; ok {
		return v
	}
	seen := map[*Term]bool{}
	var out []*Term
	hits := g.hits
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		as := g.alts(t)
		if as == nil {
			out = append(out, t)
			return
		}
		for _, a := range as {
			rec(a)
		}
	}
	rec(t)
	if hits == g.hits || len(g.memBusy)+len(g.addrBusy) == 0 {
		g.valsMem[t] = out
	}
	return out
}

// single is the only value t can stand for, or nil.
func (g *Graph) single(t *Term) *Term {
	v := g.vals(t)
	if len(v) == 1 {
		return v[0]
	}
	return nil
}

// ---- memory -------------------------------------------------------------------------------------------------

type memVal struct {
	val  *Term
	node *Node
}

func addrBase(a *Term) *Term {
	for a.op == "fieldaddr" || a.op == "indexaddr" {
		a = a.args[0]
	}
	return a
}

// canonAddr resolves loads inside an address that have one value, so that the same location has one name.
func (g *Graph) canonAddr(a *Term) *Term {
	switch a.op {
	case "fieldaddr":
		b := g.canonAddr(a.args[0])
		if b == a.args[0] {
			return a
		}
		return g.mk(&Term{op: "fieldaddr", s: a.s, args: []*Term{b}, typ: a.typ})
	case "indexaddr":
		b := g.canonAddr(a.args[0])
		i := g.canonAddr(a.args[1])
		if b == a.args[0] && i == a.args[1] {
			return a
		}
		return g.mk(&Term{op: "indexaddr", args: []*Term{b, i}, typ: a.typ})
	case "load", "ret", "phi", "field":
		if g.addrBusy[a] {
			g.hits++
			return a
		}
		if g.addrBusy == nil {
			g.addrBusy = map[*Term]bool{}
		}
		g.addrBusy[a] = true
		s := g.single(a)
		delete(g.addrBusy, a)
		if s != nil && s != a {
			return g.canonAddr(s)
		}
	case "init":
		return a
	}
	return a
}

// memVals finds the values that a location can hold when node n runs.
func (g *Graph) memVals(n *Node, addr *Term, typ types.Type) []memVal {
	type mkey struct {
		n *Node
		a *Term
	}
	addr = g.canonAddr(addr)
	if g.memBusy == nil {
		g.memBusy = map[[2]int]bool{}
		g.memMemo = map[[2]int][]memVal{}
	}
	k := [2]int{n.id, addr.id}
	if r, ok := g.memMemo[k]; ok {
		return r
	}
	if g.memBusy[k] {
		g.hits++
		return []memVal{{g.mk(&Term{op: "init", args: []*Term{addr}, typ: typ, node: n}), nil}}
	}
	g.memBusy[k] = true
	defer delete(g.memBusy, k)
	hits := g.hits
	memo := func(out []memVal) {
		if hits == g.hits || len(g.memBusy) == 1 {
			g.memMemo[k] = out
		}
	}

	var out []memVal
	add := func(v *Term, n *Node) {
		for _, o := range out {
			if o.val == v && o.node == n {
				return
			}
		}
		out = append(out, memVal{v, n})
	}
	base := addrBase(addr)
	// contents of fresh slices and arrays with a variable index are collected flow-insensitively
	if ia := innerIndex(addr); ia != nil {
		if vs, ok := g.elemVals(ia, addr, typ, n); ok {
			for _, v := range vs {
				add(v, nil)
			}
			memo(out)
			return out
		}
	}
	_, isStruct := typ.Underlying().(*types.Struct)
	seen := map[*Node]bool{}
	var stack []*Node
	push := func(m *Node) {
		for _, p := range m.pred {
			stack = append(stack, p)
		}
		if len(m.pred) == 0 && m.kind == NEntry {
			if th := m.fr.thread; th != nil && th.fr == m.fr && th.spawn != nil {
				stack = append(stack, th.spawn)
			} else if m.fr == g.root || m.fr.parent == nil {
				// initial memory
				if base.op == "fresh" && addr == base {
					add(g.zero(typ), nil)
				} else {
					add(g.initVal(addr, typ), nil)
				}
			}
		}
	}
	partial := false
	push(n)
	for len(stack) > 0 {
		m := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[m] {
			continue
		}
		seen[m] = true
		if m.kind == NInstr {
			switch in := m.in.(type) {
			case *ssa.Store:
				a := g.canonAddr(g.term(m.fr, in.Addr))
				if v := g.storeTo(a, addr, g.term(m.fr, in.Val), typ); v != nil {
					add(v, m)
					continue
				}
				if isStruct && isPrefix(addr, a) && a != addr {
					partial = true
				}
			case *ssa.Alloc:
				if base.op == "fresh" && base.node == m {
					// the location is created here
					add(g.zero(typ), m)
					continue
				}
			case *ssa.MakeSlice:
				if base.op == "fresh" && base.node == m {
					add(g.zero(typ), m)
					continue
				}
			}
		}
		if c := m.common(); c != nil && m.kind != NBranch {
			if v := g.outParam(m, c, addr, base, typ); v != nil {
				add(v, m)
				continue
			}
		}
		push(m)
	}
	// stores in other threads to a captured local variable
	if base.op == "fresh" && len(g.threads) > 1 {
		for _, s := range g.storesTo(base) {
			if s.fr.thread == n.fr.thread || seen[s] {
				continue
			}
			if s.fr.thread.spawn != nil {
				a := g.canonAddr(g.term(s.fr, s.in.(*ssa.Store).Addr))
				if v := g.storeTo(a, addr, g.term(s.fr, s.in.(*ssa.Store).Val), typ); v != nil {
					add(v, s)
				}
			} else if s.fr.thread.spawn == nil {
				// a store of the parent: relevant when it can run after the spawn
				if sp := n.fr.thread.spawn; sp != nil && g.reaches(sp, s) {
					a := g.canonAddr(g.term(s.fr, s.in.(*ssa.Store).Addr))
					if v := g.storeTo(a, addr, g.term(s.fr, s.in.(*ssa.Store).Val), typ); v != nil {
						add(v, s)
					}
				}
			}
		}
	}
	if partial {
		out = []memVal{{g.mk(&Term{op: "snapshot", node: n, args: []*Term{addr}, typ: typ}), nil}}
	}
	if len(out) == 0 {
		out = []memVal{{g.initVal(addr, typ), nil}}
	}
	memo(out)
	return out
}

func (g *Graph) initVal(addr *Term, typ types.Type) *Term {
	return g.mk(&Term{op: "init", args: []*Term{addr}, typ: typ})
}

// isPrefix tells whether location a lies inside location p.
func isPrefix(p, a *Term) bool {
	for {
		if a == p {
			return true
		}
		if a.op != "fieldaddr" && a.op != "indexaddr" {
			return false
		}
		a = a.args[0]
	}
}

// storeTo is the value location addr has after a store of val to location a, nil when the store does not cover it.
func (g *Graph) storeTo(a, addr, val *Term, typ types.Type) *Term {
	if a == addr {
		return val
	}
	if addr.op == "fieldaddr" {
		if v := g.storeTo(a, addr.args[0], val, nil); v != nil {
			t := typ
			if t == nil {
				t = derefType(addr.typ)
			}
			return g.fieldOf(v, addr.s, 0, t)
		}
	}
	return nil
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// outParam is the value a location has after an external call that was given its address.
func (g *Graph) outParam(m *Node, c *ssa.CallCommon, addr, base *Term, typ types.Type) *Term {
	if base.op != "fresh" && base.op != "param" {
		return nil
	}
	name := calleeName(c)
	if strings.HasPrefix(name, "builtin.") || strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "fmt.Print") {
		return nil
	}
	var args []ssa.Value
	args = append(args, c.Args...)
	for i, a := range args {
		if _, ok := a.Type().Underlying().(*types.Pointer); !ok {
			if _, ok := a.Type().Underlying().(*types.Interface); !ok {
				continue
			}
		}
		at := g.term(m.fr, a)
		if at.op != "fresh" && at.op != "fieldaddr" {
			continue
		}
		if isPrefix(g.canonAddr(at), addr) {
			if base.op == "param" {
				continue
			}
			if noWrite[name] {
				return nil
			}
			return g.mk(&Term{op: "out", node: m, i: i, args: []*Term{addr}, typ: typ, s: name})
		}
	}
	return nil
}

// noWrite are external functions that do not store through the pointers they are given.
var noWrite = map[string]bool{
	"(*container/list.List).PushFront": true, "(*container/list.List).MoveToFront": true,
}

func innerIndex(a *Term) *Term {
	for a.op == "fieldaddr" || a.op == "indexaddr" {
		if a.op == "indexaddr" {
			return a
		}
		a = a.args[0]
	}
	return nil
}

// storesTo lists the stores whose address is based on a location.
func (g *Graph) storesTo(base *Term) []*Node {
	if g.storeIdx == nil || !g.built {
		idx := map[*Term][]*Node{}
		for _, n := range g.nodes {
			if n.kind != NInstr {
				continue
			}
			if s, ok := n.in.(*ssa.Store); ok {
				a := g.term(n.fr, s.Addr)
				b := addrBase(a)
				if b.op != "fresh" {
					b = addrBase(g.canonAddr(a))
				}
				idx[b] = append(idx[b], n)
			}
		}
		if !g.built {
			return idx[base]
		}
		g.storeIdx = idx
	}
	return g.storeIdx[base]
}

// elemVals collects what the elements of a fresh slice or array can hold.
func (g *Graph) elemVals(ia, addr *Term, typ types.Type, n *Node) ([]*Term, bool) {
	if !g.built {
		return nil, false
	}
	ct, ok := g.contents(ia.args[0])
	if !ok {
		return nil, false
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, e := range ct {
		// a constant index only sees the stores to it
		if ia.args[1].op == "const" && e.idx != nil && e.idx.op == "const" && e.idx != ia.args[1] {
			continue
		}
		v := e.val
		if v == nil && e.rest != nil {
			v = g.initVal(g.mk(&Term{op: "indexaddr", args: []*Term{e.rest, ia.args[1]}, typ: ia.typ}), derefType(ia.typ))
		}
		// fields below the element
		path := []*Term{}
		for a := addr; a != ia; a = a.args[0] {
			path = append(path, a)
		}
		if e.sub != nil {
			// a store to a field of the element
			if len(path) == 1 && path[0].op == "fieldaddr" && path[0].s == e.sub.s {
				path = nil
			} else if len(path) == 0 {
				v = g.mk(&Term{op: "init", args: []*Term{addr}, typ: typ, node: n})
			} else {
				continue
			}
		}
		for i := len(path) - 1; i >= 0; i-- {
			if path[i].op == "fieldaddr" {
				v = g.fieldOf(v, path[i].s, 0, derefType(path[i].typ))
			} else {
				return nil, false
			}
		}
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		return nil, false
	}
	return out, true
}

// Elem is one way an element gets into a slice: a store to an index or an append.
type Elem struct {
	idx  *Term // index of a store, nil for an append
	val  *Term // the element
	rest *Term // appended slice (append(s, rest...)), instead of val
	sub  *Term // the stored location is a field of the element
	node *Node
}

// contents lists everything that is put into the slice a term stands for. ok is false when the slice can come from
// outside (a parameter, a call).
func (g *Graph) contents(s *Term) ([]Elem, bool) {
	if g.contMemo == nil {
		g.contMemo = map[*Term]contRes{}
	}
	if r, ok := g.contMemo[s]; ok {
		return r.e, r.ok
	}
	g.contMemo[s] = contRes{nil, false}
	var out []Elem
	seen := map[*Term]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "const":
			return
		case "fresh":
			for _, sn := range g.storesToSlice(t) {
				st := sn.in.(*ssa.Store)
				a := g.term(sn.fr, st.Addr)
				if a.op == "indexaddr" {
					out = append(out, Elem{idx: a.args[1], val: g.term(sn.fr, st.Val), node: sn})
				} else if a.op == "fieldaddr" && a.args[0].op == "indexaddr" {
					out = append(out, Elem{idx: a.args[0].args[1], val: g.term(sn.fr, st.Val), sub: a, node: sn})
				}
			}
			return
		case "append":
			rec(t.args[0])
			if len(t.args) > 1 {
				// the appended elements
				if va, ok2 := g.varargs(t.args[1]); ok2 {
					for _, v := range va {
						out = append(out, Elem{val: v, node: t.node})
					}
				} else {
					out = append(out, Elem{rest: t.args[1], node: t.node})
				}
			}
			return
		case "slice":
			rec(t.args[0])
			return
		}
		as := g.alts(t)
		if as == nil {
			ok = false
			return
		}
		for _, a := range as {
			rec(a)
		}
	}
	rec(s)
	g.contMemo[s] = contRes{out, ok}
	return out, ok
}

type contRes struct {
	e  []Elem
	ok bool
}

// storesToSlice lists the stores to elements of the slice or array created by a fresh term, through any alias.
func (g *Graph) storesToSlice(fresh *Term) []*Node {
	var out []*Node
	for _, n := range g.elemStores() {
		a := g.term(n.fr, n.in.(*ssa.Store).Addr)
		ia := innerIndex(a)
		for _, v := range g.sliceRoots(ia.args[0]) {
			if v == fresh {
				out = append(out, n)
				break
			}
		}
	}
	return out
}

func (g *Graph) elemStores() []*Node {
	if g.elemSt == nil {
		g.elemSt = []*Node{}
		for _, n := range g.nodes {
			if n.kind == NInstr {
				if s, ok := n.in.(*ssa.Store); ok {
					if innerIndex(g.term(n.fr, s.Addr)) != nil {
						g.elemSt = append(g.elemSt, n)
					}
				}
			}
		}
	}
	return g.elemSt
}

// sliceRoots are the arrays a slice value can be a view of.
func (g *Graph) sliceRoots(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "slice":
			rec(t.args[0])
			return
		case "append":
			rec(t.args[0])
			out = append(out, t)
			return
		}
		as := g.alts(t)
		if as == nil {
			out = append(out, t)
			return
		}
		for _, a := range as {
			rec(a)
		}
	}
	rec(t)
	return out
}

// snapshotOf finds the array a value was copied from, when the array is not changed after that.
func snapshotOf(x ssa.Value) *ssa.Alloc {
	ld, ok := x.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == al {
				return nil
			}
		case *ssa.IndexAddr:
			for _, r2 := range *r.Referrers() {
				if st, ok := r2.(*ssa.Store); !ok || st.Addr != r {
					if _, ok := r2.(*ssa.UnOp); !ok {
						return nil
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	at := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	for _, st := range storesOf(al) {
		if st.Block() != ld.Block() || at(st) > at(ld) {
			return nil
		}
	}
	return al
}

// storesOf lists the stores to an array and its elements.
func storesOf(al *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			out = append(out, r)
		case *ssa.IndexAddr:
			for _, r2 := range *r.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					out = append(out, st)
				}
			}
		}
	}
	return out
}

// varargs lists the elements of a slice built from an array literal (the ... arguments of a call).
func (g *Graph) varargs(t *Term) ([]*Term, bool) {
	if t.op == "const" {
		return nil, true
	}
	if t.op == "phi" || t.op == "ret" || t.op == "load" {
		if x := g.single(t); x != nil && x != t {
			t = x
		}
	}
	if t.op == "append" && len(t.args) == 2 {
		// one list after another
		a, ok := g.varargs(t.args[0])
		b, ok2 := g.varargs(t.args[1])
		return append(append([]*Term{}, a...), b...), ok && ok2
	}
	for t.op == "slice" {
		t = t.args[0]
	}
	if t.op != "fresh" {
		return nil, false
	}
	al, ok := t.v.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]*Term, arr.Len())
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			// a copy of another array
			if ld, ok := st.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if from, ok := ld.X.(*ssa.Alloc); ok && from != al && len(storesOf(al)) == 1 {
					return g.varargs(g.term(t.fr, from))
				}
			}
			return nil, false
		}
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				i := c.Int64()
				if i >= 0 && i < int64(len(out)) {
					out[i] = g.term(t.fr, st.Val)
				}
			}
		}
	}
	for i := range out {
		if out[i] == nil {
			return nil, false
		}
	}
	return out, true
}

// reaches tells whether control can go from a to b (a itself excluded unless on a cycle).
func (g *Graph) reaches(a, b *Node) bool {
	if g.reachMemo == nil {
		g.reachMemo = map[*Node]map[*Node]bool{}
	}
	r := g.reachMemo[a]
	if r == nil {
		r = map[*Node]bool{}
		st := append([]*Node{}, a.succ...)
		for len(st) > 0 {
			n := st[len(st)-1]
			st = st[:len(st)-1]
			if r[n] {
				continue
			}
			r[n] = true
			st = append(st, n.succ...)
		}
		g.reachMemo[a] = r
	}
	return r[b]
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
