package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C29: the loader and the download of the test collection -------------------------------------------------

type loader struct {
	c   *Ctx
	g   *Graph
	lab string
}

// lineReads are the calls that read the next line (or value) of a stream.
func lineRead(n *Node) string {
	if n.kind != NInstr || n.common() == nil || isDeferOrGo(n) {
		return ""
	}
	switch n.callName() {
	case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes":
		return "line"
	case "(*encoding/json.Decoder).Decode":
		return "value"
	case "(*bufio.Scanner).Scan":
		return "scan"
	}
	return ""
}

func isGlobal(g *Graph, t *Term, names ...string) bool {
	k := strings.TrimPrefix(g.K(g.single0(t)), "glob:")
	for _, n := range names {
		if k == n {
			return true
		}
	}
	return false
}

// saysEOF reads a condition as "the error e is io.EOF".
func (g *Graph) saysEOF(e func(*Term) bool, t *Term, pol bool) bool {
	switch {
	case t.op == "bin" && (t.s == "==" || t.s == "!="):
		for k := 0; k < 2; k++ {
			if e(t.args[k]) && isGlobal(g, t.args[1-k], "io.EOF") {
				return pol == (t.s == "==")
			}
		}
	case t.op == "call" && t.s == "errors.Is" && len(t.args) == 2:
		return pol && e(t.args[0]) && isGlobal(g, t.args[1], "io.EOF")
	}
	return false
}

// condOf is the condition of a branch with what is known on the path.
func (g *Graph) condOf(b *Node, en *env) (*Term, bool) {
	t, pol := g.subst(g.cond(b), en, 0), b.pol
	for t.op == "un" && t.s == "!" {
		t, pol = g.subst(t.args[0], en, 0), !pol
	}
	return t, pol
}

// isLine tells whether a value is the line that was read.
type lineSource struct {
	l     *loader
	reads []*Node
	over  *Loop // or a loop over lines
}

// unwrapText drops what does not change the content of a line: conversions, and cutting off its line end.
func (l *loader) unwrapText(t *Term) *Term {
	g := l.g
	for i := 0; i < 16; i++ {
		t = g.single0(t)
		switch t.op {
		case "conv", "iface":
			t = t.args[0]
			continue
		case "call":
			f := t.s[strings.LastIndex(t.s, ".")+1:]
			if strings.HasPrefix(t.s, "strings.") || strings.HasPrefix(t.s, "bytes.") {
				switch f {
				case "TrimSpace", "Clone":
					t = t.args[0]
					continue
				case "TrimRight", "TrimSuffix", "Trim":
					if k := l.g.single0(t.args[1]); strings.Trim(textOf(k), "\r\n\t ") == "" && textOf(k) != "" {
						t = t.args[0]
						continue
					}
				}
			}
		}
		return t
	}
	return t
}

func textOf(t *Term) string {
	for t.op == "conv" {
		t = t.args[0]
	}
	if t.op == "const" && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv)
	}
	return ""
}

func (s *lineSource) is(t *Term) bool {
	g := s.l.g
	t = s.l.unwrapText(t)
	if s.over != nil {
		ia, f := g.elemSource(t)
		return ia != nil && f == "" && g.sameCont(ia.args[0], s.over.dom) && g.K(ia.args[1]) == g.K(s.over.key)
	}
	vs := g.vals(t)
	if len(vs) == 0 {
		return false
	}
	for _, v := range vs {
		v = s.l.unwrapText(v)
		ok := false
		for _, r := range s.reads {
			switch lineRead(r) {
			case "line":
				ok = ok || v == g.result(r, 0)
			case "scan":
				if v.op == "call" && (v.s == "(*bufio.Scanner).Text" || v.s == "(*bufio.Scanner).Bytes") && v.node != nil {
					ok = ok || g.K(v.args[0]) == g.K(g.callArgs(r)[0]) && g.dominates(r, v.node)
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// none tells whether a branch says that nothing was read (the line is empty, the scanner is at its end).
func (s *lineSource) none(n *Node, en *env) bool {
	g := s.l.g
	if n.kind != NBranch || n.maybe || n.cond == nil {
		return false
	}
	t, pol := g.condOf(n, en)
	exact := func(x *Term) bool {
		for x.op == "conv" {
			x = x.args[0]
		}
		if s.over == nil {
			if x.op == "call" && strings.HasPrefix(x.s, "str") || x.op == "call" && strings.HasPrefix(x.s, "bytes.") {
				return false // a line of blanks is a line
			}
		}
		return s.is(x)
	}
	for _, r := range s.reads {
		switch lineRead(r) {
		case "scan":
			if t == g.result(r, -1+1) && !pol {
				return true
			}
		case "value":
			e := g.result(r, 0)
			if g.saysEOF(func(x *Term) bool { return x == e }, t, pol) {
				return true
			}
		}
	}
	if t.op != "bin" {
		return false
	}
	x, y, op := g.subst(t.args[0], en, 0), g.subst(t.args[1], en, 0), t.s
	if x.op == "const" {
		x, y = y, x
		op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
	}
	if !pol {
		op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	if x.op == "len" {
		k, ok := constInt(y)
		return ok && (op == "==" && k == 0 || op == "<" && k == 1 || op == "<=" && k == 0) && exact(g.subst(x.args[0], en, 0))
	}
	return op == "==" && isEmptyStr(y) && exact(x)
}

// ended tells whether a branch says that the file has no more lines.
func (s *lineSource) ended(n *Node, en *env) bool {
	g := s.l.g
	if n.kind != NBranch || n.maybe || n.cond == nil {
		return false
	}
	if s.none(n, en) {
		return true
	}
	t, pol := g.condOf(n, en)
	return g.saysEOF(func(x *Term) bool {
		for _, r := range s.reads {
			if lineRead(r) == "line" && x == g.result(r, 1) {
				return true
			}
		}
		return false
	}, t, pol)
}

// normalReturn: the function ends without reporting a failure.
func (g *Graph) normalReturn(m *Node, en *env) bool {
	if m.kind != NInstr || m.fr != g.root {
		return false
	}
	r, ok := m.in.(*ssa.Return)
	if !ok {
		return false
	}
	k := errResult(g.root.fn.Signature)
	if k < 0 || k >= len(r.Results) {
		return true
	}
	t := g.subst(g.term(m.fr, r.Results[k]), en, 0)
	if isNilConst(t) {
		return true
	}
	for i := 0; i < 3 && (t.op == "iface" || t.op == "conv"); i++ {
		t = t.args[0]
	}
	if t.op == "call" && (t.s == "fmt.Errorf" || t.s == "errors.New") {
		return false
	}
	nil_ := g.mk(&Term{op: "const", s: "nil", typ: types.Universe.Lookup("error").Type()})
	return g.eval(g.mk(&Term{op: "bin", s: "==", args: []*Term{t, nil_}, typ: types.Typ[types.Bool]}), en) != no
}

func errCond(t *Term) bool {
	return t.op == "call" || t.op == "bin" && (isNilConst(t.args[0]) || isNilConst(t.args[1]) || isErrorType(t.args[0].typ))
}

// list decides that a slice holds one element for every line of the file, in order.
func (l *loader) list(t *Term, at *Node, what string, seen int) {
	g, c := l.g, l.c
	if g.cutSlice(t) {
		c.bad("all", l.lab+": "+what, g.where(at), "only a part of the list is used: "+g.P(t))
		return
	}
	L, why := g.listOf(t, at)
	if L == nil {
		c.bad("all", l.lab+": "+what, g.where(at), "it is not a list with an element for each line: "+why)
		return
	}
	lab := l.lab + ": " + what
	src := &lineSource{l: l}
	for _, n := range g.liveNodes {
		if lineRead(n) != "" {
			in := g.inLoop(n, L.loop)
			for _, r := range src.reads {
				in = in || g.K(g.callArgs(r)[0]) == g.K(g.callArgs(n)[0])
			}
			if in || g.reaches(n, L.loop.header) && g.sharesReader(n, L.loop) {
				src.reads = append(src.reads, n)
			}
		}
	}
	if len(src.reads) == 0 {
		// a loop over lines
		if L.loop.kind != "slice" || L.loop.dom == nil || seen > 3 {
			c.bad("all", lab, g.where(L.loop.header), "it is not read line by line, nor made from a list of lines")
			return
		}
		src.over = L.loop
		early := false
		for _, x := range g.exits(L.loop) {
			early = early || !g.dying(x)
		}
		c.check(!early, "all", lab+" (no early end)", g.where(L.loop.header), "the loop over the lines can be left early")
		p := g.find([]*Node{L.loop.enter}, searchOpt{
			avoidE: func(n *Node, en *env) bool { return L.put(n) || src.none(n, en) },
			goal:   func(n *Node) bool { return n == L.loop.header || !L.loop.body[n] && !g.dying(n) },
		})
		c.check(p == nil, "each", lab, g.where(L.loop.header), "a line is left out: "+g.pathText(p))
		l.linesOf(L.loop.dom, L.loop.header, lab, src, L, seen)
	} else {
		p := g.find(src.reads, searchOpt{
			avoidE: func(n *Node, en *env) bool { return L.put(n) || src.none(n, en) },
			goalE: func(n *Node, en *env) bool {
				return contains(src.reads, n) || g.normalReturn(n, en)
			},
			keep: errCond,
		})
		c.check(p == nil, "each", lab, g.where(src.reads[0]), "a line that was read is left out: "+g.pathText(p))
		p = g.find(src.reads, searchOpt{
			avoidE: func(n *Node, en *env) bool { return contains(src.reads, n) || src.ended(n, en) },
			goalE:  g.normalReturn,
			keep:   errCond,
		})
		c.check(p == nil, "all", lab+" (no early end)", g.where(src.reads[0]), "it can end although there are more lines: "+g.pathText(p))
		p = g.find([]*Node{g.threads[0].entry}, searchOpt{
			avoid: func(n *Node) bool { return contains(src.reads, n) },
			goalE: g.normalReturn,
			keep:  errCond,
		})
		c.check(p == nil, "all", lab+" (is read)", g.where(src.reads[0]), "it can answer without reading the file: "+g.pathText(p))
		for _, r := range src.reads {
			if lineRead(r) != "line" {
				continue
			}
			k, ok := constInt(g.single0(g.callArgs(r)[1]))
			c.check(ok && k == '\n', "each", lab+" (line end)", g.where(r), "lines do not end at the line feed")
		}
	}
	p := g.twice(L)
	c.check(p == nil, "each", lab+" (once)", g.where(L.loop.header), "a line may give two elements: "+g.pathText(p))
	for _, e := range L.elems {
		if e.sub != nil {
			c.bad("value", lab, g.where(e.node), "only a part of the element is set")
			continue
		}
		if src.over == nil && lineRead(src.reads[0]) == "value" {
			why = l.decoded(e.val, e.node, L, src)
		} else if isStringType(e.val.typ) {
			why = ""
			if !src.is(e.val) {
				why = "it is not the line that was read: " + g.P(e.val)
			}
		} else {
			why = l.parsed(e.val, e.node, L, src)
		}
		c.check(why == "", "value", lab, g.where(e.node), why)
	}
	// nobody touches the list afterwards
	own := map[*Term]bool{}
	for _, e := range L.elems {
		for _, r := range g.sliceRoots(t) {
			own[r] = own[r] || r.node == e.node || r == L.fresh
		}
	}
	for _, n := range g.liveNodes {
		if n.common() == nil || n.callee != nil {
			continue
		}
		for _, a := range g.callArgs(n) {
			x := a
			if x.op == "iface" || x.op == "conv" {
				x = x.args[0]
			}
			if x.typ == nil {
				continue
			}
			if _, ok := x.typ.Underlying().(*types.Slice); !ok || readsSlice(n.callName()) {
				continue
			}
			for _, r := range g.sliceRoots(x) {
				if own[r] {
					c.bad("order", lab, g.where(n), n.callName()+" may change the list")
				}
			}
		}
	}
}

// cutSlice tells whether a slice value may be a part of another.
func (g *Graph) cutSlice(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch t.op {
		case "slice":
			if t.args[0].op == "fresh" {
				return false
			}
			lo := g.single0(t.args[1])
			if k, ok := constInt(lo); lo.op != "none" && (!ok || k != 0) || t.args[2].op != "none" {
				return true
			}
			return rec(t.args[0])
		case "append":
			return rec(t.args[0])
		}
		for _, a := range g.alts(t) {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// sharesReader tells whether a read uses the reader that a loop reads from.
func (g *Graph) sharesReader(n *Node, l *Loop) bool {
	k := g.K(g.callArgs(n)[0])
	for _, m := range g.liveNodes {
		if lineRead(m) != "" && g.inLoop(m, l) && g.K(g.callArgs(m)[0]) == k {
			return true
		}
	}
	return false
}

// linesOf decides that a list of lines is complete.
func (l *loader) linesOf(t *Term, at *Node, lab string, src *lineSource, L *List, seen int) {
	g, c := l.g, l.c
	d := g.single0(t)
	if d.op == "call" {
		switch d.s {
		case "strings.Split", "bytes.Split", "strings.SplitAfter", "bytes.SplitAfter":
			c.check(textOf(g.single0(d.args[1])) == "\n", "each", lab+" (line end)", g.where(at), "lines do not end at the line feed")
			text := l.unwrapText(d.args[0])
			ok := false
			if text.op == "res" && text.i == 0 && text.args[0].op == "call" {
				switch text.args[0].s {
				case "os.ReadFile", "io/ioutil.ReadFile", "io.ReadAll", "io/ioutil.ReadAll":
					ok = true
				}
			}
			c.check(ok, "all", lab+" (whole file)", g.where(at), "it is not the text of the whole file that is split: "+g.P(text))
			// the empty rest after the last line feed is no line
			p := g.find([]*Node{L.loop.enter}, searchOpt{
				avoidE: func(n *Node, en *env) bool {
					if n.kind != NBranch || n.maybe || n.cond == nil {
						return false
					}
					// the branch that says the line is not empty
					m := *n
					m.pol = !n.pol
					return src.none(&m, en)
				},
				goal: L.put,
			})
			c.check(p == nil, "each", lab+" (empty rest)", g.where(at), "the empty text after the last line end becomes an element: "+g.pathText(p))
			return
		}
	}
	l.list(t, at, "lines", seen+1)
}

// parsed decides that a value is the document parsed from the line.
func (l *loader) parsed(v *Term, at *Node, L *List, src *lineSource) string {
	g := l.g
	outs := 0
	for _, ch := range g.choices(v, at) {
		x := ch.v
		if isZeroConst(x) || x.op == "const" {
			if l.failedBefore(ch.at) {
				continue
			}
			return "it may be an empty document"
		}
		if x.op == "out" && x.node != nil && x.node.callName() == "encoding/json.Unmarshal" {
			if !src.is(g.callArgs(x.node)[0]) {
				return "it is not parsed from the line that was read: " + g.P(g.callArgs(x.node)[0])
			}
			if why := l.clean(x, L); why != "" {
				return why
			}
			outs++
			continue
		}
		return "it is not what was parsed from the line: " + g.P(x)
	}
	if outs == 0 {
		return "it is not parsed from the line"
	}
	return ""
}

func (l *loader) decoded(v *Term, at *Node, L *List, src *lineSource) string {
	g := l.g
	for _, ch := range g.choices(v, at) {
		x := ch.v
		if x.op != "out" || !contains(src.reads, x.node) {
			return "it is not what was read: " + g.P(x)
		}
		if why := l.clean(x, L); why != "" {
			return why
		}
	}
	return ""
}

// clean: the memory that is filled is empty before.
func (l *loader) clean(x *Term, L *List) string {
	g := l.g
	b := addrBase(x.args[0])
	if x.args[0] != b || b.op != "fresh" {
		return "only a part of it is read"
	}
	for _, m := range g.memVals(x.node, b, x.typ) {
		if !isZeroConst(m.val) && m.val.op != "zero" {
			return "it is read into a document that may still hold an earlier one: " + g.P(m.val)
		}
	}
	return ""
}

// failedBefore tells whether a node runs only after a failure.
func (l *loader) failedBefore(n *Node) bool {
	g := l.g
	if n == nil {
		return false
	}
	for _, b := range append(g.guards(n), n) {
		if b.kind != NBranch || b.cond == nil {
			continue
		}
		t, pol := g.single0(g.cond(b)), b.pol
		if t.op == "bin" && (t.s == "!=" || t.s == "==") && (isNilConst(t.args[0]) && isErrorType(t.args[1].typ) || isNilConst(t.args[1]) && isErrorType(t.args[0].typ)) {
			if pol == (t.s == "!=") {
				return true
			}
		}
	}
	return false
}

// isReport: a failure is told to somebody.
func isReport(n *Node) bool {
	if n.kind != NInstr && n.kind != NDeferred || n.common() == nil {
		_, p := n.in.(*ssa.Panic)
		return p
	}
	cn := n.callName()
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "log.", "(*log.Logger).", "log/slog.", "(*log/slog.Logger).", "builtin.print", "builtin.panic"} {
		if strings.HasPrefix(cn, p) {
			return true
		}
	}
	return false
}

// encodes tells whether a type can always be turned into JSON.
func alwaysEncodes(t types.Type, d int) bool {
	if t == nil || d > 5 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !alwaysEncodes(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		return alwaysEncodes(u.Elem(), d+1)
	case *types.Slice:
		return alwaysEncodes(u.Elem(), d+1)
	}
	return false
}

// uses lists whether a node uses one of the given values.
func (g *Graph) usesTerm(n *Node, en *env, is func(*Term) bool) bool {
	if n.kind != NInstr || n.in == nil {
		return false
	}
	memo := map[*Term]bool{}
	var has func(t *Term, d int) bool
	has = func(t *Term, d int) bool {
		if t == nil || d > 12 {
			return false
		}
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		if is(t) {
			memo[t] = true
			return true
		}
		for _, a := range t.args {
			if has(a, d+1) {
				memo[t] = true
				return true
			}
		}
		return false
	}
	op := func(v ssa.Value) bool { return has(g.subst(g.term(n.fr, v), en, 0), 0) }
	switch in := n.in.(type) {
	case *ssa.Store:
		return op(in.Val)
	case *ssa.Return:
		if n.fr != g.root {
			return false
		}
		for _, v := range in.Results {
			if op(v) {
				return true
			}
		}
	case *ssa.FieldAddr:
		return is(g.subst(g.term(n.fr, in.X), en, 0))
	case *ssa.IndexAddr:
		return op(in.X)
	case *ssa.MapUpdate:
		return op(in.Value)
	case *ssa.Convert:
		return op(in.X)
	case ssa.CallInstruction:
		cc := in.Common()
		if n.callee != nil {
			return false
		}
		if strings.HasSuffix(n.callName(), ".Close") {
			return false
		}
		if cc.IsInvoke() && op(cc.Value) {
			return true
		}
		for _, a := range cc.Args {
			if op(a) {
				return true
			}
		}
	}
	return false
}

// overwrites: calls that replace a file.
func overwrites(n *Node) bool {
	if n.kind != NInstr || n.common() == nil {
		return false
	}
	switch n.callName() {
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Rename", "os.OpenFile", "os.Remove", "os.Truncate":
		return true
	}
	return false
}

// failures decides what happens after each failing call of a function that does not report by its result.
func (l *loader) failures() {
	g, c := l.g, l.c
	nil_ := g.mk(&Term{op: "const", s: "nil", typ: types.Universe.Lookup("error").Type()})
	for _, n := range g.failing() {
		cn := n.callName()
		i := errResult(n.common().Signature())
		lab := l.lab + ": " + fnLabel(n.fr.fn) + ": " + cn
		if strings.HasSuffix(cn, ".Close") {
			continue
		}
		if strings.HasPrefix(cn, "encoding/json.Marshal") || cn == "(*encoding/json.Encoder).Encode" && false {
			a := g.callArgs(n)[0]
			for a.op == "iface" {
				a = a.args[0]
			}
			if alwaysEncodes(a.typ, 0) {
				continue
			}
		}
		e := g.callErr(n, i)
		start := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
		if e != nil {
			start.facts[g.mk(&Term{op: "bin", s: "==", args: []*Term{e, nil_}, typ: types.Typ[types.Bool]})] = false
		}
		// an empty text is never parsed
		impossible := func(m *Node, en *env) bool {
			if m.kind != NBranch || m.maybe || m.cond == nil {
				return false
			}
			t, pol := g.condOf(m, en)
			if t.op != "bin" || t.s != "==" && t.s != "!=" || pol != (t.s == "==") {
				return false
			}
			for k := 0; k < 2; k++ {
				if x := t.args[k]; isNilConst(t.args[1-k]) && x.op == "call" && (x.s == "encoding/xml.Unmarshal" || x.s == "encoding/json.Unmarshal") {
					d := g.single0(g.subst(x.args[0], en, 0))
					for d.op == "conv" {
						d = g.single0(g.subst(d.args[0], en, 0))
					}
					if isEmptyStr(d) || isNilConst(d) {
						return true
					}
				}
			}
			return false
		}
		th := n.fr.thread
		p := g.find([]*Node{n}, searchOpt{
			start: start,
			keep:  errCond,
			avoidE: func(m *Node, en *env) bool {
				if isReport(m) || impossible(m, en) {
					return true
				}
				if r, ok := m.in.(*ssa.Return); ok && m.kind == NInstr && m.fr == g.root {
					k := errResult(g.root.fn.Signature)
					return k >= 0 && k < len(r.Results) && !g.normalReturn(m, en)
				}
				return false
			},
			goal: func(m *Node) bool { return m == th.exit || g.headers[m] != nil && g.headers[m].body[n] },
		})
		c.check(p == nil, "reported", lab, g.where(n), "its failure is not reported: "+g.pathText(p))
		// what it gave is not used
		is := func(t *Term) bool {
			if t.op == "res" && t.i != i && t.args[0].op == "call" && t.args[0].node == n && !constantLike(t.typ) {
				return true
			}
			return t.op == "out" && t.node == n
		}
		reader := strings.HasPrefix(cn, "os.") || strings.HasPrefix(cn, "net/http.") || strings.HasPrefix(cn, "(*net/http.") ||
			strings.Contains(cn, "ReadAll") || strings.Contains(cn, "Unmarshal") || strings.HasSuffix(cn, ".Decode") || strings.Contains(cn, "io.Copy")
		if !reader {
			continue
		}
		p = g.find([]*Node{n}, searchOpt{
			start:  start,
			keep:   errCond,
			avoidE: impossible,
			goalE: func(m *Node, en *env) bool {
				return g.usesTerm(m, en, is) || overwrites(m) && m != n
			},
		})
		w := ""
		if p != nil {
			w = g.where(p[len(p)-1])
		}
		c.check(p == nil, "unused", lab, g.where(n), "after it failed its result is used, or the file is overwritten, at "+w+": "+g.pathText(p))
	}
}

func constantLike(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

// writeCall gives the written text and the writer of a call that writes to a file.
func (g *Graph) writeCall(n *Node) (w *Term, parts []*Term, ok bool) {
	if n.kind != NInstr && n.kind != NDeferred || n.common() == nil || n.callee != nil {
		return nil, nil, false
	}
	as := g.callArgs(n)
	nl := g.konst(constant.MakeString("\n"), types.Typ[types.String])
	text := func(t *Term) []*Term {
		var out []*Term
		t = g.single0(t)
		for t.op == "conv" {
			t = g.single0(t.args[0])
		}
		if t.op == "append" {
			if va, ok := g.varargs(t.args[1]); ok {
				b := g.single0(t.args[0])
				out = append(out, b)
				for _, v := range va {
					if k, ok := constInt(g.single0(v)); ok {
						out = append(out, g.konst(constant.MakeString(string(rune(k))), types.Typ[types.String]))
					} else {
						out = append(out, v)
					}
				}
				return out
			}
			return []*Term{g.single0(t.args[0]), g.single0(t.args[1])}
		}
		return g.concat(t)
	}
	switch n.callName() {
	case "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(io.Writer).Write", "(io.StringWriter).WriteString":
		return as[0], text(as[1]), true
	case "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		if k, ok := constInt(g.single0(as[1])); ok {
			return as[0], []*Term{g.konst(constant.MakeString(string(rune(k))), types.Typ[types.String])}, true
		}
		return as[0], []*Term{as[1]}, true
	case "fmt.Fprintln", "fmt.Fprint", "fmt.Fprintf":
		va, ok := g.varargs(as[len(as)-1])
		if !ok {
			return nil, nil, false
		}
		var out []*Term
		if n.callName() == "fmt.Fprintf" {
			f := textOf(g.single0(as[1]))
			for i, s := range strings.Split(f, "%s") {
				if s != "" {
					out = append(out, g.konst(constant.MakeString(s), types.Typ[types.String]))
				}
				if i < len(va) && i < strings.Count(f, "%s") {
					out = append(out, text(stripIface(va[i]))...)
				}
			}
		} else {
			for _, v := range va {
				out = append(out, text(stripIface(v))...)
			}
			if n.callName() == "fmt.Fprintln" {
				out = append(out, nl)
			}
		}
		return as[0], out, true
	case "(*encoding/json.Encoder).Encode":
		enc := g.single0(as[0])
		if enc.op == "call" && enc.s == "encoding/json.NewEncoder" {
			return enc.args[0], []*Term{stripIface(as[1]), nl}, true
		}
	}
	return nil, nil, false
}

func stripIface(t *Term) *Term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// writtenDoc is the document of which a written part is the JSON text.
func (l *loader) writtenDoc(t *Term) *Term {
	g := l.g
	t = g.single0(t)
	for t.op == "conv" {
		t = g.single0(t.args[0])
	}
	if t.op == "res" && t.i == 0 && t.args[0].op == "call" && t.args[0].s == "encoding/json.Marshal" {
		return stripIface(t.args[0].args[0])
	}
	if t.typ != nil {
		if _, ok := derefType(t.typ).Underlying().(*types.Struct); ok {
			return t
		}
	}
	return nil
}

// fromFeed tells whether a list is the list of entries of the parsed feed.
func (g *Graph) fromFeed(t *Term) bool {
	for _, v := range g.vals(t) {
		x := v
		for x.op == "field" || x.op == "slice" {
			if x.op == "slice" {
				return false
			}
			x = x.args[0]
		}
		if x.op != "out" || x.node == nil || !strings.Contains(x.node.callName(), "encoding/xml.") {
			return false
		}
	}
	return true
}

// written decides that every entry of the feed becomes one line of the file.
func (l *loader) written() {
	g, c := l.g, l.c
	feeds := 0
	for _, n := range g.liveNodes {
		if n.common() != nil && (n.callName() == "encoding/xml.Unmarshal" || n.callName() == "(*encoding/xml.Decoder).Decode") {
			feeds++
			if n.callName() == "encoding/xml.Unmarshal" {
				l.wholeResponse(g.callArgs(n)[0], n)
			}
		}
	}
	if feeds == 0 {
		return
	}
	// the file is replaced only after the response was parsed
	for _, n := range g.liveNodes {
		if !overwrites(n) {
			continue
		}
		p := g.find([]*Node{g.threads[0].entry}, searchOpt{
			avoidE: func(m *Node, en *env) bool {
				if m.kind != NBranch || m.maybe || m.cond == nil {
					return false
				}
				t, pol := g.condOf(m, en)
				if t.op != "bin" || pol != (t.s == "==") {
					return false
				}
				for k := 0; k < 2; k++ {
					if x := t.args[k]; isNilConst(t.args[1-k]) && x.op == "call" && strings.Contains(x.s, "encoding/xml.") {
						return true
					}
				}
				return false
			},
			goal: func(m *Node) bool { return m == n },
			keep: errCond,
		})
		c.check(p == nil, "unused", l.lab+": "+n.callName(), g.where(n), "the file is replaced although the response was not parsed: "+g.pathText(p))
	}
	var loops []*Loop
	through := map[*Loop]*List{}
	for _, L := range g.loops {
		if L.kind != "slice" || L.dom == nil {
			continue
		}
		if g.fromFeed(L.dom) {
			loops = append(loops, L)
		} else if s, _ := g.listOf(L.dom, L.header); s != nil && !g.cutSlice(L.dom) && s.loop.kind == "slice" && s.loop.dom != nil && g.fromFeed(s.loop.dom) && len(s.elems) == 1 && s.elems[0].sub == nil {
			// by way of a list of documents, one for each entry
			lab := l.lab + ": documents"
			c.check(len(g.exits(s.loop)) == 0 && g.twice(s) == nil, "entries", lab+" (no early end)", g.where(s.loop.header), "the loop over the entries can be left early, or adds twice")
			p := g.perIteration(s.loop, s.put)
			c.check(p == nil, "entries", lab+" (each)", g.where(s.loop.header), "an entry is left out: "+g.pathText(p))
			loops = append(loops, L)
			through[L] = s
		}
	}
	if !c.check(len(loops) > 0, "entries", l.lab, g.where(g.threads[0].entry), "there is no loop over the entries of the feed") {
		return
	}
	done := false
	for _, L := range loops {
		var docs []*Node
		for _, n := range g.liveNodes {
			_, parts, ok := g.writeCall(n)
			if !ok || !g.inLoop(n, L) || isReportTarget(g, n) {
				continue
			}
			for _, t := range parts {
				if l.writtenDoc(t) != nil {
					docs = append(docs, n)
					break
				}
			}
		}
		if len(docs) == 0 {
			continue
		}
		done = true
		lab := l.lab + ": entries"
		c.check(len(g.exits(L)) == 0, "entries", lab+" (no early end)", g.where(L.header), "the loop over the entries can be left early")
		isDoc := func(n *Node) bool { return contains(docs, n) }
		p := g.perIteration(L, func(n *Node) bool { return isDoc(n) || l.failedBranch(n) })
		c.check(p == nil, "entries", lab+" (each)", g.where(L.header), "an entry is not written: "+g.pathText(p))
		for _, n := range docs {
			w, parts, _ := g.writeCall(n)
			p := g.find([]*Node{n}, searchOpt{avoid: func(m *Node) bool { return m == L.header }, goal: isDoc})
			c.check(p == nil, "entries", lab+" (once)", g.where(n), "an entry may be written twice: "+g.pathText(p))
			// one line each
			nl := false
			other := ""
			for i, t := range parts {
				if d := l.writtenDoc(t); d != nil {
					if i != 0 {
						other = "something is written before it"
					}
					at := L
					if src := through[L]; src != nil {
						ia, f := g.elemSource(d)
						if ia == nil || f != "" || !g.sameCont(ia.args[0], L.dom) || g.K(ia.args[1]) != g.K(L.key) {
							other = "it is not the element of the list: " + g.P(d)
							continue
						}
						d, at = src.elems[0].val, src.loop
					}
					why := l.entryDoc(d, at)
					c.check(why == "", "entries", lab+" (content)", g.where(n), why)
				} else if s := textOf(g.single0(t)); s == "\n" || s == "\r\n" {
					nl = true
				} else {
					other = "something else is written with it: " + g.P(t)
				}
			}
			c.check(other == "", "entries", lab+" (only the document)", g.where(n), other)
			if !nl {
				p := g.find([]*Node{n}, searchOpt{
					avoid: func(m *Node) bool {
						_, ps, ok := g.writeCall(m)
						return ok && len(ps) == 1 && textOf(g.single0(ps[0])) == "\n" || l.failedBranch(m)
					},
					goal: func(m *Node) bool { return m == L.header || m == g.threads[0].exit },
				})
				c.check(p == nil, "entries", lab+" (line)", g.where(n), "the line is not ended: "+g.pathText(p))
			}
			// reaches the file
			w = stripIface(g.single0(w))
			for _, v := range g.vals(w) {
				v = stripIface(v)
				if v.op == "call" && (v.s == "bufio.NewWriter" || v.s == "bufio.NewWriterSize") {
					p := g.find([]*Node{n}, searchOpt{
						avoid: func(m *Node) bool {
							return (m.kind == NInstr || m.kind == NDeferred) && m.common() != nil && !isDeferOrGo(m) && m.callName() == "(*bufio.Writer).Flush" && g.sameWriter(g.callArgs(m)[0], w)
						},
						goal: func(m *Node) bool { return m == g.threads[0].exit },
					})
					c.check(p == nil, "entries", lab+" (flushed)", g.where(n), "what was written may stay in the buffer: "+g.pathText(p))
					if v.node != nil && g.inLoop(v.node, L) {
						p := g.find([]*Node{n}, searchOpt{
							avoid: func(m *Node) bool {
								return m.kind == NInstr && m.common() != nil && m.callName() == "(*bufio.Writer).Flush"
							},
							goal: func(m *Node) bool { return m == L.header },
						})
						c.check(p == nil, "entries", lab+" (flushed)", g.where(n), "the next entry gets a new buffer: "+g.pathText(p))
					}
					v = stripIface(g.single0(v.args[0]))
				}
				opened := v.op == "res" && v.args[0].op == "call" && v.args[0].node != nil && (v.args[0].s == "os.Create" || v.args[0].s == "os.OpenFile")
				c.check(opened && !g.inLoop(v.args[0].node, L), "entries", lab+" (file)", g.where(n), "the entries are not written to one file opened before: "+g.P(v))
			}
		}
	}
	c.check(done, "entries", l.lab+" (written)", g.where(g.threads[0].entry), "the entries of the feed are not written")
}

func (g *Graph) sameWriter(a, b *Term) bool {
	return stripIface(g.single0(a)) == b || g.K(a) == g.K(b)
}

func isReportTarget(g *Graph, n *Node) bool {
	if !strings.HasPrefix(n.callName(), "fmt.") {
		return false
	}
	return isGlobal(g, stripIface(g.callArgs(n)[0]), "os.Stdout", "os.Stderr")
}

// failedBranch: a branch that says that an error happened.
func (l *loader) failedBranch(n *Node) bool {
	if n.kind != NBranch || n.maybe || n.cond == nil {
		return false
	}
	t, pol := l.g.single0(l.g.cond(n)), n.pol
	if t.op == "bin" && (t.s == "!=" || t.s == "==") && (isNilConst(t.args[0]) && isErrorType(t.args[1].typ) || isNilConst(t.args[1]) && isErrorType(t.args[0].typ)) {
		return pol == (t.s == "!=")
	}
	return false
}

// entryDoc decides that a written document has the parts of the entry.
func (l *loader) entryDoc(d *Term, L *Loop) string {
	g := l.g
	d = g.single0(d)
	st, ok := derefType(d.typ).Underlying().(*types.Struct)
	if !ok {
		return "it is not a document: " + g.P(d)
	}
	var elem *types.Struct
	if s, ok := L.dom.typ.Underlying().(*types.Slice); ok {
		elem, _ = derefType(s.Elem()).Underlying().(*types.Struct)
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if why := ownJSONName(st, i); why != "" {
			return why
		}
		has := false
		for j := 0; elem != nil && j < elem.NumFields(); j++ {
			has = has || elem.Field(j).Name() == f.Name()
		}
		fv := g.docField(d, f.Name(), i, f.Type())
		if !has {
			for _, v := range g.vals(fv) {
				if v.op == "const" || v.op == "zero" {
					return f.Name() + " is always " + g.P(v)
				}
			}
			continue
		}
		for _, v := range g.vals(fv) {
			k := g.P(v)
			x := v
			first := ""
			for x.op == "field" {
				first = x.s
				x = x.args[0]
			}
			if x.op == "load" || x.op == "init" {
				a := x.args[0]
				for a.op == "fieldaddr" {
					first = a.s
					a = a.args[0]
				}
			}
			ia := g.anyIndex(v)
			if ia == nil || !g.sameCont(ia.args[0], L.dom) || g.K(ia.args[1]) != g.K(L.key) {
				return f.Name() + " is not taken from the entry: " + k
			}
			if first != f.Name() {
				return f.Name() + " is taken from another part of the entry: " + k
			}
		}
	}
	return ""
}

// docField is the value of a field of a struct value or of what a pointer points to.
func (g *Graph) docField(d *Term, name string, i int, typ types.Type) *Term {
	if d.op == "fresh" {
		// the address of a document
		for _, s := range g.storesTo(d) {
			a := g.canonAddr(g.term(s.fr, s.in.(*ssa.Store).Addr))
			if a.op == "fieldaddr" && a.s == name && a.args[0] == d {
				return g.term(s.fr, s.in.(*ssa.Store).Val)
			}
		}
	}
	return g.fieldOf(d, name, i, typ)
}

// anyIndex finds the indexed element a value is part of.
func (g *Graph) anyIndex(v *Term) *Term {
	for i := 0; i < 16; i++ {
		switch v.op {
		case "load":
			if ia := innerIndex(v.args[0]); ia != nil {
				return ia
			}
		case "init":
			return innerIndex(v.args[0])
		case "field":
			v = v.args[0]
			continue
		}
		as := g.alts(v)
		if len(as) != 1 {
			return nil
		}
		v = as[0]
	}
	return nil
}

// jsonName: the field is written and read under its own name.
func ownJSONName(st *types.Struct, i int) string {
	f := st.Field(i)
	if !f.Exported() {
		return f.Name() + " is not written"
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	name := strings.Split(tag, ",")[0]
	if name == "" {
		return ""
	}
	if tag == "-" || !strings.EqualFold(name, f.Name()) {
		return f.Name() + " is written as " + name
	}
	return ""
}

// wholeResponse decides that the text that is parsed is the whole body of the response, or nothing.
func (l *loader) wholeResponse(t *Term, at *Node) {
	g, c := l.g, l.c
	for _, v := range g.vals(t) {
		for v.op == "conv" {
			v = g.single0(v.args[0])
		}
		var alts []*Term
		for _, x := range g.vals(v) {
			alts = append(alts, x)
		}
		for _, x := range alts {
			for x.op == "conv" {
				x = g.single0(x.args[0])
			}
			if isEmptyStr(x) || isNilConst(x) {
				continue
			}
			why := "it is not the body of the response: " + g.P(x)
			if x.op == "res" && x.i == 0 && x.args[0].op == "call" && (x.args[0].s == "io.ReadAll" || x.args[0].s == "io/ioutil.ReadAll") {
				b := stripIface(g.single0(x.args[0].args[0]))
				if strings.HasSuffix(g.P(b), ".Body") {
					why = ""
				} else {
					why = "it is not the whole body of the response: " + g.P(b)
				}
			}
			c.check(why == "", "response", l.lab, g.where(at), why)
		}
	}
}

// endIsFailure finds a path on which the end of the file, which every file has, ends the process or is reported as a
// failure.
func (l *loader) endIsFailure(n *Node, i int) string {
	g := l.g
	e := g.callErr(n, i)
	if e == nil {
		return ""
	}
	isE := func(t *Term) bool { return g.single0(t) == e || t == e }
	nil_ := g.mk(&Term{op: "const", s: "nil", typ: types.Universe.Lookup("error").Type()})
	start := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
	start.facts[g.mk(&Term{op: "bin", s: "==", args: []*Term{e, nil_}, typ: types.Typ[types.Bool]})] = false
	other := map[*Node]bool{}
	for _, m := range g.failing() {
		if m != n {
			other[m] = true
		}
	}
	p := g.find([]*Node{n}, searchOpt{
		start: start,
		avoidE: func(m *Node, en *env) bool {
			if m == n || other[m] {
				return true
			}
			if m.kind != NBranch || m.maybe {
				return false
			}
			t, pol := g.condOf(m, en)
			return g.saysEOF(isE, t, !pol)
		},
		goalE: func(m *Node, en *env) bool {
			if m.kind != NInstr {
				return false
			}
			if _, ok := m.in.(*ssa.Panic); ok {
				return true
			}
			if cc := m.common(); cc != nil && isNoReturn(cc) {
				return true
			}
			if r, ok := m.in.(*ssa.Return); ok && m.fr == g.root {
				if j := errResult(g.root.fn.Signature); j >= 0 && j < len(r.Results) {
					return isE(g.subst(g.term(m.fr, r.Results[j]), en, 0))
				}
			}
			return false
		},
	})
	if p == nil {
		return ""
	}
	return "the end of the file is taken for a failure: " + g.pathText(p)
}

func ruleC29(c *Ctx) {
	pkg := Module + "/testecolection"
	called := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if funcPkgPath(f) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil {
						called[body(sc)] = true
					}
				}
			}
		}
	}
	for _, f := range c.p.Funcs {
		if funcPkgPath(f) != pkg || f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		res := f.Signature.Results()
		isLoader := false
		if res.Len() > 0 && f.Signature.Params().Len() == 0 {
			if s, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
				_, st := derefType(s.Elem()).Underlying().(*types.Struct)
				isLoader = st || isStringType(s.Elem())
			}
		}
		if !isLoader && called[f] {
			continue
		}
		g := c.graph(f, func(*ssa.Function) bool { return false }, "loader")
		l := &loader{c, g, fnLabel(f)}
		c.afterClose(g, "open", l.lab)
		c.founded(g, "stops", l.lab)
		if !isLoader {
			l.failures()
			l.written()
			c.noRaces(g, l.lab)
			continue
		}
		for _, n := range g.failing() {
			i := errResult(n.common().Signature())
			isRead := lineRead(n) != ""
			why := c.swallowedBut(g, n, i, func(e, cond *Term, pol bool) bool {
				return isRead && g.saysEOF(func(x *Term) bool { return x == e }, cond, pol)
			})
			c.check(why == "", "stops", l.lab+": "+n.callName(), g.where(n), "it goes on after the failure: "+why)
			if k := lineRead(n); k == "line" || k == "value" {
				why := l.endIsFailure(n, i)
				c.check(why == "", "end", l.lab+": "+n.callName(), g.where(n), why)
			}
		}
		// a scanner that stopped early is asked why
		for _, n := range g.liveNodes {
			if lineRead(n) != "scan" {
				continue
			}
			ok := g.result(n, 0)
			p := g.find([]*Node{n}, searchOpt{
				avoid: func(m *Node) bool {
					return m.kind == NInstr && m.common() != nil && m.callName() == "(*bufio.Scanner).Err" ||
						m.kind == NBranch && !m.maybe && g.cond(m) == ok && m.pol
				},
				goalE: g.normalReturn,
			})
			c.check(p == nil, "stops", l.lab+": Scan", g.where(n), "nobody asks whether the scanner failed: "+g.pathText(p))
		}
		var elem *types.Struct
		if s, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
			elem, _ = derefType(s.Elem()).Underlying().(*types.Struct)
		}
		for i := 0; elem != nil && i < elem.NumFields(); i++ {
			why := ownJSONName(elem, i)
			c.check(why == "", "value", l.lab+" field "+elem.Field(i).Name(), c.p.Pos(elem.Field(i).Pos()), why)
		}
		for _, r := range g.root.rets {
			if !g.live[r] {
				continue
			}
			rs := r.in.(*ssa.Return).Results
			t := g.term(g.root, rs[0])
			if v := g.single0(t); isNilConst(v) && l.failedBefore(r) && errResult(f.Signature) >= 0 {
				continue
			}
			l.list(t, r, "result", 0)
		}
		c.noRaces(g, l.lab)
	}
}

func init() {
	register("C29", 1, "", ruleC29)
}
