package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eff is one change of a container or location.
type Eff struct {
	n    *Node
	kind string // update, store, delete, clear
	m    *Term  // map of an update or delete, address of a store
	k    *Term
	v    *Term
	path string // name of the changed slot
	cont string // name of the container
}

// effects lists every map update, delete and store of the graph. Stores to local variables are left out.
func (g *Graph) effects() []Eff {
	if g.effMemo != nil {
		return g.effMemo
	}
	out := []Eff{}
	for _, n := range g.liveNodes {
		switch n.kind {
		case NInstr:
			switch in := n.in.(type) {
			case *ssa.MapUpdate:
				m, k, v := g.term(n.fr, in.Map), g.term(n.fr, in.Key), g.term(n.fr, in.Value)
				c := g.deref(m, true)
				out = append(out, Eff{n, "update", m, k, v, c + "[" + g.P(k) + "]", c})
			case *ssa.Store:
				a := g.term(n.fr, in.Addr)
				if a.op == "fresh" {
					continue
				}
				l := g.loc(a, true)
				c := l
				if a.op == "fieldaddr" || a.op == "indexaddr" {
					c = g.deref(a.args[0], true)
				}
				out = append(out, Eff{n, "store", a, nil, g.term(n.fr, in.Val), l, c})
			}
		}
		if c := n.common(); c != nil {
			switch n.callName() {
			case "builtin.delete":
				m, k := g.term(n.fr, c.Args[0]), g.term(n.fr, c.Args[1])
				cn := g.deref(m, true)
				out = append(out, Eff{n, "delete", m, k, nil, cn + "[" + g.P(k) + "]", cn})
			case "builtin.clear":
				m := g.term(n.fr, c.Args[0])
				cn := g.deref(m, true)
				out = append(out, Eff{n, "clear", m, nil, nil, cn, cn})
			}
		}
	}
	g.effMemo = out
	return out
}

// calls lists the external (or opaque) calls by qualified name.
func (g *Graph) calls(names ...string) []*Node {
	var out []*Node
	for _, n := range g.liveNodes {
		if n.kind != NInstr && n.kind != NDeferred {
			continue
		}
		cn := n.callName()
		if cn == "" {
			continue
		}
		for _, w := range names {
			if cn == w {
				out = append(out, n)
			}
		}
	}
	return out
}

// callArgs are the argument terms of an external call, receiver first for methods and interface calls.
func (g *Graph) callArgs(n *Node) []*Term {
	c := n.common()
	var out []*Term
	if c.IsInvoke() {
		out = append(out, g.term(n.fr, c.Value))
	}
	for _, a := range c.Args {
		out = append(out, g.term(n.fr, a))
	}
	return out
}

// result is the term of result i of an external call node.
func (g *Graph) result(n *Node, i int) *Term {
	v, ok := n.in.(*ssa.Call)
	if !ok {
		return nil
	}
	t := g.callTerm(n.fr, n, v.Common(), v.Type())
	if tup, ok := v.Type().(*types.Tuple); ok {
		if i >= tup.Len() {
			return nil
		}
		return g.mk(&Term{op: "res", i: i, args: []*Term{t}, typ: tup.At(i).Type()})
	}
	return t
}

var bracket = regexp.MustCompile(`\[[^\[\]]*\]`)

// shape replaces the keys of a path by *.
func shape(p string) string {
	p = strings.ReplaceAll(p, "[*]", "<>")
	for {
		q := bracket.ReplaceAllString(p, "<>")
		if q == p {
			break
		}
		p = q
	}
	return strings.ReplaceAll(p, "<>", "[*]")
}

// iterOf tells which loop makes t run over the keys (or elements) of a container. over is the name of the map whose
// keys t takes, or "elems(name)" for the elements of a slice.
func (g *Graph) iterOf(t *Term) (*Loop, string) {
	s := g.single0(t)
	switch s.op {
	case "rangekey":
		for _, l := range g.loops {
			if l.kind == "map" && l.header.fr == s.node.fr && l.key == g.mk(&Term{op: "rangekey", node: s.node, args: s.args, fr: s.fr}) {
				return l, g.deref(l.dom, true)
			}
		}
	case "load":
		if s.args[0].op == "indexaddr" {
			ia := s.args[0]
			for _, l := range g.loops {
				if l.kind == "slice" && l.key == ia.args[1] && (l.dom == ia.args[0] || g.P(l.dom) == g.P(ia.args[0])) {
					if m := g.keysOf(l.dom, l.header); m != "" {
						return l, m
					}
					return l, "elems(" + g.P(l.dom) + ")"
				}
				// for i := 0; i < n; i++ over a slice made with length n
				if l.kind == "count" && l.key == ia.args[1] {
					if g.lengthIs(ia.args[0], l.bound) {
						return l, "elems(" + g.P(ia.args[0]) + ")"
					}
				}
			}
		}
	case "recv":
		for _, l := range g.loops {
			if l.kind == "chan" && l.val == s {
				return l, "recv(" + g.P(l.dom) + ")"
			}
		}
	}
	return nil, ""
}

// single0 follows merges with one alternative; element loads stay as they are.
func (g *Graph) single0(t *Term) *Term {
	for i := 0; i < 30; i++ {
		if t.op == "load" && innerIndex(t.args[0]) != nil {
			return t
		}
		as := g.alts(t)
		if len(as) != 1 || as[0] == t {
			return t
		}
		t = as[0]
	}
	return t
}

// lengthIs tells whether slice s was made with the length named by a term.
func (g *Graph) lengthIs(s, n *Term) bool {
	f := g.single(s)
	if f == nil || f.op != "fresh" {
		return false
	}
	if ms, ok := f.v.(*ssa.MakeSlice); ok {
		return g.P(g.term(f.fr, ms.Len)) == g.P(n)
	}
	return false
}

// keysOf names the map whose keys, all of them, a slice holds when a node runs.
func (g *Graph) keysOf(s *Term, use *Node) string {
	ct, ok := g.contents(s)
	if !ok || len(ct) == 0 {
		if v := g.single(s); v != nil && v.op == "call" {
			switch v.s {
			case "slices.Sorted", "slices.Collect":
				if k := g.single(v.args[0]); k != nil && k.op == "call" && k.s == "maps.Keys" {
					return g.deref(k.args[0], true)
				}
			}
		}
		return ""
	}
	name := ""
	for _, e := range ct {
		if e.val == nil || e.sub != nil {
			return ""
		}
		kt := g.single0(e.val)
		if kt.op != "rangekey" {
			return ""
		}
		l, over := g.iterOf(kt)
		if l == nil || (name != "" && name != over) {
			return ""
		}
		if p := g.perIteration(l, func(n *Node) bool { return n == e.node }); p != nil {
			return ""
		}
		if !g.completeAt(l, over, use) {
			return ""
		}
		name = over
	}
	if g.lost(s, use) != "" {
		return ""
	}
	return name
}

// completeAt: whenever a node runs, a loop over a container has run to its end or the container is empty.
func (g *Graph) completeAt(l *Loop, over string, use *Node) bool {
	for use != nil && use.fr.thread != l.header.fr.thread {
		use = use.fr.thread.spawn
	}
	if use == nil {
		return false
	}
	if l.body[use] {
		return false
	}
	starts := []*Node{use.fr.thread.entry}
	for _, o := range g.loops {
		if o.body[l.header] && o.body[use] && o.enter != nil {
			starts = append(starts, o.enter)
		}
	}
	return g.find(starts, searchOpt{
		avoid: func(n *Node) bool { return n == l.done || g.emptyGuard(n, over) },
		goal:  func(n *Node) bool { return n == use },
	}) == nil
}

// perIteration looks for an iteration of a loop that misses every event; nil when all iterations have one.
func (g *Graph) perIteration(l *Loop, event func(*Node) bool) []*Node {
	if l.enter == nil {
		return []*Node{l.header}
	}
	return g.find([]*Node{l.enter}, searchOpt{
		avoid: event,
		goal:  func(n *Node) bool { return n == l.header || (!l.body[n] && !g.dying(n)) },
	})
}

// dying tells whether the process ends after a node: neither the end of the goroutine nor a loop can be reached.
func (g *Graph) dying(n *Node) bool {
	if g.alive == nil {
		g.alive = map[*Node]bool{}
		var work []*Node
		add := func(m *Node) {
			if m != nil && !g.alive[m] {
				g.alive[m] = true
				work = append(work, m)
			}
		}
		for _, t := range g.threads {
			add(t.exit)
		}
		for _, l := range g.loops {
			for m := range l.body {
				add(m)
			}
		}
		for len(work) > 0 {
			m := work[len(work)-1]
			work = work[:len(work)-1]
			for _, q := range m.pred {
				add(q)
			}
		}
	}
	return !g.alive[n]
}

// emptyGuard tells whether a branch outcome says that the named container is empty or nil.
func (g *Graph) emptyGuard(b *Node, name string) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	return g.saysEmpty(g.cond(b), b.pol, name)
}

func (g *Graph) saysEmpty(c *Term, pol bool, name string) bool {
	for c.op == "un" && c.s == "!" {
		c, pol = c.args[0], !pol
	}
	if c.op == "lookupok" && !pol {
		return g.deref(c.args[0], true)+"["+g.P(c.args[1])+"]" == name
	}
	if c.op != "bin" {
		return false
	}
	op := c.s
	x, y := c.args[0], c.args[1]
	neg := map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
	swap := map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
	if !pol {
		op = neg[op]
	}
	if x.op == "const" {
		x, y, op = y, x, swap[op]
	}
	isLen := func(t *Term) bool {
		t = g.single0(t)
		return t.op == "len" && g.deref(t.args[0], true) == name
	}
	if isNilConst(y) && op == "==" {
		return g.deref(x, true) == name
	}
	if isLen(x) {
		c, ok := constInt(y)
		if !ok {
			return false
		}
		switch op {
		case "==", "<=":
			return c == 0
		case "<":
			return c == 1
		}
	}
	return false
}

// forAll decides that between start and every goal the event runs once for each element of the named container.
// It returns "" or a description of a path on which some element is missed.
func (g *Graph) forAll(start *Node, goal func(*Node) bool, over string, event func(l *Loop) func(*Node) bool) string {
	dones := map[*Node]bool{}
	why := ""
	for _, l := range g.loops {
		if !g.loopOver(l, over) {
			continue
		}
		if p := g.perIteration(l, event(l)); p != nil {
			why = "an iteration of the loop at " + g.where(l.header) + " can miss it: " + g.pathText(p)
			continue
		}
		dones[l.done] = true
	}
	p := g.find([]*Node{start}, searchOpt{
		avoid: func(n *Node) bool { return dones[n] },
		goal:  goal,
		skip: func(a, b *Node) bool {
			return g.emptyGuard(b, strings.TrimSuffix(strings.TrimPrefix(over, "elems("), ")"))
		},
	})
	if p == nil {
		return ""
	}
	if why != "" {
		return why
	}
	if len(dones) == 0 {
		return "no loop runs over all of " + over
	}
	return "the loop over " + over + " can be left out or left early: " + g.pathText(p)
}

// loopOver tells whether a loop walks all keys (or elements) of the named container.
func (g *Graph) loopOver(l *Loop, over string) bool {
	switch l.kind {
	case "map":
		return g.deref(l.dom, true) == over
	case "slice":
		if m := g.keysOf(l.dom, l.header); m != "" && m == over {
			return true
		}
		return "elems("+g.P(l.dom)+")" == over
	case "chan":
		return "recv("+g.P(l.dom)+")" == over
	}
	return false
}

// copySource names the container of which a fresh map is a complete copy at node at, "" when it is none. val
// gives the copied value: it must be the value of the same key (same or for sets any).
func (g *Graph) copySources(f *Term, at *Node) []string {
	var out []string
	for _, e := range g.effects() {
		if e.kind != "update" || !g.mayBe(e.m, f) {
			continue
		}
		l, over := g.iterOf(e.k)
		if l == nil || strings.HasPrefix(over, "elems(") || strings.HasPrefix(over, "recv(") {
			continue
		}
		if e.n.fr.thread != at.fr.thread {
			continue
		}
		if !g.sameEntry(e, over) {
			continue
		}
		if p := g.perIteration(l, func(n *Node) bool { return n == e.n || g.inSetAlready(n, f, e) }); p != nil {
			continue
		}
		// on every path from the creation to at the loop runs to its end
		if f.node == nil {
			continue
		}
		p := g.find([]*Node{f.node}, searchOpt{
			avoid: func(n *Node) bool { return n == l.done },
			goal:  func(n *Node) bool { return n == at },
			skip:  func(a, b *Node) bool { return g.emptyGuard(b, over) },
		})
		if p != nil {
			continue
		}
		out = append(out, over)
	}
	for _, n := range g.calls("maps.Copy") {
		as := g.callArgs(n)
		if !g.mayBe(as[0], f) || n.fr.thread != at.fr.thread || f.node == nil {
			continue
		}
		over := g.deref(as[1], true)
		if p := g.find([]*Node{f.node}, searchOpt{
			avoid: func(m *Node) bool { return m == n },
			goal:  func(m *Node) bool { return m == at },
			skip:  func(a, b *Node) bool { return g.emptyGuard(b, over) },
		}); p == nil {
			out = append(out, over)
		}
	}
	return out
}

// inSetAlready: a branch says that the set that is filled has the element already.
func (g *Graph) inSetAlready(n *Node, f *Term, e Eff) bool {
	if n.kind != NBranch || n.maybe {
		return false
	}
	for _, v := range g.vals(e.v) {
		if !isBoolConst(v, true) {
			return false
		}
	}
	c, pol := g.single0(g.cond(n)), n.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if !pol || c.op != "lookup" && c.op != "lookupok" || len(c.args) != 2 {
		return false
	}
	for _, v := range g.vals(c.args[0]) {
		if v.op != "fresh" || !g.mayBe(e.m, v) {
			return false
		}
	}
	return g.mayBe(c.args[0], f) && g.K(c.args[1]) == g.K(e.k)
}

// sameEntry tells whether the value an update writes is what the named container holds under the same key: the
// same value, a new object made from it, or true for a set.
func (g *Graph) sameEntry(e Eff, over string) bool {
	slot := over + "[" + g.P(e.k) + "]"
	for _, v := range g.vals(e.v) {
		switch {
		case g.deref(v, true) == slot:
		case v.op == "fresh":
		case v.op == "const" && v.s == "true":
		default:
			return false
		}
	}
	return true
}

// mayBe tells whether a term can stand for the object of a fresh term.
func (g *Graph) mayBe(t, f *Term) bool {
	for _, v := range g.vals(t) {
		if v == f {
			return true
		}
	}
	return false
}

// freshIn lists the objects made here that a term can stand for.
func (g *Graph) freshIn(t *Term) []*Term {
	var out []*Term
	for _, v := range g.vals(t) {
		if v.op == "fresh" {
			out = append(out, v)
		}
	}
	return out
}

// deltaOf recognises slot = slot + delta and returns the delta; absent slots count as zero.
func (g *Graph) deltaOf(e Eff) *Term {
	var rec func(v *Term, d int) *Term
	rec = func(v *Term, d int) *Term {
		if d > 6 {
			return nil
		}
		v = g.single0(v)
		switch v.op {
		case "conv":
			return rec(v.args[0], d+1)
		case "bin":
			if v.s == "+" {
				for i := 0; i < 2; i++ {
					if g.P(v.args[i]) == e.path {
						return v.args[1-i]
					}
				}
			}
		case "phi":
			var out *Term
			for _, a := range g.alts(v) {
				r := rec(a, d+1)
				if r == nil || (out != nil && g.K(out) != g.K(r)) {
					return nil
				}
				out = r
			}
			return out
		}
		return nil
	}
	if r := rec(e.v, 0); r != nil {
		return r
	}
	// the slot is known to be absent or zero
	for _, b := range g.guards(e.n) {
		c := g.cond(b)
		if g.saysEmpty(c, b.pol, e.path) || g.saysZero(c, b.pol, e.path) || g.saysEmpty(c, b.pol, e.cont) {
			return e.v
		}
	}
	return nil
}

func (g *Graph) saysZero(c *Term, pol bool, name string) bool {
	for c.op == "un" && c.s == "!" {
		c, pol = c.args[0], !pol
	}
	if c.op != "bin" || (c.s != "==" && c.s != "!=") || pol != (c.s == "==") {
		return false
	}
	for i := 0; i < 2; i++ {
		if n, ok := constInt(c.args[1-i]); ok && n == 0 && g.P(c.args[i]) == name {
			return true
		}
	}
	return false
}

// guardedAbsent tells whether a node runs only when the named slot holds nothing.
func (g *Graph) guardedAbsent(n *Node, path string) bool {
	if n == nil {
		return false
	}
	for _, b := range g.guards(n) {
		if g.saysEmpty(g.cond(b), b.pol, path) {
			return true
		}
	}
	p := g.find([]*Node{n.fr.thread.entry}, searchOpt{
		avoid: func(m *Node) bool { return m != n && g.emptyGuard(m, path) },
		goal:  func(m *Node) bool { return m == n },
	})
	return p == nil
}

// ---- locks --------------------------------------------------------------------------------------------------

const (
	heldR = 1
	heldW = 2
)

type lockset map[string]int

func lockOp(name string) (op string) {
	switch name {
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock":
		return "W"
	case "(*sync.RWMutex).RLock":
		return "R"
	case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
		return "w"
	case "(*sync.RWMutex).RUnlock":
		return "r"
	}
	return ""
}

// Locks is the result of the lock analysis: what is surely held before each node, and what may be held.
type Locks struct {
	must map[*Node]lockset
	may  map[*Node]lockset
}

func (g *Graph) lockName(n *Node) string {
	c := n.common()
	if c == nil || len(c.Args) == 0 {
		return ""
	}
	return g.loc(g.term(n.fr, c.Args[0]), true)
}

func (g *Graph) locks() *Locks {
	if g.lockMemo != nil {
		return g.lockMemo
	}
	ls := &Locks{map[*Node]lockset{}, map[*Node]lockset{}}
	g.lockMemo = ls
	step := func(n *Node, in lockset) lockset {
		op := lockOp(n.callName())
		if op == "" || (n.kind == NInstr && isDeferOrGo(n)) {
			return in
		}
		name := g.lockName(n)
		out := lockset{}
		for k, v := range in {
			out[k] = v
		}
		switch op {
		case "W":
			out[name] = heldW
		case "R":
			if out[name] < heldR {
				out[name] = heldR
			}
		case "w", "r":
			delete(out, name)
		}
		return out
	}
	var work []*Node
	inWork := map[*Node]bool{}
	add := func(n *Node) {
		if !inWork[n] {
			inWork[n] = true
			work = append(work, n)
		}
	}
	for _, t := range g.threads {
		if t.callback || t.entry == nil {
			continue
		}
		ls.must[t.entry] = lockset{}
		ls.may[t.entry] = lockset{}
		add(t.entry)
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		inWork[n] = false
		om, oy := step(n, ls.must[n]), step(n, ls.may[n])
		succ := n.succ
		for _, t := range g.threads {
			if t.callback && t.spawn == n {
				succ = append(append([]*Node{}, succ...), t.entry)
			}
		}
		for _, s := range succ {
			ch := false
			if cur, ok := ls.must[s]; !ok {
				c := lockset{}
				for k, v := range om {
					c[k] = v
				}
				ls.must[s] = c
				ch = true
			} else {
				for k, v := range cur {
					if o := om[k]; o < v {
						ch = true
						if o == 0 {
							delete(cur, k)
						} else {
							cur[k] = o
						}
					}
				}
			}
			cy := ls.may[s]
			if cy == nil {
				cy = lockset{}
				ls.may[s] = cy
			}
			for k, v := range oy {
				if cy[k] < v {
					cy[k] = v
					ch = true
				}
			}
			if ch {
				add(s)
			}
		}
	}
	return ls
}

func isDeferOrGo(n *Node) bool {
	switch n.in.(type) {
	case *ssa.Defer, *ssa.Go:
		return true
	}
	return false
}

// mapReads lists the nodes that read a map, with the name of the map.
type Access struct {
	n     *Node
	cont  string
	write bool
	what  string
}

func (g *Graph) accesses() []Access {
	var out []Access
	for _, n := range g.liveNodes {
		if n.kind == NInstr {
			switch in := n.in.(type) {
			case *ssa.Lookup:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					out = append(out, Access{n, g.deref(g.term(n.fr, in.X), true), false, "read"})
				}
			case *ssa.Next:
				if !in.IsString {
					if it := g.term(n.fr, in.Iter); it.op == "range" {
						out = append(out, Access{n, g.deref(it.args[0], true), false, "iteration"})
					}
				}
			case *ssa.MapUpdate:
				out = append(out, Access{n, g.deref(g.term(n.fr, in.Map), true), true, "update"})
			case *ssa.Store:
				a := g.term(n.fr, in.Addr)
				if a.op == "fieldaddr" {
					out = append(out, Access{n, "field " + g.loc(a, true), true, "store"})
				}
			case *ssa.UnOp:
				a := g.term(n.fr, in.X)
				if in.Op.String() == "*" && a.op == "fieldaddr" {
					out = append(out, Access{n, "field " + g.loc(a, true), false, "load"})
				}
			}
		}
		if c := n.common(); c != nil {
			switch n.callName() {
			case "builtin.delete", "builtin.clear":
				out = append(out, Access{n, g.deref(g.term(n.fr, c.Args[0]), true), true, "delete"})
			case "builtin.len":
				if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
					out = append(out, Access{n, g.deref(g.term(n.fr, c.Args[0]), true), false, "len"})
				}
			}
		}
	}
	return out
}

func exportedMethods(p *Prog, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Exported() {
			if f := p.SSA.FuncValue(n.Method(i)); f != nil {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
