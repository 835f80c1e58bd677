package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path search over the inlined graph. A path remembers which alternative of a merged value it chose and which
// branch conditions it took, so that the branches of a caller on the result of a helper agree with the return
// the helper took.

type env struct {
	choice map[*Term]*Term // phi or ret -> chosen alternative
	facts  map[*Term]bool  // condition -> outcome
}

// envKey is a 128 bit hash of what a path knows, independent of the order.
type envKey [2]uint64

type stateKey struct {
	n int
	e envKey
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func (e *env) key() envKey {
	var k envKey
	add := func(a, b uint64) {
		h := a<<32 | b
		k[0] += mix(h + 0x9e3779b97f4a7c15)
		k[1] += mix(mix(h^0xd1b54a32d192ed03) + 0x8cb92ba72f3d8dd7)
	}
	for a, b := range e.choice {
		add(uint64(a.id), uint64(b.id)<<2)
	}
	for a, b := range e.facts {
		v := uint64(1)
		if b {
			v = 3
		}
		add(uint64(a.id), v)
	}
	return k
}

func (e *env) clone() *env {
	n := &env{choice: make(map[*Term]*Term, len(e.choice)), facts: make(map[*Term]bool, len(e.facts))}
	for k, v := range e.choice {
		n.choice[k] = v
	}
	for k, v := range e.facts {
		n.facts[k] = v
	}
	return n
}

// relevant finds the merged values that branch conditions depend on, and the conditions tested more than once.
func (g *Graph) prepareSearch() {
	if g.relevant != nil {
		return
	}
	g.relevant = map[*Term]bool{}
	g.condUses = map[*Term]int{}
	var mark func(t *Term, d int)
	mark = func(t *Term, d int) {
		if d > 12 {
			return
		}
		switch t.op {
		case "phi", "ret":
			if g.relevant[t] {
				return
			}
			g.relevant[t] = true
			for _, a := range g.alts(t) {
				mark(a, d+1)
			}
		case "load":
			if g.relevant[t] {
				return
			}
			ms := g.localVals(t)
			if len(ms) > 1 {
				g.relevant[t] = true
			}
			for _, m := range ms {
				mark(m.val, d+1)
			}
		case "bin", "un", "conv", "trunc", "field":
			for _, a := range t.args {
				mark(a, d+1)
			}
		case "call":
			// whether there is a text at all decides whether parsing fails
			if strings.HasSuffix(t.s, ".Unmarshal") && len(t.args) > 0 {
				mark(t.args[0], d+1)
			}
		}
	}
	for _, n := range g.liveNodes {
		if n.kind == NBranch && !n.maybe && n.pol {
			c := g.term(n.fr, n.cond)
			mark(c, 0)
			g.condUses[c]++
		}
	}
	// the errors the entry function returns
	for _, r := range g.root.rets {
		for _, v := range r.in.(*ssa.Return).Results {
			if isErrorType(v.Type()) {
				mark(g.term(g.root, v), 0)
			}
		}
	}
	g.phisAt = map[*Node][]*Term{}
	for t := range g.relevant {
		if t.op == "phi" {
			f := t.fr.nodes[t.v.(*ssa.Phi)]
			g.phisAt[f] = append(g.phisAt[f], t)
		}
	}
	g.storedAt = map[*Node][]stored{}
	for t := range g.relevant {
		if t.op == "load" {
			for _, m := range g.localVals(t) {
				g.storedAt[m.node] = append(g.storedAt[m.node], stored{t, m.val})
			}
		}
	}
	for _, ss := range g.storedAt {
		sort.Slice(ss, func(i, j int) bool { return ss[i].load.id < ss[j].load.id })
	}
	g.retsAt = map[*Frame][]*Term{}
	for t := range g.relevant {
		if t.op == "ret" {
			g.retsAt[t.node.callee] = append(g.retsAt[t.node.callee], t)
		}
	}
	g.headers = map[*Node]*Loop{}
	for _, l := range g.loops {
		g.headers[l.header] = l
	}
}

// stored is a value that a load may read.
type stored struct{ load, val *Term }

// localVals are the stores that reach a load of a local variable, nil when it is none or they are not all known.
func (g *Graph) localVals(t *Term) []memVal {
	if t.node == nil || addrBase(g.canonAddr(t.args[0])).op != "fresh" || innerIndex(t.args[0]) != nil {
		return nil
	}
	ms := g.memVals(t.node, t.args[0], t.typ)
	for _, m := range ms {
		if m.node == nil || m.node.fr.thread != t.node.fr.thread {
			return nil
		}
	}
	return ms
}

// watch makes paths remember which value t stands for.
func (g *Graph) watch(t *Term) {
	g.prepareSearch()
	if len(g.vals(t)) < 2 {
		return
	}
	var mark func(t *Term, d int)
	mark = func(t *Term, d int) {
		if t.op == "load" && d <= 12 && !g.relevant[t] {
			ms := g.localVals(t)
			if len(ms) > 1 {
				g.relevant[t] = true
				for _, m := range ms {
					g.storedAt[m.node] = append(g.storedAt[m.node], stored{t, m.val})
				}
			}
			for _, m := range ms {
				mark(m.val, d+1)
			}
			return
		}
		if t.op != "phi" && t.op != "ret" || d > 12 || g.relevant[t] {
			return
		}
		g.relevant[t] = true
		if t.op == "phi" {
			f := t.fr.nodes[t.v.(*ssa.Phi)]
			g.phisAt[f] = append(g.phisAt[f], t)
		} else {
			g.retsAt[t.node.callee] = append(g.retsAt[t.node.callee], t)
		}
		for _, a := range g.alts(t) {
			mark(a, d+1)
		}
	}
	mark(t, 0)
}

func (g *Graph) resolve(t *Term, e *env) *Term {
	for i := 0; i < 20; i++ {
		if c, ok := e.choice[t]; ok && c != t {
			t = c
			continue
		}
		if t.op == "load" {
			if ms := g.localVals(t); len(ms) == 1 && ms[0].val != t {
				t = ms[0].val
				continue
			}
		}
		break
	}
	return t
}

// subst rebuilds a condition with the choices of a path.
func (g *Graph) subst(t *Term, e *env, d int) *Term {
	t = g.resolve(t, e)
	if d > 8 {
		return t
	}
	switch t.op {
	case "bin", "un", "conv", "trunc":
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = g.subst(a, e, d+1)
			same = same && args[i] == a
		}
		if same {
			return t
		}
		return g.mk(&Term{op: t.op, s: t.s, args: args, typ: t.typ})
	}
	return t
}

const (
	unknown = iota
	yes
	no
)

func tri(b bool) int {
	if b {
		return yes
	}
	return no
}

func not(v int) int {
	switch v {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// eval decides a condition under the facts of a path.
func (g *Graph) eval(t *Term, e *env) int {
	if f, ok := e.facts[t]; ok {
		return tri(f)
	}
	switch t.op {
	case "const":
		if t.cv != nil && t.cv.Kind() == constant.Bool {
			return tri(constant.BoolVal(t.cv))
		}
	case "un":
		if t.s == "!" {
			return not(g.eval(t.args[0], e))
		}
	case "recvok":
		if g.isTimer(t.args[0]) { // never closed
			return tri(true)
		}
	case "bin":
		a, b := t.args[0], t.args[1]
		switch t.s {
		case "==", "!=":
			r := g.evalEq(a, b, e)
			if r == unknown {
				// the same comparison, tested with the other operator or operand order
				for _, alt := range [][2]*Term{{a, b}, {b, a}} {
					for _, op := range []string{"==", "!="} {
						k := g.mk(&Term{op: "bin", s: op, args: []*Term{alt[0], alt[1]}})
						if f, ok := e.facts[k]; ok {
							r = tri(f == (op == "=="))
						}
					}
				}
			}
			if r == unknown {
				for _, x := range [][2]*Term{{a, b}, {b, a}} {
					if isGlobal(g, x[1], "io.EOF") && (isNilConst(x[0]) || g.knownNil(x[0], e)) {
						r = no
					}
				}
			}
			if t.s == "!=" {
				r = not(r)
			}
			return r
		case "<", "<=", ">", ">=":
			if a.op == "const" && b.op == "const" && a.cv != nil && b.cv != nil && a.cv.Kind() == constant.Int && b.cv.Kind() == constant.Int {
				c, _ := constant.Int64Val(a.cv)
				d, _ := constant.Int64Val(b.cv)
				switch t.s {
				case "<":
					return tri(c < d)
				case "<=":
					return tri(c <= d)
				case ">":
					return tri(c > d)
				case ">=":
					return tri(c >= d)
				}
			}
		}
	}
	return unknown
}

// knownNil tells whether a value was compared with nil on a path, and is nil.
func (g *Graph) knownNil(x *Term, e *env) bool {
	for k, v := range e.facts {
		if k.op != "bin" || k.s != "==" && k.s != "!=" || v != (k.s == "==") {
			continue
		}
		if k.args[0] == x && isNilConst(k.args[1]) || k.args[1] == x && isNilConst(k.args[0]) {
			return true
		}
	}
	return false
}

func (g *Graph) evalEq(a, b *Term, e *env) int {
	if a.op == "const" && b.op == "const" {
		return tri(a.s == b.s)
	}
	if b.op == "const" {
		a, b = b, a
	}
	if isNilConst(a) {
		switch b.op {
		case "fresh", "closure", "func", "fieldaddr", "indexaddr":
			return no
		case "call":
			if b.s == "fmt.Errorf" || b.s == "errors.New" {
				return no
			}
		}
		// what was asserted to be a pointer
		if b.op != "const" && a.typ != nil && b.typ != nil && types.IsInterface(b.typ) && g.p.boxedSet(a.typ) {
			return no
		}
	}
	if a.op == "const" && a.cv != nil && a.cv.Kind() == constant.Bool {
		r := g.eval(b, e)
		if r == unknown {
			return r
		}
		if constant.BoolVal(a.cv) {
			return r
		}
		return not(r)
	}
	return unknown
}

// boxedSet tells whether no nil pointer of a type of the module ever gets into an interface.
func (p *Prog) boxedSet(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := pt.Elem().(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), Module) {
		return false
	}
	if p.boxed == nil {
		p.boxed = map[*types.TypeName]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					mi, ok := in.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					pt, ok := mi.X.Type().(*types.Pointer)
					if !ok {
						continue
					}
					if n, ok := pt.Elem().(*types.Named); ok {
						isNew := p.neverNil(mi.X, 0)
						o := n.Origin().Obj()
						if was, seen := p.boxed[o]; seen {
							isNew = isNew && was
						}
						p.boxed[o] = isNew
					}
				}
			}
		}
	}
	return p.boxed[nt.Origin().Obj()]
}

// neverNil tells whether a pointer is always one that was just made.
func (p *Prog) neverNil(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.neverNil(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || body(f) == nil || x.Call.Signature().Results().Len() != 1 {
			return false
		}
		for _, b := range body(f).Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !p.neverNil(r.Results[0], depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := x.Parent()
		at := -1
		for i, q := range f.Params {
			if q == x {
				at = i
			}
		}
		same := func(v ssa.Value) bool {
			g, ok := v.(*ssa.Function)
			if !ok {
				return false
			}
			return g == f || g.Origin() != nil && g.Origin() == f || f.Origin() != nil && (g == f.Origin() || g.Origin() == f.Origin())
		}
		calls := 0
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					callee := ssa.Value(nil)
					if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && ci.Common().StaticCallee() != nil && same(ci.Common().StaticCallee()) {
						callee = ci.Common().Value
						if at >= len(ci.Common().Args) || !p.neverNil(ci.Common().Args[at], depth+1) {
							return false
						}
						calls++
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && same(mc.Fn) {
						for _, r := range *mc.Referrers() {
							if ci, ok := r.(ssa.CallInstruction); !ok || ci.Common().Value != mc {
								if _, ok := r.(*ssa.DebugRef); !ok {
									return false
								}
							}
						}
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op != nil && *op != callee && same(*op) {
							return false
						}
					}
				}
			}
		}
		return calls > 0 && !(f.Object() != nil && f.Object().Exported())
	}
	return false
}

type searchOpt struct {
	avoid func(n *Node) bool        // nodes the path may not touch
	skip  func(from, to *Node) bool // edges the path may not take
	goal  func(n *Node) bool        // where the path ends
	start *env
	// the same with what is known on the path
	avoidE func(n *Node, e *env) bool
	goalE  func(n *Node, e *env) bool
	keep   func(*Term) bool // conditions worth remembering
}

const maxStates = 150000

// cond is the condition of a branch; while a path is searched, with the choices of that path.
func (g *Graph) cond(n *Node) *Term {
	t := g.term(n.fr, n.cond)
	if g.cur != nil {
		return g.subst(t, g.cur, 0)
	}
	return t
}

// says asks about a node of a path, first without and then with what the path decided before.
func (g *Graph) says(n *Node, e *env, ask func() bool) bool {
	old := g.cur
	defer func() { g.cur = old }()
	g.cur = nil
	if ask() {
		return true
	}
	if e == nil || len(e.choice) == 0 || n.kind != NBranch || n.maybe {
		return false
	}
	t := g.term(n.fr, n.cond)
	if g.subst(t, e, 0) == t {
		return false
	}
	g.cur = e
	return ask()
}

// find looks for a path that starts right after one of the nodes (or at it, for branch and entry nodes), reaches
// a goal and touches no avoided node. It returns the nodes of the path, nil when there is none.
func (g *Graph) find(starts []*Node, o searchOpt) []*Node {
	g.prepareSearch()
	old := g.cur
	defer func() { g.cur = old }()
	g.cur = nil
	p, ok := g.find1(starts, o, true, false)
	if !ok {
		p, ok = g.find1(starts, o, true, true)
	}
	if !ok {
		p, _ = g.find1(starts, o, false, false)
	}
	return p
}

// forget drops what a path knows and nothing after a node asks for. Knowing less only adds paths.
func (g *Graph) forget(e *env, n *Node) *env {
	if len(e.choice) == 0 && len(e.facts) == 0 {
		return e
	}
	g.prepareNeeds()
	live := g.needs[n]
	asked := func(t *Term) bool {
		for _, l := range g.asks(t) {
			if i, ok := g.needIdx[l]; ok && live[i/64]&(1<<(i%64)) != 0 {
				return true
			}
		}
		return false
	}
	ne := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
	for k, v := range e.choice {
		if _, ok := g.needIdx[k]; !ok || asked(k) {
			ne.choice[k] = v
		}
	}
	for k, v := range e.facts {
		if asked(k) {
			ne.facts[k] = v
		}
	}
	return ne
}

// asks are the values a condition compares.
func (g *Graph) asks(t *Term) []*Term {
	if l, ok := g.leafOf[t]; ok {
		return l
	}
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op == "const" {
			return
		}
		seen[t] = true
		out = append(out, t)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	g.leafOf[t] = out
	return out
}

// prepareNeeds finds for every node the values that conditions and returned errors behind it depend on.
func (g *Graph) prepareNeeds() {
	if g.needs != nil && g.needsFor == len(g.relevant) {
		return
	}
	g.needs, g.needIdx, g.leafOf, g.needsFor = map[*Node][]uint64{}, map[*Term]int{}, map[*Term][]*Term{}, len(g.relevant)
	use := map[*Node][]*Term{}
	add := func(n *Node, t *Term) {
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] || t.op == "const" {
				return
			}
			seen[t] = true
			if _, ok := g.needIdx[t]; !ok {
				g.needIdx[t] = len(g.needIdx)
			}
			for _, a := range t.args {
				rec(a)
			}
			switch t.op {
			case "phi", "ret":
				for _, a := range g.alts(t) {
					rec(a)
				}
			case "load":
				for _, m := range g.localVals(t) {
					rec(m.val)
				}
			}
		}
		rec(t)
		for t := range seen {
			if t.op != "const" {
				use[n] = append(use[n], t)
			}
		}
	}
	for _, n := range g.liveNodes {
		if n.kind == NBranch && !n.maybe {
			add(n, g.term(n.fr, n.cond))
		}
	}
	for _, r := range g.root.rets {
		for _, v := range r.in.(*ssa.Return).Results {
			add(r, g.term(g.root, v))
		}
	}
	w := (len(g.needIdx) + 63) / 64
	for _, n := range g.nodes {
		b := make([]uint64, w)
		for _, t := range use[n] {
			i := g.needIdx[t]
			b[i/64] |= 1 << (i % 64)
		}
		g.needs[n] = b
	}
	for changed := true; changed; {
		changed = false
		for i := len(g.nodes) - 1; i >= 0; i-- {
			b := g.needs[g.nodes[i]]
			for _, s := range g.nodes[i].succ {
				for j, x := range g.needs[s] {
					if b[j]|x != b[j] {
						b[j] |= x
						changed = true
					}
				}
			}
		}
	}
}

type sstate struct {
	n    *Node
	e    *env
	prev int
}

func (g *Graph) find1(starts []*Node, o searchOpt, track, forget bool) ([]*Node, bool) {
	seen := map[stateKey]bool{}
	var q []sstate
	push := func(from *Node, to *Node, e *env, prev int) {
		if o.skip != nil && from != nil && g.says(to, e, func() bool { return o.skip(from, to) }) {
			return
		}
		if track {
			// entering a loop again forgets what was known about its body
			if l := g.headers[to]; l != nil && from != nil && l.body[from] {
				if len(e.choice) > 0 || len(e.facts) > 0 {
					ne := &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
					for k, v := range e.choice {
						if !g.dependsOn(k, l) {
							ne.choice[k] = v
						}
					}
					for k, v := range e.facts {
						if !g.dependsOn(k, l) {
							ne.facts[k] = v
						}
					}
					e = ne
				}
			}
			if to.kind == NBranch && !to.maybe {
				c := g.subst(g.term(to.fr, to.cond), e, 0)
				v := g.eval(c, e)
				if v == tri(!to.pol) {
					return
				}
				if v == unknown {
					base := c
					pol := to.pol
					for base.op == "un" && base.s == "!" {
						base = base.args[0]
						pol = !pol
					}
					if stable(base) && (o.keep == nil || o.keep(base)) {
						e = e.clone()
						e.facts[g.mk(&Term{op: base.op, s: base.s, args: base.args, typ: base.typ, node: base.node, i: base.i, fr: base.fr, v: base.v})] = pol
					}
				}
			}
			if from != nil {
				// phis
				if to.kind == NInstr {
					var ts []*Term
					blk := to.in.Block()
					if blk != nil && to.fr.first[blk] == to {
						for _, in := range blk.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								if _, dbg := in.(*ssa.DebugRef); dbg {
									continue
								}
								break
							}
							if pn := to.fr.nodes[ph]; pn != nil {
								ts = append(ts, g.phisAt[pn]...)
							}
						}
					}
					if len(ts) > 0 {
						pb := predBlock(from)
						ne := e.clone()
						for _, t := range ts {
							delete(ne.choice, t)
							for i, p := range blk.Preds {
								if p == pb {
									a := g.resolve(g.term(t.fr, t.v.(*ssa.Phi).Edges[i]), e)
									a = g.subst(a, e, 0)
									ne.choice[t] = a
									break
								}
							}
						}
						e = ne
					}
				}
				if ss := g.storedAt[to]; len(ss) > 0 {
					ne := e.clone()
					for _, s := range ss {
						ne.choice[s.load] = g.subst(s.val, e, 0)
					}
					e = ne
				}
				if to.kind == NExit && from.kind == NInstr {
					if r, ok := from.in.(*ssa.Return); ok {
						if ts := g.retsAt[to.fr]; len(ts) > 0 {
							ne := e.clone()
							for _, t := range ts {
								delete(ne.choice, t)
								if t.i < len(r.Results) {
									ne.choice[t] = g.subst(g.term(to.fr, r.Results[t.i]), e, 0)
								}
							}
							e = ne
						}
					}
				}
			}
		}
		if forget {
			e = g.forget(e, to)
		}
		k := stateKey{to.id, e.key()}
		if seen[k] {
			return
		}
		seen[k] = true
		q = append(q, sstate{to, e, prev})
	}
	e0 := o.start
	if e0 == nil {
		e0 = &env{choice: map[*Term]*Term{}, facts: map[*Term]bool{}}
	}
	for _, s := range starts {
		e := e0
		if track && s.kind == NBranch && !s.maybe {
			base, pol := g.subst(g.term(s.fr, s.cond), e, 0), s.pol
			for base.op == "un" && base.s == "!" {
				base, pol = base.args[0], !pol
			}
			if stable(base) && (o.keep == nil || o.keep(base)) && g.eval(base, e) == unknown {
				e = e.clone()
				e.facts[g.mk(&Term{op: base.op, s: base.s, args: base.args, typ: base.typ, node: base.node, i: base.i, fr: base.fr, v: base.v})] = pol
			}
		}
		q = append(q, sstate{s, e, -1})
	}
	for i := 0; i < len(q); i++ {
		if len(q) > maxStates && track {
			return nil, false
		}
		st := q[i]
		if st.prev >= 0 {
			if o.avoid != nil && g.says(st.n, st.e, func() bool { return o.avoid(st.n) }) {
				continue
			}
			if o.avoidE != nil && g.says(st.n, st.e, func() bool { return o.avoidE(st.n, st.e) }) {
				continue
			}
			if (o.goal != nil && o.goal(st.n)) || (o.goalE != nil && o.goalE(st.n, st.e)) {
				var path []*Node
				for j := i; j >= 0; j = q[j].prev {
					path = append([]*Node{q[j].n}, path...)
				}
				return path, true
			}
		}
		for _, s := range st.n.succ {
			push(st.n, s, st.e, i)
		}
	}
	return nil, true
}

// stable conditions are worth remembering on a path.
func stable(t *Term) bool {
	switch t.op {
	case "const", "rangeok", "recvok", "selidx":
		return false
	}
	return true
}

// dependsOn tells whether a value is computed inside a loop.
func (g *Graph) dependsOn(t *Term, l *Loop) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.node != nil && l.body[t.node] {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func predBlock(n *Node) *ssa.BasicBlock {
	// from is the branch or jump node that ends the predecessor block, possibly followed by inlined code
	if n.in != nil {
		return n.in.Block()
	}
	return nil
}

// pathText describes a path by its branch decisions.
func (g *Graph) pathText(path []*Node) string {
	var out []string
	last := ""
	for _, n := range path {
		if n.kind == NBranch && !n.maybe {
			s := fmt.Sprintf("%s[%v]", g.p.Pos(n.pos()), n.pol)
			if s != last {
				out = append(out, s)
			}
			last = s
		}
	}
	if len(out) > 12 {
		out = append(append(out[:6:6], "..."), out[len(out)-5:]...)
	}
	if len(out) == 0 && len(path) > 0 {
		return "straight from " + g.where(path[0])
	}
	return strings.Join(out, " ")
}
