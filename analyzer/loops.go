package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop of the inlined graph with the container it walks, when it walks one.
type Loop struct {
	id     int
	header *Node
	body   map[*Node]bool
	backs  []*Node
	parent *Loop
	kind   string // map, slice, count, chan, string, other
	dom    *Term  // container (map, slice, channel)
	key    *Term  // map key or element index
	val    *Term  // map value (may be nil)
	bound  *Term  // count: number of iterations
	enter  *Node  // branch into the body
	done   *Node  // branch taken when the container is exhausted
	desc   bool
}

func (g *Graph) analyse() {
	// drop what was computed on the incomplete graph
	g.terms = map[termID]*Term{}
	g.valsMem = map[*Term][]*Term{}
	g.memMemo, g.memBusy, g.addrBusy = nil, nil, nil
	g.contMemo, g.elemSt, g.storeIdx, g.reachMemo = nil, nil, nil, nil
	g.built = true
	g.live = map[*Node]bool{}
	for _, t := range g.threads {
		for n := range g.threadNodes(t) {
			g.live[n] = true
		}
	}
	g.dominators()
	g.findLoops()
	for _, n := range g.nodes {
		if g.live[n] {
			g.liveNodes = append(g.liveNodes, n)
		}
	}
}

func (g *Graph) dominators() {
	extra := map[*Node][]*Node{}
	extraPred := map[*Node][]*Node{}
	for _, t := range g.threads {
		if t.spawn != nil && t.entry != nil {
			extra[t.spawn] = append(extra[t.spawn], t.entry)
			extraPred[t.entry] = append(extraPred[t.entry], t.spawn)
		}
	}
	seen := map[*Node]bool{}
	var post []*Node
	type fr struct {
		n *Node
		i int
	}
	if g.root == nil || g.root.entry == nil {
		return
	}
	st := []fr{{g.root.entry, 0}}
	seen[g.root.entry] = true
	for len(st) > 0 {
		f := &st[len(st)-1]
		ss := f.n.succ
		if e := extra[f.n]; e != nil {
			ss = append(append([]*Node{}, ss...), e...)
		}
		if f.i < len(ss) {
			s := ss[f.i]
			f.i++
			if !seen[s] {
				seen[s] = true
				st = append(st, fr{s, 0})
			}
			continue
		}
		post = append(post, f.n)
		st = st[:len(st)-1]
	}
	g.rpoIdx = map[*Node]int{}
	for i := len(post) - 1; i >= 0; i-- {
		g.rpoIdx[post[i]] = len(g.rpo)
		g.rpo = append(g.rpo, post[i])
	}
	idom := make([]int, len(g.rpo))
	for i := range idom {
		idom[i] = -1
	}
	idom[0] = 0
	for changed := true; changed; {
		changed = false
		for i := 1; i < len(g.rpo); i++ {
			n := g.rpo[i]
			nd := -1
			ps := n.pred
			if e := extraPred[n]; e != nil {
				ps = append(append([]*Node{}, ps...), e...)
			}
			for _, p := range ps {
				j, ok := g.rpoIdx[p]
				if !ok || idom[j] < 0 {
					continue
				}
				if nd < 0 {
					nd = j
					continue
				}
				a, b := j, nd
				for a != b {
					for a > b {
						a = idom[a]
					}
					for b > a {
						b = idom[b]
					}
				}
				nd = a
			}
			if nd >= 0 && idom[i] != nd {
				idom[i] = nd
				changed = true
			}
		}
	}
	g.idomIdx = idom
}

// dominates tells whether every path to b (thread starts included) goes through a.
func (g *Graph) dominates(a, b *Node) bool {
	i, ok := g.rpoIdx[b]
	if !ok {
		return false
	}
	j, ok := g.rpoIdx[a]
	if !ok {
		return false
	}
	for i > j {
		i = g.idomIdx[i]
	}
	return i == j
}

// domChain lists the dominators of n, nearest first.
func (g *Graph) domChain(n *Node) []*Node {
	var out []*Node
	i, ok := g.rpoIdx[n]
	if !ok {
		return nil
	}
	for i != 0 {
		i = g.idomIdx[i]
		out = append(out, g.rpo[i])
	}
	return out
}

// guards are the branch outcomes that hold whenever n runs.
func (g *Graph) guards(n *Node) []*Node {
	var out []*Node
	for _, d := range append([]*Node{n}, g.domChain(n)...) {
		if d.kind == NBranch && !d.maybe {
			out = append(out, d)
		}
	}
	return out
}

func (g *Graph) findLoops() {
	byHeader := map[*Node]*Loop{}
	for _, n := range g.rpo {
		for _, s := range n.succ {
			if !g.dominates(s, n) {
				continue
			}
			l := byHeader[s]
			if l == nil {
				l = &Loop{id: len(g.loops), header: s, body: map[*Node]bool{s: true}, kind: "other"}
				byHeader[s] = l
				g.loops = append(g.loops, l)
			}
			l.backs = append(l.backs, n)
			st := []*Node{n}
			for len(st) > 0 {
				m := st[len(st)-1]
				st = st[:len(st)-1]
				if l.body[m] {
					continue
				}
				l.body[m] = true
				st = append(st, m.pred...)
			}
		}
	}
	sort.SliceStable(g.loops, func(i, j int) bool { return len(g.loops[i].body) < len(g.loops[j].body) })
	for i, l := range g.loops {
		l.id = i
		for _, o := range g.loops[i+1:] {
			if o.body[l.header] && o != l {
				l.parent = o
				break
			}
		}
		for n := range l.body {
			if g.loopOf[n] == nil {
				g.loopOf[n] = l
			}
		}
	}
	for _, l := range g.loops {
		g.classify(l)
	}
}

// loopsAround lists the loops around n, innermost first, those around the go statement of its goroutine included.
func (g *Graph) loopsAround(n *Node) []*Loop {
	var out []*Loop
	for n != nil {
		for l := g.loopOf[n]; l != nil; l = l.parent {
			out = append(out, l)
		}
		th := n.fr.thread
		if th == nil {
			break
		}
		n = th.spawn
	}
	return out
}

func (g *Graph) classify(l *Loop) {
	fr := l.header.fr
	var blk *ssa.BasicBlock
	if l.header.in != nil {
		blk = l.header.in.Block()
	}
	if blk == nil {
		return
	}
	// the first If reached from the header without leaving straight-line code
	cur := l.header
	for i := 0; i < 4000; i++ {
		if _, ok := cur.in.(*ssa.If); ok && cur.kind == NInstr {
			break
		}
		if len(cur.succ) != 1 {
			return
		}
		cur = cur.succ[0]
		if cur == l.header || !l.body[cur] {
			return
		}
	}
	iff, ok := cur.in.(*ssa.If)
	if !ok || len(cur.succ) != 2 {
		return
	}
	var in, out *Node
	for _, s := range cur.succ {
		if l.body[s] {
			in = s
		} else {
			out = s
		}
	}
	if in == nil || out == nil {
		return
	}
	cond := g.term(cur.fr, iff.Cond)
	pol := in.pol
	set := func(kind string, dom *Term) {
		l.kind, l.dom, l.enter, l.done = kind, dom, in, out
	}
	switch cond.op {
	case "rangeok":
		if !pol {
			return
		}
		kind := "map"
		if b, ok := cond.args[0].typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			kind = "string"
		}
		set(kind, cond.args[0])
		l.key = g.mk(&Term{op: "rangekey", node: cond.node, args: cond.args, fr: fr})
		l.val = g.mk(&Term{op: "rangeval", node: cond.node, args: cond.args, fr: fr})
		return
	case "recvok":
		if !pol {
			return
		}
		set("chan", cond.args[0])
		l.val = g.mk(&Term{op: "recv", node: cond.node, args: cond.args, fr: fr})
		return
	case "bin":
		g.classifyIndex(l, cond, pol, set)
	}
}

func (g *Graph) classifyIndex(l *Loop, cond *Term, pol bool, set func(string, *Term)) {
	op := cond.s
	x, y := cond.args[0], cond.args[1]
	neg := map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
	swap := map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
	if !pol {
		op = neg[op]
	}
	try := func(v, b *Term, op string) bool {
		// v is the induction variable or its increment
		ph := v
		off := int64(0)
		if v.op == "bin" && (v.s == "+" || v.s == "-") {
			if c, ok := constInt(v.args[1]); ok && v.args[0].op == "phi" {
				ph = v.args[0]
				off = c
				if v.s == "-" {
					off = -c
				}
			}
		}
		if ph.op != "phi" || ph.fr != l.header.fr || ph.v.(*ssa.Phi).Block() != l.header.in.Block() {
			return false
		}
		var init *Term
		step := int64(0)
		p := ph.v.(*ssa.Phi)
		for i, e := range p.Edges {
			t := g.term(ph.fr, e)
			pn := ph.fr.first[p.Block().Preds[i]]
			if pn == nil {
				continue
			}
			last := g.lastOf(ph.fr, p.Block().Preds[i])
			if last != nil && l.body[last] {
				if t.op == "bin" && t.args[0] == ph {
					if c, ok := constInt(t.args[1]); ok {
						s := c
						if t.s == "-" {
							s = -c
						} else if t.s != "+" {
							return false
						}
						if step != 0 && step != s {
							return false
						}
						step = s
						continue
					}
				}
				return false
			}
			if init != nil && init != t {
				return false
			}
			init = t
		}
		if init == nil || step == 0 {
			return false
		}
		if step == 1 {
			c, ok := constInt(init)
			if !ok || c+off != 0 {
				return false
			}
			if op == "<=" && b.op == "bin" && b.s == "-" {
				// i <= n-1
				if c, ok := constInt(b.args[1]); ok && c == 1 {
					b, op = b.args[0], "<"
				}
			}
			if op != "<" && op != "!=" {
				return false
			}
			if b.op == "len" {
				set("slice", b.args[0])
			} else {
				set("count", nil)
			}
			l.bound = b
			l.key = v
			return true
		}
		if step == -1 {
			// i := len(x)-1; i >= 0; i--
			c, ok := constInt(b)
			if !ok || off != 0 {
				return false
			}
			if op == ">" && c == 0 || op == "!=" && c == 0 || op == ">=" && c == 1 {
				// i := len(x); i > 0; i-- with the index i-1
				if init.op == "len" {
					set("slice", init.args[0])
				} else {
					set("count", nil)
				}
				l.bound = init
				l.key = g.mk(&Term{op: "bin", s: "-", args: []*Term{v, g.intConst(1)}, typ: types.Typ[types.Int]})
				l.desc = true
				return true
			}
			if !(op == ">=" && c == 0 || op == ">" && c == -1 || op == "!=" && c == -1) {
				return false
			}
			if init.op == "bin" && init.s == "-" {
				if c, ok := constInt(init.args[1]); ok && c == 1 {
					if init.args[0].op == "len" {
						set("slice", init.args[0].args[0])
					} else {
						set("count", nil)
					}
					l.bound = init.args[0]
					l.key = v
					l.desc = true
					return true
				}
			}
		}
		return false
	}
	if try(x, y, op) {
		return
	}
	try(y, x, swap[op])
}

func (g *Graph) lastOf(fr *Frame, b *ssa.BasicBlock) *Node {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if n := fr.nodes[b.Instrs[i]]; n != nil {
			return n
		}
	}
	return nil
}

func constInt(t *Term) (int64, bool) {
	if t != nil && t.op == "const" && t.cv != nil {
		var n int64
		if _, err := fmt.Sscan(t.cv.ExactString(), &n); err == nil && t.cv.ExactString() == fmt.Sprint(n) {
			return n, true
		}
	}
	return 0, false
}

// exits are the edges that leave the loop other than by exhausting its container.
func (g *Graph) exits(l *Loop) []*Node {
	var out []*Node
	for n := range l.body {
		for _, s := range n.succ {
			if !l.body[s] && s != l.done {
				out = append(out, s)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// ---- canonical names ----------------------------------------------------------------------------------------

// K names a value independently of how it is computed: registers, locals, parameters of inlined helpers and
// memory with one reaching store disappear. "$0" is the receiver, "$0.f[k]" an element of a map it owns.
func (g *Graph) K(t *Term) string { return g.name(t, false) }

// P is K where a container made here and stored into a longer-lived one is named by where it is stored.
func (g *Graph) P(t *Term) string { return g.name(t, true) }

type nameKey struct {
	t   *Term
	pub bool
}

func (g *Graph) name(t *Term, pub bool) string {
	if t == nil {
		return "nothing"
	}
	k := nameKey{t, pub}
	if s, ok := g.nameMem[k]; ok {
		return s
	}
	if g.nameMem == nil {
		g.nameMem = map[nameKey]string{}
		g.nameBusy = map[nameKey]bool{}
	}
	if g.nameBusy[k] {
		g.nameHits++
		return "~"
	}
	g.nameBusy[k] = true
	h := g.nameHits
	s := g.name1(t, pub)
	delete(g.nameBusy, k)
	if h == g.nameHits || len(g.nameBusy) == 0 {
		g.nameMem[k] = s
	}
	return s
}

func (g *Graph) nid(n *Node) string {
	if n == nil {
		return "?"
	}
	return fmt.Sprint(n.id)
}

func (g *Graph) names(ts []*Term, pub bool) string {
	var out []string
	for _, a := range ts {
		out = append(out, g.name(a, pub))
	}
	return strings.Join(out, ",")
}

// loc names a location.
func (g *Graph) loc(a *Term, pub bool) string {
	switch a.op {
	case "fieldaddr":
		return g.deref(a.args[0], pub) + "." + a.s
	case "indexaddr":
		return g.deref(a.args[0], pub) + "[" + g.name(a.args[1], pub) + "]"
	case "global":
		return "glob:" + strings.TrimPrefix(a.s, Module)
	}
	return g.deref(a, pub)
}

// deref names what a pointer points to. Pointers and what they point to share a name, except addresses of fields.
func (g *Graph) deref(p *Term, pub bool) string {
	switch p.op {
	case "fieldaddr", "indexaddr", "global":
		return g.loc(p, pub)
	}
	s := g.name(p, pub)
	return strings.TrimPrefix(s, "&")
}

func (g *Graph) name1(t *Term, pub bool) string {
	switch t.op {
	case "const":
		return t.s
	case "param":
		return "$" + t.s
	case "cbparam":
		return "cb" + t.s
	case "freevar":
		return "fv:" + t.s
	case "global":
		return "&glob:" + strings.TrimPrefix(t.s, Module)
	case "func", "closure":
		return "func:" + fnLabel(t.fn)
	case "none":
		return ""
	case "fieldaddr", "indexaddr":
		return "&" + g.loc(t, pub)
	case "init":
		s := g.loc(t.args[0], pub)
		if t.node != nil {
			s += "~" + g.nid(t.node)
		}
		return s
	case "snapshot":
		return g.loc(t.args[0], pub)
	case "fresh":
		if pub {
			if p := g.publication(t); p != "" {
				return p
			}
		}
		return "new" + g.nid(t.node)
	case "field":
		if g.alts(t) == nil {
			return g.name(t.args[0], pub) + "." + t.s
		}
	case "lookup":
		return g.deref(t.args[0], pub) + "[" + g.name(t.args[1], pub) + "]"
	case "lookupok":
		return "has(" + g.deref(t.args[0], pub) + "[" + g.name(t.args[1], pub) + "])"
	case "rangekey":
		return "key" + g.nid(t.node)
	case "rangeval":
		return g.deref(t.args[0], pub) + "[key" + g.nid(t.node) + "]"
	case "rangeok":
		return "more" + g.nid(t.node)
	case "recv":
		return "recv(" + g.name(t.args[0], pub) + ")@" + g.nid(t.node)
	case "recvok":
		return "recvok(" + g.name(t.args[0], pub) + ")@" + g.nid(t.node)
	case "len", "cap":
		return t.op + "(" + g.name(t.args[0], pub) + ")"
	case "un":
		return t.s + g.name(t.args[0], pub)
	case "conv":
		return t.s + "(" + g.name(t.args[0], pub) + ")"
	case "bin":
		a, b := g.name(t.args[0], pub), g.name(t.args[1], pub)
		op := t.s
		switch op {
		case ">":
			a, b, op = b, a, "<"
		case ">=":
			a, b, op = b, a, "<="
		case "==", "!=", "+", "*", "&", "|", "&&", "||":
			if a > b {
				if op != "+" || !isStringType(t.typ) {
					a, b = b, a
				}
			}
		}
		return "(" + a + op + b + ")"
	case "call":
		if pub && isAtomicLoad(t.s) && len(t.args) > 0 {
			return g.deref(t.args[0], pub)
		}
		s := t.s + "(" + g.names(t.args, pub) + ")"
		if t.s == "path/filepath.Join" || t.s == "path.Join" {
			if segs := g.pathSegs(t); segs != nil {
				s = "path(" + strings.Join(segs, "/") + ")"
			}
		}
		if t.node != nil {
			s += "@" + g.nid(t.node)
		}
		return s
	case "res":
		return g.name(t.args[0], pub) + "#" + fmt.Sprint(t.i)
	case "slice":
		return g.name(t.args[0], pub) + "[" + g.names(t.args[1:], pub) + "]slice"
	case "index":
		return g.name(t.args[0], pub) + "[" + g.name(t.args[1], pub) + "]"
	case "append":
		return "append" + g.nid(t.node)
	case "out":
		return fmt.Sprintf("out(%s)@%s", g.loc(t.args[0], pub), g.nid(t.node))
	}
	if t.op == "load" {
		if ia := innerIndex(t.args[0]); ia != nil && ia.args[1].op != "const" {
			return g.loc(t.args[0], pub)
		}
	}
	if t.op == "field" {
		x := t.args[0]
		for x.op == "field" {
			x = x.args[0]
		}
		if x.op == "load" {
			if ia := innerIndex(x.args[0]); ia != nil && ia.args[1].op != "const" {
				return g.name(t.args[0], pub) + "." + t.s
			}
		}
	}
	if as := g.alts(t); as != nil {
		set := map[string]bool{}
		vs := g.vals(t)
		for _, v := range vs {
			set[g.name(v, pub)] = true
		}
		if len(set) > 1 && pub {
			delete(set, "nil")
		}
		// a load through a cycle
		if _, basic := t.typ.Underlying().(*types.Basic); len(set) > 1 && !basic {
			delete(set, "~")
		}
		if len(set) == 1 {
			for s := range set {
				return s
			}
		}
		switch t.op {
		case "ret":
			return "ret" + g.nid(t.node) + "#" + fmt.Sprint(t.i)
		case "field":
			return g.name(t.args[0], pub) + "." + t.s
		}
		return t.op + g.nid(t.node)
	}
	s := t.op
	if t.s != "" {
		s += ":" + t.s
	}
	if len(t.args) > 0 {
		s += "(" + g.names(t.args, pub) + ")"
	}
	if t.node != nil {
		s += "@" + g.nid(t.node)
	}
	if t.i != 0 {
		s += "#" + fmt.Sprint(t.i)
	}
	return s
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// pathSegs flattens filepath.Join calls.
func (g *Graph) pathSegs(t *Term) []string {
	ts := g.pathTerms(t)
	if ts == nil {
		return nil
	}
	var out []string
	for _, s := range ts {
		out = append(out, g.K(s))
	}
	return out
}

func (g *Graph) pathTerms(t *Term) []*Term {
	if s := g.single(t); s != nil {
		t = s
	}
	if t.op == "call" && (t.s == "path/filepath.Join" || t.s == "path.Join") {
		va, ok := g.varargs(t.args[0])
		if !ok {
			return nil
		}
		var out []*Term
		for _, a := range va {
			sub := g.pathTerms(a)
			if sub == nil {
				return nil
			}
			if len(sub) == 1 && len(out) > 0 {
				if s, ok := constString(g.single0(sub[0])); ok && s == "" {
					continue // Join leaves it out
				}
			}
			out = append(out, sub...)
		}
		return out
	}
	if t.op == "call" && t.s == "path/filepath.Clean" {
		return g.pathTerms(t.args[0])
	}
	if t.op == "bin" && t.s == "+" && isStringType(t.typ) {
		if out := g.concatSegs(g.concat(t)); out != nil {
			return out
		}
	}
	return []*Term{t}
}

// concatSegs divides texts that are put after each other (dir + "/" + name, path + ".tmp") into the parts of a path. It
// gives nil when they are one part.
func (g *Graph) concatSegs(parts []*Term) []*Term {
	var out []*Term
	var seg []*Term // the part at work
	end := func() {
		if len(seg) > 0 {
			out = append(out, g.concatTerm(seg))
			seg = nil
		}
	}
	for i, p := range parts {
		if s, ok := constString(g.single0(p)); ok {
			if s == "" {
				continue
			}
			if i == 0 && s[0] == '/' {
				return nil
			}
			for j, x := range strings.Split(s, "/") {
				if j > 0 {
					end()
				}
				if x != "" {
					if x == s {
						seg = append(seg, p)
					} else {
						seg = append(seg, g.mk(&Term{op: "const", s: strconv.Quote(x), cv: constant.MakeString(x), typ: types.Typ[types.String]}))
					}
				}
			}
			continue
		}
		if len(seg) == 0 {
			sub := g.pathTerms(p)
			if sub == nil {
				return nil
			}
			out = append(out, sub[:len(sub)-1]...)
			seg = append(seg, sub[len(sub)-1])
			continue
		}
		seg = append(seg, p)
	}
	end()
	if len(out) < 2 {
		return nil
	}
	return out
}

func (g *Graph) concat(t *Term) []*Term {
	if s := g.single(t); s != nil {
		t = s
	}
	if t.op == "bin" && t.s == "+" && isStringType(t.typ) {
		return append(g.concat(t.args[0]), g.concat(t.args[1])...)
	}
	return []*Term{t}
}

func (g *Graph) concatTerm(ts []*Term) *Term {
	t := ts[0]
	for _, x := range ts[1:] {
		t = g.mk(&Term{op: "bin", s: "+", args: []*Term{t, x}, typ: types.Typ[types.String]})
	}
	return t
}

// Pub is a place where a container made by the analysed code is stored into a longer-lived one.
type Pub struct {
	node *Node
	path string // name of the slot
}

// publications lists where the object made by a fresh term is stored.
func (g *Graph) publications(f *Term) []Pub {
	var out []Pub
	has := func(v *Term) bool {
		for _, x := range g.vals(v) {
			if x == f {
				return true
			}
		}
		return false
	}
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.MapUpdate:
			if !refLike(in.Value.Type()) {
				continue
			}
			if v := g.term(n.fr, in.Value); has(v) {
				out = append(out, Pub{n, g.deref(g.term(n.fr, in.Map), true) + "[" + g.name(g.term(n.fr, in.Key), true) + "]"})
			} else if g.holds(v, f) {
				// a struct value that holds it
				out = append(out, Pub{n, g.deref(g.term(n.fr, in.Map), true) + "[" + g.name(g.term(n.fr, in.Key), true) + "]." + g.fieldHolding(v, f)})
			}
		case *ssa.Store:
			if !refLike(in.Val.Type()) {
				continue
			}
			a := g.term(n.fr, in.Addr)
			if !has(g.term(n.fr, in.Val)) {
				continue
			}
			if a.op == "fresh" {
				// a local variable; its address may be published
				if a == f {
					continue
				}
				if p := g.publication(a); p != "" {
					out = append(out, Pub{n, p})
				}
				continue
			}
			b := addrBase(g.canonAddr(a))
			if b == f {
				continue
			}
			out = append(out, Pub{n, g.loc(a, true)})
		}
	}
	return out
}

func (g *Graph) holds(v, f *Term) bool { return g.fieldHolding(v, f) != "" }

// fieldHolding names the field of a struct value that holds f.
func (g *Graph) fieldHolding(v, f *Term) string {
	st, ok := derefType(v.typ).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	if _, isPtr := v.typ.Underlying().(*types.Pointer); isPtr {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if !refLike(st.Field(i).Type()) {
			continue
		}
		ft := g.fieldOf(v, st.Field(i).Name(), i, st.Field(i).Type())
		for _, x := range g.vals(ft) {
			if x == f {
				return st.Field(i).Name()
			}
		}
	}
	return ""
}

func refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Pointer, *types.Slice, *types.Chan, *types.Interface, *types.Struct:
		return true
	}
	return false
}

// publication is the one name under which the object of a fresh term is stored, "" when there is none.
func (g *Graph) publication(f *Term) string {
	if s, ok := g.pubMem[f]; ok {
		return s
	}
	g.pubMem[f] = ""
	set := map[string]bool{}
	for _, p := range g.publications(f) {
		if strings.HasPrefix(p.path, "new") || strings.HasPrefix(p.path, "~") {
			continue
		}
		set[p.path] = true
	}
	s := ""
	if len(set) >= 1 {
		s = sortedKeys(set)[0]
	}
	g.pubMem[f] = s
	return s
}

// isNilConst tells whether a term is the nil constant.
func isNilConst(t *Term) bool { return t.op == "const" && t.s == "nil" }

var _ = token.ADD

func isAtomicLoad(name string) bool {
	return strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ".Load")
}

func isAtomicStore(name string) bool {
	return strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ".Store")
}
