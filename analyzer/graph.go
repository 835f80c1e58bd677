package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The inlined event graph: the control-flow graph of one entry function with every call to a function of the
// module expanded in place (one frame per call path). Calls through interfaces are expanded when the receiver
// resolves to one concrete type, calls of function values when they resolve to one function. Goroutines are
// separate threads of the same graph.

type NodeKind int

const (
	NInstr NodeKind = iota
	NEntry
	NExit
	NBranch   // one outcome of an If
	NDeferred // a deferred call that runs
)

type Frame struct {
	g      *Graph
	fn     *ssa.Function // with blocks
	parent *Frame
	site   ssa.Instruction
	call   *ssa.CallCommon
	args   []argVal
	binds  []argVal // free variables
	entry  *Node
	exit   *Node
	rets   []*Node
	nodes  map[ssa.Instruction]*Node
	first  map[*ssa.BasicBlock]*Node
	thread *Thread
	depth  int
}

type argVal struct {
	fr *Frame
	v  ssa.Value
}

type Node struct {
	id     int
	kind   NodeKind
	fr     *Frame
	in     ssa.Instruction
	succ   []*Node
	pred   []*Node
	cond   ssa.Value // NBranch
	pol    bool
	maybe  bool   // NBranch of a deferred call that may not have been registered
	callee *Frame // inlined callee
}

type Thread struct {
	entry    *Node
	exit     *Node
	spawn    *Node // nil for the main thread
	fr       *Frame
	callback bool   // a function handed to external code
	of       string // the external function
}

type Graph struct {
	p         *Prog
	root      *Frame
	nodes     []*Node
	threads   []*Thread
	terms     map[termID]*Term
	storedAt  map[*Node][]stored
	needs     map[*Node][]uint64
	needIdx   map[*Term]int
	leafOf    map[*Term][]*Term
	needsFor  int
	cur       *env // choices of the path that is being searched
	intern    map[string]*Term
	valsMem   map[*Term][]*Term
	loops     []*Loop
	loopOf    map[*Node]*Loop // innermost
	idom      []*Node
	rpo       []*Node
	rpoIdx    map[*Node]int
	pubMem    map[*Term]string
	opaque    func(*ssa.Function) bool // functions that are not inlined
	extern    map[string]bool
	fail      []string
	built     bool
	live      map[*Node]bool
	alive     map[*Node]bool
	liveNodes []*Node
	wgs       map[string]*WaitGroup
	wgsFor    int
	typeIDs   []types.Type
	idomIdx   []int
	addrBusy  map[*Term]bool
	memBusy   map[[2]int]bool
	memMemo   map[[2]int][]memVal
	hits      int // truncated recursions so far
	storeIdx  map[*Term][]*Node
	contMemo  map[*Term]contRes
	missMemo  map[missKey]bool
	elemSt    []*Node
	reachMemo map[*Node]map[*Node]bool
	nameMem   map[nameKey]string
	nameBusy  map[nameKey]bool
	nameHits  int
	relevant  map[*Term]bool
	condUses  map[*Term]int
	phisAt    map[*Node][]*Term
	retsAt    map[*Frame][]*Term
	headers   map[*Node]*Loop
	effMemo   []Eff
	ownMemo   *owners
	lockMemo  *Locks
}

const maxNodes = 60000
const maxDepth = 24

func (p *Prog) NewGraph(fn *ssa.Function, opaque func(*ssa.Function) bool) *Graph {
	g := &Graph{p: p, terms: map[termID]*Term{}, intern: map[string]*Term{}, valsMem: map[*Term][]*Term{}, opaque: opaque,
		loopOf: map[*Node]*Loop{}, pubMem: map[*Term]string{}, extern: map[string]bool{}}
	b := body(fn)
	if b == nil {
		g.fail = append(g.fail, "no body for the entry function")
		return g
	}
	t := &Thread{}
	g.threads = append(g.threads, t)
	fr := &Frame{g: g, fn: b, thread: t}
	g.root = fr
	t.fr = fr
	g.build(fr)
	t.entry, t.exit = fr.entry, fr.exit
	g.analyse()
	return g
}

func (g *Graph) newNode(k NodeKind, fr *Frame, in ssa.Instruction) *Node {
	n := &Node{id: len(g.nodes), kind: k, fr: fr, in: in}
	g.nodes = append(g.nodes, n)
	return n
}

func link(a, b *Node) {
	a.succ = append(a.succ, b)
	b.pred = append(b.pred, a)
}

// stackHas tells whether fn is already being inlined on this path.
func (fr *Frame) stackHas(fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (g *Graph) build(fr *Frame) {
	fr.nodes = map[ssa.Instruction]*Node{}
	fr.first = map[*ssa.BasicBlock]*Node{}
	fr.entry = g.newNode(NEntry, fr, nil)
	fr.exit = g.newNode(NExit, fr, nil)
	if len(g.nodes) > maxNodes {
		g.fail = append(g.fail, "inlined graph too large")
		return
	}
	reach := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		order = append(order, b)
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	dfs(fr.fn.Blocks[0])
	for _, b := range fr.fn.Blocks {
		if !reach[b] {
			continue
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			fr.nodes[in] = g.newNode(NInstr, fr, in)
		}
		for _, in := range b.Instrs {
			if n := fr.nodes[in]; n != nil {
				fr.first[b] = n
				break
			}
		}
	}
	link(fr.entry, fr.first[fr.fn.Blocks[0]])
	for _, b := range order {
		var prev *Node
		dead := false
		for _, in := range b.Instrs {
			n := fr.nodes[in]
			if n == nil {
				continue
			}
			if prev != nil && !dead {
				link(prev, n)
			}
			prev = n
			switch in := in.(type) {
			case *ssa.Call:
				end, noret := g.expand(fr, n, in.Common())
				prev = end
				if noret {
					dead = true
				}
			case *ssa.Go:
				g.spawn(fr, n, in.Common())
			case *ssa.RunDefers:
				prev = g.runDefers(fr, n, reach)
			case *ssa.Return:
				link(n, fr.exit)
				fr.rets = append(fr.rets, n)
			case *ssa.Panic:
			case *ssa.Jump:
				link(n, fr.first[b.Succs[0]])
			case *ssa.If:
				for i, s := range b.Succs {
					br := g.newNode(NBranch, fr, in)
					br.cond, br.pol = in.Cond, i == 0
					link(n, br)
					link(br, fr.first[s])
				}
			}
			if dead {
				break
			}
		}
	}
}

// expand inlines a call. It returns the node after which control continues.
func (g *Graph) expand(fr *Frame, n *Node, c *ssa.CallCommon) (*Node, bool) {
	if isNoReturn(c) {
		return n, true
	}
	fn, args, binds := g.resolveCall(fr, c)
	if fn == nil {
		g.callbacks(fr, n, c)
		return n, false
	}
	cf := g.enter(fr, n.in, c, fn, args, binds, fr.thread)
	if cf == nil {
		return n, false
	}
	n.callee = cf
	link(n, cf.entry)
	return cf.exit, len(cf.exit.pred) == 0
}

func (g *Graph) enter(fr *Frame, site ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args, binds []argVal, th *Thread) *Frame {
	if fr.depth >= maxDepth || len(g.nodes) > maxNodes {
		g.fail = append(g.fail, "inlining bound reached at "+g.p.Pos(c.Pos()))
		return nil
	}
	if fr.stackHas(fn) {
		return nil
	}
	cf := &Frame{g: g, fn: fn, parent: fr, site: site, call: c, args: args, binds: binds, thread: th, depth: fr.depth + 1}
	g.build(cf)
	return cf
}

// callbacks makes a thread of each function of the module that is handed to an external function.
func (g *Graph) callbacks(fr *Frame, n *Node, c *ssa.CallCommon) {
	var vs []ssa.Value
	for _, a := range c.Args {
		if al := varargArray(a); al != nil {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
							vs = append(vs, st.Val)
						}
					}
				}
			}
		}
		vs = append(vs, a)
	}
	for _, a := range vs {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		t := g.single(g.term(fr, a))
		if t == nil || (t.op != "func" && t.op != "closure") {
			continue
		}
		b := body(t.fn)
		if b == nil || !g.inlinable(b) {
			continue
		}
		var binds []argVal
		if t.mc != nil {
			for _, v := range t.mc.Bindings {
				binds = append(binds, argVal{t.fr, v})
			}
		}
		th := &Thread{spawn: n, callback: true, of: calleeName(c)}
		cf := g.enter(fr, n.in, c, b, nil, binds, th)
		if cf == nil {
			continue
		}
		th.fr, th.entry, th.exit = cf, cf.entry, cf.exit
		g.threads = append(g.threads, th)
	}
}

func varargArray(v ssa.Value) *ssa.Alloc {
	if s, ok := v.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
			return al
		}
	}
	return nil
}

func (g *Graph) spawn(fr *Frame, n *Node, c *ssa.CallCommon) {
	fn, args, binds := g.resolveCall(fr, c)
	if fn == nil {
		return
	}
	th := &Thread{spawn: n}
	cf := g.enter(fr, n.in, c, fn, args, binds, th)
	if cf == nil {
		return
	}
	th.fr, th.entry, th.exit = cf, cf.entry, cf.exit
	g.threads = append(g.threads, th)
	n.callee = cf
}

func (g *Graph) runDefers(fr *Frame, n *Node, reach map[*ssa.BasicBlock]bool) *Node {
	var defs []*ssa.Defer
	for _, b := range fr.fn.Blocks {
		if !reach[b] {
			continue
		}
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				defs = append(defs, d)
			}
		}
	}
	cur := n
	for i := len(defs) - 1; i >= 0; i-- {
		d := defs[i]
		if !blockReaches(d.Block(), n.in.Block()) {
			continue
		}
		must := d.Block().Dominates(n.in.Block())
		dn := g.newNode(NDeferred, fr, d)
		var skip *Node
		if !must {
			br := g.newNode(NBranch, fr, d)
			br.maybe, br.pol = true, true
			skip = g.newNode(NBranch, fr, d)
			skip.maybe = true
			link(cur, br)
			link(cur, skip)
			link(br, dn)
		} else {
			link(cur, dn)
		}
		end, _ := g.expand(fr, dn, d.Common())
		cur = end
		if skip != nil {
			j := g.newNode(NInstr, fr, n.in)
			link(end, j)
			link(skip, j)
			cur = j
		}
	}
	return cur
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// resolveCall finds the module function a call runs, with its actual arguments.
func (g *Graph) resolveCall(fr *Frame, c *ssa.CallCommon) (*ssa.Function, []argVal, []argVal) {
	mk := func(vs []ssa.Value) []argVal {
		var out []argVal
		for _, v := range vs {
			out = append(out, argVal{fr, v})
		}
		return out
	}
	if c.IsInvoke() {
		t := g.single(g.term(fr, c.Value))
		if t == nil || t.typ == nil || types.IsInterface(t.typ) {
			return nil, nil, nil
		}
		fn := g.p.SSA.LookupMethod(t.typ, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			return nil, nil, nil
		}
		// value receivers reached through a pointer get a synthetic wrapper; use the declared method
		if fn.Synthetic != "" {
			if o, ok := fn.Object().(*types.Func); ok {
				if d := g.p.SSA.FuncValue(o); d != nil {
					fn = d
				}
			}
		}
		b := body(fn)
		if b == nil || !g.inlinable(b) {
			return nil, nil, nil
		}
		args := append([]argVal{{fr, c.Value}}, mk(c.Args)...)
		return b, args, nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, nil, nil
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		b := body(mc.Fn.(*ssa.Function))
		if b == nil || !g.inlinable(b) {
			return nil, nil, nil
		}
		return b, mk(c.Args), mk(mc.Bindings)
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		b := body(f)
		if b == nil || !g.inlinable(b) {
			return nil, nil, nil
		}
		return b, mk(c.Args), nil
	}
	t := g.single(g.term(fr, c.Value))
	if t == nil {
		return nil, nil, nil
	}
	switch t.op {
	case "func":
		b := body(t.fn)
		if b == nil || !g.inlinable(b) {
			return nil, nil, nil
		}
		return b, mk(c.Args), nil
	case "closure":
		b := body(t.fn)
		if b == nil || !g.inlinable(b) {
			return nil, nil, nil
		}
		var binds []argVal
		for _, v := range t.mc.Bindings {
			binds = append(binds, argVal{t.fr, v})
		}
		return b, mk(c.Args), binds
	}
	return nil, nil, nil
}

func (g *Graph) inlinable(f *ssa.Function) bool {
	if modelName(f) != "" {
		return false
	}
	if g.opaque != nil && g.opaque(f) {
		return false
	}
	if g.p.InModule(f) {
		return true
	}
	if funcPkgPath(f) == "maps" && (strings.HasPrefix(f.Name(), "Copy")) {
		return true
	}
	if strings.HasPrefix(f.Synthetic, "bound method wrapper") {
		return true
	}
	// thunks of module methods
	if f.Synthetic != "" && f.Object() != nil && f.Object().Pkg() != nil && strings.HasPrefix(f.Object().Pkg().Path(), Module) {
		return true
	}
	return false
}

func isNoReturn(c *ssa.CallCommon) bool {
	switch calleeName(c) {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "syscall.Exit":
		return true
	}
	return false
}

// calleeName is the fully qualified name of the called function, independent of type arguments.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + f.Name()
	case *ssa.Function:
		return funcName(f)
	case *ssa.MakeClosure:
		return funcName(f.Fn.(*ssa.Function))
	}
	return ""
}

func funcName(f *ssa.Function) string {
	if s := modelName(f); s != "" {
		return s
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if o, ok := f.Object().(*types.Func); ok {
		return o.Origin().FullName()
	}
	return f.String()
}

// common returns the call a node performs: an external or unresolved call, or a deferred one.
func (n *Node) common() *ssa.CallCommon {
	if n.callee != nil {
		return nil
	}
	switch n.kind {
	case NInstr:
		switch in := n.in.(type) {
		case *ssa.Call:
			return in.Common()
		case *ssa.Go:
			return in.Common()
		}
	case NDeferred:
		return n.in.(*ssa.Defer).Common()
	}
	return nil
}

// callName is the qualified callee of a call that was not inlined, "" otherwise.
func (n *Node) callName() string {
	c := n.common()
	if c == nil {
		return ""
	}
	if _, ok := n.in.(*ssa.Go); ok {
		return "go:" + calleeName(c) // at some time
	}
	return calleeName(c)
}

func (n *Node) pos() token.Pos {
	if n.in != nil {
		if p := n.in.Pos(); p.IsValid() {
			return p
		}
		if v, ok := n.in.(*ssa.If); ok {
			if p := v.Cond.Pos(); p.IsValid() {
				return p
			}
		}
		// nearest position in the block
		if b := n.in.Block(); b != nil {
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					return i.Pos()
				}
			}
		}
	}
	if n.fr != nil {
		return n.fr.fn.Pos()
	}
	return token.NoPos
}

// where describes a node for a report: file:line in the function, and the call path when inlined.
func (g *Graph) where(n *Node) string {
	s := fmt.Sprintf("%s (%s)", g.p.Pos(n.pos()), fnLabel(n.fr.fn))
	var via []string
	for f := n.fr; f.parent != nil; f = f.parent {
		via = append([]string{fnLabel(f.parent.fn)}, via...)
	}
	if len(via) > 0 {
		s += " via " + strings.Join(via, " > ")
	}
	return s
}

func fnLabel(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, Module+"/", "")
	s = strings.ReplaceAll(s, Module, "main")
	return s
}

// inThread lists the nodes reachable from the entry of a thread.
func (g *Graph) threadNodes(t *Thread) map[*Node]bool {
	seen := map[*Node]bool{}
	if t.entry == nil {
		return seen
	}
	st := []*Node{t.entry}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		st = append(st, n.succ...)
	}
	return seen
}
