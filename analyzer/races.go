package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races between the goroutines an operation starts (and the operation itself).

type memAccess struct {
	n     *Node
	base  *Term  // what is accessed: a cell, slice, or map made by somebody
	name  string // location
	idx   *Term  // element of a slice
	write bool
	what  string
}

func (g *Graph) memAccesses() []memAccess {
	var out []memAccess
	addr := func(n *Node, a *Term, write bool, t types.Type) {
		if t != nil && isSyncType(t) {
			return
		}
		ia := innerIndex(a)
		if ia != nil {
			for _, r := range g.sliceRoots(ia.args[0]) {
				out = append(out, memAccess{n, r, "elements of " + g.P(r), ia.args[1], write, "element"})
			}
			return
		}
		a = g.canonAddr(a)
		out = append(out, memAccess{n, addrBase(a), g.loc(a, true), nil, write, "variable"})
	}
	mp := func(n *Node, v ssa.Value, write bool) {
		t := g.term(n.fr, v)
		for _, x := range g.vals(t) {
			if isNilConst(x) {
				continue
			}
			out = append(out, memAccess{n, x, "entries of " + g.P(x), nil, write, "map"})
		}
	}
	for _, n := range g.liveNodes {
		if n.kind == NInstr {
			switch in := n.in.(type) {
			case *ssa.Store:
				addr(n, g.term(n.fr, in.Addr), true, in.Val.Type())
			case *ssa.UnOp:
				if in.Op.String() == "*" {
					addr(n, g.term(n.fr, in.X), false, in.Type())
				}
			case *ssa.MapUpdate:
				mp(n, in.Map, true)
			case *ssa.Lookup:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					mp(n, in.X, false)
				}
			case *ssa.Next:
				if it, ok := in.Iter.(*ssa.Range); ok && !in.IsString {
					mp(n, it.X, false)
				}
			}
			if isDeferOrGo(n) {
				continue
			}
		}
		if cc := n.common(); cc != nil && n.callee == nil {
			switch n.callName() {
			case "builtin.delete", "builtin.clear":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					mp(n, cc.Args[0], true)
				}
			case "builtin.len":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					mp(n, cc.Args[0], false)
				}
			case "builtin.append":
				for _, r := range g.sliceRoots(g.term(n.fr, cc.Args[0])) {
					if !isNilConst(r) && r.node != n {
						out = append(out, memAccess{n, r, "elements of " + g.P(r), nil, true, "append"})
					}
				}
			}
		}
	}
	return out
}

// chain lists a thread and the threads that started it.
func chainOf(th *Thread) []*Thread {
	var out []*Thread
	for th != nil {
		out = append(out, th)
		if th.spawn == nil {
			break
		}
		th = th.spawn.fr.thread
	}
	return out
}

// sequential tells whether a callback runs inside its caller.
func (th *Thread) sequential() bool { return th.callback && !runsOnce(th.of) }

// owner is the goroutine a thread runs in, with the node at which it does.
func owner(n *Node) (*Thread, *Node) {
	th := n.fr.thread
	for th.sequential() && th.spawn != nil {
		n = th.spawn
		th = n.fr.thread
	}
	return th, n
}

// many tells whether several runs of a goroutine can be alive at once.
func (g *Graph) many(th *Thread) bool {
	for th != nil && th.spawn != nil {
		if g.loopOf[th.spawn] != nil {
			return true
		}
		th, _ = owner(th.spawn)
	}
	return false
}

// overlap tells whether two accesses can happen at the same time.
func (g *Graph) overlap(a, b memAccess) bool {
	ta, na := owner(a.n)
	tb, nb := owner(b.n)
	if ta == tb {
		if !g.many(ta) || ta.spawn == nil {
			return false
		}
		// its own memory, made anew for each run
		return !g.perRun(a.base, ta)
	}
	// find where they part
	ca, cb := chainOf(ta), chainOf(tb)
	in := func(c []*Thread, t *Thread) bool {
		for _, x := range c {
			if x == t {
				return true
			}
		}
		return false
	}
	if in(cb, ta) {
		return g.during(tb, ta, na, a.base)
	}
	if in(ca, tb) {
		return g.during(ta, tb, nb, a.base)
	}
	// two goroutines: one must be over before the other starts
	var pa, pb *Thread
	for _, x := range ca {
		if in(cb, x) {
			break
		}
		pa = x
	}
	for _, x := range cb {
		if in(ca, x) {
			break
		}
		pb = x
	}
	if pa == nil || pb == nil {
		return true
	}
	if g.over(ta, pb.spawn) || g.over(tb, pa.spawn) {
		return false
	}
	return true
}

// over tells whether all runs of a goroutine ended before a node.
func (g *Graph) over(th *Thread, at *Node) bool {
	return g.doneBy(th, at)
}

// during tells whether node n of an ancestor can run while th does.
func (g *Graph) during(th, anc *Thread, n *Node, base *Term) bool {
	// the spawn in the ancestor
	cur := th
	for cur.spawn != nil {
		o, at := owner(cur.spawn)
		if o == anc {
			av := func(m *Node) bool { return base != nil && base.op == "fresh" && m == base.node }
			if g.find([]*Node{at}, searchOpt{avoid: av, goal: func(m *Node) bool { return m == n }}) == nil {
				return false
			}
			return !g.doneBy(th, n)
		}
		cur = o
	}
	return true
}

// perRun tells whether memory is made anew for each run of a goroutine.
func (g *Graph) perRun(base *Term, th *Thread) bool {
	if base.op != "fresh" && base.op != "append" && base.op != "call" || base.node == nil && base.fr == nil {
		return false
	}
	if base.node == nil {
		return false
	}
	o, at := owner(base.node)
	for _, t := range chainOf(th) {
		if t == o {
			if t == th {
				return true
			}
			// made in the loop that starts it
			cur := th
			for cur.spawn != nil {
				p, sp := owner(cur.spawn)
				if p == o {
					for l := g.loopOf[sp]; l != nil; l = l.parent {
						if l.body[at] {
							return true
						}
					}
					return g.loopOf[sp] == nil && g.many(o)
				}
				cur = p
			}
		}
	}
	return false
}

// ownSlot tells whether an element index differs between the runs of a goroutine.
func (g *Graph) ownSlot(idx *Term, th *Thread) bool {
	if idx == nil {
		return false
	}
	for th != nil && th.spawn != nil {
		for l := g.loopOf[th.spawn]; l != nil; l = l.parent {
			if l.key != nil && (l.kind == "slice" || l.kind == "count") && g.K(l.key) == g.K(idx) {
				return true
			}
			if _, ok := g.counter(l, idx); ok {
				return true
			}
		}
		th, _ = owner(th.spawn)
	}
	return false
}

// slotApart tells whether an iteration that starts a goroutine leaves the goroutine's element alone afterwards.
func (g *Graph) slotApart(a, b memAccess, ta, tb *Thread) bool {
	_, na := owner(a.n)
	if tb.spawn == nil || tb.spawn.fr.thread != ta {
		a, b, ta, tb = b, a, tb, ta
		_, na = owner(a.n)
	}
	if tb.spawn == nil {
		return false
	}
	o, sp := owner(tb.spawn)
	if o != ta {
		return false
	}
	for l := g.loopOf[sp]; l != nil; l = l.parent {
		if !l.body[na] {
			continue
		}
		k := l.key != nil && (l.kind == "slice" || l.kind == "count") && g.K(l.key) == g.K(a.idx)
		if !k {
			_, k = g.counter(l, a.idx)
		}
		if k && g.find([]*Node{sp}, searchOpt{avoid: func(m *Node) bool { return m == l.header }, goal: func(m *Node) bool { return m == na }}) == nil {
			return true
		}
	}
	return false
}

func (g *Graph) commonLock(a, b *Node) bool {
	la, lb := g.locks().must[a], g.locks().must[b]
	for k, v := range la {
		if w := lb[k]; w != 0 && (v == heldW || w == heldW) {
			return true
		}
	}
	return false
}

type race struct {
	a, b memAccess
}

func (g *Graph) races() []race {
	if len(g.threads) < 2 {
		return nil
	}
	by := map[string][]memAccess{}
	acc := g.memAccesses()
	for _, a := range acc {
		by[a.name] = append(by[a.name], a)
	}
	for k := range by {
		// a whole variable and a field of it
		for _, a := range acc {
			if a.idx == nil && strings.HasPrefix(k, a.name+".") {
				by[k] = append(by[k], a)
			}
		}
	}
	var out []race
	for _, k := range sortedKeys(by) {
		as := by[k]
		w := false
		for _, a := range as {
			w = w || a.write
		}
		if !w {
			continue
		}
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.write && !b.write {
					continue
				}
				ta, _ := owner(a.n)
				tb, _ := owner(b.n)
				if ta == tb && ta.spawn == nil {
					continue
				}
				if a.idx != nil && b.idx != nil && ta == tb && g.K(a.idx) == g.K(b.idx) && g.ownSlot(a.idx, ta) {
					continue
				}
				if a.idx != nil && b.idx != nil && ta != tb && g.K(a.idx) == g.K(b.idx) && g.slotApart(a, b, ta, tb) {
					continue
				}
				if a.idx != nil && b.idx != nil && a.idx.op == "const" && b.idx.op == "const" && a.idx != b.idx {
					continue
				}
				if g.commonLock(a.n, b.n) || !g.overlap(a, b) {
					continue
				}
				out = append(out, race{a, b})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].a.n.id < out[j].a.n.id })
	return out
}

// noRaces reports the races of a graph.
func (c *Ctx) noRaces(g *Graph, lab string) {
	rs := g.races()
	seen := map[string]bool{}
	for _, r := range rs {
		k := r.a.name + g.where(r.a.n) + g.where(r.b.n)
		if seen[k] {
			continue
		}
		seen[k] = true
		c.bad("no-race", lab, g.where(r.b.n), r.a.name+" is used here and at "+g.where(r.a.n)+" at the same time, and changed")
	}
	if len(rs) == 0 && len(g.threads) > 1 {
		c.ok("no-race", lab, g.where(g.root.entry), "")
	}
}
