package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutine protocols: wait groups, channels, and what is finished when.

// WaitGroup is one sync.WaitGroup of a graph.
type WaitGroup struct {
	name  string
	adds  []*Node
	dones []*Node
	waits []*Node
	gos   []*Node // wg.Go
}

func (g *Graph) waitGroups() map[string]*WaitGroup {
	if g.wgs != nil && g.wgsFor == len(g.liveNodes) {
		return g.wgs
	}
	out := map[string]*WaitGroup{}
	g.wgs, g.wgsFor = out, len(g.liveNodes)
	get := func(n *Node) *WaitGroup {
		name := g.lockName(n)
		w := out[name]
		if w == nil {
			w = &WaitGroup{name: name}
			out[name] = w
		}
		return w
	}
	for _, n := range g.liveNodes {
		if n.common() == nil || n.kind == NInstr && isDeferOrGo(n) {
			continue
		}
		switch n.callName() {
		case "(*sync.WaitGroup).Add":
			get(n).adds = append(get(n).adds, n)
		case "(*sync.WaitGroup).Done":
			get(n).dones = append(get(n).dones, n)
		case "(*sync.WaitGroup).Wait":
			get(n).waits = append(get(n).waits, n)
		case "(*sync.WaitGroup).Go":
			get(n).gos = append(get(n).gos, n)
		}
	}
	return out
}

// Chan is one channel made in a graph.
type Chan struct {
	made   *Term
	sends  []*Node
	recvs  []*Node
	closes []*Node
}

// chanOf is the channel, made in this graph, that a term stands for.
func (g *Graph) chanOf(t *Term) *Term {
	s := g.single(t)
	if s != nil && s.op == "conv" {
		s = g.single(s.args[0])
	}
	if s == nil || s.op != "fresh" {
		return nil
	}
	if _, ok := s.v.(*ssa.MakeChan); !ok {
		return nil
	}
	return s
}

func (g *Graph) chans() []*Chan {
	byTerm := map[*Term]*Chan{}
	var out []*Chan
	get := func(t *Term) *Chan {
		s := g.chanOf(t)
		if s == nil {
			return nil
		}
		c := byTerm[s]
		if c == nil {
			c = &Chan{made: s}
			byTerm[s] = c
			out = append(out, c)
		}
		return c
	}
	for _, n := range g.liveNodes {
		if n.kind == NInstr {
			switch in := n.in.(type) {
			case *ssa.MakeChan:
				get(g.term(n.fr, in))
			case *ssa.Send:
				if c := get(g.term(n.fr, in.Chan)); c != nil {
					c.sends = append(c.sends, n)
				}
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					if c := get(g.term(n.fr, in.X)); c != nil {
						c.recvs = append(c.recvs, n)
					}
				}
			case *ssa.Select:
				for _, s := range in.States {
					if c := get(g.term(n.fr, s.Chan)); c != nil {
						if s.Dir == types.SendOnly {
							c.sends = append(c.sends, n)
						} else {
							c.recvs = append(c.recvs, n)
						}
					}
				}
			}
			if isDeferOrGo(n) {
				continue
			}
		}
		if n.common() != nil && n.callName() == "builtin.close" {
			if c := get(g.term(n.fr, n.common().Args[0])); c != nil {
				c.closes = append(c.closes, n)
			}
		}
	}
	return out
}

// always looks for a run of a thread that misses an event; nil when every run has it.
func (g *Graph) always(th *Thread, event func(*Node) bool) []*Node {
	return g.find([]*Node{th.entry}, searchOpt{avoid: event, goal: func(m *Node) bool { return m == th.exit }})
}

// outward tells whether a node does something other goroutines can see: a store or update that is not to the
// goroutine's own memory, or a send.
func (g *Graph) outward(n *Node) bool {
	if n.kind != NInstr {
		return false
	}
	switch in := n.in.(type) {
	case *ssa.Send, *ssa.MapUpdate:
		return true
	case *ssa.Store:
		a := g.term(n.fr, in.Addr)
		b := addrBase(a)
		if b.op == "fresh" && b.fr != nil && b.fr.thread == n.fr.thread {
			return false
		}
		return true
	}
	return false
}

// finishes decides that each run of a goroutine tells a wait group exactly once that it is done, after everything
// it does for others.
func (g *Graph) finishes(th *Thread, w *WaitGroup) string {
	for _, n := range w.gos {
		if th.spawn == n {
			return ""
		}
	}
	done := map[*Node]bool{}
	for _, n := range w.dones {
		if n.fr.thread == th {
			done[n] = true
		}
	}
	if len(done) == 0 {
		return "it never calls Done on " + w.name
	}
	if p := g.always(th, func(n *Node) bool { return done[n] }); p != nil {
		return "it can end without Done: " + g.pathText(p)
	}
	for n := range done {
		if p := g.find([]*Node{n}, searchOpt{goal: func(m *Node) bool { return done[m] }}); p != nil {
			return "it can call Done twice: " + g.pathText(p)
		}
		if p := g.find([]*Node{n}, searchOpt{goal: func(m *Node) bool { return m.fr.thread == th && g.outward(m) }}); p != nil {
			return "it goes on after Done: " + g.where(p[len(p)-1])
		}
	}
	return ""
}

// groupOf is the wait group a goroutine reports to.
func (g *Graph) groupOf(th *Thread) *WaitGroup {
	for _, w := range g.waitGroups() {
		for _, n := range w.dones {
			if n.fr.thread == th {
				return w
			}
		}
		for _, n := range w.gos {
			if n == th.spawn {
				return w
			}
		}
	}
	return nil
}

// doneBy decides that all runs of a goroutine have finished when a node runs.
func (g *Graph) doneBy(th *Thread, at *Node) bool { return g.doneBy1(th, at, 0) }

func (g *Graph) doneBy1(th *Thread, at *Node, d int) bool {
	if d > 3 {
		return false
	}
	w := g.groupOf(th)
	if w == nil {
		return g.signalled(th, at)
	}
	if g.finishes(th, w) != "" {
		return false
	}
	for _, wt := range w.waits {
		if wt.fr.thread == at.fr.thread {
			if g.dominates(wt, at) && !g.reaches(wt, th.spawn) {
				return true
			}
			continue
		}
		// a goroutine waits and closes a channel that is read to its end before the node
		for _, c := range g.chans() {
			for _, cl := range c.closes {
				if cl.fr.thread != wt.fr.thread || !g.dominates(wt, cl) {
					continue
				}
				for _, r := range c.recvs {
					if len(c.sends) == 0 && r.fr.thread == at.fr.thread && g.blocks(r) && g.dominates(r, at) {
						return true
					}
				}
				for _, l := range g.loops {
					if l.kind == "chan" && g.chanOf(l.dom) == c.made && l.done != nil && l.done.fr.thread == at.fr.thread && g.dominates(l.done, at) {
						return true
					}
				}
			}
		}
	}
	// the goroutine is over when one that waited for it is
	if p := th.spawn.fr.thread; p != at.fr.thread && p.spawn != nil && !p.callback {
		for _, wt := range w.waits {
			if wt.fr.thread == p && g.always(p, func(n *Node) bool { return n == wt }) == nil && g.doneBy1(p, at, d+1) {
				return true
			}
		}
	}
	return false
}

// blocks tells whether a receive waits until something arrives.
func (g *Graph) blocks(r *Node) bool {
	_, sel := r.in.(*ssa.Select)
	return !sel
}

// signalled decides that a goroutine has told on a channel that it is over when a node runs.
func (g *Graph) signalled(th *Thread, at *Node) bool {
	if th.spawn == nil || th.sequential() || th.spawn.fr.thread != at.fr.thread {
		return false
	}
	for _, c := range g.chans() {
		mine := func(n *Node) bool { return n.fr.thread == th && (contains(c.sends, n) || contains(c.closes, n)) }
		ok := true
		for _, n := range append(append([]*Node{}, c.sends...), c.closes...) {
			if n.fr.thread != th || g.find([]*Node{n}, searchOpt{goal: mine}) != nil ||
				g.find([]*Node{n}, searchOpt{goal: func(m *Node) bool { return m.fr.thread == th && m != n && g.outward(m) }}) != nil {
				ok = false
			}
		}
		if !ok || len(c.sends)+len(c.closes) == 0 || g.always(th, mine) != nil {
			continue
		}
		sl := g.loopsAround(th.spawn)
		for _, r := range c.recvs {
			if r.fr.thread != at.fr.thread || !g.blocks(r) {
				continue
			}
			rl := g.loopsAround(r)
			switch {
			case len(sl) == 0 && len(rl) == 0:
				if g.dominates(r, at) && !g.reaches(r, th.spawn) {
					return true
				}
			case len(c.closes) == 0 && len(c.recvs) == 1 && len(sl) == 1 && len(rl) == 1 && sl[0] != rl[0]:
				if g.sameRounds(sl[0], rl[0]) && g.perIteration(rl[0], func(n *Node) bool { return n == r }) == nil &&
					len(g.exits(rl[0])) == 0 && rl[0].done != nil && g.dominates(rl[0].done, at) && !g.reaches(rl[0].done, th.spawn) {
					return true
				}
			}
		}
	}
	return false
}

// sameRounds tells whether two loops run equally often.
func (g *Graph) sameRounds(a, b *Loop) bool {
	if a.dom != nil && b.dom != nil && g.sameCont(a.dom, b.dom) {
		return true
	}
	if a.bound != nil && b.bound != nil && g.P(a.bound) == g.P(b.bound) {
		return true
	}
	if a.bound != nil && g.isCount(a.bound, b) || b.bound != nil && g.isCount(b.bound, a) {
		return true
	}
	return false
}

// settled decides that everything goroutines put into a list is there when a node runs.
func (g *Graph) settled(nodes []*Node, at *Node) string {
	for _, n := range nodes {
		th := n.fr.thread
		if th == at.fr.thread {
			continue
		}
		if th.callback && !runsOnce(th.of) {
			continue
		}
		if th.spawn != nil && th.spawn.fr.thread == at.fr.thread && !g.reaches(th.spawn, at) {
			continue // it was not started
		}
		if !g.doneBy(th, at) {
			return "the goroutine that fills it at " + g.where(n) + " may still run"
		}
	}
	return ""
}

func (l *List) nodes() []*Node {
	var out []*Node
	for _, e := range l.elems {
		out = append(out, e.node)
	}
	return out
}

var _ = strings.HasPrefix
