package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Dump prints the graph with the names of the values, for development.
func (g *Graph) Dump() {
	fmt.Println("fail:", g.fail)
	for _, n := range g.nodes {
		if !g.live[n] {
			continue
		}
		s := ""
		switch n.kind {
		case NEntry:
			s = "ENTRY " + fnLabel(n.fr.fn)
		case NExit:
			s = "EXIT " + fnLabel(n.fr.fn)
		case NBranch:
			if n.maybe {
				s = fmt.Sprint("MAYBE ", n.pol)
			} else {
				s = fmt.Sprint("BRANCH ", n.pol, " ", g.K(g.term(n.fr, n.cond)))
			}
		case NDeferred:
			s = "DEFERRED " + n.callName()
		case NInstr:
			s = n.in.String()
			switch in := n.in.(type) {
			case *ssa.MapUpdate:
				s += "   ## " + g.P(g.term(n.fr, in.Map)) + "[" + g.P(g.term(n.fr, in.Key)) + "] = " + g.P(g.term(n.fr, in.Value))
			case *ssa.Store:
				s += "   ## " + g.loc(g.term(n.fr, in.Addr), true) + " = " + g.P(g.term(n.fr, in.Val))
			case *ssa.Send:
				s += "   ## " + g.P(g.term(n.fr, in.Chan)) + " <- " + g.P(g.term(n.fr, in.X))
			case *ssa.Return:
				for i := range in.Results {
					s += "   ## " + g.P(g.term(n.fr, in.Results[i]))
				}
			case ssa.Value:
				s = in.Name() + " = " + s + "   ## " + g.P(g.term(n.fr, in))
			}
		}
		var su []int
		for _, x := range n.succ {
			su = append(su, x.id)
		}
		l := ""
		for x := g.loopOf[n]; x != nil; x = x.parent {
			l += fmt.Sprintf(" L%d", x.id)
		}
		fmt.Printf("%4d d%d%s %v  %s\n", n.id, n.fr.depth, l, su, s)
	}
	for _, l := range g.loops {
		d := ""
		if l.dom != nil {
			d = g.P(l.dom)
		}
		if l.key != nil {
			d += " key=" + g.P(l.key)
		}
		fmt.Printf("L%d %s header=%d dom=%s exits=%d\n", l.id, l.kind, l.header.id, d, len(g.exits(l)))
	}
	for _, t := range g.threads {
		sp := -1
		if t.spawn != nil {
			sp = t.spawn.id
		}
		fmt.Printf("thread entry=%d spawn=%d cb=%v\n", t.entry.id, sp, t.callback)
	}
}
