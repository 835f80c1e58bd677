package main

import (
	"go/constant"

	"golang.org/x/tools/go/ssa"
)

// Deciding small pure functions over a finite set of cases: the function's graph is walked under an oracle that
// answers its atomic tests. Nothing is executed, an unanswered test ends the walk.

type decider struct {
	g      *Graph
	oracle func(*Term) int // yes, no, unknown for an atomic test
	choice map[*Term]*Term
	memo   map[*Term]*Term
	stuck  *Term
}

// now rewrites a term with the alternatives chosen so far.
func (d *decider) now(t *Term) *Term {
	if r, ok := d.memo[t]; ok {
		return r
	}
	d.memo[t] = t
	r := d.now1(t)
	d.memo[t] = r
	return r
}

func (d *decider) now1(t *Term) *Term {
	if c, ok := d.choice[t]; ok {
		return c
	}
	switch t.op {
	case "phi", "ret":
		return t
	case "load", "field":
		if ia, _ := d.g.elemSource(t); ia != nil {
			return t // an element is what it is, whatever was stored in it
		}
		if as := d.g.alts(t); len(as) == 1 {
			return d.now(as[0])
		}
	}
	if len(t.args) == 0 || t.op == "fresh" {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = d.now(a)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	nt := *t
	nt.args, nt.key, nt.id = args, "", 0
	return d.g.mk(&nt)
}

func (d *decider) boolean(t *Term) int {
	t = d.now(t)
	if v := d.oracle(t); v != unknown {
		return v
	}
	switch t.op {
	case "const":
		if t.cv != nil && t.cv.Kind() == constant.Bool {
			return tri(constant.BoolVal(t.cv))
		}
		if isBoolConst(t, false) {
			return no
		}
	case "un":
		if t.s == "!" {
			return not(d.boolean(t.args[0]))
		}
	case "bin":
		if t.s == "==" || t.s == "!=" {
			if isBoolType(t.args[0].typ) {
				a, b := d.boolean(t.args[0]), d.boolean(t.args[1])
				if a == unknown || b == unknown {
					return unknown
				}
				return tri((a == b) == (t.s == "=="))
			}
		}
		if x, ok := constInt(t.args[0]); ok {
			if y, ok := constInt(t.args[1]); ok {
				switch t.s {
				case "<":
					return tri(x < y)
				case "<=":
					return tri(x <= y)
				case ">":
					return tri(x > y)
				case ">=":
					return tri(x >= y)
				case "==":
					return tri(x == y)
				case "!=":
					return tri(x != y)
				}
			}
		}
	}
	if d.stuck == nil {
		d.stuck = t
	}
	return unknown
}

// result walks the function of a frame from its entry and gives its result i, rewritten; nil when it gets stuck.
func (d *decider) result(fr *Frame, i int) *Term {
	g := d.g
	d.choice = map[*Term]*Term{}
	d.memo = map[*Term]*Term{}
	cur := fr.entry
	for steps := 0; steps < 5000; steps++ {
		if cur.kind == NInstr {
			if r, ok := cur.in.(*ssa.Return); ok {
				if cur.fr == fr {
					if i >= len(r.Results) {
						return nil
					}
					return d.now(g.term(fr, r.Results[i]))
				}
				// the values an inlined helper returns
				for _, x := range cur.fr.callTerms() {
					if x.i < len(r.Results) {
						d.choice[x.t] = d.now(g.term(cur.fr, r.Results[x.i]))
					}
				}
				d.memo = map[*Term]*Term{}
			}
		}
		var next *Node
		switch len(cur.succ) {
		case 0:
			return nil
		case 1:
			next = cur.succ[0]
		default:
			for _, s := range cur.succ {
				if s.kind != NBranch || s.maybe {
					return nil
				}
				v := d.boolean(g.term(s.fr, s.cond))
				if v == unknown {
					return nil
				}
				if v == tri(s.pol) {
					next = s
				}
			}
			if next == nil {
				return nil
			}
		}
		// merged values of the block that is entered
		if next.kind == NInstr {
			if blk := next.in.Block(); blk != nil && next.fr.first[blk] == next {
				pb := predBlock(cur)
				set := map[*Term]*Term{}
				for _, in := range blk.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range blk.Preds {
						if p == pb {
							set[g.term(next.fr, ph)] = d.now(g.term(next.fr, ph.Edges[k]))
						}
					}
				}
				if len(set) > 0 {
					for k, v := range set {
						d.choice[k] = v
					}
					d.memo = map[*Term]*Term{}
				}
			}
		}
		cur = next
	}
	return nil
}

type callRes struct {
	t *Term
	i int
}

// callTerms are the terms of the results of an inlined call.
func (fr *Frame) callTerms() []callRes {
	g := fr.g
	var out []callRes
	if fr.parent == nil || fr.parent.nodes[fr.site] == nil {
		return nil
	}
	n := fr.parent.nodes[fr.site]
	rs := fr.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, callRes{g.mk(&Term{op: "ret", node: n, i: i, typ: rs.At(i).Type(), fr: fr.parent}), i})
	}
	return out
}
