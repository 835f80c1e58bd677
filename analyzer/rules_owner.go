package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C07: what was handed over is not changed any more ---------------------------------------------------------
//
// For every map that is changed, the rule finds out who owns it: it was made here and not handed over yet (fine), it is
// part of the state of the store under a name that nothing foreign is ever stored under (fine), or it was received, got
// from a cache, given as an argument or handed over before (not fine).

// own is one object a reference can be to.
type own struct {
	kind string // fresh, state, argument, received, cache, result, other
	t    *Term  // the object made here, or where a foreign one comes from
	path string // state: name of the slot, keys replaced by *
	deep bool   // result: part of a stored field
}

type owners struct {
	g    *Graph
	memo map[string][]own
	inPt map[*Term]bool
	cut  int // recursions that were cut off
}

func (g *Graph) owners() *owners {
	if g.ownMemo == nil {
		g.ownMemo = &owners{g: g, memo: map[string][]own{}, inPt: map[*Term]bool{}}
	}
	return g.ownMemo
}

// of lists the objects that a reference, followed by steps ("[]" for an element, ".name" for a field), can be.
func (o *owners) of(t *Term, steps ...string) []own {
	k := fmt.Sprint(t.id) + "|" + strings.Join(steps, "")
	if r, ok := o.memo[k]; ok {
		return r
	}
	seen := map[string]bool{}
	set := map[own]bool{}
	cut := o.cut
	o.rec(t, steps, seen, set)
	var out []own
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.path != b.path {
			return a.path < b.path
		}
		return a.t != nil && b.t != nil && a.t.id < b.t.id
	})
	if cut == o.cut {
		o.memo[k] = out
	}
	return out
}

func (o *owners) rec(t *Term, steps []string, seen map[string]bool, set map[own]bool) {
	if t == nil || len(steps) > 8 {
		return
	}
	g := o.g
	k := fmt.Sprint(t.id) + "|" + strings.Join(steps, "")
	if seen[k] {
		return
	}
	seen[k] = true
	if len(steps) > 0 && strings.HasPrefix(steps[0], ".") && t.typ != nil {
		if st, ok := t.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if "."+st.Field(i).Name() != steps[0] {
					continue
				}
				f := g.fieldOf(t, st.Field(i).Name(), i, st.Field(i).Type())
				if as := g.alts(f); as != nil {
					for _, a := range as {
						o.rec(a, steps[1:], seen, set)
					}
					return
				}
			}
		}
	}
	foreign := func(kind string, v *Term) {
		deep := false
		for _, s := range steps {
			if s == ".TF" {
				deep = true
			}
		}
		set[own{kind: kind, t: v, deep: deep}] = true
	}
	for _, v := range g.vals(t) {
		switch v.op {
		case "param":
			if v.i == 0 && g.root.fn.Signature.Recv() != nil {
				set[own{kind: "state", path: "$0" + strings.ReplaceAll(strings.Join(steps, ""), "[]", "[*]")}] = true
			} else {
				foreign("argument", v)
			}
		case "fresh":
			if len(steps) == 0 {
				set[own{kind: "fresh", t: v}] = true
				continue
			}
			o.inside(v, steps, seen, set)
		case "recv":
			sent := false
			for _, c := range o.of(v.args[0]) {
				if c.kind != "fresh" {
					continue
				}
				for _, s := range o.sends(c.t) {
					sent = true
					o.rec(s, steps, seen, set)
				}
			}
			if !sent {
				foreign("received", v)
			}
		case "call", "res":
			c := v
			if c.op == "res" {
				c = c.args[0]
			}
			switch {
			case strings.Contains(c.s, Module+"/cache."):
				foreign("cache", v)
			case strings.Contains(c.s, Module):
				foreign("result", v)
			default:
				foreign("other", v)
			}
		case "lookup", "rangeval":
			o.rec(v.args[0], append([]string{"[]"}, steps...), seen, set)
		case "field":
			o.rec(v.args[0], append([]string{"." + v.s}, steps...), seen, set)
		case "init", "load", "snapshot":
			a := v.args[0]
			switch a.op {
			case "fieldaddr":
				o.rec(a.args[0], append([]string{"." + a.s}, steps...), seen, set)
			case "indexaddr":
				o.rec(a.args[0], append([]string{"[]"}, steps...), seen, set)
			case "fresh":
				// a local variable
			default:
				o.rec(a, steps, seen, set)
			}
		case "slice":
			o.rec(v.args[0], steps, seen, set)
		case "append":
			if len(steps) == 0 {
				set[own{kind: "fresh", t: v}] = true
			}
			o.rec(v.args[0], steps, seen, set)
			if len(v.args) > 1 && len(steps) > 0 && steps[0] == "[]" {
				o.rec(v.args[1], steps, seen, set)
			}
		case "iface", "conv", "assert":
			o.rec(v.args[0], steps, seen, set)
		case "const":
		default:
			foreign("other", v)
		}
	}
}

// inside follows steps into an object made here.
func (o *owners) inside(f *Term, steps []string, seen map[string]bool, set map[own]bool) {
	g := o.g
	if o.inPt[f] {
		o.cut++
		return
	}
	o.inPt[f] = true
	defer delete(o.inPt, f)
	if steps[0] == "[]" {
		if isMap(f.typ) {
			for _, e := range g.effects() {
				if e.kind == "update" && o.isObj(e.m, f) {
					o.rec(e.v, steps[1:], seen, set)
				}
			}
			return
		}
		if ct, ok := g.contents(f); ok {
			for _, e := range ct {
				switch {
				case e.rest != nil:
					o.rec(e.rest, steps, seen, set)
				case e.sub == nil:
					o.rec(e.val, steps[1:], seen, set)
				case len(steps) > 1 && steps[1] == "."+e.sub.s:
					o.rec(e.val, steps[2:], seen, set)
				}
			}
		}
		return
	}
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		st, ok := n.in.(*ssa.Store)
		if !ok {
			continue
		}
		a := g.term(n.fr, st.Addr)
		if a.op == "fieldaddr" && "."+a.s == steps[0] && o.isObj(a.args[0], f) {
			o.rec(g.term(n.fr, st.Val), steps[1:], seen, set)
		} else if a.op != "fieldaddr" && a.op != "indexaddr" && a == f {
			o.rec(g.term(n.fr, st.Val), steps, seen, set)
		}
	}
}

func (o *owners) isObj(t, f *Term) bool {
	if t == f {
		return true
	}
	if t.typ == nil || f.typ == nil || !types.Identical(t.typ.Underlying(), f.typ.Underlying()) {
		return false
	}
	for _, x := range o.of(t) {
		if x.t == f {
			return true
		}
	}
	return false
}

// sends lists what is sent on a queue made here.
func (o *owners) sends(ch *Term) []*Term {
	g := o.g
	var out []*Term
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.Send:
			if o.isObj(g.term(n.fr, in.Chan), ch) {
				out = append(out, g.term(n.fr, in.X))
			}
		case *ssa.Select:
			for _, s := range in.States {
				if s.Dir == types.SendOnly && o.isObj(g.term(n.fr, s.Chan), ch) {
					out = append(out, g.term(n.fr, s.Send))
				}
			}
		}
	}
	return out
}

type reached struct {
	own
	steps string
}

// reach lists every object that can be reached from a value, with the steps to it.
func (o *owners) reach(t *Term) []reached {
	var out []reached
	var rec func(typ types.Type, steps []string, d int)
	rec = func(typ types.Type, steps []string, d int) {
		if d > 4 {
			return
		}
		with := func(s string) []string { return append(append([]string{}, steps...), s) }
		here := func() {
			for _, x := range o.of(t, steps...) {
				out = append(out, reached{x, strings.ReplaceAll(strings.Join(steps, ""), "[]", "[*]")})
			}
		}
		switch u := typ.Underlying().(type) {
		case *types.Map:
			here()
			rec(u.Elem(), with("[]"), d+1)
		case *types.Slice:
			rec(u.Elem(), with("[]"), d+1)
		case *types.Array:
			rec(u.Elem(), with("[]"), d+1)
		case *types.Pointer:
			rec(u.Elem(), steps, d)
		case *types.Struct:
			if n := namedOf(typ); n != nil && n.Pkg() != nil && !strings.HasPrefix(n.Pkg().Path(), Module) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				if refLike(u.Field(i).Type()) {
					rec(u.Field(i).Type(), with("."+u.Field(i).Name()), d+1)
				}
			}
		}
	}
	if t != nil && t.typ != nil {
		rec(t.typ, nil, 0)
	}
	return out
}

type handover struct {
	n    *Node
	what string
	v    *Term
}

// handovers lists the places where values leave for another holder: a queue of the store, a cache, a store.
func (g *Graph) handovers() []handover {
	o := g.owners()
	var out []handover
	queue := func(ch *Term) bool {
		for _, x := range o.of(ch) {
			if x.kind == "state" || x.kind == "argument" {
				return true
			}
		}
		return false
	}
	for _, n := range g.liveNodes {
		if n.kind != NInstr && n.kind != NDeferred {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.Send:
			if ch := g.term(n.fr, in.Chan); queue(ch) {
				out = append(out, handover{n, "sent on " + g.P(ch), g.term(n.fr, in.X)})
			}
		case *ssa.Select:
			for _, s := range in.States {
				if s.Dir == types.SendOnly {
					if ch := g.term(n.fr, s.Chan); queue(ch) {
						out = append(out, handover{n, "sent on " + g.P(ch), g.term(n.fr, s.Send)})
					}
				}
			}
		}
		if n.common() == nil {
			continue
		}
		cn := n.callName()
		if strings.Contains(cn, Module+"/cache.") || strings.Contains(cn, Module+"/storage.Storage)") || strings.Contains(cn, Module+"/index.Index)") {
			for i, a := range g.callArgs(n) {
				if i > 0 && a.typ != nil && refLike(a.typ) {
					out = append(out, handover{n, "given to " + cn[strings.LastIndex(cn, "/")+1:], a})
				}
			}
		}
	}
	return out
}

// mapEffects are the changes of maps.
func (g *Graph) mapEffects() []Eff {
	var out []Eff
	for _, e := range g.effects() {
		if e.kind == "update" || e.kind == "delete" || e.kind == "clear" {
			out = append(out, e)
		}
	}
	return out
}

type sharing struct {
	c      *Ctx
	shared map[string]string // state path -> why
}

// foreignKind says why a map must not be changed, "" when it may.
func (x own) foreignKind() string {
	switch x.kind {
	case "argument":
		return "it was given as an argument"
	case "received":
		return "it was received from another goroutine"
	case "cache":
		return "it is in the cache"
	case "result":
		if x.deep {
			return "it belongs to a stored field"
		}
	}
	return ""
}

// gather notes the parts of the state that other holders have too.
func (s *sharing) gather(g *Graph) {
	o := g.owners()
	handed := map[*Term]string{}
	for _, h := range g.handovers() {
		for _, r := range o.reach(h.v) {
			switch r.kind {
			case "state":
				s.shared[r.path] = h.what
			case "fresh":
				handed[r.t] = h.what
			}
		}
	}
	for _, e := range g.effects() {
		if e.kind != "update" && e.kind != "store" || e.v == nil || e.v.typ == nil || !refLike(e.v.typ) {
			continue
		}
		var slots []string
		switch {
		case e.kind == "update":
			for _, x := range o.of(e.m) {
				if x.kind == "state" {
					slots = append(slots, x.path+"[*]")
				}
			}
		case e.m.op == "fieldaddr":
			for _, x := range o.of(e.m.args[0]) {
				if x.kind == "state" {
					slots = append(slots, x.path+"."+e.m.s)
				}
			}
		}
		if len(slots) == 0 {
			continue
		}
		for _, r := range o.reach(e.v) {
			why := r.foreignKind()
			if r.kind == "fresh" {
				why = handed[r.t]
			}
			if why == "" {
				continue
			}
			for _, sl := range slots {
				s.shared[sl+r.steps] = why
			}
		}
	}
}

func (s *sharing) of(path string) string {
	for _, k := range sortedKeys(s.shared) {
		if path == k || strings.HasPrefix(path, k+"[") || strings.HasPrefix(path, k+".") {
			return s.shared[k]
		}
	}
	return ""
}

// madeAt is where a value comes to be, for the result of a pure call where what it was computed from does.
func madeAt(t *Term) *Node {
	for d := 0; t != nil && d < 10; d++ {
		if t.node != nil || len(t.args) == 0 {
			return t.node
		}
		t = t.args[len(t.args)-1]
	}
	return nil
}

// unchanged decides the rule for one graph.
func (s *sharing) unchanged(g *Graph, lab string) {
	c := s.c
	o := g.owners()
	handed := map[*Term][]handover{}
	for _, h := range g.handovers() {
		n := 0
		for _, r := range o.reach(h.v) {
			n++
			if r.t != nil && r.foreignKind() == "" {
				handed[r.t] = append(handed[r.t], h)
			}
		}
		if n > 0 {
			c.ok("handed", lab+"/"+h.what, g.where(h.n), "")
		}
	}
	for _, e := range g.mapEffects() {
		why := ""
		for _, x := range o.of(e.m) {
			if w := x.foreignKind(); w != "" {
				why = w
				break
			}
			if x.kind == "state" {
				if w := s.of(x.path); w != "" {
					why = "others hold this part of the state: " + w
					break
				}
			}
			if x.t != nil {
				for _, h := range handed[x.t] {
					if h.n == e.n {
						continue
					}
					if p := g.find([]*Node{h.n}, searchOpt{
						avoid: func(n *Node) bool { return n == madeAt(x.t) },
						goal:  func(n *Node) bool { return n == e.n || e.n.fr.thread.spawn != nil && n == e.n.fr.thread.spawn },
					}); p != nil {
						why = "it was " + h.what + " before: " + g.pathText(p)
						break
					}
				}
			}
			if why != "" {
				break
			}
		}
		c.check(why == "", "unchanged", lab+"/"+e.kind+" "+shape(e.cont), g.where(e.n), "the map is changed although "+why)
	}
}

func ruleC07(c *Ctx) {
	for _, b := range c.backends() {
		s := &sharing{c: c, shared: map[string]string{}}
		var ms []string
		for _, m := range sortedMethods(b.methods) {
			ms = append(ms, m)
			s.gather(b.graph(m))
		}
		for _, m := range ms {
			s.unchanged(b.graph(m), b.obj(m))
		}
	}
	s := &sharing{c: c, shared: map[string]string{}}
	if g, _ := c.diskWriters(); g != nil {
		s.unchanged(g, "NewDiskStore")
		c.startShared(g)
	}
	// those who use the stores
	opq := opaqueService(c.p)
	entries := c.entries(opq)
	for _, f := range entries {
		g := c.graph(f, func(x *ssa.Function) bool {
			for x.Parent() != nil {
				x = x.Parent()
			}
			if x == f {
				return false
			}
			if funcPkgPath(x) == funcPkgPath(f) {
				return hasFn(entries, x)
			}
			return opq(x)
		}, "owner")
		s.gather(g)
		s.unchanged(g, fnLabel(f))
	}
}

func hasFn(fs []*ssa.Function, f *ssa.Function) bool {
	for _, x := range fs {
		if x == f {
			return true
		}
	}
	return false
}

// entries are the functions that nobody in their package calls, those that other packages call without looking inside,
// and the serializers.
func (c *Ctx) entries(opq func(*ssa.Function) bool) []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if x, ok := (*op).(*ssa.Function); ok && x != f {
						if x.Origin() != nil {
							x = x.Origin()
						}
						if !opq(x) || funcPkgPath(x) == funcPkgPath(f) {
							called[x] = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Name() == "init" || len(f.Blocks) == 0 {
			continue
		}
		switch funcPkgPath(f) {
		case Module + "/cache", Module + "/storage/buffers":
			continue
		case Module + "/storage":
			if f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "Serialize") {
				out = append(out, f)
			}
			continue
		}
		if called[f] {
			continue
		}
		// nobody uses it: it has nothing from others
		if f.Object() == nil || !f.Object().Exported() && len(f.Params) > 0 {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// startShared decides that the background goroutines keep off the maps the store starts with.
func (c *Ctx) startShared(g *Graph) {
	o := g.owners()
	held := map[own]string{}
	for _, r := range g.root.rets {
		for _, v := range g.vals(g.term(g.root, r.in.(*ssa.Return).Results[0])) {
			for _, x := range o.of(v) {
				if x.kind != "fresh" {
					continue
				}
				for _, y := range o.reach(x.t) {
					if y.t != nil {
						held[own{kind: y.kind, t: y.t}] = y.steps
					}
				}
			}
		}
	}
	c.check(len(held) > 0, "start", "NewDiskStore", g.where(g.root.entry), "the maps of the store are not recognized")
	for _, n := range g.liveNodes {
		if n.kind != NInstr || n.fr.thread.spawn == nil {
			continue
		}
		var m *Term
		switch in := n.in.(type) {
		case *ssa.Lookup:
			m = g.term(n.fr, in.X)
		case *ssa.Range:
			m = g.term(n.fr, in.X)
		case *ssa.MapUpdate:
			m = g.term(n.fr, in.Map)
		}
		if m == nil || m.typ == nil || !isMap(m.typ) {
			continue
		}
		bad := ""
		for _, x := range o.of(m) {
			if st, ok := held[own{kind: x.kind, t: x.t}]; ok {
				bad = st
			}
		}
		c.check(bad == "", "start", fnLabel(n.fr.thread.fr.fn)+"/"+shape(g.P(m)), g.where(n), "a background goroutine uses the map that the store keeps in "+bad)
	}
}

func init() { register("C07", 1, "", ruleC07) }
