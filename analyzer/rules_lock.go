package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LockUnit is one type whose values are shared between goroutines, with the graphs of everything that runs on them.
type LockUnit struct {
	name   string
	graphs []*unitGraph
}

type unitGraph struct {
	g    *Graph
	what string
	self string // name of the object in this graph
	ctor bool   // constructor: the main thread runs before the object is shared
}

// sAccess is one access to the shared state.
type sAccess struct {
	u     *unitGraph
	n     *Node
	field string // "F" for the field itself, "F/*" for what it leads to
	path  string
	write bool
	what  string
	eff   *Eff
}

var listMut = map[string]bool{"MoveToFront": true, "MoveToBack": true, "MoveBefore": true, "MoveAfter": true, "PushFront": true, "PushBack": true,
	"InsertBefore": true, "InsertAfter": true, "Remove": true, "Init": true, "PushFrontList": true, "PushBackList": true}

// selfPath rewrites a name of this graph so that the shared object is $0; "" when it is something else.
func (u *unitGraph) selfPath(p string) string {
	for strings.HasPrefix(p, "(*container/list.") {
		i := strings.Index(p, ")")
		j := strings.Index(p, "(*container/list.")
		if i < 0 || j != 0 {
			return ""
		}
		k := strings.Index(p[i:], "(")
		if k < 0 {
			return ""
		}
		p = p[i+k+1:]
	}
	if strings.HasPrefix(p, "&") {
		p = p[1:]
	}
	if p == u.self {
		return "$0"
	}
	if strings.HasPrefix(p, u.self+".") || strings.HasPrefix(p, u.self+"[") {
		return "$0" + p[len(u.self):]
	}
	return ""
}

// fieldOfPath splits "$0.F.x[..]" into F and whether it goes beyond the field.
func fieldOfPath(p string) (string, bool) {
	p = strings.TrimPrefix(p, "$0.")
	i := strings.IndexAny(p, ".[(,)@#")
	if i < 0 {
		return p, false
	}
	return p[:i], p[i] == '.' || p[i] == '['
}

func isSyncType(t types.Type) bool {
	t = derefType(t)
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic"
}

func (u *unitGraph) shared(n *Node) bool {
	if !u.ctor {
		return true
	}
	if n.fr.thread != u.g.threads[0] {
		return true
	}
	// after the first goroutine was started the object may be shared
	for _, t := range u.g.threads[1:] {
		if !t.callback && t.spawn != nil && t.spawn != n && u.g.reaches(t.spawn, n) && u.threadUses(t) {
			return true
		}
	}
	return false
}

// threadUses tells whether a goroutine touches the object.
func (u *unitGraph) threadUses(t *Thread) bool {
	for n := range u.g.threadNodes(t) {
		if n.kind == NInstr {
			if v, ok := n.in.(ssa.Value); ok && v.Type() != nil {
				if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
					if u.selfPath(u.g.P(u.g.term(n.fr, v))) != "" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (u *unitGraph) stateAccesses() []sAccess {
	var out []sAccess
	g := u.g
	add := func(n *Node, name string, write bool, what string, header bool) {
		p := u.selfPath(name)
		if p == "" || p == "$0" || !u.shared(n) {
			return
		}
		f, deep := fieldOfPath(p)
		if !header || deep {
			f += "/*"
		}
		out = append(out, sAccess{u: u, n: n, field: f, path: p, write: write, what: what})
	}
	for _, a := range g.accesses() {
		if strings.HasPrefix(a.cont, "field ") {
			n := a.n
			var t types.Type
			switch in := n.in.(type) {
			case *ssa.Store:
				t = in.Val.Type()
			case *ssa.UnOp:
				t = in.Type()
			}
			if t != nil && isSyncType(t) {
				continue
			}
			add(n, strings.TrimPrefix(a.cont, "field "), a.write, a.what, true)
			continue
		}
		add(a.n, a.cont, a.write, a.what, false)
	}
	for _, n := range g.liveNodes {
		if n.kind != NInstr && n.kind != NDeferred {
			continue
		}
		c := n.common()
		if c == nil || (n.kind == NInstr && isDeferOrGo(n)) {
			continue
		}
		cn := n.callName()
		switch {
		case strings.HasPrefix(cn, "(*container/list.List)."):
			m := cn[strings.LastIndex(cn, ".")+1:]
			add(n, g.deref(g.callArgs(n)[0], true), listMut[m], "list."+m, false)
		case cn == lruGet || cn == lruPut:
			as := g.callArgs(n)
			w := cn == lruPut
			if w {
				if s := g.docSourceAt(as[2], g.P(as[1]), n); s != nil && s.kind == "file" {
					w = false
				}
			}
			add(n, g.deref(as[0], true), w, "cache."+cn[strings.LastIndex(cn, ".")+1:], false)
		}
	}
	return out
}

// lockSelf rewrites the locks held before a node to names of the shared object.
func (u *unitGraph) heldAt(ls lockset) lockset {
	out := lockset{}
	for k, v := range ls {
		if p := u.selfPath(k); p != "" {
			k = p
		}
		out[k] = v
	}
	return out
}

// lockUnits are the stores and the caches.
func (c *Ctx) lockUnits() []*LockUnit {
	var out []*LockUnit
	for _, b := range c.backends() {
		u := &LockUnit{name: b.name}
		for _, m := range sortedMethods(b.methods) {
			u.graphs = append(u.graphs, &unitGraph{g: b.graph(m), what: b.obj(m), self: "$0"})
		}
		c.ctors(u, "storage", b.typ, opaqueStore(c.p), "store")
		out = append(out, u)
	}
	pk := c.p.Package("cache")
	var names []string
	for _, n := range pk.Pkg.Scope().Names() {
		tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.NumMethods() == 0 {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			continue
		}
		u := &LockUnit{name: n}
		for _, f := range exportedMethods(c.p, nt) {
			u.graphs = append(u.graphs, &unitGraph{g: c.graph(f, nil, "cache"), what: n + "." + f.Name(), self: "$0"})
		}
		c.ctors(u, "cache", nt, nil, "cache")
		names = append(names, n)
		out = append(out, u)
	}
	for _, want := range []string{"LRUCache", "SyncMap", "RCU", "LocalMap", "Shard"} {
		found := false
		for _, n := range names {
			found = found || n == want
		}
		c.check(found, "anchor", "cache."+want, "", "the type does not exist any more")
	}
	return out
}

// ctors adds the functions that make values of a type, with the goroutines they start.
func (c *Ctx) ctors(u *LockUnit, pkg string, nt *types.Named, opq func(*ssa.Function) bool, tag string) {
	pk := c.p.Package(pkg)
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := pk.Members[n].(*ssa.Function)
		if !ok || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || !f.Object().Exported() {
			continue
		}
		g := c.graph(f, opq, tag)
		self := ""
		for _, ch := range g.rootResults(0) {
			v := ch.v
			for v.op == "iface" {
				v = v.args[0]
			}
			if v.op == "fresh" && namedOf(v.typ) == nt.Obj() {
				self = g.deref(v, true)
			}
		}
		if self != "" {
			u.graphs = append(u.graphs, &unitGraph{g: g, what: n, self: self, ctor: true})
		}
	}
}

func namedOf(t types.Type) *types.TypeName {
	t = derefType(t)
	if n, ok := t.(*types.Named); ok {
		return n.Origin().Obj()
	}
	return nil
}

func ruleC05(c *Ctx) {
	for _, u := range c.lockUnits() {
		c.lockDiscipline(u)
		c.lockTypestate(u)
	}
}

func (c *Ctx) lockDiscipline(u *LockUnit) {
	byField := map[string][]sAccess{}
	mutable := map[string]bool{}
	for _, ug := range u.graphs {
		for _, a := range ug.stateAccesses() {
			byField[a.field] = append(byField[a.field], a)
			if a.write {
				mutable[a.field] = true
			}
		}
	}
	guard := map[string]string{}
	for _, f := range sortedKeys(byField) {
		if !mutable[f] {
			c.ok("never-changed", u.name+"."+f, "", fmt.Sprintf("%d reads", len(byField[f])))
			continue
		}
		count := map[string]int{}
		held := make([]lockset, len(byField[f]))
		for i, a := range byField[f] {
			held[i] = a.u.heldAt(a.u.g.locks().must[a.n])
			for k := range held[i] {
				if strings.HasPrefix(k, "$0.") {
					count[k]++
				}
			}
		}
		best := ""
		for _, k := range sortedKeys(count) {
			if best == "" || count[k] > count[best] {
				best = k
			}
		}
		guard[f] = best
		for i, a := range byField[f] {
			con := u.name + "." + f + " in " + a.u.what
			switch {
			case best == "":
				c.bad("lock-held", con, a.u.g.where(a.n), a.what+" of "+a.path+" without any lock, although the state changes while it is shared")
			case held[i][best] == 0:
				c.bad("lock-held", con, a.u.g.where(a.n), a.what+" of "+a.path+" without "+best+", which guards it elsewhere")
			case a.write && held[i][best] != heldW:
				c.bad("lock-held", con, a.u.g.where(a.n), a.what+" of "+a.path+" under the shared lock "+best)
			default:
				c.ok("lock-held", con, a.u.g.where(a.n), best)
			}
		}
	}
	c.atomicUpdates(u, guard, mutable)
	c.handOut(u, mutable)
}

// handOut: no method gives its caller a guarded container or the address of a guarded place.
func (c *Ctx) handOut(u *LockUnit, mutable map[string]bool) {
	stored := map[string]bool{}
	for _, ug := range u.graphs {
		for _, e := range ug.g.effects() {
			if e.kind == "store" && ug.shared(e.n) {
				if p := ug.selfPath(e.path); p != "" {
					stored[shape(p)] = true
				}
			}
		}
	}
	for _, ug := range u.graphs {
		if ug.ctor {
			continue
		}
		sig := ug.g.root.fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			bad := ""
			where := ug.g.where(ug.g.root.entry)
			for _, ch := range ug.g.rootResults(i) {
				switch sig.At(i).Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer, *types.Struct:
				default:
					continue
				}
				if _, isTP := types.Unalias(sig.At(i).Type()).(*types.TypeParam); isTP {
					continue
				}
				if _, isPtr := sig.At(i).Type().Underlying().(*types.Pointer); isPtr {
					if p := ug.selfPath(ug.g.loc(ch.v, true)); p != "" && stored[shape(p)] {
						bad, where = "the address of "+p, ug.g.where(ch.at)
					}
				}
				p := ug.selfPath(ug.g.P(ch.v))
				if p == "" || p == "$0" {
					continue
				}
				f, _ := fieldOfPath(p)
				if _, isMap := sig.At(i).Type().Underlying().(*types.Map); isMap && mutable[f+"/*"] {
					bad, where = p, ug.g.where(ch.at)
				}
			}
			c.check(bad == "", "handed-out", ug.what, where, "the caller gets "+bad+", which changes under the lock")
		}
	}
}

// atomicUpdates: what a change is computed from was read in the same critical section.
func (c *Ctx) atomicUpdates(u *LockUnit, guard map[string]string, mutable map[string]bool) {
	// a field only one goroutine changes keeps its value while that goroutine does not hold the lock
	writers := map[string]map[*Thread]bool{}
	for _, ug := range u.graphs {
		for _, a := range ug.stateAccesses() {
			if a.write {
				f := strings.TrimSuffix(a.field, "/*")
				if writers[f] == nil {
					writers[f] = map[*Thread]bool{}
				}
				writers[f][a.n.fr.thread] = true
			}
		}
	}
	single := func(ug *unitGraph, a sAccess) bool {
		t := a.n.fr.thread
		return ug.ctor && t != ug.g.threads[0] && !t.callback && t.spawn != nil && ug.g.loopOf[t.spawn] == nil &&
			len(writers[strings.TrimSuffix(a.field, "/*")]) == 1
	}
	for _, ug := range u.graphs {
		g := ug.g
		for _, a := range ug.stateAccesses() {
			lock := guard[a.field]
			if !a.write || lock == "" || single(ug, a) {
				continue
			}
			reads := map[*Node]bool{}
			seen := map[*Term]bool{}
			var collect func(t *Term)
			collect = func(t *Term) {
				if t == nil || seen[t] {
					return
				}
				seen[t] = true
				if t.node != nil {
					p := ""
					switch t.op {
					case "lookup", "lookupok":
						p = ug.selfPath(g.deref(t.args[0], true))
					case "load", "init", "snapshot":
						p = ug.selfPath(g.loc(t.args[0], true))
					case "call":
						if t.s == lruGet {
							p = ug.selfPath(g.deref(t.args[0], true))
						}
					}
					if p != "" && p != "$0" {
						f, deep := fieldOfPath(p)
						if t.op == "call" || t.op == "lookup" || t.op == "lookupok" {
							deep = true
						}
						if deep {
							f += "/*"
						}
						if mutable[f] && guard[f] == lock {
							reads[t.node] = true
						}
					}
				}
				for _, x := range t.args {
					collect(x)
				}
				for _, x := range g.alts(t) {
					collect(x)
				}
			}
			switch in := a.n.in.(type) {
			case *ssa.MapUpdate:
				collect(g.term(a.n.fr, in.Value))
			case *ssa.Store:
				collect(g.term(a.n.fr, in.Val))
			}
			// the end of a loop that always runs to its end decides nothing
			ends := map[*Node]bool{}
			for _, l := range g.loops {
				if l.done != nil && len(g.exits(l)) == 0 {
					ends[l.done] = true
				}
			}
			for _, b := range g.guards(a.n) {
				if b.kind == NBranch && !b.maybe && !ends[b] {
					collect(g.term(b.fr, b.cond))
				}
			}
			bad := ""
			for r := range reads {
				if r.fr.thread != a.n.fr.thread {
					continue
				}
				p := g.find([]*Node{r}, searchOpt{
					avoid: func(n *Node) bool { return n == a.n },
					goal: func(n *Node) bool {
						if op := lockOp(n.callName()); (op == "w" || op == "r") && !(n.kind == NInstr && isDeferOrGo(n)) {
							nm := g.lockName(n)
							if s := ug.selfPath(nm); s != "" {
								nm = s
							}
							return nm == lock
						}
						return false
					},
				})
				if p == nil {
					continue
				}
				// the write comes after the unlock, without reading again
				last := p[len(p)-1]
				if q := g.find([]*Node{last}, searchOpt{
					avoid: func(n *Node) bool { return n == r || n == g.root.exit },
					goal:  func(n *Node) bool { return n == a.n },
				}); q != nil {
					bad = "computed from what was read at " + g.where(r) + " before the lock was released"
				}
			}
			c.check(bad == "", "one-critical-section", u.name+"."+a.field+" in "+ug.what, g.where(a.n), a.what+" of "+a.path+" "+bad)
		}
	}
}

// lockTypestate: balanced on every path, never taken twice, never waited under for somebody who needs it.
func (c *Ctx) lockTypestate(u *LockUnit) {
	type pair struct{ a, b string }
	order := map[pair]string{}
	recvLocks := map[string]map[string]string{} // channel -> locks its receivers take
	type snd struct {
		ch, lock, what, where string
	}
	var sends []snd
	for _, ug := range u.graphs {
		g := ug.g
		ls := g.locks()
		bad := 0
		for _, n := range g.liveNodes {
			if n.kind == NInstr && isDeferOrGo(n) {
				continue
			}
			if n.kind == NInstr {
				if s, ok := n.in.(*ssa.Send); ok {
					if ch := ug.selfPath(g.P(g.term(n.fr, s.Chan))); ch != "" {
						for k := range ug.heldAt(ls.may[n]) {
							sends = append(sends, snd{ch, k, ug.what, g.where(n)})
						}
					}
				}
			}
			op := lockOp(n.callName())
			if op == "" {
				continue
			}
			name := g.lockName(n)
			nm := name
			if s := ug.selfPath(name); s != "" {
				nm = s
			}
			switch op {
			case "W", "R":
				if ls.may[n][name] != 0 {
					bad++
					c.bad("lock-balance", ug.what, g.where(n), nm+" is taken while it may already be held")
				}
				for k := range ug.heldAt(ls.may[n]) {
					order[pair{k, nm}] = g.where(n)
				}
			case "w", "r":
				want := heldW
				if op == "r" {
					want = heldR
				}
				if ls.must[n][name] != want {
					bad++
					c.bad("lock-balance", ug.what, g.where(n), nm+" is released in a way it may not be held")
				}
			}
		}
		if h := ls.may[g.root.exit]; len(h) > 0 {
			bad++
			for k := range h {
				c.bad("lock-balance", ug.what, g.where(g.root.exit), k+" may still be held when the operation ends")
			}
		}
		for _, t := range g.threads[1:] {
			if t.callback || t.exit == nil {
				continue
			}
			for k := range ls.may[t.exit] {
				bad++
				c.bad("lock-balance", ug.what, g.where(t.entry), k+" may still be held when the goroutine ends")
			}
		}
		if bad == 0 {
			c.ok("lock-balance", ug.what, g.where(g.root.entry), "")
		}
		// receivers
		if ug.ctor {
			for _, t := range g.threads[1:] {
				if t.callback {
					continue
				}
				nodes := g.threadNodes(t)
				var chans []string
				locks := map[string]string{}
				for n := range nodes {
					for _, ch := range g.recvChans(n) {
						for _, r := range ug.chanRoles(ch) {
							chans = append(chans, r)
						}
					}
					if op := lockOp(n.callName()); op == "W" || op == "R" {
						nm := g.lockName(n)
						if s := ug.selfPath(nm); s != "" {
							nm = s
						}
						locks[nm] = g.where(n)
					}
				}
				for _, ch := range chans {
					if recvLocks[ch] == nil {
						recvLocks[ch] = map[string]string{}
					}
					for k, w := range locks {
						recvLocks[ch][k] = w
					}
				}
			}
		}
	}
	for _, s := range sends {
		w := recvLocks[s.ch][s.lock]
		c.check(w == "", "no-wait-for-lock-holder", u.name+" "+s.ch+" in "+s.what, s.where, "it waits for the receiver of "+s.ch+" while it holds "+s.lock+", which the receiver takes at "+w)
	}
	for p, w := range order {
		if w2, ok := order[pair{p.b, p.a}]; ok && p.a != p.b {
			c.bad("lock-order", u.name, w, p.a+" and "+p.b+" are taken in both orders, also at "+w2)
		}
	}
}

// recvChans are the channels a node receives from.
func (g *Graph) recvChans(n *Node) []*Term {
	if n.kind != NInstr {
		return nil
	}
	switch in := n.in.(type) {
	case *ssa.UnOp:
		if in.Op.String() == "<-" {
			return []*Term{g.term(n.fr, in.X)}
		}
	case *ssa.Select:
		var out []*Term
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				out = append(out, g.term(n.fr, s.Chan))
			}
		}
		return out
	}
	return nil
}

// chanRoles names the fields of the object that hold a channel.
func (u *unitGraph) chanRoles(ch *Term) []string {
	g := u.g
	set := map[string]bool{}
	if p := u.selfPath(g.P(ch)); p != "" {
		set[p] = true
	}
	for _, v := range g.vals(ch) {
		if v.op != "fresh" {
			continue
		}
		for _, p := range g.publications(v) {
			if s := u.selfPath(p.path); s != "" {
				set[s] = true
			}
		}
	}
	return sortedKeys(set)
}

func init() {
	register("C05", 1, "", ruleC05)
}
