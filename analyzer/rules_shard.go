package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C25: shards ----------------------------------------------------------------------------------------------

// span is the range of an integer term: below the number of shards, or between two numbers.
type span struct {
	lo, hi *big.Int
	below  bool // also < n
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// typeSpan is the range of an integer type on a platform with intBits wide int and uint.
func typeSpan(t types.Type, intBits int) (span, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return span{}, false
	}
	bits := intBits
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.Int64, types.Uint64:
		bits = 64
	case types.UntypedInt, types.UntypedRune:
		bits = 64
	}
	if b.Info()&types.IsUnsigned != 0 {
		return span{lo: big.NewInt(0), hi: new(big.Int).Sub(pow2(bits), big.NewInt(1))}, true
	}
	return span{lo: new(big.Int).Neg(pow2(bits - 1)), hi: new(big.Int).Sub(pow2(bits-1), big.NewInt(1))}, true
}

func (s span) fits(t span) bool { return s.lo.Cmp(t.lo) >= 0 && s.hi.Cmp(t.hi) <= 0 }

type router struct {
	g       *Graph
	isCount func(*Term) bool // the number of shards itself
	bits    int
	busy    map[*Term]bool
}

// count tells whether t is the number of shards, through conversions that keep every realistic number (below 2^31).
func (r *router) count(t *Term) bool {
	t = r.g.single(t)
	for t.op == "conv" && !r.isCount(t) {
		ts, ok := typeSpan(t.typ, r.bits)
		if !ok || ts.hi.Cmp(big.NewInt(1<<31-1)) < 0 {
			return false
		}
		t = r.g.single(t.args[0])
	}
	return r.isCount(t)
}

func (r *router) at(t *Term, n *Node) (span, bool) {
	full, ok := typeSpan(t.typ, r.bits)
	if !ok {
		return full, false
	}
	if r.busy[t] {
		return full, true
	}
	r.busy[t] = true
	defer delete(r.busy, t)
	chs := r.g.choices(t, n)
	if len(chs) == 1 && chs[0].v == t {
		return r.plain(t, n), true
	}
	var out span
	for i, ch := range chs {
		s := r.plain(ch.v, ch.at)
		s = r.refine(s, ch.v, ch.at)
		if i == 0 {
			out = s
			continue
		}
		if s.lo.Cmp(out.lo) < 0 {
			out.lo = s.lo
		}
		if s.hi.Cmp(out.hi) > 0 {
			out.hi = s.hi
		}
		out.below = out.below && s.below
	}
	if len(chs) == 0 {
		return full, true
	}
	return out, true
}

// refine uses the branch outcomes that dominate the place: v < 0, v >= 0.
func (r *router) refine(s span, v *Term, at *Node) span {
	g := r.g
	neg := v
	if v.op == "un" && v.s == "-" {
		neg = v.args[0]
	} else if v.op == "bin" && v.s == "-" && isZeroConst(v.args[0]) {
		neg = v.args[1]
	}
	for _, b := range append(g.guards(at), at) {
		atom := func(t *Term) string {
			if g.P(t) == g.P(neg) {
				return "v"
			}
			return ""
		}
		f, op, ok := g.linCond(b, atom)
		if !ok || op != ">=" {
			continue
		}
		if k, ok := f.is(map[string]int64{"v": 1}); ok && neg == v && k <= 0 {
			// v >= -k >= 0
			if s.lo.Cmp(big.NewInt(-k)) < 0 {
				s.lo = big.NewInt(-k)
			}
		}
		if k, ok := f.is(map[string]int64{"v": -1}); ok && neg != v && k <= 0 {
			// the negated value is <= 0
			x := r.plain(neg, at)
			if x.lo.Cmp(big.NewInt(k)) > 0 {
				// the branch is never taken
				return span{lo: big.NewInt(0), hi: big.NewInt(0), below: true}
			}
			if x.lo.Cmp(big.NewInt(0)) < 0 {
				hi := new(big.Int).Neg(x.lo)
				full, _ := typeSpan(v.typ, r.bits)
				if hi.Cmp(full.hi) <= 0 {
					s.lo, s.hi, s.below = big.NewInt(-k), hi, x.below
				}
			}
		}
	}
	return s
}

func (r *router) plain(t *Term, n *Node) span {
	full, _ := typeSpan(t.typ, r.bits)
	if full.lo == nil {
		return span{lo: new(big.Int).Neg(pow2(70)), hi: pow2(70)}
	}
	sub := func(x *Term) span {
		s, ok := r.at(x, n)
		if !ok {
			return span{lo: new(big.Int).Neg(pow2(70)), hi: pow2(70)}
		}
		return s
	}
	zero := big.NewInt(0)
	switch t.op {
	case "const":
		if v, ok := constInt(t); ok {
			return span{lo: big.NewInt(v), hi: big.NewInt(v)}
		}
	case "conv":
		s := sub(t.args[0])
		if s.fits(full) {
			return s
		}
	case "len":
		return span{lo: zero, hi: full.hi}
	case "bin":
		switch t.s {
		case "%":
			x := sub(t.args[0])
			if r.count(t.args[1]) {
				// the remainder has the sign of x; |remainder| < n
				s := span{lo: zero, hi: full.hi, below: true}
				if top := big.NewInt(1<<31 - 2); top.Cmp(s.hi) < 0 {
					s.hi = top
				}
				if x.hi.Cmp(s.hi) < 0 {
					s.hi = x.hi
				}
				if x.lo.Sign() < 0 {
					s.lo = big.NewInt(-(1<<31 - 2))
				}
				return s
			}
			if m, ok := constInt(t.args[1]); ok && m > 0 && x.lo.Sign() >= 0 {
				return span{lo: zero, hi: big.NewInt(m - 1)}
			}
		case "&":
			x, y := sub(t.args[0]), sub(t.args[1])
			var hi *big.Int
			for _, s := range []span{x, y} {
				if s.lo.Sign() >= 0 && (hi == nil || s.hi.Cmp(hi) < 0) {
					hi = s.hi
				}
			}
			if hi != nil {
				return span{lo: zero, hi: hi, below: x.below && x.lo.Sign() >= 0 || y.below && y.lo.Sign() >= 0}
			}
		case ">>":
			x := sub(t.args[0])
			if k, ok := constInt(stripConv(t.args[1])); ok && x.lo.Sign() >= 0 && k >= 0 && k < 64 {
				return span{lo: zero, hi: new(big.Int).Rsh(x.hi, uint(k)), below: x.below}
			}
		case "+":
			x, y := sub(t.args[0]), sub(t.args[1])
			s := span{lo: new(big.Int).Add(x.lo, y.lo), hi: new(big.Int).Add(x.hi, y.hi)}
			if s.fits(full) {
				return s
			}
			if r.count(t.args[1]) && x.below && x.hi.Sign() <= 0 {
				return span{lo: zero, hi: full.hi, below: true}
			}
		}
	}
	return full
}

var pureHash = []string{"hash/crc32.", "hash/crc64.", "hash/adler32.", "hash/fnv.", "(hash.Hash", "(*hash/fnv.", "crypto/md5.Sum", "crypto/sha1.Sum", "crypto/sha256.Sum", "encoding/binary.", "strings.", "builtin.", "bytes.", "(encoding/binary."}

// routeDeps lists what the route depends on besides the key, the number of shards and constants.
func (g *Graph) routeDeps(t *Term, isCount func(*Term) bool, key string) []string {
	seen := map[*Term]bool{}
	bad := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if isCount(t) {
			return
		}
		switch t.op {
		case "const", "none", "func", "closure":
			return
		case "param":
			if "$"+t.s != key {
				bad["$"+t.s] = true
			}
			return
		case "global":
			bad[g.P(t)] = true
			return
		case "call":
			ok := false
			for _, p := range pureHash {
				ok = ok || strings.HasPrefix(t.s, p)
			}
			if !ok {
				bad[t.s] = true
				return
			}
		case "recv", "rangekey", "rangeval", "cbparam", "freevar":
			if t.op == "rangekey" || t.op == "rangeval" {
				if _, ok := t.args[0].typ.Underlying().(*types.Basic); ok {
					break
				}
			}
			bad[g.P(t)] = true
			return
		case "init", "snapshot":
			root := t.args[0]
			for root.op == "fieldaddr" || root.op == "indexaddr" {
				root = root.args[0]
			}
			if root.op != "fresh" {
				bad[g.loc(t.args[0], true)] = true
				return
			}
		}
		if as := g.alts(t); as != nil {
			for _, a := range as {
				rec(a)
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return sortedKeys(bad)
}

func ruleC25(c *Ctx) {
	st, lm := c.p.Named("cache", "Shard"), c.p.Named("cache", "LocalMap")
	if st == nil || lm == nil {
		c.bad("anchor", "cache.Shard", "", "cache.Shard or cache.LocalMap does not exist")
		return
	}
	c.localMap()
	meth := map[string]*ssa.Function{}
	for _, f := range exportedMethods(c.p, st) {
		meth[f.Name()] = f
	}
	if meth["Get"] == nil {
		c.bad("anchor", "cache.Shard.Get", "", "the method does not exist")
		return
	}
	shardField, countField := "", ""
	strct := st.Underlying().(*types.Struct)
	for i := 0; i < strct.NumFields(); i++ {
		f := strct.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			if tn := namedOf(u.Elem()); tn != nil && tn.Name() == "LocalMap" {
				shardField = f.Name()
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				countField = f.Name()
			}
		}
	}
	if !c.check(shardField != "", "anchor", "cache.Shard", "", "no field maps numbers to shards") {
		return
	}
	g := c.graph(meth["Get"], nil, "full")
	shards := "$0." + shardField
	isCount := func(t *Term) bool {
		p := g.P(t)
		return countField != "" && p == "$0."+countField || p == "len("+shards+")"
	}
	// every result is an entry of the shards
	var routes []*Term
	var zeros []Choice
	for _, ch := range g.rootResults(0) {
		if isZeroConst(ch.v) {
			zeros = append(zeros, ch)
			continue
		}
		if !c.check(ch.v.op == "lookup" && g.deref(ch.v.args[0], true) == shards, "route", "Shard.Get", g.where(ch.at), "it returns "+g.P(ch.v)+", not an entry of the shards") {
			return
		}
		routes = append(routes, ch.v.args[1])
	}
	if !c.check(len(routes) > 0, "route", "Shard.Get", g.where(g.root.entry), "it returns no shard") {
		return
	}
	// no shard, or a panic, only when there is none
	slot := shards + "[" + g.P(routes[0]) + "]"
	for _, n := range g.liveNodes {
		if _, ok := n.in.(*ssa.Panic); ok && n.kind == NInstr || n.common() != nil && isNoReturn(n.common()) {
			zeros = append(zeros, Choice{nil, n})
		}
	}
	for _, z := range zeros {
		none := func(b *Node) bool {
			if g.emptyGuard(b, slot) {
				return true
			}
			// a route outside the numbers, or no shards at all
			f, op, ok := g.linCond(b, func(t *Term) string {
				switch {
				case isCount(t):
					return "n"
				case g.P(t) == g.P(routes[0]) || t == g.bare(routes[0]):
					return "r"
				}
				return ""
			})
			if !ok || op != ">=" {
				return false
			}
			if k, ok := f.is(map[string]int64{"r": 1, "n": -1}); ok && k <= 0 {
				return true
			}
			if k, ok := f.is(map[string]int64{"r": -1}); ok && k < 0 {
				return true
			}
			k, ok := f.is(map[string]int64{"n": -1})
			return ok && k <= 0
		}
		c.check(g.onlyIf(z.at, none), "route", "Shard.Get/found", g.where(z.at), "it gives no shard although there may be one for the key")
	}
	for _, r := range g.rootResults(1) {
		ok := r.v.op == "lookupok" && g.P(r.v) == "has("+slot+")" || isBoolConst(r.v, true)
		if isBoolConst(r.v, false) {
			ok = g.onlyIf(r.at, func(b *Node) bool { return g.emptyGuard(b, slot) })
		}
		c.check(ok, "route", "Shard.Get/found", g.where(r.at), "whether there is a shard is "+g.P(r.v))
	}
	for _, r := range routes {
		c.check(g.P(r) == g.P(routes[0]), "route", "Shard.Get", g.where(g.root.entry), "it uses two routes: "+g.P(r)+" and "+g.P(routes[0]))
		deps := g.routeDeps(r, isCount, "$1")
		c.check(len(deps) == 0, "route-function", "Shard.Get", g.where(g.root.entry), "the route depends on "+strings.Join(deps, ", "))
		for _, bits := range []int{32, 64} {
			rt := &router{g: g, isCount: isCount, bits: bits, busy: map[*Term]bool{}}
			s, ok := rt.at(r, g.root.rets[0])
			what := "int has 32 bits"
			if bits == 64 {
				what = "int has 64 bits"
			}
			c.check(ok && s.below && s.lo.Sign() >= 0, "route-range", "Shard.Get, "+what, g.where(g.root.entry), "the route "+g.P(r)+" is not shown to lie between 0 and the number of shards")
		}
	}
	// nothing but the constructor changes the number or the shards
	for _, name := range sortedMethods(meth) {
		gm := c.graph(meth[name], nil, "full")
		n := 0
		for _, e := range gm.effects() {
			if strings.HasPrefix(e.path, "$0.") {
				n++
				c.bad("fixed", "Shard."+name, gm.where(e.n), "it changes "+e.path)
			}
		}
		if n == 0 {
			c.ok("fixed", "Shard."+name, gm.where(gm.root.entry), "")
		}
	}
	ctors := c.ctorsOf("cache", "Shard")
	c.check(len(ctors) > 0, "constructor", "Shard", "", "it has no constructor")
	for _, f := range ctors {
		c.shardCtor(f, shardField, countField)
	}
	// nor any other function of the module
	for _, f := range c.p.Funcs {
		if !c.p.InModule(f) || f.Blocks == nil {
			continue
		}
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if tn := namedOf(fa.X.Type()); tn == nil || tn.Name() != "Shard" || tn.Pkg() != st.Obj().Pkg() {
					continue
				}
				if funcPkgPath(f) == Module+"/cache" {
					continue
				}
				if fa.Referrers() == nil {
					continue
				}
				for _, u := range *fa.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == fa {
						c.bad("fixed", fnLabel(f), c.p.Pos(in.Pos()), "it changes a field of a Shard")
					}
					if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.Referrers() != nil {
						for _, u2 := range *ld.Referrers() {
							if mu, ok := u2.(*ssa.MapUpdate); ok && mu.Map == ld {
								c.bad("fixed", fnLabel(f), c.p.Pos(mu.Pos()), "it changes the shards of a Shard")
							}
						}
					}
				}
			}
		}
	}
}

// shardCtor: shards 0..n-1 are made, each its own, and n is what Get divides by.
func (c *Ctx) shardCtor(f *ssa.Function, shardField, countField string) {
	g := c.graph(f, nil, "full")
	lab := fnLabel(f)
	var obj *Term
	for _, r := range g.rootResults(0) {
		if isZeroConst(r.v) {
			continue
		}
		if r.v.op != "fresh" || obj != nil && obj != r.v {
			c.bad("constructor", lab, g.where(r.at), "it returns "+g.P(r.v)+", not one new Shard")
			return
		}
		obj = r.v
	}
	if !c.check(obj != nil, "constructor", lab, g.where(g.root.entry), "it returns no Shard") {
		return
	}
	field := func(name string) []*Term {
		var out []*Term
		for _, r := range g.root.rets {
			if !g.live[r] {
				continue
			}
			st := derefType(obj.typ).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					a := g.mk(&Term{op: "fieldaddr", s: name, args: []*Term{obj}, typ: types.NewPointer(st.Field(i).Type())})
					for _, m := range g.memVals(r, a, st.Field(i).Type()) {
						out = append(out, g.vals(m.val)...)
					}
				}
			}
		}
		return out
	}
	count := "$0"
	if countField != "" {
		vs := field(countField)
		ok := len(vs) > 0
		for _, v := range vs {
			if g.P(v) != "$0" {
				ok = false
				c.bad("constructor", lab+"/"+countField, g.where(g.root.entry), "the number of shards is "+g.P(v)+", not what was asked for")
			}
		}
		if ok {
			c.ok("constructor", lab+"/"+countField, g.where(g.root.entry), count)
		}
	}
	ms := map[*Term]bool{}
	for _, v := range field(shardField) {
		ms[v] = true
		if v.op != "fresh" {
			c.bad("constructor", lab, g.where(g.root.entry), "the shards are "+g.P(v)+", not a new map")
			return
		}
	}
	if !c.check(len(ms) == 1, "constructor", lab, g.where(g.root.entry), "the shards are not one new map") {
		return
	}
	var fill []Eff
	for _, e := range g.effects() {
		if e.kind == "store" || !ms[g.single(e.m)] {
			continue
		}
		if e.kind != "update" {
			c.bad("constructor", lab, g.where(e.n), "it removes a shard")
			return
		}
		fill = append(fill, e)
	}
	good := false
	why := "no loop makes one shard for each number"
	for _, e := range fill {
		l := g.loopOf[e.n]
		if l == nil || l.kind != "count" && l.kind != "slice" {
			c.bad("constructor", lab, g.where(e.n), "a shard is stored outside the loop over the numbers")
			continue
		}
		switch {
		case l.bound == nil || g.P(l.bound) != "$0":
			why = "the loop runs to another number than the number of shards"
		case g.single0(e.k) != g.single0(l.key):
			why = "a shard is stored under " + g.P(e.k) + ", not under its number"
		case len(g.exits(l)) > 0:
			why = "the loop over the numbers may be left early"
		default:
			if p := g.perIteration(l, func(n *Node) bool { return n == e.n }); p != nil {
				why = "a number may be left without shard: " + g.pathText(p)
				break
			}
			v := g.single(e.v)
			if v.op != "fresh" || g.loopOf[v.node] != l {
				why = "the shards are not made one by one: two numbers may share a shard"
				break
			}
			if p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return l.body[n] || n == l.header }, goal: g.isRootExit}); p != nil {
				why = "the loop may be skipped: " + g.pathText(p)
				break
			}
			good = true
		}
	}
	c.check(good, "constructor", lab+"/shards", g.where(g.root.entry), why)
}

// localMap: set and get of a shard use the slot of the key.
func (c *Ctx) localMap() {
	nt := c.p.Named("cache", "LocalMap")
	meth := map[string]*ssa.Function{}
	for _, f := range exportedMethods(c.p, nt) {
		meth[f.Name()] = f
	}
	if meth["Get"] == nil || meth["Set"] == nil {
		c.bad("anchor", "cache.LocalMap", "", "Get or Set does not exist")
		return
	}
	slot := c.slotGetter(c.graph(meth["Get"], nil, "full"), "LocalMap.Get", "local-get")
	if slot == "" {
		return
	}
	store := strings.TrimSuffix(slot, "[$1]")
	g := c.graph(meth["Set"], nil, "full")
	sets := map[*Node]bool{}
	for _, e := range g.effects() {
		if !under(e.path, store) && !under(e.cont, store) {
			continue
		}
		if e.path != slot || e.kind == "delete" || e.kind == "clear" {
			c.bad("local-set", "LocalMap.Set", g.where(e.n), "it changes "+e.path+" beside "+slot)
			continue
		}
		// the value, or a pointer to a new cell that holds it
		ok := true
		for _, ch := range g.pointees(e.v, e.n) {
			if g.P(ch.v) != "$2" {
				ok = false
			}
		}
		if ok {
			sets[e.n] = true
		} else {
			c.bad("local-set", "LocalMap.Set", g.where(e.n), "it stores "+g.P(e.v)+", not the value it was given")
		}
	}
	p := g.find([]*Node{g.root.entry}, searchOpt{avoid: func(n *Node) bool { return sets[n] }, goal: g.isRootExit})
	c.check(p == nil && len(sets) > 0, "local-set", "LocalMap.Set", g.where(g.root.entry), "the value may not be stored under its key: "+g.pathText(p))
	for _, name := range sortedMethods(meth) {
		if name == "Set" {
			continue
		}
		g := c.graph(meth[name], nil, "full")
		n := 0
		for _, e := range g.effects() {
			if under(e.path, store) || under(e.cont, store) && e.kind != "store" {
				n++
				c.bad("local-others", "LocalMap."+name, g.where(e.n), "it changes "+e.path)
			}
		}
		if n == 0 {
			c.ok("local-others", "LocalMap."+name, g.where(g.root.entry), "")
		}
	}
	// the snapshot of all values holds every entry
	if f := meth["GetData"]; f != nil {
		c.wholeCopy(c.graph(f, nil, "full"), "LocalMap.GetData", store)
	}
	for _, f := range c.ctorsOf("cache", "LocalMap") {
		g := c.graph(f, nil, "full")
		for _, r := range g.rootResults(0) {
			c.check(r.v.op == "fresh", "local-new", fnLabel(f), g.where(r.at), "it returns "+g.P(r.v)+", not a new map")
		}
		name := strings.TrimPrefix(store, "$0.")
		ok := false
		for _, n := range g.liveNodes {
			if st, isSt := n.in.(*ssa.Store); isSt && n.kind == NInstr {
				a := g.term(n.fr, st.Addr)
				if a.op == "fieldaddr" && a.s == name && g.single(g.term(n.fr, st.Val)).op == "fresh" {
					ok = true
				}
			}
		}
		c.check(ok, "local-new", fnLabel(f), g.where(g.root.entry), "its entries are not a new map")
	}
}

// wholeCopy: the result holds each entry of a map under its own key.
func (c *Ctx) wholeCopy(g *Graph, lab, src string) {
	for _, r := range g.rootResults(0) {
		if r.v.op != "fresh" {
			c.check(g.P(r.v) == src, "local-data", lab, g.where(r.at), "it returns "+g.P(r.v)+", not the entries")
			continue
		}
		ok := false
		for _, s := range g.copySources(r.v, r.at) {
			ok = ok || s == src
		}
		c.check(ok, "local-data", lab, g.where(r.at), "the result does not hold a copy of every entry")
	}
}

func init() {
	register("C25", 1, "", ruleC25)
}
