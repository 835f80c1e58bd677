package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A goroutine that the constructor leaves running is neither a query nor a save: it may not change the state that
// queries answer from. One rule for the three kinds of state (postings, statistics, documents).

type bgWrite struct {
	n    *Node
	slot string // ".index[*]": where the store keeps it
}

// backgroundWrites lists the changes that goroutines started by NewDiskStore make to the state of the store.
func (c *Ctx) backgroundWrites() (*Graph, []bgWrite, int) {
	fn := c.p.Func("storage", "NewDiskStore")
	if fn == nil {
		c.bad("anchor", "storage.NewDiskStore", "", "the function does not exist")
		return nil, nil, 0
	}
	g := c.graph(fn, opaqueStore(c.p), "store")
	o := g.owners()
	held := map[own]string{}
	store := map[*Term]bool{}
	for _, r := range g.root.rets {
		for _, v := range g.vals(g.term(g.root, r.in.(*ssa.Return).Results[0])) {
			for _, x := range o.of(v) {
				if x.kind != "fresh" {
					continue
				}
				store[x.t] = true
				for _, y := range o.reach(x.t) {
					if y.t != nil {
						held[own{kind: y.kind, t: y.t}] = y.steps
					}
				}
			}
		}
	}
	var out []bgWrite
	seen := 0
	slotOf := func(t *Term) string {
		for _, x := range o.of(t) {
			if s, ok := held[own{kind: x.kind, t: x.t}]; ok {
				return s
			}
		}
		return ""
	}
	for _, n := range g.liveNodes {
		if n.fr == nil || n.fr.thread == nil || n.fr.thread.spawn == nil || n.fr.thread.callback {
			continue
		}
		// a method of a cache that the store holds
		if cc := n.common(); cc != nil && (n.kind == NInstr || n.kind == NDeferred) {
			if f := cc.StaticCallee(); f != nil && funcPkgPath(f) == Module+"/cache" && !strings.HasPrefix(f.Name(), "Get") && len(cc.Args) > 0 {
				seen++
				if s := slotOf(g.term(n.fr, cc.Args[0])); s != "" {
					out = append(out, bgWrite{n, s})
				}
			}
		}
	}
	for _, e := range g.effects() {
		if e.n.fr.thread.spawn == nil || e.n.fr.thread.callback {
			continue
		}
		seen++
		t := e.m
		step := ""
		if e.kind == "store" {
			a := g.canonAddr(e.m)
			if a.op == "fieldaddr" {
				step = "." + a.s
			}
			t = addrBase(a)
			hit := false
			for _, v := range g.vals(t) {
				for _, x := range o.of(v) {
					hit = hit || x.kind == "fresh" && store[x.t]
				}
			}
			if hit && step != "" {
				out = append(out, bgWrite{e.n, step})
				continue
			}
		}
		if s := slotOf(t); s != "" {
			out = append(out, bgWrite{e.n, s})
		}
	}
	return g, out, seen
}

// noBackground decides that no background goroutine changes the slots of the store under the given roots ("$0.x").
func (c *Ctx) noBackground(what string, roots ...string) {
	g, ws, seen := c.backgroundWrites()
	if g == nil {
		return
	}
	n := 0
	for _, w := range ws {
		for _, r := range roots {
			if under(w.slot, strings.TrimPrefix(rootField(r), "$0")) {
				n++
				c.bad("background", fnLabel(w.n.fr.thread.fr.fn)+"/"+w.slot, g.where(w.n), "a background goroutine changes the "+what+" of the store ("+w.slot+")")
				break
			}
		}
	}
	if n == 0 {
		c.ok("background", "NewDiskStore", g.where(g.root.entry), "")
	}
	c.check(seen > 0, "background", "NewDiskStore/goroutines", g.where(g.root.entry), "the changes of the background goroutines are not recognized")
}
