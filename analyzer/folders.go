package main

import (
	"strings"
)

// defsOf lists the nodes that give a term its value: after each of them it may be another one.
func (g *Graph) defsOf(ts []*Term) []*Node {
	var out []*Node
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		t = g.single0(t)
		if seen[t] && len(seen) > 1 && t.op == "const" {
			return
		}
		switch t.op {
		case "rangekey", "rangeval", "recv", "phi":
			if t.node != nil {
				out = append(out, t.node)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// foldersThere decides that the folder a file is put into, or that is listed, was made before.
func (c *Ctx) foldersThere(g *Graph, rule string, in func(*Node) bool) {
	type made struct {
		n    *Node
		path string
	}
	var mk []made
	ops := g.fileOps()
	for _, o := range ops {
		if nm := o.n.callName(); nm == "os.MkdirAll" || nm == "os.Mkdir" || nm == "os.MkdirTemp" {
			mk = append(mk, made{o.n, strings.Join(g.pathSegs(o.t), "\x00") + "\x00"})
			as := g.callArgs(o.n)
			if p, ok := constInt(g.single0(as[len(as)-1])); ok && nm != "os.MkdirTemp" && in(o.n) {
				c.check(p&0700 == 0700, rule, o.shape()+"/mode", g.where(o.n), "the folder is made so that nothing can be put into it")
			}
		}
	}
	for _, o := range ops {
		if !in(o.n) {
			continue
		}
		switch o.kind {
		case "write", "rename-to", "create-in", "list":
		default:
			continue
		}
		if as := g.callArgs(o.n); o.n.callName() == "os.WriteFile" && len(as) > 2 {
			if p, ok := constInt(g.single0(as[2])); ok {
				c.check(p&0600 == 0600, rule, o.shape()+"/mode", g.where(o.n), "the file is made so that it cannot be read back or replaced")
			}
		}
		ts := g.pathTerms(o.t)
		if len(ts) == 0 {
			continue
		}
		if o.kind == "write" || o.kind == "rename-to" {
			ts = ts[:len(ts)-1]
		}
		if len(ts) == 0 {
			continue
		}
		if last := g.segOf(ts[len(ts)-1]); len(ts) > 1 && len(last) == 1 && last[0].kind == "listed" {
			continue // it was found in a listing
		}
		var segs []string
		for _, t := range ts {
			segs = append(segs, g.K(t))
		}
		dir := strings.Join(segs, "\x00") + "\x00"
		there := func(n *Node) bool {
			for _, m := range mk {
				if m.n == n && strings.HasPrefix(m.path, dir) {
					return true
				}
			}
			if n.kind != NBranch {
				return false
			}
			for _, s := range ops {
				if s.kind == "stat" && s.n.fr.thread == n.fr.thread && strings.HasPrefix(strings.Join(g.pathSegs(s.t), "\x00")+"\x00", dir) && g.saysMiss(n, s.n, false) {
					return true
				}
			}
			return false
		}
		goal, starts := o.n, g.defsOf(ts)
		var p []*Node
		for {
			th := goal.fr.thread
			var mine []*Node
			for _, s := range starts {
				if s.fr.thread == th {
					mine = append(mine, s)
				}
			}
			if len(mine) == 0 {
				mine = []*Node{th.entry}
			}
			p = g.find(mine, searchOpt{avoid: there, goal: func(n *Node) bool { return n == goal }})
			if p == nil || th.spawn == nil || len(starts) > 0 {
				break
			}
			goal = th.spawn
		}
		c.check(p == nil, rule, o.shape()+"/"+o.kind, g.where(o.n), "the folder may not be there: "+g.pathText(p))
	}
}
