package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C16: goroutine protocols -------------------------------------------------------------------------------

func ruleC16(c *Ctx) {
	n := 0
	for _, f := range c.parallelOps() {
		n++
		g := c.graph(f, nil, "")
		c.protocol(g, fnLabel(f))
	}
	if n == 0 {
		c.bad("protocol", "search", "", "no searches are found")
	}
}

// parallelOps are the operations that answer a search or analyse text.
func (c *Ctx) parallelOps() []*ssa.Function {
	var out []*ssa.Function
	add := func(pkg, iface, m string) {
		for _, nt := range c.p.Implementers(pkg, iface) {
			for _, f := range exportedMethods(c.p, nt) {
				if f.Name() == m {
					out = append(out, f)
				}
			}
		}
	}
	add("index", "Index", "Search")
	add("search", "Search", "Search")
	add("filter", "Filter", "Process")
	add("tokenizer", "Tokenizer", "Tokenize")
	return out
}

type proto struct {
	c      *Ctx
	g      *Graph
	lab    string
	groups map[string]*WaitGroup
	chans  []*Chan
	of     map[*Node]*Chan // send, receive, close
	sema   map[*Chan]bool
}

func (c *Ctx) protocol(g *Graph, lab string) {
	p := &proto{c: c, g: g, lab: lab, groups: g.waitGroups(), chans: g.chans(), of: map[*Node]*Chan{}, sema: map[*Chan]bool{}}
	for _, ch := range p.chans {
		for _, ns := range [][]*Node{ch.sends, ch.recvs, ch.closes} {
			for _, n := range ns {
				p.of[n] = ch
			}
		}
		if len(ch.sends) > 0 && len(ch.recvs) > 0 && len(ch.closes) == 0 && !p.ranged(ch) && p.pairs(ch) {
			p.sema[ch] = true
		}
	}
	for _, k := range sortedKeys(p.groups) {
		p.group(p.groups[k])
	}
	for _, ch := range p.chans {
		if p.sema[ch] {
			p.semaphore(ch)
		} else {
			p.queue(ch)
		}
	}
	p.unknown()
	p.cycles()
	p.delivered()
	p.endless()
	p.locks()
	c.noRaces(g, lab)
}

// goroutine tells whether a thread runs at the same time as the one that starts it.
func goroutine(th *Thread) bool { return th.spawn != nil && !th.sequential() }

func (p *proto) ranged(ch *Chan) bool {
	for _, l := range p.g.loops {
		if l.kind == "chan" && p.g.chanOf(l.dom) == ch.made {
			return true
		}
	}
	return false
}

// pairs tells whether a goroutine that sends on a channel also takes from it (or a helper started by it does).
func (p *proto) pairs(ch *Chan) bool {
	for _, r := range ch.recvs {
		for _, s := range ch.sends {
			tr, _ := owner(r)
			ts, _ := owner(s)
			if tr == ts && p.g.reaches(s, r) {
				return true
			}
			if tr.spawn != nil && p.g.reaches(s, tr.spawn) && tr.spawn.fr.thread == ts && p.g.loopOf[s] != nil && p.g.loopOf[s] == p.g.loopOf[tr.spawn] {
				return true
			}
		}
	}
	return false
}

// ---- wait groups

func (p *proto) group(w *WaitGroup) {
	g, c := p.g, p.c
	where := ""
	switch {
	case len(w.waits) > 0:
		where = g.where(w.waits[0])
	case len(w.adds) > 0:
		where = g.where(w.adds[0])
	}
	bad := func(d string) { c.bad("wait-group", p.lab, where, d) }
	var spawns []*Node
	for _, th := range g.threads {
		if !goroutine(th) {
			continue
		}
		if g.groupOf(th) != w {
			// calls Done in some branch only is caught by finishes
			continue
		}
		if contains(w.gos, th.spawn) {
			continue
		}
		spawns = append(spawns, th.spawn)
		why := g.finishes(th, w)
		c.check(why == "", "done", p.lab, g.where(th.spawn), "the goroutine does not report its end once: "+why)
	}
	for _, d := range w.dones {
		th, at := owner(d)
		if th.spawn == nil && at == d {
			// the work is done here instead of in a goroutine
			spawns = append(spawns, d)
			continue
		}
		if th.spawn == nil {
			bad("Done is called outside of the goroutines that are counted (" + g.where(d) + ")")
		}
	}
	// adds for the goroutines of a loop
	bulkAdd, bulkSpawn := map[*Node]bool{}, map[*Node]bool{}
	taken := map[*Loop]*Node{}
	for _, a := range w.adds {
		as := g.callArgs(a)
		n := as[len(as)-1]
		twice := ""
		for _, l := range g.loops {
			if l.body[a] || !g.isCount(n, l) || l.header.fr.thread != a.fr.thread {
				continue
			}
			var in []*Node
			for _, s := range spawns {
				if l.body[s] {
					in = append(in, s)
				}
			}
			if len(in) == 0 || !g.dominates(a, l.header) {
				continue
			}
			if o := taken[l]; o != nil {
				twice = "the goroutines of a loop are counted twice, at " + g.where(o) + " and at " + g.where(a)
				continue
			}
			taken[l], twice = a, ""
			bulkAdd[a] = true
			for _, s := range in {
				bulkSpawn[s] = true
			}
			isS := func(n *Node) bool { return contains(in, n) }
			if x := g.perIteration(l, isS); x != nil {
				bad("an iteration can start no goroutine although one is counted: " + g.pathText(x))
			}
			for _, s := range in {
				if x := g.find([]*Node{s}, searchOpt{avoid: func(m *Node) bool { return m == l.header }, goal: isS}); x != nil {
					bad("an iteration can start two goroutines: " + g.pathText(x))
				}
				if g.loopOf[s] != l {
					bad("the goroutines are started in a loop inside the counted one")
				}
			}
			if len(g.exits(l)) > 0 {
				bad("the loop that starts the counted goroutines can be left early")
			}
			break
		}
		if twice != "" && !bulkAdd[a] {
			bulkAdd[a] = true
			bad(twice)
		}
	}
	// the others one by one
	if d := p.balance(w, spawns, bulkAdd, bulkSpawn); d != "" {
		bad(d)
	} else {
		c.ok("wait-group", p.lab, where, "")
	}
	// no Add while somebody may wait
	for _, wt := range w.waits {
		tw, _ := owner(wt)
		for _, a := range append(append([]*Node{}, w.adds...), w.gos...) {
			ta, _ := owner(a)
			if ta == tw {
				continue
			}
			ok := false
			// the waiter is started by the one who adds
			for x := tw; x.spawn != nil; {
				o, at := owner(x.spawn)
				if o == ta {
					ok = !g.reaches(at, a)
					break
				}
				x = o
			}
			// a counted goroutine adds before it is done
			if !ok && g.groupOf(ta) == w {
				ok = true
				for _, d := range w.dones {
					if to, _ := owner(d); to == ta && g.reaches(d, a) {
						ok = false
					}
				}
			}
			if !ok {
				bad("Add at " + g.where(a) + " can come after Wait at " + g.where(wt))
			}
		}
	}
}

// balance follows, in each goroutine, how many more goroutines are counted than started.
func (p *proto) balance(w *WaitGroup, spawns []*Node, bulkAdd, bulkSpawn map[*Node]bool) string {
	g := p.g
	adds := map[*Node]int64{}
	for _, a := range w.adds {
		if bulkAdd[a] {
			continue
		}
		as := g.callArgs(a)
		k, ok := constInt(g.single0(as[len(as)-1]))
		if !ok {
			return "the number of goroutines that are counted at " + g.where(a) + " is not the number that is started"
		}
		adds[a] = k
	}
	starts := map[*Node]bool{}
	for _, s := range spawns {
		if !bulkSpawn[s] {
			starts[s] = true
		}
	}
	for _, th := range g.threads {
		if th.sequential() {
			continue
		}
		in := map[*Node]map[int64]bool{th.entry: {0: true}}
		work := []*Node{th.entry}
		for len(work) > 0 {
			n := work[len(work)-1]
			work = work[:len(work)-1]
			out := map[int64]bool{}
			for d := range in[n] {
				if starts[n] {
					if d < 1 {
						return "a goroutine is started before it is counted (" + g.where(n) + ")"
					}
					d--
				}
				d += adds[n]
				if d > 8 {
					return "more goroutines are counted than started (" + g.where(n) + ")"
				}
				out[d] = true
			}
			for d := range out {
				if d == 0 {
					continue
				}
				if n == th.exit || contains(w.waits, n) {
					return "more goroutines are counted than started when " + g.where(n) + " is reached"
				}
				for _, o := range g.threads {
					if o.spawn == n {
						for _, wt := range w.waits {
							if to, _ := owner(wt); to == o {
								return "goroutines that are counted later are not waited for (" + g.where(n) + ")"
							}
						}
					}
				}
			}
			for _, s := range n.succ {
				if in[s] == nil {
					in[s] = map[int64]bool{}
				}
				ch := false
				for d := range out {
					if !in[s][d] {
						in[s][d] = true
						ch = true
					}
				}
				if ch {
					work = append(work, s)
				}
			}
		}
	}
	return ""
}

// ---- semaphores

func (p *proto) semaphore(ch *Chan) {
	g, c := p.g, p.c
	where := g.where(ch.made.node)
	mc := ch.made.v.(*ssa.MakeChan)
	cap := g.term(ch.made.fr, mc.Size)
	pos := p.positive(cap, 0)
	if !pos {
		// as many slots as items of the loop that uses them
		pos = true
		for _, s := range ch.sends {
			ok := false
			for _, l := range g.loopsAround(s) {
				ok = ok || g.isCount(cap, l)
			}
			pos = pos && ok
		}
	}
	c.check(pos, "semaphore", p.lab, where, "a semaphore may have no slots: "+g.P(cap))
	// in a select, a slot is taken or given back only in the branch of its own
	events := func(ns []*Node) []*Node {
		var out []*Node
		for _, n := range ns {
			sel, ok := n.in.(*ssa.Select)
			if !ok || sel.Blocking && len(sel.States) == 1 {
				out = append(out, n)
				continue
			}
			for i, st := range sel.States {
				if x := g.single(g.term(n.fr, st.Chan)); x != ch.made {
					continue
				}
				bs := g.selStart(n, i)
				if len(bs) == 0 {
					c.bad("semaphore", p.lab, g.where(n), "whether a slot was taken or given back is not looked at")
				}
				out = append(out, bs...)
			}
		}
		return out
	}
	sends, recvs := events(ch.sends), events(ch.recvs)
	for _, s := range sends {
		th, _ := owner(s)
		rel := func(n *Node) bool {
			if contains(recvs, n) {
				return true
			}
			// handed over to a goroutine that releases it
			for _, o := range g.threads {
				if o.spawn == n && goroutine(o) && g.always(o, func(m *Node) bool { return contains(recvs, m) }) == nil {
					return true
				}
			}
			return false
		}
		x := g.find([]*Node{s}, searchOpt{avoid: rel, goal: func(n *Node) bool { return n == th.exit || contains(sends, n) }})
		c.check(x == nil, "semaphore", p.lab, g.where(s), "a slot may not be given back: "+g.pathText(x))
	}
	for _, r := range recvs {
		th, _ := owner(r)
		acq := func(n *Node) bool { return contains(sends, n) }
		x := g.find([]*Node{th.entry}, searchOpt{avoid: acq, goal: func(n *Node) bool { return n == r }})
		if x != nil && th.spawn != nil {
			// the one who started it took the slot
			o, at := owner(th.spawn)
			from := o.entry
			if l := g.loopOf[at]; l != nil && l.enter != nil {
				from = l.enter
			}
			x = g.find([]*Node{from}, searchOpt{avoid: acq, goal: func(n *Node) bool { return n == at }})
		}
		c.check(x == nil, "semaphore", p.lab, g.where(r), "a slot is given back that was not taken: "+g.pathText(x))
		x = g.find([]*Node{r}, searchOpt{avoid: acq, goal: func(n *Node) bool { return contains(recvs, n) }})
		c.check(x == nil, "semaphore", p.lab, g.where(r), "a slot can be given back twice: "+g.pathText(x))
	}
}

// positive decides that a number is at least one.
func (p *proto) positive(t *Term, d int) bool {
	g := p.g
	if d > 8 {
		return false
	}
	t = g.single0(t)
	if k, ok := constInt(t); ok {
		return k >= 1
	}
	switch t.op {
	case "call":
		switch t.s {
		case "runtime.NumCPU":
			return true
		case "runtime.GOMAXPROCS":
			k, ok := constInt(t.args[0])
			return ok && k <= 0
		case "builtin.max":
			for _, a := range t.args {
				if p.positive(a, d+1) {
					return true
				}
			}
		case "builtin.min":
			for _, a := range t.args {
				if !p.positive(a, d+1) {
					return false
				}
			}
			return len(t.args) > 0
		}
	case "bin":
		a, b := t.args[0], t.args[1]
		switch t.s {
		case "*":
			return p.positive(a, d+1) && p.positive(b, d+1)
		case "+":
			return p.positive(a, d+1) && g.nonNeg(b, map[*Term]bool{}) || p.positive(b, d+1) && g.nonNeg(a, map[*Term]bool{}) || p.positive(a, d+1) && p.positive(b, d+1)
		}
	case "phi", "ret", "load":
		as := g.alts(t)
		for _, a := range as {
			if !p.positive(a, d+1) {
				return false
			}
		}
		return len(as) > 0
	}
	return false
}

// ---- queues

func (p *proto) queue(ch *Chan) {
	g, c := p.g, p.c
	where := g.where(ch.made.node)
	bad := func(d string) { c.bad("queue", p.lab, where, d) }
	if len(ch.sends)+len(ch.recvs)+len(ch.closes) == 0 {
		return
	}
	before := len(c.obls)
	var loops []*Loop
	for _, l := range g.loops {
		if l.kind == "chan" && g.chanOf(l.dom) == ch.made {
			loops = append(loops, l)
		}
	}
	// closing
	for i, cl := range ch.closes {
		th, at := owner(cl)
		if g.many(th) || g.loopOf[at] != nil {
			bad("the queue can be closed several times (" + g.where(cl) + ")")
		}
		for j, o := range ch.closes {
			to, _ := owner(o)
			if to != th || g.reaches(cl, o) && i != j {
				bad("the queue can be closed twice (" + g.where(o) + ")")
			}
		}
		for _, s := range ch.sends {
			ts, _ := owner(s)
			if ts == th {
				if g.reaches(cl, s) {
					bad("something can be sent after closing (" + g.where(s) + ")")
				}
				continue
			}
			if !g.doneBy(ts, cl) {
				bad("the queue can be closed while " + g.where(s) + " still sends")
			}
		}
	}
	if len(loops) > 0 {
		if len(ch.closes) == 0 {
			bad("nobody closes the queue that is read to its end")
		} else {
			cl := ch.closes[0]
			th, _ := owner(cl)
			isClose := func(n *Node) bool { return contains(ch.closes, n) }
			if x := g.always(th, isClose); x != nil && th.spawn != nil {
				bad("the queue may not be closed: " + g.pathText(x))
			}
			for _, l := range loops {
				tl, at := owner(l.header)
				if th == tl {
					if g.find([]*Node{th.entry}, searchOpt{avoid: isClose, goal: func(n *Node) bool { return n == at }}) != nil {
						bad("the queue is read to its end before it is closed")
					}
					continue
				}
				// the goroutine that closes is started before the loop waits
				if th.spawn != nil {
					if o, s := owner(th.spawn); o == tl {
						if x := g.find([]*Node{o.entry}, searchOpt{avoid: func(n *Node) bool { return n == s }, goal: func(n *Node) bool { return n == l.header }}); x != nil {
							bad("nobody may close the queue: " + g.pathText(x))
						}
					}
				}
			}
		}
	}
	// reading
	for _, l := range loops {
		if len(g.exits(l)) > 0 && len(ch.sends) > 0 {
			bad("the queue may not be read to its end, its senders then wait forever (" + g.where(l.header) + ")")
		}
		for _, s := range ch.sends {
			ts, _ := owner(s)
			if ts.spawn == nil {
				continue
			}
			if o, at := owner(ts.spawn); o == l.header.fr.thread {
				// once started the sender is listened to
				x := g.find([]*Node{at}, searchOpt{avoid: func(n *Node) bool { return n == l.header }, goal: func(n *Node) bool { return n == o.exit }})
				if x != nil && !p.roomy(ch) {
					bad("nobody may read the queue: " + g.pathText(x))
				}
			}
		}
	}
	if len(loops) == 0 && len(ch.sends) > 0 && !p.roomy(ch) {
		// received one by one
		for _, s := range ch.sends {
			if w := p.counted(ch, s); w != "" {
				bad(w)
			}
		}
	}
	if len(ch.sends) == 0 && len(ch.closes) == 0 && len(ch.recvs) > 0 {
		bad("nobody sends on the queue or closes it")
	}
	for _, r := range ch.recvs {
		if p.inRange(r, loops) {
			continue
		}
		if w := p.arrives(ch, r); w != "" {
			bad(w)
		}
	}
	if len(c.obls) == before {
		c.ok("queue", p.lab, where, "")
	}
}

func (p *proto) inRange(r *Node, loops []*Loop) bool {
	for _, l := range loops {
		if l.body[r] || l.header == r {
			return true
		}
	}
	return false
}

// roomy tells whether all sends fit into a queue.
func (p *proto) roomy(ch *Chan) bool {
	g := p.g
	mc := ch.made.v.(*ssa.MakeChan)
	size := g.single0(g.term(ch.made.fr, mc.Size))
	if len(ch.sends) != 1 {
		k, ok := constInt(size)
		if !ok || int64(len(ch.sends)) > k {
			return false
		}
		for _, s := range ch.sends {
			if len(g.loopsAround(s)) > 0 {
				return false
			}
		}
		return true
	}
	ls := g.loopsAround(ch.sends[0])
	switch len(ls) {
	case 0:
		k, ok := constInt(size)
		return ok && k >= 1
	case 1:
		return g.isCount(size, ls[0])
	}
	return false
}

// counted: a goroutine that sends once is matched by one receive of a loop as long as the one that starts it.
func (p *proto) counted(ch *Chan, s *Node) string {
	g := p.g
	th, _ := owner(s)
	if len(ch.recvs) == 0 {
		return "nobody takes what is sent (" + g.where(s) + ")"
	}
	if g.loopOf[s] != nil {
		return "more may be sent than is taken (" + g.where(s) + ")"
	}
	sl := g.loopsAround(s)
	for _, r := range ch.recvs {
		rl := g.loopsAround(r)
		if len(sl) == 0 && len(rl) == 0 {
			// one send, one receive
			if th.spawn == nil {
				return ""
			}
			_, at := owner(th.spawn)
			to := at.fr.thread
			if x := g.find([]*Node{at}, searchOpt{avoid: func(n *Node) bool { return n == r }, goal: func(n *Node) bool { return n == to.exit }}); x == nil {
				return ""
			}
			continue
		}
		if len(sl) == 1 && len(rl) == 1 && p.g.sameRounds(sl[0], rl[0]) && g.perIteration(rl[0], func(n *Node) bool { return n == r }) == nil && len(g.exits(rl[0])) == 0 {
			return ""
		}
	}
	return "what is sent at " + g.where(s) + " may not be taken"
}

// arrives: a single receive always gets something.
func (p *proto) arrives(ch *Chan, r *Node) string {
	g := p.g
	tr, at := owner(r)
	// a queue that is closed gives something
	for _, th := range g.threads {
		if !goroutine(th) || th == tr {
			continue
		}
		gives := func(n *Node) bool { return contains(ch.closes, n) || contains(ch.sends, n) }
		if g.always(th, gives) != nil {
			continue
		}
		o, s := owner(th.spawn)
		if o != tr {
			continue
		}
		rl, sl := g.loopsAround(r), g.loopsAround(th.spawn)
		if len(rl) == 0 && g.dominates(s, at) && len(sl) == 0 {
			return ""
		}
		if len(rl) == 1 && len(sl) == 1 && p.g.sameRounds(rl[0], sl[0]) && g.perIteration(sl[0], func(n *Node) bool { return n == th.spawn }) == nil && len(g.exits(sl[0])) == 0 && g.dominates(sl[0].done, rl[0].header) {
			return ""
		}
	}
	return "the receive at " + g.where(r) + " may wait forever"
}

// unknown reports channel operations on channels that are not made by the operation.
func (p *proto) unknown() {
	g, c := p.g, p.c
	for _, n := range g.liveNodes {
		if n.kind != NInstr {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.Send:
			c.check(p.of[n] != nil, "queue", p.lab, g.where(n), "it sends on a channel that is not known: "+g.P(g.term(n.fr, in.Chan)))
		case *ssa.UnOp:
			if in.Op.String() == "<-" {
				c.check(p.of[n] != nil, "queue", p.lab, g.where(n), "it receives from a channel that is not known: "+g.P(g.term(n.fr, in.X)))
			}
		}
	}
}

// ---- deadlocks

// ops are the nodes of a goroutine at which it may have to wait.
func (p *proto) blocking(n *Node) bool {
	if n.common() != nil && !(n.kind == NInstr && isDeferOrGo(n)) {
		name := n.callName()
		if name == "(*sync.WaitGroup).Wait" {
			return true
		}
		if op := lockOp(name); op == "W" || op == "R" {
			return true
		}
	}
	ch := p.of[n]
	if ch == nil || contains(ch.closes, n) {
		return false
	}
	if p.sema[ch] {
		return contains(ch.sends, n)
	}
	if sel, ok := n.in.(*ssa.Select); ok && !sel.Blocking {
		return false
	}
	if contains(ch.sends, n) {
		return !p.roomy(ch)
	}
	return true
}

// cycles looks for goroutines that wait for each other.
func (p *proto) cycles() {
	g, c := p.g, p.c
	var ops []*Node
	for _, n := range g.liveNodes {
		if p.blocking(n) {
			ops = append(ops, n)
		}
	}
	if len(ops) == 0 {
		return
	}
	in := func(th *Thread, f func(*Node) bool) []*Node {
		var out []*Node
		for _, n := range ops {
			if o, _ := owner(n); o == th && f(n) {
				out = append(out, n)
			}
		}
		return out
	}
	// what must have happened before a node is reached
	var before func(at *Node) []*Node
	before = func(at *Node) []*Node {
		th, x := owner(at)
		out := in(th, func(n *Node) bool { return n != at && g.reaches(n, x) })
		if th.spawn != nil {
			out = append(out, before(th.spawn)...)
		}
		return out
	}
	apart := func(a, b *Thread) bool { // never alive at the same time
		return a.spawn != nil && b.spawn != nil && a != b && (g.doneBy(a, b.spawn) || g.doneBy(b, a.spawn))
	}
	deps := map[*Node][]*Node{}
	for _, n := range ops {
		th, _ := owner(n)
		switch {
		case n.common() != nil && n.callName() == "(*sync.WaitGroup).Wait":
			w := p.groups[g.lockName(n)]
			for _, o := range g.threads {
				if goroutine(o) && w != nil && g.groupOf(o) == w {
					deps[n] = append(deps[n], in(o, func(*Node) bool { return true })...)
				}
			}
		case n.common() != nil && lockOp(n.callName()) != "":
			name := g.lockName(n)
			for _, o := range ops {
				to, _ := owner(o)
				if o != n && !apart(th, to) && g.locks().may[o][name] != 0 {
					deps[n] = append(deps[n], o)
				}
			}
		case p.sema[p.of[n]]:
			ch := p.of[n]
			for _, o := range ops {
				to, _ := owner(o)
				if apart(th, to) || p.of[o] == ch && o != n && to == th {
					continue
				}
				if p.held(ch, o) {
					deps[n] = append(deps[n], o)
				}
			}
		case contains(p.of[n].sends, n):
			ch := p.of[n]
			for _, r := range ch.recvs {
				deps[n] = append(deps[n], before(r)...)
				// what keeps the reader busy
				for l := g.loopOf[r]; l != nil; l = l.parent {
					deps[n] = append(deps[n], in(r.fr.thread, func(m *Node) bool { return l.body[m] && m != r })...)
				}
			}
		default:
			ch := p.of[n]
			for _, s := range append(append([]*Node{}, ch.sends...), ch.closes...) {
				if o, _ := owner(s); o != th {
					deps[n] = append(deps[n], before(s)...)
				}
			}
		}
	}
	state := map[*Node]int{}
	var stack []*Node
	reported := false
	var dfs func(n *Node)
	dfs = func(n *Node) {
		state[n] = 1
		stack = append(stack, n)
		for _, d := range deps[n] {
			if reported {
				break
			}
			if state[d] == 1 {
				i := len(stack) - 1
				for i > 0 && stack[i] != d {
					i--
				}
				var at []string
				for _, x := range stack[i:] {
					at = append(at, g.where(x))
				}
				reported = true
				c.bad("deadlock", p.lab, g.where(d), "these can wait for each other: "+strings.Join(at, ", "))
				break
			}
			if state[d] == 0 {
				dfs(d)
			}
		}
		stack = stack[:len(stack)-1]
		state[n] = 2
	}
	for _, n := range ops {
		if state[n] == 0 && !reported {
			dfs(n)
		}
	}
	if !reported {
		c.ok("deadlock", p.lab, g.where(g.root.entry), "")
	}
}

// held tells whether a slot of a semaphore may be held at a node.
func (p *proto) held(ch *Chan, n *Node) bool {
	g := p.g
	th, x := owner(n)
	rel := func(m *Node) bool { return contains(ch.recvs, m) }
	for _, s := range ch.sends {
		if o, at := owner(s); o == th && at != x {
			if g.find([]*Node{at}, searchOpt{avoid: rel, goal: func(m *Node) bool { return m == x }}) != nil {
				return true
			}
		}
	}
	// held since before the goroutine was started
	takes, gives := false, false
	for _, s := range ch.sends {
		if o, _ := owner(s); o == th {
			takes = true
		}
	}
	for _, r := range ch.recvs {
		if o, _ := owner(r); o == th {
			gives = true
		}
	}
	if gives && !takes {
		return g.find([]*Node{th.entry}, searchOpt{avoid: rel, goal: func(m *Node) bool { return m == x }}) != nil
	}
	return false
}

// ---- the rest

// delivered: when the operation returns, its goroutines have done what they do for others.
func (p *proto) delivered() {
	g, c := p.g, p.c
	for _, th := range g.threads {
		if !goroutine(th) {
			continue
		}
		var out []*Node
		for n := range g.threadNodes(th) {
			if g.live[n] && g.outward(n) && !p.sema[p.of[n]] {
				out = append(out, n)
			}
		}
		if len(out) == 0 {
			continue
		}
		for _, r := range g.root.rets {
			if !g.live[r] || g.find([]*Node{p.mainSpawn(th)}, searchOpt{goal: func(n *Node) bool { return n == r }}) == nil {
				continue
			}
			ok := g.doneBy(th, r)
			if !ok && len(out) == 1 && p.of[out[0]] != nil && p.of[out[0]].made != nil {
				// what it sends has been taken
				ch := p.of[out[0]]
				ok = p.counted(ch, out[0]) == "" && !p.ranged(ch)
				for _, rv := range ch.recvs {
					ok = ok && rv.fr.thread == r.fr.thread
				}
			}
			c.check(ok, "delivered", p.lab, g.where(th.spawn), "it can return ("+g.where(r)+") before this goroutine is finished")
		}
	}
}

func (p *proto) mainSpawn(th *Thread) *Node {
	n := th.spawn
	for n.fr.thread.spawn != nil {
		n = n.fr.thread.spawn
	}
	return n
}

// endless: every loop can end.
func (p *proto) endless() {
	g, c := p.g, p.c
	for _, l := range g.loops {
		ends := l.done != nil
		for n := range l.body {
			for _, s := range n.succ {
				ends = ends || !l.body[s]
			}
		}
		c.check(ends, "ends", p.lab, g.where(l.header), "this loop never ends")
	}
}

// locks: what is locked is unlocked.
func (p *proto) locks() {
	g, c := p.g, p.c
	ls := g.locks()
	for _, th := range g.threads {
		for k := range ls.may[th.exit] {
			c.bad("unlock", p.lab, g.where(th.entry), k+" may stay locked")
		}
	}
}

func init() {
	register("C16", 1, "", ruleC16)
}
