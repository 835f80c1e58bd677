package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C26: the handlers of the service -----------------------------------------------------------------------

type handler struct {
	*service
	th   *Thread
	lab  string
	resp []*Node // nodes that answer
}

// routes are the methods of gin that register a handler.
func isRoute(of string) bool {
	if !strings.Contains(of, "gin-gonic/gin.") {
		return false
	}
	m := of[strings.LastIndex(of, ".")+1:]
	switch m {
	case "POST", "GET", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "Any", "Handle", "Match":
		return true
	}
	return false
}

// answers tells whether a call answers the request: with a status known, or -1 when it depends.
func (g *Graph) answers(n *Node) (bool, *Term) {
	if n.kind != NInstr && n.kind != NDeferred || n.common() == nil || isDeferOrGo(n) {
		return false, nil
	}
	cn := n.callName()
	const ctx = "(*github.com/gin-gonic/gin.Context)."
	if !strings.HasPrefix(cn, ctx) {
		return false, nil
	}
	switch cn[len(ctx):] {
	case "JSON", "IndentedJSON", "SecureJSON", "JSONP", "AsciiJSON", "PureJSON", "XML", "YAML", "TOML", "ProtoBuf", "String", "Redirect", "Data",
		"DataFromReader", "HTML", "AbortWithStatusJSON", "AbortWithStatus", "AbortWithError", "AbortWithStatusPureJSON", "Render", "Status":
		return true, g.callArgs(n)[1]
	case "File", "FileAttachment", "FileFromFS":
		return true, g.intConst(200)
	}
	return false, nil
}

func ruleC26(c *Ctx) {
	opq := opaqueService(c.p)
	var hs []*handler
	for _, f := range c.serviceRoots() {
		g := c.graph(f, opq, "service")
		for _, th := range g.threads {
			if !th.callback || !isRoute(th.of) {
				continue
			}
			h := &handler{service: &service{c: c, g: g, lab: fnLabel(th.fr.fn)}, th: th, lab: fnLabel(th.fr.fn)}
			for n := range g.threadNodes(th) {
				if ok, _ := g.answers(n); ok {
					h.resp = append(h.resp, n)
				}
			}
			sort.Slice(h.resp, func(i, j int) bool { return h.resp[i].id < h.resp[j].id })
			hs = append(hs, h)
		}
	}
	if !c.check(len(hs) > 0, "sites", "main", "", "no handler is registered") {
		return
	}
	posts, gets := 0, 0
	raced := map[*Graph]bool{}
	for _, h := range hs {
		if !raced[h.g] {
			raced[h.g] = true
			c.noRaces(h.g, h.lab)
		}
		h.served()
		h.once()
		h.noPanic()
		h.private()
		if len(h.calling("/index.Index).IndexDocument")) > 0 {
			posts++
			h.post()
		}
		if len(h.calling("/search.Search).Search")) > 0 || len(h.calling("/index.Index).Search")) > 0 {
			gets++
			h.get()
		}
	}
	c.check(posts > 0, "sites", "main", "", "no handler indexes documents")
	c.check(gets > 0, "sites", "main", "", "no handler searches")
	c.indexesAll()
}

// serves tells whether a call starts to serve requests.
func serves(n *Node) bool {
	if n.kind != NInstr && n.kind != NDeferred || n.common() == nil || n.kind == NInstr && isDefer(n) {
		return false
	}
	switch strings.TrimPrefix(n.callName(), "go:") {
	case "(*github.com/gin-gonic/gin.Engine).Run", "(*github.com/gin-gonic/gin.Engine).RunTLS", "(*github.com/gin-gonic/gin.Engine).RunUnix",
		"(*github.com/gin-gonic/gin.Engine).RunFd", "(*github.com/gin-gonic/gin.Engine).RunListener", "(*github.com/gin-gonic/gin.Engine).RunQUIC",
		"net/http.ListenAndServe", "net/http.ListenAndServeTLS", "net/http.Serve", "net/http.ServeTLS",
		"(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS", "(*net/http.Server).Serve", "(*net/http.Server).ServeTLS":
		return true
	}
	return false
}

func isDefer(n *Node) bool { _, ok := n.in.(*ssa.Defer); return ok }

// served decides that requests are served once the handler is registered, and not only before.
func (h *handler) served() {
	g, c := h.g, h.c
	if g.root.fn.Name() != "main" || h.th.spawn == nil {
		return
	}
	var sv []*Node
	for _, n := range g.liveNodes {
		if serves(n) {
			sv = append(sv, n)
		}
	}
	if !c.check(len(sv) > 0, "served", h.lab, g.where(g.root.entry), "nothing serves the requests") {
		return
	}
	ok := false
	for _, s := range sv {
		at := s
		for i := 0; i < 4 && at.fr.thread != h.th.spawn.fr.thread && at.fr.thread.spawn != nil; i++ {
			at = at.fr.thread.spawn
		}
		ok = ok || g.find([]*Node{h.th.spawn}, searchOpt{goal: func(n *Node) bool { return n == at }}) != nil
	}
	c.check(ok, "served", h.lab, g.where(h.th.spawn), "the handler is registered when nothing is served any more")
}

// nodes of the handler, its goroutines not included.
func (h *handler) own() []*Node {
	var out []*Node
	for n := range h.g.threadNodes(h.th) {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// calling lists the calls, in the handler or in functions it hands on, whose name ends in a suffix.
func (h *handler) calling(suffix string) []*Node {
	var out []*Node
	for _, n := range h.g.liveNodes {
		if (n.kind == NInstr || n.kind == NDeferred) && n.common() != nil && strings.HasSuffix(n.callName(), suffix) {
			for _, t := range chainOf(n.fr.thread) {
				if t == h.th {
					out = append(out, n)
				}
			}
		}
	}
	return out
}

// once: each path of a handler answers exactly once.
func (h *handler) once() {
	g, c := h.g, h.c
	isResp := func(n *Node) bool { return contains(h.resp, n) }
	for _, n := range h.g.liveNodes {
		if ok, _ := g.answers(n); ok && n.fr.thread != h.th {
			for _, t := range chainOf(n.fr.thread) {
				if t == h.th && !n.fr.thread.sequential() {
					c.bad("answer", h.lab, g.where(n), "a goroutine of the handler answers, the handler may be over by then")
				}
			}
		}
	}
	p := g.find([]*Node{h.th.entry}, searchOpt{avoid: isResp, goal: func(n *Node) bool { return n == h.th.exit }})
	c.check(p == nil, "answer", h.lab, g.where(h.th.entry), "a request may not be answered: "+g.pathText(p))
	for _, r := range h.resp {
		p := g.find([]*Node{r}, searchOpt{goal: isResp})
		c.check(p == nil, "answer", h.lab, g.where(r), "a request can be answered twice: "+g.pathText(p))
	}
}

// noPanic: nothing in a handler ends it on purpose.
func (h *handler) noPanic() {
	g, c := h.g, h.c
	for _, n := range h.own() {
		if n.in == nil {
			continue
		}
		where := g.where(n)
		switch in := n.in.(type) {
		case *ssa.Panic:
			if n.kind == NInstr {
				c.bad("panic", h.lab, where, "the handler panics")
			}
		case *ssa.TypeAssert:
			if n.kind == NInstr {
				c.check(in.CommaOk || g.assertHolds(n, in), "panic", h.lab, where, "a type assertion can fail")
			}
		case *ssa.Call:
			if n.kind == NInstr && isNoReturn(in.Common()) {
				c.bad("panic", h.lab, where, "the handler ends the process")
			}
		}
	}
}

func (g *Graph) assertHolds(n *Node, in *ssa.TypeAssert) bool {
	if types.Identical(in.X.Type(), in.AssertedType) {
		return true // only there to see that there is one
	}
	for _, v := range g.vals(g.term(n.fr, in.X)) {
		for v.op == "iface" || v.op == "conv" {
			v = v.args[0]
		}
		if v.typ == nil || !types.Identical(v.typ, in.AssertedType) {
			return false
		}
	}
	return true
}

// private: a handler writes to nothing that outlives the request, unless a lock is held.
func (h *handler) private() {
	g, c := h.g, h.c
	mine := func(n *Node) bool {
		if n.kind != NInstr && n.kind != NDeferred {
			return false
		}
		for _, t := range chainOf(n.fr.thread) {
			if t == h.th {
				return true
			}
		}
		return false
	}
	inThread := func(b *Term) bool {
		switch b.op {
		case "fresh", "append", "call", "slice":
			if b.node != nil {
				return mine(b.node)
			}
			if b.fr != nil {
				for _, t := range chainOf(b.fr.thread) {
					if t == h.th {
						return true
					}
				}
			}
			return false
		case "const", "cbparam", "res", "recv", "field", "out", "zero", "init", "load":
			return b.op != "init" && b.op != "load"
		}
		return false
	}
	// what other runs of the handlers could see
	shared := func(b *Term) bool {
		switch b.op {
		case "global", "free", "param":
			return true
		case "init", "load":
			a := addrBase(b.args[0])
			return a.op == "global" || a.op == "param"
		case "fresh", "append", "call":
			return !inThread(b)
		}
		return false
	}
	all := g.memAccesses()
	locked := func(a memAccess) bool {
		if len(g.locks().must[a.n]) == 0 {
			return false
		}
		for _, b := range all {
			if b.base != a.base || b.n == a.n {
				continue
			}
			in := false
			for _, t := range chainOf(b.n.fr.thread) {
				in = in || t.callback && isRoute(t.of)
			}
			if in && !g.commonLock(a.n, b.n) {
				return false
			}
		}
		return true
	}
	n := 0
	for _, a := range all {
		if !mine(a.n) {
			continue
		}
		n++
		if a.write && shared(a.base) {
			c.check(locked(a), "shared", h.lab, g.where(a.n), "requests share the variable "+a.name+", which this one changes")
		}
	}
	// the address of a shared variable, given away
	for _, m := range g.liveNodes {
		if !mine(m) || m.common() == nil || m.callee != nil || isDeferOrGo(m) {
			continue
		}
		name := m.callName()
		if strings.HasPrefix(name, "(*sync") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "builtin.") {
			continue
		}
		for i, t := range g.callArgs(m) {
			if i == 0 && m.common().IsInvoke() {
				continue
			}
			for t.op == "iface" || t.op == "conv" {
				t = t.args[0]
			}
			if _, ok := t.typ.Underlying().(*types.Pointer); !ok && t.op != "fieldaddr" && t.op != "fresh" {
				continue
			}
			if i == 0 && m.common().Signature().Recv() != nil {
				continue
			}
			b := addrBase(t)
			isVar := t.op == "global" || t.op == "fieldaddr" || t.op == "indexaddr" || t.op == "fresh" && isCell(t)
			n++
			if isVar && shared(b) {
				c.check(len(g.locks().must[m]) > 0, "shared", h.lab, g.where(m), "requests share the variable "+g.P(t)+", which "+name+" may change")
			}
		}
	}
	c.check(n > 0, "shared", h.lab, g.where(h.th.entry), "the handler touches nothing")
}

// isCell tells whether a fresh term is a variable (not a map, slice or channel).
func isCell(t *Term) bool {
	_, ok := t.v.(*ssa.Alloc)
	return ok
}

// ---- the handler that indexes

// bound names the part of a bound document a value is: the document, the node that binds it and the path.
func (g *Graph) bound(t *Term) (doc *Term, at *Node, path []string) {
	one := func(t *Term) *Term {
		t = g.single0(t)
		if s := g.single(t); s != nil && (t.op == "ret" || t.op == "res" || t.op == "load") {
			// the same value from every return
			return s
		}
		return t
	}
	t = one(t)
	for t.op == "conv" || t.op == "iface" || t.op == "snapshot" {
		t = one(t.args[0])
	}
	switch t.op {
	case "field":
		d, n, p := g.bound(t.args[0])
		if d == nil {
			return nil, nil, nil
		}
		return d, n, append(append([]string{}, p...), t.s)
	case "out":
		a := t.args[0]
		for a.op == "fieldaddr" {
			path = append([]string{a.s}, path...)
			a = a.args[0]
		}
		if a.op == "fresh" {
			return a, t.node, path
		}
	case "load":
		a := t.args[0]
		for a.op == "fieldaddr" {
			path = append([]string{a.s}, path...)
			a = a.args[0]
		}
		if a.op == "load" || a.op == "res" {
			// a pointer
			return nil, nil, nil
		}
	}
	return nil, nil, nil
}

// jsonNames maps the json name of each string field of a struct to the field.
func jsonNames(t types.Type) map[string]string {
	out := map[string]string{}
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
		if tag == "" {
			tag = st.Field(i).Name()
		}
		if tag != "-" && isStringType(st.Field(i).Type()) {
			out[tag] = st.Field(i).Name()
		}
	}
	return out
}

func isStringTyp(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (h *handler) post() {
	g, c := h.g, h.c
	idx := h.calling("/index.Index).IndexDocument")
	isIdx := func(n *Node) bool { return contains(idx, n) }
	for _, n := range idx {
		if isDeferOrGo(n) && n.kind == NInstr {
			c.bad("indexing", h.lab, g.where(n), "the document is indexed in a goroutine nobody waits for")
			return
		}
		if n.fr.thread != h.th && !n.fr.thread.sequential() {
			c.check(g.doneBy(n.fr.thread, h.th.exit), "indexing", h.lab, g.where(n), "the document is indexed in a goroutine nobody waits for")
		}
	}
	ev := g.lift(isIdx)
	for _, n := range idx {
		p := g.find([]*Node{n}, searchOpt{goal: isIdx})
		c.check(p == nil && g.loopOf[n] == nil, "indexing", h.lab, g.where(n), "a document can be indexed twice: "+g.pathText(p))
	}
	for _, r := range h.resp {
		where := g.where(r)
		_, st := g.answers(r)
		codes, ok := g.intVals(st)
		if !c.check(ok, "status", h.lab, where, "the status of an answer is not known: "+g.P(st)) {
			continue
		}
		bef := g.find([]*Node{h.th.entry}, searchOpt{avoid: ev, goal: func(n *Node) bool { return n == r }})
		aft := g.find(idx, searchOpt{goal: func(n *Node) bool { return n == r }})
		for _, k := range codes {
			if k < 400 {
				c.check(bef == nil, "status", h.lab, where, fmt.Sprint("status ", k, " although the document was not indexed: ")+g.pathText(bef))
			} else {
				c.check(aft == nil, "status", h.lab, where, fmt.Sprint("status ", k, " although the document was indexed: ")+g.pathText(aft))
			}
		}
		if p := g.find([]*Node{r}, searchOpt{goal: isIdx}); p != nil {
			c.bad("status", h.lab, where, "the answer is given before the document is indexed")
		}
	}
	for _, n := range idx {
		h.accepted(n)
	}
}

// intVals lists the constants a number can be.
func (g *Graph) intVals(t *Term) ([]int64, bool) {
	var out []int64
	for _, v := range g.vals(t) {
		v = stripConv(v)
		k, ok := constInt(v)
		if !ok {
			return nil, false
		}
		out = append(out, k)
	}
	return out, len(out) > 0
}

// accepted: what is indexed is a document that was read without error and has an id.
func (h *handler) accepted(n *Node) {
	g, c := h.g, h.c
	where := g.where(n)
	as := g.callArgs(n)
	id, nd := as[len(as)-2], as[len(as)-1]
	doc, bindN, path := g.bound(id)
	if !c.check(doc != nil && len(path) == 1, "id", h.lab, where, "the document is indexed under "+g.P(id)) {
		return
	}
	names := jsonNames(doc.typ)
	c.check(names["id"] == path[0], "id", h.lab, where, "the document is indexed under its field "+path[0])
	start := []*Node{h.th.entry}
	goal := func(m *Node) bool { return m == n }
	if n.fr.thread != h.th {
		goal = g.lift(goal)
	}
	some := g.find(start, searchOpt{goal: goal})
	c.check(some != nil, "accepting", h.lab, where, "no document is ever indexed")
	if nm := bindN.callName(); strings.HasPrefix(nm, "(*github.com/gin-gonic/gin.Context).") {
		for _, x := range []string{"Header", "Uri", "Query", "XML", "TOML"} {
			c.check(!strings.HasSuffix(nm, "Bind"+x), "reading", h.lab, g.where(bindN), "the document is not read from the JSON body of the request")
		}
	}
	// read without error
	ri := errResult(bindN.common().Signature())
	if c.check(ri >= 0, "reading", h.lab, g.where(bindN), "how reading the document fails is not known") {
		et := g.callErr(bindN, ri)
		okErr := func(m *Node) bool { return et != nil && h.says(m, et, isNilConst, true) }
		p := g.find(start, searchOpt{avoid: okErr, goal: goal})
		c.check(p == nil, "reading", h.lab, where, "a document that could not be read is indexed: "+g.pathText(p))
	}
	isId := func(t *Term) bool {
		d, b, pa := g.bound(t)
		return d == doc && b == bindN && len(pa) == 1 && pa[0] == path[0]
	}
	p := g.find(start, searchOpt{avoid: func(m *Node) bool { return h.notEmpty(m, isId) }, goal: goal})
	c.check(p == nil, "no-id", h.lab, where, "a document without id is indexed: "+g.pathText(p))
	// with all its fields
	lists := g.fieldVals(nd, "Fields")
	if !c.check(len(lists) == 1, "fields", h.lab, where, "the fields of the document are not known") {
		return
	}
	puts, why := h.fieldPuts(lists[0], n)
	if !c.check(why == "", "fields", h.lab, where, why) {
		return
	}
	have := map[string]int{}
	for _, p := range puts {
		f := names[p.name]
		have[p.name]++
		if !c.check(f != "", "fields", h.lab, where, "field "+p.name+" is no field of the document") {
			continue
		}
		d, b, pa := g.bound(p.text)
		c.check(d == doc && b == bindN && len(pa) == 1 && pa[0] == f, "fields", h.lab, where, "field "+p.name+" is indexed with "+g.P(p.text))
	}
	for _, nm := range sortedKeys(names) {
		c.check(have[nm] == 1, "fields", h.lab, where, fmt.Sprint("field ", nm, " of the document is indexed ", have[nm], " times"))
	}
}

// says tells whether a branch says that a value is (or is not) one of some constants.
func (h *handler) says(n *Node, t *Term, is func(*Term) bool, want bool) bool {
	g := h.g
	if n.kind != NBranch || n.maybe || n.cond == nil {
		return false
	}
	cd, pol := g.single0(g.cond(n)), n.pol
	for cd.op == "un" && cd.s == "!" {
		cd, pol = g.single0(cd.args[0]), !pol
	}
	if cd.op != "bin" || cd.s != "==" && cd.s != "!=" {
		return false
	}
	if cd.s == "!=" {
		pol = !pol
	}
	x, y := g.single0(cd.args[0]), g.single0(cd.args[1])
	if is(x) {
		x, y = y, x
	}
	return is(y) && x == g.single0(t) && pol == want
}

// notEmpty tells whether a branch says that a text is not empty.
func (h *handler) notEmpty(n *Node, isIt func(*Term) bool) bool {
	g := h.g
	if n.kind != NBranch || n.maybe || n.cond == nil {
		return false
	}
	cd, pol := g.single0(g.cond(n)), n.pol
	for cd.op == "un" && cd.s == "!" {
		cd, pol = g.single0(cd.args[0]), !pol
	}
	if cd.op != "bin" {
		return false
	}
	strip := func(t *Term) *Term {
		t = g.single0(t)
		if t.op == "call" && t.s == "strings.TrimSpace" {
			t = g.single0(t.args[0])
		}
		return t
	}
	x, y, op := g.single0(cd.args[0]), g.single0(cd.args[1]), cd.s
	if x.op == "const" {
		x, y = y, x
		op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
	}
	if !pol {
		op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	if x.op == "len" {
		k, ok := constInt(y)
		return ok && isIt(strip(x.args[0])) && (op == "!=" && k == 0 || op == ">" && k >= 0 || op == ">=" && k >= 1 || op == "==" && k > 0)
	}
	return (op == "!=" || op == ">") && isEmptyStr(y) && isIt(strip(x))
}

type fieldPut struct {
	name string
	text *Term
}

// fieldPuts lists the names and texts of the fields in a list, each of which is always there.
func (h *handler) fieldPuts(list *Term, at *Node) ([]fieldPut, string) {
	g := h.g
	ct, ok := g.contents(list)
	if !ok {
		return nil, "the fields of the document come from elsewhere: " + g.P(list)
	}
	type elem struct {
		names, tfs []*Term
		nodes      []*Node
	}
	var es []*elem
	slot := map[string]*elem{}
	for _, e := range ct {
		if e.rest != nil {
			// a list of fields that is appended as a whole
			ps, why := h.fieldPuts(e.rest, e.node)
			if why != "" {
				return nil, why
			}
			for _, p := range ps {
				es = append(es, &elem{names: []*Term{g.strConst(p.name)}, tfs: []*Term{p.text}, nodes: []*Node{e.node}})
			}
			continue
		}
		if e.sub != nil {
			k := g.K(e.idx)
			x := slot[k]
			if x == nil {
				x = &elem{}
				slot[k] = x
				es = append(es, x)
			}
			switch e.sub.s {
			case "Name":
				x.names = append(x.names, e.val)
			case "TF":
				x.tfs = append(x.tfs, e.val)
			}
			x.nodes = append(x.nodes, e.node)
			continue
		}
		es = append(es, &elem{names: g.fieldVals(e.val, "Name"), tfs: g.fieldVals(e.val, "TF"), nodes: []*Node{e.node}})
	}
	var out []fieldPut
	for _, e := range es {
		if len(e.names) != 1 || len(e.tfs) != 1 {
			return nil, "a field of the document is made in several ways"
		}
		tf := g.single0(e.tfs[0])
		text := tf
		if fn := calledBy(tf); fn != nil && isCounting(fn) {
			a, why := h.chain(tf.args[0], 0)
			if a == nil {
				return nil, why
			}
			text = a.text
		}
		// it is always put there
		var around *Loop
		if ls := g.loopsAround(e.nodes[0]); len(ls) > 0 {
			around = ls[0]
		}
		put := func(m *Node) bool { return contains(e.nodes, m) }
		from := h.th.entry
		if around != nil {
			if p := g.perIteration(around, put); p != nil {
				return nil, "a field of the document may be left out: " + g.pathText(p)
			}
			if len(g.exits(around)) > 0 {
				return nil, "the loop over the fields can be left early"
			}
			put = func(m *Node) bool { return m == around.done }
		}
		if p := g.find([]*Node{from}, searchOpt{avoid: g.lift(put), goal: g.lift(func(m *Node) bool { return m == at })}); p != nil {
			return nil, "a field of the document may be left out: " + g.pathText(p)
		}
		ps, why := h.namesAndTexts(e.names[0], text, around)
		if why != "" {
			return nil, why
		}
		out = append(out, ps...)
	}
	return out, ""
}

func (g *Graph) strConst(s string) *Term {
	return g.konst(constant.MakeString(s), types.Typ[types.String])
}

// namesAndTexts pairs the names and the texts a loop over a literal gives.
func (h *handler) namesAndTexts(name, text *Term, l *Loop) ([]fieldPut, string) {
	g := h.g
	nm := g.single0(name)
	if k := constStr(nm); k != "" {
		if l != nil {
			return nil, "field " + k + " is stored in a loop"
		}
		return []fieldPut{{k, text}}, ""
	}
	if l == nil {
		return nil, "the name of a field is not known: " + g.P(nm)
	}
	// a map literal
	if nm.op == "rangekey" {
		if lp, _ := g.iterOf(nm); lp == l {
			x := g.single(l.dom)
			t := g.single0(text)
			if x == nil || x.op != "fresh" || !(t.op == "rangeval" && t == l.val || t.op == "lookup" && g.sameCont(t.args[0], x) && g.K(t.args[1]) == g.K(nm)) {
				return nil, "a field is not stored with the text that belongs to its name"
			}
			var out []fieldPut
			for _, e := range g.effects() {
				if e.m == nil || e.kind == "store" || !g.sameCont(e.m, x) {
					continue
				}
				k := constStr(g.single0(e.k))
				if e.kind != "update" || k == "" {
					return nil, "the fields of the document are not known"
				}
				if p := g.find([]*Node{h.th.entry}, searchOpt{avoid: func(m *Node) bool { return m == e.n }, goal: func(m *Node) bool { return m == l.enter }}); p != nil {
					return nil, "field " + k + " may be left out: " + g.pathText(p)
				}
				out = append(out, fieldPut{k, e.v})
			}
			return out, ""
		}
	}
	// literals of equal length
	list := func(t *Term) ([]*Term, string) {
		ia, f := g.elemSource(t)
		if ia == nil || l.key == nil || g.K(ia.args[1]) != g.K(l.key) {
			return nil, ""
		}
		_, es, ok := g.literalParts(ia.args[0], f)
		if !ok {
			// a literal of a package variable
			if og, es2, ok2 := g.literal(ia.args[0]); ok2 {
				if f == "" {
					return es2, ""
				}
				var out []*Term
				for _, e := range es2 {
					out = append(out, og.fieldVals(e, f)...)
				}
				return out, ""
			}
			return nil, ""
		}
		if l.dom != nil && !g.sameCont(l.dom, ia.args[0]) {
			if _, d, ok := g.literalParts(l.dom, ""); !ok || len(d) != len(es) {
				return nil, "the loop is over another list"
			}
		}
		return es, ""
	}
	ns, why := list(nm)
	if why != "" {
		return nil, why
	}
	ts, why := list(text)
	if why != "" {
		return nil, why
	}
	if ns == nil || len(ns) != len(ts) {
		return nil, "a field is not stored with the text that belongs to its name: " + g.P(nm) + " and " + g.P(text)
	}
	var out []fieldPut
	for i := range ns {
		k := constStr(ns[i])
		if k == "" {
			k = constStr(g.single0(ns[i]))
		}
		if k == "" {
			return nil, "the name of a field is not known: " + g.P(ns[i])
		}
		out = append(out, fieldPut{k, ts[i]})
	}
	return out, ""
}

// ---- the handler that searches

// sized evaluates numbers and the length of lists for one number of results of the search.
type sized struct {
	h    *handler
	n    int64
	busy map[*Term]bool
	feas map[*Node]bool
	rs   *Term
}

func (h *handler) get() {
	g, c := h.g, h.c
	ss := h.calling("/search.Search).Search")
	if !c.check(len(ss) == 1, "search", h.lab, g.where(h.th.entry), fmt.Sprint(len(ss), " searches are made for a request")) {
		return
	}
	rs := g.result(ss[0], 0)
	// where the results are answered
	type answer struct {
		n     *Node
		list  *Term
		field string
		total *Term
	}
	var as []answer
	for _, r := range h.resp {
		if g.find([]*Node{ss[0]}, searchOpt{goal: func(n *Node) bool { return n == r }}) == nil {
			continue
		}
		args := g.callArgs(r)
		body := g.single0(args[len(args)-1])
		for body.op == "iface" || body.op == "conv" {
			body = g.single0(body.args[0])
		}
		var total *Term
		if vs := g.fieldVals0(body, "Total"); len(vs) == 1 && vs[0].typ != nil && isNumeric(vs[0].typ) {
			total = vs[0]
		}
		if f, l := h.listField(body); l != nil {
			as = append(as, answer{r, l, f, total})
		} else {
			as = append(as, answer{r, nil, "", total})
		}
	}
	if !c.check(len(as) > 0, "results", h.lab, g.where(ss[0]), "the search is not answered") {
		return
	}
	for _, n := range h.sizes() {
		z := &sized{h: h, n: n, busy: map[*Term]bool{}, rs: rs, feas: map[*Node]bool{}}
		z.reach()
		want := n
		if want > 10 {
			want = 10
		}
		any := false
		for _, a := range as {
			if !z.feas[a.n] {
				continue
			}
			any = true
			where := g.where(a.n)
			_, st := g.answers(a.n)
			if codes, ok := g.intVals(st); ok && len(codes) == 1 {
				c.check(codes[0] >= 200 && codes[0] < 300, "results", h.lab, where, fmt.Sprint("a search with ", n, " results is answered with status ", codes[0]))
			}
			if a.total != nil {
				if k, ok := z.num(a.total); ok {
					c.check(k == want, "results", h.lab, where, fmt.Sprint("with ", n, " results the total is ", k, " although ", want, " are answered"))
				}
			}
			if a.list == nil {
				c.check(want == 0, "results", h.lab, where, fmt.Sprint("a search with ", n, " results is answered without them"))
				continue
			}
			k, ok := z.length(a.list)
			if c.check(ok, "results", h.lab, where, "how many results are answered is not known: "+g.P(a.list)) {
				c.check(k == want, "results", h.lab, where, fmt.Sprint("of ", n, " results ", k, " are answered"))
			}
			if want > 0 {
				why := z.entries(a.list, 0)
				c.check(why == "", "entries", h.lab, where, why)
			}
		}
		c.check(any, "results", h.lab, g.where(ss[0]), fmt.Sprint("a search with ", n, " results is not answered"))
		z.bounds()
	}
}

// fieldVals0 are the values of a field of what may be no struct.
func (g *Graph) fieldVals0(t *Term, name string) []*Term {
	if t.typ == nil {
		return nil
	}
	return g.fieldVals(t, name)
}

// listField finds the list of results in the body of an answer.
func (h *handler) listField(body *Term) (string, *Term) {
	g := h.g
	if body.typ == nil {
		return "", nil
	}
	t := derefType(body.typ)
	if _, ok := t.Underlying().(*types.Slice); ok {
		return "", body
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if _, ok := sl.Elem().Underlying().(*types.Struct); !ok {
				if p, ok := sl.Elem().Underlying().(*types.Pointer); !ok || p == nil {
					continue
				}
			}
			vs := g.fieldVals(body, st.Field(i).Name())
			if len(vs) == 1 {
				return st.Field(i).Name(), vs[0]
			}
		}
		return "", nil
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		if x := g.single(body); x != nil {
			for _, e := range g.effects() {
				if e.m != nil && e.kind == "update" && g.sameCont(e.m, x) {
					v := g.single0(e.v)
					for v.op == "iface" || v.op == "conv" {
						v = g.single0(v.args[0])
					}
					if v.typ != nil {
						if sl, ok := v.typ.Underlying().(*types.Slice); ok {
							if _, ok := sl.Elem().Underlying().(*types.Struct); ok {
								return "", v
							}
						}
					}
				}
			}
		}
	}
	return "", nil
}

// sizes are the numbers of results to look at: around every number the handler compares with, and around ten.
func (h *handler) sizes() []int64 {
	set := map[int64]bool{0: true, 1: true, 9: true, 10: true, 11: true, 50: true}
	var max int64 = 50
	add := func(t *Term) {
		if k, ok := constInt(t); ok && k >= 0 && k < 1<<20 {
			for _, x := range []int64{k - 1, k, k + 1, k + 10} {
				if x >= 0 {
					set[x] = true
					if x > max {
						max = x
					}
				}
			}
		}
	}
	for _, n := range h.own() {
		if n.kind != NInstr {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.BinOp, *ssa.Phi:
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if *o != nil && isNumeric((*o).Type()) {
					add(h.g.term(n.fr, *o))
				}
			}
		case *ssa.Slice:
			for _, v := range []ssa.Value{in.Low, in.High} {
				if v != nil {
					add(h.g.term(n.fr, v))
				}
			}
		}
	}
	set[max+100] = true
	var out []int64
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// reach finds the nodes that can run with this number of results.
func (z *sized) reach() {
	g := z.h.g
	// branch outcomes depend on merged values whose alternatives depend on what can run: two rounds settle it
	z.feas = nil
	for round := 0; round < 3; round++ {
		feas := map[*Node]bool{}
		work := []*Node{z.h.th.entry}
		feas[z.h.th.entry] = true
		for len(work) > 0 {
			n := work[len(work)-1]
			work = work[:len(work)-1]
			for _, s := range n.succ {
				if feas[s] || s.kind == NBranch && !s.maybe && z.never(s) {
					continue
				}
				feas[s] = true
				work = append(work, s)
			}
		}
		z.feas = feas
	}
	_ = g
}

// never tells whether a branch is not taken with this number of results.
func (z *sized) never(b *Node) bool {
	v, ok := z.cond(z.h.g.cond(b))
	return ok && v != b.pol
}

func (z *sized) cond(t *Term) (bool, bool) {
	g := z.h.g
	t = z.one(t)
	if t == nil {
		return false, false
	}
	switch t.op {
	case "const":
		if t.cv != nil && t.cv.Kind() == constant.Bool {
			return constant.BoolVal(t.cv), true
		}
	case "un":
		if t.s == "!" {
			v, ok := z.cond(t.args[0])
			return !v, ok
		}
	case "bin":
		if isNilConst(g.single0(t.args[1])) || isNilConst(g.single0(t.args[0])) {
			x := t.args[0]
			if isNilConst(g.single0(x)) {
				x = t.args[1]
			}
			// a list of results that is not empty is not nil
			if k, ok := z.length(x); ok && k > 0 && (t.s == "==" || t.s == "!=") {
				return t.s == "!=", true
			}
			return false, false
		}
		a, ok1 := z.num(t.args[0])
		b, ok2 := z.num(t.args[1])
		if !ok1 || !ok2 {
			return false, false
		}
		switch t.s {
		case "<":
			return a < b, true
		case "<=":
			return a <= b, true
		case ">":
			return a > b, true
		case ">=":
			return a >= b, true
		case "==":
			return a == b, true
		case "!=":
			return a != b, true
		}
	}
	return false, false
}

// one is the only value a term can be with this number of results.
func (z *sized) one(t *Term) *Term {
	g := z.h.g
	for i := 0; i < 20; i++ {
		t = g.single0(t)
		as := z.alts(t)
		if as == nil {
			return t
		}
		if len(as) != 1 {
			return nil
		}
		if as[0] == t {
			return t
		}
		t = as[0]
	}
	return nil
}

// alts lists what a merged value can be with this number of results, nil when it is not merged.
func (z *sized) alts(t *Term) []*Term {
	g := z.h.g
	can := func(n *Node) bool { return z.feas == nil || z.feas[n] }
	var out []*Term
	add := func(x *Term) {
		for _, y := range out {
			if x == y {
				return
			}
		}
		out = append(out, x)
	}
	switch t.op {
	case "phi":
		p := t.v.(*ssa.Phi)
		for i, e := range p.Edges {
			pb := p.Block().Preds[i]
			if t.fr.first[pb] == nil {
				continue
			}
			ok := false
			for _, n := range g.edgeNodes(t.fr, pb, p.Block()) {
				ok = ok || can(n)
			}
			if ok {
				add(g.term(t.fr, e))
			}
		}
		return out
	case "ret":
		cf := t.node.callee
		for _, r := range cf.rets {
			if can(r) {
				add(g.retVal(cf, r, t.i))
			}
		}
		return out
	case "load":
		if innerIndex(t.args[0]) != nil {
			return nil
		}
		for _, m := range g.memVals(t.node, t.args[0], t.typ) {
			if m.node == nil || can(m.node) {
				add(m.val)
			}
		}
		if len(out) == 0 {
			return nil
		}
		return out
	case "field":
		// a part of a variable
		x := t.args[0]
		if x.op != "snapshot" || x.node == nil {
			return nil
		}
		for _, m := range g.memVals(x.node, g.mk(&Term{op: "fieldaddr", s: t.s, args: []*Term{x.args[0]}, typ: types.NewPointer(t.typ)}), t.typ) {
			if m.node == nil || can(m.node) {
				add(m.val)
			}
		}
		return out
	}
	return nil
}

func (z *sized) merge(t *Term, f func(*Term) (int64, bool)) (int64, bool) {
	as := z.alts(t)
	if len(as) == 0 || z.busy[t] {
		return 0, false
	}
	z.busy[t] = true
	defer delete(z.busy, t)
	var out int64
	for i, a := range as {
		k, ok := f(a)
		if !ok || i > 0 && k != out {
			return 0, false
		}
		out = k
	}
	return out, true
}

func (z *sized) num(t *Term) (int64, bool) {
	g := z.h.g
	t = g.bare(t)
	if k, ok := constInt(t); ok {
		return k, true
	}
	switch t.op {
	case "len":
		return z.length(t.args[0])
	case "cap":
		return 0, false
	case "bin":
		a, ok1 := z.num(t.args[0])
		b, ok2 := z.num(t.args[1])
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.s {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "/":
			if b != 0 {
				return a / b, true
			}
		}
		return 0, false
	case "call":
		if t.s == "builtin.min" || t.s == "builtin.max" {
			var out int64
			for i, x := range t.args {
				k, ok := z.num(x)
				if !ok {
					return 0, false
				}
				if i == 0 || t.s == "builtin.min" && k < out || t.s == "builtin.max" && k > out {
					out = k
				}
			}
			return out, len(t.args) > 0
		}
		if (t.s == "math.Min" || t.s == "math.Max") && len(t.args) == 2 {
			a, ok1 := z.num(t.args[0])
			b, ok2 := z.num(t.args[1])
			if (a < b) == (t.s == "math.Min") {
				return a, ok1 && ok2
			}
			return b, ok1 && ok2
		}
		return 0, false
	case "phi", "ret", "load", "field":
		return z.merge(t, z.num)
	}
	return 0, false
}

// length is the number of elements of a list.
func (z *sized) length(t *Term) (int64, bool) {
	g := z.h.g
	t = g.single0(t)
	if t == g.single0(z.rs) {
		return z.n, true
	}
	switch t.op {
	case "const":
		return 0, isNilConst(t)
	case "zero":
		return 0, true
	case "conv", "iface":
		return z.length(t.args[0])
	case "slice":
		if n := g.madeLen(t); n != nil {
			return z.num(n)
		}
		lo, hi, ok := z.cut(t)
		return hi - lo, ok && lo <= hi
	case "fresh":
		if n := g.madeLen(t); n != nil {
			return z.num(n)
		}
		if va, ok := g.varargs(t); ok {
			return int64(len(va)), true
		}
		if al, ok := t.v.(*ssa.Alloc); ok {
			if arr, ok := derefType(al.Type()).Underlying().(*types.Array); ok {
				return arr.Len(), true
			}
		}
		return 0, false
	case "append":
		if k, ok := z.appended(t); ok {
			return k, true
		}
		a, ok := z.length(t.args[0])
		if !ok || len(t.args) < 2 || z.looped(t) {
			return 0, false
		}
		b, ok := z.length(t.args[1])
		return a + b, ok
	case "call":
		if t.s == "slices.Clone" || t.s == "slices.Clip" || t.s == "slices.Grow" {
			return z.length(t.args[0])
		}
		return 0, false
	case "phi", "ret", "load", "field":
		if k, ok := z.appended(t); ok {
			return k, true
		}
		return z.merge(t, z.length)
	}
	return 0, false
}

func (z *sized) looped(t *Term) bool { return t.node != nil && z.h.g.loopOf[t.node] != nil }

// cut gives the bounds of a slice expression.
func (z *sized) cut(t *Term) (lo, hi int64, ok bool) {
	g := z.h.g
	if l := g.single0(t.args[1]); l.op != "none" {
		if lo, ok = z.num(l); !ok {
			return 0, 0, false
		}
	}
	if x := g.single0(t.args[2]); x.op != "none" {
		hi, ok = z.num(x)
		return lo, hi, ok
	}
	hi, ok = z.length(t.args[0])
	return lo, hi, ok
}

// appended is the length of a list that a loop appends to, one element each time.
func (z *sized) appended(t *Term) (int64, bool) {
	g := z.h.g
	if z.busy[t] {
		return 0, false
	}
	l, why := g.listOf(t, nil)
	if why != "" || l.kind != "append" {
		return 0, false
	}
	z.busy[t] = true
	defer delete(z.busy, t)
	if z.skips(l) || g.twice(l) != nil {
		return 0, false
	}
	return z.trips(l.loop, l.put)
}

// skips looks for an iteration that continues without the element, with this number of results.
func (z *sized) skips(l *List) bool {
	g := z.h.g
	if l.loop.enter == nil {
		return true
	}
	return g.find([]*Node{l.loop.enter}, searchOpt{
		avoid: func(n *Node) bool { return l.put(n) || !z.feas[n] },
		goal:  func(n *Node) bool { return n == l.loop.header },
	}) != nil
}

// trips is how often a loop runs (up to an event).
func (z *sized) trips(l *Loop, put func(*Node) bool) (int64, bool) {
	g := z.h.g
	var n int64
	ok := false
	switch {
	case l.kind == "slice" && l.dom != nil:
		n, ok = z.length(l.dom)
	case l.kind == "count" && l.bound != nil:
		n, ok = z.num(l.bound)
	}
	if !ok || l.desc && len(g.exits(l)) > 0 {
		return 0, false
	}
	if n < 0 {
		n = 0
	}
	for _, x := range g.exits(l) {
		if !z.feas[x] && z.feas != nil {
			continue
		}
		if g.dying(x) {
			continue
		}
		// left when the counter reaches a number
		var br *Node
		for p := x; ; {
			if p.kind == NBranch {
				br = p
				break
			}
			if len(p.pred) != 1 {
				break
			}
			p = p.pred[0]
		}
		if br == nil {
			return 0, false
		}
		k, ok := z.leaves(br, l)
		if !ok {
			return 0, false
		}
		// a test after the element was put counts this element
		after := put != nil && g.find([]*Node{l.enter}, searchOpt{avoid: put, goal: func(m *Node) bool { return m == br }}) == nil
		if after {
			k++
		}
		if k < 0 {
			k = 0
		}
		if k < n {
			n = k
		}
	}
	return n, true
}

// leaves is the index of the iteration in which a branch leaves a loop.
func (z *sized) leaves(b *Node, l *Loop) (int64, bool) {
	g := z.h.g
	c, pol := g.single0(g.cond(b)), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = g.single0(c.args[0]), !pol
	}
	if c.op != "bin" {
		return 0, false
	}
	x, y, op := c.args[0], c.args[1], c.s
	start, ok := z.count(x, l)
	if !ok {
		x, y = y, x
		op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
		if start, ok = z.count(x, l); !ok {
			return 0, false
		}
	}
	if !pol {
		op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	k, ok := z.num(y)
	if !ok {
		return 0, false
	}
	switch op {
	case "==":
		if k < start {
			return 1 << 40, true
		}
		return k - start, true
	case ">=":
		return max64(k-start, 0), true
	case ">":
		return max64(k+1-start, 0), true
	}
	return 0, false
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// count: a number that grows by one in each iteration: its value in the first one. The length of the list that the
// loop appends to is one.
func (z *sized) count(t *Term, l *Loop) (int64, bool) {
	g := z.h.g
	if k, ok := g.counter(l, t); ok {
		return k, true
	}
	t = g.single0(t)
	if l.key != nil && g.K(t) == g.K(l.key) {
		return 0, !l.desc
	}
	if t.op == "len" {
		x := g.single0(t.args[0])
		lst, why := g.listOf(x, nil)
		if why != "" || lst.kind != "append" || lst.loop != l || z.skips(lst) || g.twice(lst) != nil {
			return 0, false
		}
		if x.op == "append" {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// entries decides that the elements of a list are the first results, in order, with their ids and scores.
func (z *sized) entries(t *Term, d int) string {
	h, g := z.h, z.h.g
	t = g.single0(t)
	if d > 8 {
		return "the answered list is not known"
	}
	if t == g.single0(z.rs) {
		return ""
	}
	l, why := g.listOf(t, nil)
	if why == "" && !z.isCut(t, 0) {
		return z.filled(l)
	} else if t.op != "slice" && t.op != "phi" && t.op != "ret" && t.op != "load" && t.op != "conv" && !(t.op == "call" && strings.HasPrefix(t.s, "slices.Cl")) {
		if l2 := z.byIndex(t); l2 != nil {
			return z.filled(l2)
		}
		return "the answered list is not made of the results: " + why
	}
	switch t.op {
	case "conv", "call":
		return z.entries(t.args[0], d+1)
	case "slice":
		if g.madeLen(t) != nil {
			if l2 := z.byIndex(t); l2 != nil {
				return z.filled(l2)
			}
		}
		lo, _, ok := z.cut(t)
		if !ok || lo != 0 {
			return "the answer does not start with the best result"
		}
		return z.entries(t.args[0], d+1)
	}
	as := z.alts(t)
	if len(as) == 0 {
		return "the answered list is not known: " + g.P(t)
	}
	for _, a := range as {
		if why := z.entries(a, d+1); why != "" {
			return why
		}
	}
	_ = h
	return ""
}

// isCut tells whether a list may be a part of another one.
func (z *sized) isCut(t *Term, d int) bool {
	g := z.h.g
	t = g.single0(t)
	if d > 8 {
		return true
	}
	switch t.op {
	case "slice":
		return g.madeLen(t) == nil
	case "phi", "ret", "load":
		if z.busy[t] {
			return false
		}
		z.busy[t] = true
		defer delete(z.busy, t)
		for _, a := range z.alts(t) {
			if z.isCut(a, d+1) {
				return true
			}
		}
	}
	return false
}

// byIndex is a list whose slots are filled by a loop that may run over fewer elements than there are results.
func (z *sized) byIndex(t *Term) *List {
	g := z.h.g
	ct, ok := g.contents(t)
	if !ok || len(ct) == 0 {
		return nil
	}
	l := &List{kind: "slots", elems: ct}
	for _, e := range ct {
		if e.idx == nil {
			return nil
		}
		ls := g.loopsAround(e.node)
		if len(ls) == 0 || l.loop != nil && ls[0] != l.loop {
			return nil
		}
		l.loop = ls[0]
		if l.loop.key != nil && g.K(e.idx) == g.K(l.loop.key) {
			continue
		}
		if c, ok := g.counter(l.loop, e.idx); !ok || c != 0 {
			return nil
		}
	}
	n, ok1 := z.length(t)
	m, ok2 := z.trips(l.loop, nil)
	if !ok1 || !ok2 || m != n {
		return nil
	}
	return l
}

// filled decides that a loop puts each result into a list, under the id and score it has.
func (z *sized) filled(l *List) string {
	g := z.h.g
	if l.loop.desc && l.kind == "append" {
		return "the results are answered in reverse order"
	}
	if p := g.perIteration(l.loop, func(n *Node) bool { return l.put(n) || !z.feas[n] }); p != nil {
		// leaving the loop is counted elsewhere
		if z.skips(l) {
			return "a result may be left out: " + g.pathText(p)
		}
	}
	isRes := func(t *Term, f string) string {
		ia, fl := g.elemSource(t)
		if ia == nil || g.single0(ia.args[0]) != g.single0(z.rs) {
			// a prefix of the results
			if ia == nil {
				return g.P(t)
			}
			s := g.single0(ia.args[0])
			for s.op == "slice" || s.op == "phi" || s.op == "load" || s.op == "ret" {
				if s.op == "slice" {
					if lo, _, ok := z.cut(s); !ok || lo != 0 {
						return g.P(t)
					}
					s = g.single0(s.args[0])
					continue
				}
				o := z.one(s)
				if o == nil || o == s {
					return g.P(t)
				}
				s = o
			}
			if s != g.single0(z.rs) {
				return g.P(t)
			}
		}
		if fl != f {
			return "field " + fl
		}
		if l.loop.key != nil && g.K(ia.args[1]) == g.K(l.loop.key) {
			return ""
		}
		if c, ok := g.counter(l.loop, ia.args[1]); ok && c == 0 {
			return ""
		}
		return "the result at " + g.P(ia.args[1])
	}
	// the parts of an element
	type part struct {
		name string
		val  *Term
		node *Node
	}
	var parts []part
	add := func(name string, v *Term, n *Node) {
		if v.typ != nil {
			if st, ok := v.typ.Underlying().(*types.Struct); ok {
				_ = st
				for _, lf := range g.leaves(v, "", 0) {
					parts = append(parts, part{lf.name, lf.val, n})
				}
				return
			}
		}
		parts = append(parts, part{name, v, n})
	}
	for _, e := range l.elems {
		if e.sub != nil {
			add(jsonName(e.sub.args[0].typ, e.sub.s), e.val, e.node)
		} else {
			add("", e.val, e.node)
		}
	}
	// stores to parts of parts
	roots := map[*Term]bool{}
	for _, e := range l.elems {
		if e.idx != nil {
			for _, r := range g.sliceRoots(g.deepBase(e.node)) {
				roots[r] = true
			}
		}
	}
	for r := range roots {
		for _, n := range g.storesToSlice(r) {
			a := g.term(n.fr, n.in.(*ssa.Store).Addr)
			if a.op != "fieldaddr" || a.args[0].op != "fieldaddr" {
				continue
			}
			ia := innerIndex(a)
			if p := g.perIteration(l.loop, func(m *Node) bool { return m == n }); p != nil || l.loop.key == nil || g.K(ia.args[1]) != g.K(l.loop.key) {
				return "a part of a result is set apart from the others at " + g.where(n)
			}
			add(jsonName(a.args[0].typ, a.s), g.term(n.fr, n.in.(*ssa.Store).Val), n)
		}
	}
	ids, scores := 0, 0
	for _, p := range parts {
		switch {
		case isFloat(p.val.typ):
			if why := isRes(p.val, "Score"); why != "" {
				return "the score in the answer is not that of the result: " + why
			}
			scores++
		case isStringTyp(p.val.typ) && (p.name == "id" || p.name == ""):
			if why := isRes(p.val, "Id"); why != "" {
				q := g.single0(p.val)
				if isEmptyStr(q) || q.op == "zero" {
					continue
				}
				return "the id in the answer is not that of the result: " + why
			}
			ids++
		}
	}
	if ids == 0 {
		return "the answer does not name the documents"
	}
	if scores == 0 {
		return "the answer does not give the scores"
	}
	return ""
}

type leaf struct {
	name string
	val  *Term
}

// leaves lists the parts of a struct value, of structs in it too, with their json names.
func (g *Graph) leaves(t *Term, name string, d int) []leaf {
	if t.typ == nil || d > 4 {
		return []leaf{{name, t}}
	}
	st, ok := t.typ.Underlying().(*types.Struct)
	if !ok {
		return []leaf{{name, t}}
	}
	var out []leaf
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, g.leaves(g.fieldOf(t, st.Field(i).Name(), i, st.Field(i).Type()), jsonName(t.typ, st.Field(i).Name()), d+1)...)
	}
	return out
}

func jsonName(t types.Type, field string) string {
	if t != nil {
		if st, ok := derefType(t).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == field {
					if tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]; tag != "" {
						return tag
					}
				}
			}
		}
	}
	return field
}

// deepBase is the slice a store to (a part of) an element goes to.
func (g *Graph) deepBase(n *Node) *Term {
	return innerIndex(g.term(n.fr, n.in.(*ssa.Store).Addr)).args[0]
}

// bounds: no index or slice expression on the results is out of range with this number of results.
func (z *sized) bounds() {
	h, g, c := z.h, z.h.g, z.h.c
	for _, n := range h.own() {
		if n.kind != NInstr || !z.feas[n] {
			continue
		}
		switch in := n.in.(type) {
		case *ssa.Slice:
			t := g.term(n.fr, in)
			if t.op != "slice" || g.madeLen(t) != nil {
				continue
			}
			size, ok := z.length(t.args[0])
			if !ok {
				continue
			}
			lo, hi, ok := z.cut(t)
			where := g.where(n)
			if c.check(ok, "bounds", h.lab, where, "the bounds of a slice are not known: "+g.P(t)) {
				c.check(0 <= lo && lo <= hi && hi <= size, "bounds", h.lab, where, fmt.Sprint("with ", z.n, " results a slice of ", size, " is cut at ", lo, " and ", hi))
			}
		case *ssa.IndexAddr:
			base := g.term(n.fr, in.X)
			if _, ok := in.X.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			size, ok := z.length(base)
			if !ok {
				continue
			}
			where := g.where(n)
			idx := g.term(n.fr, in.Index)
			if k, ok := z.num(idx); ok {
				c.check(k >= 0 && k < size, "bounds", h.lab, where, fmt.Sprint("with ", z.n, " results element ", k, " of ", size, " is used"))
				continue
			}
			done := false
			for _, l := range g.loopsAround(n) {
				k, ok := g.counter(l, idx)
				if !ok && l.key != nil && g.K(l.key) == g.K(idx) {
					k, ok = 0, true
				}
				if !ok {
					continue
				}
				m, ok := z.trips(l, func(x *Node) bool { return x == n })
				if !ok {
					continue
				}
				done = true
				c.check(m+k <= size, "bounds", h.lab, where, fmt.Sprint("with ", z.n, " results a loop of ", m, " uses the elements of a list of ", size))
			}
			c.check(done, "bounds", h.lab, where, "an element is used whose position is not known: "+g.P(idx))
		}
	}
}

// ---- what the index does with a document

// indexesAll: each implementation of the index saves every field of the document under its id.
func (c *Ctx) indexesAll() {
	found := 0
	for _, nt := range c.p.Implementers("index", "Index") {
		f := c.p.Method(nt, "IndexDocument")
		if f == nil {
			continue
		}
		found++
		g := c.graph(f, func(x *ssa.Function) bool { return strings.HasPrefix(funcPkgPath(x), Module+"/storage") }, "storage")
		lab := fnLabel(f)
		ps := body(f).Params
		id, doc := g.term(g.root, ps[1]), g.term(g.root, ps[2])
		fields := g.fieldVals(doc, "Fields")
		var saves []*Node
		for _, n := range g.liveNodes {
			if (n.kind == NInstr || n.kind == NDeferred) && n.common() != nil && !isDeferOrGo(n) && strings.HasSuffix(n.callName(), "/storage.Storage).SaveOrUpdate") {
				saves = append(saves, n)
			}
		}
		if !c.check(len(saves) > 0 && len(fields) == 1, "index", lab, g.where(g.root.entry), "the fields of a document are not saved") {
			continue
		}
		if len(g.threads) > 1 {
			c.noRaces(g, lab)
			c.protocol(g, lab)
		}
		isSave := func(n *Node) bool { return contains(saves, n) }
		for _, n := range saves {
			where := g.where(n)
			as := g.callArgs(n)
			c.check(g.single0(as[len(as)-2]) == id, "index", lab, where, "a field is saved under "+g.P(as[len(as)-2]))
			var l *Loop
			ia, fl := g.elemSource(as[len(as)-1])
			isFields := func(t *Term) bool { return g.K(t) == g.K(fields[0]) || g.P(t) == g.P(fields[0]) }
			if ia != nil && fl == "" && isFields(ia.args[0]) {
				for _, x := range g.loopsAround(n) {
					if x.key != nil && g.K(x.key) == g.K(ia.args[1]) && (x.kind == "slice" && isFields(x.dom) || x.kind == "count" && x.bound != nil && g.single0(x.bound).op == "len" && isFields(g.single0(x.bound).args[0])) {
						l = x
					}
				}
			}
			if !c.check(l != nil, "index", lab, where, "what is saved is not each field of the document: "+g.P(as[len(as)-1])) {
				continue
			}
			p := g.perIteration(l, g.lift(isSave))
			c.check(p == nil, "index", lab, where, "a field may not be saved: "+g.pathText(p))
			p = g.find([]*Node{n}, searchOpt{avoid: func(m *Node) bool { return m == l.header }, goal: isSave})
			c.check(p == nil && len(g.loopsAround(n)) == 1, "index", lab, where, "a field can be saved twice")
			c.check(len(g.exits(l)) == 0, "index", lab, where, "the loop over the fields can be left early")
			p = g.find([]*Node{g.root.entry}, searchOpt{
				avoid: func(m *Node) bool { return m == l.done || g.emptyGuard(m, g.P(fields[0])) },
				goal:  func(m *Node) bool { return m == g.root.exit },
			})
			c.check(p == nil, "index", lab, where, "the fields may not be saved: "+g.pathText(p))
			if n.fr.thread != g.threads[0] && !n.fr.thread.sequential() {
				c.check(g.doneBy(n.fr.thread, g.root.exit), "index", lab, where, "a field is saved in a goroutine nobody waits for")
			}
		}
	}
	c.check(found > 0, "sites", "index", "", "there is no index")
}

func init() {
	register("C26", 1, "", ruleC26)
}
