package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The files of the disk store: every file operation reachable from the store, with the shape of the path it is
// given. A shape has the root, constants, and * for a name that is different for every id, field or fragment.

type pseg struct {
	kind   string // lit, safe, listed, unique, other
	lit    string
	arg    *Term  // the name a safe segment is made from
	raw    bool   // it is made from the name of a file, not from an id
	dir    []pseg // the folder a listed name is from
	suffix string
	t      *Term
}

func (s pseg) String() string {
	switch s.kind {
	case "lit":
		return s.lit
	case "other":
		return "?"
	}
	return "*" + s.suffix
}

type fileOp struct {
	g    *Graph
	n    *Node
	kind string // read, write, rename-from, rename-to, remove, removeall, mkdir, stat, list, link
	t    *Term
	path []pseg
	root string
}

func (o *fileOp) shape() string {
	s := "<root>"
	for _, p := range o.path {
		s += "/" + p.String()
	}
	return s
}

func (o *fileOp) dir() string {
	s := o.shape()
	if i := strings.LastIndex(s, "/"); i > 0 {
		return s[:i]
	}
	return s
}

var fileFuncs = map[string][]string{
	"os.ReadFile": {"read"}, "os.Open": {"read"}, "os.OpenFile": {"write"}, "os.Create": {"write"}, "os.WriteFile": {"write"},
	"os.Truncate": {"write"}, "os.Rename": {"rename-from", "rename-to"}, "os.Remove": {"remove"}, "os.RemoveAll": {"removeall"},
	"os.Mkdir": {"mkdir"}, "os.MkdirAll": {"mkdir"}, "os.Stat": {"stat"}, "os.Lstat": {"stat"}, "os.ReadDir": {"list"},
	"os.Link": {"link", "link"}, "os.Symlink": {"link", "link"}, "os.CreateTemp": {"create-in"}, "os.MkdirTemp": {"create-in"},
	"os.DirFS": {"list"}, "os.Readlink": {"stat"}, "os.Chmod": {"mkdir"},
	"io/ioutil.ReadFile": {"read"}, "io/ioutil.WriteFile": {"write"}, "io/ioutil.ReadDir": {"list"}, "io/ioutil.TempFile": {"create-in"},
	"path/filepath.Glob": {"list"}, "path/filepath.Walk": {"list"}, "path/filepath.WalkDir": {"list"},
}

// fileOps lists the file operations of a graph.
func (g *Graph) fileOps() []*fileOp {
	var out []*fileOp
	for _, n := range g.liveNodes {
		if n.kind != NInstr && n.kind != NDeferred || n.common() == nil {
			continue
		}
		nm := n.callName()
		ks, ok := fileFuncs[nm]
		if !ok {
			continue
		}
		as := g.callArgs(n)
		for i, k := range ks {
			if nm == "os.OpenFile" && len(as) > 1 {
				if f, ok := constInt(g.single0(as[1])); ok && f&3 == 0 && f&(0o1000|0o100|0o2000) == 0 {
					k = "read"
				}
			}
			o := &fileOp{g: g, n: n, kind: k, t: as[i]}
			ts := g.pathTerms(as[i])
			if len(ts) > 0 {
				o.root = g.P(ts[0])
				for _, t := range ts[1:] {
					o.path = append(o.path, g.segOf(t)...)
				}
			}
			out = append(out, o)
		}
	}
	return out
}

func constString(t *Term) (string, bool) {
	if t != nil && t.op == "const" && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

// segOf classifies a part of a path.
func (g *Graph) segOf(t *Term) []pseg {
	t = g.single0(t)
	if s, ok := constString(t); ok {
		var out []pseg
		for _, x := range strings.Split(s, "/") {
			out = append(out, pseg{kind: "lit", lit: x, t: t})
		}
		return out
	}
	switch {
	case t.op == "bin" && t.s == "+":
		parts := g.concat(t)
		lit := ""
		var name *pseg
		for _, p := range parts {
			p = g.single0(p)
			if s, ok := constString(p); ok {
				if name != nil {
					name.suffix += s
				} else {
					lit += s
				}
				continue
			}
			q := g.segOf(p)
			if name != nil || lit != "" || len(q) != 1 || q[0].kind == "other" {
				return []pseg{{kind: "other", t: t}}
			}
			name = &q[0]
		}
		if name != nil {
			return []pseg{*name}
		}
		return []pseg{{kind: "lit", lit: lit, t: t}}
	case t.op == "call" && t.s == safeName && len(t.args) == 1:
		a := g.single0(t.args[0])
		if a.op == "call" && a.s == origName && len(a.args) == 1 {
			if l := g.listedIn(a.args[0]); l != nil {
				return []pseg{{kind: "listed", t: a.args[0], dir: l, arg: a}}
			}
		}
		return []pseg{{kind: "safe", arg: t.args[0], t: t, raw: g.rawName(a)}}
	}
	if l := g.listedIn(t); l != nil {
		return []pseg{{kind: "listed", t: t, dir: l}}
	}
	if t.op == "call" && strings.HasPrefix(t.s, "(github.com/google/uuid.UUID).String") || t.op == "call" && t.s == "github.com/google/uuid.NewString" {
		return []pseg{{kind: "unique", t: t}}
	}
	return []pseg{{kind: "other", t: t}}
}

// listedIn gives the folder a name was listed in.
func (g *Graph) listedIn(t *Term) []pseg {
	t = g.entryName(t)
	if t == nil {
		return nil
	}
	ts := g.pathTerms(g.listing(t).args[0])
	out := []pseg{{kind: "lit", lit: "<root>", t: ts[0]}}
	for _, x := range ts[1:] {
		out = append(out, g.segOf(x)...)
	}
	return out
}

// entryName is the Name call on a folder entry that a term stands for.
func (g *Graph) entryName(t *Term) *Term {
	for i := 0; i < 10; i++ {
		if t.op == "call" && (t.s == "(io/fs.DirEntry).Name" || t.s == "(io/fs.FileInfo).Name") && g.listing(t) != nil {
			return t
		}
		s := g.single(t)
		if s == nil || s == t {
			// all elements of a list are names of the same listing
			var out *Term
			for _, v := range g.vals(t) {
				n := v
				if n == t || n.op != "call" || !strings.HasSuffix(n.s, ".Name") || g.listing(n) == nil {
					return nil
				}
				if out != nil && g.listing(out) != g.listing(n) {
					return nil
				}
				out = n
			}
			return out
		}
		t = s
	}
	return nil
}

// rawName: it may be the name of a file, which is not decoded.
func (g *Graph) rawName(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "call" {
			return (t.s == "(io/fs.DirEntry).Name" || t.s == "(io/fs.FileInfo).Name") && g.listing(t) != nil
		}
		for _, v := range g.vals(t) {
			if v != t && rec(v) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// listing is the ReadDir call that a name comes from.
func (g *Graph) listing(t *Term) *Term {
	seen := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil || seen[t] {
			return nil
		}
		seen[t] = true
		if t.op == "call" && (t.s == "os.ReadDir" || t.s == "io/ioutil.ReadDir") {
			return t
		}
		switch t.op {
		case "load", "indexaddr", "res", "ret", "phi", "call", "field", "conv":
			if as := g.alts(t); len(as) > 0 {
				for _, a := range as {
					if r := rec(a); r != nil {
						return r
					}
				}
			}
			for _, a := range t.args {
				if r := rec(a); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return rec(t)
}

// diskGraphs are the graphs that together hold every file operation of the disk store.
func (c *Ctx) diskGraphs() []*Graph {
	g, _ := c.diskWriters()
	if g == nil {
		return nil
	}
	out := []*Graph{g}
	for _, b := range c.backends() {
		if b.name != "Disk" {
			continue
		}
		for _, m := range sortedMethods(b.methods) {
			if mg := b.graph(m); mg != nil {
				out = append(out, mg)
			}
		}
	}
	return out
}

func (c *Ctx) diskOps() []*fileOp {
	var out []*fileOp
	for _, g := range c.diskGraphs() {
		out = append(out, g.fileOps()...)
	}
	return out
}

// dataFile is a kind of data with the places it is written to and read from.
type dataFile struct {
	kind   string
	where  string
	shape  string
	zipped bool
}

var dataKinds = map[string]string{"FieldSizeLength": "metrics", "NumberFieldTerm": "nfterm", "FieldMap": "doc", "Index": "index"}

// finalOf follows the renames of a written file.
func finalOf(ops []*fileOp, w *fileOp) []*fileOp {
	var out []*fileOp
	for i, o := range ops {
		if o.g == w.g && o.kind == "rename-from" && o.g.K(o.t) == w.g.K(w.t) && o.n.fr.thread == w.n.fr.thread && i+1 < len(ops) {
			out = append(out, ops[i+1])
		}
	}
	return out
}

// writes lists where serialized data ends up.
func (c *Ctx) dataWrites(ops []*fileOp, report bool) []dataFile {
	var out []dataFile
	for _, w := range ops {
		if w.kind != "write" || w.n.callName() != "os.WriteFile" && w.n.callName() != "io/ioutil.WriteFile" {
			continue
		}
		g := w.g
		data := g.one(g.callArgs(w.n)[1])
		zipped := data.op == "call" && data.s == zip
		ser := g.serOf(data)
		kind := ""
		if ser != nil {
			kind = dataKinds[strings.TrimPrefix(ser.s, serPrefix)]
		}
		if kind == "" {
			if report {
				c.bad("written", w.shape(), g.where(w.n), "the file gets "+g.P(data)+", not serialized data")
			}
			continue
		}
		fin := finalOf(ops, w)
		if len(fin) == 0 {
			fin = []*fileOp{w}
		}
		for _, f := range fin {
			out = append(out, dataFile{kind, g.where(w.n), f.shape(), zipped})
		}
	}
	return out
}

type dataRead struct {
	dataFile
	g  *Graph
	n  *Node // the decoder
	rd *Term
}

// reads lists where decoded data comes from.
func (c *Ctx) dataReads(gs []*Graph, report bool) []dataRead {
	var out []dataRead
	for _, g := range gs {
		ops := g.fileOps()
		for _, n := range g.liveNodes {
			if n.kind != NInstr || n.common() == nil || !strings.HasPrefix(n.callName(), dsPrefix) {
				continue
			}
			kind := dataKinds[strings.TrimPrefix(n.callName(), dsPrefix)]
			a := g.one(g.callArgs(n)[0])
			rd := g.readOf(a)
			if rd == nil || kind == "" {
				if report {
					c.bad("decoded", n.callName()[len(Module)+1:], g.where(n), "it decodes "+g.P(a)+", not a file")
				}
				continue
			}
			for _, o := range ops {
				if o.n == rd.node && o.kind == "read" {
					out = append(out, dataRead{dataFile{kind, g.where(n), o.shape(), a.op == "call" && a.s == unzip}, g, n, rd})
				}
			}
		}
	}
	return out
}

// ---- C14 ----------------------------------------------------------------------------------------------------

func ruleC14(c *Ctx) {
	gs := c.diskGraphs()
	var ops []*fileOp
	for _, g := range gs {
		ops = append(ops, g.fileOps()...)
	}
	ws := c.dataWrites(ops, true)
	rs := c.dataReads(gs, true)
	byShape := map[string]dataFile{}
	kinds := map[string]int{}
	for _, w := range ws {
		kinds[w.kind]++
		p, ok := byShape[w.shape]
		if ok {
			c.check(p.kind == w.kind, "own-file", w.shape, w.where, "files of "+w.kind+" and of "+p.kind+" have the same place (also "+p.where+")")
			c.check(p.zipped == w.zipped, "one-format", w.shape, w.where, "the file is compressed only sometimes (also "+p.where+")")
			continue
		}
		c.ok("own-file", w.shape, w.where, w.kind)
		byShape[w.shape] = w
	}
	read := map[string]bool{}
	for _, r := range rs {
		w, ok := byShape[r.shape]
		if !c.check(ok, "where-written", r.kind+" "+r.shape, r.where, "nothing is written there, "+r.kind+" files are at "+shapesOf(ws, r.kind)) {
			continue
		}
		read[r.shape] = true
		c.check(w.kind == r.kind, "decoder", r.shape, r.where, "a file of "+w.kind+" is decoded as "+r.kind)
		c.check(w.zipped == r.zipped, "compression", r.shape, r.where, fmt.Sprintf("written compressed: %v (%s), read compressed: %v", w.zipped, w.where, r.zipped))
	}
	for _, s := range sortedKeys(byShape) {
		c.check(read[s], "read-back", s, byShape[s].where, "no load reads the "+byShape[s].kind+" files written there")
	}
	for _, k := range []string{"doc", "index", "metrics", "nfterm"} {
		c.check(kinds[k] > 0, "written", k, "storage", "no file of this kind is written")
	}
	// a file and a folder cannot have the same name
	for _, f := range sortedKeys(byShape) {
		under := ""
		for _, s := range sortedKeys(byShape) {
			if strings.HasPrefix(s, f+"/") {
				under = s
			}
		}
		for _, o := range ops {
			if o.kind == "mkdir" && (o.shape() == f || strings.HasPrefix(o.shape(), f+"/")) {
				under = o.shape() + " (" + o.g.where(o.n) + ")"
			}
		}
		c.check(under == "", "own-file", f+"/folder", byShape[f].where, "the place of this "+byShape[f].kind+" file is also a folder: "+under)
	}
	// what is looked for is what is read
	for _, o := range ops {
		if o.kind != "stat" {
			continue
		}
		_, ok := byShape[o.shape()]
		isDir := false
		for s := range byShape {
			isDir = isDir || strings.HasPrefix(s, o.shape()+"/")
		}
		c.check(ok || isDir, "looked-for", o.shape(), o.g.where(o.n), "no data is ever written there")
	}
	c.codec()
}

func shapesOf(ws []dataFile, kind string) string {
	m := map[string]bool{}
	for _, w := range ws {
		if w.kind == kind {
			m[w.shape] = true
		}
	}
	return strings.Join(sortedKeys(m), ", ")
}

// codec decides that what is compressed is decompressed with the same format, completely.
func (c *Ctx) codec() {
	comp, dec := c.p.Func("file", "CompressData"), c.p.Func("file", "DecompressData")
	if comp == nil || dec == nil {
		c.bad("anchor", "file.CompressData", "", "the functions for compression do not exist")
		return
	}
	g := c.graph(comp, nil, "codec")
	c.founded(g, "codec", "CompressData")
	format := ""
	for _, n := range g.liveNodes {
		nm := n.callName()
		if !strings.HasPrefix(nm, "compress/") || !strings.Contains(nm, ".NewWriter") {
			continue
		}
		format = nm[len("compress/"):strings.Index(nm, ".")]
		zw := g.result(n, 0)
		sink := g.callArgs(n)[0]
		isW := func(t *Term) bool { return g.single0(t) == g.single0(zw) || g.K(t) == g.K(zw) }
		whole := func(m *Node) bool {
			return m.callName() == "(*compress/"+format+".Writer).Write" && isW(g.callArgs(m)[0]) && g.P(g.callArgs(m)[1]) == "$0"
		}
		closed := func(m *Node) bool {
			return m.callName() == "(*compress/"+format+".Writer).Close" && isW(g.callArgs(m)[0])
		}
		taken := func(m *Node) bool {
			return m.callName() == "(*bytes.Buffer).Bytes" && g.K(stripIface(g.single0(g.callArgs(m)[0]))) == g.K(stripIface(g.single0(sink)))
		}
		ret := func(m *Node) bool { return m == g.root.exit }
		w := g.find([]*Node{g.root.entry}, searchOpt{avoid: whole, goal: taken})
		c.check(w == nil, "compress", "written", g.where(n), "the result may be taken although the data was not written: "+g.pathText(w))
		w = g.find([]*Node{g.root.entry}, searchOpt{avoid: closed, goal: taken})
		c.check(w == nil, "compress", "closed", g.where(n), "the result is taken before the compressor is closed, its end is missing: "+g.pathText(w))
		for _, m := range g.liveNodes {
			if whole(m) {
				w = g.find([]*Node{m}, searchOpt{goal: whole})
				c.check(w == nil, "compress", "once", g.where(m), "the data may be written twice: "+g.pathText(w))
			}
			if closed(m) {
				w = g.find([]*Node{m}, searchOpt{goal: whole})
				c.check(w == nil, "compress", "open", g.where(m), "the data may be written to a compressor that is closed: "+g.pathText(w))
			}
		}
		w = g.find([]*Node{g.root.entry}, searchOpt{avoid: taken, goal: ret})
		c.check(w == nil, "compress", "taken", g.where(n), "the result may be something else: "+g.pathText(w))
		for _, r := range g.root.rets {
			v := g.one(g.term(g.root, r.in.(*ssa.Return).Results[0]))
			okv := v.op == "call" && v.node != nil && taken(v.node)
			c.check(okv, "compress", "result", g.where(r), "it returns "+g.P(v)+", not the compressed data")
		}
		for _, m := range g.liveNodes {
			if m.callName() == "(*compress/"+format+".Writer).Write" && isW(g.callArgs(m)[0]) && !whole(m) {
				c.bad("compress", "written", g.where(m), "it compresses "+g.P(g.callArgs(m)[1])+", not the data")
			}
			if strings.HasPrefix(m.callName(), "(*bytes.Buffer).") && m.callName() != "(*bytes.Buffer).Bytes" && m.callName() != "(*bytes.Buffer).Len" && m.callName() != "(*bytes.Buffer).Grow" {
				c.bad("compress", "result", g.where(m), "something else changes the result")
			}
		}
	}
	g2 := c.graph(dec, nil, "codec")
	c.founded(g2, "codec", "DecompressData")
	format2 := ""
	for _, n := range g2.liveNodes {
		nm := n.callName()
		if !strings.HasPrefix(nm, "compress/") || !strings.Contains(nm, ".NewReader") {
			continue
		}
		format2 = nm[len("compress/"):strings.Index(nm, ".")]
		src := stripIface(g2.single0(g2.callArgs(n)[0]))
		ok := src.op == "call" && (src.s == "bytes.NewReader" || src.s == "bytes.NewBuffer") && g2.P(g2.single0(src.args[0])) == "$0"
		c.check(ok, "decompress", "source", g2.where(n), "it decompresses "+g2.P(src)+", not the data")
		zr := g2.result(n, 0)
		for _, r := range g2.root.rets {
			v := g2.one(g2.term(g2.root, r.in.(*ssa.Return).Results[0]))
			if v.op == "res" && v.i == 0 {
				v = v.args[0]
			}
			all := v.op == "call" && (v.s == "io.ReadAll" || v.s == "io/ioutil.ReadAll") && g2.K(stripIface(g2.single0(v.args[0]))) == g2.K(zr)
			if v.op == "call" && v.s == "(*bytes.Buffer).Bytes" {
				all = g2.copiedInto(v.args[0], zr, r)
			}
			c.check(all, "decompress", "result", g2.where(r), "it returns "+g2.P(v)+", not everything that was compressed")
		}
	}
	if format == "" && format2 == "" {
		c.bad("codec", "format", c.p.Pos(comp.Pos()), "no compressor is used")
		return
	}
	c.check(format == format2, "codec", "format", c.p.Pos(dec.Pos()), "data is compressed with "+format+" and decompressed with "+format2)
}

// copiedInto tells whether a buffer got all a reader has before a node.
func (g *Graph) copiedInto(buf, r *Term, at *Node) bool {
	hit := func(n *Node) bool {
		switch n.callName() {
		case "io.Copy":
			as := g.callArgs(n)
			return g.K(stripIface(g.single0(as[0]))) == g.K(stripIface(g.single0(buf))) && g.K(stripIface(g.single0(as[1]))) == g.K(r)
		case "(*bytes.Buffer).ReadFrom":
			as := g.callArgs(n)
			return g.K(stripIface(g.single0(as[0]))) == g.K(stripIface(g.single0(buf))) && g.K(stripIface(g.single0(as[1]))) == g.K(r)
		}
		return false
	}
	return g.find([]*Node{g.root.entry}, searchOpt{avoid: hit, goal: func(n *Node) bool { return n == at }}) == nil
}

// ---- C09 ----------------------------------------------------------------------------------------------------

func ruleC09(c *Ctx) {
	gs := c.diskGraphs()
	if len(gs) == 0 {
		return
	}
	var ops []*fileOp
	for _, g := range gs {
		ops = append(ops, g.fileOps()...)
	}
	rs := c.dataReads(gs, false)
	data := map[string]string{} // shapes of files that are read
	lists := map[string]bool{}  // folders of which every file is read
	for _, r := range rs {
		data[r.shape] = r.kind
		for _, o := range r.g.fileOps() {
			if o.n == r.rd.node && len(o.path) > 0 && o.path[len(o.path)-1].kind == "listed" {
				lists[o.dir()] = true
			}
		}
	}
	c.check(len(data) > 0, "data-files", "storage", "storage", "no data file is read")
	hot := func(o *fileOp) string {
		if k := data[o.shape()]; k != "" {
			return "the " + k + " file itself"
		}
		if lists[o.dir()] && o.kind != "mkdir" {
			return "a folder of which every file is read"
		}
		return ""
	}
	renames := 0
	for i, o := range ops {
		g := o.g
		where := g.where(o.n)
		switch o.kind {
		case "write", "create-in":
			h := hot(o)
			if o.kind == "create-in" && lists[o.shape()] {
				h = "a folder of which every file is read"
			}
			c.check(h == "", "in-place", o.shape(), where, "it writes "+h+": a crash while it writes leaves a partial file")
		case "link":
			c.check(hot(o) == "", "in-place", o.shape(), where, "it links "+hot(o))
		case "rename-from":
			dst := ops[i+1]
			h := ""
			if data[o.shape()] != "" {
				h = "the " + data[o.shape()] + " file"
			}
			c.check(h == "", "moved-away", o.shape(), where, "it moves "+h+" away: a crash before the new one is in place leaves none")
			c.check(o.root == dst.root && len(o.path) > 0, "same-root", dst.shape(), where, "the file is renamed across folders ("+o.root+" to "+dst.root+"), that may not be atomic")
			if data[dst.shape()] == "" {
				continue
			}
			renames++
			c.check(c.complete(ops, o) == "", "complete", dst.shape(), where, c.complete(ops, o))
		case "remove", "removeall":
			if o.kind == "removeall" {
				for s, k := range data {
					c.check(!strings.HasPrefix(s, o.shape()+"/") && s != o.shape(), "removed", o.shape(), where, "it removes the folder of "+k+" files")
				}
				continue
			}
			if data[o.shape()] == "" {
				c.ok("removed", o.shape(), where, "not a data file")
				continue
			}
			if lists[o.dir()] {
				continue // merged fragments: C10
			}
			c.bad("removed", o.shape(), where, "it removes the "+data[o.shape()]+" file: a crash before the new one is in place leaves none")
		}
	}
	c.check(renames > 0, "complete", "renames", "storage", "no data file is put in place by a rename")
	c.stagingApart(ops)
	c.mergeDeletes("removed")
}

// complete decides that a renamed file was completely written before.
func (c *Ctx) complete(ops []*fileOp, rn *fileOp) string {
	g := rn.g
	var ws []*fileOp
	for _, w := range ops {
		if w.g == g && w.kind == "write" && w.n.fr.thread == rn.n.fr.thread && g.K(w.t) == g.K(rn.t) {
			ws = append(ws, w)
		}
	}
	if len(ws) == 0 {
		return "a file that was not written before is put in place"
	}
	done := func(n *Node) bool {
		for _, w := range ws {
			if w.n.callName() != "os.WriteFile" && w.n.callName() != "io/ioutil.WriteFile" {
				continue
			}
			if g.saysErr(n, w.n, false) {
				return true
			}
		}
		return false
	}
	starts := []*Node{rn.n.fr.thread.entry}
	for _, l := range g.loopsAround(rn.n) {
		if l.enter != nil && l.body[ws[0].n] {
			starts = append(starts, l.enter)
		}
	}
	if p := g.find(starts, searchOpt{avoid: done, goal: func(n *Node) bool { return n == rn.n }}); p != nil {
		return "it is put in place although writing it may have failed or is not finished: " + g.pathText(p)
	}
	// nothing may change it in between
	return ""
}

// stagingApart decides that no two goroutines write the same unfinished file.
func (c *Ctx) stagingApart(ops []*fileOp) {
	var ws []*fileOp
	for _, o := range ops {
		if o.kind == "write" {
			ws = append(ws, o)
		}
	}
	for i, a := range ws {
		bad := ""
		for _, b := range ws[i+1:] {
			if a.g != b.g || a.n.fr.thread == b.n.fr.thread || a.shape() != b.shape() || hasUnique(a) && hasUnique(b) {
				continue
			}
			g := a.g
			ta, na := owner(a.n)
			tb, nb := owner(b.n)
			// one is over before the other starts
			if ta.spawn == nil && tb.spawn != nil && g.find([]*Node{tb.spawn}, searchOpt{goal: func(n *Node) bool { return n == na }}) == nil && tb.spawn.fr.thread == ta {
				continue
			}
			if tb.spawn == nil && ta.spawn != nil && g.find([]*Node{ta.spawn}, searchOpt{goal: func(n *Node) bool { return n == nb }}) == nil && ta.spawn.fr.thread == tb {
				continue
			}
			bad = g.where(b.n)
		}
		c.check(bad == "", "own-staging", a.shape(), a.g.where(a.n), "another goroutine may write the same unfinished file: "+bad)
	}
	for _, a := range ws {
		if th, _ := owner(a.n); th.spawn != nil && a.g.many(th) && !hasUnique(a) {
			named := false
			for _, s := range a.path {
				named = named || s.kind == "safe" || s.kind == "listed"
			}
			c.check(named, "own-staging", a.shape(), a.g.where(a.n), "several goroutines may write the same unfinished file")
		}
	}
}

func hasUnique(o *fileOp) bool {
	for _, s := range o.path {
		if s.kind == "unique" {
			return true
		}
	}
	return false
}

// mergeDeletes decides that merged fragments are removed only after the file with their postings is in place.
func (c *Ctx) mergeDeletes(rule string) {
	for _, m := range c.merges() {
		if m.L != nil {
			m.deletes(rule)
		}
	}
}

// ---- C12 ----------------------------------------------------------------------------------------------------

func ruleC12(c *Ctx) {
	ops := c.diskOps()
	lits := map[string]map[string]bool{}
	vars := map[string]map[string]bool{}
	for _, o := range ops {
		where := o.g.where(o.n)
		okRoot := o.root != "" && strings.HasPrefix(o.root, "$")
		c.check(okRoot, "under-root", o.kind+" "+o.shape(), where, "the path starts with "+o.root+", not with the folder of the store")
		dir := "<root>"
		for _, s := range o.path {
			switch s.kind {
			case "lit":
				c.check(s.lit != ".." && s.lit != "", "part", o.kind+" "+o.shape(), where, "the path leaves its folder with "+fmt.Sprintf("%q", s.lit))
				if lits[dir] == nil {
					lits[dir] = map[string]bool{}
				}
				lits[dir][s.lit] = true
			case "safe":
				c.check(!s.raw, "decoded", o.kind+" "+o.shape(), where, "the name of a file is taken for a name: "+o.g.P(s.arg))
				if vars[dir] == nil {
					vars[dir] = map[string]bool{}
				}
				vars[dir][s.suffix] = true
			case "unique":
				if vars[dir]["" /* names of ids */] {
					c.check(false, "apart", dir, where, "generated names and names of ids share a folder")
				}
			case "listed":
				d := "<root>"
				for _, x := range s.dir[1:] {
					d += "/" + x.String()
				}
				c.check(d == dir, "part", o.kind+" "+o.shape(), where, "a name listed in "+d+" is used in "+dir)
			case "other":
				c.bad("part", o.kind+" "+o.shape(), where, "a name that SafeName did not make is part of the path: "+o.g.P(s.t))
			}
			dir += "/" + s.String()
		}
		c.ok("part", o.kind+" "+o.shape(), where, "")
	}
	// names that become keys
	for _, g := range c.diskGraphs() {
		for _, n := range g.liveNodes {
			if n.kind != NInstr {
				continue
			}
			if mu, ok := n.in.(*ssa.MapUpdate); ok && isStringType(mu.Key.Type()) {
				k := g.term(n.fr, mu.Key)
				if g.listing(k) != nil {
					c.check(!g.rawName(k), "decoded", "key of "+g.P(g.term(n.fr, mu.Map)), g.where(n), "the name of a file is taken for a name: "+g.P(k))
				}
			}
		}
	}
	e := c.escaping()
	if e == nil {
		return
	}
	for _, d := range sortedKeys(vars) {
		for _, suf := range sortedKeys(vars[d]) {
			if suf != "" && vars[d][""] {
				c.check(e.never(suf), "apart", d+"/*"+suf, "file/File.go", "the name of another id may end with "+suf+": its file is overwritten")
			}
		}
		if vars[d][""] {
			for _, l := range sortedKeys(lits[d]) {
				c.check(e.safe(l) != l && !e.image(l), "apart", d+"/"+l, c.p.Pos(e.fn.Pos()), "a field or an id can have the same file name as "+l)
			}
		}
	}
	names := map[string]bool{"": true, ".": true, "..": true, "docs": true, "a": true}
	for d := range vars {
		for l := range lits[d] {
			names[l] = true
		}
	}
	for k := range e.cases {
		for _, n := range []string{k, "%" + k, "x" + k, k + "x"} {
			names[n] = true
		}
	}
	e.roundTrip(names)
}

type escaper struct {
	c     *Ctx
	fn    *ssa.Function
	g, og *Graph
	codes map[string]string // character -> code
	cases map[string]bool   // names SafeName treats apart
	fold  func(g *Graph, name string) (string, bool)
}

// escaping reads how SafeName makes file names and decides that different names get different ones that stay in
// their folder.
func (c *Ctx) escaping() *escaper {
	safe, orig := c.p.Func("file", "SafeName"), c.p.Func("file", "OriginalName")
	if safe == nil || orig == nil {
		c.bad("anchor", "file.SafeName", "", "the function that makes file names does not exist")
		return nil
	}
	e := &escaper{c: c, fn: safe, g: c.graph(safe, nil, "escape"), og: c.graph(orig, nil, "escape"), cases: map[string]bool{}}
	for _, g := range []*Graph{e.g, e.og} {
		for _, n := range g.liveNodes {
			if n.kind == NBranch && !n.maybe {
				collectStrings(g.term(n.fr, n.cond), e.cases, 0)
			}
		}
	}
	gen := e.generic(e.g)
	where := c.p.Pos(safe.Pos())
	if gen == nil {
		c.bad("escape", "SafeName", where, "it is not decided what it makes of an ordinary name")
		return nil
	}
	codes, why := c.codesOf(e.g, gen, "$0")
	if !c.check(why == "", "escape", "SafeName", where, why) {
		return nil
	}
	e.codes = codes
	for _, ch := range []string{"/", "\x00", "\\"} {
		c.check(codes[ch] != "", "escape", fmt.Sprintf("%q", ch), where, "the character is not escaped, a name with it leaves its folder")
	}
	seen := map[string]string{}
	length := 0
	ok := true
	for _, ch := range sortedKeys(codes) {
		code := codes[ch]
		if len(ch) != 1 || len(code) < 2 || code[0] != '%' || seen[code] != "" || length != 0 && len(code) != length || strings.ContainsAny(code[1:], "%/\\\x00") {
			ok = false
			c.bad("escape", fmt.Sprintf("%q", ch), where, fmt.Sprintf("its code %q can be mistaken for another name", code))
		}
		length = len(code)
		seen[code] = ch
	}
	c.check(codes["%"] != "", "escape", "\"%\"", where, "the escape character itself is not escaped, different names get one file")
	ogen := e.generic(e.og)
	ow := c.p.Pos(orig.Pos())
	if ogen == nil {
		c.bad("decode", "OriginalName", ow, "it is not decided what it makes of an ordinary name")
		return e
	}
	back, why := c.codesOf(e.og, ogen, "$0")
	if c.check(why == "", "decode", "OriginalName", ow, why) && ok {
		for _, ch := range sortedKeys(codes) {
			c.check(back[codes[ch]] == ch, "decode", fmt.Sprintf("%q", codes[ch]), ow, fmt.Sprintf("it is decoded as %q", back[codes[ch]]))
		}
		for _, code := range sortedKeys(back) {
			c.check(seen[code] != "", "decode", fmt.Sprintf("%q", code), ow, "it is decoded although no name is encoded so")
		}
	}
	return e
}

func collectStrings(t *Term, into map[string]bool, d int) {
	if d > 8 || t == nil {
		return
	}
	if s, ok := constString(t); ok {
		into[s] = true
	}
	for _, a := range t.args {
		collectStrings(a, into, d+1)
	}
}

// ofName tells whether a text is made from the name by cutting something off.
func (e *escaper) ofName(g *Graph, t *Term, d int) bool {
	t = g.single0(t)
	if d > 6 {
		return false
	}
	if g.P(t) == "$0" {
		return true
	}
	switch t.op {
	case "slice", "res", "extract":
		return e.ofName(g, t.args[0], d+1)
	case "call":
		switch t.s {
		case "strings.TrimPrefix", "strings.TrimSuffix", "strings.CutPrefix", "strings.CutSuffix", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.ContainsAny":
			return e.ofName(g, t.args[0], d+1)
		}
	}
	return false
}

// generic is what a function of names gives for a name that equals none of the special ones. Tests of how the name
// begins, ends or how long it is may have any outcome, and must not matter.
func (e *escaper) generic(g *Graph) *Term {
	free := []string{}
	var walk func(set map[string]int) *Term
	walk = func(set map[string]int) *Term {
		open := ""
		var test *Term
		d := &decider{g: g, oracle: func(t *Term) int {
			if t.op == "bin" && (t.s == "==" || t.s == "!=") {
				for i := 0; i < 2; i++ {
					if _, ok := constString(t.args[1-i]); ok && e.ofName(g, t.args[i], 0) {
						return tri(t.s == "!=")
					}
				}
			}
			if !e.asksName(g, t) {
				return unknown
			}
			k := g.K(t)
			if v, ok := set[k]; ok {
				return v
			}
			if open == "" {
				open, test = k, t
			}
			return unknown
		}}
		r := d.result(g.root, 0)
		if r != nil || open == "" || len(free) > 40 {
			return r
		}
		free = append(free, open)
		var out *Term
		for _, v := range []int{yes, no} {
			m := map[string]int{open: v}
			for k, x := range set {
				m[k] = x
			}
			r := walk(m)
			if r == nil {
				return nil
			}
			if out != nil && g.K(r) != g.K(out) {
				if v == no && g.P(r) == "$0" && e.nothingToDo(g, test, out) {
					continue
				}
				return nil
			}
			out = r
		}
		return out
	}
	return walk(map[string]int{})
}

// nothingToDo tells whether a name without the characters that a test asks for is left as it is by a replacement.
func (e *escaper) nothingToDo(g *Graph, test, repl *Term) bool {
	codes, why := e.c.codesOf(g, repl, "$0")
	if why != "" || test.op != "call" || len(test.args) != 2 || g.P(g.single0(test.args[0])) != "$0" {
		return false
	}
	s, ok := constString(g.single0(test.args[1]))
	if !ok {
		return false
	}
	for k := range codes {
		if test.s == "strings.Contains" && !strings.Contains(k, s) || test.s == "strings.ContainsAny" && !strings.ContainsAny(k, s) {
			return false
		}
	}
	return test.s == "strings.Contains" || test.s == "strings.ContainsAny"
}

// asksName tells whether a test is about how the name begins, ends or how long it is.
func (e *escaper) asksName(g *Graph, t *Term) bool {
	switch t.op {
	case "call", "extract", "res":
		return e.ofName(g, t, 0)
	case "bin":
		for i := 0; i < 2; i++ {
			if _, ok := constInt(t.args[1-i]); !ok {
				continue
			}
			x := g.single0(t.args[i])
			switch x.op {
			case "call":
				if x.s == "len" {
					return e.ofName(g, x.args[0], 0)
				}
			case "len", "index", "lookup":
				return e.ofName(g, x.args[0], 0)
			}
		}
	}
	return false
}

// holds folds a test for one name.
func (e *escaper) holds(g *Graph, t *Term, name string) int {
	switch t.op {
	case "bin":
		if a, ok := e.value(g, t.args[0], name); ok {
			if b, ok := e.value(g, t.args[1], name); ok {
				switch t.s {
				case "==":
					return tri(a == b)
				case "!=":
					return tri(a != b)
				}
			}
		}
		a, ok1 := e.number(g, t.args[0], name)
		b, ok2 := e.number(g, t.args[1], name)
		if ok1 && ok2 {
			switch t.s {
			case "==":
				return tri(a == b)
			case "!=":
				return tri(a != b)
			case "<":
				return tri(a < b)
			case "<=":
				return tri(a <= b)
			case ">":
				return tri(a > b)
			case ">=":
				return tri(a >= b)
			}
		}
	case "call", "extract", "res":
		for t.op != "call" {
			t = g.single0(t.args[0])
			if t.op == "phi" {
				return unknown
			}
		}
		if len(t.args) == 2 {
			a, ok1 := e.value(g, t.args[0], name)
			b, ok2 := e.value(g, t.args[1], name)
			if ok1 && ok2 {
				switch t.s {
				case "strings.HasPrefix", "strings.CutPrefix":
					return tri(strings.HasPrefix(a, b))
				case "strings.HasSuffix", "strings.CutSuffix":
					return tri(strings.HasSuffix(a, b))
				case "strings.Contains":
					return tri(strings.Contains(a, b))
				case "strings.ContainsAny":
					return tri(strings.ContainsAny(a, b))
				}
			}
		}
	}
	return unknown
}

// number folds the length or a byte of a text.
func (e *escaper) number(g *Graph, t *Term, name string) (int64, bool) {
	t = g.single0(t)
	if k, ok := constInt(t); ok {
		return k, true
	}
	if t.op == "len" || t.op == "call" && t.s == "len" {
		s, ok := e.value(g, t.args[0], name)
		return int64(len(s)), ok
	}
	if (t.op == "index" || t.op == "lookup") && len(t.args) == 2 {
		s, ok1 := e.value(g, t.args[0], name)
		i, ok2 := e.number(g, t.args[1], name)
		if ok1 && ok2 && i >= 0 && i < int64(len(s)) {
			return int64(s[i]), true
		}
	}
	return 0, false
}

// constant gives the result of a function of names for one name.
func (e *escaper) constant(g *Graph, name string) (string, bool) {
	d := &decider{g: g, oracle: func(t *Term) int { return e.holds(g, t, name) }}
	r := d.result(g.root, 0)
	if r == nil {
		return "", false
	}
	return e.value(g, r, name)
}

// value folds a string term.
func (e *escaper) value(g *Graph, t *Term, name string) (string, bool) {
	t = g.single0(t)
	if g.P(t) == "$0" {
		return name, true
	}
	if s, ok := constString(t); ok {
		return s, true
	}
	switch t.op {
	case "bin":
		if t.s == "+" {
			a, ok1 := e.value(g, t.args[0], name)
			b, ok2 := e.value(g, t.args[1], name)
			return a + b, ok1 && ok2
		}
	case "slice":
		s, ok := e.value(g, t.args[0], name)
		lo, hi := int64(0), int64(len(s))
		if !ok {
			return "", false
		}
		if t.args[1].op != "none" {
			if lo, ok = constInt(t.args[1]); !ok {
				return "", false
			}
		}
		if t.args[2].op != "none" {
			if hi, ok = constInt(t.args[2]); !ok {
				return "", false
			}
		}
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			return "", false
		}
		return s[lo:hi], true
	case "extract", "res":
		x := g.single0(t.args[0])
		if x.op == "call" && len(x.args) == 2 && (x.s == "strings.CutPrefix" || x.s == "strings.CutSuffix") {
			a, ok1 := e.value(g, x.args[0], name)
			b, ok2 := e.value(g, x.args[1], name)
			if x.s == "strings.CutPrefix" {
				return strings.TrimPrefix(a, b), ok1 && ok2
			}
			return strings.TrimSuffix(a, b), ok1 && ok2
		}
	case "call":
		if len(t.args) == 2 && (t.s == "strings.TrimPrefix" || t.s == "strings.TrimSuffix") {
			a, ok1 := e.value(g, t.args[0], name)
			b, ok2 := e.value(g, t.args[1], name)
			if t.s == "strings.TrimPrefix" {
				return strings.TrimPrefix(a, b), ok1 && ok2
			}
			return strings.TrimSuffix(a, b), ok1 && ok2
		}
		if m, why := e.c.codesOf(g, t, "$0"); why == "" {
			return replaceAll(name, m), true
		}
	}
	return "", false
}

// replaceAll replaces every code of a table from left to right.
func replaceAll(s string, m map[string]string) string {
	out := ""
	for i := 0; i < len(s); {
		hit := ""
		for k := range m {
			if strings.HasPrefix(s[i:], k) && len(k) > len(hit) {
				hit = k
			}
		}
		if hit == "" {
			out += s[i : i+1]
			i++
			continue
		}
		out += m[hit]
		i += len(hit)
	}
	return out
}

// codesOf reads the replacement table a term applies to a parameter.
func (c *Ctx) codesOf(g *Graph, t *Term, param string) (map[string]string, string) {
	t = g.single0(t)
	if t.op == "call" && t.s == "(*strings.Replacer).Replace" {
		if g.P(g.single0(t.args[1])) != param {
			return nil, "it replaces in " + g.P(t.args[1]) + ", not in the name"
		}
		tab, why := c.replacer(g, t.args[0])
		if why != "" {
			return nil, why
		}
		out := map[string]string{}
		for i := 0; i+1 < len(tab); i += 2 {
			if _, ok := out[tab[i]]; !ok {
				out[tab[i]] = tab[i+1]
			}
		}
		return out, ""
	}
	// a chain of ReplaceAll: the steps may not see each other's results
	var steps [][2]string
	for t.op == "call" && (t.s == "strings.ReplaceAll" || t.s == "strings.Replace") {
		a, ok1 := constString(g.single0(t.args[1]))
		b, ok2 := constString(g.single0(t.args[2]))
		if !ok1 || !ok2 {
			return nil, "it replaces something that is not constant"
		}
		if t.s == "strings.Replace" {
			if n, ok := constInt(g.single0(t.args[3])); !ok || n >= 0 {
				return nil, "it replaces only the first " + g.P(t.args[3])
			}
		}
		steps = append([][2]string{{a, b}}, steps...)
		t = g.single0(t.args[0])
	}
	if len(steps) == 0 || g.P(t) != param {
		return nil, "it gives " + g.P(t) + " instead of the name with every special character replaced"
	}
	out := map[string]string{}
	for i, s := range steps {
		for _, p := range steps[:i] {
			if strings.Contains(p[1], s[0]) || overlapping(p[1], s[0]) {
				return nil, fmt.Sprintf("replacing %q changes the earlier replacement %q", s[0], p[1])
			}
		}
		out[s[0]] = s[1]
	}
	return out, ""
}

// overlapping tells whether a replacement can become part of a later code together with its surroundings.
func overlapping(put, code string) bool {
	for i := 1; i < len(code); i++ {
		if strings.HasSuffix(put, code[:i]) || strings.HasPrefix(put, code[i:]) {
			return true
		}
	}
	return len(code) > 2 && strings.Contains(code[1:len(code)-1], put)
}

// replacer gives the arguments strings.NewReplacer was called with to make the value of a global variable.
func (c *Ctx) replacer(g *Graph, t *Term) ([]string, string) {
	t = g.single0(t)
	var call *ssa.CallCommon
	if t.op == "call" && t.s == "strings.NewReplacer" {
		call = t.node.common()
	}
	if call == nil && (t.op == "load" || t.op == "init") && t.args[0].op == "global" {
		stores := 0
		for fn := range c.p.allFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					gl, ok := st.Addr.(*ssa.Global)
					if !ok || gl.Pkg.Pkg.Path()+"."+gl.Name() != t.args[0].s {
						continue
					}
					stores++
					if v, ok := st.Val.(*ssa.Call); ok && calleeName(v.Common()) == "strings.NewReplacer" && fn.Name() == "init" {
						call = v.Common()
					}
				}
			}
		}
		if stores != 1 {
			return nil, "its table is set in several places"
		}
	}
	if call == nil {
		return nil, "its table is not known: " + g.P(t)
	}
	sl, ok := call.Args[0].(*ssa.Slice)
	if !ok {
		return nil, "its table is not constant"
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, "its table is not constant"
	}
	n := derefType(al.Type()).Underlying().(*types.Array).Len()
	out := make([]string, n)
	got := 0
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		idx, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, "its table is not constant"
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				v, ok := st.Val.(*ssa.Const)
				if !ok || v.Value == nil {
					return nil, "its table is not constant"
				}
				out[idx.Int64()] = constant.StringVal(v.Value)
				got++
			}
		}
	}
	if int64(got) != n || n%2 != 0 {
		return nil, "its table is not complete"
	}
	return out, ""
}

// allFuncs lists the functions of the module, package initializers included.
func (p *Prog) allFuncs() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, pk := range p.ByID {
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok {
				out[f] = true
				for _, a := range f.AnonFuncs {
					out[a] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		out[f] = true
	}
	return out
}

// safe is the file name of a name.
func (e *escaper) safe(name string) string {
	s, ok := e.constant(e.g, name)
	if !ok {
		return ""
	}
	return s
}

// image tells whether an ordinary name can have a file name: every % starts a code and no character is one that
// is replaced.
func (e *escaper) image(s string) bool {
	rev := map[string]string{}
	for ch, code := range e.codes {
		rev[code] = ch
	}
	orig := ""
	for i := 0; i < len(s); {
		hit := ""
		for code := range rev {
			if strings.HasPrefix(s[i:], code) && len(code) > len(hit) {
				hit = code
			}
		}
		if hit != "" {
			orig += rev[hit]
			i += len(hit)
			continue
		}
		if e.codes[s[i:i+1]] != "" {
			return false
		}
		orig += s[i : i+1]
		i++
	}
	r, ok := e.constant(e.g, orig)
	return ok && r == s
}

// never tells whether no file name ends with a suffix.
func (e *escaper) never(suf string) bool {
	esc := e.codes["%"] != ""
	for i := 0; i < len(suf); i++ {
		if e.codes[suf[i:i+1]] == "" {
			continue
		}
		if suf[i] != '%' {
			return true
		}
		isCode := false
		for _, code := range e.codes {
			n := len(code)
			if i+n > len(suf) {
				n = len(suf) - i
			}
			isCode = isCode || code[:n] == suf[i:i+n]
		}
		if !isCode {
			return esc
		}
	}
	return false
}

// roundTrip decides for every name that is treated apart that its file name is its own, stays in its folder and is
// decoded to it.
func (e *escaper) roundTrip(names map[string]bool) {
	c := e.c
	where := c.p.Pos(e.fn.Pos())
	got := map[string]string{}
	keys := sortedKeys(names)
	sort.Strings(keys)
	for _, n := range keys {
		lab := fmt.Sprintf("%q", n)
		s, ok := e.constant(e.g, n)
		if !c.check(ok, "special-name", lab, where, "it is not decided which file name it gets") {
			continue
		}
		c.check(s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\\\x00"), "special-name", lab, where, fmt.Sprintf("its file name is %q", s))
		if o, dup := got[s]; dup {
			c.bad("special-name", lab, where, fmt.Sprintf("it has the same file name as %q", o))
		}
		got[s] = n
		if s != replaceAll(n, e.codes) && e.image(s) {
			c.bad("special-name", lab, where, fmt.Sprintf("another name has its file name %q", s))
		}
		o, ok := e.constant(e.og, s)
		c.check(ok && o == n, "decode", lab, c.p.Pos(e.og.root.fn.Pos()), fmt.Sprintf("its file name %q is decoded as %q", s, o))
	}
}

func init() {
	register("C14", 1, "", ruleC14)
	register("C09", 1, "", ruleC09)
	register("C12", 1, "", ruleC12)
}
