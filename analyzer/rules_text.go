package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"unicode"
)

// ---- C28: the tokenizer ---------------------------------------------------------------------------------------

var runeTests = map[string]func(rune) bool{
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsNumber": unicode.IsNumber, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsPunct": unicode.IsPunct, "unicode.IsSymbol": unicode.IsSymbol,
	"unicode.IsControl": unicode.IsControl, "unicode.IsMark": unicode.IsMark, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.IsTitle": unicode.IsTitle, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode.IsPrint": unicode.IsPrint,
}

// runeInt reads an integer term as a function of the character.
func (g *Graph) runeInt(t *Term, isRune func(*Term) bool) func(rune) int64 {
	if isRune(t) {
		return func(r rune) int64 { return int64(r) }
	}
	if n, ok := constInt(t); ok {
		return func(rune) int64 { return n }
	}
	switch t.op {
	case "conv":
		f := g.runeInt(t.args[0], isRune)
		b, ok := t.typ.Underlying().(*types.Basic)
		if f == nil || !ok {
			return nil
		}
		return func(r rune) int64 {
			v := f(r)
			switch b.Kind() {
			case types.Uint8:
				return int64(uint8(v))
			case types.Int8:
				return int64(int8(v))
			case types.Uint16:
				return int64(uint16(v))
			case types.Int16:
				return int64(int16(v))
			case types.Int32:
				return int64(int32(v))
			case types.Uint32:
				return int64(uint32(v))
			}
			return v
		}
	case "bin":
		a, b := g.runeInt(t.args[0], isRune), g.runeInt(t.args[1], isRune)
		if a == nil || b == nil {
			return nil
		}
		switch t.s {
		case "+":
			return func(r rune) int64 { return a(r) + b(r) }
		case "-":
			return func(r rune) int64 { return a(r) - b(r) }
		case "|":
			return func(r rune) int64 { return a(r) | b(r) }
		case "&":
			return func(r rune) int64 { return a(r) & b(r) }
		case "^":
			return func(r rune) int64 { return a(r) ^ b(r) }
		}
	}
	return nil
}

// runeTest reads an atomic test as a function of the character.
func (g *Graph) runeTest(t *Term, isRune func(*Term) bool) func(rune) bool {
	switch t.op {
	case "bin":
		a, b := g.runeInt(t.args[0], isRune), g.runeInt(t.args[1], isRune)
		if a == nil || b == nil {
			return nil
		}
		op := t.s
		return func(r rune) bool {
			x, y := a(r), b(r)
			switch op {
			case "<":
				return x < y
			case "<=":
				return x <= y
			case ">":
				return x > y
			case ">=":
				return x >= y
			case "==":
				return x == y
			}
			return x != y
		}
	case "call":
		if f := runeTests[t.s]; f != nil && len(t.args) == 1 && isRune(t.args[0]) {
			return f
		}
		table := func(x *Term) *unicode.RangeTable {
			name := strings.TrimPrefix(strings.TrimPrefix(g.K(x), "&"), "glob:")
			switch strings.TrimPrefix(name, "unicode.") {
			case "Letter", "L":
				return unicode.L
			case "Number", "N":
				return unicode.N
			case "Digit", "Nd":
				return unicode.Nd
			case "Mark", "M":
				return unicode.M
			case "Upper", "Lu":
				return unicode.Lu
			case "Lower", "Ll":
				return unicode.Ll
			case "Punct", "P":
				return unicode.P
			case "Symbol", "S":
				return unicode.S
			case "Latin":
				return unicode.Latin
			}
			return nil
		}
		switch t.s {
		case "unicode.Is":
			if tab := table(t.args[0]); tab != nil && isRune(t.args[1]) {
				return func(r rune) bool { return unicode.Is(tab, r) }
			}
		case "unicode.In":
			if vs, ok := g.varargs(t.args[1]); ok && isRune(t.args[0]) {
				var tabs []*unicode.RangeTable
				for _, v := range vs {
					tab := table(v)
					if tab == nil {
						return nil
					}
					tabs = append(tabs, tab)
				}
				return func(r rune) bool { return unicode.In(r, tabs...) }
			}
		case "strings.ContainsRune":
			if t.args[0].op == "const" && t.args[0].cv != nil && isRune(t.args[1]) {
				s := constant.StringVal(t.args[0].cv)
				return func(r rune) bool { return strings.ContainsRune(s, r) }
			}
		}
	}
	return nil
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// atoms are the atomic tests a boolean term is made of.
func (g *Graph) atoms(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "const" {
		return
	}
	if as := g.alts(t); as != nil {
		for _, a := range as {
			g.atoms(a, out, seen)
		}
		return
	}
	if t.op == "un" && t.s == "!" {
		g.atoms(t.args[0], out, seen)
		return
	}
	if t.op == "bin" && (t.s == "==" || t.s == "!=") && isBoolType(t.args[0].typ) {
		g.atoms(t.args[0], out, seen)
		g.atoms(t.args[1], out, seen)
		return
	}
	out[t] = true
}

// separator decides that a function of a character is true exactly for the separators. It returns the number of
// cases.
func (g *Graph) separator(th *Thread) (int, string) {
	fr := th.fr
	isRune := func(t *Term) bool {
		for t.op == "phi" || t.op == "ret" {
			s := g.single(t)
			if s == t {
				break
			}
			t = s
		}
		return t.op == "cbparam" && t.i == 0 && t.fr == fr
	}
	leaf := map[*Term]bool{}
	seen := map[*Term]bool{}
	for n := range g.threadNodes(th) {
		if n.kind == NBranch && !n.maybe {
			g.atoms(g.cond(n), leaf, seen)
		}
	}
	for _, r := range fr.rets {
		g.atoms(g.retVal(fr, r, 0), leaf, seen)
	}
	var atoms []*Term
	for t := range leaf {
		atoms = append(atoms, t)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	fns := make([]func(rune) bool, len(atoms))
	for i, a := range atoms {
		fns[i] = g.runeTest(a, isRune)
		if fns[i] == nil {
			return 0, "it depends on " + g.K(a) + ", which is no known test of the character"
		}
	}
	cases := map[string]rune{}
	var order []string
	sig := make([]byte, len(atoms)+1)
	for r := rune(0); r <= unicode.MaxRune; r++ {
		sig[0] = '0'
		if !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '\'' {
			sig[0] = '1'
		}
		for i, f := range fns {
			sig[i+1] = '0'
			if f(r) {
				sig[i+1] = '1'
			}
		}
		if _, ok := cases[string(sig)]; !ok {
			cases[string(sig)] = r
			order = append(order, string(sig))
		}
	}
	for _, s := range order {
		val := map[*Term]int{}
		for i, a := range atoms {
			val[a] = tri(s[i+1] == '1')
		}
		d := &decider{g: g, oracle: func(t *Term) int { return val[t] }}
		res := d.result(fr, 0)
		v := unknown
		if res != nil {
			v = d.boolean(res)
		}
		if v == unknown {
			what := ""
			if d.stuck != nil {
				what = ": " + g.K(d.stuck)
			}
			return 0, fmt.Sprintf("the case of %q is not decided%s", cases[s], what)
		}
		if (v == yes) != (s[0] == '1') {
			if v == yes {
				return 0, fmt.Sprintf("it separates at %q", cases[s])
			}
			return 0, fmt.Sprintf("it does not separate at %q", cases[s])
		}
	}
	return len(order), ""
}

func ruleC28(c *Ctx) {
	impl := c.p.Implementers("tokenizer", "Tokenizer")
	c.check(len(impl) > 0, "anchor", "tokenizer.Tokenizer", "", "no type implements it")
	for _, nt := range impl {
		f := c.p.Method(nt, "Tokenize")
		lab := nt.Obj().Name() + ".Tokenize"
		g := c.graph(f, nil, "full")
		n := 0
		for _, ch := range g.rootResults(0) {
			v := ch.v
			if isZeroConst(v) || g.emptyFresh(v) {
				c.check(g.onlyIf(ch.at, func(b *Node) bool { return g.emptyGuard(b, "$1") || g.emptyText(b, "$1") }), "split", lab, g.where(ch.at), "it returns nothing for a text that may hold tokens")
				continue
			}
			if v.op != "call" || v.s != "strings.FieldsFunc" {
				c.bad("split", lab, g.where(ch.at), "the tokens are "+g.P(v)+", not the parts of the text between separators")
				continue
			}
			n++
			if !c.check(g.P(v.args[0]) == "$1", "split", lab, g.where(ch.at), "it splits "+g.P(v.args[0])+", not the text") {
				continue
			}
			found := false
			for _, th := range g.threads {
				if th.callback && th.spawn == v.node {
					found = true
					k, why := g.separator(th)
					c.check(why == "", "separators", lab, g.where(th.entry), "the separators are not exactly what is neither letter nor number nor apostrophe: "+why)
					if why == "" {
						c.ok("separators", lab+"/cases", g.where(th.entry), fmt.Sprintf("%d cases", k))
					}
				}
			}
			if !found {
				c.bad("separators", lab, g.where(ch.at), "the separators are decided by "+g.P(v.args[1]))
			}
		}
		c.check(n > 0, "split", lab, g.where(g.root.entry), "it never splits the text")
		for _, e := range g.effects() {
			if !strings.HasPrefix(e.path, "new") {
				c.bad("split", lab, g.where(e.n), "it changes "+e.path)
			}
		}
	}
}

// emptyText: a branch outcome that says that a string is empty.
func (g *Graph) emptyText(b *Node, name string) bool {
	if b.kind != NBranch || b.maybe {
		return false
	}
	c, pol := g.cond(b), b.pol
	for c.op == "un" && c.s == "!" {
		c, pol = c.args[0], !pol
	}
	if c.op != "bin" || (c.s != "==" && c.s != "!=") || (c.s == "==") != pol {
		return false
	}
	for i := 0; i < 2; i++ {
		if x := c.args[i]; x.op == "const" && x.s == `""` && g.P(c.args[1-i]) == name {
			return true
		}
	}
	return false
}

// emptyFresh: a new container nothing is put into before it is returned.
func (g *Graph) emptyFresh(v *Term) bool {
	if v.op == "slice" {
		v = v.args[0]
	}
	if v.op != "fresh" {
		return false
	}
	if es, ok := g.contents(v); ok && len(es) == 0 {
		return true
	}
	return false
}

func init() {
	register("C28", 1, "", ruleC28)
}
