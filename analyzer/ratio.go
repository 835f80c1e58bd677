package main

import (
	"math/big"
	"sort"
	"strings"
)

// Rational functions over named atoms, with exact coefficients.

type poly map[string]*big.Rat // monomial: atoms joined by *, sorted; "" is the constant

type ratio struct{ num, den poly }

func polyConst(r *big.Rat) poly {
	if r.Sign() == 0 {
		return poly{}
	}
	return poly{"": r}
}

func polyAtom(a string) poly { return poly{a: big.NewRat(1, 1)} }

func (p poly) add(q poly, sign int64) poly {
	out := poly{}
	for m, c := range p {
		out[m] = new(big.Rat).Set(c)
	}
	s := big.NewRat(sign, 1)
	for m, c := range q {
		x := new(big.Rat).Mul(c, s)
		if o := out[m]; o != nil {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(out, m)
		} else {
			out[m] = x
		}
	}
	return out
}

func mulMono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	xs := append(strings.Split(a, "*"), strings.Split(b, "*")...)
	sort.Strings(xs)
	return strings.Join(xs, "*")
}

func (p poly) mul(q poly) poly {
	out := poly{}
	for m, c := range p {
		for n, d := range q {
			k := mulMono(m, n)
			x := new(big.Rat).Mul(c, d)
			if o := out[k]; o != nil {
				x.Add(x, o)
			}
			if x.Sign() == 0 {
				delete(out, k)
			} else {
				out[k] = x
			}
		}
	}
	return out
}

func ratConst(r *big.Rat) *ratio { return &ratio{polyConst(r), polyConst(big.NewRat(1, 1))} }
func ratAtom(a string) *ratio    { return &ratio{polyAtom(a), polyConst(big.NewRat(1, 1))} }
func (a *ratio) add(b *ratio, sign int64) *ratio {
	return &ratio{a.num.mul(b.den).add(b.num.mul(a.den), sign), a.den.mul(b.den)}
}
func (a *ratio) mul(b *ratio) *ratio { return &ratio{a.num.mul(b.num), a.den.mul(b.den)} }
func (a *ratio) div(b *ratio) *ratio {
	if len(b.num) == 0 {
		return nil
	}
	return &ratio{a.num.mul(b.den), a.den.mul(b.num)}
}

// same compares two rational functions, up to the rounding of constants.
func (a *ratio) same(b *ratio) bool {
	x, y := a.num.mul(b.den), b.num.mul(a.den)
	if len(a.den) == 0 || len(b.den) == 0 {
		return false
	}
	max := new(big.Rat)
	for _, p := range []poly{x, y} {
		for _, c := range p {
			if v := new(big.Rat).Abs(c); v.Cmp(max) > 0 {
				max = v
			}
		}
	}
	eps := new(big.Rat).Mul(max, big.NewRat(1, 1e12))
	for _, c := range x.add(y, -1) {
		if new(big.Rat).Abs(c).Cmp(eps) > 0 {
			return false
		}
	}
	return true
}

func (p poly) String() string {
	var ks []string
	for m := range p {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var out []string
	for _, m := range ks {
		f, _ := p[m].Float64()
		s := big.NewFloat(f).Text('g', 6)
		if m != "" {
			s += "*" + m
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, " + ")
}

func (a *ratio) String() string {
	if len(a.den) == 1 && a.den[""] != nil && a.den[""].Cmp(big.NewRat(1, 1)) == 0 {
		return a.num.String()
	}
	return "(" + a.num.String() + ") / (" + a.den.String() + ")"
}

// sign decides the sign of a polynomial whose atoms have known signs (1 positive, 0 not negative); ok is false when
// it is not decided. strict tells that it cannot be zero.
func (p poly) sign(atom func(string) (int, bool)) (s int, strict, ok bool) {
	if len(p) == 0 {
		return 0, false, true
	}
	dir := 0
	for m, c := range p {
		pos := true
		if m != "" {
			for _, a := range strings.Split(m, "*") {
				v, known := atom(a)
				if !known {
					return 0, false, false
				}
				pos = pos && v > 0
			}
		}
		if dir != 0 && dir != c.Sign() {
			return 0, false, false
		}
		dir = c.Sign()
		strict = strict || pos
	}
	return dir, strict, true
}
