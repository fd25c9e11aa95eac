package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"sort"
	"strings"
)

// A lpoly is a sum of products of powers, possibly negative, of atoms: arithmetic on numbers taken as real.
type lpoly map[string]*big.Rat // by monomial

func lconst(r *big.Rat) lpoly {
	if r.Sign() == 0 {
		return lpoly{}
	}
	return lpoly{"": r}
}

func lint(n int64) lpoly { return lconst(big.NewRat(n, 1)) }

func latom(name string) lpoly {
	return lpoly{mono(map[string]int{name: 1}): big.NewRat(1, 1)}
}

// mono encodes a product of powers; atoms do not contain the separators.
func mono(m map[string]int) string {
	var ks []string
	for k, e := range m {
		if e != 0 {
			ks = append(ks, fmt.Sprintf("%s\x01%d", k, e))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "\x02")
}

func unmono(s string) map[string]int {
	m := map[string]int{}
	if s == "" {
		return m
	}
	for _, f := range strings.Split(s, "\x02") {
		i := strings.LastIndex(f, "\x01")
		var e int
		fmt.Sscan(f[i+1:], &e)
		m[f[:i]] = e
	}
	return m
}

func (p lpoly) add(q lpoly, k int64) lpoly {
	r := lpoly{}
	for m, c := range p {
		r[m] = new(big.Rat).Set(c)
	}
	for m, c := range q {
		x := new(big.Rat).Mul(c, big.NewRat(k, 1))
		if r[m] != nil {
			x.Add(x, r[m])
		}
		if x.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = x
		}
	}
	return r
}

func (p lpoly) mul(q lpoly) lpoly {
	r := lpoly{}
	for m, c := range p {
		for n, d := range q {
			e := unmono(m)
			for a, k := range unmono(n) {
				e[a] += k
			}
			r = r.add(lpoly{mono(e): new(big.Rat).Mul(c, d)}, 1)
		}
	}
	return r
}

// div divides by a single product; the quotient by a sum is an atom.
func (p lpoly) div(q lpoly) lpoly {
	if len(q) == 1 {
		for m, c := range q {
			e := unmono(m)
			for a := range e {
				e[a] = -e[a]
			}
			return p.mul(lpoly{mono(e): new(big.Rat).Inv(c)})
		}
	}
	return p.mul(latom("1/(" + q.String() + ")"))
}

func (p lpoly) eq(q lpoly) bool { return len(p.add(q, -1)) == 0 }

// integral: p is a sum of integral atoms with integral factors.
func (p lpoly) integral() bool {
	for m, c := range p {
		if !c.IsInt() {
			return false
		}
		for a, e := range unmono(m) {
			if e < 0 || !strings.HasPrefix(a, "up(") && !strings.HasPrefix(a, "down(") && !strings.HasPrefix(a, "#") {
				return false
			}
		}
	}
	return true
}

func (p lpoly) String() string {
	var ms []string
	for m := range p {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	var s []string
	for _, m := range ms {
		var num, den []string
		e := unmono(m)
		var as []string
		for a := range e {
			as = append(as, a)
		}
		sort.Strings(as)
		for _, a := range as {
			for i := 0; i < e[a]; i++ {
				num = append(num, a)
			}
			for i := 0; i > e[a]; i-- {
				den = append(den, a)
			}
		}
		c := p[m]
		x := strings.Join(num, "*")
		if x == "" {
			x = c.RatString()
		} else if c.Cmp(big.NewRat(1, 1)) != 0 {
			x = c.RatString() + "*" + x
		}
		if len(den) > 0 {
			x += "/" + strings.Join(den, "/")
		}
		s = append(s, x)
	}
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, " + ")
}

func (p lpoly) round(how string) lpoly {
	if p.integral() {
		return p
	}
	return latom(how + "(" + p.String() + ")")
}

// lspec reads a specification: numbers, names, + - * /, up(x), down(x). Names are atoms unless defined.
func lspec(s string, def map[string]lpoly) lpoly {
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic(err)
	}
	var eval func(x ast.Expr) lpoly
	eval = func(x ast.Expr) lpoly {
		switch x := x.(type) {
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.BasicLit:
			r, _ := new(big.Rat).SetString(x.Value)
			return lconst(r)
		case *ast.Ident:
			if d, ok := def[x.Name]; ok {
				return d
			}
			return latom(x.Name)
		case *ast.CallExpr:
			return eval(x.Args[0]).round(x.Fun.(*ast.Ident).Name)
		case *ast.BinaryExpr:
			a, b := eval(x.X), eval(x.Y)
			switch x.Op {
			case token.ADD:
				return a.add(b, 1)
			case token.SUB:
				return a.add(b, -1)
			case token.MUL:
				return a.mul(b)
			case token.QUO:
				return a.div(b)
			}
		}
		panic("specification " + s)
	}
	return eval(x)
}
