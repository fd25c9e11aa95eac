package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// A Term is a hash-consed symbolic value. Memory addresses are terms too.
//
//	const   integer constant n            sconst  other constant, aux
//	nil     nil of any type               zero    zero value of an aggregate
//	sym     unknown value, aux names it   global  address of a package variable
//	alloc   address of a new object       make    new slice (a[0] is its length)
//	fa      address of field n of a[0]    ia      address of element a[1] of a[0]
//	load    content of address a[0] at the version aux
//	lin     linear combination: n + sum of coef[i]*a[i]
//	others  operators
type Term struct {
	id    int
	op    string
	typ   types.Type
	a     []*Term
	coef  []int64
	n     int64
	aux   string
	loops []int // loop instances the term depends on, sorted
	depth int
}

type termTable struct {
	m    map[string]*Term
	list []*Term
}

func newTermTable() *termTable { return &termTable{m: map[string]*Term{}} }

func (tt *termTable) mk(op string, typ types.Type, n int64, aux string, coef []int64, loops []int, a ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	fmt.Fprintf(&sb, "|%d|%s|", n, aux)
	for i, x := range a {
		if coef != nil {
			fmt.Fprintf(&sb, "%d*%d,", coef[i], x.id)
		} else {
			fmt.Fprintf(&sb, "%d,", x.id)
		}
	}
	if op == "conv" || op == "zero" || op == "assert" || op == "sconst" {
		sb.WriteString("|" + types.TypeString(typ, nil))
	}
	k := sb.String()
	if t := tt.m[k]; t != nil {
		return t
	}
	t := &Term{id: len(tt.list) + 1, op: op, typ: typ, a: a, coef: coef, n: n, aux: aux}
	set := map[int]bool{}
	for _, l := range loops {
		set[l] = true
	}
	for _, x := range a {
		for _, l := range x.loops {
			set[l] = true
		}
		if x.depth >= t.depth {
			t.depth = x.depth + 1
		}
	}
	for l := range set {
		t.loops = append(t.loops, l)
	}
	sort.Ints(t.loops)
	tt.m[k] = t
	tt.list = append(tt.list, t)
	return t
}

func (t *Term) inLoop(l int) bool {
	for _, x := range t.loops {
		if x == l {
			return true
		}
	}
	return false
}

func (t *Term) isConst() bool { return t.op == "const" }

// contains tells whether s is t or one of its subterms.
func (t *Term) contains(s *Term) bool {
	if t == s {
		return true
	}
	for _, x := range t.a {
		if x.depth >= s.depth && x.contains(s) {
			return true
		}
	}
	return false
}

// any tells whether a subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, x := range t.a {
		if x.any(f) {
			return true
		}
	}
	return false
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if d == 0 {
		return "..."
	}
	args := func() string {
		var s []string
		for _, x := range t.a {
			s = append(s, x.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "const":
		return fmt.Sprint(t.n)
	case "sconst":
		return t.aux
	case "nil", "zero":
		return t.op
	case "sym":
		if i := strings.LastIndex(t.aux, "@"); i >= 0 && d < 6 {
			return t.aux[:i]
		}
		return t.aux
	case "global":
		return "&" + t.aux
	case "fa":
		return t.a[0].str(d) + "." + t.aux
	case "ia":
		return t.a[0].str(d) + "[" + t.a[1].str(d-1) + "]"
	case "load":
		return "*" + t.a[0].str(d)
	case "lin":
		var s []string
		for i, x := range t.a {
			if t.coef[i] == 1 {
				s = append(s, x.str(d-1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", t.coef[i], x.str(d-1)))
			}
		}
		if t.n != 0 {
			s = append(s, fmt.Sprint(t.n))
		}
		return "(" + strings.Join(s, "+") + ")"
	case "alloc":
		return "new(" + t.aux + ")"
	case "make":
		return "make(" + t.aux + ")"
	}
	x := t.op
	if t.aux != "" {
		x += ":" + t.aux
	}
	return x + "(" + args() + ")"
}

// ---------------------------------------------------------------- linear forms

type linForm struct {
	k int64
	m map[*Term]int64
}

func linOf(t *Term) linForm {
	switch t.op {
	case "const":
		return linForm{t.n, nil}
	case "lin":
		m := map[*Term]int64{}
		for i, x := range t.a {
			m[x] = t.coef[i]
		}
		return linForm{t.n, m}
	}
	return linForm{0, map[*Term]int64{t: 1}}
}

func (f linForm) add(g linForm, c int64) linForm {
	r := linForm{f.k + c*g.k, map[*Term]int64{}}
	for t, v := range f.m {
		r.m[t] = v
	}
	for t, v := range g.m {
		r.m[t] += c * v
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (f linForm) terms() []*Term {
	var ts []*Term
	for t := range f.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func (tt *termTable) konst(n int64) *Term {
	return tt.mk("const", types.Typ[types.Int], n, "", nil, nil)
}

func (tt *termTable) fromLin(f linForm, typ types.Type) *Term {
	if len(f.m) == 0 {
		return tt.konst(f.k)
	}
	ts := f.terms()
	if f.k == 0 && len(ts) == 1 && f.m[ts[0]] == 1 {
		return ts[0]
	}
	var coef []int64
	for _, t := range ts {
		coef = append(coef, f.m[t])
	}
	return tt.mk("lin", typ, f.k, "", coef, nil, ts...)
}
