package main

import (
	"go/types"
	"sort"
)

// cond evaluates a condition term.
func (f *Facts) cond(t *Term) (val, known bool) {
	switch t.op {
	case "const":
		return t.n != 0, true
	case "notb":
		v, k := f.cond(t.a[0])
		return !v, k
	case "le0":
		if v, ok := f.truth[t]; ok {
			return v, true
		}
		l := linOf(t.a[0])
		if f.upper(l) <= 0 {
			return true, true
		}
		if -f.upper(linForm{0, nil}.add(l, -1)) >= 1 {
			return false, true
		}
		return false, false
	case "eq0":
		if v, ok := f.truth[t]; ok {
			return v, true
		}
		x := t.a[0]
		zero := f.tt.konst(0)
		if f.isNe(x, zero) {
			return false, true
		}
		if lo, hi := f.Range(x); lo == 0 && hi == 0 {
			return true, true
		}
		if b := f.Bits(x); b.zeros == ^uint64(0) {
			return true, true
		}
		return false, false
	case "eqs":
		if v, ok := f.truth[t]; ok {
			return v, true
		}
		// equal to another constant
		for i := 0; i < 2; i++ {
			c, x := t.a[i], t.a[1-i]
			if c.op != "sconst" {
				continue
			}
			if x.op == "sconst" {
				return x == c, true
			}
			for o, v := range f.truth {
				if v && o.op == "eqs" && (o.a[0] == x && o.a[1].op == "sconst" && o.a[1] != c || o.a[1] == x && o.a[0].op == "sconst" && o.a[0] != c) {
					return false, true
				}
			}
		}
		return false, false
	}
	if v, ok := f.truth[t]; ok {
		return v, true
	}
	if lo, hi := f.Range(t); lo >= 1 {
		return true, true
	} else if hi <= 0 {
		return false, true
	}
	return false, false
}

func (f *Facts) assume(t *Term, val bool) {
	switch t.op {
	case "const":
		if (t.n != 0) != val {
			f.bad = true
		}
		return
	case "notb":
		f.assume(t.a[0], !val)
		return
	case "le0":
		zero := f.tt.konst(0)
		if val {
			f.assumeLe(t.a[0], zero, 0)
		} else {
			f.assumeLe(zero, t.a[0], 1)
		}
		if l := linOf(t.a[0]); len(l.m) > 2 {
			f.mut()
			f.truth[t] = val
		}
		return
	case "eq0":
		if val {
			x := t.a[0]
			f.assumeEq(x, f.tt.konst(0))
			if !f.bad {
				l := linOf(x)
				if len(l.m) == 1 {
					for y, c := range l.m {
						if c == 1 || c == -1 {
							f.assumeBits(y, uint64(-c*l.k), ^uint64(-c*l.k))
							if y.op == "and" {
								f.assumeAndEq(y, -c*l.k)
							}
						}
					}
				}
			}
		} else {
			f.assumeNe(t.a[0], f.tt.konst(0))
		}
		f.mut()
		f.truth[t] = val
		return
	}
	if old, ok := f.truth[t]; ok && old != val {
		f.bad = true
	}
	f.mut()
	f.truth[t] = val
	one, zero := f.tt.konst(1), f.tt.konst(0)
	if isBoolType(t.typ) && t.op != "fcmp" && t.op != "eqs" {
		if val {
			f.assumeLe(one, t, 0)
		} else {
			f.assumeLe(t, zero, 0)
		}
	}
}

func (f *Facts) assumeAndEq(y *Term, n int64) {
	f.assumeBits(y, uint64(n), ^uint64(n))
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// lenOf is the length of a slice, string or array (pointer) term.
func (tt *termTable) lenOf(x *Term) *Term {
	switch x.op {
	case "make":
		return x.a[0]
	case "slice":
		lo := linOf(x.a[1])
		var hi linForm
		if len(x.a) > 2 {
			hi = linOf(x.a[2])
		} else {
			hi = linOf(tt.lenOf(x.a[0]))
		}
		return tt.fromLin(hi.add(lo, -1), types.Typ[types.Int])
	case "append":
		return tt.fromLin(linOf(tt.lenOf(x.a[0])).add(linOf(tt.lenOf(x.a[1])), 1), types.Typ[types.Int])
	case "const":
		return tt.konst(0)
	case "sconst":
		if x.typ != nil && isStringType(x.typ) {
			return tt.konst(int64(len(x.aux)))
		}
	}
	if x.typ != nil {
		t := x.typ.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return tt.konst(a.Len())
		}
	}
	return tt.mk("len", types.Typ[types.Int], 0, "", nil, nil, x)
}

// subst replaces atoms in a term.
func (tt *termTable) subst(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.a) == 0 {
		return t
	}
	changed := false
	a := make([]*Term, len(t.a))
	for i, x := range t.a {
		a[i] = tt.subst(x, m)
		if a[i] != x {
			changed = true
		}
	}
	if !changed {
		return t
	}
	switch t.op {
	case "lin":
		l := linForm{t.n, map[*Term]int64{}}
		for i, x := range a {
			l = l.add(linOf(x), t.coef[i])
		}
		return tt.fromLin(l, t.typ)
	case "len":
		return tt.lenOf(a[0])
	case "le0", "eq0":
		if a[0].isConst() {
			v := a[0].n <= 0
			if t.op == "eq0" {
				v = a[0].n == 0
			}
			if v {
				return tt.konst(1)
			}
			return tt.konst(0)
		}
	}
	return tt.mk(t.op, t.typ, t.n, t.aux, t.coef, nil, a...)
}

// alias states that the term s has the value v, and copies what is known of v.
func (f *Facts) alias(s, v *Term) {
	if s == v {
		return
	}
	f.assumeEqSplit(s, v)
	f.mut()
	if v.op != "lin" {
		if b := f.Bits(v); b.ones|b.zeros != 0 && s.typ != nil && isIntType(s.typ) {
			o := f.bits[s]
			f.bits[s] = bitFact{o.ones | b.ones, o.zeros | b.zeros}
		}
	}
	if s.typ != nil {
		if isBoolType(s.typ) && v.op != "const" {
			if val, known := f.cond(v); known {
				f.mut()
				f.truth[s] = val
			}
		}
		if _, ok := s.typ.Underlying().(*types.Slice); ok {
			f.assumeEqSplit(f.tt.lenOf(s), f.tt.lenOf(v))
			if v.op == "make" || v.op == "slice" || v.op == "append" {
				f.assumeNe(s, f.tt.konst(0))
			}
		}
		switch v.op {
		case "alloc", "fa", "ia", "global", "make", "iface", "closure":
			f.addLe(nil, s, -1)
		}
	}
	if v.isConst() && s.typ != nil && isIntType(s.typ) {
		// what a client knows of the constant
		var ps []*Term
		for t := range f.truth {
			if t.op == "pred" && t.a[len(t.a)-1] == v {
				ps = append(ps, t)
			}
		}
		for _, t := range ps {
			args := append(append([]*Term(nil), t.a[:len(t.a)-1]...), s)
			f.truth[f.tt.mk("pred", t.typ, t.n, t.aux, nil, nil, args...)] = f.truth[t]
		}
	}
	if v.op == "lin" {
		f.aliasLin(s, linOf(v))
	}
	if v.isConst() || v.op == "lin" || v.op == "sconst" || v.op == "zero" {
		return
	}
	f.mut()
	m := map[*Term]*Term{v: s}
	has := func(t *Term) bool { return t != nil && t.contains(v) }
	su := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return f.tt.subst(t, m)
	}
	type d struct {
		k pair
		c int64
	}
	var ds []d
	for k, c := range f.diff {
		if has(k.x) && k.x != v || has(k.y) && k.y != v {
			ds = append(ds, d{pair{su(k.x), su(k.y)}, c})
		}
	}
	for _, x := range ds {
		if x.k.x != x.k.y {
			if (x.k.x == nil || !x.k.x.isConst()) && (x.k.y == nil || !x.k.y.isConst()) {
				if o, ok := f.diff[x.k]; !ok || x.c < o {
					f.diff[x.k] = x.c
				}
			}
		}
	}
	type n struct {
		k pair
		m map[int64]bool
	}
	var ns []n
	for k, mm := range f.ne {
		if has(k.x) || has(k.y) {
			ns = append(ns, n{pair{su(k.x), su(k.y)}, mm})
		}
	}
	for _, x := range ns {
		if x.k.x == x.k.y {
			continue
		}
		mm := map[int64]bool{}
		for c := range f.ne[x.k] {
			mm[c] = true
		}
		for c := range x.m {
			mm[c] = true
		}
		f.ne[x.k] = mm
	}
	type tv struct {
		t *Term
		v bool
	}
	var ts []tv
	for t, val := range f.truth {
		if has(t) {
			ts = append(ts, tv{su(t), val})
		}
	}
	for _, x := range ts {
		f.truth[x.t] = x.v
	}
	var bs []struct {
		t *Term
		b bitFact
	}
	for t, b := range f.bits {
		if t != v && has(t) {
			bs = append(bs, struct {
				t *Term
				b bitFact
			}{su(t), b})
		}
	}
	for _, x := range bs {
		if !x.t.isConst() {
			f.bits[x.t] = x.b
		}
	}
	for t, mm := range f.nz {
		if has(t) {
			u := su(t)
			if f.nz[u] == nil {
				f.nz[u] = mm
			}
		}
	}
}

// aliasLin restates bounds of combinations that the combination l, whose value s is, is part of.
func (f *Facts) aliasLin(s *Term, l linForm) {
	if len(l.m) < 2 {
		return
	}
	if len(l.m) == 2 && s.op == "sym" {
		for _, sign := range []int64{1, -1} {
			e := linForm{0, nil}.add(linOf(s), sign).add(l, -sign)
			k := e.k
			e.k = 0
			if len(e.m) == 3 {
				f.addLe2(f.tt.fromLin(e, types.Typ[types.Int]), -k)
			}
		}
	}
	type d struct {
		l linForm
		c int64
	}
	var ds []d
	for k, c := range f.diff {
		if k.y != nil || k.x == nil || k.x.op != "lin" {
			continue
		}
		t := linOf(k.x)
		if len(t.m) <= len(l.m) {
			continue
		}
		for _, sign := range []int64{1, -1} {
			part := true
			for u, n := range l.m {
				part = part && t.m[u] == sign*n
			}
			if part {
				ds = append(ds, d{t.add(l, -sign).add(linOf(s), sign), c})
			}
		}
	}
	for _, x := range ds {
		if a, b, k, ok := x.l.split(); ok && (a != nil || b != nil) {
			f.addLe(a, b, x.c-k)
		}
	}
}

// pin states an equality that is entailed already, for it to outlive the terms it follows from.
func (f *Facts) pin(x, y *Term) {
	f.mut()
	f.diff[pair{x, y}] = 0
	f.diff[pair{y, x}] = 0
}

func (f *Facts) assumeEqSplit(s, v *Term) {
	if s == v {
		return
	}
	l := linOf(s).add(linOf(v), -1)
	if x, y, k, ok := l.split(); ok {
		if x == nil && y == nil {
			return
		}
		if f.bound(x, y) > -k {
			f.mut()
			f.diff[pair{x, y}] = -k
		}
		if f.bound(y, x) > k {
			f.mut()
			f.diff[pair{y, x}] = k
		}
		return
	}
	lo, hi := f.Range(v)
	f.mut()
	if hi < inf {
		f.diff[pair{s, nil}] = hi
	}
	if lo > -inf {
		f.diff[pair{nil, s}] = -lo
	}
	// relations with the other terms of the form
	for t := range linOf(v).m {
		if u := f.upper(linOf(v).add(linOf(t), -1)); u < inf {
			f.mut()
			f.diff[pair{s, t}] = u
		}
		if u := f.upper(linOf(t).add(linOf(v), -1)); u < inf {
			f.mut()
			f.diff[pair{t, s}] = u
		}
	}
}

// project eliminates the terms for which drop is true, keeping the bounds that
// follow between the others.
func (f *Facts) project(drop func(*Term) bool) {
	f.mut()
	var elim []*Term
	seen := map[*Term]bool{}
	for k := range f.diff {
		for _, t := range []*Term{k.x, k.y} {
			if t != nil && !seen[t] && drop(t) {
				seen[t] = true
				elim = append(elim, t)
			}
		}
	}
	sortTerms(elim)
	for _, u := range elim {
		if lo, hi := f.implicit2(u); true {
			if hi < inf {
				if o, ok := f.diff[pair{u, nil}]; !ok || hi < o {
					f.diff[pair{u, nil}] = hi
				}
			}
			if lo > -inf {
				if o, ok := f.diff[pair{nil, u}]; !ok || -lo < o {
					f.diff[pair{nil, u}] = -lo
				}
			}
		}
		type e struct {
			t *Term
			c int64
		}
		var up, down []e // x - u <= c ; u - y <= c
		for k, c := range f.diff {
			if k.y == u {
				up = append(up, e{k.x, c})
			} else if k.x == u {
				down = append(down, e{k.y, c})
			}
		}
		for _, a := range up {
			for _, b := range down {
				if a.t == b.t {
					continue
				}
				k := pair{a.t, b.t}
				if o, ok := f.diff[k]; !ok || a.c+b.c < o {
					f.diff[k] = a.c + b.c
				}
			}
		}
		for _, a := range up {
			delete(f.diff, pair{a.t, u})
		}
		for _, b := range down {
			delete(f.diff, pair{u, b.t})
		}
	}
	f.remove(drop)
	f.reduce()
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// rename substitutes terms in all the facts.
func (f *Facts) rename(m map[*Term]*Term) {
	if len(m) == 0 {
		return
	}
	touched := func(t *Term) bool {
		return t != nil && t.any(func(x *Term) bool { _, ok := m[x]; return ok })
	}
	su := func(t *Term) *Term {
		if t == nil || !touched(t) {
			return t
		}
		return f.tt.subst(t, m)
	}
	g := newFacts(f.tt)
	for k, c := range f.diff {
		kk := pair{su(k.x), su(k.y)}
		if kk.x == kk.y {
			continue
		}
		if o, ok := g.diff[kk]; !ok || c < o {
			g.diff[kk] = c
		}
	}
	for k, v := range f.ne {
		g.ne[pair{su(k.x), su(k.y)}] = v
	}
	for t, v := range f.truth {
		g.truth[su(t)] = v
	}
	for t, b := range f.bits {
		g.bits[su(t)] = b
	}
	for t, b := range f.nz {
		g.nz[su(t)] = b
	}
	f.factData = g.factData
}

func (f *Facts) same(g *Facts) bool {
	if f.factData == g.factData {
		return true
	}
	if len(f.diff) != len(g.diff) || len(f.ne) != len(g.ne) || len(f.truth) != len(g.truth) || len(f.bits) != len(g.bits) || len(f.nz) != len(g.nz) {
		return false
	}
	for k, v := range f.diff {
		if w, ok := g.diff[k]; !ok || v != w {
			return false
		}
	}
	for k, v := range f.truth {
		if w, ok := g.truth[k]; !ok || v != w {
			return false
		}
	}
	for k, v := range f.bits {
		if w, ok := g.bits[k]; !ok || v != w {
			return false
		}
	}
	for k, v := range f.ne {
		w := g.ne[k]
		if len(v) != len(w) {
			return false
		}
		for x := range v {
			if !w[x] {
				return false
			}
		}
	}
	for k, v := range f.nz {
		w := g.nz[k]
		if len(v) != len(w) {
			return false
		}
		for x := range v {
			if !w[x] {
				return false
			}
		}
	}
	return true
}

// dropOpaque forgets the outcomes of floating point comparisons.
func (f *Facts) dropOpaque() {
	some := false
	for t := range f.truth {
		if t.op == "fcmp" {
			some = true
		}
	}
	if !some {
		return
	}
	f.mut()
	for t := range f.truth {
		if t.op == "fcmp" {
			delete(f.truth, t)
		}
	}
}

// reduce removes the difference bounds that follow from the others.
func (f *Facts) reduce() {
	if len(f.diff) < 8 {
		return
	}
	g := f.graph()
	type ed struct {
		k    pair
		x, y int
		c    int64
	}
	var es []ed
	for k, c := range f.diff {
		es = append(es, ed{k, g.id[k.x], g.id[k.y], c})
	}
	idOf := func(t *Term) int {
		if t == nil {
			return 0
		}
		return t.id
	}
	sort.Slice(es, func(i, j int) bool {
		// prefer to keep the relations with older terms
		a, b := idOf(es[i].k.x)+idOf(es[i].k.y), idOf(es[j].k.x)+idOf(es[j].k.y)
		if a != b {
			return a > b
		}
		if idOf(es[i].k.x) != idOf(es[j].k.x) {
			return idOf(es[i].k.x) > idOf(es[j].k.x)
		}
		return idOf(es[i].k.y) > idOf(es[j].k.y)
	})
	n := len(g.adj)
	w := make([][]int64, n) // y -> x
	for i := range w {
		w[i] = make([]int64, n)
		for j := range w[i] {
			w[i][j] = inf
		}
	}
	for _, e := range es {
		w[e.y][e.x] = e.c
	}
	for i := 1; i < n; i++ {
		// implicit bounds are never removed
		if g.lo[i] > -inf && -g.lo[i] <= w[i][0] {
			w[i][0] = -g.lo[i]
		}
		if g.hi[i] < inf && g.hi[i] <= w[0][i] {
			w[0][i] = g.hi[i]
		}
	}
	adj := make([][]int, n)
	for y := range w {
		for x := range w[y] {
			if w[y][x] < inf {
				adj[y] = append(adj[y], x)
			}
		}
	}
	dist := make([]int64, n)
	in := make([]bool, n)
	cnt := make([]int, n)
	var drop []pair
	for _, e := range es {
		own := w[e.y][e.x]
		if own < e.c {
			drop = append(drop, e.k) // implied by the type
			continue
		}
		if e.x == 0 && g.lo[e.y] > -inf && -g.lo[e.y] <= e.c || e.y == 0 && g.hi[e.x] < inf && g.hi[e.x] <= e.c {
			drop = append(drop, e.k)
			continue
		}
		w[e.y][e.x] = inf
		for i := range dist {
			dist[i], in[i], cnt[i] = inf, false, 0
		}
		dist[e.y] = 0
		q := []int{e.y}
		for len(q) > 0 && dist[e.x] > e.c {
			u := q[0]
			q = q[1:]
			in[u] = false
			for _, v := range adj[u] {
				if ww := w[u][v]; ww < inf && dist[u]+ww < dist[v] && cnt[v] <= n {
					dist[v] = dist[u] + ww
					cnt[v]++
					if !in[v] {
						in[v] = true
						q = append(q, v)
					}
				}
			}
		}
		if dist[e.x] <= e.c {
			drop = append(drop, e.k)
		} else {
			w[e.y][e.x] = own
		}
	}
	if len(drop) > 0 {
		f.mut()
		for _, k := range drop {
			delete(f.diff, k)
		}
	}
}

// implies tells whether f is at least as strong as g.
func (f *Facts) implies(g *Facts) bool {
	if f.bad || f.factData == g.factData {
		return true
	}
	if g.bad {
		return false
	}
	for k, c := range g.diff {
		if f.bound(k.x, k.y) > c {
			return false
		}
	}
	for t, v := range g.truth {
		if w, ok := f.truth[t]; !ok || v != w {
			return false
		}
	}
	for t := range g.bits {
		x, y := f.Bits(t), g.Bits(t)
		if y.ones&^x.ones != 0 || y.zeros&^x.zeros != 0 {
			return false
		}
	}
	for k, m := range g.ne {
		for v := range m {
			if !f.ne[k][v] && f.bound(k.x, k.y) >= v && f.bound(k.y, k.x) >= -v {
				return false
			}
		}
	}
	for t, m := range g.nz {
		for v := range m {
			if !f.nz[t][v] && f.Bits(t).ones&v == 0 {
				return false
			}
		}
	}
	return true
}
