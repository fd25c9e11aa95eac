package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type pair struct{ x, y *Term }

type bitFact struct{ ones, zeros uint64 }

// Facts is a conjunction of facts about terms: difference bounds of integers,
// disequalities, truth of opaque conditions, and known bits. Copies share their
// data until one of them changes.
type Facts struct {
	tt *termTable
	*factData
	bad bool
}

type factData struct {
	shared bool
	diff   map[pair]int64 // x - y <= c; a nil term stands for zero
	ne     map[pair]map[int64]bool
	truth  map[*Term]bool
	bits   map[*Term]bitFact
	nz     map[*Term]map[uint64]bool // some bit of the mask is set
	g      *boundGraph               // of diff, built on demand
}

func newFacts(tt *termTable) *Facts {
	return &Facts{tt: tt, factData: &factData{diff: map[pair]int64{}, ne: map[pair]map[int64]bool{}, truth: map[*Term]bool{},
		bits: map[*Term]bitFact{}, nz: map[*Term]map[uint64]bool{}}}
}

func (f *Facts) clone() *Facts {
	f.shared = true
	return &Facts{tt: f.tt, factData: f.factData, bad: f.bad}
}

// mut makes the data private before a change.
func (f *Facts) mut() {
	f.g = nil
	if !f.shared {
		return
	}
	o := f.factData
	d := &factData{diff: make(map[pair]int64, len(o.diff)+4), ne: make(map[pair]map[int64]bool, len(o.ne)), truth: make(map[*Term]bool, len(o.truth)+2),
		bits: make(map[*Term]bitFact, len(o.bits)+2), nz: make(map[*Term]map[uint64]bool, len(o.nz))}
	for k, v := range o.diff {
		d.diff[k] = v
	}
	for k, v := range o.ne {
		d.ne[k] = v // copied on write
	}
	for k, v := range o.truth {
		d.truth[k] = v
	}
	for k, v := range o.bits {
		d.bits[k] = v
	}
	for k, v := range o.nz {
		d.nz[k] = v
	}
	f.factData = d
}

type gedge struct {
	to int
	w  int64
}

// boundGraph is the graph of the difference bounds.
type boundGraph struct {
	id    map[*Term]int
	adj   [][]gedge // y -> x with weight c for x - y <= c
	lo    []int64
	hi    []int64
	his   []int // nodes with an upper bound by type
	dists map[int][]int64
	rev   [][]gedge
	tos   map[int][]int64
}

func (f *Facts) graph() *boundGraph {
	if f.g != nil {
		return f.g
	}
	g := &boundGraph{id: map[*Term]int{nil: 0}, dists: map[int][]int64{}}
	g.adj = append(g.adj, nil)
	g.lo, g.hi = append(g.lo, 0), append(g.hi, 0)
	node := func(t *Term) int {
		if n, ok := g.id[t]; ok {
			return n
		}
		n := len(g.adj)
		g.id[t] = n
		g.adj = append(g.adj, nil)
		lo, hi := f.implicit2(t)
		g.lo, g.hi = append(g.lo, lo), append(g.hi, hi)
		if hi < inf {
			g.his = append(g.his, n)
		}
		return n
	}
	for k, c := range f.diff {
		x, y := node(k.x), node(k.y)
		g.adj[y] = append(g.adj[y], gedge{x, c})
	}
	f.g = g
	return g
}

// from are the bounds of all nodes relative to one.
func (g *boundGraph) from(y int) []int64 {
	if d, ok := g.dists[y]; ok {
		return d
	}
	n := len(g.adj)
	d := make([]int64, n)
	cnt := make([]int, n)
	in := make([]bool, n)
	for i := range d {
		d[i] = inf
	}
	d[y] = 0
	queue := []int{y}
	relax := func(to int, v int64) {
		if v < d[to] && cnt[to] < n+2 {
			cnt[to]++
			d[to] = v
			if !in[to] {
				in[to] = true
				queue = append(queue, to)
			}
		}
	}
	for len(queue) > 0 {
		u := queue[0]
		queue = queue[1:]
		in[u] = false
		for _, e := range g.adj[u] {
			relax(e.to, d[u]+e.w)
		}
		if u != 0 {
			if g.lo[u] > -inf {
				relax(0, d[u]-g.lo[u])
			}
		} else {
			for _, t := range g.his {
				relax(t, d[0]+g.hi[t])
			}
		}
	}
	g.dists[y] = d
	return d
}

// to are the bounds of one node relative to all others.
func (g *boundGraph) to(x int) []int64 {
	if d, ok := g.tos[x]; ok {
		return d
	}
	n := len(g.adj)
	if g.rev == nil {
		g.rev = make([][]gedge, n)
		for y, es := range g.adj {
			for _, e := range es {
				g.rev[e.to] = append(g.rev[e.to], gedge{y, e.w})
			}
		}
		for y := 1; y < n; y++ {
			if g.lo[y] > -inf {
				g.rev[0] = append(g.rev[0], gedge{y, -g.lo[y]})
			}
			if g.hi[y] < inf {
				g.rev[y] = append(g.rev[y], gedge{0, g.hi[y]})
			}
		}
		g.tos = map[int][]int64{}
	}
	d := make([]int64, n)
	cnt := make([]int, n)
	in := make([]bool, n)
	for i := range d {
		d[i] = inf
	}
	d[x] = 0
	queue := []int{x}
	for len(queue) > 0 {
		u := queue[0]
		queue = queue[1:]
		in[u] = false
		for _, e := range g.rev[u] {
			if v := d[u] + e.w; v < d[e.to] && cnt[e.to] < n+2 {
				cnt[e.to]++
				d[e.to] = v
				if !in[e.to] {
					in[e.to] = true
					queue = append(queue, e.to)
				}
			}
		}
	}
	g.tos[x] = d
	return d
}

// restate adds to r, the facts common to f and g, what both know of the terms
// without stating it.
func (r *Facts) restate(f, g *Facts, focus []*Term) {
	fg, gg := f.graph(), g.graph()
	more := map[pair]int64{}
	rg := r.graph()
	for _, s := range focus {
		fi, ok1 := fg.id[s]
		gi, ok2 := gg.id[s]
		ri, ok3 := rg.id[s]
		if !ok1 || !ok2 {
			continue
		}
		for dir := 0; dir < 2; dir++ {
			var fd, gd, rd []int64
			if dir == 0 {
				fd, gd = fg.to(fi), gg.to(gi)
				if ok3 {
					rd = rg.to(ri)
				}
			} else {
				fd, gd = fg.from(fi), gg.from(gi)
				if ok3 {
					rd = rg.from(ri)
				}
			}
			at := func(d []int64, h *boundGraph, hf *Facts, t *Term) int64 {
				if i, ok := h.id[t]; ok {
					return d[i]
				}
				// not mentioned: by its type alone
				z, ok := h.id[nil]
				if !ok || d[z] >= inf {
					return inf
				}
				lo, hi := hf.Range(t)
				if dir == 0 && lo > -inf {
					return d[z] - lo
				}
				if dir == 1 && hi < inf {
					return d[z] + hi
				}
				return inf
			}
			each := func(t *Term) {
				if t == s || t != nil && t.isConst() {
					return
				}
				c := at(fd, fg, f, t)
				if o := at(gd, gg, g, t); o > c {
					c = o
				}
				if c >= inf {
					return
				}
				if rd != nil && at(rd, rg, r, t) <= c {
					return
				}
				if dir == 0 {
					more[pair{s, t}] = c
				} else {
					more[pair{t, s}] = c
				}
			}
			for t := range fg.id {
				each(t)
			}
			for t := range gg.id {
				if _, ok := fg.id[t]; !ok {
					each(t)
				}
			}
		}
	}
	r.mut() // and without the graph: the caller goes on changing r
	for k, c := range more {
		if o, ok := r.diff[k]; !ok || c < o {
			r.diff[k] = c
		}
	}
}

// ranges keeps the ranges both f and g give the terms.
func (r *Facts) ranges(f, g *Facts, ts []*Term) {
	type d struct {
		k pair
		c int64
	}
	var ds []d
	for _, t := range ts {
		for _, k := range []pair{{t, nil}, {nil, t}} {
			c := f.bound(k.x, k.y)
			if o := g.bound(k.x, k.y); o > c {
				c = o
			}
			if c < inf && c < r.bound(k.x, k.y) {
				ds = append(ds, d{k, c})
			}
		}
	}
	r.mut() // and without the graph: the caller goes on changing r
	for _, x := range ds {
		r.diff[x.k] = x.c
	}
}

// bound returns the smallest c with x - y <= c known, or inf.
func (f *Facts) bound(x, y *Term) int64 {
	if x == y {
		return 0
	}
	g := f.graph()
	xi, xok := g.id[x]
	base := int64(0)
	yi, yok := g.id[y]
	if !yok {
		// only its type bounds it
		lo, _ := f.implicit2(y)
		if lo <= -inf {
			return inf
		}
		base, yi = -lo, 0
	}
	d := g.from(yi)
	if xok {
		if d[xi] >= inf {
			return inf
		}
		return base + d[xi]
	}
	if d[0] >= inf {
		return inf
	}
	_, hi := f.implicit2(x)
	if hi >= inf {
		return inf
	}
	return base + d[0] + hi
}

// keep removes the facts that mention a term for which drop is true.
func (f *Facts) remove(drop func(*Term) bool) {
	d := func(t *Term) bool { return t != nil && drop(t) }
	f.mut()
	for k := range f.diff {
		if d(k.x) || d(k.y) {
			delete(f.diff, k)
		}
	}
	for k := range f.ne {
		if d(k.x) || d(k.y) {
			delete(f.ne, k)
		}
	}
	for k := range f.truth {
		if d(k) {
			delete(f.truth, k)
		}
	}
	for k := range f.bits {
		if d(k) {
			delete(f.bits, k)
		}
	}
	for k := range f.nz {
		if d(k) {
			delete(f.nz, k)
		}
	}
}

const inf = math.MaxInt64 / 4

// typeRange is the range of the values of an integer type, or unbounded.
func typeRange(t types.Type) (lo, hi int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -inf, inf
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, math.MaxUint8
	case types.Uint16:
		return 0, math.MaxUint16
	case types.Uint32:
		return 0, math.MaxUint32
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	case types.Int8:
		return math.MinInt8, math.MaxInt8
	case types.Int16:
		return math.MinInt16, math.MaxInt16
	case types.Int32:
		return math.MinInt32, math.MaxInt32
	}
	return -inf, inf
}

// implicit bounds of a term from its structure and type.
func (f *Facts) implicit(t *Term) (lo, hi int64) {
	if t == nil {
		return 0, 0
	}
	lo, hi = -inf, inf
	switch t.op {
	case "const":
		return t.n, t.n
	case "alloc", "fa", "ia", "global", "make", "iface", "closure":
		return 1, inf
	case "lin":
		return
	case "shr":
		if t.a[1].isConst() && t.a[1].n >= 0 && t.a[1].n < 63 {
			if l, h := f.implicit(t.a[0]); l >= 0 {
				lo = l >> uint(t.a[1].n)
				if h < inf {
					hi = h >> uint(t.a[1].n)
				}
			}
		}
	case "div":
		if t.a[1].isConst() && t.a[1].n > 0 {
			if l, h := f.implicit(t.a[0]); l >= 0 {
				lo = l / t.a[1].n
				if h < inf {
					hi = h / t.a[1].n
				}
			}
		}
	case "or":
		if l, h := f.implicit(t.a[0]); l >= 0 {
			if l2, h2 := f.implicit(t.a[1]); l2 >= 0 {
				lo = l
				if l2 > lo {
					lo = l2
				}
				if h < 1<<62 && h2 < 1<<62 {
					m := h
					if h2 > m {
						m = h2
					}
					for hi = 1; hi <= m; hi <<= 1 {
					}
					hi--
				}
			}
		}
	case "mul":
		if l, _ := f.implicit(t.a[0]); l >= 0 {
			if l, _ := f.implicit(t.a[1]); l >= 0 {
				lo = 0
			}
		}
	case "len", "cap":
		lo = 0
		if t.op == "len" && t.a[0].op == "make" && t.a[0].a[0].isConst() {
			return t.a[0].a[0].n, t.a[0].a[0].n
		}
	case "and":
		for _, x := range t.a {
			if x.isConst() && x.n >= 0 {
				lo = 0
				if x.n < hi {
					hi = x.n
				}
			}
		}
	case "rem":
		if t.a[1].isConst() && t.a[1].n > 0 {
			hi = t.a[1].n - 1
			if l, _ := f.Range(t.a[0]); l >= 0 {
				lo = 0
			}
		}
	case "conv", "sym", "load", "field", "extract", "wrap", "elem":
		lo, hi = typeRange(t.typ)
	case "range":
		lo = 0
	}
	if t.typ != nil {
		l, h := typeRange(t.typ)
		if l == 0 && lo < 0 && t.op != "lin" && t.op != "const" {
			lo = 0
		}
		if h < hi && t.op != "lin" && t.op != "const" && h-l < math.MaxUint32 {
			hi = h
		}
	}
	if b, ok := f.bits[t]; ok && b.ones != 0 && lo >= 0 {
		if int64(b.ones) > lo {
			lo = int64(b.ones)
		}
	}
	return
}

// implicit2 avoids the recursion of the structural bounds.
func (f *Facts) implicit2(t *Term) (int64, int64) {
	if t.op == "rem" {
		lo, hi := typeRange(t.typ)
		if t.a[1].isConst() && t.a[1].n > 0 {
			hi = t.a[1].n - 1
			if lo < 0 {
				if l, _ := f.implicit(t.a[0]); l >= 0 {
					lo = 0
				}
			}
		}
		return lo, hi
	}
	return f.implicit(t)
}

// split turns a linear form into at most one difference x - y + k with unit
// coefficients; ok is false for other forms.
func (l linForm) split() (x, y *Term, k int64, ok bool) {
	if len(l.m) > 2 {
		return nil, nil, 0, false
	}
	for t, c := range l.m {
		switch {
		case c == 1 && x == nil:
			x = t
		case c == -1 && y == nil:
			y = t
		default:
			return nil, nil, 0, false
		}
	}
	return x, y, l.k, true
}

// upper bound of a linear form.
func (f *Facts) upper(l linForm) int64 {
	if x, y, k, ok := l.split(); ok {
		b := f.bound(x, y)
		if b >= inf {
			return inf
		}
		return b + k
	}
	known := int64(inf)
	if len(l.m) <= 3 {
		k0 := l
		k0.k = 0
		if c, ok := f.diff[pair{f.tt.fromLin(k0, types.Typ[types.Int]), nil}]; ok {
			known = c + l.k
		}
	}
	if s := f.upper2(l); s < known {
		known = s
	}
	if len(l.m) >= 2 && len(l.m) <= 3 {
		// with the help of a known bound of another combination
		for k, c := range f.diff {
			if k.y != nil || k.x == nil || k.x.op != "lin" {
				continue
			}
			o := linOf(k.x)
			shares := false
			for t, n := range o.m {
				shares = shares || l.m[t]*n > 0
			}
			if !shares || len(o.m) > 3 {
				continue
			}
			rest := l.add(o, -1)
			k0 := rest.k
			rest.k = 0
			g := int64(0)
			for _, n := range rest.m {
				g = gcd64(g, n)
			}
			if g == 0 {
				continue
			}
			unit := linForm{0, nil}
			for t, n := range rest.m {
				if unit.m == nil {
					unit.m = map[*Term]int64{}
				}
				unit.m[t] = n / g
			}
			var u int64
			if x, y, kk, ok := unit.split(); ok {
				u = f.bound(x, y)
				if u < inf {
					u += kk
				}
			} else {
				u = f.upper2(unit)
			}
			if u >= inf {
				continue
			}
			if s := mulSat(g, u) + k0 + c; s < known {
				known = s
			}
		}
	}
	return known
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (f *Facts) upper2(l linForm) int64 {
	// pair up unit terms, bound the rest by their ranges
	s := l.k
	ts := l.terms()
	used := map[*Term]bool{}
	for _, t := range ts {
		if used[t] {
			continue
		}
		c := l.m[t]
		best := int64(inf)
		var mate *Term
		if c == 1 || c == -1 {
			for _, u := range ts {
				if !used[u] && u != t && l.m[u] == -c {
					var b int64
					if c == 1 {
						b = f.bound(t, u)
					} else {
						b = f.bound(u, t)
					}
					if b < best {
						best, mate = b, u
					}
				}
			}
		}
		lo, hi := f.Range(t)
		var own int64
		if c > 0 {
			own = mulSat(c, hi)
		} else {
			own = mulSat(c, lo)
		}
		if mate == nil || (own < inf && best >= inf) {
			if own >= inf {
				return inf
			}
			s += own
			used[t] = true
			continue
		}
		if best >= inf {
			return inf
		}
		s += best
		used[t], used[mate] = true, true
	}
	return s
}

func mulSat(c, v int64) int64 {
	if v >= inf || v <= -inf {
		if (v > 0) == (c > 0) {
			return inf
		}
		return -inf
	}
	if v != 0 && (c*v/v != c || c*v >= inf || c*v <= -inf) {
		if (c > 0) == (v > 0) {
			return inf
		}
		return -inf
	}
	return c * v
}

// Range of an integer term.
func (f *Facts) Range(t *Term) (lo, hi int64) {
	if t.isConst() {
		return t.n, t.n
	}
	if t.op == "lin" {
		l := linOf(t)
		hi = f.upper(l)
		neg := linForm{0, nil}.add(l, -1)
		u := f.upper(neg)
		if u >= inf {
			return -inf, hi
		}
		return -u, hi
	}
	hi = f.bound(t, nil)
	b := f.bound(nil, t)
	if b >= inf {
		lo = -inf
	} else {
		lo = -b
	}
	return
}

// le tells whether a + k <= b is entailed.
func (f *Facts) le(a, b *Term, k int64) bool {
	l := linOf(a).add(linOf(b), -1)
	l.k += k
	return f.upper(l) <= 0 || f.upperVia(l, 2) <= 0
}

// upperVia bounds l with the help of known bounds of combinations.
func (f *Facts) upperVia(l linForm, depth int) int64 {
	best := int64(inf)
	if len(l.m) < 2 || len(l.m) > 4 {
		return inf
	}
	for k, c := range f.diff {
		if k.y != nil || k.x == nil || k.x.op != "lin" {
			continue
		}
		o := linOf(k.x)
		shares := false
		for t, n := range o.m {
			shares = shares || l.m[t] == n
		}
		if !shares || len(o.m) > 3 {
			continue
		}
		rest := l.add(o, -1)
		u := f.upper(rest)
		if u+c > 0 && depth > 1 {
			if v := f.upperVia(rest, depth-1); v < u {
				u = v
			}
		}
		if u < inf && u+c < best {
			best = u + c
		}
	}
	return best
}

func (f *Facts) isNe(a, b *Term) bool {
	if f.le(a, b, 1) || f.le(b, a, 1) {
		return true
	}
	l := linOf(a).add(linOf(b), -1)
	if len(l.m) == 0 {
		return l.k != 0
	}
	x, y, k, ok := l.split()
	if ok {
		if f.ne[pair{x, y}][-k] || f.ne[pair{y, x}][k] {
			return true
		}
	}
	// bits
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[1].isConst() {
			kb := f.Bits(p[0])
			c := uint64(p[1].n)
			if kb.ones&^c != 0 || kb.zeros&c != 0 {
				return true
			}
			if c == 0 {
				for m := range f.nz[p[0]] {
					_ = m
					return true
				}
			}
		}
	}
	// x == c1 and the value y is a chain: equal terms with different constants
	return false
}

func (f *Facts) addLe(x, y *Term, c int64) {
	if x == y {
		if c < 0 {
			f.bad = true
		}
		return
	}
	if f.bound(y, x) < -c {
		f.bad = true
		return
	}
	k := pair{x, y}
	if f.bound(x, y) > c {
		f.mut()
		f.diff[k] = c
	}
	// a known disequality at the boundary tightens the bound
	for {
		c := f.bound(x, y)
		if c >= inf || c <= -inf {
			return
		}
		if f.ne[k][c] || f.ne[pair{y, x}][-c] {
			f.mut()
			f.diff[k] = c - 1
			if f.bound(y, x) < -(c - 1) {
				f.bad = true
				return
			}
			continue
		}
		return
	}
}

// assumeLe adds a + k <= b.
func (f *Facts) assumeLe(a, b *Term, k int64) {
	l := linOf(a).add(linOf(b), -1)
	l.k += k
	if x, y, kk, ok := l.split(); ok {
		if x == nil && y == nil {
			if kk > 0 {
				f.bad = true
			}
			return
		}
		f.addLe(x, y, -kk)
		return
	}
	if -f.upper(linForm{0, nil}.add(l, -1)) > 0 {
		f.bad = true
		return
	}
	// keep it as a bound of the combination
	k0 := l.k
	l.k = 0
	t := f.tt.fromLin(l, types.Typ[types.Int])
	f.addLe2(t, -k0)
	// and as a bound of each term, the others being at their minimum
	if len(l.m) > 3 {
		return
	}
	for u, c := range l.m {
		if c != 1 && c != -1 {
			continue
		}
		rest := linForm{k0, nil}.add(l, -1)
		rest = rest.add(linOf(u), c) // -(others)
		rest.k -= k0
		m := f.upper2(rest) // at most -(others)
		if m >= inf/2 || m <= -inf/2 {
			continue
		}
		if c == 1 {
			f.addLe(u, nil, m-k0)
		} else {
			f.addLe(nil, u, m-k0)
		}
		if f.bad {
			return
		}
	}
}

// addLe2: the linear combination t is at most c.
func (f *Facts) addLe2(t *Term, c int64) {
	k := pair{t, nil}
	f.mut()
	if o, ok := f.diff[k]; !ok || c < o {
		f.diff[k] = c
	}
}

func (f *Facts) assumeEq(a, b *Term) {
	f.assumeLe(a, b, 0)
	if !f.bad {
		f.assumeLe(b, a, 0)
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[1].isConst() {
			f.assumeBits(p[0], uint64(p[1].n), ^uint64(p[1].n))
		}
	}
}

func (f *Facts) assumeNe(a, b *Term) {
	l := linOf(a).add(linOf(b), -1)
	x, y, k, ok := l.split()
	if !ok {
		return
	}
	if x == nil && y == nil {
		if k == 0 {
			f.bad = true
		}
		return
	}
	kk := pair{x, y}
	f.mut()
	m := map[int64]bool{-k: true}
	for v := range f.ne[kk] {
		m[v] = true
	}
	f.ne[kk] = m
	if f.bound(x, y) == -k {
		f.addLe(x, y, -k-1)
	} else if f.bound(y, x) == k {
		f.addLe(y, x, k-1)
	}
	if b.isConst() && b.n == 0 {
		f.assumeNz(a, ^uint64(0))
	}
}

// assumeNz: some bit of mask is set in t.
func (f *Facts) assumeNz(t *Term, mask uint64) {
	if t.op == "and" && t.a[1].isConst() {
		f.assumeNz(t.a[0], mask&uint64(t.a[1].n))
		return
	}
	kb := f.Bits(t)
	mask &^= kb.zeros
	if kb.ones&mask != 0 {
		return
	}
	if mask == 0 {
		f.bad = true
		return
	}
	if bits.OnesCount64(mask) == 1 {
		f.assumeBits(t, mask, 0)
		return
	}
	f.mut()
	m := map[uint64]bool{mask: true}
	for v := range f.nz[t] {
		m[v] = true
	}
	f.nz[t] = m
}

func (f *Facts) assumeBits(t *Term, ones, zeros uint64) {
	if t.op == "and" && t.a[1].isConst() {
		c := uint64(t.a[1].n)
		if ones&^c != 0 {
			f.bad = true
		}
		f.assumeBits(t.a[0], ones&c, zeros&c)
		return
	}
	if t.op == "or" && t.a[1].isConst() {
		c := uint64(t.a[1].n)
		if zeros&c != 0 {
			f.bad = true
		}
		f.assumeBits(t.a[0], ones&^c, zeros)
		return
	}
	if t.isConst() {
		if uint64(t.n)&zeros != 0 || ^uint64(t.n)&ones != 0 {
			f.bad = true
		}
		return
	}
	b := f.Bits(t)
	b.ones |= ones
	b.zeros |= zeros
	if b.ones&b.zeros != 0 {
		f.bad = true
	}
	f.mut()
	f.bits[t] = b
	if t.typ == nil {
	} else if lo, hi := typeRange(t.typ); lo == 0 && hi < 1<<62 {
		if max := int64(1)<<uint(bits.Len64(uint64(hi)&^b.zeros)) - 1; max < hi {
			f.addLe(t, nil, max)
		}
	}
	for m := range f.nz[t] {
		if m&^b.zeros == 0 {
			f.bad = true
		} else if r := m &^ b.zeros; bits.OnesCount64(r) == 1 && b.ones&r == 0 {
			f.assumeBits(t, r, 0)
		}
	}
}

// Bits returns the known bits of an integer term.
func (f *Facts) Bits(t *Term) bitFact {
	if t.isConst() {
		return bitFact{uint64(t.n), ^uint64(t.n)}
	}
	b := f.bits[t]
	switch t.op {
	case "and":
		x, y := f.Bits(t.a[0]), f.Bits(t.a[1])
		b.ones |= x.ones & y.ones
		b.zeros |= x.zeros | y.zeros
	case "or":
		x, y := f.Bits(t.a[0]), f.Bits(t.a[1])
		b.ones |= x.ones | y.ones
		b.zeros |= x.zeros & y.zeros
	case "not":
		x := f.Bits(t.a[0])
		b.ones |= x.zeros
		b.zeros |= x.ones
	case "xor":
		x, y := f.Bits(t.a[0]), f.Bits(t.a[1])
		b.ones |= x.ones&y.zeros | x.zeros&y.ones
		b.zeros |= x.ones&y.ones | x.zeros&y.zeros
	case "shl", "shr":
		if t.a[1].isConst() && t.a[1].n >= 0 && t.a[1].n < 64 {
			x := f.Bits(t.a[0])
			n := uint(t.a[1].n)
			if t.op == "shl" {
				b.ones |= x.ones << n
				b.zeros |= x.zeros<<n | (1<<n - 1)
			} else {
				b.ones |= x.ones >> n
				b.zeros |= x.zeros>>n | ^(^uint64(0) >> n)
			}
		}
	}
	if t.typ != nil {
		if lo, hi := typeRange(t.typ); lo == 0 && hi < inf {
			b.zeros |= ^uint64(hi)
			b.ones &= uint64(hi)
		}
	}
	return b
}

// truthOf evaluates an opaque condition.
func (f *Facts) truthOf(t *Term) (val, known bool) {
	v, ok := f.truth[t]
	return v, ok
}

// intersect keeps what both imply.
func (f *Facts) boundOf(k pair) int64 {
	if k.y == nil && k.x != nil && k.x.op == "lin" {
		return f.upper(linOf(k.x))
	}
	return f.bound(k.x, k.y)
}

func (f *Facts) intersect(g *Facts) *Facts {
	if f.bad {
		return g.clone()
	}
	if g.bad || f.factData == g.factData {
		return f.clone()
	}
	r := newFacts(f.tt)
	for k, c := range f.diff {
		// exact or entailed
		if d, ok := g.diff[k]; ok {
			if d > c {
				c = d
			}
			r.diff[k] = c
			continue
		}
		if b := g.boundOf(k); b < inf {
			if b > c {
				c = b
			}
			r.diff[k] = c
		}
	}
	for k, d := range g.diff {
		if _, ok := r.diff[k]; !ok {
			if b := f.boundOf(k); b < inf {
				if b > d {
					d = b
				}
				r.diff[k] = d
			}
		}
	}
	more := map[pair]int64{}
	// differences that follow from two differences on either side, but not
	// from the joined ones: x-y and y-z were loosened on different sides
	type loose struct {
		k      pair
		uf, ug int64
	}
	into := map[*Term][]loose{} // by k.x
	var all []loose
	for k := range r.diff {
		uf, okf := f.diff[k]
		ug, okg := g.diff[k]
		if !okf {
			uf = f.bound(k.x, k.y)
		}
		if !okg {
			ug = g.bound(k.x, k.y)
		}
		if uf == ug || uf >= inf || ug >= inf {
			continue
		}
		l := loose{k, uf, ug}
		into[k.x] = append(into[k.x], l)
		all = append(all, l)
	}
	// terms at a fixed distance on both sides are one step: y - e == c
	type step struct {
		e *Term
		c int64
	}
	fixed := map[*Term][]step{}
	if len(all) > 0 {
		for k, c := range r.diff {
			if k.x == nil || k.y == nil || k.x.isConst() || k.y.isConst() {
				continue
			}
			if d, ok := r.diff[pair{k.y, k.x}]; ok && d == -c && (len(into[k.y]) > 0) {
				fixed[k.x] = append(fixed[k.x], step{k.y, c})
			}
		}
	}
	for _, k := range all {
		if k.k.x == nil || k.k.x.isConst() {
			continue
		}
		for i := -1; i < len(fixed[k.k.y]); i++ {
			via, off := k.k.y, int64(0)
			if i >= 0 {
				via, off = fixed[k.k.y][i].e, fixed[k.k.y][i].c
			}
			for _, l := range into[via] {
				if l.k.y == nil || l.k.y == k.k.x || (k.uf < k.ug) == (l.uf < l.ug) {
					continue
				}
				d := k.uf + off + l.uf
				if k.ug+off+l.ug > d {
					d = k.ug + off + l.ug
				}
				kk := pair{k.k.x, l.k.y}
				if old, ok := r.diff[kk]; ok && old <= d {
					continue
				}
				if old, ok := more[kk]; !ok || d < old {
					more[kk] = d
				}
			}
		}
	}
	for k, d := range more {
		r.diff[k] = d
	}
	for k, m := range f.ne {
		for v := range m {
			if g.ne[k][v] || g.bound(k.x, k.y) < v || g.bound(k.y, k.x) < -v {
				if r.ne[k] == nil {
					r.ne[k] = map[int64]bool{}
				}
				r.ne[k][v] = true
			}
		}
	}
	for k, m := range g.ne {
		for v := range m {
			if !f.ne[k][v] && (f.bound(k.x, k.y) < v || f.bound(k.y, k.x) < -v) {
				if r.ne[k] == nil {
					r.ne[k] = map[int64]bool{}
				}
				r.ne[k][v] = true
			}
		}
	}
	for t, v := range f.truth {
		if w, ok := g.truth[t]; ok && v == w {
			r.truth[t] = v
		}
	}
	both := map[*Term]bool{}
	for t := range f.bits {
		both[t] = true
	}
	for t := range g.bits {
		both[t] = true
	}
	for t := range both {
		x, y := f.Bits(t), g.Bits(t)
		b := bitFact{x.ones & y.ones, x.zeros & y.zeros}
		if b.ones|b.zeros != 0 {
			r.bits[t] = b
		}
		if b.ones == 0 && x.ones != 0 && y.ones != 0 {
			m := x.ones | y.ones
			if r.nz[t] == nil {
				r.nz[t] = map[uint64]bool{}
			}
			r.nz[t][m] = true
		}
	}
	nzs := func(f, g *Facts) {
		for t, m := range f.nz {
			for v := range m {
				if g.nz[t][v] || g.Bits(t).ones&v != 0 {
					if r.nz[t] == nil {
						r.nz[t] = map[uint64]bool{}
					}
					r.nz[t][v] = true
				}
			}
		}
	}
	nzs(f, g)
	nzs(g, f)
	return r
}

func (f *Facts) String() string {
	var s []string
	for k, c := range f.diff {
		x, y := "0", "0"
		if k.x != nil {
			x = k.x.String()
		}
		if k.y != nil {
			y = k.y.String()
		}
		s = append(s, fmt.Sprintf("%s - %s <= %d", x, y, c))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}
