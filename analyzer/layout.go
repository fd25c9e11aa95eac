package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The layout engine follows bytes: it interprets the SSA form of functions
// that fill or read buffers, with affine offsets, and records each store as the
// copy of bytes between places. A place is a path from an object, with affine
// indices. Loops are summarized: a cursor moved by a constant amount by each
// iteration becomes an affine function of the iteration number.

// aff is an affine integer: a constant (key "") and symbols.
type aff map[string]int64

func affK(n int64) aff    { return aff{"": n} }
func affS(s string) aff   { return aff{s: 1} }
func (a aff) k() int64    { return a[""] }
func (a aff) konst() bool { return len(a) == 0 || len(a) == 1 && a[""] != 0 }

func (a aff) add(b aff, c int64) aff {
	r := aff{}
	for s, n := range a {
		r[s] += n
	}
	for s, n := range b {
		r[s] += n * c
	}
	for s, n := range r {
		if n == 0 {
			delete(r, s)
		}
	}
	return r
}

// subst replaces a symbol.
func (a aff) subst(s string, by aff) aff {
	n := a[s]
	if n == 0 {
		return a
	}
	r := a.add(aff{s: 1}, -n)
	return r.add(by, n)
}

func (a aff) String() string {
	var ks []string
	for s := range a {
		if s != "" {
			ks = append(ks, s)
		}
	}
	sort.Strings(ks)
	var p []string
	if a[""] != 0 || len(ks) == 0 {
		p = append(p, fmt.Sprint(a[""]))
	}
	for _, s := range ks {
		if a[s] == 1 {
			p = append(p, s)
		} else {
			p = append(p, fmt.Sprintf("%d*%s", a[s], s))
		}
	}
	return strings.Join(p, "+")
}

func (a aff) eq(b aff) bool { return len(a.add(b, -1)) == 0 }

// lpath is a place: a root object, then fields and elements.
type lstep struct {
	field string
	idx   aff
}

type lpath struct {
	root  string
	steps []lstep
	typ   types.Type // of what is there
}

func (p *lpath) String() string {
	s := p.root
	for _, x := range p.steps {
		if x.idx != nil {
			s += "[" + x.idx.String() + "]"
		} else {
			s += "." + x.field
		}
	}
	return s
}

func (p *lpath) step(x lstep, t types.Type) *lpath {
	return &lpath{p.root, append(append([]lstep(nil), p.steps...), x), t}
}

func (p *lpath) subst(s string, by aff) *lpath {
	if p == nil {
		return nil
	}
	q := &lpath{p.root, append([]lstep(nil), p.steps...), p.typ}
	for i, x := range q.steps {
		if x.idx != nil {
			q.steps[i].idx = x.idx.subst(s, by)
		}
	}
	return q
}

// lref is a byte of a value: byte k of the scalar at a place, a constant, or unknown.
type lref struct {
	p *lpath
	k int
	n int // constant, when p is nil; -1 unknown
}

type lval struct {
	a     aff    // integer
	vec   []lref // bytes, the least significant first
	addr  *lpath // pointer to a place
	slice *lpath // slice: the place of its elements' container
	off   aff    // of the first element of the slice
	n     aff    // its length
	ref   *lpath // value of an aggregate, at a place
	cond  *lcond
	tup   []lval
	fn    *ssa.Function
	binds []lval
	iface *lval
}

type lcond struct {
	op   token.Token
	x, y aff
}

type lloop struct {
	idx string
	n   aff // number of iterations; nil when it is not known
}

// levent: the byte k of dst is a copy of src.
type levent struct {
	dst   *lpath
	k     int
	src   lref
	loops []lloop
	pos   string
	f     *ssa.Function
}

// lstream is a buffer written to, or filled from, a stream.
type lstream struct {
	write bool
	buf   *lpath
	loops []lloop
	pos   string
	stack []*ssa.Function
}

type layouter struct {
	c       *Ctx
	events  []levent
	streams []lstream
	undec   []string
	nsym    int
	roots   map[string]string // allocation site -> root name
	names   map[string]int
	mem     map[string]lval
	loops   []lloop
	stack   []*ssa.Function
	Visited map[*ssa.Function]bool
	dry     int
	inline  func(f *ssa.Function, args []lval) bool
	lens    map[string]aff // length of the slice made for a place
	made    map[string]aff // length of each slice made
	option  map[string]aff // symbols that are either 0 or this
	spans   []lspan
	nexec   int
}

// lspan: the events of a block, in one interpretation of a region.
type lspan struct {
	id         int
	f          *ssa.Function
	loop       *region // nil for the body of the function
	b          *ssa.BasicBlock
	start, end int
}

func newLayouter(c *Ctx) *layouter {
	return &layouter{c: c, roots: map[string]string{}, names: map[string]int{}, mem: map[string]lval{}, Visited: map[*ssa.Function]bool{}, lens: map[string]aff{}, made: map[string]aff{}, option: map[string]aff{}}
}

func (l *layouter) sym(p string) string { l.nsym++; return fmt.Sprintf("%s#%d", p, l.nsym) }

func (l *layouter) rootFor(key string, t types.Type, site bool) string {
	if r := l.roots[key]; r != "" {
		return r
	}
	n := named(t)
	name := ""
	if n != nil {
		name = n.Obj().Name()
	} else {
		name = "new"
	}
	if site {
		l.names[name]++
		if k := l.names[name]; k > 1 || n == nil {
			name = fmt.Sprintf("%s'%d", name, k)
		}
	}
	l.roots[key] = name
	return name
}

func basicSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8, types.Bool:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32, types.Float32:
		return 4
	case types.Uint64, types.Int64, types.Float64, types.Int, types.Uint, types.Uintptr:
		return 8
	}
	return 0
}

func (l *layouter) pathVal(p *lpath) lval {
	t := p.typ
	v := lval{}
	if n := basicSize(t); n > 0 {
		for k := 0; k < n; k++ {
			v.vec = append(v.vec, lref{p: p, k: k})
		}
		if b := t.Underlying().(*types.Basic); b.Info()&types.IsInteger != 0 {
			v.a = affS(p.String())
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		v.slice = p
		v.off = affK(0)
		v.n = affS("len(" + p.String() + ")")
	case *types.Pointer:
		if named(u.Elem()) != nil {
			v.addr = &lpath{root: l.rootFor("type:"+typeStr(u.Elem()), u.Elem(), false), typ: u.Elem()}
		}
	case *types.Struct, *types.Array:
		v.ref = p
	}
	return v
}

// load reads a place.
func (l *layouter) load(p *lpath) lval {
	key := p.String()
	if m, ok := l.mem[key]; ok {
		if len(m.vec) > 0 && l.fromBytes(m.vec) && len(m.a) == 1 {
			for s := range m.a {
				if strings.HasPrefix(s, "r#") {
					return lval{vec: m.vec, a: affS(key)} // what was read, by the name of the place that holds it
				}
			}
		}
		if len(m.vec) > 0 && m.a == nil || len(m.vec) > 0 && l.fromBytes(m.vec) || m.slice != nil || m.addr != nil || m.fn != nil || m.iface != nil {
			return m
		}
		v := l.pathVal(p)
		if m.a != nil {
			v.a = m.a
		}
		if len(m.vec) > 0 && len(m.vec) == len(v.vec) && !savedRoots[strings.SplitN(p.root, "'", 2)[0]] {
			v.vec = m.vec // a copy
		}
		return v
	}
	return l.pathVal(p)
}

// fromBytes: some byte of the value comes from a byte buffer.
func (l *layouter) fromBytes(vec []lref) bool {
	for _, r := range vec {
		if r.p != nil && basicSize(r.p.typ) == 1 && len(r.p.steps) > 0 && r.p.steps[len(r.p.steps)-1].idx != nil {
			return true
		}
	}
	return false
}

// store writes a value to a place.
func (l *layouter) store(p *lpath, v lval, pos string, f *ssa.Function) {
	key := p.String()
	switch u := p.typ.Underlying().(type) {
	case *types.Struct:
		if v.ref != nil {
			for i := 0; i < u.NumFields(); i++ {
				st := lstep{field: u.Field(i).Name()}
				l.store(p.step(st, u.Field(i).Type()), l.load(v.ref.step(st, u.Field(i).Type())), pos, f)
			}
		}
		return
	case *types.Array:
		if v.ref != nil && u.Len() <= 16 {
			for i := int64(0); i < u.Len(); i++ {
				st := lstep{idx: affK(i)}
				l.store(p.step(st, u.Elem()), l.load(v.ref.step(st, u.Elem())), pos, f)
			}
		}
		return
	case *types.Slice:
		if v.slice != nil && v.n != nil && strings.HasPrefix(v.slice.root, "new'") && len(v.slice.steps) == 0 && len(v.off) == 0 && savedRoots[strings.SplitN(canonPlace(p), ".", 2)[0]] {
			// a new slice gets its place
			l.lens[key] = v.n
			l.mem[key] = lval{slice: p, off: v.off, n: v.n}
			return
		}
		l.mem[key] = v
		return
	}
	if n := basicSize(p.typ); n > 0 {
		for k := 0; k < n; k++ {
			r := lref{n: -1}
			if k < len(v.vec) {
				r = v.vec[k]
			}
			if l.dry == 0 {
				l.events = append(l.events, levent{p, k, r, append([]lloop(nil), l.loops...), pos, f})
			}
		}
	}
	l.mem[key] = v
}

type lframe struct {
	f   *ssa.Function
	env map[ssa.Value]lval
	ctx string
	out map[*ssa.BasicBlock]bool
	ret []lval
	got bool
	// results that are nil so far
	retNil []bool
}

func (l *layouter) exec(f *ssa.Function, args, binds []lval, ctx string) []lval {
	for _, g := range l.stack {
		if g == f {
			return nil
		}
	}
	if len(l.stack) > 20 {
		return nil
	}
	l.stack = append(l.stack, f)
	defer func() { l.stack = l.stack[:len(l.stack)-1] }()
	l.Visited[f] = true
	fr := &lframe{f: f, env: map[ssa.Value]lval{}, ctx: ctx}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		}
	}
	r := buildRegion(nil, f.Blocks, f.Blocks[0])
	if r.bad {
		l.undec = append(l.undec, "irreducible control flow in "+fname(f))
		return nil
	}
	l.region(fr, r)
	return fr.ret
}

func (l *layouter) region(fr *lframe, r *region) {
	l.nexec++
	id := l.nexec
	var lp *region
	if r.header != nil {
		lp = r
	}
	for _, b := range r.order {
		n := len(l.events)
		l.regionBlock(fr, r, b)
		if l.dry == 0 && len(l.events) > n {
			l.spans = append(l.spans, lspan{id, fr.f, lp, b, n, len(l.events)})
		}
	}
}

func (l *layouter) regionBlock(fr *lframe, r *region, b *ssa.BasicBlock) {
	{
		if sub := r.sub[b]; sub != nil {
			l.loop(fr, sub)
			return
		}
		if b != r.header {
			l.phis(fr, b)
		}
		l.block(fr, b)
	}
}

// phis joins the values of the incoming edges.
func (l *layouter) phis(fr *lframe, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[phi] = l.joinEdges(fr, phi, nil)
	}
}

func (l *layouter) joinEdges(fr *lframe, phi *ssa.Phi, only func(p *ssa.BasicBlock) bool) lval {
	var r lval
	first := true
	var alts []aff
	for i, e := range phi.Edges {
		if only != nil && !only(phi.Block().Preds[i]) {
			continue
		}
		if k, ok := e.(*ssa.Const); ok && k.Value == nil && len(phi.Edges) > 1 {
			continue // nothing is transferred with a nil slice
		}
		v := l.eval(fr, e)
		alts = append(alts, v.a)
		if first {
			r = v
			first = false
		} else if lstr(r) != lstr(v) {
			r = l.unknown(phi.Type())
		}
	}
	if len(r.a) == 1 && len(alts) == 2 && alts[0] != nil && alts[1] != nil {
		for s := range r.a {
			if strings.HasPrefix(s, "u#") {
				switch {
				case len(alts[0]) == 0:
					l.option[s] = alts[1]
				case len(alts[1]) == 0:
					l.option[s] = alts[0]
				}
			}
		}
	}
	return r
}

// unknown is the value of a type about which nothing is known.
func (l *layouter) unknown(t types.Type) lval {
	v := lval{}
	if p, ok := t.Underlying().(*types.Pointer); ok && named(p.Elem()) != nil {
		v.addr = &lpath{root: l.rootFor("type:"+typeStr(p.Elem()), p.Elem(), false), typ: p.Elem()}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		v.a = affS(l.sym("u"))
	}
	return v
}

func lstr(v lval) string {
	s := ""
	if v.a != nil {
		s += "a" + v.a.String()
	}
	for _, r := range v.vec {
		s += "," + rstr(r)
	}
	if v.addr != nil {
		s += "&" + v.addr.String()
	}
	if v.slice != nil {
		s += "s" + v.slice.String() + "[" + v.off.String() + ":" + fmt.Sprint(v.n) + "]"
	}
	if v.ref != nil {
		s += "*" + v.ref.String()
	}
	if v.fn != nil {
		s += v.fn.String()
	}
	if v.iface != nil {
		s += "i" + lstr(*v.iface)
	}
	for _, t := range v.tup {
		s += "(" + lstr(t) + ")"
	}
	return s
}

func rstr(r lref) string {
	if r.p != nil {
		return fmt.Sprintf("%s#%d", r.p, r.k)
	}
	return fmt.Sprint(r.n)
}

// loop summarizes a loop.
func (l *layouter) loop(fr *lframe, lp *region) {
	h := lp.header
	inLoop := func(b *ssa.BasicBlock) bool { return lp.blocks[b] }
	idx := l.sym("i")
	type slotv struct {
		phi  *ssa.Phi
		cell string
		init lval
		sym  string
		d    aff // change per iteration, nil when it is not constant
		ok   bool
	}
	var slots []*slotv
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init := l.joinEdges(fr, phi, func(p *ssa.BasicBlock) bool { return !inLoop(p) })
		slots = append(slots, &slotv{phi: phi, init: init})
	}
	var cells []string
	for k, v := range l.mem {
		if v.a != nil || v.slice != nil {
			cells = append(cells, k)
		}
	}
	sort.Strings(cells)
	for _, k := range cells {
		slots = append(slots, &slotv{cell: k, init: l.mem[k]})
	}
	get := func(s *slotv) lval {
		if s.phi != nil {
			return l.joinEdges(fr, s.phi, inLoop)
		}
		return l.mem[s.cell]
	}
	put := func(s *slotv, v lval) {
		if s.phi != nil {
			fr.env[s.phi] = v
		} else {
			l.mem[s.cell] = v
		}
	}
	// the moving part of a value
	moving := func(v lval) (aff, bool) {
		switch {
		case v.slice != nil && v.off != nil:
			return v.off, true
		case v.a != nil:
			return v.a, true
		}
		return nil, false
	}
	withMoving := func(v lval, a aff, t types.Type) lval {
		if v.slice != nil {
			w := lval{slice: v.slice, off: a}
			if v.n != nil {
				w.n = v.n.add(v.off, 1).add(a, -1)
			}
			return w
		}
		return lval{a: a}
	}
	// first pass: how the values move
	saved := map[string]lval{}
	for k, v := range l.mem {
		saved[k] = v
	}
	l.dry++
	for _, s := range slots {
		s.sym = l.sym("v")
		if _, ok := moving(s.init); ok {
			put(s, withMoving(s.init, affS(s.sym), nil))
		} else {
			put(s, s.init)
		}
	}
	saveLoops := l.loops
	l.loops = append(append([]lloop(nil), l.loops...), lloop{idx, nil})
	l.body(fr, lp)
	for _, s := range slots {
		v := get(s)
		if m, ok := moving(s.init); ok {
			_ = m
			m2, ok2 := moving(v)
			if ok2 {
				d := m2.add(affS(s.sym), -1)
				if d.konst() && (v.slice == nil || s.init.slice != nil && v.slice.String() == s.init.slice.String()) {
					s.d, s.ok = d, true
				}
			}
		} else if lstr(v) == lstr(s.init) {
			s.ok = true
		}
	}
	l.dry--
	l.mem = saved
	at := func(k aff) {
		for _, s := range slots {
			m, mov := moving(s.init)
			switch {
			case s.ok && mov:
				if s.d.k() == 0 {
					put(s, s.init)
				} else {
					a := m
					for sy, n := range k {
						a = a.add(aff{sy: n}, s.d.k())
					}
					put(s, withMoving(s.init, a, nil))
				}
			case s.ok:
				put(s, s.init)
			case s.phi != nil:
				put(s, l.unknown(s.phi.Type()))
			default:
				v := l.mem[s.cell]
				if v.a != nil {
					l.mem[s.cell] = lval{a: affS(l.sym("u"))}
				} else {
					delete(l.mem, s.cell)
				}
			}
		}
	}
	// number of iterations
	at(affS(idx))
	l.dry++
	l.block(fr, h)
	var n aff
	if br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		v := l.eval(fr, br.Cond)
		stay := inLoop(h.Succs[0])
		if v.cond != nil && inLoop(h.Succs[0]) != inLoop(h.Succs[1]) {
			op, x, y := v.cond.op, v.cond.x, v.cond.y
			if !stay {
				op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
			}
			switch op {
			case token.GTR, token.GEQ:
				x, y = y, x
			}
			d := y.add(x, -1) // how much remains
			switch op {
			case token.LSS, token.GTR:
				if d[idx] == -1 {
					n = d.add(affS(idx), 1)
				}
			case token.LEQ, token.GEQ:
				if d[idx] == -1 {
					n = d.add(affS(idx), 1).add(affK(1), 1)
				}
			case token.NEQ:
				if d[idx] == -1 {
					n = d.add(affS(idx), 1)
				} else if d[idx] == 1 {
					n = aff{}.add(d.add(affS(idx), -1), -1)
				}
			}
		}
	}
	l.dry--
	// second pass: what it does
	l.mem = map[string]lval{}
	for k, v := range saved {
		l.mem[k] = v
	}
	at(affS(idx))
	l.loops = append(append([]lloop(nil), saveLoops...), lloop{idx, n})
	l.body(fr, lp)
	l.loops = saveLoops
	// after it
	for k, v := range saved {
		if _, ok := l.mem[k]; !ok {
			l.mem[k] = v
		}
	}
	if n != nil {
		at(n)
	} else {
		at(affS(l.sym("n")))
	}
	l.dry++
	l.block(fr, h)
	l.dry--
}

func (l *layouter) body(fr *lframe, lp *region) { l.region(fr, lp) }

func (l *layouter) eval(fr *lframe, v ssa.Value) lval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && (x.Value.Kind() == constant.Int) {
			if n, ok := constInt(x.Value); ok {
				r := lval{a: affK(n)}
				if n == 0 {
					r.a = aff{}
				}
				for k := 0; k < basicSize(x.Type()); k++ {
					r.vec = append(r.vec, lref{n: int(uint8(n >> (8 * k)))})
				}
				return r
			}
		}
		return lval{}
	case *ssa.Function:
		return lval{fn: x}
	case *ssa.Global:
		return lval{addr: &lpath{root: "global:" + x.String(), typ: deref(x.Type())}}
	}
	return fr.env[v]
}

func (l *layouter) block(fr *lframe, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		l.instr(fr, in)
	}
}

func (l *layouter) instr(fr *lframe, in ssa.Instruction) {
	ev := func(v ssa.Value) lval { return l.eval(fr, v) }
	pos := l.c.instrPos(in)
	switch x := in.(type) {
	case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Panic, *ssa.RunDefers, *ssa.DebugRef:
	case *ssa.Return:
		var rs []lval
		for _, r := range x.Results {
			rs = append(rs, ev(r))
		}
		if !fr.got {
			fr.ret, fr.got = rs, true
			for i := range rs {
				k, ok := x.Results[i].(*ssa.Const)
				fr.retNil = append(fr.retNil, ok && k.Value == nil)
			}
		} else {
			for i := range rs {
				if k, ok := x.Results[i].(*ssa.Const); ok && k.Value == nil {
					continue // nothing is returned
				}
				if fr.retNil[i] {
					fr.ret[i], fr.retNil[i] = rs[i], false
				}
				if lstr(rs[i]) != lstr(fr.ret[i]) {
					fr.ret[i] = l.unknown(x.Results[i].Type())
				}
			}
		}
	case *ssa.Alloc:
		t := deref(x.Type())
		key := fr.ctx + "/" + fmt.Sprintf("%s:%p", fname(fr.f), x)
		fr.env[x] = lval{addr: &lpath{root: l.rootFor(key, t, true), typ: t}}
	case *ssa.MakeSlice:
		key := fr.ctx + "/" + fmt.Sprintf("%s:%p", fname(fr.f), x)
		t := x.Type()
		n := ev(x.Len).a
		root := l.rootFor(key, types.NewSlice(types.Typ[types.Uint8]), true)
		l.made[root] = n
		fr.env[x] = lval{slice: &lpath{root: root, typ: t}, off: aff{}, n: n}
	case *ssa.FieldAddr:
		b := ev(x.X)
		if b.addr != nil {
			st := b.addr.typ.Underlying().(*types.Struct)
			fr.env[x] = lval{addr: b.addr.step(lstep{field: st.Field(x.Field).Name()}, st.Field(x.Field).Type())}
		} else {
			fr.env[x] = l.unknown(x.Type())
		}
	case *ssa.Field:
		b := ev(x.X)
		if b.ref != nil {
			st := b.ref.typ.Underlying().(*types.Struct)
			fr.env[x] = l.load(b.ref.step(lstep{field: st.Field(x.Field).Name()}, st.Field(x.Field).Type()))
		} else {
			fr.env[x] = l.unknown(x.Type())
		}
	case *ssa.IndexAddr:
		b, i := ev(x.X), ev(x.Index)
		switch {
		case b.addr != nil && i.a != nil:
			if at, ok := b.addr.typ.Underlying().(*types.Array); ok {
				fr.env[x] = lval{addr: b.addr.step(lstep{idx: i.a}, at.Elem())}
				return
			}
			fr.env[x] = lval{}
		case b.slice != nil && b.off != nil && i.a != nil:
			fr.env[x] = lval{addr: b.slice.step(lstep{idx: b.off.add(i.a, 1)}, deref(x.Type()))}
		default:
			fr.env[x] = l.unknown(x.Type())
		}
	case *ssa.Index:
		b, i := ev(x.X), ev(x.Index)
		if b.ref != nil && i.a != nil {
			fr.env[x] = l.load(b.ref.step(lstep{idx: i.a}, x.Type()))
		} else {
			fr.env[x] = l.unknown(x.Type())
		}
	case *ssa.Slice:
		b := ev(x.X)
		lo := aff{}
		if x.Low != nil {
			lo = ev(x.Low).a
		}
		var hi aff
		if x.High != nil {
			hi = ev(x.High).a
		}
		v := lval{}
		switch {
		case lo == nil:
		case b.slice != nil && b.off != nil:
			v = lval{slice: b.slice, off: b.off.add(lo, 1)}
			if hi == nil {
				hi = b.n
			}
			if hi != nil {
				v.n = hi.add(lo, -1)
			}
		case b.addr != nil:
			if at, ok := b.addr.typ.Underlying().(*types.Array); ok {
				v = lval{slice: b.addr, off: lo}
				if hi == nil {
					hi = affK(at.Len())
				}
				v.n = hi.add(lo, -1)
			}
		}
		fr.env[x] = v
	case *ssa.UnOp:
		b := ev(x.X)
		switch x.Op {
		case token.MUL:
			if b.addr != nil {
				if len(b.addr.steps) == 0 && strings.HasPrefix(b.addr.root, "global:") {
					fr.env[x] = lval{ref: b.addr}
					if strings.HasSuffix(b.addr.root, "LittleEndian") || strings.HasSuffix(b.addr.root, "BigEndian") {
						return
					}
				}
				fr.env[x] = l.load(b.addr)
				return
			}
			fr.env[x] = l.unknown(x.Type())
		case token.SUB:
			if b.a != nil {
				fr.env[x] = lval{a: aff{}.add(b.a, -1)}
				return
			}
			fr.env[x] = l.unknown(x.Type())
		default:
			fr.env[x] = l.unknown(x.Type())
		}
	case *ssa.BinOp:
		fr.env[x] = l.binop(x, ev(x.X), ev(x.Y))
	case *ssa.Convert:
		fr.env[x] = l.convert(ev(x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		fr.env[x] = ev(x.X)
	case *ssa.MakeInterface:
		v := ev(x.X)
		fr.env[x] = lval{iface: &v, addr: v.addr}
	case *ssa.ChangeInterface:
		fr.env[x] = ev(x.X)
	case *ssa.TypeAssert:
		fr.env[x] = lval{}
	case *ssa.Extract:
		t := ev(x.Tuple)
		if x.Index < len(t.tup) {
			fr.env[x] = t.tup[x.Index]
		} else {
			fr.env[x] = l.unknown(x.Type())
		}
	case *ssa.MakeClosure:
		v := lval{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.binds = append(v.binds, ev(b))
		}
		fr.env[x] = v
	case *ssa.Store:
		b := ev(x.Addr)
		if b.addr != nil {
			l.store(b.addr, ev(x.Val), pos, fr.f)
		}
	case *ssa.Call:
		rs := l.call(fr, x)
		if len(rs) == 1 {
			fr.env[x] = rs[0]
		} else {
			fr.env[x] = lval{tup: rs}
		}
	case ssa.Value:
		fr.env[x] = lval{}
	}
}

func (l *layouter) binop(x *ssa.BinOp, a, b lval) lval {
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		if a.a != nil && b.a != nil {
			return lval{cond: &lcond{x.Op, a.a, b.a}}
		}
		return lval{}
	case token.ADD, token.SUB:
		if a.a != nil && b.a != nil {
			c := int64(1)
			if x.Op == token.SUB {
				c = -1
			}
			return lval{a: a.a.add(b.a, c)}
		}
	case token.MUL:
		if a.a != nil && b.a != nil {
			if a.a.konst() {
				return lval{a: aff{}.add(b.a, a.a.k())}
			}
			if b.a.konst() {
				return lval{a: aff{}.add(a.a, b.a.k())}
			}
		}
	case token.SHR, token.SHL:
		if b.a != nil && b.a.konst() && b.a.k()%8 == 0 && len(a.vec) > 0 {
			n := int(b.a.k() / 8)
			v := lval{}
			for k := range a.vec {
				j := k + n
				if x.Op == token.SHL {
					j = k - n
				}
				if j >= 0 && j < len(a.vec) {
					v.vec = append(v.vec, a.vec[j])
				} else {
					v.vec = append(v.vec, lref{n: 0})
				}
			}
			return v
		}
		if x.Op == token.SHL && b.a != nil && b.a.konst() && a.a != nil && b.a.k() < 31 {
			return lval{a: aff{}.add(a.a, 1<<uint(b.a.k()))}
		}
	case token.OR, token.XOR:
		if len(a.vec) == len(b.vec) && len(a.vec) > 0 {
			v := lval{}
			for k := range a.vec {
				switch {
				case a.vec[k].p == nil && a.vec[k].n == 0:
					v.vec = append(v.vec, b.vec[k])
				case b.vec[k].p == nil && b.vec[k].n == 0:
					v.vec = append(v.vec, a.vec[k])
				default:
					v.vec = append(v.vec, lref{n: -1})
				}
			}
			return v
		}
	case token.AND:
		if len(a.vec) == len(b.vec) && len(a.vec) > 0 {
			v := lval{}
			for k := range a.vec {
				p, q := a.vec[k], b.vec[k]
				if p.p == nil && p.n >= 0 {
					p, q = q, p
				}
				switch {
				case q.p == nil && q.n == 0:
					v.vec = append(v.vec, lref{n: 0})
				case q.p == nil && q.n == 255:
					v.vec = append(v.vec, p)
				default:
					v.vec = append(v.vec, lref{n: -1})
				}
			}
			return v
		}
	}
	return l.unknown(x.Type())
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (l *layouter) convert(v lval, from, to types.Type) lval {
	if isInt(from) && isInt(to) {
		n := basicSize(to)
		r := lval{a: v.a}
		for k := 0; k < n && len(v.vec) > 0; k++ {
			switch {
			case k < len(v.vec):
				r.vec = append(r.vec, v.vec[k])
			case isSigned(from):
				r.vec = append(r.vec, lref{n: -1})
			default:
				r.vec = append(r.vec, lref{n: 0})
			}
		}
		return r
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return l.unknown(to)
}

func (l *layouter) call(fr *lframe, x *ssa.Call) []lval {
	c := x.Common()
	pos := l.c.instrPos(x)
	var args []lval
	if c.IsInvoke() {
		args = append(args, l.eval(fr, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, l.eval(fr, a))
	}
	var res []lval
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		res = append(res, l.unknown(rs.At(i).Type()))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			if args[0].slice != nil && args[0].n != nil {
				return []lval{{a: args[0].n}}
			}
			if at, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
				return []lval{{a: affK(at.Len())}}
			}
		case "copy":
			d, s := args[0], args[1]
			if d.slice != nil && s.slice != nil && d.off != nil && s.off != nil && l.dry == 0 {
				et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				n := s.n
				if d.n != nil && (n == nil || !strings.Contains(d.n.String(), "len(") || d.n.konst()) {
					n = d.n
				}
				if d.n != nil && s.n != nil && s.n.konst() {
					n = s.n
				}
				if len(s.off) == 0 && len(d.off) > 0 && s.n != nil {
					n = s.n // a section into a buffer that has room for it
				}
				if len(d.off) == 0 && len(s.off) > 0 && d.n != nil {
					n = d.n
				}
				idx := l.sym("i")
				loops := append(append([]lloop(nil), l.loops...), lloop{idx, n})
				for k := 0; k < basicSize(et); k++ {
					l.events = append(l.events, levent{d.slice.step(lstep{idx: d.off.add(affS(idx), 1)}, et), k,
						lref{p: s.slice.step(lstep{idx: s.off.add(affS(idx), 1)}, et), k: k}, loops, pos, fr.f})
				}
			}
		}
		return res
	}
	callee := c.StaticCallee()
	var binds []lval
	if callee == nil && !c.IsInvoke() {
		v := l.eval(fr, c.Value)
		callee, binds = v.fn, v.binds
	} else if callee != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = l.eval(fr, mc).binds
		}
	}
	if c.IsInvoke() && args[0].iface != nil {
		if m := l.c.prog.LookupMethod(c.Value.Type(), c.Method.Pkg(), c.Method.Name()); m != nil {
			callee = m
		}
	}
	name := calleeName(callee, c)
	// byte orders
	for _, o := range []string{"littleEndian", "bigEndian"} {
		pre := "(encoding/binary." + o + ")."
		if !strings.HasPrefix(name, pre) {
			continue
		}
		m := strings.TrimPrefix(name, pre)
		put := strings.HasPrefix(m, "Put")
		w := map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8}[strings.TrimPrefix(m, "Put")]
		b := args[1]
		if w == 0 {
			continue
		}
		if b.slice == nil || b.off == nil {
			if put && l.dry == 0 {
				l.undec = append(l.undec, fmt.Sprintf("%s: write at an unknown offset", pos))
			}
			return res
		}
		v := lval{}
		for k := 0; k < w; k++ {
			j := k
			if o == "bigEndian" {
				j = w - 1 - k
			}
			p := b.slice.step(lstep{idx: b.off.add(affK(int64(j)), 1)}, types.Typ[types.Uint8])
			if put {
				r := lref{n: -1}
				if k < len(args[2].vec) {
					r = args[2].vec[k]
				}
				l.store(p, lval{vec: []lref{r}}, pos, fr.f)
			} else {
				e := l.load(p)
				if len(e.vec) == 1 {
					v.vec = append(v.vec, e.vec[0])
				} else {
					v.vec = append(v.vec, lref{n: -1})
				}
			}
		}
		if put {
			return nil
		}
		v.a = affS(l.sym("r"))
		return []lval{v}
	}
	switch name {
	case "math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits":
		return []lval{{vec: args[0].vec}}
	case "encoding/binary.Read":
		l.structIO(args[2], pos, fr.f, false, lstr(args[1]))
		return res
	case "encoding/binary.Write":
		l.structIO(args[2], pos, fr.f, true, lstr(args[1]))
		return res
	case "io.ReadFull":
		l.stream(false, args[1], pos)
		return res
	}
	if c.IsInvoke() && callee == nil && (c.Method.Name() == "Write" || c.Method.Name() == "Read") && len(args) == 2 {
		l.stream(c.Method.Name() == "Write", args[1], pos)
		return res
	}
	if callee != nil && callee.Blocks != nil && l.c.inModule(callee) && l.inline(callee, args) {
		r := l.exec(callee, args, binds, fr.ctx+"/"+fmt.Sprintf("%p", x))
		if len(r) == rs.Len() {
			return r
		}
	}
	return res
}

func (l *layouter) stream(write bool, b lval, pos string) {
	if l.dry > 0 {
		return
	}
	if b.slice == nil || b.off == nil || !b.off.eq(aff{}) {
		l.undec = append(l.undec, fmt.Sprintf("%s: the buffer of a stream operation is not known", pos))
		return
	}
	l.streams = append(l.streams, lstream{write, b.slice, append([]lloop(nil), l.loops...), pos, append([]*ssa.Function(nil), l.stack...)})
}

// structIO: binary.Read and binary.Write of a structure, field by field
// without padding.
func (l *layouter) structIO(v lval, pos string, f *ssa.Function, write bool, order string) {
	if v.iface != nil {
		v = *v.iface
	}
	p := v.addr
	if p == nil {
		p = v.ref
	}
	if p == nil {
		l.undec = append(l.undec, fmt.Sprintf("%s: the operand of a stream operation is not known", pos))
		return
	}
	l.names["stream"]++
	buf := &lpath{root: fmt.Sprintf("stream'%d", l.names["stream"]), typ: types.NewSlice(types.Typ[types.Uint8])}
	off := int64(0)
	for _, lf := range leaves(p) {
		w := basicSize(lf.typ)
		if w == 0 {
			l.undec = append(l.undec, fmt.Sprintf("%s: %s has no fixed size", pos, lf))
			return
		}
		for k := 0; k < w; k++ {
			j := int64(k)
			if !strings.Contains(order, "LittleEndian") {
				j = int64(w - 1 - k)
			}
			b := buf.step(lstep{idx: affK(off + j)}, types.Typ[types.Uint8])
			if off+j == 0 {
				b = buf.step(lstep{idx: aff{}}, types.Typ[types.Uint8])
			}
			if l.dry == 0 {
				e := levent{lf, k, lref{p: b}, append([]lloop(nil), l.loops...), pos, f}
				if write {
					e = levent{b, 0, lref{p: lf, k: k}, append([]lloop(nil), l.loops...), pos, f}
				}
				l.events = append(l.events, e)
			}
		}
		if !write {
			delete(l.mem, lf.String())
		}
		off += int64(w)
	}
	l.stream(write, lval{slice: buf, off: aff{}}, pos)
}

// leaves are the scalars of an aggregate.
func leaves(p *lpath) []*lpath {
	switch u := p.typ.Underlying().(type) {
	case *types.Struct:
		var r []*lpath
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leaves(p.step(lstep{field: u.Field(i).Name()}, u.Field(i).Type()))...)
		}
		return r
	case *types.Array:
		var r []*lpath
		for i := int64(0); i < u.Len(); i++ {
			idx := affK(i)
			if i == 0 {
				idx = aff{}
			}
			r = append(r, leaves(p.step(lstep{idx: idx}, u.Elem()))...)
		}
		return r
	}
	return []*lpath{p}
}
