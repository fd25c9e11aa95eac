package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q03",
		Rule: "every function of detour that fills a slice parameter, a slice of a result record or a batch buffer of its own: at each index or slice operation on that buffer the path conditions imply that the position is within the length of the buffer (callees that need their caller for it are analysed at their call sites). A function without status may rely on the capacity it is told, then every caller is shown to tell one the buffer has. The number of results is shown to be at most the capacity. " +
			"A path of a function with a status on which it was found that there is no room for the next result reports BufferTooSmall or failure.",
		Floor: []Floor{{"functions filling buffers", 12}, {"positions", 22}, {"capacities told", 7}, {"returns after no room was left", 10}, {"callbacks", 3}, {"callers", 5}, {"returns of callbacks", 1}},
		Assum: []string{"the capacity told to an exported function without status is at most the length of the buffer", "Poly.VertCount is at most the length of Poly.Verts", "the result slices of FindStraightPath have the same length, as documented"},
		Run:   runQ03,
	})
}

// A bufferUse is a function that fills buffers.
type bufferUse struct {
	f      *ssa.Function
	params map[int]bool        // slice parameters filled
	fields map[int]string      // parameters that are records with a slice that is filled
	local  map[ssa.Value]bool  // buffers it makes and fills with a varying position
	state  int                 // 0 new, 1 in progress, 2 done
	inline bool                // only shown at the call sites
	caps   map[string]capacity // contract, by buffer
	posts  map[string]bool     // results at most the capacity
}

// capacity: factor times a parameter (or, for a record, a field) is at most the length of the buffer.
type capacity struct {
	param  int
	factor int64
}

// captured follows a variable of a closure to that of the function which makes it.
func captured(v ssa.Value) ssa.Value {
	for {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			return v
		}
		f := fv.Parent()
		var bound ssa.Value
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f {
					if bound != nil {
						return v
					}
					for i, x := range f.FreeVars {
						if x == fv {
							bound = m.Bindings[i]
						}
					}
				}
			}
		}
		if bound == nil {
			return v
		}
		v = bound
	}
}

// origin follows v to the slice it was cut from.
func origin(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			switch y := captured(x.X).(type) {
			case *ssa.Alloc:
				// a variable kept in memory: the parameter stored in it
				var only ssa.Value
				n := 0
				var stores func(a ssa.Value)
				stores = func(a ssa.Value) {
					for _, r := range *a.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr == a {
								only = r.Val
								n++
							}
						case *ssa.MakeClosure:
							for i, b := range r.Bindings {
								if b == a {
									stores(r.Fn.(*ssa.Function).FreeVars[i])
								}
							}
						}
					}
				}
				stores(y)
				if n != 1 {
					return v
				}
				v = only
			default:
				return v
			}
		default:
			return v
		}
	}
}

// written tells whether memory at address a is written by in-place operations.
func addrWritten(a ssa.Value, depth int) bool {
	if a.Referrers() == nil || depth > 4 {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				return true
			}
		case *ssa.FieldAddr:
			if addrWritten(x, depth+1) {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == a && addrWritten(x, depth+1) {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, ok := x.Type().Underlying().(*types.Slice); ok && vecWritten(x) {
					return true
				}
			}
		}
	}
	return false
}

// vecWritten: v is the destination of a vector operation.
func vecWritten(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok || len(c.Call.Args) == 0 || c.Call.Args[0] != v {
			continue
		}
		if g := c.Call.StaticCallee(); g != nil {
			switch g.Name() {
			case "Assign", "Normalize", "SetX", "SetY", "SetZ", "SetXYZ":
				return true
			}
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
			return true
		}
	}
	return false
}

func (c *Ctx) bufferUses() map[*ssa.Function]*bufferUse {
	uses := map[*ssa.Function]*bufferUse{}
	get := func(f *ssa.Function) *bufferUse {
		if uses[f] == nil {
			uses[f] = &bufferUse{f: f, params: map[int]bool{}, fields: map[int]string{}, local: map[ssa.Value]bool{}, caps: map[string]capacity{}, posts: map[string]bool{}}
		}
		return uses[f]
	}
	paramIdx := func(f *ssa.Function, v ssa.Value) int {
		for i, p := range f.Params {
			if p == v {
				return i
			}
		}
		return -1
	}
	fill := func(f *ssa.Function, base ssa.Value) {
		o := origin(base)
		for f.Parent() != nil {
			f = f.Parent()
		}
		if i := paramIdx(f, o); i >= 0 {
			if _, ok := o.Type().Underlying().(*types.Slice); ok && tellsCount(f) {
				get(f).params[i] = true
			}
			return
		}
		if u, ok := o.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				i := paramIdx(f, origin(fa.X))
				if i >= 0 && (f.Signature.Recv() == nil || i > 0 || c.isCollector(f)) {
					if st, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok && hasIntField(st) && !isNamed(deref(fa.X.Type()), "detour", "MeshTile") {
						get(f).fields[i] = st.Field(fa.Field).Name()
					}
				}
			}
			return
		}
		if s, ok := o.Type().Underlying().(*types.Slice); ok {
			if m, ok := o.(*ssa.MakeSlice); ok && isPolyRef(s.Elem()) || ok && isPolyPtr(s.Elem()) {
				get(f).local[m] = true
			}
			if a, ok := o.(*ssa.Alloc); ok && (isPolyRef(s.Elem()) || isPolyPtr(s.Elem())) {
				get(f).local[a] = true
			}
		} else if p, ok := o.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && isPolyRef(a.Elem()) {
				get(f).local[o] = true
			}
		}
	}
	funcs := c.libFuncs()
	for _, f := range funcs {
		if relPkg(funcPkg(f)) != "detour" || isSerial(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if _, ok := x.Index.(*ssa.Const); !ok && addrWritten(x, 0) {
						fill(f, x.X)
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
						if s, ok := x.Call.Args[0].(*ssa.Slice); ok && s.Low != nil {
							if _, ok := s.Low.(*ssa.Const); !ok {
								fill(f, s)
							}
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						// a parameter put in a record that is handed to a function filling it
						fa, ok := s.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						j := paramIdx(f, origin(s.Val))
						if j < 0 || fa.X.Referrers() == nil || uses[f] != nil && uses[f].params[j] {
							continue
						}
						for _, r := range *fa.X.Referrers() {
							call, ok := r.(ssa.CallInstruction)
							if !ok {
								continue
							}
							g := call.Common().StaticCallee()
							if g == nil || uses[g] == nil {
								continue
							}
							for i, name := range uses[g].fields {
								if call.Common().Args[i] == fa.X && deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == name {
									get(f).params[j] = true
									changed = true
								}
							}
						}
						continue
					}
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := call.Common().StaticCallee()
					if g == nil || uses[g] == nil || len(uses[g].params) == 0 {
						continue
					}
					for i := range uses[g].params {
						if j := paramIdx(f, origin(call.Common().Args[i])); j >= 0 && !get(f).params[j] {
							get(f).params[j] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return uses
}

func isPolyPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), "detour", "Poly")
}

// isSerial: the encoding of tiles has its own properties.
func isSerial(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	return f.Name() == "serialize" || f.Name() == "unserialize"
}

// tellsCount: a result of f is a number, a status or a flag.
func tellsCount(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if t := rs.At(i).Type(); isIntType(t) || isBoolType(t) || isStatus(t) {
			return true
		}
	}
	return false
}

func hasIntField(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		if isIntType(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// isCollector: f implements the callback of polygon queries.
func (c *Ctx) isCollector(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	for _, m := range c.ssaPkgs["detour"].Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		it, ok := t.Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() != 1 || it.Method(0).Name() != f.Name() {
			continue
		}
		if types.Implements(f.Signature.Recv().Type(), it) {
			return true
		}
	}
	return false
}

// A collector is a record with a slice filled by the callback of polygon queries. Its
// invariant: 0 <= num <= max <= the length of the slice.
type collector struct {
	typ           *types.Named
	process       *ssa.Function
	buf, max, num int
	over          int
}

func (b *bufs) collectorOf(t types.Type) *collector {
	n, ok := deref(t).(*types.Named)
	if !ok {
		return nil
	}
	for _, c := range b.colls {
		if c.typ == n {
			return c
		}
	}
	return nil
}

// collects: the collector the interface value v is, if it was made in this function.
func (b *bufs) collects(v ssa.Value) (*collector, ssa.Value) {
	if m, ok := v.(*ssa.MakeInterface); ok {
		if c := b.collectorOf(m.X.Type()); c != nil {
			return c, m.X
		}
	}
	return nil, nil
}

// invariant assumes the invariant of the collector p, or tells whether it holds.
func (co *collector) invariant(fl *Flow, st *State, p *Term, assume bool) (bool, string) {
	get := func(i int) *Term { return fl.load(st, fl.fieldAddr(p, i)) }
	zero, num, max, n := fl.tt.konst(0), get(co.num), get(co.max), fl.tt.lenOf(get(co.buf))
	if assume {
		st.facts.assumeLe(zero, num, 0)
		st.facts.assumeLe(num, max, 0)
		st.facts.assumeLe(max, n, 0)
		return true, ""
	}
	ok := st.facts.le(zero, num, 0) && st.facts.le(num, max, 0) && st.facts.le(max, n, 0)
	return ok, fmt.Sprintf("0 <= %s <= %s <= %s", num, max, n)
}

// decideCollector finds the roles of the fields for which the callback keeps the invariant.
func (b *bufs) decideCollector(f *ssa.Function) {
	u := b.uses[f]
	u.state = 2
	j := -1
	for i := range u.fields {
		j = i
	}
	if j != 0 {
		return
	}
	named, ok := deref(f.Params[0].Type()).(*types.Named)
	if !ok {
		return
	}
	s := named.Underlying().(*types.Struct)
	co := &collector{typ: named, process: f, buf: -1, over: -1}
	var ints []int
	for i := 0; i < s.NumFields(); i++ {
		switch t := s.Field(i).Type(); {
		case s.Field(i).Name() == u.fields[0]:
			co.buf = i
		case isIntType(t):
			ints = append(ints, i)
		case isBoolType(t):
			if co.over >= 0 {
				b.c.Undecided("collector", "", "%s has several flags: which one tells of the overflow", named.Obj().Name())
				return
			}
			co.over = i
		}
	}
	if co.over < 0 || len(ints) < 2 {
		b.c.Undecided("collector", "", "%s has no capacity, count and overflow flag", named.Obj().Name())
		return
	}
	var best *Flow
	for _, m := range ints {
		for _, n := range ints {
			if m == n {
				continue
			}
			co.max, co.num = m, n
			fl := b.runCollector(co, false)
			if len(fl.found) == 0 {
				best = fl
				break
			}
			if best == nil || len(fl.found) < len(best.found) {
				best = fl
			}
		}
		if best != nil && len(best.found) == 0 {
			break
		}
	}
	if len(best.found) == 0 {
		best = b.runCollector(co, true)
	}
	best.Finish(b.c, fname(f))
	b.c.Count("functions filling buffers", 1)
	b.colls = append(b.colls, co)
}

func (b *bufs) runCollector(co *collector, report bool) *Flow {
	c, f := b.c, co.process
	var entry struct{ buf, max, count, over *Term }
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return c.simpleFn(g) }
	within := func(fl *Flow, st *State, in ssa.Instruction, what string, ok bool, a, n *Term) {
		if report {
			c.Distinct("positions", c.instrPos(in)+what)
		}
		if !ok {
			fl.Report("bound:"+fname(in.Parent())+":"+fname(f), fl.instrPos(in), "%s: the %s %s is not known to be within the %s elements; %s", fname(f), what, a, n, fl.Path(st))
		}
	}
	mine := func(st *State, base *Term) bool {
		return root(base) == entry.buf || isPolyRefSlice(f, root(base))
	}
	cl.Index = func(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term) {
		if mine(st, base) {
			within(fl, st, in, "position", st.facts.le(idx, length, 1) && st.facts.le(fl.tt.konst(0), idx, 0), idx, length)
		}
	}
	cl.Slice = func(fl *Flow, st *State, in *ssa.Slice, base, lo, hi *Term) {
		if !mine(st, base) {
			return
		}
		n := fl.lenAt(base, in.X.Type())
		within(fl, st, in, "start", st.facts.le(lo, n, 0) && st.facts.le(fl.tt.konst(0), lo, 0), lo, n)
		within(fl, st, in, "end", st.facts.le(hi, n, 0) && st.facts.le(fl.tt.konst(0), hi, 0), hi, n)
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		p := fl.param(st, f.Params[0])
		get := func(i int) *Term { return fl.load(st, fl.fieldAddr(p, i)) }
		if report {
			c.Distinct("returns of callbacks", fl.instrPos(in))
		}
		if ok, s := co.invariant(fl, st, p, false); !ok {
			fl.Report("invariant:"+fname(f), fl.instrPos(in), "%s may leave %s not holding: it counts more polygons than there is room for; %s", fname(f), s, fl.Path(st))
		}
		if get(co.buf) != entry.buf || !st.facts.le(get(co.max), entry.max, 0) || !st.facts.le(entry.max, get(co.max), 0) {
			fl.Report("buffer:"+fname(f), fl.instrPos(in), "%s changes the buffer or its capacity; %s", fname(f), fl.Path(st))
		}
		over := get(co.over)
		set, known := st.facts.cond(over)
		if !(known && set) && over != entry.over {
			fl.Report("overflow:"+fname(f), fl.instrPos(in), "%s may set the overflow flag to %s: an overflow reported by an earlier call is lost; %s", fname(f), over, fl.Path(st))
		}
		// all taken, unless the flag is set
		if !(known && set) {
			d := linOf(get(co.num)).add(linOf(entry.count), -1)
			if st.gt["num"] != nil {
				d = d.add(linOf(st.gt["num"]), -1)
			}
			if !fl.stUpperZero(st, d) {
				fl.Report("lost:"+fname(f), fl.instrPos(in), "%s may take another number than the %s polygons passed without setting the overflow flag; %s", fname(f), entry.count, fl.Path(st))
			}
		}
	}
	fl := newFlow(c.Prog, cl)
	fl.Run(f, func(st *State, params []*Term) {
		p := params[0]
		get := func(i int) *Term { return fl.load(st, fl.fieldAddr(p, i)) }
		co.invariant(fl, st, p, true)
		at := fl.fieldAddr(p, co.over)
		cl.Key = func(st *State) string {
			if set, known := st.facts.cond(fl.load(st, at)); known {
				return fmt.Sprint(set)
			}
			return ""
		}
		entry.buf, entry.max, entry.over = get(co.buf), get(co.max), get(co.over)
		st.gt["num"], st.gt["max"], st.gt["buf"] = get(co.num), entry.max, entry.buf
		for i, q := range f.Params[1:] {
			if isIntType(q.Type()) && !isPolyRef(q.Type()) {
				entry.count = params[i+1]
			}
		}
		if entry.count == nil {
			fl.undecided("%s is not told a number of polygons", fname(f))
			entry.count = fl.tt.konst(0)
		}
		st.facts.assumeLe(fl.tt.konst(0), entry.count, 0)
		for i, q := range f.Params[1:] {
			if _, ok := q.Type().Underlying().(*types.Slice); ok {
				st.facts.assumeLe(entry.count, fl.tt.lenOf(params[i+1]), 0)
			}
		}
	})
	return fl
}

// stUpperZero: the linear form is known to be zero.
func (fl *Flow) stUpperZero(st *State, d linForm) bool {
	return st.facts.upper(d) <= 0 && st.facts.upper(linForm{0, nil}.add(d, -1)) <= 0
}

func isPolyRefSlice(f *ssa.Function, t *Term) bool {
	if t.typ == nil || t.op != "sym" {
		return false
	}
	s, ok := t.typ.Underlying().(*types.Slice)
	return ok && (isPolyRef(s.Elem()) || isPolyPtr(s.Elem()))
}

// bufs decides the functions that fill buffers, callees first.
type bufs struct {
	c        *Ctx
	uses     map[*ssa.Function]*bufferUse
	sb       statusBits
	full     uint64
	maxVerts int64
	colls    []*collector
}

type bufRun struct {
	failed map[string]string // buffer -> position
	posts  map[string]bool
	nRet   int
	fl     *Flow
}

// capTerm is the term of a capacity of f: a parameter, or a field of a record.
func (b *bufs) capTerm(fl *Flow, st *State, f *ssa.Function, u *bufferUse, key string, k int) *Term {
	if key[0] == 'p' {
		return fl.param(st, f.Params[k])
	}
	var j int
	fmt.Sscanf(key, "f%d", &j)
	p := fl.param(st, f.Params[j])
	return fl.load(st, fl.fieldAddr(p, k))
}

func (b *bufs) candidates(f *ssa.Function, key string) []int {
	var r []int
	if key[0] == 'p' {
		for i, p := range f.Params {
			if isIntType(p.Type()) && !isStatus(p.Type()) && !isPolyRef(p.Type()) {
				r = append(r, i)
			}
		}
		return r
	}
	var j int
	fmt.Sscanf(key, "f%d", &j)
	s := deref(f.Params[j].Type()).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if isIntType(s.Field(i).Type()) {
			r = append(r, i)
		}
	}
	return r
}

func statusResult(f *ssa.Function) int {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isStatus(f.Signature.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// run analyses f under contracts. With report, the findings are kept.
func (b *bufs) run(f *ssa.Function, caps map[string]capacity, report bool) *bufRun {
	c, u := b.c, b.uses[f]
	r := &bufRun{failed: map[string]string{}, posts: map[string]bool{}}
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool {
		if v := b.uses[g]; v != nil {
			return v.inline || len(v.fields) > 0 && (u != nil || v.state != 2 || len(v.caps) > 0)
		}
		rs := g.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if t := rs.At(i).Type(); isIntType(t) || isBoolType(t) || isStatus(t) {
				return c.simpleFn(g)
			}
		}
		if rs.Len() == 1 {
			if p, ok := rs.At(0).Type().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Struct); ok {
					return c.simpleFn(g)
				}
			}
		}
		return rs.Len() == 0 && c.simpleFn(g)
	}
	fl := newFlow(c.Prog, cl)
	fl.K = 8
	if u != nil && len(u.local) > 0 {
		fl.thresholds = constThresholds(f)
	}
	r.fl = fl
	ps := map[*Term]string{}
	cand := map[string][]string{} // buffers of the positions reported
	bufKey := func(st *State, in ssa.Instruction, x ssa.Value, base *Term) string {
		if in.Parent() == f && u != nil {
			o := origin(x)
			if u.local[o] {
				return "l"
			}
			if v, ok := o.(*ssa.UnOp); ok {
				if fa, ok := v.X.(*ssa.FieldAddr); ok {
					for j, name := range u.fields {
						if fa.X == f.Params[j] && deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == name {
							return fmt.Sprintf("f%d", j)
						}
					}
				}
			}
		}
		if v := b.uses[in.Parent()]; v != nil && v.inline && in.Parent() != f {
			o := origin(x)
			for i := range v.params {
				if o == in.Parent().Params[i] {
					return "inline"
				}
			}
		}
		return ps[root(base)]
	}
	cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		if !fieldOf(addr, "Poly", "VertCount") {
			return nil
		}
		v := fl.load(st, addr)
		st.facts.assumeLe(v, fl.tt.konst(b.maxVerts), 0)
		return v
	}
	position := func(st *State, in ssa.Instruction, key string, ok bool, what string, a, n *Term) {
		if key == "" {
			return
		}
		if report {
			c.Distinct("positions", c.instrPos(in)+what)
		}
		if !ok {
			cand[c.instrPos(in)] = append(cand[c.instrPos(in)], key)
			off := ""
			if k := linOf(a).k; k != 0 {
				off = fmt.Sprintf(":%+d", k)
			}
			fl.Report("bound:"+fname(in.Parent())+":"+fname(f)+off, fl.instrPos(in), "%s (from %s): the %s %s is not known to be within the %s elements of the buffer; %s", fname(in.Parent()), fname(f), what, a, n, fl.Path(st))
		}
	}
	position2 := func(in ssa.Instruction, ok bool, st *State, what string) {
		if report {
			c.Distinct("callbacks", c.instrPos(in))
		}
		if !ok {
			cand[c.instrPos(in)] = append(cand[c.instrPos(in)], "callback")
			fl.Report("callback:"+fname(in.Parent())+":"+fname(f), fl.instrPos(in), "%s (from %s): %s; %s", fname(in.Parent()), fname(f), what, fl.Path(st))
		}
	}
	cl.Index = func(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term) {
		var x ssa.Value
		switch i := in.(type) {
		case *ssa.IndexAddr:
			x = i.X
		default:
			return
		}
		position(st, in, bufKey(st, in, x, base), st.facts.le(idx, length, 1) && st.facts.le(fl.tt.konst(0), idx, 0), "position", idx, length)
	}
	cl.Slice = func(fl *Flow, st *State, in *ssa.Slice, base, lo, hi *Term) {
		n := fl.lenAt(base, in.X.Type())
		position(st, in, bufKey(st, in, in.X, base), st.facts.le(lo, n, 0) && st.facts.le(hi, n, 0) && st.facts.le(fl.tt.konst(0), lo, 0), "start", lo, n)
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		if out, ok := b.callback(fl, st, in, callee, args, f, position2); ok {
			return out, true
		}
		v := b.uses[callee]
		if callee == nil || v == nil || v.inline || len(v.fields) > 0 || v.state != 2 {
			return nil, false
		}
		for key, cp := range v.caps {
			var i int
			if n, _ := fmt.Sscanf(key, "p%d", &i); n != 1 {
				continue
			}
			if report {
				c.Distinct("capacities told", fl.instrPos(in)+key)
			}
			n := fl.tt.lenOf(args[i])
			told := linForm{0, nil}
			for k := int64(0); k < cp.factor; k++ {
				told = told.add(linOf(args[cp.param]), 1)
			}
			if !st.facts.le(fl.tt.fromLin(told, types.Typ[types.Int]), n, 0) {
				k := ps[root(args[i])]
				if k == "" {
					k = "call " + fname(callee)
				}
				cand[fl.instrPos(in)] = append(cand[fl.instrPos(in)], k)
				fl.Report("told:"+fname(callee)+":"+fname(f), fl.instrPos(in), "%s tells %s the capacity %s (times %d) of a buffer of %s elements; %s", fname(f), fname(callee), args[cp.param], cp.factor, n, fl.Path(st))
			}
		}
		fl.opaque(st, in, callee, args)
		res := fl.freshResult(st, callee.Name(), in)
		for i := range res {
			key := fmt.Sprintf("r%d", i)
			if !v.posts[key] {
				continue
			}
			st.facts.assumeLe(fl.tt.konst(0), res[i], 0)
			for j := range v.params {
				st.facts.assumeLe(res[i], fl.tt.lenOf(args[j]), 0)
			}
		}
		si := statusResult(callee)
		if si < 0 {
			return []Outcome{{st, res}}, true
		}
		full := st.clone()
		full.facts.assumeBits(res[si], b.full, 0)
		full.gs["full"] = "yes"
		return []Outcome{{full, res}, {st, res}}, true
	}
	cl.Cond = func(fl *Flow, st *State, cond *Term, val bool) {
		if st.gs["full"] != "" || u == nil {
			return
		}
		for cond.op == "notb" {
			cond = cond.a[0]
		}
		if cond.op != "le0" && cond.op != "eq0" {
			return
		}
		l := linOf(cond.a[0])
		for t, k := range l.m {
			if k != 1 && k != -1 || !b.isCap(fl, st, f, ps, t) {
				continue
			}
			d := linForm{0, nil}.add(l, k)
			d.k = 0
			counter := false
			for s, k2 := range d.m {
				if s != t && k2 < 0 && !entryish(fl, s) {
					counter = true
				}
				if s != t && k2 > 0 {
					counter = false
					break
				}
			}
			if !counter {
				continue
			}
			if st.facts.upper(d) <= 0 {
				st.gs["full"] = "yes"
				continue
			}
			// the counter as it is now
			now := linForm{0, nil}.add(l, k)
			e := linForm{0, nil}.add(linOf(t), 1).add(now, -1) // cap - (cap - e)
			if st.facts.upper(now) <= 0 && e.k != 0 && isCounter(fl, st, e) {
				st.gs["full"] = "yes"
			}
		}
	}
	si := statusResult(f)
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if st.facts.bad {
			return
		}
		r.nRet++
		failed := false
		if si >= 0 {
			bits := st.facts.Bits(res[si])
			failed = bits.ones&b.sb.F != 0
			if st.gs["full"] != "" {
				if report {
					c.Distinct("returns after no room was left", fl.instrPos(in)+fname(f))
				}
				if bits.ones&(b.sb.F|b.full) == 0 {
					fl.Report("truncated:"+fname(f), fl.instrPos(in), "%s may return the status %s without BufferTooSmall although it found no room for the next result; %s", fname(f), res[si], fl.Path(st))
				}
			}
		}
		if u == nil {
			return
		}
		for i, t := range res {
			if !isIntType(t.typ) && !t.isConst() || i == si {
				continue
			}
			key := fmt.Sprintf("r%d", i)
			ok := st.facts.le(fl.tt.konst(0), t, 0)
			for j := range u.params {
				ok = ok && st.facts.le(t, fl.tt.lenOf(fl.param(st, f.Params[j])), 0)
			}
			if old, seen := r.posts[key]; seen && !old {
				ok = false
			}
			r.posts[key] = ok
		}
		_ = failed
	}
	fl.Run(f, func(st *State, params []*Term) {
		if u == nil {
			return
		}
		var first *Term
		for i := range f.Params {
			if !u.params[i] {
				continue
			}
			key := fmt.Sprintf("p%d", i)
			ps[params[i]] = key
			n := fl.tt.lenOf(params[i])
			if first == nil {
				first = n
			} else if exportedEntry(f) {
				st.facts.assumeEq(n, first)
			}
			if cp, ok := caps[key]; ok {
				t := fl.param(st, f.Params[cp.param])
				told := linForm{0, nil}
				for k := int64(0); k < cp.factor; k++ {
					told = told.add(linOf(t), 1)
				}
				st.facts.assumeLe(fl.tt.fromLin(told, types.Typ[types.Int]), n, 0)
				st.facts.assumeLe(fl.tt.konst(0), t, 0)
			}
		}
		for j, name := range u.fields {
			key := fmt.Sprintf("f%d", j)
			buf := fl.load(st, fl.fieldPath(params[j], name))
			ps[buf] = key
			if cp, ok := caps[key]; ok {
				t := b.capTerm(fl, st, f, u, key, cp.param)
				st.facts.assumeLe(t, fl.tt.lenOf(buf), 0)
			}
		}
	})
	for _, x := range fl.found {
		for _, k := range cand[x.pos] {
			r.failed[k] = x.pos
		}
	}
	return r
}

// callback models the calls of the callbacks of polygon queries, and those a collector is handed to.
func (b *bufs) callback(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term, f *ssa.Function, check func(ssa.Instruction, bool, *State, string)) ([]Outcome, bool) {
	com := in.Common()
	if com.IsInvoke() && callee == nil {
		for _, co := range b.colls {
			if com.Method.Name() != co.process.Name() {
				continue
			}
			var n *Term
			for i, a := range com.Args {
				if isIntType(a.Type()) && !isPolyRef(a.Type()) {
					n = args[i+1]
				}
			}
			if n == nil {
				continue
			}
			ok := st.facts.le(fl.tt.konst(0), n, 0)
			for i, a := range com.Args {
				if _, sl := a.Type().Underlying().(*types.Slice); sl {
					ok = ok && st.facts.le(n, fl.tt.lenOf(args[i+1]), 0)
				}
			}
			check(in, ok, st, fmt.Sprintf("the callback is told %s polygons, which are not known to be there", n))
			break
		}
	}
	if callee != nil && b.c.simpleFn(callee) && !b.c.isCollector(callee) {
		return nil, false
	}
	var co *collector
	var p *Term
	for _, a := range args {
		if a.op == "iface" {
			a = a.a[0]
		}
		if a.typ == nil {
			continue
		}
		if x := b.collectorOf(a.typ); x != nil {
			co, p = x, a
		}
	}
	if co == nil {
		return nil, false
	}
	ok, s := co.invariant(fl, st, p, false)
	check(in, ok, st, fmt.Sprintf("the collector is not known to have %s, capacity at most the length of the buffer", s))
	was := fl.load(st, fl.fieldAddr(p, co.buf))
	fl.opaque(st, in, callee, args)
	fl.store(st, fl.fieldAddr(p, co.buf), was, in)
	co.invariant(fl, st, p, true)
	var res []*Term
	if callee != nil {
		res = fl.freshResult(st, callee.Name(), in)
	}
	full := st.clone()
	flag := fl.load(st, fl.fieldAddr(p, co.over))
	var out []Outcome
	fl.assume(full, flag, true)
	if !full.facts.bad {
		full.gs["full"] = "yes"
		out = append(out, Outcome{full, res})
	}
	fl.assume(st, flag, false)
	if !st.facts.bad {
		out = append(out, Outcome{st, res})
	}
	return out, true
}

// isCounter: a variable has the value e.
func isCounter(fl *Flow, st *State, e linForm) bool {
	t := fl.tt.fromLin(e, types.Typ[types.Int])
	for _, m := range st.mem {
		if m == t {
			return true
		}
	}
	for v, x := range st.env {
		if x != t {
			continue
		}
		if _, ok := v.(*ssa.Phi); ok {
			return true
		}
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Phi, *ssa.Return:
				return true
			case *ssa.Store:
				if y.Val == v {
					return true
				}
			}
		}
	}
	return false
}

// isCap: t is the length of a buffer, or an entry value at most that.
func (b *bufs) isCap(fl *Flow, st *State, f *ssa.Function, ps map[*Term]string, t *Term) bool {
	told := t.op == "sym" || t.op == "load" && b.uses[f] != nil
	if told && t.op == "load" {
		told = false
		for j := range b.uses[f].fields {
			told = told || root(t.a[0]) == fl.param(st, f.Params[j])
		}
	}
	for buf := range ps {
		n := fl.tt.lenOf(buf)
		if t == n || told && entryish(fl, t) && st.facts.le(t, n, 0) {
			return true
		}
	}
	return false
}

// entryish: a value that was there when the analysed function was entered.
func entryish(fl *Flow, t *Term) bool {
	switch t.op {
	case "sym":
		return fl.entryValue(t)
	case "load", "len", "fa", "conv":
		return entryish(fl, t.a[0])
	case "const":
		return true
	}
	return false
}

func (b *bufs) decide(f *ssa.Function) {
	u := b.uses[f]
	if u == nil || u.state != 0 {
		return
	}
	u.state = 1
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				for _, g := range b.c.callees(call) {
					b.decide(g)
				}
			}
		}
	}
	keys := []string{}
	for i := range u.params {
		keys = append(keys, fmt.Sprintf("p%d", i))
	}
	for j := range u.fields {
		keys = append(keys, fmt.Sprintf("f%d", j))
	}
	sort.Strings(keys)
	caps := map[string]capacity{}
	r := b.run(f, caps, false)
	if len(r.failed) > 0 && (statusResult(f) < 0 || !exportedEntry(f)) {
		// which capacities would do
		cand := map[int]bool{}
		for _, k := range keys {
			if r.failed[k] != "" {
				for _, i := range b.candidates(f, k) {
					cand[i] = true
				}
			}
		}
		var cs []int
		for i := range cand {
			cs = append(cs, i)
		}
		sort.Ints(cs)
		for _, i := range cs {
			try := map[string]capacity{}
			for factor := int64(1); factor <= 3; factor++ {
				bad := r.failed
				if factor > 1 {
					bad = b.run(f, try, false).failed
				}
				for _, k := range keys {
					if bad[k] != "" {
						try[k] = capacity{i, factor}
					}
				}
				rr := b.run(f, try, false)
				if len(rr.failed) == 0 {
					caps, r = try, rr
					break
				}
			}
			if len(r.failed) == 0 {
				break
			}
		}
	}
	u.caps = caps
	if len(r.failed) > 0 && !exportedEntry(f) && b.hasCallers(f) {
		for k := range r.failed {
			if k[0] == 'p' || k[0] == 'f' {
				u.inline = true
			}
		}
	}
	u.posts = r.posts
	u.state = 2
	if u.inline {
		return
	}
	r = b.run(f, caps, true)
	r.fl.Finish(b.c, fname(f))
	if verbose {
		fmt.Printf("%s: params %v fields %v local %d caps %v posts %v steps %d\n", fname(f), u.params, u.fields, len(u.local), caps, r.posts, r.fl.steps)
	}
	b.c.Count("functions filling buffers", 1)
}

func (b *bufs) hasCallers(f *ssa.Function) bool {
	for _, g := range b.c.srcFuncs {
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

func runQ03(c *Ctx) {
	b := &bufs{c: c, uses: c.bufferUses(), sb: c.statusBits(), full: uint64(c.constVal("detour", "BufferTooSmall"))}
	if p, ok := c.typ("detour", "Poly").Underlying().(*types.Struct); ok {
		for i := 0; i < p.NumFields(); i++ {
			if a, ok := p.Field(i).Type().Underlying().(*types.Array); ok && p.Field(i).Name() == "Verts" {
				b.maxVerts = a.Len()
			}
		}
	}
	var fs []*ssa.Function
	for f := range b.uses {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		if c.isCollector(f) {
			b.decideCollector(f)
		}
	}
	for _, f := range c.libFuncs() {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				m, ok := in.(*ssa.MakeInterface)
				if !ok || b.collectorOf(m.X.Type()) == nil || b.uses[f] != nil {
					continue
				}
				u := &bufferUse{f: f, params: map[int]bool{}, fields: map[int]string{}, local: map[ssa.Value]bool{}, caps: map[string]capacity{}, posts: map[string]bool{}}
				for i, p := range f.Params {
					if s, ok := p.Type().Underlying().(*types.Slice); ok && isPolyRef(s.Elem()) {
						u.params[i] = true
					}
				}
				b.uses[f] = u
				fs = append(fs, f)
			}
		}
	}
	for _, f := range fs {
		if only != "" && !strings.Contains(fname(f), only) {
			continue
		}
		if !c.isCollector(f) {
			b.decide(f)
		}
	}
	// the callers of those that rely on what they are told
	for _, f := range c.libFuncs() {
		if b.uses[f] != nil || only != "" && !strings.Contains(fname(f), only) {
			continue
		}
		tells := false
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && b.uses[g] != nil {
						b.decide(g)
						tells = tells || b.uses[g].inline || len(b.uses[g].caps) > 0
					}
				}
			}
		}
		if !tells {
			continue
		}
		r := b.run(f, nil, true)
		r.fl.Finish(c, fname(f))
		c.Count("callers", 1)
		if verbose {
			fmt.Printf("%s: caller, steps %d\n", fname(f), r.fl.steps)
		}
	}
}
