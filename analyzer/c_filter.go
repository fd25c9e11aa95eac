package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q01",
		Rule: "on every path of every query of detour that takes a filter or runs a sliced search with the stored one (callees analysed at their call sites): a polygon reference other than the start polygon gets a search node, is stored in a path or in a batch of results, is reported by a ray cast or returned, or is the polygon a cost is computed for, only where the path conditions imply that PassFilter of the very filter given to the query accepted that reference. " +
			"PassFilter is asked with the tile and the polygon that belong to the reference, and every callee that takes a filter gets the filter of the query. A sliced search keeps the filter and the start polygon it was initialized with.",
		Floor: []Floor{{"queries", 8}, {"uses of a polygon", 25}, {"filter calls", 6}, {"filters passed on", 8}},
		Assum: []string{"the polygons of search nodes allocated before were accepted, or the start, when they were stored (Q06: nodes of earlier searches are dropped)", "a filter does not change the data of the query"},
		Run:   runQ01,
	})
}

// queryEntries are the functions of detour analysed on their own: the exported
// ones among rel, and those no function of the module calls.
func (c *Ctx) queryEntries(rel map[*ssa.Function]bool) []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range c.srcFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range c.callees(ci) {
						if g != f {
							called[g] = true
						}
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for _, f := range c.srcFuncs {
		if relPkg(funcPkg(f)) != "detour" || f.Synthetic != "" || f.Parent() != nil || !rel[f] || !strings.Contains(fname(f), only) {
			continue
		}
		if exportedEntry(f) || !called[f] {
			r = append(r, f)
		}
	}
	return r
}

func isFilterType(t types.Type) bool { return isNamed(t, "detour", "QueryFilter") }

// filterImpl: f is the method name of a filter.
func filterMethod(site ssa.CallInstruction, callee *ssa.Function, name string) bool {
	cc := site.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == name && isFilterType(cc.Value.Type())
	}
	return callee != nil && callee.Name() == name && callee.Signature.Recv() != nil && relPkg(funcPkg(callee)) == "detour" &&
		strings.HasSuffix(typeStr(deref(callee.Signature.Recv().Type())), "QueryFilter")
}

type filterFlow struct {
	c      *Ctx
	fl     *Flow
	f      *ssa.Function
	filter *Term
	poly   types.Type
	start  *Term
}

func (r *filterFlow) pass(ref *Term) *Term {
	return r.fl.tt.mk("pred", types.Typ[types.Bool], 0, "pass", nil, nil, r.filter, ref)
}

func (r *filterFlow) accept(st *State, ref *Term) {
	if !ref.isConst() || ref.n == 0 {
		r.fl.assume(st, r.pass(ref), true)
	}
}

func (r *filterFlow) accepted(st *State, ref *Term) bool {
	if ref.isConst() && ref.n == 0 || st.facts.bad {
		return true
	}
	if v, known := r.fl.cond(st, r.pass(ref)); known && v {
		return true
	}
	if lo, hi := st.facts.Range(ref); lo == 0 && hi == 0 {
		return true
	}
	// equal to an accepted reference
	for t, v := range st.facts.truth {
		if v && t.op == "pred" && t.aux == "pass" && t.a[0] == r.filter && st.facts.le(t.a[1], ref, 0) && st.facts.le(ref, t.a[1], 0) {
			return true
		}
	}
	return false
}

func (r *filterFlow) use(st *State, in ssa.Instruction, ref *Term, what string) {
	r.c.Count("uses of a polygon", 1)
	if !r.accepted(st, ref) {
		who := fname(in.Parent())
		r.fl.Report(what+":"+who+":"+fname(r.f), r.fl.instrPos(in), "%s (from %s): the polygon %s %s although the filter of the query is not known to have accepted it; %s", who, fname(r.f), ref, what, r.fl.Path(st))
	}
}

// ownPointer: a pointer to a structure of detour.
func ownPointer(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return false
	}
	n := named(t)
	return n != nil && relPkg(n.Obj().Pkg()) == "detour"
}

func isPolyRef(t types.Type) bool {
	_, ptr := t.Underlying().(*types.Pointer)
	return !ptr && isNamed(t, "detour", "PolyRef")
}

func fieldOf(addr *Term, typ, name string) bool {
	return addr.op == "fa" && addr.aux == "detour."+typ+"."+name
}

// keptField is the address of a field of the state of the sliced query.
func keptField(fl *Flow, q *Term, name string) *Term { return fl.fieldPath(q, "query", name) }

func runQ01(c *Ctx) {
	node := c.fn("detour", "NodePool.Node")
	rel := c.relevant(func(f *ssa.Function) bool {
		if f == node {
			return true
		}
		if n := f.Name(); n == "TileAndPolyByRef" || n == "TileAndPolyByRefUnsafe" || n == "polyRefBase" {
			return true
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if isFilterType(f.Signature.Params().At(i).Type()) {
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && (filterMethod(ci, ci.Common().StaticCallee(), "PassFilter") || filterMethod(ci, ci.Common().StaticCallee(), "Cost")) {
					return true
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "detour", "Node") && isPolyRef(deref(fa.Type())) {
					return true
				}
			}
		}
		return false
	})
	// functions concerned by a filter
	var entries []*ssa.Function
	for _, f := range c.queryEntries(rel) {
		takes := false
		for _, p := range f.Params {
			if isFilterType(p.Type()) {
				takes = true
			}
		}
		if f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), "detour", "NavMeshQuery") && !takes {
			reach := c.relevantTo(f, func(g *ssa.Function) bool {
				for _, p := range g.Params {
					if isFilterType(p.Type()) {
						return true
					}
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && (filterMethod(ci, ci.Common().StaticCallee(), "PassFilter") || filterMethod(ci, ci.Common().StaticCallee(), "Cost")) {
							return true
						}
						if fa, ok := in.(*ssa.FieldAddr); ok && isFilterType(deref(fa.Type())) {
							return true
						}
					}
				}
				return false
			})
			takes = reach
		}
		if takes {
			entries = append(entries, f)
		}
	}
	for range entries {
		c.Count("queries", 1)
	}
	ent := map[*ssa.Function]bool{}
	for _, f := range entries {
		ent[f] = true
	}
	c.Parallel(len(entries), func(i int) { runQ01Func(c, rel, ent, entries[i]) })
}

// relevantTo: f or a function it may call satisfies ok.
func (p *Prog) relevantTo(f *ssa.Function, ok func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if seen[g] || !p.inModule(g) || g.Blocks == nil {
			return false
		}
		seen[g] = true
		if ok(g) {
			return true
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, is := in.(ssa.CallInstruction); is {
					for _, h := range p.callees(ci) {
						if visit(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

func runQ01Func(c *Ctx, rel, entries map[*ssa.Function]bool, f *ssa.Function) {
	sb := c.statusBits()
	small := func(g *ssa.Function) bool {
		rs := g.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			if isBoolType(t) || isStatus(t) || isPolyRef(t) || ownPointer(t) {
				return c.simpleFn(g)
			}
		}
		return false
	}
	node := c.fn("detour", "NodePool.Node")
	r := &filterFlow{c: c, f: f, poly: c.typ("detour", "PolyRef")}
	cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool {
		if g == node || exportedEntry(g) && g.Signature.Recv() != nil {
			return false
		}
		return rel[g] || small(g)
	}}
	fl := newFlow(c.Prog, cl)
	fl.K = 6
	r.fl = fl
	initSliced := f.Name() == "InitSlicedFindPath"
	var q *Term
	tileOf := func(ref *Term) *Term {
		return fl.tt.mk("tileof", types.NewPointer(c.typ("detour", "MeshTile")), 0, "", nil, nil, ref)
	}
	polyOf := func(ref *Term) *Term {
		return fl.tt.mk("polyof", types.NewPointer(c.typ("detour", "Poly")), 0, "", nil, nil, ref)
	}
	eq := func(st *State, a, b *Term) bool {
		return a == b || st.facts.le(a, b, 0) && st.facts.le(b, a, 0)
	}
	// belongs: tile and poly are those of the reference.
	belongs := func(st *State, ref, tile, poly *Term) bool {
		if eq(st, poly, polyOf(ref)) && eq(st, tile, tileOf(ref)) {
			return true
		}
		if poly.op != "ia" {
			return false
		}
		if !eq(st, poly.a[0], fl.peek(st, fl.fieldPath(tile, "Polys"))) {
			return false
		}
		same := func(x *Term) bool {
			for x.op == "conv" {
				x = x.a[0]
			}
			i := poly.a[1]
			for i.op == "conv" {
				i = i.a[0]
			}
			return x == i || eq(st, x, i)
		}
		base := func(x *Term) bool { return x.op == "refbase" && eq(st, x.a[0], tile) }
		switch ref.op {
		case "or":
			return base(ref.a[0]) && same(ref.a[1]) || base(ref.a[1]) && same(ref.a[0])
		case "lin":
			// base + index
			l := linOf(ref)
			ts := l.terms()
			if l.k != 0 || len(ts) != 2 || l.m[ts[0]] != 1 || l.m[ts[1]] != 1 {
				return false
			}
			return base(ts[0]) && same(ts[1]) || base(ts[1]) && same(ts[0])
		}
		return false
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		who := fname(in.Parent())
		if filterMethod(in, callee, "PassFilter") {
			c.Count("filter calls", 1)
			if !eq(st, args[0], r.filter) {
				return []Outcome{{st, fl.freshResult(st, "otherFilter", in)}}, true
			}
			if !belongs(st, args[1], args[2], args[3]) {
				fl.Report("polygon:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s) asks the filter about the reference %s with the tile %s and the polygon %s, which are not known to be those of the reference; %s", who, fname(f), args[1], args[2], args[3], fl.Path(st))
			}
			return []Outcome{{st, []*Term{r.pass(args[1])}}}, true
		}
		if filterMethod(in, callee, "Cost") {
			if !eq(st, args[0], r.filter) {
				fl.Report("filter:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s) computes a cost with the filter %s, which is not the filter of the query", who, fname(f), args[0])
			}
			n := 0
			for _, a := range args {
				if a.typ != nil && isPolyRef(a.typ) || a.isConst() && a.typ == nil {
				}
			}
			sig := in.Common().Signature()
			for i := 0; i < sig.Params().Len(); i++ {
				if isPolyRef(sig.Params().At(i).Type()) {
					if n++; n > 1 {
						r.use(st, in, args[len(args)-sig.Params().Len()+i], "is evaluated")
					}
				}
			}
			return nil, false
		}
		if callee == nil || relPkg(funcPkg(callee)) != "detour" {
			return nil, false
		}
		for i, p := range callee.Params {
			if isFilterType(p.Type()) && i < len(args) {
				c.Count("filters passed on", 1)
				if !eq(st, args[i], r.filter) {
					fl.Report("filter:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s) gives %s the filter %s, which is not the filter of the query; %s", who, fname(f), fname(callee), args[i], fl.Path(st))
				}
			}
		}
		switch fname(callee) {
		case "(*detour.NavMesh).TileAndPolyByRef", "(*detour.NavMesh).TileAndPolyByRefUnsafe":
			if f == callee {
				break
			}
			safe := callee.Signature.Results().Len() > 0
			var outs []Outcome
			if safe {
				bad := st.clone()
				res := fl.freshResult(bad, "lookup", in)
				bad.facts.assumeBits(res[0], sb.F, sb.S|sb.P)
				outs = append(outs, Outcome{bad, res})
			}
			for i, t := range []*Term{tileOf(args[1]), polyOf(args[1])} {
				st.facts.assumeNe(t, fl.tt.konst(0))
				fl.store(st, args[2+i], t, in)
			}
			if safe {
				return append(outs, Outcome{st, []*Term{fl.tt.konst(int64(sb.S))}}), true
			}
			return []Outcome{{st, nil}}, true
		case "(*detour.NavMesh).polyRefBase":
			return []Outcome{{st, []*Term{fl.tt.mk("refbase", r.poly, 0, "", nil, nil, args[1])}}}, true
		}
		if callee == node {
			r.use(st, in, args[1], "gets a search node")
		}
		return nil, false
	}
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		t := contentType(addr)
		if t == nil {
			return
		}
		if pt, ok := t.(*types.Pointer); ok && isNamed(pt.Elem(), "detour", "Poly") && addr.op == "ia" {
			// a polygon next to the references
			c.Count("uses of a polygon", 1)
			found := false
			for p, v := range st.facts.truth {
				if v && p.op == "pred" && p.aux == "pass" && p.a[0] == r.filter {
					if eq(st, val, polyOf(p.a[1])) {
						found = true
						break
					}
					for x := range r.tilesIn(p.a[1]) {
						if belongs(st, p.a[1], x, val) {
							found = true
						}
					}
				}
			}
			if !found {
				fl.Report("result polygon:"+fname(in.Parent())+":"+fname(f), fl.instrPos(in), "%s (from %s) adds the polygon %s to the results although the filter of the query is not known to have accepted it; %s", fname(in.Parent()), fname(f), val, fl.Path(st))
			}
			return
		}
		if !isPolyRef(t) {
			return
		}
		switch {
		case addr.op == "ia":
			r.use(st, in, val, "is put in a path or in the results")
		case fieldOf(addr, "Node", "ID"):
			r.use(st, in, val, "is put in a search node")
		}
	}
	cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		t := contentType(addr)
		if t == nil || !isPolyRef(t) {
			return nil
		}
		if fieldOf(addr, "Node", "ID") || addr.op == "fa" && strings.HasSuffix(addr.aux, ".startRef") || addr.op == "ia" && isObj(root(addr)) {
			v := fl.load(st, addr)
			r.accept(st, v)
			return v
		}
		return nil
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		for i, x := range res {
			t := f.Signature.Results().At(i).Type()
			switch {
			case isPolyRef(t):
				r.use(st, in, x, "is returned")
			case isBoolType(t) && f.Signature.Results().Len() == 1:
				// the polygon is reported to pass
				if v, known := fl.cond(st, x); known && !v {
					continue
				}
				s := st.clone()
				fl.assume(s, x, true)
				if s.facts.bad {
					continue
				}
				for k, p := range f.Params {
					if isPolyRef(p.Type()) {
						r.use(s, in, fl.param(s, f.Params[k]), "is reported valid")
					}
				}
			}
		}
		if initSliced {
			kept := fl.peek(st, sliceStatusAddr(fl, q))
			if st.facts.Bits(kept).zeros&sb.P != 0 {
				return
			}
			c.Count("uses of a polygon", 1)
			if v := fl.peek(st, keptField(fl, q, "filter")); !eq(st, v, r.filter) {
				fl.Report("kept-filter", fl.instrPos(in), "%s leaves a search in progress with the filter %s, which is not the one it was given; %s", fname(f), v, fl.Path(st))
			}
			if v := fl.peek(st, keptField(fl, q, "startRef")); !eq(st, v, r.start) {
				fl.Report("kept-start", fl.instrPos(in), "%s leaves a search in progress with the start polygon %s, which is not the one it was given; %s", fname(f), v, fl.Path(st))
			}
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		for i, p := range f.Params {
			if isFilterType(p.Type()) {
				r.filter = ps[i]
			}
		}
		if f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), "detour", "NavMeshQuery") {
			q = ps[0]
			if r.filter == nil {
				a := keptField(fl, q, "filter")
				r.filter = fl.tt.mk("sym", contentType(a), 0, "filter of the search", nil, nil)
				st.mem[a] = r.filter
			}
		}
		if r.filter == nil {
			return
		}
		r.accept(st, fl.tt.konst(0))
		predicate := f.Signature.Results().Len() == 1 && isBoolType(f.Signature.Results().At(0).Type())
		for i, p := range f.Params {
			if isPolyRef(p.Type()) && !predicate {
				r.start = ps[i]
				r.accept(st, ps[i])
				break
			}
		}
	})
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Printf("%s: %d steps, %d terms\n", fname(f), fl.steps, len(fl.tt.list))
	}
	c.Sample("%s: %d functions, %d blocks", fname(f), len(fl.Visited), len(fl.Blocks))
}

// tilesIn are the tiles whose base reference is part of a reference.
func (r *filterFlow) tilesIn(ref *Term) map[*Term]bool {
	m := map[*Term]bool{}
	ref.any(func(t *Term) bool {
		if t.op == "refbase" {
			m[t.a[0]] = true
		}
		return false
	})
	return m
}
