package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "K11",
		Rule: "every store to the area of a span of a heightfield or of a compact heightfield, in the functions of recast that are given one, other than those that rasterize and compact, is on all paths of the exported functions either of the null area, or to a span whose area is known not to be null, " +
			"or, in the filter of low obstacles, of the area the span below had when it was passed, which is walkable and no farther below than the climb; the filter of low heights clears the area of every span it passes that is not known to have more room above it than the agent's height.",
		Floor: []Floor{{"functions changing areas", 5}, {"stores of areas", 6}, {"spans passed", 1}},
		Assum: []string{"spans of a column are linked from the lowest to the highest"},
		Run:   runK11,
	})
}

// areaStore: addr is the area of a span.
func areaStore(addr ssa.Value) bool {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return isNamed(deref(a.X.Type()), "recast", "Span") && fieldName(a) == "area"
	case *ssa.IndexAddr:
		return areasOf(a.X, map[ssa.Value]bool{})
	}
	return false
}

// areasOf: v may be the areas of a compact heightfield.
func areasOf(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return isNamed(deref(fa.X.Type()), "recast", "CompactHeightfield") && fieldName(fa) == "Areas"
			}
		}
	case *ssa.Slice:
		return areasOf(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if areasOf(e, seen) {
				return true
			}
		}
	case *ssa.Field:
		return isNamed(x.X.Type(), "recast", "CompactHeightfield") && x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name() == "Areas"
	}
	return false
}

func runK11(c *Ctx) {
	isField := func(t types.Type) bool {
		return isNamed(deref0(t), "recast", "Heightfield") || isNamed(deref0(t), "recast", "CompactHeightfield") || isNamed(deref0(t), "recast", "Span")
	}
	// functions with stores to areas
	direct := map[*ssa.Function]bool{}
	for _, f := range c.srcFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && areaStore(st.Addr) {
					direct[f] = true
				}
			}
		}
		// helpers given the areas of a compact heightfield
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil && c.inModule(call.Common().StaticCallee()) {
					for _, a := range call.Common().Args {
						if areasOf(a, map[ssa.Value]bool{}) {
							direct[f] = true
							direct[call.Common().StaticCallee()] = true
						}
					}
				}
			}
		}
	}
	rel := c.relevant(func(g *ssa.Function) bool { return direct[g] })
	// functions that make spans or areas
	makes := c.relevant(func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && (isNamed(deref(fa.X.Type()), "recast", "Span") && fieldName(fa) == "smin" ||
						isNamed(deref(fa.X.Type()), "recast", "CompactHeightfield") && fieldName(fa) == "Areas") {
						return true
					}
				}
			}
		}
		return false
	})
	var roots []*ssa.Function
	for _, f := range c.srcFuncs {
		if !rel[f] || f.Synthetic != "" || !exportedEntry(f) {
			continue
		}
		if relPkg(funcPkg(f)) != "recast" {
			if direct[f] {
				roots = append(roots, f)
			}
			continue
		}
		given := false
		for _, p := range f.Params {
			given = given || isField(p.Type())
		}
		if !given && !direct[f] || makes[f] {
			continue
		}
		roots = append(roots, f)
	}
	if verbose {
		for _, f := range roots {
			fmt.Println("root", fname(f))
		}
	}
	c.Parallel(len(roots), func(i int) {
		if only != "" && !strings.Contains(fname(roots[i]), only) {
			return
		}
		c.Distinct("functions changing areas", fname(roots[i]))
		walkableRun(c, roots[i], rel)
	})
}

// spansEqual are the spans looked at that are the span t.
func spansEqual(fl *Flow, st *State, t *Term) []*Term {
	var r []*Term
	for a := range st.mem {
		if a.op == "fa" && a.aux == "recast.Span.smax" && a.a[0] != t && fl.eq(st, a.a[0], t) {
			r = append(r, a.a[0])
		}
	}
	return r
}

func phis(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func walkableRun(c *Ctx, f *ssa.Function, rel map[*ssa.Function]bool) {
	low := f.Name() == "FilterLowHangingWalkableObstacles"
	room := f.Name() == "FilterWalkableLowHeightSpans"
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return rel[g] || (low || room) && c.simpleFn(g) }
	isArea := func(st *State, addr *Term) bool {
		if addr.op == "fa" {
			return addr.aux == "recast.Span.area"
		}
		if addr.op == "ia" {
			b := addr.a[0]
			for b.op == "slice" {
				b = b.a[0]
			}
			return b.op == "load" && b.a[0].op == "fa" && b.a[0].aux == "recast.CompactHeightfield.Areas"
		}
		return false
	}
	load := func(fl *Flow, st *State, span *Term, n string) *Term { return fl.load(st, fl.fieldPath(span, n)) }
	var limit *Term // the height or climb
	headers := map[*ssa.BasicBlock]*ssa.Phi{}
	spanPhi := func(b *ssa.BasicBlock) *ssa.Phi {
		p, ok := headers[b]
		if !ok {
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && isNamed(deref0(phi.Type()), "recast", "Span") && reaches(b, b) {
					// the span that goes on to the next one
					for _, e := range phi.Edges {
						if u, ok := e.(*ssa.UnOp); ok && u.Op == token.MUL {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.X == ssa.Value(phi) && fieldName(fa) == "next" {
								p = phi
							}
						}
					}
				}
			}
			headers[b] = p
		}
		return p
	}
	column := func(b *ssa.BasicBlock) string { return fname(b.Parent()) + "." + fmt.Sprint(b.Index) }
	cl.Instr = func(fl *Flow, st *State, in ssa.Instruction) {
		b := in.Block()
		phi := spanPhi(b)
		if phi == nil || b.Instrs[phis(b)] != in || st.env[phi] == nil {
			return
		}
		if st.gs["column"] != column(b) {
			delete(st.gt, "below")
			delete(st.gt, "below area")
		}
		st.gt["span"] = st.env[phi]
		st.gt["area"] = load(fl, st, st.env[phi], "area")
	}
	cl.Back = func(fl *Flow, st *State, header *ssa.BasicBlock) {
		if spanPhi(header) == nil {
			st.gs["column"] = ""
			return
		}
		st.gs["column"] = column(header)
		s := st.gt["span"]
		if s == nil {
			return
		}
		st.gt["below"], st.gt["below area"] = s, st.gt["area"]
		if !room {
			return
		}
		c.Distinct("spans passed", column(header))
		zero := fl.tt.konst(0)
		if v := load(fl, st, s, "area"); fl.eq(st, v, zero) {
			return
		}
		next := load(fl, st, s, "next")
		top := fl.tt.konst(0xffff)
		if !fl.eq(st, next, zero) {
			top = load(fl, st, next, "smin")
			if !st.facts.isNe(next, zero) {
				top = zero
			}
		}
		need := linOf(limit).add(linForm{1, nil}, 1).add(linOf(load(fl, st, s, "smax")), 1)
		if v, known := fl.cond(st, fl.le0(need.add(linOf(top), -1))); !known || !v {
			fl.Report("room:"+fname(f), fl.instrPos(header.Instrs[0]), "%s may leave a span walkable that has no more room above it than %s; %s", fname(f), limit, fl.Path(st))
		}
	}
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if !isArea(st, addr) {
			return
		}
		c.Distinct("stores of areas", fname(f)+fl.instrPos(in))
		if val.isConst() && val.n == 0 {
			return
		}
		old := fl.peek(st, addr)
		zero := fl.tt.konst(0)
		if st.facts.isNe(old, zero) {
			return
		}
		if low && addr.op == "fa" && st.gt["span"] == addr.a[0] {
			below, area := st.gt["below"], st.gt["below area"]
			if below != nil && area != nil && fl.eq(st, val, area) && st.facts.isNe(area, zero) {
				near := false
				for _, t := range append([]*Term{below}, spansEqual(fl, st, below)...) {
					d := linOf(load(fl, st, addr.a[0], "smax")).add(linOf(load(fl, st, t, "smax")), -1)
					le := func(l linForm) bool {
						v, known := fl.cond(st, fl.le0(l))
						return known && v
					}
					zero := linForm{}
					up, down := le(zero.add(d, 1).add(linOf(limit), -1)), le(zero.add(d, -1).add(linOf(limit), -1))
					ok := up && (down || le(zero.add(d, -1))) || down && le(d)
					near = near || ok
				}
				if !near {
					fl.Report("climb:"+fname(f), fl.instrPos(in), "%s makes a span walkable that may be more than %s away from the one below it; %s", fname(f), limit, fl.Path(st))
				}
				return
			}
			fl.Report("below:"+fname(f), fl.instrPos(in), "%s gives an unwalkable span the area %s, and not the area %v the span below had; %s", fname(f), val, area, fl.Path(st))
			return
		}
		fl.Report("area:"+fname(f), fl.instrPos(in), "%s gives a span that may be unwalkable the area %s; %s", fname(f), val, fl.Path(st))
	}
	fl := newFlow(c.Prog, cl)
	if !low && !room {
		fl.K = 3
	}
	fl.Run(f, func(st *State, params []*Term) {
		for i, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				limit = params[i]
			}
		}
	})
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Println(fname(f), "steps", fl.steps)
	}
}
