package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q13",
		Rule: "on every path of every function that looks for the polygons of a tile that a box overlaps (helpers analysed at their call sites): " +
			"it visits the nodes of the bounding volume tree from the first one on, going from a node to the one after it if the node is a leaf or the box overlaps it, and over its subtree by its escape index otherwise, or it visits the polygons of the tile one by one; it tests the bounds of each against the box, stores the reference of a polygon, made of its own index, exactly if its bounds overlap the box, the filter accepts it and there is room, and leaves out nothing but off-mesh connections; it goes on until every node or polygon was visited; " +
			"every batch is handed over in full when it is full, and the rest at the end. " +
			"Every function that asks for these gives them the corners of a box, center minus and plus extents, in that order; one that looks for the tiles itself searches every tile at every position from that of the one corner to that of the other.",
		Floor: []Floor{{"functions", 2}, {"tree nodes tested", 2}, {"polygons tested", 2}, {"references stored", 4}, {"batches", 2}, {"box queries", 2}, {"tiles searched", 2}},
		Assum: []string{"filters and queries do not change the mesh", "the nodes of a tree are stored in depth-first order, and the escape index of an inner node is the negative number of nodes of its subtree"},
		Run:   runQ13,
	})
}

func isBoxTest(g *ssa.Function) bool {
	return g != nil && relPkg(funcPkg(g)) == "detour" && (g.Name() == "OverlapQuantBounds" || g.Name() == "OverlapBounds")
}

func callsBoxTest(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && isBoxTest(call.Common().StaticCallee()) {
				return true
			}
		}
	}
	return false
}

func runQ13(c *Ctx) {
	var all, roots []*ssa.Function
	for _, f := range c.libFuncs() {
		if relPkg(funcPkg(f)) != "detour" || f.Parent() != nil {
			continue
		}
		tile := false
		for _, p := range f.Params {
			tile = tile || isTilePtr(p.Type())
		}
		if tile && !isBoxTest(f) && c.relevantTo(f, callsBoxTest) && !exportedEntry(f) {
			all = append(all, f)
		}
	}
	// the innermost ones that both test and store
	for _, f := range all {
		if !c.relevantTo(f, storesRef) {
			continue
		}
		inner := false
		for _, g := range all {
			inner = inner || g != f && c.relevantTo(g, storesRef) && c.relevantTo(f, func(h *ssa.Function) bool { return h == g })
		}
		if !inner {
			roots = append(roots, f)
		}
	}
	within := map[*ssa.Function]bool{}
	for _, f := range roots {
		within[f] = true
	}
	var callers []*ssa.Function
	for _, f := range c.libFuncs() {
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && within[call.Common().StaticCallee()] {
					calls = true
				}
			}
		}
		if calls {
			callers = append(callers, f)
		}
	}
	c.Parallel(len(roots)+len(callers), func(i int) {
		if i < len(roots) {
			c.runQ13(roots[i])
		} else {
			c.runQ13Tiles(callers[i-len(roots)], within)
		}
	})
}

// runQ13Tiles: f asks for the polygons of all the tiles the box touches.
func (c *Ctx) runQ13Tiles(f *ssa.Function, within map[*ssa.Function]bool) {
	c.Count("box queries", 1)
	cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool {
		if relPkg(funcPkg(g)) != "detour" || within[g] || exportedEntry(g) {
			return false
		}
		if r := g.Signature.Results(); r.Len() > 0 && strings.HasSuffix(typeStr(r.At(0).Type()), "d3.Vec3") {
			return true
		}
		return c.relevantTo(g, func(h *ssa.Function) bool {
			return h.Name() == "CalcTileLoc" || h.Name() == "TilesAt"
		})
	}}
	fl := newFlow(c.Prog, cl)
	fl.K = 24
	var vecs []*Term
	zero := fl.tt.konst(0)
	i32 := types.Typ[types.Int32]
	eq := func(st *State, a, b *Term) bool { return a != nil && b != nil && (a == b || eqIn(st, a, b)) }
	next := func(t *Term) *Term { return fl.tt.fromLin(linOf(t).add(linForm{1, nil}, 1), i32) }
	report := func(st *State, in ssa.Instruction, key, format string, args ...interface{}) {
		if !st.facts.bad {
			who := fname(in.Parent())
			fl.Report(key+":"+who, fl.instrPos(in), who+": "+format+"; "+fl.Path(st), args...)
		}
	}
	corner := func(st *State, t *Term) string {
		for t.op == "slice" {
			t = t.a[0]
		}
		if t.op == "corner" {
			return t.aux
		}
		return ""
	}
	tiled := c.relevantTo(f, func(h *ssa.Function) bool { return h.Name() == "TilesAt" })
	cl.Key = func(st *State) string { return st.gs["in"] + "," + st.gs["over"] }
	cl.Branch = func(fl *Flow, st *State) {
		if st.gs["in"] != "" && st.facts.le(st.gt["tiles"], st.gt["tile"], 0) {
			delete(st.gs, "in")
			st.gt["x"] = next(st.gt["x"])
		}
		if st.gs["in"] == "" && st.gt["x"] != nil && st.gt["maxx"] != nil && st.facts.le(st.gt["maxx"], st.gt["x"], 1) {
			st.gt["x"] = st.gt["minx"]
			st.gt["y"] = next(st.gt["y"])
		}
		if st.gs["in"] == "" && st.gt["y"] != nil && st.gt["maxy"] != nil && st.facts.le(st.gt["maxy"], st.gt["y"], 1) {
			st.gs["over"] = "1"
		}
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		if callee == nil {
			return nil, false
		}
		if (callee.Name() == "Sub" || callee.Name() == "Add") && len(args) == 2 && callee.Signature.Recv() != nil && strings.HasSuffix(typeStr(callee.Signature.Recv().Type()), "d3.Vec3") && len(vecs) == 2 {
			name := ""
			switch a, b := args[0], args[1]; {
			case callee.Name() == "Sub" && a == vecs[0] && b == vecs[1]:
				name = "min"
			case callee.Name() == "Add" && (a == vecs[0] && b == vecs[1] || a == vecs[1] && b == vecs[0]):
				name = "max"
			}
			if name != "" {
				return []Outcome{{st, []*Term{fl.tt.mk("corner", callee.Signature.Recv().Type(), 0, name, nil, nil)}}}, true
			}
			return nil, false
		}
		switch {
		case fname(callee) == "(*detour.NavMesh).CalcTileLoc":
			c.Count("corners", 1)
			k := corner(st, args[1])
			if k == "" {
				report(st, in, "corner", "the tile of %s is asked for, which is not known to be a corner of the box", args[1])
				return nil, false
			}
			x, y := fl.tt.mk("tile x", i32, 0, k, nil, nil), fl.tt.mk("tile y", i32, 0, k, nil, nil)
			st.gt[k+"x"], st.gt[k+"y"] = x, y
			if k == "min" {
				st.gt["x"], st.gt["y"] = x, y
			}
			return []Outcome{{st, []*Term{x, y}}}, true
		case fname(callee) == "(*detour.NavMesh).TilesAt":
			c.Count("tile positions", 1)
			switch {
			case st.gs["in"] != "":
				report(st, in, "tiles", "the tiles at the next position are asked for before all of the last one were looked at")
			case !eq(st, args[1], st.gt["x"]) || !eq(st, args[2], st.gt["y"]):
				report(st, in, "position", "the tiles at %s, %s are asked for, and the next position is %s, %s", args[1], args[2], st.gt["x"], st.gt["y"])
			}
			fl.opaque(st, in, callee, args)
			n := fl.freshResult(st, "tiles", in)
			st.facts.assumeLe(zero, n[0], 0)
			st.facts.assumeLe(n[0], args[4], 0)
			list := args[3]
			for list.op == "slice" && (len(list.a) < 2 || list.a[1] == nil || list.a[1] == zero) {
				list = list.a[0]
			}
			st.gt["tiles"], st.gt["tile"], st.gt["list"] = n[0], zero, list
			st.gs["in"] = "1"
			return []Outcome{{st, n}}, true
		case within[callee]:
			c.Count("tiles searched", 1)
			// (mesh or query, tile, min, max, ...)
			if corner(st, args[2]) != "min" || corner(st, args[3]) != "max" {
				report(st, in, "box", "a tile is searched for %s to %s, which are not known to be the corners of the box", args[2], args[3])
			}
			if tiled && st.gt["list"] == nil {
				report(st, in, "tile", "the tile %s is searched, and no tiles were asked for", args[1])
			} else if tiled {
				t := fl.peek(st, fl.indexAddr(st.gt["list"], st.gt["tile"], callee.Signature.Params().At(0).Type()))
				same := eq(st, args[1], t)
				if a := args[1]; a.op == "load" && a.a[0].op == "ia" {
					same = same || eq(st, a.a[0].a[0], st.gt["list"]) && eq(st, a.a[0].a[1], st.gt["tile"])
				}
				if st.gs["in"] == "" || !same {
					report(st, in, "tile", "the tile %s is searched, and the next one is %s", args[1], t)
				}
				st.gt["tile"] = next(st.gt["tile"])
			}
			st.gs["searched"] = "1"
			return []Outcome{{st, fl.freshResult(st, "searched", in)}}, true
		}
		return nil, false
	}
	sb := c.statusBits()
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		for i, x := range res {
			if isStatus(f.Signature.Results().At(i).Type()) && st.facts.Bits(x).ones&sb.F != 0 {
				return
			}
		}
		if tiled && st.gs["over"] == "" {
			report(st, in, "tiles", "the query may return before all the tiles the box touches were searched")
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		for i, p := range f.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Float32]) && len(vecs) < 2 {
				vecs = append(vecs, ps[i]) // the center and the extents
			}
		}
	})
	fl.Finish(c, fname(f))
}

// storesRef: f stores a polygon reference in a slice.
func storesRef(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && isPolyRef(s.Val.Type()) {
				if _, ok := s.Addr.(*ssa.IndexAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) runQ13(f *ssa.Function) {
	c.Count("functions", 1)
	offmesh := c.constVal("detour", "polyTypeOffMeshConnection")
	cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool {
		return relPkg(funcPkg(g)) == "detour" && !isBoxTest(g) && !exportedEntry(g) && c.relevantTo(g, func(h *ssa.Function) bool { return callsBoxTest(h) || storesRef(h) }) ||
			fname(g) == "(*detour.Poly).Type" || c.simpleFn(g)
	}}
	fl := newFlow(c.Prog, cl)
	fl.K = 48
	var tile, out, most *Term
	zero := fl.tt.konst(0)
	eq := func(st *State, a, b *Term) bool { return a != nil && b != nil && (a == b || eqIn(st, a, b)) }
	lin := func(t *Term, k int64, typ types.Type) *Term {
		if typ == nil {
			typ = types.Typ[types.Int]
		}
		return fl.tt.fromLin(linOf(t).add(linForm{1, nil}, k), typ)
	}
	report := func(st *State, in ssa.Instruction, key, format string, args ...interface{}) {
		if st.facts.bad {
			return
		}
		who := fname(in.Parent())
		fl.Report(key+":"+who, fl.instrPos(in), who+": "+format+"; "+fl.Path(st), args...)
	}
	array := func(st *State, name string) *Term { return fl.peek(st, fl.fieldPath(tile, name)) }
	leafIs := func(st *State) (yes, no bool, idx *Term) {
		idx = fl.peek(st, fl.fieldPath(fl.indexAddr(array(st, "BvTree"), st.gt["idx"], c.typ("detour", "BvNode")), "I"))
		return st.gs["leaf"] == "T" || st.facts.le(zero, idx, 0), st.gs["leaf"] == "F" || st.facts.le(idx, fl.tt.konst(-1), 0), idx
	}
	ityp := map[string]types.Type{} // the type of the indices
	begins := map[*ssa.BasicBlock]bool{}
	cl.Key = func(st *State) string {
		r := ""
		for _, k := range []string{"in", "ov", "leaf", "taken", "filtered", "off", "full", "over"} {
			r += st.gs[k] + ","
		}
		return r
	}
	settle := func(st *State) {
		if most != nil && st.facts.le(most, st.gt["count"], 0) {
			st.gs["full"] = "1"
		}
		if st.gs["in"] == "node" && st.gs["leaf"] == "" {
			if yes, no, _ := leafIs(st); yes {
				st.gs["leaf"] = "T"
			} else if no {
				st.gs["leaf"] = "F"
			}
		}
		if st.gs["in"] == "poly" && st.gs["off"] == "" {
			p := fl.indexAddr(array(st, "Polys"), st.gt["idx"], c.typ("detour", "Poly"))
			at := fl.peek(st, fl.fieldPath(p, "AreaAndType"))
			if eq(st, fl.binop(st, token.SHR, at.typ, at.typ, at, fl.tt.konst(6)), fl.tt.konst(offmesh)) {
				st.gs["off"] = "1"
			}
		}
		if st.gs["in"] != "" {
			return
		}
		for _, x := range []struct{ want, n, arr string }{{"nodes", "BvNodeCount", "BvTree"}, {"polys", "PolyCount", "Polys"}} {
			hdr := fl.peek(st, fl.fieldPath(tile, "Header"))
			n := fl.peek(st, fl.fieldPath(hdr, x.n))
			if a := array(st, x.arr); st.facts.le(n, st.gt[x.want], 0) || st.facts.le(fl.lenAt(a, a.typ), st.gt[x.want], 0) {
				st.gs["over"] = "1"
			}
		}
	}
	cl.Branch = func(fl *Flow, st *State) { settle(st) }
	cl.Index = func(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term) {
		for _, x := range []struct{ kind, want, arr string }{{"node", "nodes", "BvTree"}, {"poly", "polys", "Polys"}} {
			if !eq(st, base, array(st, x.arr)) {
				continue
			}
			switch {
			case st.gs["in"] == "":
				begins[in.Block()] = true
				if ia, ok := in.(*ssa.IndexAddr); ok {
					ityp[x.kind] = ia.Index.Type()
				}
				if !eq(st, idx, st.gt[x.want]) {
					report(st, in, "next", "element %s of the %s of the tile is visited, and the next one is %s", idx, x.arr, st.gt[x.want])
				}
				st.gs["in"] = x.kind
				st.gt["idx"] = idx
				for _, k := range []string{"ov", "leaf", "taken", "filtered", "off"} {
					delete(st.gs, k)
				}
			case st.gs["in"] == x.kind && !eq(st, idx, st.gt["idx"]):
				report(st, in, "other", "element %s of the %s of the tile is accessed, and the one being visited is %s", idx, x.arr, st.gt["idx"])
			case st.gs["in"] == "node" && x.kind == "poly":
				if _, _, i := leafIs(st); !eq(st, idx, i) {
					report(st, in, "other", "polygon %s of the tile is accessed, and the one of the leaf is %s", idx, i)
				}
			}
		}
	}
	leave := func(st *State, in ssa.Instruction) {
		kind := st.gs["in"]
		if kind == "" {
			return
		}
		idx := st.gt["idx"]
		why := st.gs["taken"] != "" || st.gs["filtered"] != "" || st.gs["full"] != ""
		switch kind {
		case "node":
			yes, no, i := leafIs(st)
			if !no && st.gs["ov"] != "F" && !why {
				report(st, in, "left-out", "a polygon of the tree may be left out without a reason")
			}
			if st.gs["taken"] != "" && !yes {
				report(st, in, "inner", "what is stored may not be a leaf")
			}
			switch {
			case yes, st.gs["ov"] == "T":
				st.gt["nodes"] = lin(idx, 1, ityp[kind])
			case no && st.gs["ov"] == "F":
				st.gt["nodes"] = fl.tt.fromLin(linOf(idx).add(linOf(i), -1), ityp[kind])
			default:
				report(st, in, "step", "it is not known whether a node is a leaf and whether the box overlaps it when going on to the next one")
			}
		case "poly":
			if st.gs["ov"] != "F" && st.gs["off"] == "" && !why {
				report(st, in, "left-out", "a polygon of the tile may be left out without a reason")
			}
			st.gt["polys"] = lin(idx, 1, ityp[kind])
		}
		for _, k := range []string{"in", "ov", "leaf", "taken", "filtered", "off"} {
			delete(st.gs, k)
		}
		delete(st.gt, "idx")
	}
	cl.Back = func(fl *Flow, st *State, header *ssa.BasicBlock) {
		for b := range begins {
			if b.Parent() == header.Parent() && header.Dominates(b) {
				leave(st, header.Instrs[0])
				return
			}
		}
	}
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "ia" || !isPolyRef(contentType(addr)) || st.facts.bad {
			return
		}
		c.Count("references stored", 1)
		if st.gs["in"] == "" || st.gs["ov"] != "T" {
			report(st, in, "extra", "a polygon is stored, and the box is not known to overlap its bounds")
			return
		}
		if st.gs["taken"] != "" {
			report(st, in, "twice", "a polygon is stored twice")
		}
		if st.gs["off"] != "" {
			report(st, in, "extra", "an off-mesh connection is stored")
		}
		i := st.gt["idx"]
		if st.gs["in"] == "node" {
			_, _, i = leafIs(st)
		}
		ok := false
		if v := stripConv(val); v.op == "or" {
			for _, a := range v.a {
				ok = ok || eq(st, stripConv(a), i)
			}
		}
		if !ok {
			report(st, in, "index", "%s is stored, and that is not made of the index %s of the polygon", val, i)
		}
		st.gs["taken"] = "1"
		st.gt["count"] = lin(st.gt["count"], 1, types.Typ[types.Int32])
		if out == nil {
			if !eq(st, addr.a[1], st.gt["pending"]) {
				report(st, in, "position", "a reference is stored at %s of the batch, and the next position is %s", addr.a[1], st.gt["pending"])
			}
			st.gt["batch"] = addr.a[0]
			st.gt["pending"] = lin(addr.a[1], 1, types.Typ[types.Int32])
		}
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		switch com := in.Common(); {
		case isBoxTest(callee):
			var mins, maxs *Term
			bounds := false
			switch st.gs["in"] {
			case "node":
				c.Count("tree nodes tested", 1)
				n := fl.indexAddr(array(st, "BvTree"), st.gt["idx"], c.typ("detour", "BvNode"))
				mins, maxs = fl.fieldPath(n, "BMin"), fl.fieldPath(n, "BMax")
				for i := 0; i < 4; i += 2 {
					a, b := args[i], args[i+1]
					for a.op == "slice" {
						a = a.a[0]
					}
					for b.op == "slice" {
						b = b.a[0]
					}
					bounds = bounds || eq(st, a, mins) && eq(st, b, maxs)
				}
				if !bounds {
					report(st, in, "bounds", "the bounds that are tested are not those of the node visited")
				}
			case "poly":
				c.Count("polygons tested", 1)
			default:
				report(st, in, "bounds", "bounds are tested, and no node or polygon of the tile is being visited")
				return nil, false
			}
			no := st.clone()
			st.gs["ov"], no.gs["ov"] = "T", "F"
			return []Outcome{{st, []*Term{fl.boolK(true)}}, {no, []*Term{fl.boolK(false)}}}, true
		case filterMethod(in, callee, "PassFilter"):
			no := st.clone()
			no.gs["filtered"] = "1"
			return []Outcome{{st, []*Term{fl.boolK(true)}}, {no, []*Term{fl.boolK(false)}}}, true
		case com.IsInvoke() && com.Method.Name() == "process":
			// (query, tile, polys, refs, count)
			c.Count("batches", 1)
			if !eq(st, args[1], tile) || !eq(st, args[4], st.gt["pending"]) || st.gt["batch"] != nil && !eq(st, args[3], st.gt["batch"]) {
				report(st, in, "batch", "%s polygons are handed over, and %s are stored", args[4], st.gt["pending"])
			}
			st.gt["pending"] = zero
			return []Outcome{{st, nil}}, true
		}
		return nil, false
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if st.facts.bad {
			return
		}
		settle(st)
		if st.gs["in"] != "" && st.gs["full"] == "" || st.gs["over"] == "" && st.gs["full"] == "" {
			report(st, in, "early", "the function may return before all nodes or polygons were visited")
		}
		if out == nil && !st.facts.le(st.gt["pending"], zero, 0) {
			report(st, in, "rest", "the function may return with %s polygons not handed over", st.gt["pending"])
		}
		for i, x := range res {
			if out != nil && isIntType(f.Signature.Results().At(i).Type()) && !eq(st, x, st.gt["count"]) {
				report(st, in, "count", "%s polygons are reported, and %s were stored", x, st.gt["count"])
			}
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		for i, p := range f.Params {
			switch {
			case isTilePtr(p.Type()):
				tile = ps[i]
			case p.Type().Underlying().String() == "[]github.com/arl/go-detour/detour.PolyRef":
				out = ps[i]
			case isIntType(p.Type()) && out != nil:
				most = ps[i]
			}
		}
		for _, k := range []string{"nodes", "polys", "pending", "count"} {
			st.gt[k] = zero
		}
	})
	fl.Finish(c, fname(f))
}
