package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q10",
		Rule: "on every path of every query of detour that puts nodes in the open list (helpers analysed at their call sites): a node is put in the list or moved in it only for the start polygon of an empty search, without parent and at no cost, or for the reference loaded from the current link of the list of links of the polygon of the node taken out last. " +
			"Then its reference is that reference, its parent that node (or the parent of that node, where it is marked as not adjacent to its parent and a ray cast from there reached it), its cost the cost of that node plus the cost the filter gives for the step from its position to that of the neighbour with these two polygons, plus the cost from there to the end position exactly when the neighbour is the end polygon, and its total that plus at most the distance to the end position unless it is the end polygon. " +
			"The links of a polygon are followed from the first one to the null link; a link is left out only if it has no reference, leads back to the parent, leads to a polygon the filter rejects or no node is left for, has been reached from the same parent or does not make the node cheaper. A search ends only when the list is empty, the end polygon was taken out, the given number of iterations is over, or it fails.",
		Floor: []Floor{{"queries", 3}, {"nodes expanded", 4}, {"starts", 2}, {"lists of links", 2}},
		Assum: []string{"a node of the pool has the reference it was obtained for (Q06)", "a filter does not change the data of the query", "no polygon has a link to itself", "additions of costs are compared as sums, whatever the order"},
		Run:   runQ10,
	})
}

func runQ10(c *Ctx) {
	rel := c.searchRel()
	var entries []*ssa.Function
	for _, f := range c.searchEntries(rel) {
		if c.relevantTo(f, func(g *ssa.Function) bool { o := nodeOp(g); return o == "push" }) {
			entries = append(entries, f)
		}
	}
	c.Parallel(len(entries), func(i int) { c.runQ10(rel, entries[i]) })
}

// sumOf are the summands of a floating-point sum.
func sumOf(t *Term, into *[]*Term) {
	switch {
	case t.op == "f+":
		sumOf(t.a[0], into)
		sumOf(t.a[1], into)
	case zeroCost(t):
	default:
		*into = append(*into, t)
	}
}

func (c *Ctx) runQ10(rel map[*ssa.Function]bool, f *ssa.Function) {
	c.Count("queries", 1)
	sb := c.statusBits()
	null := c.constVal("detour", "nullLink")
	f32 := types.Typ[types.Float32]
	nodeT := types.NewPointer(c.typ("detour", "Node"))
	detached := uint64(c.constVal("detour", "nodeParentDetached"))
	inline := c.searchInline(rel)
	cl := &Client{Inline: inline}
	fl := newFlow(c.Prog, cl)
	fl.K = 24
	var q, startRef, endRef, endPos, maxIter *Term
	var status0 *Term
	kept := map[string]string{"ID": "ref", "PIdx": "pidx", "Cost": "cost", "Pos": "pos"}
	sliced := false
	pops := c.relevantTo(f, func(g *ssa.Function) bool { return nodeOp(g) == "pop" })
	tileOf := func(ref *Term) *Term {
		return fl.tt.mk("tileof", types.NewPointer(c.typ("detour", "MeshTile")), 0, "", nil, nil, ref)
	}
	polyOf := func(ref *Term) *Term {
		return fl.tt.mk("polyof", types.NewPointer(c.typ("detour", "Poly")), 0, "", nil, nil, ref)
	}
	field := func(st *State, n *Term, name string) *Term { return fl.peek(st, fl.fieldPath(n, name)) }
	eq := func(st *State, a, b *Term) bool { return a != nil && b != nil && (a == b || eqIn(st, a, b)) }
	whole := func(t *Term) *Term {
		for t.op == "slice" && (len(t.a) < 2 || t.a[1] == nil || t.a[1].isConst() && t.a[1].n == 0) {
			t = t.a[0]
		}
		return t
	}
	report := func(st *State, in ssa.Instruction, key, format string, args ...interface{}) {
		if st.facts.bad {
			return
		}
		who := fname(in.Parent())
		fl.Report(key+":"+who+":"+fname(f), fl.instrPos(in), who+" (from "+fname(f)+"): "+format+"; "+fl.Path(st), args...)
	}
	forget := func(st *State) {
		for _, k := range []string{"node", "ref", "chain", "next"} {
			delete(st.gt, k)
		}
		for _, k := range []string{"chain", "done", "end", "node", "short", "root", "ray"} {
			delete(st.gs, k)
		}
	}
	// reasons to leave a link out
	reasons := func(st *State) {
		if st.gs["chain"] == "" || st.gs["done"] != "" {
			return
		}
		ref := st.gt["ref"]
		if ref == nil {
			return
		}
		if st.facts.le(ref, fl.tt.konst(0), 0) {
			st.gs["done"] = "1"
		}
		if p := st.gt["parentref"]; p != nil && eq(st, ref, p) {
			st.gs["done"] = "1"
		}
		if n := st.gt["node"]; n != nil {
			if st.gs["end"] == "" {
				switch {
				case eq(st, ref, endRef):
					st.gs["end"] = "yes"
				case st.facts.isNe(ref, endRef):
					st.gs["end"] = "no"
				}
			}
			if st.facts.isNe(st.gt["pidx"], fl.tt.konst(0)) && eq(st, st.gt["pidx"], st.gt["bestpidx"]) {
				st.gs["done"] = "1"
			}
		}
	}
	finished := func(st *State, in ssa.Instruction, when string) {
		if st.gs["chain"] == "" || st.facts.bad {
			return
		}
		if !eq(st, st.gt["chain"], fl.tt.konst(null)) {
			report(st, in, "links", "links of a polygon taken out of the open list may be left out (%s is not known to be the null link) when %s", st.gt["chain"], when)
		}
	}
	ended := func(st *State) {
		if st.gs["searching"] == "" {
			return
		}
		if fl.tt != nil && st.facts.le(fl.peek(st, fl.fieldPath(fl.peek(st, fl.fieldPath(q, "openList")), "size")), fl.tt.konst(0), 0) {
			st.gs["ended"] = "empty"
		} else if b := st.gt["bestref"]; b != nil && st.gs["ended"] == "" && eq(st, b, endRef) {
			st.gs["ended"] = "goal"
		} else if maxIter != nil && st.gt["pops"] != nil && st.facts.le(maxIter, st.gt["pops"], 0) {
			st.gs["ended"] = "count"
		}
	}
	cl.Branch = func(fl *Flow, st *State) {
		if p := st.gt["bestpidx"]; p != nil && st.gs["root"] == "" {
			if st.facts.le(p, fl.tt.konst(0), 0) {
				st.gs["root"] = "yes"
			} else if st.facts.isNe(p, fl.tt.konst(0)) {
				st.gs["root"] = "no"
			}
		}
		reasons(st)
		ended(st)
	}
	cl.Key = func(st *State) string {
		return st.gs["chain"] + "," + st.gs["done"] + "," + st.gs["end"] + "," + st.gs["node"] + "," + st.gs["ended"] + "," + st.gs["short"] + "," + st.gs["root"] + "," + st.gs["ray"]
	}
	cl.Cond = func(fl *Flow, st *State, cond *Term, val bool) {
		if cond.op == "filterpass" && !val && st.gs["chain"] != "" && eq(st, cond.a[0], st.gt["ref"]) {
			st.gs["done"] = "1"
		}
		if cond.op == "fcmp" && len(cond.a) == 2 {
			lo, hi := cond.a[0], cond.a[1]
			if n := st.gt["node"]; n != nil && st.gs["done"] == "" {
				old := st.gt["total"]
				if val && lo == old || !val && hi == old {
					st.gs["done"] = "1"
				}
			}
			if hit := st.gt["hit"]; hit != nil {
				t := fl.peek(st, fl.fieldPath(hit, "T"))
				was, now := st.gs["short"], ""
				c0, c1 := cond.a[0], cond.a[1]
				switch {
				case cond.aux == "<" && c0 == t && oneCost(c1):
					now = map[bool]string{true: "no", false: "yes"}[val]
				case cond.aux == "<=" && c1 == t && oneCost(c0):
					now = map[bool]string{true: "yes", false: "no"}[val]
				}
				switch {
				case now == "":
				case was == "":
					st.gs["short"] = now
				case was != now: // asked before
					st.facts.bad = true
				}
			}
		}
	}
	cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		best := st.gt["bestref"]
		switch {
		case fieldOf(addr, "Poly", "FirstLink") && best != nil && eq(st, addr.a[0], polyOf(best)):
			v := fl.load(st, addr)
			if st.gs["chain"] == "" {
				c.Count("lists of links", 1)
				st.gs["chain"] = "1"
				st.gt["chain"] = v
			}
			return v
		case addr.op == "fa" && strings.HasPrefix(addr.aux, "detour.Node.") && best != nil:
			// kept until the next node is taken out; see Store
			name := strings.TrimPrefix(addr.aux, "detour.Node.")
			if k := kept[name]; k != "" {
				if addr.a[0] == st.gt["best"] || eq(st, addr.a[0], st.gt["best"]) {
					return st.gt["best"+k]
				}
				if addr.a[0] == st.gt["parent"] || eq(st, addr.a[0], st.gt["parent"]) {
					return st.gt["parent"+k]
				}
			}
			return nil
		case addr.op == "fa" && strings.HasPrefix(addr.aux, "detour.Link.") && addr.a[0].op == "ia" && st.gs["chain"] != "" && best != nil:
			at := addr.a[0]
			if !eq(st, at.a[1], st.gt["chain"]) || !eq(st, at.a[0], fl.peek(st, fl.fieldPath(tileOf(best), "Links"))) {
				return nil
			}
			v := fl.load(st, addr)
			switch addr.aux {
			case "detour.Link.Next":
				st.gt["next"] = v
			case "detour.Link.Ref":
				st.gt["ref"] = v
				reasons(st)
			}
			return v
		}
		return nil
	}
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "fa" || !strings.HasPrefix(addr.aux, "detour.Node.") || addr.aux == "detour.Node.Flags" || st.facts.bad {
			return
		}
		if n := st.gt["node"]; n == nil || !eq(st, addr.a[0], n) {
			report(st, in, "changes", "%s is changed, and that is not the node obtained last", addr)
		}
	}
	cl.Back = func(fl *Flow, st *State, header *ssa.BasicBlock) {
		if next := st.gt["next"]; next != nil && st.gs["chain"] != "" {
			if st.gs["done"] == "" {
				report(st, header.Instrs[0], "left-out", "a link of a polygon taken out of the open list may be left out without a reason")
			}
			st.gt["chain"] = next
			delete(st.gt, "next")
			delete(st.gt, "ref")
			delete(st.gt, "node")
			for _, k := range []string{"done", "end", "node", "short", "ray"} {
				delete(st.gs, k)
			}
		}
		delete(st.gt, "hit")
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		if filterMethod(in, callee, "PassFilter") {
			return []Outcome{{st, []*Term{fl.tt.mk("filterpass", types.Typ[types.Bool], 0, "", nil, nil, args[1])}}}, true
		}
		if filterMethod(in, callee, "Cost") {
			a := make([]*Term, 0, 5)
			a = append(a, whole(args[1]), whole(args[2]))
			for i, t := range args[3:] {
				if i%3 == 0 {
					if !(t.isConst() && t.n == 0) && i > 0 && !(eq(st, args[3+i+1], tileOf(t)) && eq(st, args[3+i+2], polyOf(t))) {
						report(st, in, "cost-polygon", "the filter is asked for a cost with the reference %s, the tile %s and the polygon %s, which are not known to belong together", t, args[3+i+1], args[3+i+2])
					}
					a = append(a, t)
				}
			}
			return []Outcome{{st, []*Term{fl.tt.mk("stepcost", f32, 0, "", nil, nil, a...)}}}, true
		}
		if callee == nil {
			return nil, false
		}
		if callee.Name() == "Dist" && len(args) == 2 {
			return []Outcome{{st, []*Term{fl.tt.mk("dist", f32, 0, "", nil, nil, order(whole(args[0]), whole(args[1]))...)}}}, true
		}
		if relPkg(funcPkg(callee)) != "detour" {
			return nil, false
		}
		switch fname(callee) {
		case "(*detour.NavMesh).TileAndPolyByRef", "(*detour.NavMesh).TileAndPolyByRefUnsafe":
			safe := callee.Signature.Results().Len() > 0
			var outs []Outcome
			if safe {
				bad := st.clone()
				res := fl.freshResult(bad, "lookup", in)
				bad.facts.assumeBits(res[0], sb.F, sb.S|sb.P)
				outs = append(outs, Outcome{bad, res})
			}
			for i, t := range []*Term{tileOf(args[1]), polyOf(args[1])} {
				st.facts.assumeNe(t, fl.tt.konst(0))
				fl.store(st, args[2+i], t, in)
			}
			if safe {
				return append(outs, Outcome{st, []*Term{fl.tt.konst(int64(sb.S))}}), true
			}
			return []Outcome{{st, nil}}, true
		case "(*detour.NodePool).NodeIdx":
			return []Outcome{{st, []*Term{fl.tt.mk("nodeidx", types.Typ[types.Uint32], 0, "", nil, nil, args[1])}}}, true
		case "(*detour.NodePool).NodeAtIdx":
			i := stripConv(args[1])
			if i.op == "nodeidx" {
				return []Outcome{{st, []*Term{i.a[0]}}}, true
			}
			none := st.clone()
			none.facts.assumeEq(i, fl.tt.konst(0))
			st.facts.assumeNe(i, fl.tt.konst(0))
			var outs []Outcome
			if !none.facts.bad {
				cl.Branch(fl, none)
				outs = append(outs, Outcome{none, []*Term{fl.tt.konst(0)}})
			}
			if !st.facts.bad {
				cl.Branch(fl, st)
				n := fl.tt.mk("nodeat", nodeT, 0, "", nil, nil, i)
				st.facts.assumeNe(n, fl.tt.konst(0))
				outs = append(outs, Outcome{st, []*Term{n}})
			}
			return outs, true
		case "(*detour.NavMeshQuery).Raycast":
			// (ref, from, to, filter, options, hit, previous)
			fl.opaque(st, in, callee, args)
			p := st.gt["parent"]
			if p != nil && eq(st, args[1], st.gt["parentref"]) && eq(st, whole(args[2]), st.gt["parentpos"]) && st.gt["node"] != nil && eq(st, whole(args[3]), field(st, st.gt["node"], "Pos")) {
				st.gt["hit"] = args[6]
				st.gs["ray"] = "1"
			}
			res := fl.freshResult(st, "raycast", in)
			return []Outcome{{st, res}}, true
		}
		switch op := nodeOp(callee); op {
		case "clear pool":
			fl.opaque(st, in, callee, args)
			st.gs["pool"] = "empty"
			return []Outcome{{st, nil}}, true
		case "alloc":
			first := st.gs["pool"] == "empty"
			var outs []Outcome
			if first {
				delete(st.gs, "pool")
			} else {
				fail := st.clone()
				if st.gs["chain"] != "" && eq(st, args[1], st.gt["ref"]) {
					fail.gs["done"] = "1"
				}
				outs = append(outs, Outcome{fail, []*Term{fl.tt.konst(0)}})
			}
			fl.opaque(st, in, callee, args)
			res := fl.freshResult(st, "node", in)
			n := res[0]
			st.facts.assumeNe(n, fl.tt.konst(0))
			st.mem[fl.fieldPath(n, "ID")] = args[1]
			if first {
				for _, k := range []string{"PIdx", "Cost", "Total", "Flags"} {
					fl.store(st, fl.fieldPath(n, k), fl.tt.konst(0), in)
				}
			}
			st.gt["node"] = n
			st.gt["noderef"] = args[1]
			st.gt["total"] = fl.load(st, fl.fieldPath(n, "Total"))
			st.gt["pidx"] = fl.load(st, fl.fieldPath(n, "PIdx"))
			st.gs["node"] = "other"
			if first {
				st.gs["node"] = "first"
			} else if st.gs["chain"] != "" && eq(st, args[1], st.gt["ref"]) {
				st.gs["node"] = "link"
			}
			reasons(st)
			return append(outs, Outcome{st, res}), true
		case "pop":
			finished(st, in, "the next node is taken out")
			forget(st)
			delete(st.gs, "ended")
			fl.opaque(st, in, callee, args)
			res := fl.freshResult(st, "best", in)
			best := res[0]
			st.facts.assumeNe(best, fl.tt.konst(0))
			st.gt["best"] = best
			for name, k := range kept {
				st.gt["best"+k] = fl.load(st, fl.fieldPath(best, name))
			}
			p := fl.tt.mk("nodeat", nodeT, 0, "", nil, nil, st.gt["bestpidx"])
			st.gt["parent"] = p
			for name, k := range kept {
				st.gt["parent"+k] = fl.load(st, fl.fieldPath(p, name))
			}
			if pops := st.gt["pops"]; pops != nil {
				st.gt["pops"] = fl.tt.fromLin(linOf(pops).add(linForm{1, nil}, 1), types.Typ[types.Int])
			}
			return []Outcome{{st, res}}, true
		case "push", "modify":
			if st.facts.bad {
				break
			}
			n := st.gt["node"]
			if n == nil || !eq(st, n, args[1]) {
				report(st, in, op+"-unknown", "%s of %s, which is not the node obtained last", op, args[1])
				break
			}
			pidx, cost, total := field(st, n, "PIdx"), field(st, n, "Cost"), field(st, n, "Total")
			pos := field(st, n, "Pos")
			if id := field(st, n, "ID"); !eq(st, id, st.gt["noderef"]) {
				report(st, in, "ref", "the node of the polygon %s is put in the open list with the reference %s", st.gt["noderef"], id)
			}
			heur := func(t *Term) bool {
				if t.op != "f*" {
					return false
				}
				for i := range t.a {
					if d := t.a[i]; len(t.a) == 2 && d.op == "dist" && (eq(st, d.a[0], pos) && eq(st, d.a[1], endPos) || eq(st, d.a[1], pos) && eq(st, d.a[0], endPos)) {
						k, ok := new(big.Rat).SetString(t.a[1-i].aux)
						return t.a[1-i].op == "sconst" && ok && k.Sign() >= 0 && k.Cmp(big.NewRat(1, 1)) <= 0
					}
				}
				return false
			}
			if st.gs["node"] == "first" && st.gt["best"] == nil {
				c.Count("starts", 1)
				if !eq(st, st.gt["noderef"], startRef) {
					report(st, in, "start", "the search starts from the polygon %s, which is not the start polygon", st.gt["noderef"])
				}
				if pops {
					st.gs["searching"] = "1"
				}
				if !eq(st, pidx, fl.tt.konst(0)) {
					report(st, in, "start-parent", "the first node has the parent %s", pidx)
				}
				if !zeroCost(cost) {
					report(st, in, "start-cost", "the first node has the cost %s (%s)", cost, cost.op)
				}
				fl.opaque(st, in, callee, args)
				return []Outcome{{st, nil}}, true
			}
			c.Count("nodes expanded", 1)
			if st.gs["node"] != "link" || st.gt["ref"] == nil {
				report(st, in, "link", "the node of the polygon %s is put in the open list, and that is not known to come from the current link of the polygon taken out last", st.gt["noderef"])
				break
			}
			short := false
			switch {
			case eq(st, pidx, fl.tt.mk("nodeidx", types.Typ[types.Uint32], 0, "", nil, nil, st.gt["best"])):
				if b := st.facts.Bits(field(st, n, "Flags")); b.zeros&detached == 0 && sliced {
					report(st, in, "detached", "a node reached over a link may be marked as not adjacent to its parent (flags %s)", field(st, n, "Flags"))
				}
			case st.gs["short"] == "yes" && eq(st, pidx, st.gt["bestpidx"]):
				short = true
				if b := st.facts.Bits(field(st, n, "Flags")); b.ones&detached == 0 {
					report(st, in, "adjacent", "a node reached by a ray cast may not be marked as not adjacent to its parent (flags %s)", field(st, n, "Flags"))
				}
			default:
				report(st, in, "parent", "the node of a neighbour gets the parent %s, which is not the node taken out last", pidx)
			}
			// cost
			var sum, tot []*Term
			sumOf(cost, &sum)
			sumOf(total, &tot)
			base, step, last, other := 0, 0, 0, 0
			for _, t := range sum {
				ok := func(i int, want *Term) bool { return eq(st, t.a[i], want) }
				switch {
				case !short && eq(st, t, st.gt["bestcost"]), short && eq(st, t, st.gt["parentcost"]):
					base++
				case short && st.gt["hit"] != nil && eq(st, t, fl.peek(st, fl.fieldPath(st.gt["hit"], "PathCost"))):
					step++
				case !short && t.op == "stepcost" && ok(0, st.gt["bestpos"]) && ok(1, pos) && ok(3, st.gt["bestref"]) && ok(4, st.gt["ref"]):
					step++
				case t.op == "stepcost" && ok(0, pos) && ok(1, endPos) && ok(3, st.gt["ref"]):
					last++
				default:
					other++
				}
			}
			want := 0
			if st.gs["end"] == "yes" {
				want = 1
			} else if st.gs["end"] != "no" {
				want = -1
			}
			if base != 1 || step != 1 || last != want || other != 0 {
				report(st, in, "cost", "the cost %s of a neighbour is not the sum of that of the node it is reached from, the step, and the cost to the end position if it is the end polygon (end polygon: %q)", cost, st.gs["end"])
			}
			// total: the cost and the heuristic
			left := map[*Term]int{}
			for _, t := range sum {
				left[t]++
			}
			h := 0
			bad := false
			for _, t := range tot {
				if left[t] > 0 {
					left[t]--
				} else if heur(t) {
					h++
				} else {
					bad = true
				}
			}
			for _, k := range left {
				bad = bad || k != 0
			}
			if bad || h != 1-want {
				report(st, in, "total", "the total %s of a neighbour with the cost %s is not this cost and the scaled distance to the end position if it is not the end polygon (end polygon: %q)", total, cost, st.gs["end"])
			}
			st.gs["done"] = "1"
			fl.opaque(st, in, callee, args)
			return []Outcome{{st, nil}}, true
		}
		return nil, false
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if st.facts.bad || st.gs["searching"] == "" {
			return
		}
		if sliced && st.facts.Bits(status0).zeros&sb.P != 0 {
			return
		}
		for i, x := range res {
			if isStatus(f.Signature.Results().At(i).Type()) && st.facts.Bits(x).ones&sb.F != 0 {
				return
			}
		}
		finished(st, in, "the search returns")
		if st.gs["ended"] == "" {
			report(st, in, "ends", "the search may end although there are nodes in the open list and the end polygon was not reached")
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		q = ps[0]
		refs, poss := []*Term{}, []*Term{}
		for i, p := range f.Params[1:] {
			switch {
			case isPolyRef(p.Type()):
				refs = append(refs, ps[i+1])
			case isNamed(p.Type(), "d3", "Vec3") || strings.HasSuffix(typeStr(p.Type()), "Vec3"):
				poss = append(poss, ps[i+1])
			case isIntType(p.Type()):
				maxIter = ps[i+1]
				st.gt["pops"] = fl.tt.konst(0)
			}
		}
		if len(refs) == 2 && len(poss) == 2 {
			startRef, endRef, endPos = refs[0], refs[1], poss[1]
		} else {
			sliced = true
			startRef, endRef, endPos = fl.load(st, keptField(fl, q, "startRef")), fl.load(st, keptField(fl, q, "endRef")), fl.load(st, keptField(fl, q, "endPos"))
		}
		if sliced {
			st.gs["searching"] = "1"
			status0 = fl.load(st, sliceStatusAddr(fl, q))
		}
	})
	fl.Finish(c, fname(f))
}

func zeroCost(t *Term) bool {
	return t.isConst() && t.n == 0 || t.op == "sconst" && (t.aux == "0" || t.aux == "")
}

func oneCost(t *Term) bool { return t.isConst() && t.n == 1 || t.op == "sconst" && t.aux == "1" }
