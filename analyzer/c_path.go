package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q12",
		Rule: "on every path of every query of detour that stores references of search nodes in a path (helpers analysed at their call sites): " +
			"a search that is done at once stores at every position the reference of the node which that many parents lie above, counted by an earlier walk from the same node over all the parents, position by position down to the first, starting at the number of references it returns, which is all of them or the size of the path. " +
			"A finalization of a sliced search makes every node on the way from the best one to the start, one after the other, the parent of the next one and moves the mark for not adjacent parents along; the best one is the last node of the existing path that the search visited, if there is one; then, from the last one reversed on, it stores for every node either its reference at the next free position or the polygons of a ray cast from it to the next one, which it casts exactly where the mark is, the duplicate of that taken off, and returns how many that are; it stops before the last node only when the path is full or after a ray cast.",
		Floor: []Floor{{"queries", 3}, {"references stored", 3}, {"nodes reversed", 2}, {"ray casts", 2}, {"nodes searched", 1}},
		Assum: []string{"the parents of a node lead to the start node, which has none (Q10)", "every node has one index in the pool"},
		Run:   runQ12,
	})
}

// storesNodeRefs: f stores the reference of a search node in a slice.
func storesNodeRefs(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || !isPolyRef(s.Val.Type()) {
				continue
			}
			if _, ok := s.Addr.(*ssa.IndexAddr); !ok {
				continue
			}
			if u, ok := s.Val.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "detour", "Node") {
					return true
				}
			}
		}
	}
	return false
}

func runQ12(c *Ctx) {
	rel := c.searchRel()
	var entries []*ssa.Function
	for _, f := range c.searchEntries(rel) {
		if c.relevantTo(f, storesNodeRefs) {
			entries = append(entries, f)
		}
	}
	c.Parallel(len(entries), func(i int) { c.runQ12(rel, entries[i]) })
}

func (c *Ctx) runQ12(rel map[*ssa.Function]bool, f *ssa.Function) {
	c.Count("queries", 1)
	sb := c.statusBits()
	nodeT := types.NewPointer(c.typ("detour", "Node"))
	detached := c.constVal("detour", "nodeParentDetached")
	intT := types.Typ[types.Int]
	atOnce := c.relevantTo(f, func(g *ssa.Function) bool { return nodeOp(g) == "pop" })
	inline := c.searchInline(rel)
	cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool {
		return inline(fl, g) || !exportedEntry(g) && c.relevantTo(g, storesNodeRefs) && relPkg(funcPkg(g)) == "detour"
	}}
	fl := newFlow(c.Prog, cl)
	fl.K = 24
	var q, path, existing, trivial, most *Term
	zero := fl.tt.konst(0)
	eq := func(st *State, a, b *Term) bool { return a != nil && b != nil && (a == b || eqIn(st, a, b)) }
	lin := func(t *Term, k int64) *Term {
		return fl.tt.fromLin(linOf(t).add(linForm{1, nil}, k), intT)
	}
	field := func(st *State, n *Term, name string) *Term { return fl.peek(st, fl.fieldPath(n, name)) }
	report := func(st *State, in ssa.Instruction, key, format string, args ...interface{}) {
		if st.facts.bad {
			return
		}
		who := fname(in.Parent())
		fl.Report(key+":"+who+":"+fname(f), fl.instrPos(in), who+" (from "+fname(f)+"): "+format+"; "+fl.Path(st), args...)
	}
	nodeidx := func(n *Term) *Term {
		if n.isConst() && n.n == 0 {
			return zero
		}
		return fl.tt.mk("nodeidx", types.Typ[types.Uint32], 0, "", nil, nil, n)
	}
	// The walk: "w" is "" before it, "1" from the best node up, "2" when the
	// references are stored. "at" is the node the walk is at, "next" its
	// parent, once that was asked for ("has").
	reset := func(st *State) {
		for _, k := range []string{"w", "has", "end", "stored", "out"} {
			delete(st.gs, k)
		}
		for _, k := range []string{"at", "next", "from", "len", "total", "pos"} {
			delete(st.gt, k)
		}
	}
	begin := func(st *State, x *Term) {
		st.gs["w"] = "1"
		st.gt["from"], st.gt["at"] = x, x
		st.gt["len"] = fl.tt.konst(1)
		for _, k := range []string{"has", "end", "stored", "out"} {
			delete(st.gs, k)
		}
		delete(st.gt, "next")
		delete(st.gt, "total")
		st.gt["prev"] = zero
		st.gt["mark"] = zero
	}
	again := func(st *State, x *Term) {
		st.gs["w"] = "2"
		st.gt["at"] = x
		if t := st.gt["total"]; atOnce && t != nil {
			st.gt["pos"] = lin(t, -1)
		}
		for _, k := range []string{"has", "end", "out"} {
			delete(st.gs, k)
		}
		delete(st.gt, "next")
	}
	// sameMark: the flags val have the mark iff mark has it.
	sameMark := func(st *State, val, mark *Term) bool {
		var parts func(t *Term, out *[]*Term)
		parts = func(t *Term, out *[]*Term) {
			if eq(st, t, mark) {
				*out = append(*out, t)
				return
			}
			switch t.op {
			case "and", "or", "xor", "not", "conv", "andnot":
				for _, x := range t.a {
					parts(x, out)
				}
			}
		}
		is := []*Term{mark}
		parts(val, &is)
		unset := st.clone()
		unset.facts.assumeEq(mark, zero)
		for _, t := range is {
			if !t.isConst() {
				unset.facts.assumeBits(t, 0, ^uint64(0))
			}
		}
		if !unset.facts.bad && unset.facts.Bits(val).zeros&uint64(detached) == 0 {
			return false
		}
		set := st.clone()
		set.facts.assumeNe(mark, zero)
		for _, t := range is {
			if !t.isConst() {
				set.facts.assumeBits(t, uint64(detached), 0)
			}
		}
		return set.facts.bad || set.facts.Bits(val).ones&uint64(detached) != 0
	}
	// marked: the mark of the node the walk is at becomes that of its old
	// child, and its own is kept for the next one.
	marked := func(st *State, in ssa.Instruction) {
		if atOnce || st.gs["w"] != "1" {
			return
		}
		now := field(st, st.gt["at"], "Flags")
		old := st.gt["old"]
		if ok := st.gs["marked"]; ok == "bad" || ok == "" && !sameMark(st, now, st.gt["mark"]) {
			report(st, in, "mark", "the mark for a parent that is not adjacent does not move along from the node before it")
		}
		if old == nil {
			old = fl.binop(st, token.AND, now.typ, now.typ, now, fl.tt.konst(detached))
		}
		st.gt["mark"] = old
		delete(st.gt, "old")
		delete(st.gs, "marked")
		delete(st.gt, "flags")
	}
	// visit: the walk gets to x.
	visit := func(st *State, in ssa.Instruction, x *Term) bool {
		w := st.gs["w"]
		switch {
		case w != "" && eq(st, x, st.gt["at"]) && !(w == "1" && st.gs["end"] != ""):
			return true
		case w != "" && st.gs["has"] != "" && eq(st, x, st.gt["next"]) && st.gs["end"] == "":
			if !atOnce && w == "1" && st.gs["stored"] == "" {
				report(st, in, "skipped", "a node is left without having been made the parent of the one before it")
			}
			if !atOnce && w == "2" && st.gs["out"] == "" {
				report(st, in, "left-out", "a node of the path is left out")
			}
			if atOnce && w == "2" && st.gs["out"] == "" {
				st.gs["skip"] = "1"
			}
			marked(st, in)
			st.gt["at"] = st.gt["next"]
			for _, k := range []string{"has", "stored", "out"} {
				delete(st.gs, k)
			}
			delete(st.gt, "next")
			if w == "1" {
				st.gt["len"] = lin(st.gt["len"], 1)
			} else if st.gt["pos"] != nil {
				st.gt["pos"] = lin(st.gt["pos"], -1)
			}
			return true
		case w == "1" && st.gs["end"] != "" && atOnce && eq(st, x, st.gt["from"]):
			again(st, x)
			return true
		case w == "1" && st.gs["end"] != "" && !atOnce && eq(st, x, st.gt["prev"]):
			if st.gs["stored"] == "" {
				report(st, in, "skipped", "the last node is not reversed")
			}
			marked(st, in)
			again(st, x)
			return true
		case w == "" || w == "1" && st.gs["end"] == "" && atOnce:
			begin(st, x)
			if !atOnce {
				best := fl.peek(st, keptField(fl, q, "lastBestNode"))
				switch {
				case st.gs["found"] != "":
					if !eq(st, x, st.gt["start"]) {
						report(st, in, "best", "the path ends at %s, which is not the node of the existing path that was found", x)
					}
				case !eq(st, x, best):
					report(st, in, "best", "the path ends at %s, which is not the best node of the search", x)
				case existing != nil && !st.facts.le(st.gt["tried"], zero, 0):
					report(st, in, "existing", "the path ends at the best node of the search, and a node of the existing path was not looked for")
				}
			}
			return true
		}
		return false
	}
	cl.Key = func(st *State) string {
		r := ""
		for _, k := range []string{"go", "found", "w", "has", "end", "stored", "out", "ray", "dup", "wrote", "rev", "trivial", "full", "skip", "marked"} {
			r += st.gs[k] + ","
		}
		return r
	}
	cl.Branch = func(fl *Flow, st *State) {
		if val := st.gt["flags"]; val != nil && st.gs["marked"] == "bad" && sameMark(st, val, st.gt["mark"]) {
			st.gs["marked"] = "ok"
		}
		if !atOnce && most != nil && st.gs["full"] == "" && st.gt["n"] != nil && st.facts.le(most, st.gt["n"], 0) {
			st.gs["full"] = "1"
		}
		if st.gs["ray"] != "" && st.gs["dup"] == "" && st.gs["has"] != "" && st.gs["end"] == "" {
			n := st.gt["n"]
			switch v, id := fl.peek(st, fl.indexAddr(path, lin(n, -1), c.typ("detour", "PolyRef"))), field(st, st.gt["next"], "ID"); {
			case st.facts.le(n, zero, 0), st.facts.isNe(v, id):
				st.gs["dup"] = "no"
			case st.facts.le(zero, n, 1) && eq(st, v, id):
				st.gs["dup"] = "yes"
				st.gt["n"] = lin(n, -1)
			}
		}
	}
	cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		if addr.isConst() || root(addr).isConst() || addr.op == "fa" && isNodePtr(addr.a[0].typ) && eq(st, addr.a[0], zero) { // a run-time panic
			st.facts.bad = true
			return nil
		}
		if addr.op == "fa" && strings.HasPrefix(addr.aux, "detour.Node.") {
			n := addr.a[0]
			for _, k := range []string{"at", "next", "prev", "from"} {
				if x := st.gt[k]; x != nil && !x.isConst() && eq(st, n, x) {
					n = x
					break
				}
			}
			v := fl.load(st, fl.fieldPath(n, strings.TrimPrefix(addr.aux, "detour.Node.")))
			if fieldOf(addr, "Node", "PIdx") {
				st.gt["owner"], st.gt["pidx"] = n, v
			}
			return v
		}
		return nil
	}
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if st.facts.bad {
			return
		}
		switch {
		case fieldOf(addr, "Node", "Flags") && !atOnce:
			if st.gs["w"] != "1" || !eq(st, addr.a[0], st.gt["at"]) {
				report(st, in, "flags", "the flags of %s are changed, and that is not the node the walk is at", addr.a[0])
				return
			}
			if st.gt["old"] == nil {
				now := field(st, st.gt["at"], "Flags")
				st.gt["old"] = fl.binop(st, token.AND, now.typ, now.typ, now, fl.tt.konst(detached))
			}
			st.gs["marked"] = "bad"
			st.gt["flags"] = val
			if sameMark(st, val, st.gt["mark"]) {
				st.gs["marked"] = "ok"
			}
		case fieldOf(addr, "Node", "PIdx") && !atOnce:
			c.Count("nodes reversed", 1)
			n := addr.a[0]
			if st.gs["w"] != "1" || !eq(st, n, st.gt["at"]) || st.gs["has"] == "" && st.gs["end"] == "" || st.gs["stored"] != "" {
				report(st, in, "reverse", "the parent of %s is changed, and that is not the node the walk is at, or its parent was not looked up before", n)
				return
			}
			if prev := st.gt["prev"]; !eq(st, val, nodeidx(prev)) && !(val.op == "nodeidx" && eq(st, val.a[0], prev)) {
				report(st, in, "order", "a node gets the parent %s, which is not the node before it on the way to the start, %s", val, st.gt["prev"])
			}
			st.gt["prev"] = n
			st.gs["rev"] = "1"
			st.gs["stored"] = "1"
		case addr.op == "ia" && isPolyRef(contentType(addr)):
			base := addr.a[0]
			if !eq(st, base, path) {
				return
			}
			if st.gs["w"] == "" && eq(st, val, trivial) {
				st.gs["trivial"] = "1"
				if !eq(st, addr.a[1], zero) {
					report(st, in, "trivial", "the only polygon of the path is stored at %s", addr.a[1])
				}
				return
			}
			c.Count("references stored", 1)
			ok := false
			for _, x := range []*Term{st.gt["at"], st.gt["next"], st.gt["from"], st.gt["prev"]} {
				if x != nil && !x.isConst() && eq(st, val, field(st, x, "ID")) && visit(st, in, x) && st.gs["w"] == "2" {
					ok = true
					break
				}
			}
			if !ok {
				report(st, in, "node", "%s is stored in the path, and that is not known to be the reference of the next node of it", val)
				return
			}
			want := st.gt["n"]
			if atOnce {
				want = st.gt["pos"]
				if st.gs["wrote"] == "" {
					st.gt["first"] = addr.a[1]
				} else if !eq(st, addr.a[1], lin(st.gt["last"], -1)) {
					report(st, in, "gap", "a reference is stored at %s after the one at %s", addr.a[1], st.gt["last"])
				}
				st.gt["last"] = addr.a[1]
				st.gs["wrote"] = "1"
			} else {
				if st.facts.Bits(field(st, st.gt["at"], "Flags")).zeros&uint64(detached) == 0 {
					report(st, in, "adjacent", "the reference of a node is stored although the next one may not be adjacent")
				}
				if st.gs["out"] != "" {
					report(st, in, "twice", "a node of the path is stored twice")
				}
				if st.gs["ray"] != "" && st.gs["dup"] == "" {
					report(st, in, "duplicate", "the last polygon of a ray cast may be stored again")
				}
				delete(st.gs, "ray")
				delete(st.gs, "dup")
				st.gt["n"] = lin(addr.a[1], 1)
			}
			if !eq(st, addr.a[1], want) {
				report(st, in, "position", "the reference of a node is stored at %s, and it belongs at %s", addr.a[1], want)
			}
			st.gs["out"] = "1"
		}
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		if callee == nil || relPkg(funcPkg(callee)) != "detour" {
			return nil, false
		}
		if in.Parent() == f && c.relevantTo(callee, storesNodeRefs) {
			reset(st)
			st.gs["go"] = "1"
		}
		switch fname(callee) {
		case "(*detour.NodePool).NodeIdx":
			return []Outcome{{st, []*Term{nodeidx(args[1])}}}, true
		case "(*detour.NodePool).NodeAtIdx":
			i := stripConv(args[1])
			if x := st.gt["owner"]; st.gs["go"] != "" && x != nil && eq(st, i, st.gt["pidx"]) {
				if !visit(st, in, x) && !(st.gs["w"] == "") {
					report(st, in, "walk", "the parent of %s is looked up, and the walk along the path is at %s", x, st.gt["at"])
				}
			}
			if st.gs["go"] == "" {
				return nil, false
			}
			none := st.clone()
			none.facts.assumeEq(i, zero)
			st.facts.assumeNe(i, zero)
			if pos := st.gt["pos"]; pos != nil && st.gs["w"] == "2" { // the same parents as before
				none.facts.assumeEq(pos, zero)
				st.facts.assumeLe(fl.tt.konst(1), pos, 0)
			}
			var outs []Outcome
			if !none.facts.bad {
				none.gs["end"] = "1"
				delete(none.gs, "has")
				delete(none.gt, "next")
				if l := none.gt["len"]; l != nil && none.gs["w"] == "1" {
					none.gt["total"] = l
				}
				outs = append(outs, Outcome{none, []*Term{zero}})
			}
			if !st.facts.bad {
				n := fl.tt.mk("nodeat", nodeT, 0, "", nil, nil, i)
				st.facts.assumeNe(n, zero)
				st.gt["next"] = n
				st.gs["has"] = "1"
				delete(st.gs, "end")
				outs = append(outs, Outcome{st, []*Term{n}})
			}
			return outs, true
		case "(*detour.NodePool).FindNodes", "(*detour.NodePool).FindNode":
			if atOnce || existing == nil {
				return nil, false
			}
			c.Count("nodes searched", 1)
			id := stripConv(args[1])
			var i *Term
			if id.op == "load" && id.a[0].op == "ia" && eq(st, id.a[0].a[0], existing) {
				i = id.a[0].a[1]
			}
			if i == nil || !eq(st, i, lin(st.gt["tried"], -1)) || st.gs["found"] != "" {
				report(st, in, "tried", "the nodes of %s are searched, which is not the last polygon of the existing path that was not tried yet", id)
			}
			if i != nil {
				st.gt["tried"] = i
			}
			fl.opaque(st, in, callee, args)
			none := st.clone()
			zeros := []*Term{zero}
			res := fl.freshResult(st, "found", in)
			st.facts.assumeNe(res[0], zero)
			if callee.Name() == "FindNode" {
				st.gt["start"] = res[0]
			} else {
				st.facts.assumeLe(fl.tt.konst(1), res[0], 0)
				at := fl.indexAddr(args[2], zero, nodeT)
				x := fl.load(st, at)
				st.facts.assumeNe(x, zero)
				st.gt["start"] = x
			}
			st.gs["found"] = "1"
			return []Outcome{{none, zeros}, {st, res}}, true
		case "(*detour.NavMeshQuery).Raycast2":
			// (ref, from, to, filter, normal, path, capacity)
			c.Count("ray casts", 1)
			at := st.gt["at"]
			dst := args[6]
			lo := zero
			if dst.op == "slice" {
				if len(dst.a) > 1 && dst.a[1] != nil {
					lo = dst.a[1]
				}
				dst = dst.a[0]
			}
			switch {
			case st.gs["w"] != "2" || at == nil || !eq(st, args[1], field(st, at, "ID")) || !eq(st, args[2], field(st, at, "Pos")):
				report(st, in, "ray-from", "the ray cast starts at %s, which is not the polygon and position of the next node of the path", args[1])
			case st.gs["has"] == "" || !eq(st, args[3], field(st, st.gt["next"], "Pos")):
				report(st, in, "ray-to", "the ray cast goes to %s, which is not the position of the node after it", args[3])
			case st.facts.Bits(field(st, at, "Flags")).ones&uint64(detached) == 0:
				report(st, in, "ray-mark", "a ray is cast from a node although the next one may be adjacent")
			case !eq(st, dst, path) || !eq(st, lo, st.gt["n"]):
				report(st, in, "ray-path", "the polygons of a ray cast are stored from %s on, and the next free position is %s", lo, st.gt["n"])
			case st.gs["ray"] != "" && st.gs["dup"] == "":
				report(st, in, "duplicate", "the last polygon of a ray cast may be stored again")
			}
			if eq(st, lo, st.gt["n"]) {
				st.gt["n"] = lo
			}
			fl.opaque(st, in, callee, args)
			res := fl.freshResult(st, "raycast", in)
			if n := st.gt["n"]; n != nil {
				st.gt["n"] = fl.tt.fromLin(linOf(n).add(linOf(res[0]), 1), intT)
			}
			st.gs["out"] = "1"
			st.gs["ray"] = "1"
			delete(st.gs, "dup")
			return []Outcome{{st, res}}, true
		}
		return nil, false
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if st.facts.bad {
			return
		}
		var count *Term
		for i, x := range res {
			t := f.Signature.Results().At(i).Type()
			if isStatus(t) && st.facts.Bits(x).ones&sb.F != 0 {
				return
			}
			if !isStatus(t) && isIntType(t) {
				count = x
			}
		}
		switch {
		case st.gs["trivial"] != "":
			if !eq(st, count, fl.tt.konst(1)) {
				report(st, in, "count", "a path of one polygon is returned with the number %s", count)
			}
		case atOnce:
			if st.gs["wrote"] == "" || !eq(st, st.gt["last"], zero) {
				report(st, in, "first", "the path may be returned without its first polygon (last one stored: %v)", st.gt["last"])
			} else if !eq(st, st.gt["first"], lin(count, -1)) {
				report(st, in, "count", "the number of polygons of the path is returned as %s, and the last one was stored at %s", count, st.gt["first"])
			} else if size := fl.lenAt(path, path.typ); !eq(st, count, st.gt["total"]) && !eq(st, count, size) {
				report(st, in, "complete", "the number of polygons of the path is returned as %s, which is neither all of them nor the size of the path", count)
			}
		default:
			if !eq(st, count, st.gt["n"]) {
				report(st, in, "count", "the number of polygons of the path is returned as %s, and %s were stored", count, st.gt["n"])
			}
			if st.gs["ray"] == "" && !(st.gs["w"] == "2" && st.gs["end"] != "" && st.gs["out"] != "") && st.gs["full"] == "" {
				report(st, in, "incomplete", "the path may be returned without its last polygons although it is not full")
			}
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		q = ps[0]
		for i, p := range f.Params[1:] {
			if p.Type().Underlying().String() == "[]github.com/arl/go-detour/detour.PolyRef" {
				existing = path
				path = ps[i+1] // the last one
				if existing != nil && i+2 < len(ps) && isIntType(f.Params[i].Type()) {
					st.gt["tried"] = ps[i]
				}
			}
			if isIntType(p.Type()) && !isStatus(p.Type()) {
				most = ps[i+1] // the last one
			}
			if isPolyRef(p.Type()) && trivial == nil {
				trivial = ps[i+1]
			}
		}
		if trivial == nil {
			trivial = fl.load(st, keptField(fl, q, "startRef"))
		}
		st.gt["n"] = zero
		if storesNodeRefs(f) {
			st.gs["go"] = "1"
		}
	})
	fl.Finish(c, fname(f))
}
