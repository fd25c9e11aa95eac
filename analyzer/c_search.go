package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q05",
		Rule: "on every path of FindPath and of the methods of the sliced search (callees analysed at their call sites): after NodePool.Node has returned nil, a status that does not fail has OutOfNodes when it is returned, or is kept for the next step; with OutOfNodes or PartialResult in the status kept at entry, the status kept at exit, or returned by the finalizing methods, still has it unless it fails. " +
			"FindPath and FinalizeSlicedFindPath return a status without PartialResult and without failure only where the path conditions imply that start and end are the same polygon, or that the node the path is built from is that of the end polygon.",
		Floor: []Floor{{"methods", 4}, {"returned statuses", 12}, {"failed node allocations", 2}, {"complete results", 3}},
		Assum: []string{"a path built from a node ends at the polygon of that node"},
		Run:   runQ05,
	})
	register(&Check{
		ID: "Q06",
		Rule: "typestate over every path of the queries: a node is allocated from the pool, or pushed in the open list, only after both were cleared in the same call, or while the status kept at entry is in progress; the kept status becomes in progress only after both were cleared and the start was pushed. " +
			"For an arbitrary bucket k, NodePool.Clear and newNodePool leave first[k] at the null index and the node count at zero, nodeQueue.clear leaves the size at zero. NodePool.Node returns a node of the reference and state asked for, a new one with parent, costs and flags zeroed, linked in front of the bucket; nil only when all nodes are used. Node, FindNode and FindNodes use the same bucket, and return nodes of that reference only.",
		Floor: []Floor{{"queries", 4}, {"uses of the search state", 6}, {"pool operations", 6}, {"returns", 12}},
		Assum: []string{"the number of nodes of a pool is at most 65535"},
		Run:   runQ06,
	})
	register(&Check{
		ID: "Q07",
		Rule: "typestate of the node last obtained from the pool, and of the node last popped, on every path of the queries: when a node is pushed, the flags it had when it was obtained are known to lack the open flag, and by the next node operation it has the open flag and lacks the closed one; a node is moved in the list only where it is known to be open; no other node gets or loses the open flag. " +
			"A popped node has the closed flag and lacks the open flag by the next node operation or return. Parent, cost and total of an obtained node are written only where its flags are known to lack open and closed, or where the new total is known to be lower than the one it had.",
		Floor: []Floor{{"queries", 3}, {"pushes", 3}, {"moves", 2}, {"pops", 2}, {"updates of nodes", 6}},
		Assum: []string{"the nodes of the open list are those with the open flag when a method is entered"},
		Run:   runQ07,
	})
}

// nodeOp tells which operation of the search state is called.
func nodeOp(callee *ssa.Function) string {
	if callee == nil || relPkg(funcPkg(callee)) != "detour" || callee.Signature.Recv() == nil {
		return ""
	}
	recv := callee.Signature.Recv().Type()
	switch {
	case isNamed(recv, "detour", "NodePool"):
		switch callee.Name() {
		case "Node":
			return "alloc"
		case "Clear":
			return "clear pool"
		}
	case isNamed(recv, "detour", "nodeQueue"):
		switch callee.Name() {
		case "clear":
			return "clear list"
		case "push", "pop", "modify":
			return callee.Name()
		}
	}
	return ""
}

// searchRel are the functions that use the search state, and their callers.
func (c *Ctx) searchRel() map[*ssa.Function]bool {
	for _, n := range []string{"NodePool.Node", "NodePool.Clear", "nodeQueue.clear", "nodeQueue.push", "nodeQueue.pop", "nodeQueue.modify"} {
		c.fn("detour", n)
	}
	return c.relevant(func(f *ssa.Function) bool {
		if nodeOp(f) != "" {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "detour", "queryData") && f.Name() != "newQueryData" {
					return true
				}
			}
		}
		return false
	})
}

// searchEntries are the exported methods of the query object among rel.
func (c *Ctx) searchEntries(rel map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.queryEntries(rel) {
		if f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), "detour", "NavMeshQuery") {
			r = append(r, f)
		}
	}
	return r
}

// searchInline: the functions of rel, and small helpers.
func (c *Ctx) searchInline(rel map[*ssa.Function]bool) func(fl *Flow, g *ssa.Function) bool {
	return func(fl *Flow, g *ssa.Function) bool {
		if nodeOp(g) != "" || exportedEntry(g) && g.Signature.Recv() != nil {
			return false
		}
		if rel[g] {
			return true
		}
		rs := g.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if t := rs.At(i).Type(); isBoolType(t) || isStatus(t) {
				return c.simpleFn(g)
			}
		}
		return rs.Len() == 0 && c.simpleFn(g)
	}
}

func (fl *Flow) eq(st *State, a, b *Term) bool {
	return a == b || st.facts.le(a, b, 0) && st.facts.le(b, a, 0)
}

// ------------------------------------------------------------------------ Q05

func runQ05(c *Ctx) {
	rel := c.searchRel()
	type job struct {
		f   *ssa.Function
		bit string
	}
	var jobs []job
	for _, f := range c.searchEntries(rel) {
		hasStatus := false
		for i := 0; i < f.Signature.Results().Len(); i++ {
			hasStatus = hasStatus || isStatus(f.Signature.Results().At(i).Type())
		}
		if !hasStatus {
			continue
		}
		uses := c.relevantTo(f, func(g *ssa.Function) bool { return nodeOp(g) == "alloc" }) || c.relevantTo(f, func(g *ssa.Function) bool { return g != f && false || c.readsLastBest(g) })
		if !uses {
			continue
		}
		c.Count("methods", 1)
		for _, bit := range []string{"", "OutOfNodes", "PartialResult"} {
			if bit != "" && (f.Name() == "FindPath" || f.Name() == "InitSlicedFindPath") {
				continue
			}
			jobs = append(jobs, job{f, bit})
		}
	}
	c.Parallel(len(jobs), func(i int) { c.runQ05(rel, jobs[i].f, jobs[i].bit) })
}

// readsLastBest: g uses the best node kept by the sliced search.
func (c *Ctx) readsLastBest(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "detour", "queryData") && isNamed(deref(fa.Type()), "detour", "Node") {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) runQ05(rel map[*ssa.Function]bool, f *ssa.Function, bitName string) {
	sb := c.statusBits()
	oon := uint64(c.constVal("detour", "OutOfNodes"))
	partial := uint64(c.constVal("detour", "PartialResult"))
	var q, kept, lastID *Term
	idx := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isStatus(f.Signature.Results().At(i).Type()) {
			idx = i
		}
	}
	finalizing := false
	sliced := c.relevantTo(f, func(g *ssa.Function) bool { return c.readsLastBest(g) })
	nodeClass := c.typ("detour", "Node")
	cl := &Client{Inline: c.searchInline(rel)}
	// a function that turns a node into a path
	pathOf := func(g *ssa.Function) int {
		at, slice := -1, false
		for i, p := range g.Params {
			if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), nodeClass) {
				at = i
			}
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isPolyRef(s.Elem()) {
				slice = true
			}
		}
		if !slice {
			return -1
		}
		return at
	}
	inline := cl.Inline
	cl.Inline = func(fl *Flow, g *ssa.Function) bool {
		if relPkg(funcPkg(g)) == "detour" && pathOf(g) >= 0 && g != f {
			return false
		}
		return inline(fl, g)
	}
	fl := newFlow(c.Prog, cl)
	fl.K = 6
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		if callee == nil {
			return nil, false
		}
		if nodeOp(callee) == "clear pool" {
			st.gs["pool"] = "empty"
			return nil, false
		}
		if nodeOp(callee) == "alloc" {
			empty := st.gs["pool"] == "empty"
			delete(st.gs, "pool")
			fail := st.clone()
			fl.opaque(st, in, callee, args)
			res := fl.freshResult(st, "node", in)
			st.facts.assumeNe(res[0], fl.tt.konst(0))
			if empty {
				return []Outcome{{st, res}}, true
			}
			if bitName == "" {
				c.Count("failed node allocations", 1)
			}
			fail.gs["out of nodes"] = "yes"
			return []Outcome{{fail, []*Term{fl.tt.konst(0)}}, {st, res}}, true
		}
		if f.Name() == "FinalizeSlicedFindPathPartial" && findsNodes(callee) {
			// whether a polygon was visited by the search
			none := st.clone()
			fl.opaque(st, in, callee, args)
			res := fl.freshResult(st, "found", in)
			st.facts.assumeNe(res[0], fl.tt.konst(0))
			st.gs["found"] = "yes"
			delete(none.gs, "found")
			return []Outcome{{none, []*Term{fl.tt.konst(0)}}, {st, res}}, true
		}
		if relPkg(funcPkg(callee)) == "detour" && pathOf(callee) >= 0 {
			n := args[pathOf(callee)]
			if n.isConst() {
				return nil, true
			}
			fl.opaque(st, in, callee, args)
			st.gt["end"] = fl.load(st, fl.fieldPath(n, "ID"))
			res := fl.freshResult(st, callee.Name(), in)
			for i := range res {
				if isStatus(callee.Signature.Results().At(i).Type()) {
					st.facts.assumeBits(res[i], sb.S, sb.F|sb.P)
				}
			}
			return []Outcome{{st, res}}, true
		}
		return nil, false
	}
	cl.Branch = func(fl *Flow, st *State) {
		if end := st.gt["end polygon"]; end != nil && (fl.eq(st, end, st.gt["first polygon"]) || fl.eq(st, end, st.gt["last polygon"])) {
			st.gs["complete"] = "yes"
		}
	}
	cl.Key = func(st *State) string {
		if kept == nil {
			return ""
		}
		b := st.facts.Bits(fl.peek(st, kept))
		return fmt.Sprintf("%x %x %s", b.ones&(sb.S|sb.F|sb.P|oon|partial), b.zeros&(sb.S|sb.F|sb.P), st.gs["found"])
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if bitName == "" {
			c.Count("returned statuses", 1)
		}
		b := st.facts.Bits(res[idx])
		at := fl.instrPos(in)
		if b.ones&sb.F != 0 || st.facts.bad {
			return
		}
		kb := bitFact{}
		var k *Term
		if kept != nil {
			k = fl.peek(st, kept)
			kb = st.facts.Bits(k)
		}
		has := func(bit uint64) bool {
			// where the search goes on, the flag must be kept
			if b.ones&bit != 0 && (k == nil || finalizing || kb.ones&bit != 0 || kb.ones&sb.F != 0) {
				return true
			}
			return false
		}
		if st.gs["out of nodes"] != "" && !has(oon) {
			fl.Report("out-of-nodes:"+fname(f), at, "%s returns the status %s (kept status %v) which may lack OutOfNodes although a search node could not be allocated; %s", fname(f), res[idx], k, fl.Path(st))
		}
		if bitName == "OutOfNodes" && !has(oon) {
			fl.Report("lost:OutOfNodes:"+fname(f), at, "%s returns the status %s (kept status %v) which may lack OutOfNodes although the kept status had it; %s", fname(f), res[idx], k, fl.Path(st))
		}
		if bitName == "PartialResult" && !has(partial) {
			fl.Report("lost:PartialResult:"+fname(f), at, "%s returns the status %s (kept status %v) which may lack PartialResult although the kept status had it; %s", fname(f), res[idx], k, fl.Path(st))
		}
		if bitName != "" || b.ones&partial != 0 {
			return
		}
		// complete
		var start, end, last *Term
		switch {
		case f.Name() == "FindPath":
			var refs []*Term
			for i, p := range f.Params {
				if isPolyRef(p.Type()) {
					refs = append(refs, fl.param(st, f.Params[i]))
				}
			}
			start, end, last = refs[0], refs[1], st.gt["end"]
		case f.Name() == "FinalizeSlicedFindPathPartial" && st.gs["found"] != "":
			return // the path ends at the polygon asked for
		case finalizing:
			start, end, last = fl.tt.mk("sym", c.typ("detour", "PolyRef"), 0, "start", nil, nil), fl.tt.mk("sym", c.typ("detour", "PolyRef"), 0, "end", nil, nil), lastID
		default:
			return
		}
		c.Count("complete results", 1)
		if st.gt["end polygon"] != nil && st.gs["complete"] != "" {
			return
		}
		if !fl.eq(st, start, end) && (last == nil || !fl.eq(st, last, end)) {
			fl.Report("partial:"+fname(f), at, "%s may return the status %s without PartialResult although neither the start nor the last polygon (%v) is known to be the end polygon; %s", fname(f), res[idx], last, fl.Path(st))
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		q = ps[0]
		if !sliced {
			return
		}
		kept = sliceStatusAddr(fl, q)
		finalizing = strings.HasPrefix(f.Name(), "Finalize")
		if f.Name() == "InitSlicedFindPath" {
			return
		}
		v := fl.tt.mk("sym", contentType(kept), 0, "status before", nil, nil)
		st.mem[kept] = v
		all := sb.S | sb.F | sb.P
		if bitName != "" {
			// finalizing is for a search that did not fail; updating for one in progress
			st.facts.assumeBits(v, uint64(c.constVal("detour", bitName)), sb.F)
			if !finalizing {
				st.facts.assumeBits(v, sb.P, all&^sb.P)
			}
		}
		pr := c.typ("detour", "PolyRef")
		st.mem[keptField(fl, q, "startRef")] = fl.tt.mk("sym", pr, 0, "start", nil, nil)
		st.mem[keptField(fl, q, "endRef")] = fl.tt.mk("sym", pr, 0, "end", nil, nil)
		a := keptField(fl, q, "lastBestNode")
		n := fl.tt.mk("sym", contentType(a), 0, "best node before", nil, nil)
		st.mem[a] = n
		lastID = fl.load(st, fl.fieldPath(n, "ID"))
		if finalizing {
			st.gt["first polygon"] = fl.load(st, keptField(fl, q, "startRef"))
			st.gt["end polygon"] = fl.load(st, keptField(fl, q, "endRef"))
			st.gt["last polygon"] = lastID
		}
	})
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Printf("%s [%s]: %d steps, %d terms\n", fname(f), bitName, fl.steps, len(fl.tt.list))
	}
	c.Sample("%s, kept status with %q: %d functions, %d blocks", fname(f), bitName, len(fl.Visited), len(fl.Blocks))
}

// findsNodes: f looks in the pool for the nodes of a polygon, and gives their
// number or one of them.
func findsNodes(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil || !isNamed(deref(r.Type()), "detour", "NodePool") || nodeOp(f) != "" || f.Signature.Results().Len() != 1 {
		return false
	}
	ref := false
	for _, p := range f.Params {
		ref = ref || isPolyRef(p.Type())
	}
	t := f.Signature.Results().At(0).Type()
	return ref && (isIntType(t) || isNamed(deref(t), "detour", "Node"))
}

// ------------------------------------------------------------------------ Q06

func runQ06(c *Ctx) {
	rel := c.searchRel()
	entries := c.searchEntries(rel)
	c.Parallel(len(entries), func(i int) { c.runQ06(rel, entries[i]) })
	c.poolClear("NodePool.Clear")
	c.poolClear("newNodePool")
	c.listClear()
	c.poolNode()
	c.poolFind()
}

func (c *Ctx) runQ06(rel map[*ssa.Function]bool, f *ssa.Function) {
	sb := c.statusBits()
	c.Count("queries", 1)
	var kept *Term
	var before *Term
	cl := &Client{Inline: c.searchInline(rel)}
	fl := newFlow(c.Prog, cl)
	fl.K = 6
	ready := func(st *State, what string) bool {
		return st.gs["pool"] == "cleared" && st.gs["list"] == "cleared" || st.facts.Bits(before).ones&sb.P != 0
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		op := nodeOp(callee)
		if op == "" {
			return nil, false
		}
		own := func(field string) bool {
			return fl.eq(st, args[0], fl.peek(st, fl.fieldPath(fl.param(st, f.Params[0]), field)))
		}
		who := fname(in.Parent())
		switch op {
		case "clear pool":
			if own("nodePool") {
				st.gs["pool"] = "cleared"
			}
		case "clear list":
			if own("openList") {
				st.gs["list"] = "cleared"
				delete(st.gs, "pushed")
			}
		case "alloc", "push":
			c.Count("uses of the search state", 1)
			if op == "alloc" && !own("nodePool") || op == "push" && !own("openList") {
				fl.Report("other:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s) uses the pool or list %s, which is not that of the query", who, fname(f), args[0])
			} else if !ready(st, op) && !st.facts.bad {
				fl.Report("not-cleared:"+op+":"+who+":"+fname(f), fl.instrPos(in), "%s (from %s): %s although the node pool and the open list were not both cleared before, and no search is known to be in progress; %s", who, fname(f), map[string]string{"alloc": "a search node is looked up or allocated", "push": "a node is put in the open list"}[op], fl.Path(st))
			}
			if op == "push" {
				st.gs["pushed"] = "yes"
			}
		}
		return nil, false
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		c.Count("returns", 1)
		v := fl.peek(st, kept)
		b := st.facts.Bits(v)
		if v == before || b.zeros&sb.P != 0 || st.facts.bad {
			return
		}
		if st.facts.Bits(before).ones&sb.P != 0 {
			return
		}
		if st.gs["pool"] != "cleared" || st.gs["list"] != "cleared" || st.gs["pushed"] == "" {
			fl.Report("in-progress:"+fname(f), fl.instrPos(in), "%s may leave a search in progress (status %s) although it did not clear the node pool and the open list and put the start in the list; %s", fname(f), v, fl.Path(st))
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		kept = sliceStatusAddr(fl, ps[0])
		before = fl.tt.mk("sym", contentType(kept), 0, "status before", nil, nil)
		st.mem[kept] = before
	})
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Printf("%s: %d steps, %d terms\n", fname(f), fl.steps, len(fl.tt.list))
	}
	c.Sample("%s: %d functions, %d blocks", fname(f), len(fl.Visited), len(fl.Blocks))
}

// poolClear: every bucket is empty when the function returns.
func (c *Ctx) poolClear(name string) {
	f := c.fn("detour", name)
	null := c.constVal("detour", "nullIdx")
	c.Count("pool operations", 1)
	cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool { return fl.inModule(g) }}
	fl := newFlow(c.Prog, cl)
	k := fl.tt.mk("sym", types.Typ[types.Int], 0, "k", nil, nil)
	cl.Index = nil
	var pool *Term
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "ia" || typeStr(contentType(addr)) != "detour.NodeIndex" {
			return
		}
		key := fmt.Sprintf("null %d", root(addr).id)
		if addr.a[1] != k && !fl.eq(st, addr.a[1], k) {
			if !st.facts.isNe(addr.a[1], k) {
				fl.undecided("%s: the element %s is written", fname(f), addr)
			}
			return
		}
		if val.isConst() && val.n == null {
			st.gs[key] = "yes"
		} else {
			delete(st.gs, key)
		}
	}
	cl.Key = func(st *State) string { return "" }
	// the element written is that of k, or another
	cl.Split = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		if addr.op == "ia" && typeStr(contentType(addr)) == "detour.NodeIndex" && addr.a[1] != k {
			return fl.eq0(linOf(addr.a[1]).add(linOf(k), -1))
		}
		return nil
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		c.Count("returns", 1)
		p := pool
		if len(res) > 0 {
			p = res[0]
		}
		first := fl.peek(st, fl.fieldPath(p, "first"))
		ok := st.gs[fmt.Sprintf("null %d", root(first).id)] != ""
		if !ok && first.op == "slice" {
			ok = st.gs[fmt.Sprintf("null %d", root(first.a[0]).id)] != ""
		}
		if !ok && !st.facts.le(fl.lenAt(first, types.NewSlice(types.Typ[types.Int])), k, 0) {
			fl.Report("buckets:"+fname(f), fl.instrPos(in), "%s may return without having emptied every bucket of the node pool; %s", fname(f), fl.Path(st))
		}
		if n := fl.peek(st, fl.fieldPath(p, "nodeCount")); !fl.eq(st, n, fl.tt.konst(0)) {
			fl.Report("count:"+fname(f), fl.instrPos(in), "%s leaves the node count at %s", fname(f), n)
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		st.facts.assumeLe(fl.tt.konst(0), k, 0)
		pool = ps[0]
	})
	fl.Finish(c, fname(f))
}

func (c *Ctx) listClear() {
	f := c.fn("detour", "nodeQueue.clear")
	c.Count("pool operations", 1)
	cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool { return fl.inModule(g) }}
	fl := newFlow(c.Prog, cl)
	var q *Term
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		c.Count("returns", 1)
		if n := fl.peek(st, fl.fieldPath(q, "size")); !fl.eq(st, n, fl.tt.konst(0)) {
			fl.Report("size:"+fname(f), fl.instrPos(in), "%s leaves the size at %s", fname(f), n)
		}
	}
	fl.Run(f, func(st *State, ps []*Term) { q = ps[0] })
	fl.Finish(c, fname(f))
}

func (c *Ctx) poolNode() {
	f := c.fn("detour", "NodePool.Node")
	c.Count("pool operations", 1)
	cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool { return g.Name() != "hashRef" && fl.inModule(g) }}
	fl := newFlow(c.Prog, cl)
	var pool, id, state, count, max *Term
	// the old first node of the bucket becomes the next of the new one
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "ia" {
			return
		}
		switch addr.a[0] {
		case fl.peek(st, fl.fieldPath(pool, "first")):
			delete(st.gs, "linked")
			if fl.eq(st, stripConv(val), count) {
				st.gs["linked"] = "yes"
			}
			old := fl.peek(st, addr)
			st.gt["old first"] = old
			if v := st.gt["next"]; v != nil && (fl.eq(st, v, old) || v.op == "load" && v.a[0] == addr) {
				st.gs["chained"] = "yes"
			}
		case fl.peek(st, fl.fieldPath(pool, "next")):
			if !fl.eq(st, stripConv(addr.a[1]), count) {
				return
			}
			st.gt["next"] = val
			delete(st.gs, "chained")
			if old := st.gt["old first"]; old != nil && fl.eq(st, val, old) {
				st.gs["chained"] = "yes"
			}
		}
	}
	zero := func(st *State, t *Term) bool {
		return t.isConst() && t.n == 0 || t.op == "sconst" && (t.aux == "0" || t.aux == "0.0") || t.op == "zero" || isIntType(t.typ) && fl.eq(st, t, fl.tt.konst(0))
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		c.Count("returns", 1)
		n, at := res[0], fl.instrPos(in)
		now := fl.peek(st, fl.fieldPath(pool, "nodeCount"))
		if n.isConst() {
			if !st.facts.le(max, count, 0) {
				fl.Report("nil", at, "%s may return nil although not all nodes are used; %s", fname(f), fl.Path(st))
			}
			if now != count {
				fl.Report("nil-count", at, "%s changes the node count although it returns nil", fname(f))
			}
			return
		}
		get := func(name string) *Term { return fl.peek(st, fl.fieldPath(n, name)) }
		if v := get("ID"); !fl.eq(st, v, id) {
			fl.Report("id", at, "%s may return a node of the polygon %s; %s", fname(f), v, fl.Path(st))
		}
		if v := get("State"); !fl.eq(st, v, state) {
			fl.Report("state", at, "%s may return a node with the state %s; %s", fname(f), v, fl.Path(st))
		}
		if fl.eq(st, now, count) {
			return
		}
		if !fl.eq(st, now, fl.tt.fromLin(linOf(count).add(linForm{1, nil}, 1), count.typ)) {
			fl.Report("count", at, "%s leaves the node count at %s", fname(f), now)
		}
		for _, name := range []string{"PIdx", "Cost", "Total", "Flags"} {
			if v := get(name); !zero(st, v) {
				fl.Report("field:"+name, at, "%s returns a new node with %s = %s, left by an earlier search; %s", fname(f), name, v, fl.Path(st))
			}
		}
		// the node is the next unused one, and the first of its bucket
		nodes := fl.peek(st, fl.fieldPath(pool, "nodes"))
		if n.op != "ia" || n.a[0] != nodes || !fl.eq(st, stripConv(n.a[1]), count) {
			fl.Report("slot", at, "%s returns %s, which is not the first unused node", fname(f), n)
			return
		}
		if st.gs["linked"] != "" && st.gs["chained"] == "" {
			fl.Report("chain", at, "%s puts a new node in front of its bucket without linking it to the nodes the bucket had; %s", fname(f), fl.Path(st))
		}
		if st.gs["linked"] == "" {
			fl.Report("bucket", at, "%s returns a new node that is not put in its bucket; %s", fname(f), fl.Path(st))
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		pool, id, state = ps[0], ps[1], ps[2]
		count = fl.load(st, fl.fieldPath(pool, "nodeCount"))
		max = fl.load(st, fl.fieldPath(pool, "maxNodes"))
		st.facts.assumeLe(fl.tt.konst(0), count, 0)
		st.facts.assumeLe(max, fl.tt.konst(65535), 0)
	})
	fl.Finish(c, fname(f))
}

func stripConv(t *Term) *Term {
	for t.op == "conv" {
		t = t.a[0]
	}
	return t
}

// poolFind: the lookups return nodes of the reference, from the bucket Node uses.
func (c *Ctx) poolFind() {
	buckets := map[string]map[string]bool{}
	tt := newTermTable()
	for _, name := range []string{"NodePool.Node", "NodePool.FindNode", "NodePool.FindNodes"} {
		f := c.fn("detour", name)
		c.Count("pool operations", 1)
		cl := &Client{Inline: func(fl *Flow, g *ssa.Function) bool { return fl.inModule(g) }}
		fl := newFlow(c.Prog, cl)
		fl.tt = tt
		pool := tt.mk("sym", f.Params[0].Type(), 0, "pool", nil, nil)
		id := tt.mk("sym", f.Params[1].Type(), 0, "ref", nil, nil)
		bs := map[string]bool{}
		buckets[name] = bs
		args := []*Term{pool, id}
		for _, p := range f.Params[2:] {
			args = append(args, tt.mk("sym", p.Type(), 0, "other "+p.Name(), nil, nil))
		}
		cl.Index = func(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term) {
			if base.op == "load" && fieldOf(base.a[0], "NodePool", "first") {
				bs[idx.str(40)] = true
			}
		}
		check := func(st *State, in ssa.Instruction, n *Term) {
			if n.isConst() {
				return
			}
			if v := fl.peek(st, fl.fieldPath(n, "ID")); !fl.eq(st, v, id) {
				fl.Report("find:"+name, fl.instrPos(in), "%s may give a node of the polygon %s; %s", name, v, fl.Path(st))
			}
			if f.Signature.Params().Len() == 2 && f.Signature.Results().Len() == 1 {
				if v := fl.peek(st, fl.fieldPath(n, "State")); !fl.eq(st, v, args[2]) {
					fl.Report("find-state:"+name, fl.instrPos(in), "%s may give a node with the state %s; %s", name, v, fl.Path(st))
				}
			}
		}
		cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			c.Count("returns", 1)
			if isNamed(deref(f.Signature.Results().At(0).Type()), "detour", "Node") {
				check(st, in, res[0])
			}
		}
		cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == "ia" && fl.entryValue(root(addr)) && root(addr) != pool && isNamed(deref(contentType(addr)), "detour", "Node") {
				check(st, in, val)
			}
		}
		st := fl.newState()
		fl.exec(f, args, nil, st, "", true)
		fl.Finish(c, fname(f))
	}
	want := buckets["NodePool.Node"]
	for n, bs := range buckets {
		for b := range bs {
			if !want[b] || len(want) != 1 {
				c.Violate("bucket:"+n, c.pos(c.fn("detour", n).Pos()), "%s looks for a node in the bucket %s, and Node puts it in another", n, b)
			}
		}
		if len(bs) == 0 {
			c.Violate("bucket:"+n, c.pos(c.fn("detour", n).Pos()), "%s does not look in the buckets of the pool", n)
		}
	}
}

// ------------------------------------------------------------------------ Q07

func runQ07(c *Ctx) {
	rel := c.searchRel()
	var entries []*ssa.Function
	for _, f := range c.searchEntries(rel) {
		if c.relevantTo(f, func(g *ssa.Function) bool { o := nodeOp(g); return o == "push" || o == "pop" || o == "modify" }) {
			entries = append(entries, f)
		}
	}
	c.Parallel(len(entries), func(i int) { c.runQ07(rel, entries[i]) })
}

func (c *Ctx) runQ07(rel map[*ssa.Function]bool, f *ssa.Function) {
	open := uint64(c.constVal("detour", "nodeOpen"))
	closed := uint64(c.constVal("detour", "nodeClosed"))
	c.Count("queries", 1)
	cl := &Client{Inline: c.searchInline(rel)}
	fl := newFlow(c.Prog, cl)
	fl.K = 16
	flags := func(st *State, n *Term) *Term { return fl.peek(st, fl.fieldPath(n, "Flags")) }
	// settled: the node last obtained and the node last popped are marked as they must be.
	settled := func(st *State, in ssa.Instruction, what string) {
		if st.facts.bad {
			return
		}
		who := fname(in.Parent())
		if n := st.gt["node"]; n != nil && !n.isConst() && st.gs["node"] != "" {
			now := flags(st, n)
			b := st.facts.Bits(now)
			was := st.gt["flags"]
			wb := st.facts.Bits(was)
			switch st.gs["node"] {
			case "pushed":
				if b.ones&open == 0 {
					fl.Report("push-open:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s): a node put in the open list may lack the open flag (flags %s) when %s; %s", who, fname(f), now, what, fl.Path(st))
				}
				if b.zeros&closed == 0 {
					fl.Report("push-closed:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s): a node put in the open list may still have the closed flag (flags %s) when %s; %s", who, fname(f), now, what, fl.Path(st))
				}
			default:
				if now != was && !(b.ones&open != 0 && wb.ones&open != 0 || b.zeros&open != 0 && wb.zeros&open != 0) {
					fl.Report("open-flag:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s): the open flag of a node that was neither put in the open list nor taken out of it may have changed (flags %s, %s before) when %s; %s", who, fname(f), now, was, what, fl.Path(st))
				}
			}
		}
		if n := st.gt["popped"]; st.gs["popped"] != "" {
			b := st.facts.Bits(flags(st, n))
			if b.zeros&open == 0 {
				fl.Report("pop-open:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s): a node taken out of the open list may still have the open flag (flags %s) when %s; %s", who, fname(f), flags(st, n), what, fl.Path(st))
			}
			if b.ones&closed == 0 {
				fl.Report("pop-closed:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s): a node taken out of the open list may lack the closed flag (flags %s) when %s; %s", who, fname(f), flags(st, n), what, fl.Path(st))
			}
			st.gt["popped"] = fl.tt.konst(0)
			delete(st.gs, "popped")
		}
	}
	forget := func(st *State) {
		st.gt["node"] = fl.tt.konst(0)
		delete(st.gs, "node")
		delete(st.gs, "better")
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		op := nodeOp(callee)
		who := fname(in.Parent())
		switch op {
		case "":
			return nil, false
		case "clear pool":
			settled(st, in, "the pool is cleared")
			forget(st)
			fl.opaque(st, in, callee, args)
			st.gs["pool"] = "empty"
			return []Outcome{{st, nil}}, true
		case "alloc":
			settled(st, in, "the next one is obtained")
			forget(st)
			var outs []Outcome
			if st.gs["pool"] == "empty" {
				delete(st.gs, "pool")
			} else {
				fail := st.clone()
				outs = append(outs, Outcome{fail, []*Term{fl.tt.konst(0)}})
			}
			fresh := len(outs) == 0
			fl.opaque(st, in, callee, args)
			res := fl.freshResult(st, "node", in)
			n := res[0]
			st.facts.assumeNe(n, fl.tt.konst(0))
			if fresh {
				fl.store(st, fl.fieldPath(n, "Flags"), fl.tt.konst(0), in)
			}
			st.gt["node"] = n
			st.gt["flags"] = fl.load(st, fl.fieldPath(n, "Flags"))
			st.gt["total"] = fl.load(st, fl.fieldPath(n, "Total"))
			st.gs["node"] = "obtained"
			return append(outs, Outcome{st, res}), true
		case "pop":
			c.Count("pops", 1)
			settled(st, in, "another is taken out")
			forget(st)
			fl.opaque(st, in, callee, args)
			res := fl.freshResult(st, "best", in)
			st.facts.assumeNe(res[0], fl.tt.konst(0))
			st.gt["popped"] = res[0]
			st.gs["popped"] = "yes"
			return []Outcome{{st, res}}, true
		case "push", "modify":
			if op == "push" {
				c.Count("pushes", 1)
			} else {
				c.Count("moves", 1)
			}
			if st.gs["popped"] != "" {
				s := st.clone()
				forget(s)
				settled(s, in, "another is put in")
				st.gt["popped"] = fl.tt.konst(0)
				delete(st.gs, "popped")
			}
			if st.facts.bad {
				break
			}
			n := st.gt["node"]
			if n == nil || n.isConst() || !fl.eq(st, n, args[1]) {
				fl.Report(op+"-unknown:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s): %s of %s, which is not the node obtained last", who, fname(f), op, args[1])
				break
			}
			was := st.facts.Bits(st.gt["flags"])
			if op == "push" {
				if st.gs["node"] == "pushed" || was.zeros&open == 0 {
					fl.Report("push-twice:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s) puts a node in the open list that may be in it already (flags %s); %s", who, fname(f), st.gt["flags"], fl.Path(st))
				}
				st.gs["node"] = "pushed"
			} else if st.gs["node"] != "pushed" && was.ones&open == 0 {
				fl.Report("move:"+who+":"+fname(f), fl.instrPos(in), "%s (from %s) moves a node in the open list that may not be in it (flags %s); %s", who, fname(f), st.gt["flags"], fl.Path(st))
			}
			fl.opaque(st, in, callee, args)
			return []Outcome{{st, nil}}, true
		}
		return nil, false
	}
	lower := func(st *State, val *Term) bool {
		old := st.gt["total"]
		for t, v := range st.facts.truth {
			if t.op != "fcmp" || len(t.a) != 2 {
				continue
			}
			switch {
			case t.aux == "<=" && t.a[0] == old && !v && (val == nil || val == t.a[1]):
				return true
			case t.aux == "<" && t.a[1] == old && v && (val == nil || val == t.a[0]):
				return true
			}
		}
		return false
	}
	cl.Branch = func(fl *Flow, st *State) {
		if n := st.gt["node"]; n == nil || n.isConst() || st.gs["better"] != "" {
			return
		}
		if lower(st, nil) {
			st.gs["better"] = "yes"
			for t, v := range st.facts.truth {
				old := st.gt["total"]
				if t.op == "fcmp" && t.aux == "<=" && t.a[0] == old && !v {
					st.gt["new total"] = t.a[1]
				}
				if t.op == "fcmp" && t.aux == "<" && t.a[1] == old && v {
					st.gt["new total"] = t.a[0]
				}
			}
		}
	}
	cl.Back = func(fl *Flow, st *State, header *ssa.BasicBlock) {
		settled(st, header.Instrs[0], "the loop goes on")
		forget(st)
	}
	cl.Key = func(st *State) string {
		n := st.gt["node"]
		if n == nil || n.isConst() || st.gt["flags"] == nil {
			return ""
		}
		b := st.facts.Bits(st.gt["flags"])
		now := st.facts.Bits(flags(st, n))
		return fmt.Sprintf("%x %x %x %x", b.ones&3, b.zeros&3, now.ones&3, now.zeros&3)
	}
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "fa" || !strings.HasPrefix(addr.aux, "detour.Node.") || st.facts.bad {
			return
		}
		field := strings.TrimPrefix(addr.aux, "detour.Node.")
		if field != "Total" && field != "Cost" && field != "PIdx" {
			return
		}
		n := st.gt["node"]
		if n == nil || n.isConst() || addr.a[0] != n && !fl.eq(st, addr.a[0], n) {
			return
		}
		c.Count("updates of nodes", 1)
		b := st.facts.Bits(st.gt["flags"])
		if b.zeros&open != 0 && b.zeros&closed != 0 {
			return
		}
		if st.gs["better"] != "" && (field != "Total" || st.gt["new total"] != nil && fl.eq(st, val, st.gt["new total"])) {
			return
		}
		who := fname(in.Parent())
		fl.Report("worse:"+field+":"+who+":"+fname(f), fl.instrPos(in), "%s (from %s) writes %s of a node that may be open or closed already (flags %s) although the new total is not known to be lower than its total; %s", who, fname(f), field, st.gt["flags"], fl.Path(st))
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		settled(st, in, "the query returns")
	}
	fl.Run(f, nil)
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Printf("%s: %d steps, %d terms\n", fname(f), fl.steps, len(fl.tt.list))
	}
	c.Sample("%s: %d functions, %d blocks", fname(f), len(fl.Visited), len(fl.Blocks))
}
