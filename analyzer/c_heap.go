package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q11",
		Rule: "the open list is a heap: on every path of push, pop and modify with their helpers, the place to fill (the first place behind the list, the top, or the place where the node was found) moves to its parent only under the branch condition that the node there is not cheaper than the node to place, and to a child only when that is the cheaper of the children there are, in both cases by moving the node from there; the node is stored in the place to fill when that is the top or its parent is known not to cost more, after the place has come down to a leaf in the case of pop. " +
			"Pop returns the top and places the last node, the size changes by one with push and pop only, and modify gives up only after comparing every node.",
		Floor: []Floor{{"operations", 3}, {"moves up", 1}, {"moves down", 2}, {"nodes placed", 3}},
		Assum: []string{"total costs are numbers (not NaN)", "the list was a heap before, and a node that is moved in it has become cheaper (Q07)", "the size of the open list is the number of search nodes at least, so that there is room"},
		Run:   runQ11,
	})
}

func runQ11(c *Ctx) {
	for _, n := range []string{"push", "pop", "modify"} {
		c.heapOp(c.fn("detour", "nodeQueue."+n))
	}
	c.heapTop(c.fn("detour", "nodeQueue.top"))
}

func isNodePtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(pt.Elem(), "detour", "Node")
}

func (c *Ctx) heapOp(f *ssa.Function) {
	c.Count("operations", 1)
	fl := newFlow(c.Prog, nil)
	fl.K = 24
	node := c.typ("detour", "Node")
	elem := types.NewPointer(node)
	idxT := types.Typ[types.Int32]
	zero := fl.tt.konst(0)
	var q, size0, size1, top0, arg *Term
	lin := func(t *Term, k, mul int64) *Term {
		l := linForm{k, nil}
		return fl.tt.fromLin(l.add(linOf(t), mul), idxT)
	}
	at := func(st *State, idx *Term) *Term {
		return fl.peek(st, fl.indexAddr(fl.peek(st, fl.fieldPath(q, "heap")), idx, elem))
	}
	total := func(st *State, n *Term) *Term { return fl.peek(st, fl.fieldPath(n, "Total")) }
	place := func(st *State, hole *Term) {
		st.gt["hole"] = hole
		st.gt["par"] = fl.binop(st, token.QUO, idxT, idxT, lin(hole, -1, 1), fl.tt.konst(2))
		st.gt["kid"] = lin(hole, 1, 2)
		for _, k := range []string{"small", "leaf", "fits", "desc"} {
			delete(st.gs, k)
		}
	}
	kid2 := func(st *State) *Term { return lin(st.gt["kid"], 1, 1) }
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool { return recvName(g) == "nodeQueue" || c.simpleFn(g) },
		Key: func(st *State) string {
			return st.gs["phase"] + "," + st.gs["small"] + "," + st.gs["leaf"] + "," + st.gs["fits"] + "," + st.gs["desc"] + "," + st.gs["placed"]
		},
		Load: func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
			if st.gs["phase"] == "search" && addr.op == "ia" && isNodePtr(contentType(addr)) {
				st.gt["cand"] = addr.a[1]
			}
			if st.gt["hole"] != nil && addr.op == "ia" && isNodePtr(contentType(addr)) {
				idx := stripConv(addr.a[1])
				half := idx.op == "div" && eqIn(st, idx.a[1], fl.tt.konst(2)) || idx.op == "shr" && eqIn(st, idx.a[1], fl.tt.konst(1))
				switch {
				case half && eqIn(st, lin(idx.a[0], 1, 1), st.gt["hole"]), eqIn(st, addr.a[1], st.gt["par"]):
					st.gt["par"] = addr.a[1]
				case eqIn(st, addr.a[1], st.gt["kid"]):
					st.gt["kid"] = addr.a[1]
				}
			}
			return nil
		},
		BinOp: func(fl *Flow, st *State, in *ssa.BinOp, x, y *Term) {
			if in.Op == token.MUL || in.Op == token.SHL || in.Op == token.ADD { // the children are counted from it
				for _, t := range []*Term{stripConv(x), stripConv(y)} {
					if hole := st.gt["hole"]; hole != nil && !t.isConst() && eqIn(st, t, hole) {
						st.gt["hole"], st.gt["kid"] = t, lin(t, 1, 2)
						break
					}
				}
			}
			if hole := st.gt["hole"]; hole != nil && (in.Op == token.QUO && eqIn(st, y, fl.tt.konst(2)) || in.Op == token.SHR && eqIn(st, y, fl.tt.konst(1))) && eqIn(st, lin(stripConv(x), 1, 1), hole) {
				st.gt["par"] = fl.binop(st, in.Op, in.Type(), in.X.Type(), x, y)
			}
		},
		Branch: func(fl *Flow, st *State) {
			switch st.gs["phase"] {
			case "search":
				cand := st.gt["cand"]
				if cand == nil {
					return
				}
				v := at(st, cand)
				if eqIn(st, v, arg) {
					st.gs["phase"] = "up"
					place(st, cand)
					st.gt["node"] = arg
					delete(st.gt, "cand")
				} else if st.facts.isNe(v, arg) {
					if eqIn(st, cand, st.gt["searched"]) {
						st.gt["searched"] = lin(cand, 1, 1)
					}
					delete(st.gt, "cand")
					return
				} else {
					return
				}
			}
			if st.gt["hole"] == nil {
				return
			}
			if st.facts.le(st.gt["hole"], zero, 0) {
				st.gs["fits"] = "1"
			}
			if st.facts.le(size1, st.gt["kid"], 0) {
				st.gs["leaf"] = "1"
			}
			if st.facts.le(size1, kid2(st), 0) {
				st.gs["small"] = "left"
			}
		},
		Back: func(fl *Flow, st *State, header *ssa.BasicBlock) { delete(st.gt, "cand") },
		Cond: func(fl *Flow, st *State, cond *Term, val bool) {
			if st.gt["hole"] == nil || cond.op != "fcmp" || len(cond.a) != 2 || cond.aux != "<" && cond.aux != "<=" {
				return
			}
			lo, hi := cond.a[0], cond.a[1]
			if !val {
				lo, hi = hi, lo
			}
			n := total(st, st.gt["node"])
			l, r := total(st, at(st, st.gt["kid"])), total(st, at(st, kid2(st)))
			switch {
			case st.facts.le(kid2(st), size1, 1) && lo == l && hi == r:
				st.gs["small"] = "left"
			case st.facts.le(kid2(st), size1, 1) && lo == r && hi == l:
				st.gs["small"] = "right"
			}
			switch s := map[string]*Term{"left": l, "right": r}[st.gs["small"]]; {
			case s == nil:
			case lo == s && hi == n:
				st.gs["desc"] = "1"
			case lo == n && hi == s: // nothing below is cheaper
				st.gs["leaf"] = "1"
			}
			switch p := total(st, at(st, st.gt["par"])); {
			case lo == p && hi == n:
				st.gs["fits"] = "1"
			case lo == n && hi == p:
				st.gs["fits"] = "no"
			}
		},
		Store: func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == "fa" && addr.aux == "detour.Node.Total" || addr.op == "fa" && addr.aux == "detour.nodeQueue.heap" {
				fl.Report("changes:"+fname(f), fl.instrPos(in), "%s changes %s; %s", fname(f), addr, fl.Path(st))
				return
			}
			if addr.op != "ia" || !isNodePtr(contentType(addr)) {
				return
			}
			pos := fl.instrPos(in)
			bad := func(key, what string) {
				fl.Report(key+":"+fname(f), pos, "%s %s (place %s, to fill %v, parent %v, stored %s); %s", fname(f), what, addr.a[1], st.gt["hole"], st.gt["par"], val, fl.Path(st))
			}
			hole := st.gt["hole"]
			if hole == nil || st.gs["placed"] != "" || !eqIn(st, addr.a[1], hole) {
				bad("place", "stores a node in a place that is not the one to fill")
				return
			}
			down := st.gs["phase"] == "down"
			from := func(idx *Term) bool { return eqIn(st, val, at(st, idx)) }
			l, r := st.gt["kid"], kid2(st)
			switch {
			case eqIn(st, val, st.gt["node"]):
				c.Count("nodes placed", 1)
				if down && st.gs["leaf"] == "" {
					bad("early", "places the last node above others without comparing them")
				}
				if st.gs["fits"] != "1" {
					bad("order", "places a node that may be cheaper than its parent")
				}
				st.gs["placed"] = "1"
			case st.gs["small"] != "" && st.gs["leaf"] == "" && down && (from(l) || from(r)):
				c.Count("moves down", 1)
				if st.gs["small"] == "right" {
					l = r
				}
				if !from(l) {
					bad("child", "moves the child up that may not be the cheaper one")
				}
				if !st.facts.le(l, size1, 1) {
					bad("beyond", "moves a child up that may not be in the list")
				}
				desc := st.gs["desc"]
				place(st, l)
				if desc != "" { // what has become the parent is not more expensive
					st.gs["fits"] = "1"
				}
			case from(st.gt["par"]):
				c.Count("moves up", 1)
				if down && st.gs["leaf"] == "" {
					bad("early", "moves a node down before the place to fill has become a leaf")
				}
				if st.gs["fits"] != "no" || !st.facts.le(zero, hole, 1) {
					bad("parent", "moves a parent down that may be cheaper than the node to place")
				}
				st.gs["phase"] = "up"
				place(st, st.gt["par"])
			default:
				bad("unknown", "stores a node that is neither the one to place nor known to be the parent or the cheaper child of the place to fill")
			}
		},
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			pos := fl.instrPos(in)
			if !eqIn(st, fl.peek(st, fl.fieldPath(q, "size")), size1) {
				fl.Report("size:"+fname(f), pos, "%s leaves %s nodes in the list, and there should be %s; %s", fname(f), fl.peek(st, fl.fieldPath(q, "size")), size1, fl.Path(st))
			}
			if st.gs["phase"] == "search" {
				if !st.facts.le(size0, st.gt["searched"], 0) {
					fl.Report("search:"+fname(f), pos, "%s may give up before it has looked at every node; %s", fname(f), fl.Path(st))
				}
			} else if st.gs["placed"] == "" && !(f.Name() == "pop" && st.facts.le(size1, zero, 0)) {
				fl.Report("lost:"+fname(f), pos, "%s may return without placing the node; %s", fname(f), fl.Path(st))
			}
			if f.Name() == "pop" && !eqIn(st, res[0], top0) {
				fl.Report("top:"+fname(f), pos, "%s returns %s, which is not the top of the list; %s", fname(f), res[0], fl.Path(st))
			}
		},
	}
	fl.Run(f, func(st *State, ps []*Term) {
		q = ps[0]
		size0 = fl.peek(st, fl.fieldPath(q, "size"))
		top0 = at(st, zero)
		switch f.Name() {
		case "push":
			size1, arg = lin(size0, 1, 1), ps[1]
			st.facts.assumeLe(zero, size0, 0)
			st.gs["phase"] = "up"
			place(st, size0)
			st.gt["node"] = arg
		case "pop":
			size1 = lin(size0, -1, 1)
			st.facts.assumeLe(zero, size0, 1)
			st.gs["phase"] = "down"
			place(st, zero)
			st.gt["node"] = at(st, size1)
		case "modify":
			size1, arg = size0, ps[1]
			st.facts.assumeLe(zero, size0, 0)
			st.gs["phase"] = "search"
			st.gt["searched"] = zero
		}
	})
	fl.Finish(c, fname(f))
}

// heapTop: the top of the list is its first node.
func (c *Ctx) heapTop(f *ssa.Function) {
	fl := newFlow(c.Prog, nil)
	var first *Term
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool { return recvName(g) == "nodeQueue" },
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			if !eqIn(st, res[0], first) {
				fl.Report("top:"+fname(f), fl.instrPos(in), "%s returns %s, which is not the top of the list; %s", fname(f), res[0], fl.Path(st))
			}
		},
	}
	fl.Run(f, func(st *State, ps []*Term) {
		first = fl.peek(st, fl.indexAddr(fl.peek(st, fl.fieldPath(ps[0], "heap")), fl.tt.konst(0), types.NewPointer(c.typ("detour", "Node"))))
	})
	fl.Finish(c, fname(f))
}
