package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q04",
		Rule: "for every exported query with a status that stores its results in a record the caller passes: on every path to a return that is not a failure each result field has been stored by this call (of a vector: the vector itself with a new one, or each element), no result field is read before it has been stored, and the facts of the path imply that the number of visited polygons is one more than the last position of the path written, and at most the announced capacity. " +
			"Input fields are those the query never stores.",
		Floor: []Floor{{"records", 1}, {"result fields", 5}, {"successful returns", 2}, {"stores of results", 5}},
		Assum: []string{"the announced capacity is not negative"},
		Run:   runQ04,
	})
}

// recordParam: the parameters of f, other than the receiver, that are pointers to records of detour with a slice and a count.
func (c *Ctx) recordParams(f *ssa.Function) []int {
	var r []int
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		ptr, ok := p.Type().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := ptr.Elem().(*types.Named)
		if !ok || n.Obj().Pkg() == nil || relPkg(n.Obj().Pkg()) != "detour" {
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok || !hasIntField(s) {
			continue
		}
		for j := 0; j < s.NumFields(); j++ {
			if sl, ok := s.Field(j).Type().Underlying().(*types.Slice); ok && isPolyRef(sl.Elem()) {
				r = append(r, i)
				break
			}
		}
	}
	return r
}

func runQ04(c *Ctx) {
	sb := c.statusBits()
	for _, f := range c.exportedFuncs("detour") {
		si := statusResult(f)
		if si < 0 || len(f.Blocks) == 0 {
			continue
		}
		for _, i := range c.recordParams(f) {
			c.Count("records", 1)
			c.rayRecord(f, i, si, sb)
		}
	}
}

func (c *Ctx) rayRecord(f *ssa.Function, pi, si int, sb statusBits) {
	rt := deref(f.Params[pi].Type())
	s := rt.Underlying().(*types.Struct)
	// the fields stored by the query and what it calls with the record
	stored := map[string]bool{}
	for _, g := range c.libFuncs() {
		for _, p := range g.Params {
			if !types.Identical(p.Type(), f.Params[pi].Type()) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && !isRefsType(s.Field(fa.Field).Type()) && types.Identical(fa.X.Type(), p.Type()) && addrWritten(fa, 0) && !onlyKept(fa) {
						stored[s.Field(fa.Field).Name()] = true
					}
				}
			}
		}
	}
	results := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		if stored[s.Field(i).Name()] {
			results[s.Field(i).Name()] = i
			c.Distinct("result fields", fname(f)+"."+s.Field(i).Name())
		}
	}
	var names []string
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	prefix := typeStr(rt) + "."
	direct := func(g *ssa.Function) bool {
		for _, p := range g.Params {
			if types.Identical(p.Type(), f.Params[pi].Type()) {
				return true
			}
		}
		return false
	}
	rel := c.relevant(direct)
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool {
		if rel[g] {
			return true
		}
		rs := g.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if t := rs.At(i).Type(); isIntType(t) || isBoolType(t) || isStatus(t) {
				return c.simpleFn(g)
			}
		}
		return rs.Len() == 0 && c.simpleFn(g)
	}
	var hit *Term
	paths := map[*Term]bool{}
	nameOf := func(addr *Term) string {
		if addr.op == "fa" && addr.a[0] == hit && len(addr.aux) > len(prefix) && addr.aux[:len(prefix)] == prefix {
			return addr.aux[len(prefix):]
		}
		return ""
	}
	isVec := func(n string) bool {
		_, ok := s.Field(results[n]).Type().Underlying().(*types.Slice)
		return ok
	}
	set := func(st *State, n string) bool {
		return st.gs["f:"+n] != "" || st.gs["e0:"+n] != "" && st.gs["e1:"+n] != "" && st.gs["e2:"+n] != ""
	}
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if addr == hit {
			for _, n := range names {
				st.gs["f:"+n] = "1"
			}
			return
		}
		if addr.op == "ia" && paths[addr.a[0]] {
			st.gt["next"] = fl.tt.fromLin(linOf(addr.a[1]).add(linForm{1, nil}, 1), types.Typ[types.Int])
			return
		}
		if addr.op == "ia" && addr.a[0].op == "load" {
			if n := nameOf(addr.a[0].a[0]); n != "" && stored[n] && isVec(n) && !isRefsType(s.Field(results[n]).Type()) && addr.a[1].isConst() && addr.a[1].n < 3 {
				c.Distinct("stores of results", fl.instrPos(in)+n)
				st.gs[fmt.Sprintf("e%d:%s", addr.a[1].n, n)] = "1"
				return
			}
		}
		n := nameOf(addr)
		if n == "" || stored[n] == false {
			return
		}
		if isVec(n) && val == fl.peek(st, addr) {
			return
		}
		c.Distinct("stores of results", fl.instrPos(in)+n)
		st.gs["f:"+n] = "1"
	}
	cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		n := nameOf(addr)
		if n == "" || !stored[n] || set(st, n) {
			return nil
		}
		if v, ok := in.(ssa.Value); ok && isVec(n) && onlyFilled(v) {
			return nil
		}
		fl.Report("stale:"+fname(f)+":"+n, fl.instrPos(in), "%s reads the result field %s before it has set it: it depends on what the record held before; %s", fname(in.Parent()), n, fl.Path(st))
		return nil
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if st.facts.bad || st.facts.Bits(res[si]).ones&sb.F != 0 {
			return
		}
		c.Distinct("successful returns", fl.instrPos(in))
		for _, n := range names {
			if !set(st, n) {
				fl.Report("unset:"+fname(f)+":"+n, fl.instrPos(in), "%s may return the status %s without having set %s: the record keeps what it held before; %s", fname(f), res[si], n, fl.Path(st))
			}
		}
		// the number of results
		for _, n := range names {
			if !isIntType(s.Field(results[n]).Type()) {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if m := s.Field(i).Name(); isIntType(s.Field(i).Type()) && !stored[m] && strings.Contains(n, "Count") {
					got, max := fl.load(st, fl.fieldAddr(hit, results[n])), fl.load(st, fl.fieldAddr(hit, i))
					c.Distinct("counts", fl.instrPos(in)+n)
					if next := st.gt["next"]; !st.facts.le(got, next, 0) || !st.facts.le(next, got, 0) {
						fl.Report("number:"+fname(f)+":"+n, fl.instrPos(in), "%s may return %s = %s although the number of polygons stored is %s; %s", fname(f), n, got, next, fl.Path(st))
					}
					if !st.facts.le(got, max, 0) || !st.facts.le(fl.tt.konst(0), got, 0) {
						fl.Report("count:"+fname(f)+":"+n, fl.instrPos(in), "%s may return %s = %s, which is not known to be within 0 and %s = %s; %s", fname(f), n, got, m, max, fl.Path(st))
					}
				}
			}
		}
	}
	fl := newFlow(c.Prog, cl)
	fl.K = 6
	fl.Run(f, func(st *State, params []*Term) {
		hit = params[pi]
		st.gt["next"] = fl.tt.konst(0)
		for i := 0; i < s.NumFields(); i++ {
			if isRefsType(s.Field(i).Type()) {
				paths[fl.load(st, fl.fieldAddr(hit, i))] = true
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if isIntType(s.Field(i).Type()) && !stored[s.Field(i).Name()] {
				st.facts.assumeLe(fl.tt.konst(0), fl.load(st, fl.fieldAddr(hit, i)), 0)
			}
		}
	})
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Println(fname(f), "results", names, "steps", fl.steps)
	}
}

// onlyFilled: the elements of the vector v are only set, one by one.
func onlyFilled(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Store); !ok || s.Addr != x {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// onlyKept: all that is stored in the field at a is what the same field of a record held.
func onlyKept(a *ssa.FieldAddr) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			ld, ok := x.Val.(*ssa.UnOp)
			if !ok || x.Addr != a || ld.Op != token.MUL {
				return false
			}
			from, ok := ld.X.(*ssa.FieldAddr)
			if !ok || from.Field != a.Field || !types.Identical(from.X.Type(), a.X.Type()) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func isRefsType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isPolyRef(s.Elem())
}
