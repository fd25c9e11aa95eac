package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "Q08",
		Rule: "every function of detour that gives results through position or pointer parameters has stored into each of them, not into a copy, on every path on which it returns without failure (a status without the failure bit, a nil error, or true), " +
			"unless the parameter is nil; parameters that some successful paths leave alone by design are not results.",
		Floor: []Floor{{"functions with result parameters", 12}, {"result parameters", 18}, {"successful returns", 12}},
		Assum: []string{"positions have three coordinates, of which those set say that the position was set"},
		Run:   runQ08,
	})
}

// optional lists result parameters that are only set when there is something
// to say, by function and index.
var optional = map[string][]int{
	"(*detour.NavMeshQuery).UpdateSlicedFindPath": {2}, // nothing was done
}

func runQ08(c *Ctx) {
	l := newLost(c)
	type job struct {
		f  *ssa.Function
		ps []int
	}
	var jobs []job
	for _, f := range c.srcFuncs {
		if f.Synthetic != "" || f.Blocks == nil || f.Parent() != nil || !isLib(f) {
			continue
		}
		var ps []int
		for i, p := range f.Params {
			if !exportedEntry(f) && !mayFail(f) || readFirst(p) {
				continue
			}
			if i == 0 && f.Signature.Recv() != nil || !l.writes[f][i] && !contains(outputs[fname(f)], i) || !resultType(p.Type()) || contains(optional[fname(f)], i) {
				continue
			}
			ps = append(ps, i)
		}
		if len(ps) > 0 {
			jobs = append(jobs, job{f, ps})
			c.Count("functions with result parameters", 1)
			c.Count("result parameters", len(ps))
		}
	}
	sort.Slice(jobs, func(i, j int) bool { return fname(jobs[i].f) < fname(jobs[j].f) })
	c.Parallel(len(jobs), func(i int) { l.outputs(jobs[i].f, jobs[i].ps) })
}

// mayFail: f tells whether it failed.
func mayFail(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isStatus(t) || types.Identical(t, types.Universe.Lookup("error").Type()) || isBoolType(t) && rs.Len() == 1 {
			return true
		}
	}
	return false
}

// readFirst: p points to a number that is read before anything is stored.
func readFirst(p *ssa.Parameter) bool {
	ptr, ok := p.Type().Underlying().(*types.Pointer)
	if !ok || !isIntType(ptr.Elem()) {
		return false
	}
	for _, r := range *p.Referrers() {
		if ld, ok := r.(*ssa.UnOp); ok {
			first := true
			for _, q := range *p.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == p && mayFollow(st, ld) {
					first = false
				}
			}
			if first {
				return true
			}
		}
	}
	return false
}

func contains(s []int, x int) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}

// resultType: a position, or a pointer to something that is not a record.
func resultType(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		_, rec := x.Elem().Underlying().(*types.Struct)
		return !rec
	case *types.Slice:
		b, ok := x.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Float32
	}
	return false
}

func (l *lost) outputs(f *ssa.Function, ps []int) {
	c := l.c
	var roots map[*Term]int
	si, ei, bi, ri := -1, -1, -1, -1
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		switch t := rs.At(i).Type(); {
		case isStatus(t):
			si = i
		case types.Identical(t, types.Universe.Lookup("error").Type()):
			ei = i
		case isBoolType(t) && rs.Len() == 1:
			bi = i
		case isPolyRef(t) && rs.Len() == 1:
			ri = i
		}
	}
	sb := c.statusBits()
	mark := func(st *State, addr *Term) {
		for addr != nil {
			if i, ok := roots[addr]; ok {
				st.gs[fmt.Sprint("w", i)] = "1"
				return
			}
			switch addr.op {
			case "fa", "ia", "slice", "conv":
				addr = addr.a[0]
			default:
				return
			}
		}
	}
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return fl.inModule(g) && len(l.writes[g]) > 0 || c.simpleFn(g) }
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) { mark(st, addr) }
	cl.After = func(fl *Flow, st *State, site ssa.CallInstruction, g *ssa.Function, args []*Term, res *Term) {
		if b, ok := site.Common().Value.(*ssa.Builtin); ok && b.Name() == "copy" {
			mark(st, args[0])
		}
		if g != nil && !fl.inModule(g) {
			for i := range l.writes[g] {
				mark(st, args[i])
			}
		}
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		if st.facts.bad {
			return
		}
		switch {
		case si >= 0 && st.facts.Bits(res[si]).ones&sb.F != 0:
			return
		case ei >= 0 && st.facts.isNe(res[ei], fl.tt.konst(0)):
			return
		case bi >= 0 && res[bi].isConst() && res[bi].n == 0:
			return
		case ri >= 0 && st.facts.le(res[ri], fl.tt.konst(0), 0):
			return // nothing found
		}
		c.Distinct("successful returns", fl.instrPos(in))
		for _, i := range ps {
			if st.gs[fmt.Sprint("w", i)] != "" {
				continue
			}
			var p *Term
			for t, k := range roots {
				if k == i {
					p = t
				}
			}
			if st.facts.le(p, fl.tt.konst(0), 0) {
				continue // nil
			}
			fl.Report(fmt.Sprintf("unset:%s:%d", fname(f), i), fl.instrPos(in), "%s may return here without failure and without having stored into its result parameter %s; %s", fname(f), f.Params[i].Name(), fl.Path(st))
		}
	}
	fl := newFlow(c.Prog, cl)
	fl.K = 4
	if verbose {
		defer func() { fmt.Println(fname(f), fl.steps) }()
	}
	fl.Run(f, func(st *State, params []*Term) {
		roots = map[*Term]int{}
		for _, i := range ps {
			roots[params[i]] = i
		}
	})
	fl.Finish(c, fname(f))
}

// isLib: f is a function of detour, or an exported function of recast.
func isLib(f *ssa.Function) bool {
	p := relPkg(funcPkg(f))
	return p == "detour" || p == "recast" && exportedEntry(f)
}
