package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "B03",
		Rule: "no sum, difference or product of 8-bit or 16-bit numbers computed in their own type by a function of detour or recast may wrap around on a path of the function, or of its callers where it depends on what the function is given, unless all that is used of it are its low bits; no difference of wider unsigned numbers may go below zero; " +
			"no number wider than 16 bits that is not known to fit is cut to 8 or 16 bits and then used as an index, an offset, a bound or in further arithmetic.",
		Floor: []Floor{{"functions computing with narrow numbers", 15}, {"narrow sums and products", 40}},
		Assum: []string{"polygons have at least two vertices and at most as many as the format holds, and tiles at most as many polygons", "numbers given to exported functions are not negative", "node pools hold at most as many nodes as NewNavMeshQuery accepts", "K03"},
		Run:   runB03,
	})
}

func narrowType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Uint8, types.Uint16, types.Int8, types.Int16:
		return true
	}
	return false
}

func wideUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0 && b.Kind() != types.Uintptr && !narrowType(t)
}

// isMask: v is a power of two minus one.
func isMask(v *ssa.BinOp) bool {
	x, ok := v.X.(*ssa.BinOp)
	y, ok2 := v.Y.(*ssa.Const)
	return ok && ok2 && x.Op == token.SHL && y.Value != nil && constant.Compare(y.Value, token.EQL, constant.MakeInt64(1))
}

// narrowOp: in may wrap around and that matters.
func narrowOp(in ssa.Instruction) (*ssa.BinOp, bool) {
	b, ok := in.(*ssa.BinOp)
	if ok && b.Op == token.SUB && wideUnsigned(b.Type()) {
		return b, !lowBits(b, 0) && !isMask(b)
	}
	if !ok || !narrowType(b.Type()) {
		return nil, false
	}
	switch b.Op {
	case token.ADD, token.SUB, token.MUL:
	default:
		return nil, false
	}
	return b, !lowBits(b, 0) && !bitSearch(b)
}

// lowBits: only the low bits of v are used.
func lowBits(v ssa.Value, depth int) bool {
	if v.Referrers() == nil || len(*v.Referrers()) == 0 || depth > 3 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.AND:
				m, ok := x.Y.(*ssa.Const)
				if x.Y == v {
					m, ok = x.X.(*ssa.Const)
				}
				if !ok || m.Value == nil {
					return false
				}
				if k, ok := constant.Int64Val(m.Value); !ok || k&(k+1) != 0 {
					return false
				}
			default:
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func runB03(c *Ctx) {
	var todo []*ssa.Function
	for _, f := range c.libFuncs() {
		for _, b := range f.Blocks {
			n := 0
			for _, in := range b.Instrs {
				if _, ok := narrowOp(in); ok || cutIndex(in) {
					n++
				}
			}
			if n > 0 {
				todo = append(todo, f)
				break
			}
		}
	}
	c.Count("functions computing with narrow numbers", len(todo))
	done, given := map[*ssa.Function]int{}, map[*ssa.Function]bool{}
	for round := 0; len(todo) > 0; round++ {
		next, flows := make([][]*ssa.Function, len(todo)), make([]*Flow, len(todo))
		c.Parallel(len(todo), func(i int) {
			n := &narrow{c: c, f: todo[i], round: round, inline: given}
			if round > 0 {
				n.run(1)
			} else {
				n.run(0)
			}
			next[i], flows[i] = n.callers, n.last
		})
		was := todo
		todo = nil
		for i, fs := range next {
			if len(fs) > 0 {
				given[was[i]] = true
			}
			for _, f := range fs {
				if done[f] != round+1 {
					done[f] = round + 1
					todo = append(todo, f)
				}
			}
		}
		for i, f := range was {
			if len(next[i]) == 0 && done[f] != round+1 {
				flows[i].Finish(c, fname(f))
			}
		}
	}
}

type narrow struct {
	c *Ctx
	f *ssa.Function

	last    *Flow // the previous, less precise analysis
	round   int
	callers []*ssa.Function // decide it
	inline  map[*ssa.Function]bool
}

func (n *narrow) run(level int) {
	c, f := n.c, n.f
	nvp, mark := c.constVal("detour", "VertsPerPolygon"), c.constVal("recast", "borderReg")
	nullIdx := c.constVal("detour", "nullIdx")
	maxRegs := map[*Term]bool{} // parameters that point to the number of regions
	cl := &Client{}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool {
		return n.inline[g] || (level > 0 || len(g.Blocks) == 1) && c.simpleFn(g)
	}
	cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		var lo, hi int64
		switch {
		case addr.op == "fa" && strings.HasSuffix(addr.aux, "detour.Poly.VertCount"):
			lo, hi = 2, nvp
		case addr.op == "fa" && strings.HasSuffix(addr.aux, "recast.CompactHeightfield.MaxRegions"), maxRegs[addr]:
			lo, hi = 0, mark
		case addr.op == "fa" && strings.HasSuffix(addr.aux, "detour.NodePool.maxNodes"):
			lo, hi = 1, nullIdx
		case addr.op == "fa" && strings.HasSuffix(addr.aux, "detour.NodePool.nodeCount"):
			lo, hi = 0, nullIdx
		default:
			return nil
		}
		t := fl.load(st, addr)
		if !t.isConst() {
			st.facts.assumeLe(fl.tt.konst(lo), t, 0)
			st.facts.assumeLe(t, fl.tt.konst(hi), 0)
		}
		return t
	}
	cl.BinOp = func(fl *Flow, st *State, in *ssa.BinOp, x, y *Term) {
		if _, ok := narrowOp(in); !ok {
			return
		}
		c.Distinct("narrow sums and products", fname(in.Parent())+fl.instrPos(in))
		ok := false
		switch in.Op {
		case token.ADD:
			ok = fl.fits(st, linOf(x).add(linOf(y), 1), in.Type())
		case token.SUB:
			ok = fl.fits(st, linOf(x).add(linOf(y), -1), in.Type())
		case token.MUL:
			_, h1 := st.facts.Range(x)
			_, h2 := st.facts.Range(y)
			_, hi := typeRange(in.Type())
			l1, _ := st.facts.Range(x)
			l2, _ := st.facts.Range(y)
			ok = l1 >= 0 && l2 >= 0 && h1 <= hi && h2 <= hi && h1*h2 <= hi
		}
		if bounds(x, "BMax") && bounds(y, "BMin") && x.a[0].a[0].a[0] == y.a[0].a[0].a[0] && x.a[0].a[1] == y.a[0].a[1] && in.Op == token.SUB {
			ok = true // along an axis of a box
		}
		if !ok {
			lo, hi := st.facts.Range(x)
			fl.Report("wrap:"+fname(in.Parent())+":"+in.Op.String(), fl.instrPos(in), "%s computes %s %s %s as %s, where it may wrap around, the first between %d and %d; %s", fname(in.Parent()), x, in.Op, y, in.Type(), lo, hi, fl.Path(st))
		}
	}
	cl.Convert = func(fl *Flow, st *State, in *ssa.Convert, x *Term) {
		if !cutIndex(in) {
			return
		}
		c.Distinct("numbers cut", fname(in.Parent())+fl.instrPos(in))
		if x.op == "and" && x.any(func(t *Term) bool { return t.op == "fa" && strings.HasSuffix(t.aux, "detour.NavMesh.polyBits") }) {
			return // the polygon of a reference
		}
		if !fl.fits(st, linOf(x), in.Type()) {
			lo, hi := st.facts.Range(x)
			fl.Report("cut:"+fname(in.Parent()), fl.instrPos(in), "%s cuts %s, between %d and %d, to %s; %s", fname(in.Parent()), x, lo, hi, in.Type(), fl.Path(st))
		}
	}
	fl := newFlow(c.Prog, cl)
	fl.K = 2
	if level > 0 {
		cl.Unroll = 4
	}
	if level == 1 {
		fl.K, fl.max = 1, 120000
		fl.deadline = time.Now().Add(time.Minute)
	}
	if level == 2 {
		fl.K, fl.max = 4, 80000
		fl.deadline = time.Now().Add(time.Minute)
		fl.thresholds = constThresholds(f)
	}
	fl.Run(f, func(st *State, params []*Term) {
		for i, p := range params {
			if exportedEntry(f) && isIntType(f.Params[i].Type()) {
				st.facts.assumeLe(fl.tt.konst(0), p, 0)
			}
			if n.given(i, "CompactHeightfield", "MaxRegions") {
				maxRegs[p] = true
			}
		}
	})
	if level > 0 && len(fl.undec) > 0 && n.last != nil {
		fl = n.last // what was found before
	}
	if level < 2 && fl != n.last && len(fl.found)+len(fl.undec) > 0 {
		n.last = fl
		n.run(level + 1) // with helpers analysed in place
		return
	}
	if len(fl.found) > 0 && n.round < 2 && !exportedEntry(f) && len(f.Blocks) <= 40 && !callsFn(f, f) {
		// what it is given decides: it is analysed in place in its callers
		if n.callers = staticCallers(c, f); len(n.callers) > 0 {
			return
		}
	}
	n.last = fl
	if verbose {
		fmt.Println(fname(f), "steps", fl.steps)
	}
}

// bounds: t is a coordinate of a corner of a box.
func bounds(t *Term, corner string) bool {
	return t.op == "load" && t.a[0].op == "ia" && t.a[0].a[0].op == "fa" && strings.HasSuffix(t.a[0].a[0].aux, "."+corner)
}

// given: all callers give the address of a field for the parameter i.
func (n *narrow) given(i int, typ, field string) bool {
	if exportedEntry(n.f) {
		return false
	}
	cs := staticCallers(n.c, n.f)
	for _, g := range cs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == n.f {
					fa, ok := call.Common().Args[i].(*ssa.FieldAddr)
					if !ok || fieldName(fa) != field || !isNamed(deref(fa.X.Type()), "recast", typ) {
						return false
					}
				}
			}
		}
	}
	return len(cs) > 0
}

// bitSearch: v counts up to a set bit.
func bitSearch(v *ssa.BinOp) bool {
	phi, ok := v.X.(*ssa.Phi)
	if !ok || v.Op != token.ADD {
		return false
	}
	iff, ok := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	var uses func(x ssa.Value, d int) bool
	uses = func(x ssa.Value, d int) bool {
		b, ok := x.(*ssa.BinOp)
		if !ok || d > 4 {
			return false
		}
		if (b.Op == token.SHL || b.Op == token.SHR) && b.Y == phi {
			return true
		}
		return uses(b.X, d+1) || uses(b.Y, d+1)
	}
	return uses(iff.Cond, 0)
}

// cutIndex: in cuts a number to 8 or 16 bits that becomes an index, an offset or a bound.
func cutIndex(in ssa.Instruction) bool {
	cv, ok := in.(*ssa.Convert)
	if !ok || !narrowType(cv.Type()) {
		return false
	}
	b, ok := cv.X.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || narrowType(b) {
		return false
	}
	if _, ok := cv.X.(*ssa.Const); ok {
		return false
	}
	return asIndex(cv, map[ssa.Value]bool{})
}

func asIndex(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if x.Index == v {
				return true
			}
		case *ssa.Index:
			if x.Index == v {
				return true
			}
		case *ssa.Slice:
			if x.Low == v || x.High == v {
				return true
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB, token.MUL:
				if asIndex(x, seen) {
					return true
				}
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return true
			}
		case *ssa.Convert:
			if asIndex(x, seen) {
				return true
			}
		case *ssa.Phi:
			if asIndex(x, seen) {
				return true
			}
		}
	}
	return false
}
