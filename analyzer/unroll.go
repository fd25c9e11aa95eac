package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loops that run a constant number of times, like those over the axes of a
// vector, are unrolled for the clients that ask for it.

// trips is the number of times the body of the loop runs when entered in st.
func (fl *Flow) trips(fr *frame, st *State, lp *region, max int) (int, bool) {
	h := lp.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !lp.blocks[h.Succs[0]] || lp.blocks[h.Succs[1]] {
		return 0, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	known := func(v ssa.Value) (int64, bool) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && isIntType(c.Type()) {
			return c.Int64(), true
		}
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				x := call.Call.Args[0]
				if in, ok := x.(ssa.Instruction); ok && lp.blocks[in.Block()] {
					return 0, false
				}
				if _, ok := x.Type().Underlying().(*types.Slice); !ok {
					return 0, false
				}
				if n := fl.tt.lenOf(fl.eval(fr, st, x)); n.isConst() {
					return n.n, true
				}
				return 0, false
			}
		}
		if in, ok := v.(ssa.Instruction); ok && lp.blocks[in.Block()] || !isIntType(v.Type()) {
			return 0, false
		}
		t := fl.eval(fr, st, v)
		return t.n, t.isConst()
	}
	step := func(v ssa.Value, phi *ssa.Phi) (int64, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(phi) || b.Op != token.ADD && b.Op != token.SUB {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		if b.Op == token.SUB {
			return -c.Int64(), true
		}
		return c.Int64(), true
	}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(phi.Type()) {
			continue
		}
		init := st.env[phi]
		if init == nil || !init.isConst() {
			continue
		}
		by := int64(0)
		for i, p := range h.Preds {
			if !lp.blocks[p] {
				continue
			}
			d, ok := step(phi.Edges[i], phi)
			if !ok || by != 0 && by != d {
				by = 0
				break
			}
			by = d
		}
		if by == 0 {
			continue
		}
		side := func(v ssa.Value) (off int64, of bool, n int64, ok bool) {
			if v == ssa.Value(phi) {
				return 0, true, 0, true
			}
			if d, ok := step(v, phi); ok {
				return d, true, 0, true
			}
			n, ok = known(v)
			return 0, false, n, ok
		}
		xo, xp, xn, ok1 := side(cmp.X)
		yo, yp, yn, ok2 := side(cmp.Y)
		if !ok1 || !ok2 || xp == yp {
			continue
		}
		for i, n := init.n, 0; n <= max; i, n = i+by, n+1 {
			x, y := xn, yn
			if xp {
				x = i + xo
			} else {
				y = i + yo
			}
			var on bool
			switch cmp.Op {
			case token.LSS:
				on = x < y
			case token.LEQ:
				on = x <= y
			case token.GTR:
				on = x > y
			case token.GEQ:
				on = x >= y
			case token.NEQ:
				on = x != y
			default:
				return 0, false
			}
			if !on {
				return n, true
			}
		}
		return 0, false
	}
	return 0, false
}

// unroll runs a loop that is run a small constant number of times.
func (fl *Flow) unroll(fr *frame, lp *region, entry []*State) (map[*ssa.BasicBlock][]*State, bool) {
	n := 0
	for _, s := range entry {
		k, ok := fl.trips(fr, s, lp, fl.cl.Unroll)
		if !ok {
			return nil, false
		}
		if k > n {
			n = k
		}
	}
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	found, undec, rets, retIn := fl.found, fl.undec, fr.returns, fr.retIn
	out := map[*ssa.BasicBlock][]*State{}
	var states []*State
	for _, s := range entry {
		states = append(states, s.clone())
	}
	for i := 0; i <= n && len(states) > 0; i++ {
		fr.ctx = fmt.Sprintf("%s!%d", ctx, i)
		now := fl.reduce(fr, lp.header, states)
		for _, s := range now {
			s.ctx = fr.ctx
		}
		states = nil
		for to, es := range fl.runNodes(fr, lp, lp.header, now, nil) {
			for _, s := range es {
				s.ctx = ctx
			}
			if to == lp.header {
				states = es
			} else {
				out[to] = append(out[to], es...)
			}
		}
	}
	if len(states) > 0 {
		fl.found, fl.undec, fr.returns, fr.retIn = found, undec, rets, retIn
		return nil, false
	}
	return out, true
}
