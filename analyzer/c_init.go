package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "B06", Run: runB06,
		Rule:  "On every path of Init, with symbolic numbers of tile and polygon bits: at a successful return the path conditions imply that the salt bits are at least 8 and at most 31 and that tile, polygon and salt bits together are at most 32 (unsigned differences may wrap unless shown not to); a failure has the flag of an invalid parameter. Constant propagation of the boundaries 2^k and 2^k+1 of both parameters: the bits stored can number the tiles and polygons, the salt gets the rest up to 31, and the status is the failure exactly for less than 8 salt bits.",
		Floor: []Floor{{"symbolic returns", 2}, {"boundary configurations", 200}},
		Assum: []string{"math32.Ilog2 is at most 31", "sums of numbers of bits do not overflow 32 bits", "the numbers of bits are step functions of the parameters that change at powers of two"}})
}

func ceilLog2(n int64) int64 {
	k := int64(0)
	for int64(1)<<uint(k) < n {
		k++
	}
	return k
}

func runB06(c *Ctx) {
	f := c.fn("detour", "NavMesh.Init")
	sb := c.statusBits()
	inv := uint64(c.constVal("detour", "InvalidParam"))
	bits := []string{"tileBits", "polyBits", "saltBits"}
	statusOf := func(res []*Term) *Term {
		for k, r := range res {
			if isStatus(f.Signature.Results().At(k).Type()) {
				return r
			}
		}
		return nil
	}
	// symbolic
	{
		cl := &Client{}
		fl := newFlow(c.Prog, cl)
		var nav *Term
		cl.Inline = func(fl *Flow, g *ssa.Function) bool { return fl.inModule(g) }
		cl.After = func(fl *Flow, st *State, site ssa.CallInstruction, g *ssa.Function, args []*Term, res *Term) {
			if g != nil && g.Name() == "Ilog2" && !fl.inModule(g) {
				st.facts.assumeLe(res, fl.tt.konst(31), 0)
			}
		}
		cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			c.Count("symbolic returns", 1)
			s := statusOf(res)
			b := st.facts.Bits(s)
			at := fl.instrPos(in)
			if b.ones&sb.F != 0 {
				if b.ones&inv == 0 {
					fl.Report("invalid-param", at, "Init may fail without reporting an invalid parameter (status %s); %s", s, fl.Path(st))
				}
				return
			}
			if b.ones&sb.S == 0 {
				fl.Report("status", at, "the status %s of Init is neither a success nor a failure for sure; %s", s, fl.Path(st))
			}
			var v []*Term
			for _, n := range bits {
				v = append(v, fl.peek(st, fl.fieldPath(nav, n)))
			}
			if lo, _ := st.facts.Range(v[2]); lo < 8 {
				fl.Report("few-salt-bits", at, "Init may succeed with %d salt bits (saltBits = %s); %s", lo, v[2], fl.Path(st))
			}
			if _, hi := st.facts.Range(v[2]); hi > 31 {
				fl.Report("many-salt-bits", at, "Init may succeed with more than 31 salt bits (saltBits = %s); %s", v[2], fl.Path(st))
			}
			sum := linOf(v[0]).add(linOf(v[1]), 1).add(linOf(v[2]), 1)
			if st.facts.upper(sum) > 32 {
				fl.Report("too-many-bits", at, "Init may succeed with tile, polygon and salt bits above 32 (%s, %s, %s); %s", v[0], v[1], v[2], fl.Path(st))
			}
		}
		fl.Run(f, func(st *State, params []*Term) { nav = params[0] })
		fl.Finish(c, fname(f))
	}
	// boundaries
	type cfg struct{ t, p int64 }
	var cfgs []cfg
	vals := []int64{1}
	for k := uint(1); k <= 31; k++ {
		if !c.Thorough() && k > 4 && k < 29 && k%3 != 0 && k != 11 && k != 13 {
			continue
		}
		vals = append(vals, int64(1)<<k)
		vals = append(vals, int64(1)<<k+1)
	}
	vals = append(vals, 1<<32-1)
	for _, t := range vals {
		for _, p := range vals {
			cfgs = append(cfgs, cfg{t, p})
		}
	}
	nmp := c.typ("detour", "NavMeshParams").Underlying().(*types.Struct)
	c.Parallel(len(cfgs), func(i int) {
		cf := cfgs[i]
		fl := newFlow(c.Prog, &Client{})
		var nav *Term
		returned := false
		fl.cl.Inline = func(fl *Flow, g *ssa.Function) bool { return !fl.isStd(g) }
		fl.cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			returned = true
			at := fl.instrPos(in)
			s := statusOf(res)
			T, P := ceilLog2(cf.t), ceilLog2(cf.p)
			want := 32 - T - P
			if want > 31 {
				want = 31
			}
			b := st.facts.Bits(s)
			ok := want >= 8
			if ok && b.ones&sb.S == 0 || !ok && b.ones&sb.F == 0 {
				fl.Report("boundary-status", at, "%d tiles and %d polygons leave %d salt bits, but the status of Init is %s", cf.t, cf.p, want, s)
			}
			if b.ones&sb.S == 0 {
				return
			}
			for k, w := range []int64{T, P, want} {
				v := fl.peek(st, fl.fieldPath(nav, bits[k]))
				if !v.isConst() {
					fl.undecided("%s is %s with %d tiles and %d polygons", bits[k], v, cf.t, cf.p)
				} else if v.n != w {
					fl.Report("boundary-"+bits[k], at, "with %d tiles and %d polygons %s is %d and not %d", cf.t, cf.p, bits[k], v.n, w)
				}
			}
		}
		st := fl.newState()
		nav = fl.param(st, f.Params[0])
		params := fl.tt.mk("alloc", deref(f.Params[1].Type()), 0, "params", nil, nil)
		st.dirty[params] = true
		for i := 0; i < nmp.NumFields(); i++ {
			switch n := nmp.Field(i).Name(); n {
			case "MaxTiles":
				st.mem[fl.fieldPath(params, n)] = fl.tt.konst(cf.t)
			case "MaxPolys":
				st.mem[fl.fieldPath(params, n)] = fl.tt.konst(cf.p)
			}
		}
		fl.exec(f, []*Term{nav, params}, nil, st, "", true)

		if !returned {
			fl.undecided("no return of Init with %d tiles and %d polygons", cf.t, cf.p)
		}
		c.Count("boundary configurations", 1)
		fl.Finish(c, fname(f))
	})
}
