package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "K05", Run: runK05,
		Rule:  "Constant propagation of each direction and side through package initialization and the direction functions: the four steps are the four distinct horizontal unit steps, direction d+2 is the opposite step, GetDirForOffset of each step is its direction; oppositeTile is an involution without fixed point, four sides further. Affine propagation of the tile position through neighbourTilesAt: the eight sides look at the eight distinct surrounding positions, opposite sides at opposite positions.",
		Floor: []Floor{{"directions", 4}, {"sides", 8}, {"neighbour positions", 8}},
		Assum: []string{"directions are taken modulo 4 and sides modulo 8 by their users"}})
}

// initState is the state of the package-level variables after initialization.
func (bs *bitsim) initState(pkg string) (*bstate, error) {
	sp := bs.c.ssaPkgs[pkg]
	f := sp.Func("init")
	old := bs.opaque
	defer func() { bs.opaque = old }()
	bs.opaque = func(g *ssa.Function) bool { return g.Name() == "init" && g != f || funcPkg(g) != sp.Pkg }
	st := &bstate{mem: map[string]bval{}, conds: map[string]bool{}}
	for n, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t := derefPtr(g.Type())
		if n == "init$guard" {
			st.mem["G:"+g.String()] = bBool(false)
		} else {
			bs.store(st, "G:"+g.String(), bs.zero(t))
		}
	}
	o, err := bs.one(f, st)
	if err != nil {
		return nil, fmt.Errorf("initialization of %s: %v", pkg, err)
	}
	return o.st, nil
}

func runK05(c *Ctx) {
	i32 := types.Typ[types.Int32]
	bs := newBitsim(c)
	st, err := bs.initState("recast")
	if err != nil {
		c.Undecided("init", "", "%v", err)
		return
	}
	num := func(from *bstate, f *ssa.Function, args ...int64) (int64, bool) {
		var as []bval
		for i, a := range args {
			as = append(as, bInt(a, f.Params[i].Type()))
		}
		o, ok := simulate(c, bs, from, f, as...)
		if !ok {
			return 0, false
		}
		n, isK := o.res[0].konst()
		if !isK {
			c.Undecided("const:"+fname(f), c.pos(f.Pos()), "%s%v is %s, which is not a constant", fname(f), args, o.res[0])
		}
		return n, isK
	}
	dx, dy, df := c.fn("recast", "GetDirOffsetX"), c.fn("recast", "GetDirOffsetY"), c.fn("recast", "GetDirForOffset")
	seen := map[[2]int64]int64{}
	var xs, ys [4]int64
	for d := int64(0); d < 4; d++ {
		x, ok1 := num(st, dx, d)
		y, ok2 := num(st, dy, d)
		if !ok1 || !ok2 {
			return
		}
		xs[d], ys[d] = x, y
		c.Count("directions", 1)
		c.Sample("direction %d: step (%d, %d)", d, x, y)
		if x*x+y*y != 1 {
			c.Violate("dir:unit", c.pos(dx.Pos()), "direction %d steps by (%d, %d), which is not a horizontal neighbour", d, x, y)
			continue
		}
		if e, dup := seen[[2]int64{x, y}]; dup {
			c.Violate("dir:distinct", c.pos(dx.Pos()), "the directions %d and %d have the same step (%d, %d)", e, d, x, y)
		}
		seen[[2]int64{x, y}] = d
		b, ok := num(st, df, x, y)
		if !ok {
			return
		}
		if b != d {
			c.Violate("dir:inverse", c.pos(df.Pos()), "GetDirForOffset(%d, %d) is %d, but the step is the one of direction %d", x, y, b, d)
		}
	}
	for d := 0; d < 4; d++ {
		e := (d + 2) % 4
		if xs[d] != -xs[e] || ys[d] != -ys[e] {
			c.Violate("dir:opposite", c.pos(dx.Pos()), "direction %d steps by (%d, %d) and direction %d by (%d, %d): they are not opposite", d, xs[d], ys[d], e, xs[e], ys[e])
		}
	}
	// sides of tiles
	op := c.fn("detour", "oppositeTile")
	var opp [8]int64
	for s := int64(0); s < 8; s++ {
		o, ok := num(nil, op, s)
		if !ok {
			return
		}
		c.Count("sides", 1)
		opp[s] = o
		if o != (s+4)%8 {
			c.Violate("side:opposite", c.pos(op.Pos()), "oppositeTile(%d) is %d instead of %d", s, o, (s+4)%8)
		}
	}
	// neighbour tiles
	nt := c.fn("detour", "NavMesh.neighbourTilesAt")
	at := c.fn("detour", "NavMesh.TilesAt")
	iside := paramIndex(nt, "side", i32, 2)
	if iside < 2 || len(nt.Params) < 4 {
		c.Undecided("neighbours", c.pos(nt.Pos()), "the parameters of %s are not the tile position and side", fname(nt))
		return
	}
	var pos [8][2]int64
	var got [8]bool
	for s := int64(0); s < 8; s++ {
		var px, py *Term
		n := 0
		cl := &Client{
			Inline: func(fl *Flow, g *ssa.Function) bool { return g != at && c.inModule(g) },
			Call: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
				if callee == at {
					n++
					l1, l2 := linOf(args[1]).add(linOf(px), -1), linOf(args[2]).add(linOf(py), -1)
					if len(l1.m) != 0 || len(l2.m) != 0 {
						fl.undecided("the position looked up for side %d is (%s, %s)", s, args[1], args[2])
						return nil, false
					}
					p := [2]int64{l1.k, l2.k}
					if got[s] && pos[s] != p {
						fl.undecided("side %d looks at several positions", s)
					}
					got[s], pos[s] = true, p
				}
				return nil, false
			},
		}
		fl := newFlow(c.Prog, cl)
		fl.Run(nt, func(st *State, params []*Term) {
			px, py = params[1], params[2]
			st.facts.assumeEq(params[iside], fl.tt.konst(s))
		})
		fl.Finish(c, fname(nt))
		if !got[s] {
			c.Undecided("neighbours", c.pos(nt.Pos()), "no tile is looked up for side %d", s)
			return
		}
		c.Count("neighbour positions", 1)
		c.Sample("side %d: tile at (%+d, %+d)", s, pos[s][0], pos[s][1])
	}
	for s := 0; s < 8; s++ {
		p := pos[s]
		if p == [2]int64{0, 0} || p[0] < -1 || p[0] > 1 || p[1] < -1 || p[1] > 1 {
			c.Violate("neighbour:adjacent", c.pos(nt.Pos()), "side %d looks at the tile at (%+d, %+d), which is not a neighbour", s, p[0], p[1])
		}
		for t := 0; t < s; t++ {
			if pos[t] == p {
				c.Violate("neighbour:distinct", c.pos(nt.Pos()), "the sides %d and %d look at the same tile", t, s)
			}
		}
		if o := opp[s]; o >= 0 && o < 8 && (pos[o][0] != -p[0] || pos[o][1] != -p[1]) {
			c.Violate("neighbour:opposite", c.pos(nt.Pos()), "side %d looks at (%+d, %+d) and the opposite side %d at (%+d, %+d)", s, p[0], p[1], o, pos[o][0], pos[o][1])
		}
	}
}

// paramIndex finds the n-th parameter (receiver excluded) of a type, preferring the name.
func paramIndex(f *ssa.Function, name string, t types.Type, n int) int {
	k := 0
	last := -1
	for i, p := range f.Params {
		if f.Signature.Recv() != nil && i == 0 {
			continue
		}
		if types.Identical(p.Type(), t) {
			if p.Name() == name {
				return i
			}
			if k == n {
				last = i
			}
			k++
		}
	}
	return last
}
