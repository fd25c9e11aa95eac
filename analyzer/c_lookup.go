package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "R07",
		Rule: "every lookup by position (the methods of NavMesh that read the position lookup and are given a position) starts at the list of that position and goes on to the next tile after each tile; a tile is returned, its reference given, or it is stored as the next of the results, only under the branch conditions that it has a header with this position, and this layer when one is asked for; on every path, a tile gone past is known not to match, or was stored, or there was no room left; the number returned is the number stored. " +
			"The reference of a tile packs the salt of that tile, the index obtained from its address, and zero. The tile of a position is the distance to the origin divided by the tile size, rounded down.",
		Floor: []Floor{{"lookups by position", 3}, {"tiles found", 3}, {"lookups that found none", 2}, {"references made", 2}, {"positions", 2}},
		Assum: []string{"the lists of the position lookup are well formed (R05, R03)"},
		Run:   runR07,
	})
}

func isTilePtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(pt.Elem(), "detour", "MeshTile")
}

func runR07(c *Ctx) {
	reads := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "detour", "NavMesh") &&
					deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "posLookup" {
					return true
				}
			}
		}
		return false
	}
	rel := c.relevant(func(g *ssa.Function) bool { return reads(g) })
	var lookups []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, n := range []string{"TileAt", "TileRefAt", "TilesAt"} {
		f := c.fn("detour", "NavMesh."+n)
		lookups = append(lookups, f)
		seen[f] = true
	}
	for _, f := range c.exportedFuncs("detour") {
		// others given a position and a layer, or an array to fill
		if !seen[f] && reads(f) && !c.writesMesh(f) && len(f.Params) >= 3 && isIntType(f.Params[1].Type()) && isIntType(f.Params[2].Type()) {
			lookups = append(lookups, f)
		}
	}
	for _, f := range lookups {
		c.lookupByPosition(f, rel)
	}
	for _, n := range []string{"TileRef", "polyRefBase"} {
		if f := c.lookup("detour", "NavMesh."+n); f != nil {
			c.referenceOf(f)
		}
	}
	c.tileLocation()
}

func (c *Ctx) lookupByPosition(f *ssa.Function, rel map[*ssa.Function]bool) {
	c.Count("lookups by position", 1)
	refOf := map[*ssa.Function]bool{c.fn("detour", "NavMesh.TileRef"): true, c.fn("detour", "NavMesh.polyRefBase"): true}
	r := newRefFlow(c, f, nil)
	fl := r.fl
	zero := fl.tt.konst(0)
	intT := types.Typ[types.Int]
	var q, x, y, layer, tiles, room *Term
	header := func(st *State, t *Term) *Term { return fl.peek(st, fl.fieldPath(t, "Header")) }
	get := func(st *State, t *Term, n string) *Term { return fl.peek(st, fl.fieldPath(header(st, t), n)) }
	matches := func(st *State, t *Term) string {
		switch {
		case t == nil || !st.facts.isNe(t, zero):
			return "is not known to be a tile"
		case !st.facts.isNe(header(st, t), zero):
			return "is not known to have a header"
		case !eqIn(st, get(st, t, "X"), x):
			return "is not known to be at the x position asked for"
		case !eqIn(st, get(st, t, "Y"), y):
			return "is not known to be at the y position asked for"
		case layer != nil && !eqIn(st, get(st, t, "Layer"), layer):
			return "is not known to be on the layer asked for"
		}
		return ""
	}
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool { return !refOf[g] && (rel[g] || c.simpleFn(g)) },
		Load: func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
			at := fl.instrPos(in)
			if addr.op == "fa" && isTilePtr(addr.a[0].typ) {
				cur := st.gt["cur"]
				isCur := cur != nil && eqIn(st, addr.a[0], cur)
				if addr.aux == "detour.MeshTile.Next" {
					if !isCur || st.gs["passed"] == "" && st.gs["found"] == "" {
						fl.Report("skips:"+fname(f), at, "%s goes past a tile that may be the one asked for; %s", fname(f), fl.Path(st))
					}
				} else if !isCur {
					st.gt["cur"] = addr.a[0]
					delete(st.gs, "passed")
					delete(st.gs, "found")
				}
				return nil
			}
			if isTilePtr(contentType(addr)) && addr.op == "ia" && addr.a[0] == fl.peek(st, fl.fieldPath(q, "posLookup")) {
				mask := fl.peek(st, fl.fieldPath(q, "TileLUTMask"))
				if want := r.bucket(fl, st, x, y, mask); want == nil || !eqIn(st, addr.a[1], want) {
					fl.Report("bucket:"+fname(f), at, "%s looks in the list %s, which is not the one of the position it is given; %s", fname(f), addr.a[1], fl.Path(st))
				}
				st.gs["bucket"] = "1"
			}
			return nil
		},
		BinOp: func(fl *Flow, st *State, in *ssa.BinOp, x, y *Term) {
			if isTilePtr(in.X.Type()) {
				if x.isConst() {
					x = y
				}
				st.gt["tested"] = x
			}
		},
		Back: func(fl *Flow, st *State, header *ssa.BasicBlock) {
			for _, k := range []string{"passed", "found", "end"} {
				delete(st.gs, k)
			}
			delete(st.gt, "cur")
			delete(st.gt, "tested")
		},
		Branch: func(fl *Flow, st *State) {
			if t := st.gt["tested"]; t != nil && eqIn(st, t, zero) {
				st.gs["end"] = "1"
			}
			cur := st.gt["cur"]
			if cur == nil {
				return
			}
			differs := func(a, b *Term) bool { return b != nil && st.facts.isNe(a, b) }
			switch {
			case eqIn(st, header(st, cur), zero), differs(get(st, cur, "X"), x), differs(get(st, cur, "Y"), y), layer != nil && differs(get(st, cur, "Layer"), layer):
				st.gs["passed"] = "1"
			case tiles != nil && (st.facts.le(room, st.gt["n"], 0) || st.facts.le(fl.tt.lenOf(tiles), st.gt["n"], 0)):
				st.gs["passed"] = "1"
			}
		},
		Key: func(st *State) string { return st.gs["passed"] + "," + st.gs["found"] },
		Store: func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			if tiles == nil || root(addr) != tiles || addr.op != "ia" {
				return
			}
			at := fl.instrPos(in)
			c.Count("tiles found", 1)
			if cur := st.gt["cur"]; cur == nil || !eqIn(st, val, cur) {
				fl.Report("other:"+fname(f), at, "%s stores a tile that is not the one it has come to; %s", fname(f), fl.Path(st))
			} else if m := matches(st, cur); m != "" {
				fl.Report("match:"+fname(f), at, "%s stores a tile that %s; %s", fname(f), m, fl.Path(st))
			}
			if st.gs["found"] != "" || !eqIn(st, addr.a[1], st.gt["n"]) {
				fl.Report("place:"+fname(f), at, "%s stores a tile at %s, and not behind the %s stored before; %s", fname(f), addr.a[1], st.gt["n"], fl.Path(st))
			}
			st.gs["found"] = "1"
			st.gt["n"] = fl.tt.fromLin(linOf(st.gt["n"]).add(linForm{1, nil}, 1), intT)
		},
		Call: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
			if !refOf[callee] || len(args) != 2 {
				return nil, false
			}
			var outs []Outcome
			if !st.facts.isNe(args[1], zero) { // no tile: no reference
				none := st.clone()
				none.facts.assumeEq(args[1], zero)
				outs = append(outs, Outcome{none, []*Term{zero}})
			}
			if eqIn(st, args[1], zero) {
				return outs, true
			}
			st.facts.assumeNe(args[1], zero)
			res := fl.freshResult(st, "reference", site)
			st.gt["ref"], st.gt["ref of"] = res[0], args[1]
			return append(outs, Outcome{st, res}), true
		},
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			at := fl.instrPos(in)
			v := res[0]
			if st.gs["bucket"] == "" {
				fl.Report("nowhere:"+fname(f), at, "%s may return without having looked in the position lookup; %s", fname(f), fl.Path(st))
			}
			end := func() {
				c.Count("lookups that found none", 1)
				if st.gs["end"] == "" {
					fl.Report("end:"+fname(f), at, "%s may return without having come to the end of the list of the position; %s", fname(f), fl.Path(st))
				}
			}
			switch {
			case tiles != nil:
				if !eqIn(st, v, st.gt["n"]) {
					fl.Report("number:"+fname(f), at, "%s returns %s and not the number of tiles it has stored, %s; %s", fname(f), v, st.gt["n"], fl.Path(st))
				}
				if !st.facts.le(room, st.gt["n"], 0) {
					end()
				}
			case eqIn(st, v, zero):
				end()
			default:
				c.Count("tiles found", 1)
				if isTilePtr(f.Signature.Results().At(0).Type()) {
					if m := matches(st, v); m != "" {
						fl.Report("match:"+fname(f), at, "%s returns a tile that %s; %s", fname(f), m, fl.Path(st))
					}
				} else if st.gt["ref"] == nil || !eqIn(st, v, st.gt["ref"]) {
					fl.Report("ref:"+fname(f), at, "%s returns %s, which is not the reference of a tile; %s", fname(f), v, fl.Path(st))
				} else if m := matches(st, st.gt["ref of"]); m != "" {
					fl.Report("match:"+fname(f), at, "%s returns the reference of a tile that %s; %s", fname(f), m, fl.Path(st))
				}
			}
		},
	}
	fl.Run(f, func(st *State, ps []*Term) {
		q, x, y = ps[0], ps[1], ps[2]
		for i, p := range f.Params {
			switch _, isSlice := p.Type().Underlying().(*types.Slice); {
			case i < 3:
			case isSlice:
				tiles = ps[i]
				st.gt["n"] = zero
			case isIntType(p.Type()) && tiles == nil:
				layer = ps[i]
			case isIntType(p.Type()):
				room = ps[i]
			}
		}
		if tiles != nil && room == nil {
			room = fl.tt.lenOf(tiles)
		}
	})
	fl.Finish(c, fname(f))
}

// referenceOf: the reference of a tile packs its salt and its index.
func (c *Ctx) referenceOf(f *ssa.Function) {
	pack := c.fn("detour", "NavMesh.encodePolyID")
	fl := newFlow(c.Prog, nil)
	zero := fl.tt.konst(0)
	var q, tile *Term
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool { return g != pack && (callsFn(g, pack) || c.simpleFn(g)) },
		Call: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
			if callee != pack {
				return nil, false
			}
			at := fl.instrPos(site)
			c.Count("references made", 1)
			if !eqIn(st, args[1], fl.peek(st, fl.fieldPath(tile, "Salt"))) {
				fl.Report("salt:"+fname(f), at, "%s packs %s, which is not the salt of the tile; %s", fname(f), args[1], fl.Path(st))
			}
			if !eqIn(st, args[3], zero) {
				fl.Report("poly:"+fname(f), at, "%s packs the polygon number %s, and not 0; %s", fname(f), args[3], fl.Path(st))
			}
			idx := stripConv(args[2])
			found := eqIn(st, fl.indexAddr(fl.peek(st, fl.fieldPath(q, "Tiles")), idx, c.typ("detour", "MeshTile")), tile)
			if m := c.indexOfTile(site.Common().Args[2], f); !found && m != "" {
				fl.Report("index:"+fname(f), at, "%s packs a tile index that is not the index of the tile: %s; %s", fname(f), m, fl.Path(st))
			}
			res := fl.freshResult(st, "reference", site)
			st.gt["made"] = res[0]
			return []Outcome{{st, res}}, true
		},
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			if eqIn(st, tile, zero) {
				if !eqIn(st, res[0], zero) {
					fl.Report("nil:"+fname(f), fl.instrPos(in), "%s returns the reference %s for no tile; %s", fname(f), res[0], fl.Path(st))
				}
				return
			}
			if st.gt["made"] == nil || !eqIn(st, stripConv(res[0]), st.gt["made"]) {
				fl.Report("returns:"+fname(f), fl.instrPos(in), "%s returns %s and not the reference of the tile; %s", fname(f), res[0], fl.Path(st))
			}
		},
	}
	fl.Run(f, func(st *State, ps []*Term) { q, tile = ps[0], ps[1] })
	fl.Finish(c, fname(f))
}

// indexOfTile tells why v is not the index of the tile f is given, computed
// from the addresses of the tile and of the first tile.
func (c *Ctx) indexOfTile(v ssa.Value, f *ssa.Function) string {
	v = stripConvert(v)
	for depth := 0; depth < 3; depth++ { // of a helper
		call, ok := v.(*ssa.Call)
		if !ok {
			break
		}
		g := call.Call.StaticCallee()
		if g == nil || len(g.Blocks) != 1 || len(g.Blocks[0].Instrs) == 0 {
			return "it is the result of " + call.String()
		}
		ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return "it is the result of " + call.String()
		}
		v = stripConvert(ret.Results[0])
	}
	quo, ok := v.(*ssa.BinOp)
	if !ok || quo.Op != token.QUO {
		return "it is not computed by a division by the size of a tile"
	}
	size := c.pkgs[0].TypesSizes.Sizeof(c.typ("detour", "MeshTile"))
	k, ok := quo.Y.(*ssa.Const)
	if !ok || k.Value == nil || k.Int64() != size {
		return fmt.Sprintf("the distance is divided by %s, and the size of a tile is %d", quo.Y, size)
	}
	sub, ok := stripConvert(quo.X).(*ssa.BinOp)
	if !ok || sub.Op != token.SUB {
		return "it is not the distance of two addresses"
	}
	address := func(v ssa.Value) ssa.Value {
		for {
			cv, ok := v.(*ssa.Convert)
			if !ok {
				return v
			}
			v = cv.X
		}
	}
	p, ok := address(sub.X).(*ssa.Parameter)
	if !ok || !isTilePtr(p.Type()) {
		return "the distance is not that of the tile"
	}
	ia, ok := address(sub.Y).(*ssa.IndexAddr)
	if !ok {
		return "the distance is not that to the first tile"
	}
	if k, ok := intConst(ia.Index); !ok || k != 0 {
		return "the distance is not that to the first tile"
	}
	ld, ok := ia.X.(*ssa.UnOp)
	if !ok {
		return "the distance is not that to the first tile"
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() != "Tiles" {
		return "the distance is not that to the first tile"
	}
	return ""
}

// tileLocation: the position of the tile at a point.
func (c *Ctx) tileLocation() {
	f := c.fn("detour", "NavMesh.CalcTileLoc")
	fl := newFlow(c.Prog, nil)
	s := &settingsRun{fl: fl}
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool { return c.simpleFn(g) },
		Call: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
			if q := qname(callee); q == "github.com/arl/math32.Floor" || q == "math.Floor" {
				return []Outcome{{st, []*Term{fl.tt.mk("round", site.Value().Type(), 0, "down", nil, nil, args[0])}}}, true
			}
			return nil, false
		},
	}
	fl.cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		q, pos := fl.param(st, f.Params[0]), fl.param(st, f.Params[1])
		num := func(a *Term) lpoly { return s.num(st, fl.peek(st, a)) }
		flt := types.Typ[types.Float32]
		for i, n := range []string{"TileWidth", "TileHeight"} {
			k := fl.tt.konst(int64(2 * i))
			orig := fl.peek(st, fl.fieldPath(q, "Orig"))
			want := num(fl.indexAddr(pos, k, flt)).add(num(fl.indexAddr(orig, k, flt)), -1).div(num(fl.fieldPath(q, n))).round("down")
			c.Count("positions", 1)
			t := res[i]
			for t.op == "conv" {
				t = t.a[0]
			}
			if got := s.num(st, res[i]); !got.eq(want) || t.op != "round" {
				fl.Report("location:"+n, fl.instrPos(in), "%s returns %s and not %s; %s", fname(f), got, want, fl.Path(st))
			}
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {})
	fl.Finish(c, fname(f))
}
