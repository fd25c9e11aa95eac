package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "P05",
		Rule: "on every path of the writing method to a return without error, a ghost counter of the tiles written has advanced over all tiles: in each iteration over the tiles the tile has no data and nothing is written, or its header with the reference of that tile and the size of its data, followed by so many bytes; another ghost counter shows that the number of tiles in the set header counts exactly the tiles with data. " +
			"On every path of the decoding function to a return without error, as many tiles as announced, or all up to the first without reference or data, were added, each with the reference and so many bytes as its header says, from the buffer read after that header.",
		Floor: []Floor{{"tiles written", 1}, {"tiles counted", 1}, {"tiles added", 1}, {"successful returns", 2}},
		Run:   runP05,
	})
}

func runP05(c *Ctx) {
	for _, f := range c.exportedFuncs("detour") {
		for _, p := range f.Params {
			if isNamed(p.Type(), "io", "Writer") && f.Signature.Recv() != nil && isNamed(deref(f.Signature.Recv().Type()), "detour", "NavMesh") {
				c.savesAll(f)
			}
			if isNamed(p.Type(), "io", "Reader") && f.Signature.Results().Len() == 2 && isNamed(deref(f.Signature.Results().At(0).Type()), "detour", "NavMesh") {
				c.decodesAll(f)
			}
		}
	}
}

// countIncrements: the additions that make up the number of tiles in the set
// header; other tells what else it may be.
func (c *Ctx) countIncrements() (incs map[*ssa.BinOp]bool, other string) {
	incs = map[*ssa.BinOp]bool{}
	seen := map[ssa.Value]bool{}
	isCount := func(addr ssa.Value) bool {
		fa, ok := addr.(*ssa.FieldAddr)
		if !ok || !isNamed(deref(fa.X.Type()), "detour", "navMeshSetHeader") {
			return false
		}
		return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "NumTiles"
	}
	var trace func(v ssa.Value)
	stores := func(addr ssa.Value) {
		for _, r := range *addr.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == addr {
					trace(r.Val)
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				other = "a variable used elsewhere, " + c.pos(r.Pos())
			}
		}
	}
	trace = func(v ssa.Value) {
		v = stripConvert(v)
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			if k, ok := intConst(v); !ok || k != 0 {
				other = "the constant " + v.String()
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				trace(e)
			}
		case *ssa.BinOp:
			if k, ok := intConst(v.Y); ok && k == 1 && v.Op == token.ADD {
				incs[v] = true
				trace(v.X)
				return
			}
			other = "the result of " + v.String()
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if isCount(v.X) {
					return
				}
				if a, ok := v.X.(*ssa.Alloc); ok {
					stores(a)
					return
				}
			}
			other = "the value " + v.String()
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && g.Signature.Results().Len() == 1 {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						trace(r.Results[0])
					}
				}
				return
			}
			other = "the result of " + v.String()
		default:
			other = "the value " + v.Name()
		}
	}
	for _, f := range c.srcFuncs {
		if relPkg(funcPkg(f)) != "detour" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && isCount(s.Addr) {
					trace(s.Val)
				}
			}
		}
	}
	return incs, other
}

// newErrors: calls making an error.
func newErrors(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
	switch calleeName(callee, site.Common()) {
	case "fmt.Errorf", "errors.New":
		fl.opaque(st, site, callee, args)
		res := fl.freshResult(st, "error", site)
		st.facts.assumeNe(res[0], fl.tt.konst(0))
		return []Outcome{{st, res}}, true
	}
	return nil, false
}

func mayBeNil(fl *Flow, st *State, r *Term) bool {
	return r.op != "iface" && !st.facts.isNe(r, fl.tt.konst(0))
}

func (c *Ctx) savesAll(f *ssa.Function) {
	incs, other := c.countIncrements()
	if other != "" {
		c.Violate("count", c.pos(f.Pos()), "the number of tiles in the set header is not counted tile by tile: it may be %s", other)
	}
	isHeader := func(addr *Term, n string) bool { return addr.op == "fa" && addr.aux == "detour.navMeshTileHeader."+n }
	writes := c.relevant(func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() && call.Common().Method.Name() == "Write" {
					return true
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && (isNamed(deref(fa.X.Type()), "detour", "navMeshSetHeader") || isNamed(deref(fa.X.Type()), "detour", "navMeshTileHeader")) {
					return true
				}
				if bo, ok := in.(*ssa.BinOp); ok && incs[bo] {
					return true
				}
			}
		}
		return false
	})
	fl := newFlow(c.Prog, nil)
	var q *Term
	zero := fl.tt.konst(0)
	intT := types.Typ[types.Int]
	size := func(st *State) *Term { return fl.peek(st, fl.fieldPath(st.gt["tile"], "DataSize")) }
	// a tile has a header exactly when it has data
	holds := func(st *State) bool {
		return st.facts.isNe(size(st), zero) || st.facts.isNe(fl.peek(st, fl.fieldPath(st.gt["tile"], "Header")), zero)
	}
	empties := func(st *State) bool {
		return eqIn(st, size(st), zero) || eqIn(st, fl.peek(st, fl.fieldPath(st.gt["tile"], "Header")), zero)
	}
	sized := func(st *State, n *Term) bool { // n is the size of the data of the tile
		return n != nil && (eqIn(st, n, size(st)) || eqIn(st, n, fl.tt.lenOf(fl.peek(st, fl.fieldPath(st.gt["tile"], "Data")))))
	}
	complete := func(st *State, n string) bool {
		if st.gt[n] == nil {
			return false
		}
		return st.facts.le(fl.peek(st, fl.fieldPath(q, "MaxTiles")), st.gt[n], 0) || st.facts.le(fl.tt.lenOf(fl.peek(st, fl.fieldPath(q, "Tiles"))), st.gt[n], 0)
	}
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool { return writes[g] || c.simpleFn(g) && !c.writesMesh(g) },
		Index: func(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if sl, ok := ia.X.Type().Underlying().(*types.Slice); !ok || !isNamed(sl.Elem(), "detour", "MeshTile") {
				return
			}
			if _, isConst := intConst(ia.Index); isConst {
				return // the reference of a tile
			}
			if st.gt["tile"] == nil {
				st.gt["idx"], st.gt["tile"] = idx, fl.indexAddr(base, idx, c.typ("detour", "MeshTile"))
			} else if !eqIn(st, st.gt["idx"], idx) {
				fl.Report("other", fl.instrPos(in), "%s uses tile %s while it writes or counts tile %s; %s", fname(f), idx, st.gt["idx"], fl.Path(st))
			}
		},
		BinOp: func(fl *Flow, st *State, in *ssa.BinOp, x, y *Term) {
			if !incs[in] {
				return
			}
			c.Count("tiles counted", 1)
			if st.gt["tile"] == nil || st.gs["counted"] != "" || !holds(st) {
				fl.Report("counted", fl.instrPos(in), "%s counts a tile that is not known to hold data, or counts it twice; %s", fname(f), fl.Path(st))
			}
			st.gs["counted"] = "1"
		},
		Key: func(st *State) string { return st.gs["counted"] + "," + st.gs["header"] },
		Call: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
			com := site.Common()
			if com.IsInvoke() && com.Method.Name() == "Write" && len(args) == 2 {
				at := fl.instrPos(site)
				fl.opaque(st, site, callee, args)
				res := fl.freshResult(st, "written", site)
				st.facts.assumeEq(res[1], zero)
				out := []Outcome{{st, []*Term{res[0], zero}}}
				if st.gs["header"] == "" {
					if !complete(st, "all counted") {
						fl.Report("uncounted", at, "%s writes the set header without having counted every tile that holds data; %s", fname(f), fl.Path(st))
					}
					st.gs["header"] = "1"
					delete(st.gt, "tile")
					delete(st.gs, "counted")
					st.gt["all written"] = zero
					return out, true
				}
				if st.gt["tile"] == nil || !holds(st) {
					fl.Report("written", at, "%s writes a tile that is not known to hold data; %s", fname(f), fl.Path(st))
					return out, true
				}
				c.Count("tiles written", 1)
				n := fl.lenAt(args[1], args[1].typ)
				if b := st.gt["bytes"]; b != nil {
					n = fl.tt.fromLin(linOf(n).add(linOf(b), 1), intT)
				}
				st.gt["bytes"] = n
				return out, true
			}
			return newErrors(fl, st, site, callee, args)
		},
		After: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term) {
			if callee == nil || res == nil || res.op == "tuple" || st.gt["tile"] == nil {
				return
			}
			switch callee {
			case c.fn("detour", "NavMesh.TileRef"), c.fn("detour", "NavMesh.polyRefBase"):
				if eqIn(st, args[1], st.gt["tile"]) {
					st.gt["ref"] = res
				}
			case c.fn("detour", "NavMesh.encodePolyID"):
				if eqIn(st, args[1], fl.peek(st, fl.fieldPath(st.gt["tile"], "Salt"))) && eqIn(st, args[2], st.gt["idx"]) && eqIn(st, args[3], zero) {
					st.gt["ref"] = res
				}
			}
		},
		Store: func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			for addr.op == "conv" {
				addr = addr.a[0]
			}
			switch {
			case isHeader(addr, "TileRef") && st.gt["tile"] != nil:
				if r := st.gt["ref"]; r == nil || !eqIn(st, stripConv(val), stripConv(r)) {
					fl.Report("ref", fl.instrPos(in), "%s saves a tile with %s, which is not its reference; %s", fname(f), val, fl.Path(st))
					return
				}
				st.gs["ref"] = "1"
			case isHeader(addr, "DataSize") && st.gt["tile"] != nil:
				if !sized(st, val) {
					fl.Report("size", fl.instrPos(in), "%s saves a tile with the size %s, which is not the size of its data; %s", fname(f), val, fl.Path(st))
					return
				}
				st.gs["size"] = "1"
			}
		},
		Back: func(fl *Flow, st *State, header *ssa.BasicBlock) {
			if st.gt["tile"] == nil || st.facts.bad {
				return
			}
			at := fl.instrPos(header.Instrs[0])
			n := "all counted"
			empty := empties(st)
			ok := empty || st.gs["counted"] != ""
			if st.gs["header"] != "" {
				n = "all written"
				ok = empty
				if b := st.gt["bytes"]; b != nil {
					rest := fl.tt.fromLin(linOf(b).add(linForm{-8, nil}, 1), intT)
					switch {
					case st.gs["ref"] == "" || st.gs["size"] == "":
						fl.Report("tile header", at, "%s writes a tile without its reference and its size; %s", fname(f), fl.Path(st))
					case !sized(st, rest):
						fl.Report("bytes", at, "%s writes a tile with 8+(%s) bytes, and not its header and its data; %s", fname(f), rest, fl.Path(st))
					}
					ok = true
				}
			}
			if next := st.gt[n]; ok && next != nil && eqIn(st, next, st.gt["idx"]) {
				st.gt[n] = fl.tt.fromLin(linOf(next).add(linForm{1, nil}, 1), intT)
			}
			for _, k := range []string{"tile", "idx", "bytes", "ref"} {
				delete(st.gt, k)
			}
			for _, k := range []string{"counted", "ref", "size"} {
				delete(st.gs, k)
			}
		},
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			if st.facts.bad || !mayBeNil(fl, st, res[len(res)-1]) {
				return
			}
			c.Count("successful returns", 1)
			if !complete(st, "all written") {
				fl.Report("unwritten:"+fname(f), fl.instrPos(in), "%s may return no error without having written every tile that holds data; %s", fname(f), fl.Path(st))
			}
		},
	}
	fl.Run(f, func(st *State, ps []*Term) {
		q = ps[0]
		st.gt["all counted"] = zero
	})
	fl.Finish(c, fname(f))
}

func (c *Ctx) decodesAll(f *ssa.Function) {
	fl := newFlow(c.Prog, nil)
	zero := fl.tt.konst(0)
	intT := types.Typ[types.Int]
	add := c.fn("detour", "NavMesh.AddTile")
	adds := c.relevant(func(g *ssa.Function) bool { return g != add && callsFn(g, add) })
	reads := c.relevant(func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					switch calleeName(call.Common().StaticCallee(), call.Common()) {
					case "encoding/binary.Read", "io.ReadFull", "io.ReadAtLeast":
						return true
					}
				}
			}
		}
		return false
	})
	sb := c.statusBits()
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool {
			return g != add && (adds[g] || reads[g] || c.simpleFn(g) && !c.writesMesh(g))
		},
		Key: func(st *State) string { return st.gs["added"] },
		Call: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
			at := fl.instrPos(site)
			switch calleeName(callee, site.Common()) {
			case "encoding/binary.Read":
				// only fills what it is given
				p := strip(args[2])
				if p == nil || !isObjAddr(p) {
					fl.opaque(st, site, callee, args)
					return []Outcome{{st, []*Term{zero}}}, true
				}
				if s, ok := contentType(p).Underlying().(*types.Struct); ok {
					for k := 0; k < s.NumFields(); k++ {
						st.mem[fl.fieldAddr(p, k)] = fl.tt.mk("sym", s.Field(k).Type(), 0, "read:"+s.Field(k).Name()+"@"+fl.iid(site), nil, fl.loops)
					}
				} else {
					fl.opaque(st, site, callee, args)
				}
				if isNamed(contentType(p), "detour", "navMeshSetHeader") {
					st.gt["announced"] = fl.load(st, fl.fieldPath(p, "NumTiles"))
				}
				if isNamed(contentType(p), "detour", "navMeshTileHeader") {
					st.gt["ref"], st.gt["size"] = fl.load(st, fl.fieldPath(p, "TileRef")), fl.load(st, fl.fieldPath(p, "DataSize"))
					delete(st.gt, "data")
				}
				return []Outcome{{st, []*Term{zero}}}, true
			case "io.ReadFull":
				st.gt["data"] = args[1]
				return []Outcome{{st, []*Term{fl.lenAt(args[1], args[1].typ), zero}}}, true
			}
			if callee == add {
				c.Count("tiles added", 1)
				switch {
				case st.gt["data"] == nil || !eqIn(st, args[1], st.gt["data"]):
					fl.Report("data:"+fname(f), at, "%s adds a tile with other data than it has read after the last tile header; %s", fname(f), fl.Path(st))
				case st.gt["size"] == nil || !eqIn(st, fl.lenAt(args[1], args[1].typ), st.gt["size"]):
					fl.Report("size:"+fname(f), at, "%s adds a tile with %s bytes, and not the size in its header; %s", fname(f), fl.lenAt(args[1], args[1].typ), fl.Path(st))
				case st.gt["ref"] == nil || !eqIn(st, stripConv(args[2]), stripConv(st.gt["ref"])):
					fl.Report("ref:"+fname(f), at, "%s adds a tile with the reference %s, and not the one in its header; %s", fname(f), args[2], fl.Path(st))
				}
				if st.gs["added"] != "" {
					fl.Report("twice:"+fname(f), at, "%s adds two tiles for one header; %s", fname(f), fl.Path(st))
				}
				st.gs["added"] = "1" // the headers are not reached from there
				res := fl.freshResult(st, "status", site)
				st.facts.assumeBits(res[0], sb.S, sb.F)
				return []Outcome{{st, res}}, true
			}
			return newErrors(fl, st, site, callee, args)
		},
		Branch: func(fl *Flow, st *State) {
			if st.gt["next"] == nil || st.gt["announced"] == nil {
				return
			}
			if st.facts.le(st.gt["announced"], st.gt["next"], 0) ||
				st.gs["added"] == "" && st.gt["ref"] != nil && (eqIn(st, st.gt["ref"], zero) || eqIn(st, st.gt["size"], zero)) {
				st.gs["all"] = "1"
			}
		},
		Back: func(fl *Flow, st *State, header *ssa.BasicBlock) {
			delete(st.gs, "all")
			if st.gs["added"] != "" && st.gt["next"] != nil {
				st.gt["next"] = fl.tt.fromLin(linOf(st.gt["next"]).add(linForm{1, nil}, 1), intT)
			}
			delete(st.gs, "added")
			for _, k := range []string{"ref", "size", "data"} {
				delete(st.gt, k)
			}
		},
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			if st.facts.bad || !mayBeNil(fl, st, res[len(res)-1]) {
				return
			}
			c.Count("successful returns", 1)
			if st.gs["all"] == "" {
				fl.Report("missing:"+fname(f), fl.instrPos(in), "%s may return no error without having added every tile announced by the set header; %s", fname(f), fl.Path(st))
			}
		},
	}
	fl.Run(f, func(st *State, ps []*Term) { st.gt["next"] = zero })
	fl.Finish(c, fname(f))
}
