package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "R02",
		Rule: "on every path of IsValidPolyRef, TileAndPolyByRef, TileByRef and RemoveTile that answers with success, true or a tile, the path conditions imply: the tile part of the reference is below the number of tiles, the salt of that tile equals the salt part, its header is not nil, and (for polygons) the polygon part is below its number of polygons. " +
			"A table is indexed by a part of the reference, and anything but the salt and the header of the tile is read, only where these conditions hold; a path that answers with a failure writes nothing to existing memory.",
		Floor: []Floor{{"lookup functions", 4}, {"accepting returns", 4}, {"rejecting returns", 10}, {"table accesses by reference", 7}},
		Assum: []string{"tile and polygon bits sum to at most 22 (B06)", "the header's PolyCount is not negative"},
		Run:   runR02,
	})
	register(&Check{
		ID: "R04",
		Rule: "in every exported method of NavMeshQuery that takes polygon references, with its callees analysed at their call sites: an element of the tile or polygon tables is selected by a part of such a reference, or data of the tile is read, only where the path conditions imply that the reference is valid (tile index, salt, header, polygon index); " +
			"a reference enters the search nodes or the state of a sliced query only where it is valid; and where a scalar reference parameter is not known to be valid the status returned has the failure flag (the optional previous reference of a ray cast may be zero).",
		Floor: []Floor{{"query entry points", 8}, {"accepting returns", 20}, {"table accesses by reference", 100}, {"references entering the search", 3}},
		Assum: []string{"references stored in links and in search nodes were valid when they were stored", "tile and polygon bits sum to at most 22 (B06)"},
		Run:   runR04,
	})
}

// refParts are the parts of a reference given by the caller.
type refParts struct{ ref, salt, tile, poly *Term }

// refFlow analyses how the references of the caller are used.
type refFlow struct {
	c     *Ctx
	fl    *Flow
	nav   *Term
	refs  []*refParts
	byRef map[*Term]*refParts
	f     *ssa.Function
	check bool
}

func isRefType(t types.Type) bool {
	if _, ptr := t.Underlying().(*types.Pointer); ptr {
		return false
	}
	return isNamed(t, "detour", "PolyRef") || isNamed(t, "detour", "TileRef")
}

func (r *refFlow) add(st *State, ref *Term) *refParts {
	if p := r.byRef[ref]; p != nil {
		return p
	}
	part := func(name string) *Term {
		g := r.c.fn("detour", "NavMesh."+name)
		s := st.clone()
		was := r.check
		r.check = false
		outs := r.fl.exec(g, []*Term{r.nav, ref}, nil, s, "parts", false)
		r.check = was
		if len(outs) != 1 || len(outs[0].res) != 1 {
			panic("cannot tell what " + name + " computes")
		}
		return outs[0].res[0]
	}
	p := &refParts{ref, part("decodePolyIDSalt"), part("decodePolyIDTile"), part("decodePolyIDPoly")}
	r.byRef[ref] = p
	r.refs = append(r.refs, p)
	return p
}

// bounds of the parts (their masks are not followed).
func (r *refFlow) limit(st *State, p *refParts) {
	k := r.fl.tt.konst(1<<22 - 1)
	st.facts.assumeLe(p.tile, k, 0)
	st.facts.assumeLe(p.poly, k, 0)
	st.facts.assumeLe(r.fl.tt.konst(0), p.tile, 0)
	st.facts.assumeLe(r.fl.tt.konst(0), p.poly, 0)
}

func (r *refFlow) tiles(st *State) *Term { return r.fl.peek(st, r.fl.fieldPath(r.nav, "Tiles")) }

func (r *refFlow) below(st *State, x *Term, limits ...*Term) bool {
	for _, l := range limits {
		if st.facts.le(x, l, 1) {
			return true
		}
		for _, t := range []types.Type{types.Typ[types.Uint32], types.Typ[types.Int32]} {
			if st.facts.le(x, r.fl.convert(st, l, l.typ, t), 1) {
				return true
			}
		}
	}
	return false
}

func (r *refFlow) tileBelow(st *State, p *refParts) bool {
	return r.below(st, p.tile, r.fl.peek(st, r.fl.fieldPath(r.nav, "MaxTiles")), r.fl.lenAt(r.tiles(st), types.NewSlice(types.Typ[types.Int])))
}

// tileOK: the tile exists, the salt is current, the tile holds data.
func (r *refFlow) tileOK(st *State, p *refParts) string {
	if !r.tileBelow(st, p) {
		return "the tile index is not known to be below the number of tiles"
	}
	a := r.tileAddr(st, p)
	salt := r.fl.peek(st, r.fl.fieldPath(a, "Salt"))
	if !st.facts.le(salt, p.salt, 0) || !st.facts.le(p.salt, salt, 0) {
		return "the salt is not known to be the current one of the tile"
	}
	if !st.facts.isNe(r.fl.peek(st, r.fl.fieldPath(a, "Header")), r.fl.tt.konst(0)) {
		return "the tile is not known to hold data"
	}
	return ""
}

func (r *refFlow) tileAddr(st *State, p *refParts) *Term {
	tiles := r.tiles(st)
	return r.fl.indexAddr(tiles, p.tile, tiles.typ.Underlying().(*types.Slice).Elem())
}

func (r *refFlow) polyBelow(st *State, p *refParts) bool {
	a := r.tileAddr(st, p)
	h := r.fl.peek(st, r.fl.fieldPath(a, "Header"))
	return r.below(st, p.poly, r.fl.peek(st, r.fl.fieldPath(h, "PolyCount")),
		r.fl.lenAt(r.fl.peek(st, r.fl.fieldPath(a, "Polys")), types.NewSlice(types.Typ[types.Int])))
}

// valid is empty if the path conditions imply that the reference is valid.
func (r *refFlow) valid(st *State, p *refParts) string {
	if m := r.tileOK(st, p); m != "" {
		return m
	}
	if !r.polyBelow(st, p) {
		return "the polygon index is not known to be below the number of polygons of the tile"
	}
	return ""
}

func (r *refFlow) partOf(t *Term) *refParts {
	for _, p := range r.refs {
		if computedFrom(t, p) {
			return p
		}
	}
	return nil
}

// computedFrom: t is computed from the reference by arithmetic.
func computedFrom(t *Term, p *refParts) bool {
	switch t {
	case p.ref, p.tile, p.poly, p.salt:
		return true
	}
	switch t.op {
	case "load", "fa", "ia", "sym", "const", "alloc", "make":
		return false
	}
	for _, x := range t.a {
		if computedFrom(x, p) {
			return true
		}
	}
	return false
}

// tableOf tells which table a slice is: "Tiles" of the navigation mesh, or a field of a tile.
func tableOf(base *Term) string {
	for base.op == "slice" {
		base = base.a[0]
	}
	if base.op != "load" || base.a[0].op != "fa" {
		return ""
	}
	a := base.a[0].aux
	if strings.HasPrefix(a, "detour.NavMesh.") || strings.HasPrefix(a, "detour.MeshTile.") {
		return a[strings.LastIndex(a, ".")+1:]
	}
	return ""
}

func (r *refFlow) index(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term) {
	if !r.check {
		return
	}
	tab := tableOf(base)
	if tab == "" {
		return
	}
	p := r.partOf(idx)
	if p == nil {
		return
	}
	r.c.Count("table accesses by reference", 1)
	who := fname(in.Parent())
	if st.facts.bad {
		return
	}
	eq := func(x *Term) bool { return idx == x || st.facts.le(idx, x, 0) && st.facts.le(x, idx, 0) }
	switch {
	case tab == "Tiles":
		if !eq(p.tile) {
			fl.Report("part:"+who, fl.instrPos(in), "%s indexes the tiles by %s, which is not the tile index of the reference %s (from %s)", who, idx, p.ref, fname(r.f))
		} else if !r.tileBelow(st, p) {
			fl.Report("tile-index:"+who+":"+fname(r.f), fl.instrPos(in), "%s (from %s) indexes the tiles by the reference %s before its tile index is checked; %s", who, fname(r.f), p.ref, fl.Path(st))
		}
	default:
		if !eq(p.poly) {
			fl.Report("part:"+who, fl.instrPos(in), "%s indexes %s by %s, which is not the polygon index of the reference %s (from %s)", who, tab, idx, p.ref, fname(r.f))
		} else if m := r.valid(st, p); m != "" {
			fl.Report("poly-index:"+who+":"+fname(r.f), fl.instrPos(in), "%s (from %s) indexes %s by the reference %s although %s; %s", who, fname(r.f), tab, p.ref, m, fl.Path(st))
		}
	}
}

func (r *refFlow) load(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
	if !r.check || st.facts.bad {
		return nil
	}
	// an element of a slice of references of the caller
	if addr.op == "ia" && isRefType(contentType(addr)) && fl.entryValue(root(addr)) {
		v := fl.load(st, addr)
		r.limit(st, r.add(st, v))
		return v
	}
	// a field of a tile selected by a reference
	for a := addr; a.op == "fa" || a.op == "ia"; a = a.a[0] {
		if a.op == "fa" && strings.HasPrefix(a.aux, "detour.MeshTile.") && a.a[0].op == "ia" && tableOf(a.a[0].a[0]) == "Tiles" {
			name := a.aux[strings.LastIndex(a.aux, ".")+1:]
			if name == "Salt" || name == "Header" {
				break
			}
			if p := r.partOf(a.a[0].a[1]); p != nil {
				if m := r.tileOK(st, p); m != "" {
					who := fname(in.Parent())
					fl.Report("tile-data:"+who+":"+fname(r.f), fl.instrPos(in), "%s (from %s) reads %s of the tile of the reference %s although %s; %s", who, fname(r.f), name, p.ref, m, fl.Path(st))
				}
			}
		}
	}
	return nil
}

// readsTiles: functions that index the tile table, or take a reference apart.
func (c *Ctx) usesTileTable(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "detour", "NavMesh") {
				switch fieldName(fa) {
				case "Tiles", "tileBits", "polyBits", "saltBits":
					return true
				}
			}
		}
	}
	return false
}

func fieldName(fa *ssa.FieldAddr) string {
	return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

func newRefFlow(c *Ctx, f *ssa.Function, rel map[*ssa.Function]bool) *refFlow {
	r := &refFlow{c: c, f: f, byRef: map[*Term]*refParts{}}
	cl := &Client{Index: r.index, Load: r.load}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return rel[g] || c.simpleFn(g) }
	r.fl = newFlow(c.Prog, cl)
	r.fl.K = 6
	return r
}

func runR02(c *Ctx) {
	rel := c.relevant(c.usesTileTable)
	sb := c.statusBits()
	var fns []*ssa.Function
	// the lookups: exported methods of NavMesh with a reference parameter, that report whether it is valid
	for _, f := range c.srcFuncs {
		if f.Synthetic != "" || !exportedEntry(f) || f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), "detour", "NavMesh") || acceptIdx(f) < 0 {
			continue
		}
		has := false
		for _, p := range f.Params[1:] {
			has = has || isRefType(p.Type())
		}
		if has && rel[f] {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		if f.Name() == "AddTile" { // the reference is a wish
			continue
		}
		c.Count("lookup functions", 1)
		r := newRefFlow(c, f, rel)
		wrote := func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			if !isObj(root(addr)) && r.check {
				st.gs["wrote"] = fl.instrPos(in)
			}
		}
		fl := r.fl
		fl.cl.Store = wrote
		ai := acceptIdx(f)
		var ps []*refParts
		fl.cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			acc, rej := r.accepts(st, sb, f.Signature.Results().At(ai).Type(), res[ai])
			if acc {
				c.Count("accepting returns", 1)
				for _, p := range ps {
					m := ""
					if isNamed(p.ref.typ, "detour", "PolyRef") {
						m = r.valid(st, p)
					} else if st.gs["wrote"] == "" {
						m = r.tileOK(st, p)
					} else if st.gs["ok:"+p.ref.String()] == "" {
						m = "the reference was not known to be valid when the tile was written to"
					}
					if m != "" {
						fl.Report("accepts:"+fname(f), fl.instrPos(in), "%s can accept the reference although %s; %s", fname(f), m, fl.Path(st))
					}
				}
			}
			if rej {
				c.Count("rejecting returns", 1)
				if !acc && st.gs["wrote"] != "" {
					fl.Report("writes:"+fname(f), fl.instrPos(in), "%s writes at %s although it rejects the reference; %s", fname(f), st.gs["wrote"], fl.Path(st))
				}
			}
		}
		// a tile that is modified: the conditions hold when the first write happens
		fl.cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			if !isObj(root(addr)) && r.check && st.gs["wrote"] == "" {
				for _, p := range ps {
					if r.tileOK(st, p) == "" {
						st.gs["ok:"+p.ref.String()] = "1"
					}
				}
			}
			wrote(fl, st, in, addr, val)
		}
		fl.Run(f, func(st *State, params []*Term) {
			r.nav = params[0]
			for i, p := range f.Params {
				if isRefType(p.Type()) {
					rp := r.add(st, params[i])
					r.limit(st, rp)
					ps = append(ps, rp)
				}
			}
			r.check = true
		})
		fl.Finish(c, fname(f))
		c.Sample("%s: %d steps", fname(f), fl.steps)
	}
}

// acceptIdx is the result that tells whether a reference was accepted.
func acceptIdx(f *ssa.Function) int {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		_, ptr := t.Underlying().(*types.Pointer)
		if isStatus(t) || isBoolType(t) || ptr && isNamed(t, "detour", "MeshTile") {
			return i
		}
	}
	return -1
}

// accepts tells whether a result may mean success, and whether it may mean failure.
func (r *refFlow) accepts(st *State, sb statusBits, t types.Type, v *Term) (acc, rej bool) {
	switch {
	case isStatus(t):
		b := st.facts.Bits(v)
		return b.ones&sb.F == 0, b.zeros&sb.F == 0
	case isBoolType(t):
		val, known := r.fl.cond(st, v)
		return !known || val, !known || !val
	}
	zero := r.fl.tt.konst(0)
	return !(st.facts.le(v, zero, 0) && st.facts.le(zero, v, 0)), !st.facts.isNe(v, zero)
}

func runR04(c *Ctx) {
	rel := c.relevant(c.usesTileTable)
	sb := c.statusBits()
	var fns []*ssa.Function
	for _, f := range c.srcFuncs {
		if f.Synthetic != "" || !exportedEntry(f) || f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), "detour", "NavMeshQuery") {
			continue
		}
		for _, p := range f.Params[1:] {
			t := p.Type()
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			if isRefType(t) && strings.Contains(fname(f), only) {
				fns = append(fns, f)
				break
			}
		}
	}
	c.Count("query entry points", len(fns))
	c.Parallel(len(fns), func(i int) {
		f := fns[i]
		r := newRefFlow(c, f, rel)
		fl := r.fl
		var ps []*refParts
		enters := func(st *State, v *Term, in ssa.Instruction, what string) {
			p := r.byRef[v]
			if p == nil || !r.check || st.facts.bad {
				return
			}
			c.Count("references entering the search", 1)
			if m := r.valid(st, p); m != "" {
				fl.Report("enters:"+fname(f), fl.instrPos(in), "%s puts the reference %s into %s although %s; %s", fname(f), p.ref, what, m, fl.Path(st))
			}
		}
		fl.cl.Call = func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
			if callee != nil && callee.Name() == "Node" && callee.Signature.Recv() != nil && isNamed(callee.Signature.Recv().Type(), "detour", "NodePool") {
				enters(st, args[1], site, "the search nodes")
			}
			return nil, false
		}
		fl.cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			ai := acceptIdx(f)
			if ai < 0 {
				return
			}
			acc, _ := r.accepts(st, sb, f.Signature.Results().At(ai).Type(), res[ai])
			if !acc {
				return
			}
			c.Count("accepting returns", 1)
			for _, p := range ps {
				zero := fl.tt.konst(0)
				if strings.HasPrefix(p.ref.aux, "prev") && st.facts.le(p.ref, zero, 0) {
					continue // optional
				}
				if m := r.valid(st, p); m != "" {
					fl.Report("accepts:"+fname(f)+":"+p.ref.aux, fl.instrPos(in), "%s can succeed for the reference %s although %s; %s", fname(f), p.ref, m, fl.Path(st))
				}
			}
		}
		fl.cl.Key = func(st *State) string {
			k := ""
			for _, p := range ps {
				switch {
				case st.facts.bad:
				case st.facts.le(p.ref, fl.tt.konst(0), 0):
					k += "0"
				case r.valid(st, p) == "":
					k += "v"
				default:
					k += "-"
				}
			}
			return k
		}
		fl.Run(f, func(st *State, params []*Term) {
			r.nav = fl.peek(st, fl.fieldPath(params[0], "nav"))
			for i, p := range f.Params {
				if isRefType(p.Type()) {
					rp := r.add(st, params[i])
					r.limit(st, rp)
					ps = append(ps, rp)
				}
			}
			r.check = true
		})
		fl.Finish(c, fname(f))
		c.Sample("%s: %d steps", fname(f), fl.steps)
		if verbose {
			println(fname(f), fl.steps)
		}
	})
}
