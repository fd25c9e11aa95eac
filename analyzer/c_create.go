package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "B05", Run: runB05,
		Rule:  "On every path of CreateNavMeshData to a return of data or without an error, the path conditions imply 1 <= vertices <= 65534, at least one polygon, a polygon size of at most VertsPerPolygon, and vertex and polygon arrays that are not nil; a return with an error has no data. The numbers of vertices and polygons stored in the tile header, connections included, are in the range of 16-bit indices.",
		Floor: []Floor{{"returns with an error", 4}, {"returns with data", 1}, {"stored counts", 2}},
		Assum: []string{"sums of counts do not overflow 32 bits", "a number of vertices that is not above its array bounds the array"}})
}

func runB05(c *Ctx) {
	f := c.fn("detour", "CreateNavMeshData")
	vpp := c.constVal("detour", "VertsPerPolygon")
	cl := &Client{}
	fl := newFlow(c.Prog, cl)
	var params *Term
	rel := c.relevant(func(g *ssa.Function) bool {
		rs := g.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if isErrorType(rs.At(i).Type()) {
				return true
			}
		}
		return false
	})
	cl.Inline = func(fl *Flow, g *ssa.Function) bool { return fl.inModule(g) && (rel[g] || c.simpleFn(g)) }
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "fa" || addr.aux != "detour.MeshHeader.VertCount" && addr.aux != "detour.MeshHeader.PolyCount" {
			return
		}
		if val.isConst() && val.n == 0 {
			return
		}
		c.Count("stored counts", 1)
		lo, hi := st.facts.Range(val)
		if lo < 1 || hi > 65535 {
			fl.Report("stored:"+addr.aux, fl.instrPos(in), "the count %s stored as %s may be outside the range 1 to 65535 of 16-bit indices: %d to %d; %s", val, addr.aux, lo, hi, fl.Path(st))
		}
	}
	cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		at := fl.instrPos(in)
		zero := fl.tt.konst(0)
		data, err := res[0], res[1]
		isNil := func(t *Term) bool { return st.facts.le(t, zero, 0) && st.facts.le(zero, t, 0) }
		if isNil(data) {
			if isNil(err) {
				fl.Report("no-data", at, "CreateNavMeshData may return neither data nor an error; %s", fl.Path(st))
			}
			if !st.facts.isNe(err, zero) && !isNil(err) {
				fl.Report("nil-error", at, "CreateNavMeshData returns no data, and possibly no error (%s); %s", err, fl.Path(st))
			}
			c.Count("returns with an error", 1)
			return
		}
		if !isNil(err) {
			fl.Report("data-and-error", at, "CreateNavMeshData may return data with an error; %s", fl.Path(st))
			return
		}
		c.Count("returns with data", 1)
		entry := func(n string) *Term { return st.gt[n] }
		rng := func(n string, lo, hi int64) {
			l, h := st.facts.Range(entry(n))
			if l < lo || h > hi {
				fl.Report("accepted:"+n, at, "CreateNavMeshData returns data with %s from %d to %d, outside %d to %d; %s", n, l, h, lo, hi, fl.Path(st))
			}
		}
		rng("VertCount", 1, 65534)
		rng("PolyCount", 1, inf)
		rng("Nvp", -inf, vpp)
		for _, n := range []string{"Verts", "Polys"} {
			t := entry(n)
			lo, _ := st.facts.Range(fl.tt.lenOf(t))
			if !st.facts.isNe(t, zero) && lo < 1 {
				fl.Report("accepted:"+n, at, "CreateNavMeshData returns data although %s may be missing; %s", n, fl.Path(st))
			}
		}
	}
	fl.Run(f, func(st *State, ps []*Term) {
		params = ps[0]
		for _, n := range []string{"VertCount", "PolyCount", "Nvp", "Verts", "Polys"} {
			st.gt[n] = fl.load(st, fl.fieldPath(params, n))
		}
	})
	fl.Finish(c, fname(f))
}
