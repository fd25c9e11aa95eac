package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "K08",
		Rule: "on every path of the exported builders of sample (the functions of the package, and those of recast without a build context, analysed at their call sites), the arguments of each build stage and the fields of the tile parameters, as symbolic expressions of the settings and the input geometry brought to the normal form of a sum of products (divisions and roundings up and down kept), are those of the specification; the stages work on the heightfield, contours and meshes of the stages before; " +
			"the data of a tile is created only after every stage was run, every convex volume was marked, the triangle areas of a chunk of triangles start from zero, and the area of every polygon was translated, to the flags of that area; a tile is looked up, removed and added at the coordinates of the position or of the tile just built.",
		Floor: []Floor{{"builders", 2}, {"stage arguments", 50}, {"tile parameters", 40}, {"areas given flags", 5}, {"sizes of the navigation mesh", 3}, {"places of tiles", 4}},
		Assum: []string{"arithmetic on settings is that of real numbers", "the vectors and slices held by a builder do not overlap", "the settings, the input geometry and the accessors' results do not change during a build", "a field of a builder that is only ever set to one constant has this value"},
		Run:   runK08,
	})
}

type argSpec struct {
	arg        int
	solo, tile string // "" is not specified
}

func both(arg int, spec string) argSpec { return argSpec{arg, spec, spec} }

const (
	specHeight = "up(AgentHeight/CellHeight)"
	specClimb  = "down(AgentMaxClimb/CellHeight)"
	specRadius = "up(AgentRadius/CellSize)"
	specBorder = "(up(AgentRadius/CellSize)+3)"
	specGrid   = "(down(TileSize)+2*(up(AgentRadius/CellSize)+3))"
)

// stageArgs are the numbers the stages are given.
var stageArgs = map[string][]argSpec{
	"MarkWalkableTriangles":             {both(1, "AgentMaxSlope"), both(2, "geomMeshVerts"), both(3, "geomMeshVertCount"), {4, "geomMeshTris", ""}, {5, "geomMeshTriCount", ""}},
	"RasterizeTriangles":                {both(1, "geomMeshVerts"), both(2, "geomMeshVertCount"), {3, "geomMeshTris", ""}, {5, "geomMeshTriCount", ""}, both(7, specClimb)},
	"FilterLowHangingWalkableObstacles": {both(1, specClimb)},
	"FilterLedgeSpans":                  {both(1, specHeight), both(2, specClimb)},
	"FilterWalkableLowHeightSpans":      {both(1, specHeight)},
	"BuildCompactHeightfield":           {both(1, specHeight), both(2, specClimb)},
	"ErodeWalkableArea":                 {both(1, specRadius)},
	"MarkConvexPolyArea":                {both(1, "volumeVerts"), both(2, "volumeNVerts"), both(3, "volumeHMin"), both(4, "volumeHMax"), both(5, "volumeArea")},
	"BuildRegionsMonotone":              {{2, "0", specBorder}, both(3, "down(RegionMinSize*RegionMinSize)"), both(4, "down(RegionMergeSize*RegionMergeSize)")},
	"BuildContours":                     {both(2, "EdgeMaxError"), both(3, "down(EdgeMaxLen/CellSize)"), both(5, "1")},
	"BuildPolyMesh":                     {both(2, "down(VertsPerPoly)")},
	"BuildPolyMeshDetail":               {both(4, "CellHeight*DetailSampleMaxError")},
	"NewHeightfield":                    {{0, "down((max0-min0)/CellSize+0.5)", specGrid}, {1, "down((max2-min2)/CellSize+0.5)", specGrid}, both(4, "CellSize"), both(5, "CellHeight")},
}

// stageOrder: the stages that must have been run before.
var stageOrder = map[string][]string{
	"RasterizeTriangles":                {"NewHeightfield", "MarkWalkableTriangles"},
	"FilterLowHangingWalkableObstacles": {"NewHeightfield"},
	"FilterLedgeSpans":                  {"FilterLowHangingWalkableObstacles"},
	"FilterWalkableLowHeightSpans":      {"FilterLedgeSpans"},
	"BuildCompactHeightfield":           {"FilterWalkableLowHeightSpans"},
	"ErodeWalkableArea":                 {"BuildCompactHeightfield"},
	"MarkConvexPolyArea":                {"BuildCompactHeightfield"},
	"BuildRegionsMonotone":              {"ErodeWalkableArea"},
	"BuildContours":                     {"BuildRegionsMonotone"},
	"BuildPolyMesh":                     {"BuildContours"},
	"BuildPolyMeshDetail":               {"BuildPolyMesh"},
	"CreateNavMeshData":                 {"BuildPolyMeshDetail"},
}

// tileParams are the fields of the parameters of CreateNavMeshData.
var tileParams = map[string]string{
	"Verts": "pmeshVerts", "VertCount": "pmeshNVerts", "Polys": "pmeshPolys", "PolyAreas": "pmeshAreas", "PolyFlags": "pmeshFlags",
	"PolyCount": "pmeshNPolys", "Nvp": "pmeshNvp", "DetailMeshes": "dmeshMeshes", "DetailVerts": "dmeshVerts",
	"DetailVertsCount": "dmeshNVerts", "DetailTris": "dmeshTris", "DetailTriCount": "dmeshNTris",
	"OffMeshConVerts": "geomOffMeshConnectionVerts", "OffMeshConRad": "geomOffMeshConnectionRads",
	"OffMeshConDir": "geomOffMeshConnectionDirs", "OffMeshConAreas": "geomOffMeshConnectionAreas",
	"OffMeshConFlags": "geomOffMeshConnectionFlags", "OffMeshConUserID": "geomOffMeshConnectionId",
	"OffMeshConCount": "geomOffMeshConnectionCount",
	"WalkableHeight":  "AgentHeight", "WalkableRadius": "AgentRadius", "WalkableClimb": "AgentMaxClimb",
	"Cs": "CellSize", "Ch": "CellHeight",
}

type settingsRun struct {
	c       *Ctx
	fl      *Flow
	f       *ssa.Function
	tile    bool
	creates bool // the root creates tile data
	def     map[string]lpoly
	areas   map[string]bool
	mu      sync.Mutex
	bounds  map[string]lpoly
}

func runK08(c *Ctx) {
	var roots []*ssa.Function
	create := c.fn("detour", "CreateNavMeshData")
	if create == nil {
		return
	}
	at := c.fn("detour", "NavMesh.TileRefAt")
	rel := c.relevant(func(g *ssa.Function) bool { return g == create })
	locate := c.relevant(func(g *ssa.Function) bool { return g == at })
	for _, f := range c.srcFuncs {
		if strings.HasPrefix(relPkg(funcPkg(f)), "sample") && exportedEntry(f) && f.Synthetic == "" && (rel[f] || locate[f] || tilePos(f)) {
			roots = append(roots, f)
		}
	}
	add := c.fn("detour", "NavMesh.AddTile")
	tiled := c.relevant(func(g *ssa.Function) bool { return g == add })
	c.Parallel(len(roots), func(i int) {
		c.Distinct("builders", fname(roots[i]))
		s := &settingsRun{c: c, f: roots[i], tile: (tiled[roots[i]] || !rel[roots[i]]) && usesTileSize(roots[i], rel), creates: rel[roots[i]], areas: map[string]bool{}, bounds: map[string]lpoly{}}
		s.run()
	})
}

// tilePos: f gives the coordinates of the tile at a position.
func tilePos(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 2 || position(f) == nil || !usesTileSize(f, nil) {
		return false
	}
	for i := 0; i < 2; i++ {
		if b, ok := rs.At(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
			return false
		}
	}
	return true
}

// position is the parameter of f that is a position.
func position(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && isFloatType(sl.Elem().Underlying()) {
			return p
		}
	}
	return nil
}

// usesTileSize: f or a function it calls in its package reads the tile size.
func usesTileSize(f *ssa.Function, rel map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if seen[g] || funcPkg(g) != funcPkg(f) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "recast", "BuildSettings") &&
					deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "TileSize" {
					return true
				}
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil && visit(call.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return visit(f)
}

// path names memory and references to it.
func (s *settingsRun) path(st *State, t *Term) string {
	for _, o := range [][2]string{{"PolyMesh", "pmesh"}, {"PolyMeshDetail", "dmesh"}} {
		if g := st.gt["obj:"+o[0]]; g != nil && t == g {
			return o[1]
		}
	}
	switch t.op {
	case "fa":
		i := strings.LastIndex(t.aux, ".")
		name := t.aux[i+1:]
		if strings.HasSuffix(t.aux[:i], "recast.BuildSettings") {
			return name
		}
		b := s.path(st, t.a[0])
		if b == "pmesh" || b == "dmesh" {
			return b + name
		}
		return b + "." + name
	case "ia":
		return s.path(st, t.a[0]) + "[" + s.num(st, t.a[1]).String() + "]"
	case "load":
		return s.path(st, t.a[0])
	case "slice":
		if t.a[1].isConst() && t.a[1].n == 0 {
			return s.path(st, t.a[0])
		}
		return s.path(st, t.a[0]) + "[" + s.num(st, t.a[1]).String() + ":]"
	case "acc":
		if b := s.path(st, t.a[0]); strings.HasPrefix(b, "geom") {
			return b + t.aux
		}
		return "geom" + t.aux
	}
	return "@" + t.String()
}

// num is a number as an expression of the settings.
func (s *settingsRun) num(st *State, t *Term) lpoly {
	switch t.op {
	case "const":
		return lint(t.n)
	case "sconst":
		if r, ok := new(big.Rat).SetString(t.aux); ok {
			return lconst(r)
		}
		if k := constant.MakeFromLiteral(t.aux, token.FLOAT, 0); k.Kind() != constant.Unknown {
			f, _ := constant.Float64Val(k)
			return lconst(new(big.Rat).SetFloat64(f))
		}
	case "lin":
		r := lint(t.n)
		for i, x := range t.a {
			r = r.add(s.num(st, x), t.coef[i])
		}
		return r
	case "mul", "f*":
		return s.num(st, t.a[0]).mul(s.num(st, t.a[1]))
	case "f/":
		return s.num(st, t.a[0]).div(s.num(st, t.a[1]))
	case "f+":
		return s.num(st, t.a[0]).add(s.num(st, t.a[1]), 1)
	case "f-":
		if len(t.a) == 2 {
			return s.num(st, t.a[0]).add(s.num(st, t.a[1]), -1)
		}
	case "round":
		return s.num(st, t.a[0]).round(t.aux)
	case "conv":
		x := s.num(st, t.a[0])
		to := t.typ
		if isFloatType(to.Underlying()) {
			return x
		}
		if b, ok := to.Underlying().(*types.Basic); ok && isIntType(to) {
			if t.a[0].typ != nil && isFloatType(t.a[0].typ.Underlying()) {
				x = x.round("down")
			}
			switch b.Kind() {
			case types.Int8, types.Int16, types.Uint16:
				return latom(b.Name() + "(" + x.String() + ")")
			}
			return x
		}
	case "load", "acc":
		return latom(s.path(st, t))
	}
	if t.typ != nil && isIntType(t.typ) {
		return latom("#" + t.String())
	}
	return latom("@" + t.String())
}

func (s *settingsRun) spec(text string) lpoly { return lspec(text, s.def) }

func (s *settingsRun) want(st *State, in ssa.Instruction, what, spec string, got lpoly) {
	if w := s.spec(spec); !got.eq(w) {
		s.fl.Report("value:"+fname(s.f)+":"+what, s.fl.instrPos(in), "%s: %s is %s, and not %s; %s", fname(s.f), what, got, w, s.fl.Path(st))
	}
}

// value of an argument: a number, or the name of a reference.
func (s *settingsRun) value(st *State, t *Term) lpoly {
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Basic); ok {
			return s.num(st, t)
		}
	}
	switch t.op {
	case "const", "sconst", "lin", "mul", "conv", "round":
		return s.num(st, t)
	}
	if strings.HasPrefix(t.op, "f") && t.op != "fa" {
		return s.num(st, t)
	}
	return latom(s.path(st, t))
}

func (s *settingsRun) run() {
	c, f := s.c, s.f
	s.def = map[string]lpoly{}
	for i := 0; i < 3; i++ {
		s.def[fmt.Sprint("min", i)] = latom(fmt.Sprintf("geomNavMeshBoundsMin[%d]", i))
		s.def[fmt.Sprint("max", i)] = latom(fmt.Sprintf("geomNavMeshBoundsMax[%d]", i))
	}
	if p := position(f); p != nil {
		for i := 0; i < 3; i++ {
			s.def[fmt.Sprint("pos", i)] = latom(fmt.Sprintf("@%s[%d]", p.Name(), i))
		}
	}
	pickSpec := func(a argSpec) string {
		if s.tile {
			return a.tile
		}
		return a.solo
	}
	consts := c.builderConstants()
	cl := &Client{CopyElems: true, Unroll: 4}
	inSample := func(g *ssa.Function) bool { return strings.HasPrefix(relPkg(funcPkg(g)), "sample") }
	withContext := func(g *ssa.Function) bool {
		for _, p := range g.Params {
			if isContext(deref(p.Type())) {
				return true
			}
		}
		return false
	}
	cl.Inline = func(fl *Flow, g *ssa.Function) bool {
		if inSample(g) {
			return true
		}
		return fl.inModule(g) && !withContext(g) && relPkg(funcPkg(g)) == "recast" && g.Name() != "NewHeightfield" && c.simpleFn(g)
	}
	cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		if addr.op == "fa" {
			if k, ok := consts[addr.aux]; ok {
				return fl.tt.konst(k)
			}
		}
		if r := root(addr); !isObj(r) {
			// the settings and the geometry stay what they are
			given := r.op == "acc" && addr != r
			for a := addr; a.op == "fa" && !given; a = a.a[0] {
				given = strings.HasPrefix(a.aux, "recast.BuildSettings.")
			}
			if given {
				return fl.tt.mk("load", contentType(addr), 0, "", nil, nil, addr, fl.tt.konst(0))
			}
		}
		if addr.op == "ia" && st.gt["obj:PolyMesh"] != nil && s.path(st, addr.a[0]) == "pmeshAreas" {
			if next := st.gt["polys"]; next != nil && fl.eq(st, addr.a[1], next) {
				st.gt["polys"] = fl.tt.fromLin(linOf(addr.a[1]).add(linForm{1, nil}, 1), types.Typ[types.Int])
			}
		}
		return nil
	}
	objName := func(t types.Type) string {
		for _, n := range []string{"Heightfield", "CompactHeightfield", "ContourSet", "PolyMesh", "PolyMeshDetail"} {
			if isNamed(deref0(t), "recast", n) {
				return n
			}
		}
		return ""
	}
	before := func(fl *Flow, st *State, in ssa.Instruction, name string) {
		for _, p := range stageOrder[name] {
			if st.gs["did:"+p] == "" {
				fl.Report("order:"+fname(f)+":"+name+":"+p, fl.instrPos(in), "%s may run %s without having run %s; %s", fname(f), name, p, fl.Path(st))
			}
		}
		st.gs["did:"+name] = "1"
	}
	vec := func(fl *Flow, st *State, t *Term) []lpoly {
		var r []lpoly
		elem := types.Typ[types.Float32]
		for i := int64(0); i < 3; i++ {
			r = append(r, s.num(st, fl.load(st, fl.indexAddr(t, fl.tt.konst(i), elem))))
		}
		return r
	}
	cl.Call = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
		v, _ := in.(ssa.Value)
		switch q := qname(callee); q {
		case "github.com/arl/math32.Ceil", "math.Ceil":
			return []Outcome{{st, []*Term{fl.tt.mk("round", v.Type(), 0, "up", nil, nil, args[0])}}}, true
		case "github.com/arl/math32.Floor", "math.Floor", "math.Trunc":
			return []Outcome{{st, []*Term{fl.tt.mk("round", v.Type(), 0, "down", nil, nil, args[0])}}}, true
		}
		if callee == nil || !fl.inModule(callee) {
			return nil, false
		}
		if recv := callee.Signature.Recv(); recv != nil && len(args) == 1 && v != nil && relPkg(funcPkg(callee)) == "recast" &&
			callee.Signature.Results().Len() == 1 && (isNamed(deref(recv.Type()), "recast", "InputGeom") || isNamed(deref(recv.Type()), "recast", "MeshLoaderOBJ")) {
			t := fl.tt.mk("acc", v.Type(), 0, callee.Name(), nil, nil, args[0])
			if _, ok := v.Type().Underlying().(*types.Basic); ok {
				st.facts.assumeLe(fl.tt.konst(0), t, 0)
			}
			return []Outcome{{st, []*Term{t}}}, true
		}
		name := callee.Name()
		switch {
		case relPkg(funcPkg(callee)) == "recast" && stageArgs[name] != nil && callee.Signature.Recv() == nil:
			s.stage(st, in, name, args, pickSpec, before, objName, vec)
		case relPkg(funcPkg(callee)) == "detour" && name == "CreateNavMeshData":
			before(fl, st, in, name)
			s.params(st, in, args[0], vec)
		case callee == c.fn("detour", "NavMesh.TileRefAt"):
			for k, n := range []string{"TileX", "TileY"} {
				got := s.num(st, args[1+k])
				if w := st.gt["tile:"+n]; w != nil {
					c.Distinct("places of tiles", fname(f)+n)
					if e := s.num(st, w); !e.eq(got) {
						fl.Report("place:"+fname(f)+":"+n, fl.instrPos(in), "%s looks up the tile at %s = %s, and not at %s, where the new one is; %s", fname(f), n, got, e, fl.Path(st))
					}
				} else if !s.creates && position(f) != nil {
					c.Distinct("places of tiles", fname(f)+n)
					s.want(st, in, n+" of the tile at a position", posTile(k), got)
				}
			}
		case callee == c.fn("detour", "NavMesh.RemoveTile"):
			st.gs["free"] = "1"
		case callee == c.fn("detour", "NavMesh.AddTile"):
			if st.gs["free"] == "" {
				fl.Report("occupied:"+fname(f), fl.instrPos(in), "%s adds a tile without removing the one that may be there; %s", fname(f), fl.Path(st))
			}
		case relPkg(funcPkg(callee)) == "detour" && name == "Init" && callee.Signature.Recv() != nil && isNamed(deref(callee.Signature.Recv().Type()), "detour", "NavMesh"):
			st.gs["free"] = "1"
			ps := deref(callee.Params[1].Type()).Underlying().(*types.Struct)
			for i := 0; i < ps.NumFields(); i++ {
				n := ps.Field(i).Name()
				a := fl.fieldAddr(args[1], i)
				switch n {
				case "Orig":
					for k, g := range vec(fl, st, a) {
						s.want(st, in, fmt.Sprintf("the origin %d of the navigation mesh", k), fmt.Sprint("min", k), g)
					}
					c.Distinct("sizes of the navigation mesh", fname(f)+n)
				case "TileWidth", "TileHeight":
					s.want(st, in, n+" of the navigation mesh", "TileSize*CellSize", s.num(st, fl.load(st, a)))
					c.Distinct("sizes of the navigation mesh", fname(f)+n)
				}
			}
		}
		return nil, false
	}
	starts := c.relevant(func(g *ssa.Function) bool { return g == c.fn("recast", "NewHeightfield") })
	buildLoop := map[*ssa.BasicBlock]bool{}
	cl.Back = func(fl *Flow, st *State, header *ssa.BasicBlock) {
		in, ok := buildLoop[header]
		if !ok {
			for _, b := range header.Parent().Blocks {
				for _, i := range b.Instrs {
					if call, ok := i.(ssa.CallInstruction); ok && starts[call.Common().StaticCallee()] && header.Dominates(b) && reaches(b, header) {
						in = true
					}
				}
			}
			buildLoop[header] = in
		}
		if in { // the next iteration is a new build
			delete(st.gs, "sampling")
			s.forget(st)
		}
	}
	cl.After = func(fl *Flow, st *State, in ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term) {
		if callee == nil || res == nil || relPkg(funcPkg(callee)) != "recast" || stageArgs[callee.Name()] == nil {
			return
		}
		rs := []*Term{res}
		if res.op == "tuple" {
			rs = res.a
		}
		for i, r := range rs {
			if n := objName(callee.Signature.Results().At(i).Type()); n != "" {
				st.gt["obj:"+n] = r
				if n == "PolyMesh" {
					st.gt["polys"] = fl.tt.konst(0)
				}
			}
		}
	}
	cl.Cond = func(fl *Flow, st *State, cond *Term, val bool) {
		for cond.op == "notb" {
			cond, val = cond.a[0], !val
		}
		if cond.op == "fcmp" && len(cond.a) == 2 {
			a, b := s.num(st, cond.a[0]), s.num(st, cond.a[1])
			if cond.aux == "<" && a.eq(s.spec("DetailSampleDist")) && nearly(b, 0.9) {
				st.gs["sampling"] = map[bool]string{true: "off", false: "on"}[val]
			}
			if cond.aux == "<=" && b.eq(s.spec("DetailSampleDist")) && nearly(a, 0.9) {
				st.gs["sampling"] = map[bool]string{true: "on", false: "off"}[val]
			}
		}
	}
	flagNames := c.flagNames()
	cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		for a := addr; a.op == "fa"; a = a.a[0] {
			if strings.HasPrefix(a.aux, "recast.BuildSettings.") && !isObj(root(a)) {
				fl.Report("settings:"+fname(f)+":"+a.aux, fl.instrPos(in), "%s changes the setting %s; %s", fname(f), a.aux, fl.Path(st))
			}
		}
		if b, ok := contentType(addr).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && addr.op == "ia" && st.gt["obj:CompactHeightfield"] == nil {
			if !val.isConst() || val.n != 0 {
				st.gt["cleared:"] = fl.tt.konst(0)
			} else if n := st.gt["cleared:"]; n != nil && fl.eq(st, addr.a[1], n) {
				st.gt["cleared:"] = fl.tt.fromLin(linOf(addr.a[1]).add(linForm{1, nil}, 1), types.Typ[types.Int])
			}
		}
		if addr.op != "ia" || st.gt["obj:PolyMesh"] == nil || s.path(st, addr.a[0]) != "pmeshFlags" {
			return
		}
		areas := fl.fieldPath(st.gt["obj:PolyMesh"], "Areas")
		area := fl.load(st, fl.indexAddr(fl.load(st, areas), addr.a[1], types.Typ[types.Uint8]))
		lo, hi := st.facts.Range(area)
		if !val.isConst() || lo != hi {
			fl.Report("flags:"+fname(f), fl.instrPos(in), "%s gives a polygon the flags %s without its area being known; %s", fname(f), val, fl.Path(st))
			return
		}
		want, ok := flagNames[lo]
		if !ok || want != val.n {
			fl.Report(fmt.Sprintf("flags:%s:%d", fname(f), lo), fl.instrPos(in), "%s gives a polygon with the area %d the flags %d, and not %d; %s", fname(f), lo, val.n, want, fl.Path(st))
			return
		}
		s.areas[fmt.Sprint(lo)] = true
		c.Distinct("areas given flags", fmt.Sprint(lo))
	}
	if tilePos(f) {
		cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			for k, n := range []string{"TileX", "TileY"} {
				c.Distinct("places of tiles", fname(f)+n)
				s.want(st, in, n+" of the tile at a position", posTile(k), s.num(st, res[k]))
			}
		}
	}
	fl := newFlow(c.Prog, cl)
	s.fl = fl
	fl.K = 10
	fl.Run(f, func(st *State, params []*Term) {
		s.separate(st, params[0], f.Params[0].Type())
	})
	for a := range flagNames {
		if !s.creates {
			break
		}
		if !s.areas[fmt.Sprint(a)] {
			fl.Report(fmt.Sprintf("noflags:%s:%d", fname(f), a), c.pos(f.Pos()), "%s gives no flags to the polygons with the area %d", fname(f), a)
		}
	}
	fl.Finish(c, fname(f))
	if verbose {
		fmt.Println(fname(f), "tile", s.tile, "steps", fl.steps)
	}
}

// stage checks one call of a stage.
func (s *settingsRun) stage(st *State, in ssa.CallInstruction, name string, args []*Term, pick func(argSpec) string,
	before func(*Flow, *State, ssa.Instruction, string), objName func(types.Type) string, vec func(*Flow, *State, *Term) []lpoly) {
	c, fl, f := s.c, s.fl, s.f
	callee := in.Common().StaticCallee()
	if name == "NewHeightfield" { // a new build
		s.forget(st)
	}
	before(fl, st, in, name)
	// the objects of the earlier stages
	for i, p := range callee.Params {
		n := objName(p.Type())
		if n == "" {
			continue
		}
		if g := st.gt["obj:"+n]; g == nil {
			st.gt["obj:"+n] = args[i]
		} else if g != args[i] {
			fl.Report("object:"+fname(f)+":"+name, fl.instrPos(in), "%s runs %s on the %s %s, and not on that of the earlier stages, %s; %s", fname(f), name, n, args[i], g, fl.Path(st))
		}
	}
	for _, a := range stageArgs[name] {
		spec := pick(a)
		if spec == "" || name == "MarkConvexPolyArea" {
			continue
		}
		c.Distinct("stage arguments", fmt.Sprintf("%s:%s:%d", fname(f), name, a.arg))
		s.want(st, in, fmt.Sprintf("argument %d of %s", a.arg, name), spec, s.value(st, args[a.arg]))
	}
	same := func(what string, i, j int) {
		if g := st.gt["mark:"+what]; g != args[i] {
			fl.Report("triangles:"+fname(f)+":"+what, fl.instrPos(in), "%s rasterizes other %s than it has marked: %s; %s", fname(f), what, args[i], fl.Path(st))
		}
	}
	switch name {
	case "NewHeightfield":
		for k, b := range vec(fl, st, args[2]) {
			s.keepBound(st, in, fmt.Sprint("min", k), b)
		}
		for k, b := range vec(fl, st, args[3]) {
			s.keepBound(st, in, fmt.Sprint("max", k), b)
		}
	case "MarkWalkableTriangles":
		if o := root(args[6]); !isObj(o) || st.dirty[o] {
			if n := st.gt["cleared:"]; n == nil || !st.facts.le(fl.tt.lenOf(args[6]), n, 0) {
				fl.Report("areas:"+fname(f), fl.instrPos(in), "%s marks triangles in areas that may hold those of others; %s", fname(f), fl.Path(st))
			}
		}
		st.gt["cleared:"] = fl.tt.konst(0)
		st.gt["mark:triangles"], st.gt["mark:number of triangles"], st.gt["mark:areas"] = args[4], args[5], args[6]
		if s.tile {
			c.Distinct("stage arguments", fmt.Sprintf("%s:%s:%s", fname(f), name, "chunk"))
			tris, n := s.path(st, args[4]), s.num(st, args[5]).String()
			node := strings.TrimSuffix(n, ".N")
			if !strings.HasPrefix(n, "geomChunkyMesh.Nodes[") || node == n || tris != "geomChunkyMesh.Tris[3*"+node+".I:]" {
				fl.Report("chunk:"+fname(f), fl.instrPos(in), "%s marks %s triangles of %s, which are not those of a chunk; %s", fname(f), n, tris, fl.Path(st))
			}
		}
	case "RasterizeTriangles":
		same("triangles", 3, 4)
		same("areas", 4, 6)
		same("number of triangles", 5, 5)
	case "MarkConvexPolyArea":
		next := st.gt["volumes"]
		vol := ""
		for _, a := range stageArgs[name] {
			c.Distinct("stage arguments", fmt.Sprintf("%s:%s:%d", fname(f), name, a.arg))
			got := s.value(st, args[a.arg]).String()
			field := strings.TrimPrefix(a.solo, "volume")
			if vol == "" {
				vol = strings.TrimSuffix(got, "."+field)
			}
			if got != vol+"."+field || !strings.HasPrefix(vol, "geomConvexVolumes[") {
				fl.Report("value:"+fname(f)+":volume:"+field, fl.instrPos(in), "%s: argument %d of %s is %s, and not the %s of the volume %s; %s", fname(f), a.arg, name, got, field, vol, fl.Path(st))
			}
		}
		idx := volumeIndex(args[1])
		if next == nil || idx == nil || !fl.eq(st, idx, next) {
			fl.Report("volumes:"+fname(f), fl.instrPos(in), "%s marks the volume %s, which is not the next one; %s", fname(f), vol, fl.Path(st))
			return
		}
		st.gt["volumes"] = fl.tt.fromLin(linOf(idx).add(linForm{1, nil}, 1), types.Typ[types.Int])
	case "BuildRegionsMonotone":
		c.Distinct("stage arguments", fmt.Sprintf("%s:volumes", fname(f)))
		count := fl.tt.mk("acc", types.Typ[types.Int32], 0, "ConvexVolumesCount", nil, nil, st.gt["geom"])
		if !st.facts.le(count, st.gt["volumes"], 0) {
			fl.Report("volumes:"+fname(f), fl.instrPos(in), "%s may build regions without having marked every convex volume: %s of them are; %s", fname(f), st.gt["volumes"], fl.Path(st))
		}
	case "BuildPolyMeshDetail":
		c.Distinct("stage arguments", fmt.Sprintf("%s:%s:3", fname(f), name))
		got := s.num(st, args[3])
		if st.gs["sampling"] == "off" {
			s.want(st, in, "argument 3 of "+name+" with a sampling distance below 0.9", "0", got)
		} else {
			s.want(st, in, "argument 3 of "+name, "CellSize*DetailSampleDist", got)
			if st.gs["sampling"] == "" {
				fl.Report("sampling:"+fname(f), fl.instrPos(in), "%s samples details without having compared the distance with 0.9; %s", fname(f), fl.Path(st))
			}
		}
	}
}

// forget what is known of the build before.
func (s *settingsRun) forget(st *State) {
	for k := range st.gs {
		if k != "sampling" && k != "free" {
			delete(st.gs, k)
		}
	}
	for k := range st.gt {
		if k != "geom" {
			delete(st.gt, k)
		}
	}
	st.gt["volumes"], st.gt["cleared:"] = s.fl.tt.konst(0), s.fl.tt.konst(0)
}

// keepBound: the bounds of the heightfield; those of a tile are compared when its coordinates are known.
func (s *settingsRun) keepBound(st *State, in ssa.Instruction, name string, got lpoly) {
	if !s.tile {
		s.want(st, in, "the bound "+name+" of the heightfield", name, got)
		return
	}
	s.mu.Lock()
	k := got.String()
	s.bounds[k] = got
	s.mu.Unlock()
	st.gs["bound:"+name] = k
}

// params checks the parameters of the tile data.
func (s *settingsRun) params(st *State, in ssa.Instruction, p *Term, vec func(*Flow, *State, *Term) []lpoly) {
	c, fl, f := s.c, s.fl, s.f
	ps := contentType(p).Underlying().(*types.Struct)
	for i := 0; i < ps.NumFields(); i++ {
		n := ps.Field(i).Name()
		a := fl.fieldAddr(p, i)
		count := func() { c.Distinct("tile parameters", fname(f)+n) }
		switch n {
		case "BMin", "BMax":
			count()
			for k, g := range vec(fl, st, a) {
				if w := latom(fmt.Sprintf("pmesh%s[%d]", n, k)); !g.eq(w) {
					fl.Report("value:"+fname(f)+":"+n, fl.instrPos(in), "%s: the element %d of %s is %s, and not %s; %s", fname(f), k, n, g, w, fl.Path(st))
				}
			}
		case "TileX", "TileY", "TileLayer":
			count()
			g := s.num(st, fl.load(st, a))
			if !s.tile || n == "TileLayer" {
				s.want(st, in, n, "0", g)
				continue
			}
			st.gt["tile:"+n] = fl.load(st, a)
			s.tileBounds(st, in, n, g)
			if position(f) != nil {
				s.want(st, in, n, posTile(map[string]int{"TileX": 0, "TileY": 1}[n]), g)
			}
		default:
			spec, ok := tileParams[n]
			if !ok {
				continue
			}
			count()
			s.want(st, in, n, spec, s.value(st, fl.load(st, a)))
		}
	}
	c.Distinct("tile parameters", fname(f)+"#polys")
	if m := st.gt["obj:PolyMesh"]; m != nil {
		n := fl.load(st, fl.fieldPath(m, "NPolys"))
		if next := st.gt["polys"]; next == nil || !st.facts.le(n, next, 0) {
			fl.Report("polys:"+fname(f), fl.instrPos(in), "%s may create tile data without having translated the area of every polygon, but of %s of them; %s", fname(f), next, fl.Path(st))
		}
	}
}

// posTile is the coordinate of the tile at a position.
func posTile(k int) string {
	return fmt.Sprintf("down((pos%d-min%d)/(TileSize*CellSize))", 2*k, 2*k)
}

// tileBounds: the bounds of the heightfield are those of the tile with the coordinate g, with the border.
func (s *settingsRun) tileBounds(st *State, in ssa.Instruction, n string, g lpoly) {
	k := map[string]string{"TileX": "0", "TileY": "2"}[n]
	s.mu.Lock()
	def := map[string]lpoly{"tile": g}
	for a, b := range s.def {
		def[a] = b
	}
	lo, hi := s.bounds[st.gs["bound:min"+k]], s.bounds[st.gs["bound:max"+k]]
	ylo, yhi := s.bounds[st.gs["bound:min1"]], s.bounds[st.gs["bound:max1"]]
	s.mu.Unlock()
	cmp := func(what string, got lpoly, spec string) {
		if w := lspec(spec, def); !got.eq(w) {
			s.fl.Report("bounds:"+fname(s.f)+":"+what, s.fl.instrPos(in), "%s: the %s of the heightfield of the tile is %s, and not %s; %s", fname(s.f), what, got, w, s.fl.Path(st))
		}
	}
	border := specBorder + "*CellSize"
	cmp("lower bound "+k, lo, "min"+k+"+tile*TileSize*CellSize-"+border)
	cmp("upper bound "+k, hi, "min"+k+"+(tile+1)*TileSize*CellSize+"+border)
	cmp("lower bound 1", ylo, "min1")
	cmp("upper bound 1", yhi, "max1")
}

// volumeIndex is the index of the convex volume memory belongs to.
func volumeIndex(t *Term) *Term {
	for t != nil {
		switch t.op {
		case "ia":
			if strings.HasSuffix(typeStr(t.typ), "recast.ConvexVolume") {
				return t.a[1]
			}
			t = t.a[0]
		case "fa", "slice", "load":
			t = t.a[0]
		default:
			return nil
		}
	}
	return nil
}

// separate makes the vectors and slices of the builder memory of its own.
func (s *settingsRun) separate(st *State, b *Term, t types.Type) {
	fl := s.fl
	str, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	st.gt["volumes"], st.gt["cleared:"] = fl.tt.konst(0), fl.tt.konst(0)
	for i := 0; i < str.NumFields(); i++ {
		a := fl.fieldAddr(b, i)
		if isNamed(str.Field(i).Type(), "recast", "InputGeom") {
			st.gt["geom"] = a
		}
		if sl, ok := str.Field(i).Type().Underlying().(*types.Slice); ok && isFloatType(sl.Elem().Underlying()) {
			o := fl.tt.mk("make", str.Field(i).Type(), 0, "@builder."+str.Field(i).Name(), nil, nil, fl.tt.konst(3))
			fl.newObj(st, o)
			st.dirty[o] = true
			st.mem[a] = o
		}
	}
}

func nearly(p lpoly, x float64) bool {
	if len(p) != 1 || p[""] == nil {
		return false
	}
	f, _ := p[""].Float64()
	return f-x < 1e-6 && x-f < 1e-6
}

// builderConstants are the fields of the structures of sample that are only ever set to one constant other than 0.
func (c *Ctx) builderConstants() map[string]int64 {
	vals := map[string]map[string]bool{}
	n := map[string]int64{}
	for _, f := range c.srcFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t, ok := deref(fa.X.Type()).(*types.Named)
				if !ok || t.Obj().Pkg() == nil || !strings.HasPrefix(relPkg(t.Obj().Pkg()), "sample") {
					continue
				}
				fld := t.Underlying().(*types.Struct).Field(fa.Field)
				if !isIntType(fld.Type()) {
					continue
				}
				key := typeStr(t) + "." + fld.Name()
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						v := "?"
						if k, ok := r.Val.(*ssa.Const); ok && r.Addr == fa && k.Value != nil {
							v = k.Value.ExactString()
							n[key], _ = constant.Int64Val(k.Value)
						}
						if vals[key] == nil {
							vals[key] = map[string]bool{}
						}
						vals[key][v] = true
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						vals[key] = map[string]bool{"?": true, "??": true}
					}
				}
			}
		}
	}
	r := map[string]int64{}
	for k, v := range vals {
		if len(v) == 1 && !v["?"] && n[k] != 0 {
			r[k] = n[k]
		}
	}
	return r
}

// flagNames: the flags of a polygon by its area.
func (c *Ctx) flagNames() map[int64]int64 {
	k := func(n string) int64 {
		o, ok := c.ssaPkgs["sample"].Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			c.Undecided("constant:"+n, c.pos(0), "there is no constant sample.%s", n)
			return -1
		}
		v, _ := constant.Int64Val(constant.ToInt(o.Val()))
		return v
	}
	walk, swim, door := k("PolyFlagsWalk"), k("PolyFlagsSwim"), k("PolyFlagsDoor")
	return map[int64]int64{k("PolyAreaGround"): walk, k("PolyAreaGrass"): walk, k("PolyAreaRoad"): walk, k("PolyAreaWater"): swim, k("PolyAreaDoor"): walk | door}
}

// reaches: control may flow from one block to the other.
func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, n := range b.Succs {
			if n == to {
				return true
			}
			if !seen[n] {
				seen[n] = true
				work = append(work, n)
			}
		}
	}
	return false
}
