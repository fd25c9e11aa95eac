package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const effectsAssum = "The pointer analysis does not tell array elements apart, and follows every call of the root function in its own copy of the callee; functions of the standard library write only what they document to write."

func init() {
	register(&Check{ID: "C01", Run: runC01,
		Rule:  "In every query, lookup and save operation, no instruction reachable from it may write to memory that existed before the call and is reached through a navigation mesh, tile, polygon or filter.",
		Floor: []Floor{{"operations", 25}, {"function instances", 800}, {"writes examined", 60}},
		Assum: []string{effectsAssum, "Memory reached through different parameters, or through different fields, of the root function does not overlap before the call."}})
	register(&Check{ID: "C02", Run: runC02,
		Rule:  "In every exported function of the two libraries, no instruction reachable from it may write to memory that existed before the call and is reached from a parameter not documented as output.",
		Floor: []Floor{{"functions", 90}, {"input parameters", 80}, {"function instances", 1500}},
		Assum: []string{effectsAssum, "Memory reached through different parameters of the root function does not overlap before the call."}})
	register(&Check{ID: "C03", Run: runC03,
		Rule:  "No instruction reachable from a function of the libraries, other than package initialization, may write to a package-level variable or to memory reached from one.",
		Floor: []Floor{{"functions", 250}, {"function instances", 4000}},
		Assum: []string{effectsAssum}})
	register(&Check{ID: "C05", Run: runC05,
		Rule:  "After the call, no memory of the query object or navigation mesh may refer to a position or tile data passed by the caller, and no result may refer to vertices or positions inside of the navigation mesh or query object.",
		Floor: []Floor{{"operations", 15}, {"memory cells examined", 100}},
		Assum: []string{effectsAssum}})
	register(&Check{ID: "C04", Run: runC04,
		Rule:  "No function of the libraries, or of the vector package they use, ranges over a map, communicates through channels, starts goroutines, calls random, environment or runtime functions; clock values only reach the timers, the log and fields of a time type; addresses are only subtracted from or compared with one another.",
		Floor: []Floor{{"functions", 250}, {"instructions", 15000}, {"clock values", 3}, {"addresses as integers", 4}}})
}

// runEffects analyses the roots in parallel.
func runEffects(c *Ctx, roots []*ssa.Function, f func(e *effects)) {
	c.Parallel(len(roots), func(i int) {
		e := newEffects(c, roots[i])
		c.Count("function instances", len(e.insts))
		for what, pos := range e.unknown {
			c.Undecided("effects:"+fname(roots[i])+":"+what, c.pos(pos), "%s: %s", fname(roots[i]), what)
		}
		f(e)
	})
}

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	if n := named(deref(f.Signature.Recv().Type())); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// meshMutators are the operations that are meant to change a navigation mesh.
var meshMutators = map[string]bool{"Init": true, "InitForSingleTile": true, "AddTile": true, "RemoveTile": true}

func queryRoots(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.exportedFuncs("detour") {
		switch recvName(f) {
		case "NavMeshQuery":
			out = append(out, f)
		case "NavMesh":
			if !meshMutators[f.Name()] {
				out = append(out, f)
			}
		case "StandardQueryFilter":
			if !strings.HasPrefix(f.Name(), "Set") {
				out = append(out, f)
			}
		case "":
			if f.Name() == "NewNavMeshQuery" {
				out = append(out, f)
			}
		}
	}
	return out
}

func runC01(c *Ctx) {
	shared := map[string]bool{"NavMesh": true, "MeshTile": true, "Poly": true, "Link": true, "PolyDetail": true, "BvNode": true,
		"OffMeshConnection": true, "MeshHeader": true, "NavMeshParams": true, "StandardQueryFilter": true, "QueryFilter": true}
	for n := range shared {
		c.typ("detour", n)
	}
	roots := queryRoots(c)
	c.Count("operations", len(roots))
	runEffects(c, roots, func(e *effects) {
		ws := e.sorted()
		c.Count("writes examined", len(ws))
		for _, w := range ws {
			if w.loc.o.under(shared) {
				c.Violate(fmt.Sprintf("write:%s:%s", fname(e.root), w.loc), e.at(w),
					"%s writes to %s, which is memory of the navigation mesh or of the filter (%s)\n    call path: %s",
					fname(e.root), w.loc, w.what, e.via(w.in))
			}
		}
		c.Sample("%s: %d instances, %d writes to memory that outlives the call, none of it shared", fname(e.root), len(e.insts), len(ws))
	})
}

// outputs lists the parameters (receiver included) that are documented as
// output of the exported functions, by index. Receivers and build contexts may
// be written to as well.
var outputs = map[string][]int{
	"(*detour.NavMesh).DecodePolyID":                       {2, 3, 4},
	"(*detour.NavMesh).FindNearestPolyInTile":              {4},
	"(*detour.NavMesh).TileAndPolyByRef":                   {2, 3},
	"(*detour.NavMesh).TileAndPolyByRefUnsafe":             {2, 3},
	"(*detour.NavMesh).TilesAt":                            {3},
	"(*detour.NavMeshQuery).ClosestPointOnPoly":            {3, 4},
	"(*detour.NavMeshQuery).ClosestPointOnPolyBoundary":    {3},
	"(*detour.NavMeshQuery).FinalizeSlicedFindPath":        {1},
	"(*detour.NavMeshQuery).FinalizeSlicedFindPathPartial": {3},
	"(*detour.NavMeshQuery).FindPath":                      {6},
	"(*detour.NavMeshQuery).FindStraightPath":              {4, 5, 6},
	"(*detour.NavMeshQuery).Raycast":                       {6},
	"(*detour.NavMeshQuery).Raycast2":                      {5, 6},
	"(*detour.NavMeshQuery).UpdateSlicedFindPath":          {2},
	"(*detour.NodePool).FindNodes":                         {2},
	"(*detour.navMeshTileHeader).Serialize":                {1},
	"(*recast.ChunkyTriMesh).ChunksOverlappingRect":        {3},
	"recast.BuildCompactHeightfield":                       {4},
	"recast.BuildContours":                                 {4},
	"recast.BuildRegionsMonotone":                          {1},
	"recast.CalcBounds":                                    {2, 3},
	"recast.ClearUnwalkableTriangles":                      {6},
	"recast.ErodeWalkableArea":                             {2},
	"recast.FilterLedgeSpans":                              {3},
	"recast.FilterLowHangingWalkableObstacles":             {2},
	"recast.FilterWalkableLowHeightSpans":                  {2},
	"recast.MarkConvexPolyArea":                            {6},
	"recast.MarkWalkableTriangles":                         {6},
	"recast.RasterizeTriangle":                             {5},
	"recast.RasterizeTriangles":                            {6},
	"recast.RasterizeTriangles2":                           {4},
	"recast.SetCon":                                        {0},
	"recast.BuildRegions":                                  {1},
}

func rootParam(e *effects, l aloc) int {
	for i, p := range e.params {
		if p == l.o {
			return i
		}
		for o := l.o; o != nil; o = o.parent {
			if o == p {
				return i
			}
		}
	}
	return -1
}

func runC02(c *Ctx) {
	c.typ("recast", "BuildContext")
	roots := c.exportedFuncs("detour", "recast")
	c.Count("functions", len(roots))
	listed := map[string]bool{}
	for _, f := range roots {
		listed[fname(f)] = true
	}
	for n := range outputs {
		if !listed[n] {
			c.Sample("%s is not there any more", n)
		}
	}
	runEffects(c, roots, func(e *effects) {
		name := fname(e.root)
		method := e.root.Signature.Recv() != nil
		out := map[int]bool{}
		for _, i := range outputs[name] {
			out[i] = true
		}
		var in []string
		for i, p := range e.root.Params {
			if method && i == 0 || isNamed(deref(p.Type()), "recast", "BuildContext") {
				out[i] = true
			}
			if len(e.leaves(p.Type())) > 0 && !out[i] {
				in = append(in, p.Name())
			}
		}
		c.Count("input parameters", len(in))
		for _, w := range e.sorted() {
			i := rootParam(e, w.loc)
			if debugLoops && i >= 0 && !out[i] {
				fmt.Println("OUT", name, i)
			}
			if i >= 0 && !out[i] {
				c.Violate(fmt.Sprintf("write:%s:%d", name, i), e.at(w),
					"%s writes to %s, reached from its parameter %s, which is input (%s)\n    call path: %s",
					name, w.loc, e.root.Params[i].Name(), w.what, e.via(w.in))
			}
		}
		if len(in) > 0 {
			c.Sample("%s: %d instances; only reads %s", name, len(e.insts), strings.Join(in, ", "))
		}
	})
}

// rootedGlobal tells whether l is a package-level variable, or memory reached from one.
func rootedGlobal(l aloc) bool {
	for o := l.o; o != nil; o = o.parent {
		if o.kind == "global" {
			return true
		}
	}
	return false
}

func runC03(c *Ctx) {
	var roots []*ssa.Function
	for _, f := range c.libFuncs() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil {
			continue
		}
		roots = append(roots, f)
	}
	c.Count("functions", len(roots))
	runEffects(c, roots, func(e *effects) {
		for _, w := range e.sorted() {
			if rootedGlobal(w.loc) {
				c.Violate(fmt.Sprintf("global:%s:%s", fname(w.in.f), w.loc), e.at(w),
					"%s writes to the package-level state %s (%s)\n    call path: %s", fname(w.in.f), w.loc, w.what, e.via(w.in))
			}
		}
	})
}

func isPositions(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

// plainData tells whether t is a structure without references.
func plainData(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() == 0 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		for {
			a, ok := ft.Underlying().(*types.Array)
			if !ok {
				break
			}
			ft = a.Elem()
		}
		if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
			continue
		}
		if !plainData(ft) {
			return false
		}
	}
	return true
}

func runC05(c *Ctx) {
	var roots []*ssa.Function
	for _, f := range c.exportedFuncs("detour") {
		if r := recvName(f); r == "NavMeshQuery" || r == "NavMesh" {
			roots = append(roots, f)
		}
	}
	roots = append(roots, c.fn("detour", "Decode"), c.fn("detour", "CreateNavMeshData"))
	c.Count("operations", len(roots))
	runEffects(c, roots, func(e *effects) {
		name := fname(e.root)
		// memory that existed before the call, and of which type it is
		data := func(t types.Type) bool {
			if isPositions(t) {
				return true
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				b, ok := s.Elem().Underlying().(*types.Basic)
				return ok && b.Kind() == types.Uint8
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			return plainData(t)
		}
		check := func(what, key string, owner string, target aloc) {
			if strings.HasPrefix(what, "result") && (target.o.typ == nil || !isPositions(target.o.typ)) {
				return // for instance the data of a removed tile
			}
			if target.o.kind != "ext" || target.o.typ == nil || !data(target.o.typ) || target.o.root == owner {
				return
			}
			c.Violate(fmt.Sprintf("alias:%s:%s:%s", name, key, target), c.pos(e.root.Pos()),
				"after %s, %s refers to the memory of %s instead of a copy", name, what, target)
		}
		n := 0
		for l, s := range e.content {
			if l.o.kind != "ext" {
				continue
			}
			for t := range s {
				n++
				check(l.String(), l.String(), l.o.root, t)
			}
		}
		// results, and memory allocated by the call that they refer to
		seen := map[aloc]bool{}
		var visit func(owner string, l aloc, what string)
		visit = func(owner string, l aloc, what string) {
			if seen[l] {
				return
			}
			seen[l] = true
			n++
			check(what, what, owner, l)
			if l.o.kind == "alloc" || l.o.kind == "box" {
				for c2, s := range e.content {
					if c2.o == l.o {
						for t := range s {
							visit(owner, t, what)
						}
					}
				}
			}
		}
		for i, r := range e.top.ret {
			for _, s := range r {
				for t := range s {
					visit("", t, fmt.Sprintf("result %d", i))
				}
			}
		}
		seen = map[aloc]bool{}
		for l, s := range e.content {
			if l.o.kind == "ext" {
				for t := range s {
					if t.o.kind == "alloc" {
						visit(l.o.root, t, "memory reached from "+l.String())
					}
				}
			}
		}
		c.Count("memory cells examined", n)
	})
}

// ---------------------------------------------------------------- C04

// nondeterministic tells why a call of f makes results depend on something else than the inputs.
func nondeterministic(f *ssa.Function) string {
	pk := funcPkg(f)
	if pk == nil {
		return ""
	}
	n := f.Name()
	switch pk.Path() {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "random numbers"
	case "runtime", "runtime/debug":
		return "the state of the runtime"
	case "os":
		switch n {
		case "Getenv", "LookupEnv", "Environ", "Hostname", "Getpid", "Getppid", "Getwd", "Getuid", "Executable", "TempDir", "ExpandEnv", "UserHomeDir":
			return "the environment"
		}
	case "maps":
		switch n {
		case "Keys", "Values", "All":
			return "the iteration order of a map"
		}
	case "reflect":
		if n == "MapRange" || n == "MapKeys" || n == "Pointer" || n == "UnsafePointer" {
			return "addresses or the iteration order of a map"
		}
	case "sync":
		if n == "Range" {
			return "the iteration order of a map"
		}
	}
	return ""
}

func isTimeType(t types.Type) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Array:
			t = u.Elem()
			continue
		case *types.Named:
			return u.Obj().Pkg() != nil && u.Obj().Pkg().Path() == "time"
		}
		return false
	}
}

func runC04(c *Ctx) {
	var fs []*ssa.Function
	fs = append(fs, c.libFuncs()...)
	// the vector and math packages the libraries call
	seen := map[*ssa.Function]bool{}
	for _, f := range fs {
		seen[f] = true
	}
	for i := 0; i < len(fs); i++ {
		for _, b := range fs[i].Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && !seen[g] && g.Blocks != nil {
						if pk := funcPkg(g); pk != nil && strings.HasPrefix(pk.Path(), "github.com/arl/") {
							seen[g] = true
							fs = append(fs, g)
						}
					}
				}
			}
		}
	}
	c.Count("functions", len(fs))
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c.Count("instructions", 1)
				bad := ""
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						bad = "the iteration order of a map"
					}
				case *ssa.Select, *ssa.Send, *ssa.Go:
					bad = "goroutine scheduling"
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						bad = "goroutine scheduling"
					}
				case *ssa.Convert:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
						if s, ok := x.X.Type().Underlying().(*types.Basic); ok && s.Kind() == types.UnsafePointer {
							c.Count("addresses as integers", 1)
							bad = addressUse(x)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if why := nondeterministic(g); why != "" {
							bad = why + " (" + g.String() + ")"
						}
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && (g.Pkg.Pkg.Path() == "crypto/rand" || g.Object() != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Args") {
						bad = "the environment or random numbers (" + g.String() + ")"
					}
				}
				if bad != "" {
					c.Violate("nondet:"+fname(f)+":"+strings.Fields(bad)[0]+"-"+strings.Fields(bad)[1], c.instrPos(in), "%s depends on %s", fname(f), bad)
				}
			}
		}
	}
	clockTaint(c, fs)
}

// addressUse checks that an address converted to an integer is only subtracted
// from, or compared for equality with, another one.
func addressUse(x *ssa.Convert) string {
	isAddr := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return false
		}
		b, ok := c.X.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	}
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if (u.Op == token.SUB || u.Op == token.EQL || u.Op == token.NEQ) && isAddr(u.X) && isAddr(u.Y) {
				continue
			}
			return "memory addresses (" + u.Op.String() + ")"
		default:
			return "memory addresses"
		}
	}
	return ""
}

// clockTaint follows clock values through the functions.
func clockTaint(c *Ctx, fs []*ssa.Function) {
	tainted := map[ssa.Value]bool{}
	retTaint := map[*ssa.Function]bool{}
	fieldTaint := map[string]bool{}
	inSet := map[*ssa.Function]bool{}
	for _, f := range fs {
		inSet[f] = true
	}
	changed := true
	mark := func(v ssa.Value) {
		if v != nil && !tainted[v] {
			tainted[v] = true
			changed = true
		}
	}
	isClock := func(g *ssa.Function) bool {
		pk := funcPkg(g)
		if pk == nil || pk.Path() != "time" || g.Signature.Recv() != nil {
			return false
		}
		switch g.Name() {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc":
			return true
		}
		return false
	}
	report := func(f *ssa.Function, in ssa.Instruction, what string) {
		c.Violate("clock:"+fname(f)+":"+strings.Fields(what)[0], c.instrPos(in), "%s: a value read from the clock %s", fname(f), what)
	}
	// functions whose only effects are on the build context may decide on times
	quiet := map[*ssa.Function]bool{}
	observer := func(f *ssa.Function) bool {
		q, ok := quiet[f]
		if ok {
			return q
		}
		q = true
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if !isTimeType(f.Signature.Results().At(i).Type()) {
				q = false
			}
		}
		if q {
			e := newEffects(c, f)
			for _, w := range e.writes {
				if !w.loc.o.under(map[string]bool{"BuildContext": true}) {
					q = false
				}
			}
		}
		quiet[f] = q
		return q
	}
	final := false
	pass := func() {
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					any := false
					for _, op := range in.Operands(nil) {
						if op != nil && *op != nil && tainted[*op] {
							any = true
						}
					}
					switch x := in.(type) {
					case ssa.CallInstruction:
						g := x.Common().StaticCallee()
						if g != nil && isClock(g) {
							mark(x.Value())
							continue
						}
						if g != nil && retTaint[g] {
							mark(x.Value())
						}
						if !any {
							continue
						}
						if g != nil && inSet[g] {
							for i, a := range x.Common().Args {
								if tainted[a] {
									mark(g.Params[i])
								}
							}
							continue
						}
						if v := x.Value(); v != nil {
							mark(v)
						}
					case *ssa.Store:
						fa, isField := fieldOfAddr(x.Addr)
						if tainted[x.Val] {
							if isField {
								fieldTaint[fa] = true
								if final && !isTimeType(derefPtr(x.Addr.Type())) && !strings.HasPrefix(fa, "BuildContext.") {
									report(f, in, "reaches "+fa)
								}
							} else if al := allocRoot(x.Addr); al != nil {
								mark(al)
							} else if final && !isTimeType(derefPtr(x.Addr.Type())) {
								report(f, in, "reaches memory")
							}
						}
					case *ssa.UnOp:
						if x.Op == token.MUL {
							if fa, ok := fieldOfAddr(x.X); ok && fieldTaint[fa] && fa != "BuildContext.messages" {
								mark(x)
							}
						}
						if any {
							mark(x)
						}
					case *ssa.If:
						if any && final && !observer(f) {
							report(f, in, "decides a branch")
						}
					case *ssa.Return:
						if any {
							if !retTaint[f] {
								retTaint[f] = true
								changed = true
							}
							for i, r := range x.Results {
								if final && tainted[r] && !isTimeType(f.Signature.Results().At(i).Type()) && !inLocalTime(f) {
									report(f, in, "is returned")
								}
							}
						}
					case ssa.Value:
						if any {
							mark(x)
						}
					}
				}
			}
		}
	}
	for changed {
		changed = false
		pass()
	}
	final = true
	pass()
	c.Count("clock values", len(tainted))
}

func inLocalTime(f *ssa.Function) bool { return f.Object() == nil || !f.Object().Exported() }

func derefPtr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldOfAddr names the struct field an address is in.
func fieldOfAddr(v ssa.Value) (string, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			n := named(deref(x.X.Type()))
			name := "struct"
			if n != nil {
				name = n.Obj().Name()
			}
			if allocRoot(x) != nil && n == nil {
				return "", false
			}
			return name + "." + effField(x.X.Type(), x.Field), true
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
		}
		return "", false
	}
}

func allocRoot(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}
