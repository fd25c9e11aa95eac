package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "R06",
		Rule: "typestate of each link, over every path of the functions that take links from the free links of a tile: a link found to exist is stored in the links of that tile with its reference, edge, side and successor set, and its interval on a border side, and has become the first link of a polygon of that tile, followed by the former first one, before the next link is taken and at the return. " +
			"In the functions that give links back: what led to the link in the list of its polygon (the first link, or the successor of the link before) leads to its successor, and this happens exactly when it is given back. " +
			"In AddTile and RemoveTile, for each tile found on one of the eight sides or at the position itself, the links and the off-mesh links are made in both directions, with the side on which the other tile is, or removed from the other tile; the side runs over 0 to 7.",
		Floor: []Floor{{"links taken", 5}, {"links put in a list", 5}, {"links given back", 1}, {"neighbours linked", 2}, {"neighbours unlinked", 2}, {"side loops", 2}},
		Run:   runR06,
	})
}

// linkAllocs: the functions that take a link from the free links of a tile, and those that give one back.
func (c *Ctx) linkAllocs() (alloc, free map[*ssa.Function]bool) {
	alloc, free = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range c.srcFuncs {
		if f.Synthetic != "" || relPkg(funcPkg(f)) != "detour" || exportedEntry(f) {
			continue
		}
		d := c.modDirect(f).direct
		if !d["detour.MeshTile.LinksFreeList"] {
			continue
		}
		other := false
		for cl := range d {
			other = other || cl != "detour.MeshTile.LinksFreeList" && cl != "detour.Link.Next"
		}
		if other {
			continue
		}
		if f.Signature.Results().Len() == 1 && isIntType(f.Signature.Results().At(0).Type()) {
			alloc[f] = true
		} else if f.Signature.Results().Len() == 0 && d["detour.Link.Next"] {
			free[f] = true
		}
	}
	return
}

func writesLinks(c *Ctx) map[*ssa.Function]bool {
	return c.relevant(func(g *ssa.Function) bool {
		for cl := range c.modDirect(g).direct {
			if strings.HasPrefix(cl, "detour.Link.") || cl == "detour.Poly.FirstLink" {
				return true
			}
		}
		return false
	})
}

// linkUsers: the functions that use the results of set, going up through those that pass them on.
func linkUsers(c *Ctx, set map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var up func(g *ssa.Function)
	up = func(g *ssa.Function) {
		for _, f := range staticCallers(c, g) {
			if seen[f] || set[f] {
				continue
			}
			seen[f] = true
			res := f.Signature.Results()
			passes := !exportedEntry(f) && res.Len() > 0
			for k := 0; k < res.Len() && passes; k++ {
				t := res.At(k).Type()
				_, ptr := t.Underlying().(*types.Pointer)
				passes = ptr || isIntType(t) || isBoolType(t)
			}
			for _, p := range f.Params { // a link, or a list, of the caller
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok && (isNamed(pt.Elem(), "detour", "Link") || isIntType(pt.Elem())) {
					passes = true
				}
				if isIntType(p.Type()) && isNamed(p.Type(), "", "uint32") {
					passes = true
				}
			}
			if passes && len(staticCallers(c, f)) > 0 {
				up(f)
				continue
			}
			out = append(out, f)
		}
	}
	for g := range set {
		up(g)
	}
	return out
}

func runR06(c *Ctx) {
	alloc, free := c.linkAllocs()
	null := c.constVal("detour", "nullLink")
	writers := writesLinks(c)
	var jobs []func()
	for _, f := range linkUsers(c, alloc) {
		f := f
		jobs = append(jobs, func() { linksTaken(c, f, alloc, writers, null) })
	}
	for _, f := range linkUsers(c, free) {
		f := f
		jobs = append(jobs, func() { linksFreed(c, f, alloc, free, writers, null) })
	}
	for _, n := range []string{"AddTile", "RemoveTile"} {
		f := c.fn("detour", "NavMesh."+n)
		jobs = append(jobs, func() { linksBetween(c, f, alloc, free) })
	}
	c.Parallel(len(jobs), func(i int) { jobs[i]() })
}

func eqIn(st *State, a, b *Term) bool {
	return a != nil && b != nil && (a == b || st.facts.le(a, b, 0) && st.facts.le(b, a, 0))
}

// ownerOf: the tile whose table (Links, Polys) an element address belongs to.
func ownerOf(addr *Term, table string) *Term {
	if addr.op != "ia" || tableOf(addr.a[0]) != table {
		return nil
	}
	b := addr.a[0]
	for b.op == "slice" {
		b = b.a[0]
	}
	return b.a[0].a[0]
}

func linksTaken(c *Ctx, f *ssa.Function, alloc, writers map[*ssa.Function]bool, null int64) {
	fl := newFlow(c.Prog, nil)
	fields := []string{"Ref", "Edge", "Side", "Next", "BMin", "BMax"}
	nul := fl.tt.konst(null)
	drop := func(st *State) {
		for _, n := range []string{"link", "tile", "next", "side", "head", "poly"} {
			delete(st.gt, n)
		}
		for _, n := range fields {
			delete(st.gs, "F:"+n)
		}
		delete(st.gs, "in")
		delete(st.gs, "any")
		delete(st.gs, "at")
	}
	finish := func(st *State, at string) {
		link := st.gt["link"]
		if link == nil || st.facts.bad {
			return
		}
		defer drop(st)
		if eqIn(st, link, nul) {
			if st.gs["any"] != "" {
				fl.Report("null:"+fname(f), at, "%s writes to a link although there was none left; %s", fname(f), fl.Path(st))
			}
			return
		}
		if !st.facts.isNe(link, nul) && st.gs["any"] != "" {
			fl.Report("unchecked:"+fname(f), at, "%s writes to a link without checking that there was one left; %s", fname(f), fl.Path(st))
			return
		}
		if st.gs["in"] == "" {
			fl.Report("lost:"+fname(f), at, "%s takes a link (at %s) and does not put it in the list of a polygon; %s", fname(f), st.gs["at"], fl.Path(st))
			return
		}
		for _, n := range fields {
			if st.gs["F:"+n] != "" {
				continue
			}
			if side := st.gt["side"]; n[0] == 'B' && side != nil {
				border := false
				for _, k := range []int64{0, 2, 4, 6} {
					border = border || !st.facts.isNe(side, fl.tt.konst(k)) && !st.facts.isNe(stripConv(side), fl.tt.konst(k))
				}
				if !border {
					continue
				}
			}
			fl.Report("field:"+n+":"+fname(f), at, "%s puts a link (taken at %s) in the list of a polygon without setting its field %s; %s", fname(f), st.gs["at"], n, fl.Path(st))
		}
		if st.gs["F:Next"] != "" && !eqIn(st, st.gt["next"], st.gt["head"]) {
			fl.Report("next:"+fname(f), at, "%s puts a link in front of %s, not of the former first link %s of the polygon; %s", fname(f), st.gt["next"], st.gt["head"], fl.Path(st))
		}
	}
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool { return !alloc[g] && (writers[g] || c.simpleFn(g)) },
		After: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term) {
			if !alloc[callee] || res == nil {
				return
			}
			c.Count("links taken", 1)
			finish(st, fl.instrPos(site))
			st.gt["link"], st.gt["tile"] = res, args[0]
			st.gs["at"] = fl.instrPos(site)
			for i := range args {
				if pt, ok := args[i].typ.Underlying().(*types.Pointer); ok && isNamed(pt.Elem(), "detour", "MeshTile") {
					st.gt["tile"] = args[i]
				}
			}
		},
		Store: func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			link := st.gt["link"]
			if link == nil {
				return
			}
			at := fl.instrPos(in)
			isLink := func(e *Term) bool {
				if e.op != "ia" || !eqIn(st, stripConv(e.a[1]), link) && !eqIn(st, e.a[1], link) {
					return false
				}
				if o := ownerOf(e, "Links"); o == nil || !eqIn(st, o, st.gt["tile"]) {
					fl.Report("tile:"+fname(f), at, "%s takes a link from one tile and stores it in the links of another; %s", fname(f), fl.Path(st))
				}
				return true
			}
			whole := func(n string) *Term {
				s := val.typ.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n {
						return fl.field(val, i, s.Field(i).Type())
					}
				}
				return nil
			}
			switch {
			case addr.op == "fa" && strings.HasPrefix(addr.aux, "detour.Link.") && isLink(addr.a[0]):
				n := addr.aux[len("detour.Link."):]
				st.gs["F:"+n], st.gs["any"] = "1", "1"
				if n == "Next" {
					st.gt["next"] = val
				}
				if n == "Side" {
					st.gt["side"] = val
				}
			case addr.op == "ia" && isNamed(contentType(addr), "detour", "Link") && isLink(addr):
				for _, n := range fields {
					st.gs["F:"+n] = "1"
				}
				st.gs["any"] = "1"
				st.gt["next"], st.gt["side"] = whole("Next"), whole("Side")
			case addr.op == "fa" && addr.aux == "detour.Poly.FirstLink":
				if !eqIn(st, val, link) {
					if eqIn(st, link, nul) {
						return
					}
					fl.Report("list:"+fname(f), at, "%s makes %s the first link of a polygon, which is not the link it has taken; %s", fname(f), val, fl.Path(st))
					return
				}
				if st.gs["in"] != "" {
					fl.Report("twice:"+fname(f), at, "%s puts a link in the lists of two polygons; %s", fname(f), fl.Path(st))
					return
				}
				c.Count("links put in a list", 1)
				st.gs["in"] = "1"
				st.gt["head"] = fl.peek(st, addr)
				if o := ownerOf(addr.a[0], "Polys"); o != nil && !eqIn(st, o, st.gt["tile"]) {
					fl.Report("tile:"+fname(f), at, "%s puts a link of one tile in the list of a polygon of another; %s", fname(f), fl.Path(st))
				}
			}
		},
		Back: func(fl *Flow, st *State, header *ssa.BasicBlock) {
			if link := st.gt["link"]; link != nil && len(fl.loops) > 0 && link.inLoop(fl.loops[len(fl.loops)-1]) {
				finish(st, fl.instrPos(header.Instrs[0]))
			}
		},
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			finish(st, fl.instrPos(in))
		},
		Key: func(st *State) string {
			link := st.gt["link"]
			return map[bool]string{true: "link"}[link != nil] + st.gs["in"]
		},
	}
	fl.Run(f, func(st *State, ps []*Term) {})
	fl.Finish(c, fname(f))
}

func linksFreed(c *Ctx, f *ssa.Function, alloc, free, writers map[*ssa.Function]bool, null int64) {
	fl := newFlow(c.Prog, nil)
	isPlace := func(a *Term) bool {
		if a.op == "sym" { // a pointer to such a place
			b, ok := contentType(a).Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint32
		}
		return a.op == "fa" && (a.aux == "detour.Poly.FirstLink" || a.aux == "detour.Link.Next")
	}
	// where an address is: the polygon whose first link it is, or the number of the link it is the successor of
	place := func(a *Term) (kind string, t *Term) {
		if a.op == "sym" {
			return "at", a
		}
		if a.aux == "detour.Poly.FirstLink" {
			return "first", a.a[0]
		}
		if a.a[0].op == "ia" {
			return "next", stripConv(a.a[0].a[1])
		}
		return "next", a.a[0]
	}
	follows := func(st *State, val, t *Term) bool {
		return val.op == "load" && val.a[0].op == "fa" && val.a[0].aux == "detour.Link.Next" && val.a[0].a[0].op == "ia" && eqIn(st, stripConv(val.a[0].a[0].a[1]), t) && st.gt["freed"] == nil
	}
	finish := func(st *State, at string) {
		if st.facts.bad {
			return
		}
		if st.gt["out"] != nil {
			fl.Report("lost:"+fname(f), at, "%s takes a link out of the list of its polygon without giving it back to the free links; %s", fname(f), fl.Path(st))
		}
		if st.gt["freed"] != nil {
			fl.Report("dangling:"+fname(f), at, "%s gives a link back to the free links that stays in the list of its polygon; %s", fname(f), fl.Path(st))
		}
		delete(st.gt, "out")
		delete(st.gt, "freed")
	}
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool {
			return !free[g] && !alloc[g] && (writers[g] || c.simpleFn(g))
		},
		Load: func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
			if !isPlace(addr) {
				return nil
			}
			v := fl.load(st, addr)
			if st.gt["chain"] != nil {
				st.gt["chain1"], st.gt["from1"], st.gs["kind1"] = st.gt["chain"], st.gt["from"], st.gs["kind"]
			}
			st.gt["chain"] = v
			st.gs["kind"], st.gt["from"] = place(addr)
			return v
		},
		Store: func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			if !isPlace(addr) {
				return
			}
			at := fl.instrPos(in)
			kind, t := place(addr)
			var out *Term
			for _, n := range []string{"", "1"} {
				if out == nil && st.gs["kind"+n] == kind && eqIn(st, st.gt["from"+n], t) {
					if ch := st.gt["chain"+n]; follows(st, val, ch) || eqIn(st, st.gt["freed"], ch) && eqIn(st, val, st.gt["freednext"]) {
						out = ch
					}
				}
			}
			if out == nil {
				fl.Report("list:"+fname(f), at, "%s changes a list of links in another way than by taking one link out of it (%s = %s); %s", fname(f), addr, val, fl.Path(st))
				return
			}
			st.gt["chain"], st.gt["from"], st.gs["kind"] = val, t, kind
			delete(st.gt, "chain1")
			delete(st.gt, "from1")
			delete(st.gs, "kind1")
			if eqIn(st, st.gt["freed"], out) {
				delete(st.gt, "freed")
				return
			}
			if st.gt["out"] != nil {
				finish(st, at)
			}
			st.gt["out"] = out
		},
		Call: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term) ([]Outcome, bool) {
			if !free[callee] {
				return nil, false
			}
			c.Count("links given back", 1)
			var arg *Term
			for _, a := range args {
				if isIntType(a.typ) {
					arg = a
				}
			}
			switch {
			case eqIn(st, st.gt["out"], arg):
				delete(st.gt, "out")
			case st.gt["freed"] != nil || st.gt["out"] != nil:
				finish(st, fl.instrPos(site))
			default:
				// its successor may have been read before
				for _, n := range []string{"", "1"} {
					if st.gs["kind"+n] == "next" && eqIn(st, st.gt["from"+n], arg) {
						st.gt["freednext"] = st.gt["chain"+n]
					}
				}
				st.gt["freed"] = arg
			}
			return nil, false
		},
		Back:   func(fl *Flow, st *State, header *ssa.BasicBlock) { finish(st, fl.instrPos(header.Instrs[0])) },
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) { finish(st, fl.instrPos(in)) },
		Key:    func(st *State) string { return st.gs["kind"] + "/" + st.gs["kind1"] },
	}
	fl.Run(f, func(st *State, ps []*Term) {})
	fl.Finish(c, fname(f))
}

// linksBetween: AddTile and RemoveTile link and unlink the tile with all its neighbours.
func linksBetween(c *Ctx, f *ssa.Function, alloc, free map[*ssa.Function]bool) {
	tilePtr := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && isNamed(pt.Elem(), "detour", "MeshTile")
	}
	reaches := func(set map[*ssa.Function]bool) map[*ssa.Function]bool {
		return c.relevant(func(g *ssa.Function) bool { return callsAny(g, set) })
	}
	allocs, frees := reaches(alloc), reaches(free)
	add := f.Name() == "AddTile"
	// the functions linking two tiles, or removing the links between them
	ext := map[*ssa.Function]bool{}
	for _, g := range c.srcFuncs {
		n := 0
		for _, p := range g.Params {
			if tilePtr(p.Type()) {
				n++
			}
		}
		if g.Synthetic == "" && relPkg(funcPkg(g)) == "detour" && n == 2 && (add && allocs[g] || !add && frees[g] && !allocs[g]) {
			ext[g] = true
		}
	}
	all := map[*ssa.Function]bool{}
	for g := range ext {
		all[g] = true
	}
	for g := range all {
		if callsAny(g, all) { // only passes the tiles on
			delete(ext, g)
		}
	}
	tilesAt := c.fn("detour", "NavMesh.TilesAt")
	lookup := map[*ssa.Function]bool{tilesAt: true}
	for _, g := range c.srcFuncs {
		if g.Synthetic != "" || relPkg(funcPkg(g)) != "detour" || !callsFn(g, tilesAt) {
			continue
		}
		for _, p := range g.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && tilePtr(sl.Elem()) {
				lookup[g] = true
			}
		}
	}
	inl := c.relevant(func(g *ssa.Function) bool { return !lookup[g] && !ext[g] && (callsAny(g, lookup) || callsAny(g, ext)) })
	fl := newFlow(c.Prog, nil)
	minus := fl.tt.konst(-1)
	seen := map[string]bool{}
	var names []string
	for g := range ext {
		if add {
			names = append(names, g.Name()+" from the tile", g.Name()+" to the tile")
		} else {
			names = append(names, g.Name()+" to the tile")
		}
	}
	finish := func(st *State, at string) {
		nei := st.gt["nei"]
		if nei == nil || st.facts.bad {
			return
		}
		if !eqIn(st, nei, st.gt["self"]) && !eqIn(st, nei, fl.tt.konst(0)) {
			var missing []string
			for _, n := range names {
				if st.gs["did:"+n] == "" {
					missing = append(missing, n)
				}
			}
			if len(missing) > 0 {
				fl.Report("missing:"+fname(f), at, "%s does not call %s for a neighbour it has found; %s", fname(f), strings.Join(missing, ", "), fl.Path(st))
			}
		}
		delete(st.gt, "nei")
		delete(st.gt, "element")
		for _, n := range names {
			delete(st.gs, "did:"+n)
		}
		delete(st.gt, "self")
	}
	fl.cl = &Client{
		Inline: func(fl *Flow, g *ssa.Function) bool {
			return !lookup[g] && !ext[g] && (inl[g] || c.simpleFn(g) && !c.writesMesh(g))
		},
		After: func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term) {
			at := fl.instrPos(site)
			if lookup[callee] {
				finish(st, at)
				var ints []*Term
				for i, a := range args {
					if isIntType(callee.Params[i].Type()) {
						ints = append(ints, a)
					} else if _, ok := callee.Params[i].Type().Underlying().(*types.Slice); ok {
						st.gt["array"] = root(a)
					}
				}
				st.gt["lx"], st.gt["ly"] = ints[0], ints[1]
				if callee == tilesAt {
					st.gt["side"] = minus
					seen["at its own position"] = true
				} else {
					st.gt["side"] = ints[2]
					seen["on its sides"] = true
				}
				return
			}
			if !ext[callee] {
				return
			}
			var tiles []*Term
			var side *Term
			for i, a := range args {
				if tilePtr(callee.Params[i].Type()) {
					tiles = append(tiles, a)
				} else if isIntType(callee.Params[i].Type()) {
					side = a
				}
			}
			nei := st.gt["nei"]
			if nei == nil || eqIn(st, tiles[0], tiles[1]) {
				return
			}
			dir := ""
			var tile *Term
			switch {
			case eqIn(st, tiles[1], nei):
				dir, tile = "from the tile", tiles[0]
			case eqIn(st, tiles[0], nei):
				dir, tile = "to the tile", tiles[1]
			default:
				fl.Report("other:"+fname(f), at, "%s calls %s for a tile that is not the neighbour it has found last; %s", fname(f), fname(callee), fl.Path(st))
				return
			}
			h := fl.peek(st, fl.fieldPath(tile, "Header"))
			if !eqIn(st, st.gt["lx"], fl.peek(st, fl.fieldPath(h, "X"))) || !eqIn(st, st.gt["ly"], fl.peek(st, fl.fieldPath(h, "Y"))) {
				fl.Report("position:"+fname(f), at, "%s looks for neighbours at (%s, %s), which is not the position of the tile; %s", fname(f), st.gt["lx"], st.gt["ly"], fl.Path(st))
			}
			if side != nil {
				want := st.gt["side"]
				if dir == "to the tile" && want != minus {
					outs := fl.exec(c.fn("detour", "oppositeTile"), []*Term{want}, nil, st.clone(), "opp", false)
					want = outs[0].res[0]
				}
				if !eqIn(st, side, want) {
					fl.Report("side:"+fname(f), at, "%s calls %s, %s, with the side %s and not %s; %s", fname(f), fname(callee), dir, side, want, fl.Path(st))
				}
			}
			if add {
				c.Count("neighbours linked", 1)
			} else {
				c.Count("neighbours unlinked", 1)
			}
			st.gs["did:"+callee.Name()+" "+dir] = "1"
		},
		Load: func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
			if addr.op != "ia" || st.gt["array"] == nil || root(addr) != st.gt["array"] || !tilePtr(contentType(addr)) {
				return nil
			}
			if st.gt["nei"] != nil && st.gt["element"] == addr {
				return st.gt["nei"] // nothing else holds the array
			}
			if ld, ok := in.(*ssa.UnOp); ok {
				if ia, ok := ld.X.(*ssa.IndexAddr); ok {
					if m := wholeLoop(ia.Index); m != "" {
						fl.Report("loop:"+fname(f), fl.instrPos(in), "the loop of %s over the neighbours %s", fname(f), m)
					}
				}
			}
			v := fl.load(st, addr)
			finish(st, fl.instrPos(in))
			st.gt["nei"], st.gt["element"] = v, addr
			return v
		},
		BinOp: func(fl *Flow, st *State, in *ssa.BinOp, x, y *Term) {
			// the tile itself is among those of its position
			nei := st.gt["nei"]
			if nei == nil || st.gt["side"] != minus || !tilePtr(in.X.Type()) {
				return
			}
			if x == nei {
				x, y = y, x
			}
			if y == nei && x != nei && root(x) != st.gt["array"] && !x.isConst() {
				st.gt["self"] = x
			}
		},
		Back:   func(fl *Flow, st *State, header *ssa.BasicBlock) { finish(st, fl.instrPos(header.Instrs[0])) },
		Return: func(fl *Flow, st *State, in *ssa.Return, res []*Term) { finish(st, fl.instrPos(in)) },
	}
	fl.Run(f, func(st *State, ps []*Term) {})
	fl.Finish(c, fname(f))
	for _, w := range []string{"at its own position", "on its sides"} {
		if !seen[w] {
			c.Violate("lookup:"+fname(f), c.pos(f.Pos()), "%s does not look for the neighbours of the tile %s", fname(f), w)
		}
	}
	// the sides looked at
	covered, unknown := map[int64]bool{}, false
	for g := range inl {
		if g != f && !calledFrom(c, f, g, 6) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if !lookup[callee] || callee == tilesAt {
					continue
				}
				n := 0
				for i, a := range call.Common().Args {
					if !isIntType(callee.Params[i].Type()) {
						continue
					}
					if n++; n != 3 {
						continue
					}
					if vs, ok := countedLoop(a); ok {
						for _, k := range vs {
							covered[k] = true
						}
					} else {
						unknown = true
					}
				}
			}
		}
	}
	if unknown {
		c.Count("side loops not followed", 1)
		c.Count("side loops", 1)
		return
	}
	c.Count("side loops", 1)
	for k := int64(0); k < 8; k++ {
		if !covered[k] {
			c.Violate("sides:"+fname(f), c.pos(f.Pos()), "%s does not look for the neighbours on side %d", fname(f), k)
			return
		}
	}
}

func calledFrom(c *Ctx, f, g *ssa.Function, depth int) bool {
	if callsFn(f, g) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, h := range staticCallers(c, g) {
		if h != g && calledFrom(c, f, h, depth-1) {
			return true
		}
	}
	return false
}

func stripConvert(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func intConst(v ssa.Value) (int64, bool) {
	if k, ok := stripConvert(v).(*ssa.Const); ok && k.Value != nil && isIntType(k.Type()) {
		return k.Int64(), true
	}
	return 0, false
}

// counter: v is the counter of a loop, starting at a constant and stepping up by a constant.
func counter(v ssa.Value) (phi *ssa.Phi, start, step int64, ok bool) {
	v = stripConvert(v)
	if b, isB := v.(*ssa.BinOp); isB && b.Op == token.ADD { // the index of a range loop
		if p, s, st, ok := counter(b.X); ok {
			if k, isK := intConst(b.Y); isK && k == 1 && st == 1 && s == -1 {
				return p, 0, 1, true
			}
		}
		return nil, 0, 0, false
	}
	phi, isPhi := v.(*ssa.Phi)
	if !isPhi {
		return nil, 0, 0, false
	}
	started, stepped := false, false
	for _, e := range phi.Edges {
		if k, isK := intConst(e); isK && !started {
			start, started = k, true
			continue
		}
		b, isB := stripConvert(e).(*ssa.BinOp)
		if !isB || b.Op != token.ADD || stripConvert(b.X) != phi {
			return nil, 0, 0, false
		}
		k, isK := intConst(b.Y)
		if !isK || k <= 0 || stepped && k != step {
			return nil, 0, 0, false
		}
		step, stepped = k, true
	}
	return phi, start, step, started && stepped
}

// countedLoop: the values a loop counter takes.
func countedLoop(v ssa.Value) (vs []int64, ok bool) {
	if k, ok := intConst(v); ok {
		return []int64{k}, true
	}
	phi, lo, step, ok := counter(v)
	if !ok || phi == nil {
		return nil, false
	}
	br, isIf := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false
	}
	cmp, isCmp := br.Cond.(*ssa.BinOp)
	if !isCmp || stripConvert(cmp.X) != phi {
		return nil, false
	}
	k, isK := intConst(cmp.Y)
	if !isK {
		return nil, false
	}
	switch cmp.Op {
	case token.LSS, token.NEQ:
	case token.LEQ:
		k++
	default:
		return nil, false
	}
	for ; lo < k && len(vs) < 64; lo += step {
		vs = append(vs, lo)
	}
	return vs, true
}

// wholeLoop tells what keeps the loop with the counter v from handling every
// element from the first: it starts later, skips some, or is left early.
func wholeLoop(v ssa.Value) string {
	phi, start, step, ok := counter(v)
	if !ok {
		return ""
	}
	if start > 0 {
		return "does not start with the first"
	}
	if step != 1 {
		return "skips some"
	}
	h := phi.Block()
	in := map[*ssa.BasicBlock]bool{h: true}
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		work := []*ssa.BasicBlock{p}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if in[b] {
				continue
			}
			in[b] = true
			work = append(work, b.Preds...)
		}
	}
	for b := range in {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !in[s] {
				if _, isPanic := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !isPanic {
					return "may be left before the last"
				}
			}
		}
	}
	return ""
}
