package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "R05",
		Rule: "on every path of AddTile to a successful return: the position lookup was found to hold no tile at the position and layer of the new one; the tile stored in the position lookup list of its position is the head of the free list, which has moved to the next one, or, when a reference was asked for, the tile with the index of that reference, unlinked from the list of free tiles that was searched, with the salt of that reference; the tile is followed by the former head of the list, and the reference returned is the one of that tile with its final salt. " +
			"On every path to a failing return, nothing of the navigation mesh has been written.",
		Floor: []Floor{{"successful returns", 2}, {"failing returns", 5}},
		Assum: []string{"the free list and the position lookup lists are well formed before the call"},
		Run:   runR05,
	})
}

// meshClass: a class of memory of the navigation mesh.
func meshClass(cl string) bool {
	for _, n := range []string{"NavMesh", "MeshTile", "Poly", "Link"} {
		if strings.HasPrefix(cl, "detour."+n+".") {
			return true
		}
	}
	return false
}

func runR05(c *Ctx) {
	f := c.fn("detour", "NavMesh.AddTile")
	sb := c.statusBits()
	changes := c.relevant(func(g *ssa.Function) bool {
		for cl := range c.modDirect(g).direct {
			if cl == "detour.NavMesh.nextFree" || cl == "detour.MeshTile.Next" || cl == "detour.MeshTile.Salt" {
				return true
			}
		}
		return false
	})
	lookup := map[*ssa.Function]bool{c.fn("detour", "NavMesh.TileAt"): true, c.fn("detour", "NavMesh.TileRefAt"): true}
	looks := c.relevant(func(g *ssa.Function) bool { return !lookup[g] && callsAny(g, lookup) })
	refOf := map[*ssa.Function]bool{c.fn("detour", "NavMesh.TileRef"): true, c.fn("detour", "NavMesh.polyRefBase"): true}
	parts := map[*ssa.Function]bool{}
	for _, n := range []string{"decodePolyIDSalt", "decodePolyIDTile", "decodePolyIDPoly", "DecodePolyID"} {
		parts[c.fn("detour", "NavMesh."+n)] = true
	}
	r := newRefFlow(c, f, nil)
	fl := r.fl
	fl.cl.Index, fl.cl.Load = nil, nil
	fl.cl.Inline = func(fl *Flow, g *ssa.Function) bool {
		return !lookup[g] && !refOf[g] && (parts[g] || changes[g] || looks[g] || c.simpleFn(g) && !c.writesMesh(g))
	}
	var part *refParts
	var oldFree, mask *Term
	same := func(st *State, a, b *Term) bool {
		return a != nil && b != nil && (a == b || st.facts.le(a, b, 0) && st.facts.le(b, a, 0))
	}
	fl.cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
		if !r.check || !isNamed(contentType(addr), "detour", "MeshTile") {
			return nil
		}
		if addr.op == "fa" && (addr.aux == "detour.MeshTile.Next" || addr.aux == "detour.NavMesh.nextFree") && st.gs["taken"] == "" {
			v := fl.load(st, addr)
			if st.gt["chain"] != nil {
				st.gt["chain1"], st.gt["from1"] = st.gt["chain"], st.gt["from"]
			}
			st.gt["chain"], st.gt["from"] = v, addr.a[0]
			return v
		}
		return nil
	}
	fl.cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
		if !r.check {
			return
		}
		if !isObj(root(addr)) {
			st.gs["wrote"] = fl.instrPos(in)
		}
		own := func(t *Term) bool { return same(st, st.gt["tile"], t) || same(st, st.gt["out"], t) }
		if addr.op == "fa" && addr.aux == "detour.MeshTile.Salt" {
			if !own(addr.a[0]) || !same(st, val, part.salt) {
				fl.Report("salt", fl.instrPos(in), "%s gives a tile the salt %s, which is not the one of the reference asked for the tile; %s", fname(f), val, fl.Path(st))
			}
			st.gs["salt"] = "1"
			delete(st.gt, "ref")
		}
		if addr.op == "fa" && addr.aux == "detour.MeshTile.Header" && own(addr.a[0]) {
			get := func(n string) *Term { return fl.peek(st, fl.fieldPath(val, n)) }
			if same(st, st.gt["x"], get("X")) && same(st, st.gt["y"], get("Y")) && same(st, st.gt["layer"], get("Layer")) {
				st.gs["header"] = "1"
			}
		}
		if !isNamed(contentType(addr), "detour", "MeshTile") {
			return
		}
		at := fl.instrPos(in)
		switch {
		case addr.op == "ia" && tableOf(addr.a[0]) == "posLookup":
			if st.gt["tile"] != nil {
				fl.Report("lookup:twice", at, "%s stores in the position lookup a second time; %s", fname(f), fl.Path(st))
				return
			}
			followers := fl.peek(st, addr)
			st.gs["lookup"] = "1"
			if st.gt["next"] != nil && same(st, st.gt["next"], followers) {
				st.gs["followed"] = "1"
			}
			st.gt["tile"], st.gt["followers"] = val, followers
			if same(st, st.gt["out"], val) {
				st.gs["taken-it"] = "1"
			}
			if same(st, val, r.tileAddr(st, part)) {
				st.gs["index"] = "1"
			}
			if found := st.gt["found"]; found == nil {
				fl.Report("occupied", at, "%s puts a tile in the position lookup without looking for a tile at its position; %s", fname(f), fl.Path(st))
			} else if !same(st, found, fl.tt.konst(0)) {
				fl.Report("occupied", at, "%s puts a tile in the position lookup although there may be one at its position; %s", fname(f), fl.Path(st))
			} else if want := r.bucket(fl, st, st.gt["x"], st.gt["y"], mask); want != nil && !same(st, addr.a[1], want) {
				fl.Report("bucket", at, "%s puts the tile in the list %s of the position lookup, which is not the one of its position; %s", fname(f), addr.a[1], fl.Path(st))
			}
		case addr.op == "sym", addr.op == "fa" && (addr.aux == "detour.NavMesh.nextFree" || addr.aux == "detour.MeshTile.Next"):
			// a tile is taken out of the free list: what led to it leads to its successor
			if addr.aux == "detour.MeshTile.Next" {
				if t := st.gt["tile"]; same(st, t, addr.a[0]) || same(st, st.gt["out"], addr.a[0]) {
					st.gt["next"] = val
					st.gs["followed"] = ""
					if st.gt["followers"] != nil && same(st, val, st.gt["followers"]) {
						st.gs["followed"] = "1"
					}
					return
				}
			}
			cur := fl.peek(st, addr)
			var out *Term
			// val is what follows t
			follows := func(t *Term) bool {
				return t != nil && (same(st, val, fl.peek(st, fl.fieldPath(t, "Next"))) || val.op == "load" && val.a[0].op == "fa" && val.a[0].aux == "detour.MeshTile.Next" && same(st, val.a[0].a[0], t))
			}
			if t := r.tileAddr(st, part); follows(cur) {
				out = cur
			} else if same(st, cur, t) && follows(t) {
				out = t
			}
			for _, n := range []string{"", "1"} {
				if from, ch := st.gt["from"+n], st.gt["chain"+n]; out == nil && from != nil && addr.op == "fa" && same(st, from, addr.a[0]) && follows(ch) {
					out = ch
				}
			}
			if out == nil {
				fl.Report("free-list", at, "%s changes the list of free tiles in another way than by taking one tile out of it (%s = %s); %s", fname(f), addr, val, fl.Path(st))
				return
			}
			if st.gt["out"] != nil {
				fl.Report("free-list:twice", at, "%s takes a second tile out of the list of free tiles; %s", fname(f), fl.Path(st))
			}
			st.gt["out"], st.gs["taken"] = out, "1"
			if addr.aux == "detour.NavMesh.nextFree" && same(st, out, oldFree) {
				st.gs["head"] = "1"
			}
		}
	}
	fl.cl.After = func(fl *Flow, st *State, site ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term) {
		if !r.check || callee == nil {
			return
		}
		if refOf[callee] && res != nil && len(args) == 2 && (same(st, st.gt["tile"], args[1]) || same(st, st.gt["out"], args[1])) {
			st.gt["ref"] = res
			return
		}
		if lookup[callee] && res != nil && len(args) == 4 && st.gs["wrote"] == "" {
			st.gt["found"], st.gt["x"], st.gt["y"], st.gt["layer"] = res, args[1], args[2], args[3]
			return
		}
		if !fl.cl.Inline(fl, callee) && c.writesMesh(callee) {
			st.gs["wrote"] = fl.instrPos(site)
		}
	}
	fl.cl.Key = func(st *State) string { return st.gs["asked"] }
	fl.cl.Instr = func(fl *Flow, st *State, in ssa.Instruction) {
		if r.check && st.gs["asked"] == "" {
			if zero := fl.tt.konst(0); same(st, part.ref, zero) {
				st.gs["asked"] = "no"
			} else if st.facts.isNe(part.ref, zero) {
				st.gs["asked"] = "yes"
			}
		}
	}
	si, ri := -1, -1
	for k := 0; k < f.Signature.Results().Len(); k++ {
		if isStatus(f.Signature.Results().At(k).Type()) {
			si = k
		} else if isNamed(f.Signature.Results().At(k).Type(), "detour", "TileRef") {
			ri = k
		}
	}
	fl.cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
		b := st.facts.Bits(res[si])
		at := fl.instrPos(in)
		bad := func(key, format string, args ...interface{}) {
			fl.Report(key, at, "%s %s; %s", fname(f), fmt.Sprintf(format, args...), fl.Path(st))
		}
		if b.zeros&sb.F == 0 {
			c.Count("failing returns", 1)
			if w := st.gs["wrote"]; w != "" {
				bad("fails-changed", "may fail after it has changed the navigation mesh (at %s)", w)
			}
		}
		if b.ones&sb.F != 0 {
			return
		}
		c.Count("successful returns", 1)
		if st.gs["lookup"] == "" {
			bad("lookup", "succeeds without putting a tile in the position lookup")
			return
		}
		if ri >= 0 && (st.gt["ref"] == nil || !same(st, stripConv(st.gt["ref"]), stripConv(res[ri]))) {
			bad("reference", "returns %s, which is not the reference the tile now has", res[ri])
		}
		if st.gs["header"] == "" {
			bad("header", "does not give the tile a header with the position and the layer at which it has looked for another tile")
		}
		if st.gs["followed"] == "" {
			bad("followers", "does not put the tile in front of the tiles the list of its position had")
		}
		if st.gs["taken-it"] == "" {
			bad("taken", "uses a tile it has not taken out of the list of free tiles")
		}
		switch asked := st.gs["asked"]; {
		case asked == "no":
			c.Count("successes without a former reference", 1)
			if st.gs["head"] == "" {
				bad("head", "does not take the first free tile")
			}
			if st.gs["salt"] != "" {
				bad("salt-kept", "changes the salt of the tile although no reference was asked for")
			}
		case asked == "yes":
			c.Count("successes with a former reference", 1)
			if st.gs["index"] == "" {
				bad("index", "does not use the tile of the reference that was asked for")
			}
			if st.gs["salt"] == "" {
				bad("salt", "does not give the tile the salt of the reference that was asked for")
			}
		default:
			bad("undecided", "it cannot be told whether a reference was asked for")
		}
	}
	fl.Run(f, func(st *State, params []*Term) {
		r.nav = params[0]
		for _, p := range params[1:] {
			if isRefType(p.typ) {
				part = r.add(st, p)
				r.limit(st, part)
			}
		}
		oldFree = fl.load(st, fl.fieldPath(r.nav, "nextFree"))
		mask = fl.load(st, fl.fieldPath(r.nav, "TileLUTMask"))
		r.check = true
	})
	fl.Finish(c, fname(f))
}

// writesMesh: the function, or one it calls, writes memory of the navigation mesh.
func (c *Ctx) writesMesh(g *ssa.Function) bool {
	for cl := range c.modSet(g) {
		if meshClass(cl) {
			return true
		}
	}
	return false
}

func callsAny(f *ssa.Function, set map[*ssa.Function]bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if g := cl.Common().StaticCallee(); g != nil && set[g] {
					return true
				}
			}
		}
	}
	return false
}
