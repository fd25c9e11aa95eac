package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "R03",
		Rule: "at every successful return of RemoveTile: the salt stored in the tile differs from its old salt, is not zero and fits the salt bits (range analysis for every salt and every split), and is the old one plus one modulo the number of salts, skipping zero (constant propagation of the boundary salts for every number of salt bits); " +
			"every field of the tile that AddTile or its callees write (except the salt and the list link) has its zero value; the list of the hash of the tile's own position was searched until it ended or the tile was unlinked from it; the head of the free list is the tile, followed by the former head.",
		Floor: []Floor{{"successful returns", 2}, {"fields of a tile written by AddTile", 8}, {"salt values propagated", 28}},
		Assum: []string{"salt bits are between 8 and 31 (B06)", "the tile is in the position lookup list of its own position"},
		Run:   runR03,
	})
}

func runR03(c *Ctx) {
	f := c.fn("detour", "NavMesh.RemoveTile")
	add := c.fn("detour", "NavMesh.AddTile")
	rel := c.relevant(func(f *ssa.Function) bool {
		if c.usesTileTable(f) {
			return true
		}
		for cl := range c.modDirect(f).direct {
			if strings.HasPrefix(cl, "detour.MeshTile.") && cl != "detour.MeshTile.LinksFreeList" || cl == "detour.NavMesh.nextFree" {
				return true
			}
		}
		return false
	})
	var fields []string
	for cl := range c.modSet(add) {
		if n, ok := strings.CutPrefix(cl, "detour.MeshTile."); ok && n != "Salt" && n != "Next" {
			fields = append(fields, n)
		}
	}
	sort.Strings(fields)
	c.Count("fields of a tile written by AddTile", len(fields))
	sb := c.statusBits()
	type saltCase struct{ bits, salt, want int64 }
	cases := []saltCase{{}}
	for k := int64(8); k <= 31; k++ {
		if !c.Thorough() && k != 8 && k != 16 && k < 30 {
			continue
		}
		for _, s := range []int64{1, 2, 3, 1<<(k-1) - 1, 1 << (k - 1), 1<<k - 2, 1<<k - 1} {
			w := (s + 1) % (1 << k)
			if w == 0 {
				w = 1
			}
			cases = append(cases, saltCase{k, s, w})
		}
	}
	c.Parallel(len(cases), func(i int) {
		cs := cases[i]
		r := newRefFlow(c, f, rel)
		fl := r.fl
		fl.cl.Index = func(fl *Flow, st *State, in ssa.Instruction, base, idx, length *Term) {
			if r.check && tableOf(base) == "posLookup" && st.gs["walk"] == "" {
				st.gs["walk"] = "1"
				st.gt["bucket"] = idx
			}
		}
		fl.cl.Load = func(fl *Flow, st *State, in ssa.Instruction, addr *Term) *Term {
			if r.check && isNamed(contentType(addr), "detour", "MeshTile") && (addr.op == "sym" || addr.op == "ia" && tableOf(addr.a[0]) == "posLookup" || addr.op == "fa" && addr.aux == "detour.MeshTile.Next") {
				v := fl.load(st, addr)
				if st.gs["unlinked"] == "" {
					if st.gt["chain"] != nil {
						st.gt["chain1"], st.gt["from1"] = st.gt["chain"], st.gt["from"]
					}
					st.gt["chain"], st.gt["from"] = v, addr
					if addr.op != "sym" {
						st.gt["from"] = addr.a[0]
					}
				}
				return v
			}
			return nil
		}
		var part *refParts
		var tile *Term
		var oldSalt, oldFree, x, y, mask *Term
		fl.cl.Store = func(fl *Flow, st *State, in ssa.Instruction, addr, val *Term) {
			if !isNamed(contentType(addr), "detour", "MeshTile") || !r.check {
				return
			}
			next := fl.peek(st, fl.fieldPath(tile, "Next"))
			same := func(a, b *Term) bool { return a == b || st.facts.le(a, b, 0) && st.facts.le(b, a, 0) }
			isLook := addr.op == "ia" && tableOf(addr.a[0]) == "posLookup"
			isNext := addr.op == "fa" && addr.aux == "detour.MeshTile.Next" && addr.a[0] != tile
			isPtr := addr.op == "sym" // a pointer to such a place
			if (isLook || isNext || isPtr) && st.gs["freed"] == "" {
				// what led to the tile now leads to its successor
				ok := same(val, next) || val.op == "load" && val.a[0].op == "fa" && val.a[0].aux == "detour.MeshTile.Next" && same(val.a[0].a[0], tile)
				at := same(fl.peek(st, addr), tile)
				for _, n := range []string{"", "1"} {
					if from, ch := st.gt["from"+n], st.gt["chain"+n]; isNext && from != nil && same(from, addr.a[0]) && same(ch, tile) {
						at = true
					}
				}
				if isLook && !(st.gt["bucket"] != nil && same(addr.a[1], st.gt["bucket"])) {
					ok = false
				}
				if at && ok {
					st.gs["unlinked"] = "1"
				} else {
					fl.Report("list:"+fname(f), fl.instrPos(in), "%s changes the position lookup list in another way than by unlinking the tile (%s = %s); %s", fname(f), addr, val, fl.Path(st))
				}
			}
			if addr == fl.fieldPath(tile, "Next") {
				st.gs["freed"] = "1"
			}
		}
		fl.cl.Instr = func(fl *Flow, st *State, in ssa.Instruction) {
			if ch := st.gt["chain"]; ch != nil && st.gs["ended"] == "" && st.facts.le(ch, fl.tt.konst(0), 0) {
				st.gs["ended"] = "1"
			}
		}
		fl.cl.Return = func(fl *Flow, st *State, in *ssa.Return, res []*Term) {
			si := -1
			for k := range res {
				if isStatus(f.Signature.Results().At(k).Type()) {
					si = k
				}
			}
			if b := st.facts.Bits(res[si]); b.ones&sb.F != 0 {
				return
			}
			c.Count("successful returns", 1)
			at := fl.instrPos(in)
			bad := func(key, format string, args ...interface{}) {
				fl.Report(key, at, "after %s succeeded %s; %s", fname(f), fmt.Sprintf(format, args...), fl.Path(st))
			}
			zero := fl.tt.konst(0)
			same := func(a, b *Term) bool { return a == b || st.facts.le(a, b, 0) && st.facts.le(b, a, 0) }
			salt := fl.peek(st, fl.fieldPath(tile, "Salt"))
			if cs.bits > 0 {
				c.Count("salt values propagated", 1)
				if !salt.isConst() {
					if !same(salt, fl.tt.konst(cs.want)) {
						bad("undecided:salt", "the salt is %s: it cannot be told whether %d is followed by %d with %d salt bits", salt, cs.salt, cs.want, cs.bits)
					}
				} else if salt.n != cs.want {
					bad("salt-next", "the salt %d is followed by %d and not by %d with %d salt bits", cs.salt, salt.n, cs.want, cs.bits)
				}
				return
			}
			if !st.facts.isNe(salt, zero) {
				bad("salt-zero", "the salt %s may be zero", salt)
			}
			for _, n := range fields {
				a := fl.fieldPath(tile, n)
				v := fl.peek(st, a)
				if !same(v, zero) && v != fl.zero(contentType(a)) {
					bad("kept:"+n, "the field %s of the tile, written by AddTile, is still %s", n, v)
				}
			}
			if st.gs["unlinked"] == "" {
				if st.gs["ended"] == "" {
					bad("lookup", "the tile may still be in the position lookup (the search of its list has not ended)")
				}
			}
			b := st.gt["bucket"]
			if b == nil {
				bad("bucket", "no list of the position lookup has been searched")
			} else if want := r.bucket(fl, st, x, y, mask); want != nil && !same(b, want) {
				bad("bucket", "the list searched, %s, is not the one of the position of the tile, %s", b, want)
			}
			if !same(fl.peek(st, fl.fieldPath(r.nav, "nextFree")), tile) {
				bad("free-list", "the tile is not the head of the free list")
			}
			if v := fl.peek(st, fl.fieldPath(tile, "Next")); !same(v, oldFree) {
				bad("free-list-tail", "the tile is not followed by the former free tiles but by %s", v)
			}
			_ = oldSalt
		}
		fl.Run(f, func(st *State, params []*Term) {
			r.nav = params[0]
			if cs.bits > 0 {
				st.mem[fl.fieldPath(r.nav, "saltBits")] = fl.tt.konst(cs.bits)
			}
			part = r.add(st, params[1])
			r.limit(st, part)
			tile = r.tileAddr(st, part)
			sa := fl.fieldPath(tile, "Salt")
			oldFree = fl.load(st, fl.fieldPath(r.nav, "nextFree"))
			mask = fl.load(st, fl.fieldPath(r.nav, "TileLUTMask"))
			h := fl.load(st, fl.fieldPath(tile, "Header"))
			x, y = fl.load(st, fl.fieldPath(h, "X")), fl.load(st, fl.fieldPath(h, "Y"))
			if cs.bits > 0 {
				st.mem[sa] = fl.tt.konst(cs.salt)
			} else {
				oldSalt = fl.load(st, sa)
			}
			r.check = true
		})
		fl.Finish(c, fname(f))
	})
}

// bucket is the list of the position lookup for a position.
func (r *refFlow) bucket(fl *Flow, st *State, x, y, mask *Term) *Term {
	g := r.c.lookup("detour", "computeTileHash")
	if g == nil {
		return nil
	}
	outs := fl.exec(g, []*Term{x, y, mask}, nil, st.clone(), "hash", false)
	if len(outs) != 1 {
		return nil
	}
	return outs[0].res[0]
}
