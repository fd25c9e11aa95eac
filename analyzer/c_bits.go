package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bitsAssum = "bitwise operators, shifts and conversions have the meaning of the Go specification; the engine tracks each bit of the result exactly, or as unknown"

func init() {
	register(&Check{ID: "R01", Run: runR01,
		Rule:  "For every split of the 32 bits accepted by the initialization, bit provenance through encodePolyID and then through each decoding function shows that bit i of each part comes out as bit i of that part, and the remaining bits are zero; the decoding functions pick the same bits of an arbitrary reference; packing the parts of a reference again gives the reference if the parts use all bits.",
		Floor: []Floor{{"bit splits", 300}, {"bits followed", 20000}},
		Assum: []string{bitsAssum, "the splits are those of B06: tile and polygon bits leave 8 bits or more for the salt, of which 31 at most are used"}})
	register(&Check{ID: "K04", Run: runK04,
		Rule:  "Bit provenance through SetCon followed by GetCon, for each direction, a symbolic value of 6 bits and symbolic previous content: the direction that was set reads back the value, the others what they read before. Likewise for the area (6 bits) and the type (2 bits) of a polygon.",
		Floor: []Floor{{"write and read pairs", 20}, {"bits followed", 100}},
		Assum: []string{bitsAssum}})
	register(&Check{ID: "Q09", Run: runQ09,
		Rule:  "Bit provenance through PassFilter with symbolic polygon, include and exclude flags: on each path the decided conditions say that flags&include is not zero and flags&exclude is zero if it answers true, and that flags&include is zero or flags&exclude is not zero if it answers false. After each setter the getters return the new value for what was set and the previous value for everything else. The result of Cost is the distance of the positions multiplied by the area cost at the area of the current polygon.",
		Floor: []Floor{{"paths of the filter", 2}, {"setter and getter pairs", 60}, {"cost results", 1}},
		Assum: []string{bitsAssum, "d3.Vec3.Dist computes the distance"}})
}

func sameVal(a, b bval) bool {
	if a.kind != b.kind || len(a.bits) != len(b.bits) {
		return false
	}
	for i := range a.bits {
		if !sameBit(a.bits[i], b.bits[i]) {
			return false
		}
	}
	return a.String() == b.String()
}

// simulate runs a function with one outcome, and reports when it cannot.
func simulate(c *Ctx, bs *bitsim, st *bstate, f *ssa.Function, args ...bval) (boutcome, bool) {
	o, err := bs.one(f, st, args...)
	if err != nil {
		c.Undecided("bits:"+fname(f), c.pos(f.Pos()), "bit provenance of %s: %v", fname(f), err)
		return o, false
	}
	return o, true
}

func runR01(c *Ctx) {
	enc := c.fn("detour", "NavMesh.encodePolyID")
	dec := c.fn("detour", "NavMesh.DecodePolyID")
	parts := []*ssa.Function{c.fn("detour", "NavMesh.decodePolyIDSalt"), c.fn("detour", "NavMesh.decodePolyIDTile"), c.fn("detour", "NavMesh.decodePolyIDPoly")}
	names := []string{"salt", "tile", "polygon"}
	refT := c.typ("detour", "PolyRef")
	u32 := types.Typ[types.Uint32]
	fieldT := map[string]types.Type{}
	nm := c.typ("detour", "NavMesh").Underlying().(*types.Struct)
	for i := 0; i < nm.NumFields(); i++ {
		fieldT[nm.Field(i).Name()] = nm.Field(i).Type()
	}
	for tb := 0; tb <= 24; tb++ {
		for pb := 0; tb+pb <= 24; pb++ {
			sb := 32 - tb - pb
			if sb > 31 {
				sb = 31
			}
			split := fmt.Sprintf("%d salt, %d tile and %d polygon bits", sb, tb, pb)
			c.Count("bit splits", 1)
			bs := newBitsim(c)
			st := &bstate{mem: map[string]bval{}, conds: map[string]bool{}}
			st.mem["m.saltBits"] = bInt(int64(sb), fieldT["saltBits"])
			st.mem["m.tileBits"] = bInt(int64(tb), fieldT["tileBits"])
			st.mem["m.polyBits"] = bInt(int64(pb), fieldT["polyBits"])
			m := bval{kind: "ptr", o: "m"}
			in := []bval{bInput("salt", sb, u32), bInput("tile", tb, u32), bInput("poly", pb, u32)}
			widths := []int{sb, tb, pb}
			decodeAll := func(ref bval, from *bstate) []bval {
				o, ok := simulate(c, bs, from, dec, m, ref, bval{kind: "ptr", o: "out0"}, bval{kind: "ptr", o: "out1"}, bval{kind: "ptr", o: "out2"})
				if !ok {
					return nil
				}
				var r []bval
				for i := range names {
					v, ok := o.st.mem[fmt.Sprintf("out%d", i)]
					if !ok {
						c.Violate("missing:"+names[i], c.pos(dec.Pos()), "%s does not set the %s", fname(dec), names[i])
						return nil
					}
					r = append(r, v)
				}
				return r
			}
			o, ok := simulate(c, bs, st, enc, append([]bval{m}, in...)...)
			if !ok {
				return
			}
			ref := o.res[0]
			all := decodeAll(ref, o.st)
			if all == nil {
				return
			}
			for i, name := range names {
				c.Count("bits followed", 2*widths[i])
				if !sameVal(all[i], in[i]) {
					c.Violate("roundtrip:DecodePolyID:"+name, c.pos(dec.Pos()), "with %s, the %s packed by encodePolyID comes out of DecodePolyID as %s", split, name, all[i])
				}
				o2, ok := simulate(c, bs, o.st, parts[i], m, ref)
				if !ok {
					return
				}
				if !sameVal(o2.res[0], in[i]) {
					c.Violate("roundtrip:"+parts[i].Name(), c.pos(parts[i].Pos()), "with %s, the %s packed by encodePolyID comes out of %s as %s", split, name, parts[i].Name(), o2.res[0])
				}
			}
			// an arbitrary reference
			any := bInput("ref", 32, refT)
			all = decodeAll(any, st)
			if all == nil {
				return
			}
			for i, name := range names {
				o2, ok := simulate(c, bs, st, parts[i], m, any)
				if !ok {
					return
				}
				c.Count("bits followed", widths[i])
				if !sameVal(o2.res[0], all[i]) {
					c.Violate("agree:"+name, c.pos(parts[i].Pos()), "with %s, %s takes the %s to be %s and DecodePolyID %s", split, parts[i].Name(), name, o2.res[0], all[i])
				}
			}
			if sb+tb+pb == 32 {
				o3, ok := simulate(c, bs, st, enc, m, all[0], all[1], all[2])
				if !ok {
					return
				}
				if !sameVal(o3.res[0], any) {
					c.Violate("repack", c.pos(enc.Pos()), "with %s, packing the parts of a reference again gives %s", split, o3.res[0])
				}
			}
			if tb == 4 || pb == 10 {
				c.Sample("%s: reference %s", split, ref)
			}
		}
	}
}

func runK04(c *Ctx) {
	set, get := c.fn("recast", "SetCon"), c.fn("recast", "GetCon")
	i32 := types.Typ[types.Int32]
	s := bval{kind: "ptr", o: "s"}
	bs := newBitsim(c)
	st := &bstate{mem: map[string]bval{}, conds: map[string]bool{}}
	read := func(from *bstate, d int) (bval, bool) {
		o, ok := simulate(c, bs, from, get, s, bInt(int64(d), i32))
		if !ok {
			return bval{}, false
		}
		return o.res[0], true
	}
	for d := 0; d < 4; d++ {
		in := bInput("value", 6, i32)
		o, ok := simulate(c, bs, st, set, s, bInt(int64(d), i32), in)
		if !ok {
			return
		}
		for e := 0; e < 4; e++ {
			after, ok := read(o.st, e)
			before, ok2 := read(st, e)
			if !ok || !ok2 {
				return
			}
			c.Count("write and read pairs", 1)
			c.Count("bits followed", 6)
			want, what := before, "what it was before"
			if e == d {
				want, what = in, "the value"
			}
			if !sameVal(after, want) {
				c.Violate(fmt.Sprintf("con:%v", e == d), c.pos(set.Pos()), "after SetCon for direction %d, GetCon for direction %d gives %s instead of %s", d, e, after, what)
			}
			if e != d {
				for f := 0; f < e; f++ {
					if b2, ok := read(st, f); ok && overlap(before, b2) {
						c.Violate("con:overlap", c.pos(get.Pos()), "GetCon for the directions %d and %d reads common bits", f, e)
					}
				}
			}
		}
		// other fields of the span
		ps := map[string]types.Type{}
		aggPaths(c.typ("recast", "CompactSpan"), "", ps)
		for f, t := range ps {
			if f == ".Con" {
				continue
			}
			if a, b := bs.load(o.st, "s"+f, t), bs.load(st, "s"+f, t); a.String() != b.String() {
				c.Violate("con:other", c.pos(set.Pos()), "SetCon changes %s to %s", f, a)
			}
		}
	}
	// area and type of a polygon
	u8 := types.Typ[types.Uint8]
	p := bval{kind: "ptr", o: "p"}
	m := func(n string) *ssa.Function { return c.fn("detour", "Poly."+n) }
	get2 := func(from *bstate, n string) (bval, bool) {
		o, ok := simulate(c, bs, from, m(n), p)
		if !ok {
			return bval{}, false
		}
		return o.res[0], true
	}
	for _, t := range []struct {
		set, get, other string
		n               int
	}{{"SetArea", "Area", "Type", 6}, {"SetType", "Type", "Area", 2}} {
		st := &bstate{mem: map[string]bval{}, conds: map[string]bool{}}
		in := bInput("value", t.n, u8)
		o, ok := simulate(c, bs, st, m(t.set), p, in)
		if !ok {
			return
		}
		after, ok1 := get2(o.st, t.get)
		oAfter, ok2 := get2(o.st, t.other)
		oBefore, ok3 := get2(st, t.other)
		if !ok1 || !ok2 || !ok3 {
			return
		}
		c.Count("write and read pairs", 2)
		c.Count("bits followed", 8)
		if !sameVal(after, in) {
			c.Violate("poly:"+t.set, c.pos(m(t.set).Pos()), "after %s, %s gives %s instead of the value", t.set, t.get, after)
		}
		if !sameVal(oAfter, oBefore) {
			c.Violate("poly:"+t.set+":"+t.other, c.pos(m(t.set).Pos()), "%s changes the result of %s from %s to %s", t.set, t.other, oBefore, oAfter)
		}
		// values out of range do not spill over either
		o, ok = simulate(c, bs, st, m(t.set), p, bInput("value", 8, u8))
		if !ok {
			return
		}
		if v, ok := get2(o.st, t.other); ok && !sameVal(v, oBefore) {
			c.Violate("poly:"+t.set+":spill", c.pos(m(t.set).Pos()), "%s with a value out of range changes the result of %s to %s", t.set, t.other, v)
		}
		c.Sample("%s then %s: %s; %s: %s", t.set, t.get, after, t.other, oAfter)
	}
}

// overlap tells whether two values depend on a common input bit.
func overlap(a, b bval) bool {
	set := map[string]bool{}
	for _, x := range a.bits {
		for _, p := range x.ps {
			for _, q := range strings.Split(p, "∧") {
				if q != "" {
					set[q] = true
				}
			}
		}
	}
	for _, x := range b.bits {
		for _, p := range x.ps {
			for _, q := range strings.Split(p, "∧") {
				if set[q] {
					return true
				}
			}
		}
	}
	return false
}

func runQ09(c *Ctx) {
	m := func(n string) *ssa.Function { return c.fn("detour", "StandardQueryFilter."+n) }
	bs := newBitsim(c)
	qf := bval{kind: "ptr", o: "qf"}
	u16 := types.Typ[types.Uint16]
	nilp := bval{kind: "ptr", o: "tile"}
	st := &bstate{mem: map[string]bval{}, conds: map[string]bool{}}
	// the value under the name of its getter
	getter := func(from *bstate, n string, args ...bval) (bval, bool) {
		o, ok := simulate(c, bs, from, m(n), append([]bval{qf}, args...)...)
		if !ok || len(o.res) != 1 {
			return bval{}, false
		}
		return o.res[0], true
	}
	inc, ok1 := getter(st, "IncludeFlags")
	exc, ok2 := getter(st, "ExcludeFlags")
	if !ok1 || !ok2 {
		return
	}
	// PassFilter
	pf := m("PassFilter")
	flags := bInput("flags", 16, u16)
	st1 := st.clone()
	st1.mem["poly.Flags"] = flags
	meet := func(x bval) string {
		v := bval{kind: "int"}
		for i := range x.bits {
			v.bits = append(v.bits, andBit(flags.bits[i], x.bits[i]))
		}
		k, _ := bs.nonzero(v).cond()
		return k
	}
	ki, ke := meet(inc), meet(exc)
	outs, err := bs.call(pf, st1, qf, bInput("ref", 32, c.typ("detour", "PolyRef")), nilp, bval{kind: "ptr", o: "poly"})
	if err != nil {
		c.Undecided("bits:PassFilter", c.pos(pf.Pos()), "bit provenance of PassFilter: %v", err)
		return
	}
	for _, o := range outs {
		for _, d := range bs.decide(o.st, o.res[0]) {
			c.Count("paths of the filter", 1)
			has := func(k string, v bool) bool { w, ok := d.st.conds[k]; return ok && w == v }
			if d.val && !(has(ki, true) && has(ke, false)) {
				c.Violate("pass:true", c.pos(pf.Pos()), "PassFilter answers true on a path that does not establish that the polygon has an include flag and no exclude flag; decided: %s", strings.Join(d.st.order, "; "))
			}
			if !d.val && !(has(ki, false) || has(ke, true)) {
				c.Violate("pass:false", c.pos(pf.Pos()), "PassFilter answers false on a path that does not establish that the polygon has no include flag, or an exclude flag; decided: %s", strings.Join(d.st.order, "; "))
			}
		}
	}
	// setters and getters
	i32 := types.Typ[types.Int32]
	maxAreas := int(c.constVal("detour", "maxAreas"))
	type prop struct {
		get string
		arg []bval
	}
	var props []prop
	props = append(props, prop{"IncludeFlags", nil}, prop{"ExcludeFlags", nil})
	for a := 0; a < maxAreas; a++ {
		props = append(props, prop{"AreaCost", []bval{bInt(int64(a), i32)}})
	}
	check := func(set string, args []bval, which prop) {
		o, ok := simulate(c, bs, st, m(set), append([]bval{qf}, args...)...)
		if !ok {
			return
		}
		for _, p := range props {
			after, ok := getter(o.st, p.get, p.arg...)
			before, ok2 := getter(st, p.get, p.arg...)
			if !ok || !ok2 {
				return
			}
			same := p.get == which.get && (len(p.arg) == 0 || sameVal(p.arg[0], which.arg[0]))
			want := before
			if same {
				want = args[len(args)-1]
			}
			if after.String() != want.String() {
				c.Violate("setter:"+set+":"+p.get, c.pos(m(set).Pos()), "after %s, %s gives %s instead of %s", set, p.get, after, want)
			}
			c.Count("setter and getter pairs", 1)
		}
	}
	check("SetIncludeFlags", []bval{bInput("new", 16, u16)}, props[0])
	check("SetExcludeFlags", []bval{bInput("new", 16, u16)}, props[1])
	for a := 0; a < maxAreas; a++ {
		check("SetAreaCost", []bval{bInt(int64(a), i32), {kind: "expr", expr: "cost"}}, props[2+a])
	}
	// Cost
	cost := m("Cost")
	bs.opaque = func(f *ssa.Function) bool { return f.Name() == "Dist" }
	var args []bval
	for i, p := range cost.Params {
		if i == 0 {
			args = append(args, qf)
			continue
		}
		args = append(args, bs.input(p.Name(), p.Type()))
	}
	if len(args) != 12 {
		c.Undecided("cost:signature", c.pos(cost.Pos()), "Cost has %d parameters", len(args))
		return
	}
	co, ok := simulate(c, bs, st, cost, args...)
	if !ok {
		return
	}
	area, ok := simulate(c, bs, co.st, c.fn("detour", "Poly.Area"), args[8])
	if !ok {
		return
	}
	ds := []string{args[1].String(), args[2].String()}
	dist := "Dist(" + ds[0] + ", " + ds[1] + ")"
	if ds[0] > ds[1] {
		dist = "Dist(" + ds[1] + ", " + ds[0] + ")"
	}
	idx := bs.convert(area.res[0], types.Typ[types.Uint8], types.Typ[types.Int32])
	var wants []string
	for _, v := range []bval{area.res[0], idx} {
		ac := "*qf.areaCost" + bs.index(v)
		x, y := dist, ac
		if x > y {
			x, y = y, x
		}
		wants = append(wants, "("+x+" * "+y+")")
	}
	c.Count("cost results", 1)
	got := co.res[0].String()
	if got != wants[0] && got != wants[1] {
		c.Violate("cost", c.pos(cost.Pos()), "Cost returns %s instead of %s", got, wants[0])
	}
	c.Sample("Cost returns %s", got)
	// a new filter accepts every polygon with a flag, at cost 1
	nf := c.fn("detour", "NewStandardQueryFilter")
	no, ok := simulate(c, bs, nil, nf)
	if !ok || len(no.res) != 1 || no.res[0].kind != "ptr" {
		return
	}
	qf = no.res[0]
	if v, ok := getter(no.st, "IncludeFlags"); ok && !sameVal(v, bInt(0xffff, u16)) {
		c.Violate("new:include", c.pos(nf.Pos()), "a new filter includes %s instead of all flags", v)
	}
	if v, ok := getter(no.st, "ExcludeFlags"); ok && !sameVal(v, bInt(0, u16)) {
		c.Violate("new:exclude", c.pos(nf.Pos()), "a new filter excludes %s instead of no flag", v)
	}
	for a := 0; a < maxAreas; a++ {
		if v, ok := getter(no.st, "AreaCost", bInt(int64(a), i32)); ok && v.String() != "1" {
			c.Violate("new:cost", c.pos(nf.Pos()), "a new filter has the cost %s for area %d instead of 1", v, a)
		}
	}
}

// nonzero is the condition that v is not zero.
func (bs *bitsim) nonzero(v bval) bval {
	z := bval{kind: "int", bits: make([]abit, len(v.bits))}
	for i := range z.bits {
		z.bits[i] = bit0
	}
	return bs.notEqual(v, z)
}
