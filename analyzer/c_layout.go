package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P01", Run: runP01,
		Rule:  "Abstract interpretation of the writer (NavMesh.ToWriter) and of the reader (Decode, AddTile) over affine buffer offsets: each gives the set of (part of the stream, byte offset, field, byte of the field) it transfers, with loops summarized by their iteration numbers and section lengths expressed with the counts of the mesh header. The two sets are equal, every byte of every field of the saved records is in them exactly once, and the parts follow each other in the same order.",
		Floor: []Floor{{"bytes compared", 250}, {"fields covered", 60}, {"parts of the stream", 3}, {"sections", 8}}, Assum: layoutAssum})
	register(&Check{ID: "P02", Run: runP02,
		Rule:  "The set of (part, byte offset, field, byte) that NavMesh.ToWriter writes, computed by abstract interpretation over affine buffer offsets, is the one of the table of Detour's binary layout, and the magic numbers and versions written are Detour's.",
		Floor: []Floor{{"bytes compared", 460}, {"sections", 8}, {"sections of created data", 8}, {"constants", 10}}, Assum: layoutAssum})
}

var layoutAssum = []string{"the counts of the mesh header of a tile are the lengths of its sections divided as AddTile makes them (they are not changed in between)", "integer arithmetic on offsets does not overflow"}

// lkey is a byte of a part of the stream.
type lkey struct {
	part int
	off  string
}

// lrec is what is known of a byte of the stream.
type lrec struct {
	place string // canonical place and byte
	k     int
	n     int // constant byte, when place is empty
	pos   string
	alt   string // the place of the encoder's own object it was copied through
	loops string // the iterations it is in, with their number
}

type lside struct {
	recs        map[lkey][]lrec
	parts       []string // shape of the stream: one entry per operation, with the number of loops it is in
	lens        map[string]aff
	undec       []string
	resolve     func(src lref) ([]lref, string) // follows the copies through the encoder's own objects
	visited     int
	conditional [][2]string // position and construct of transfers that may be skipped
}

// skippable finds the transfers that a path may skip: those of a region of
// control flow that are not in every path that goes on to the next transfer, to
// the next iteration, or to the end of a function that only transfers.
func skippable(c *Ctx, l *layouter, relevant []bool, write bool) [][2]string {
	type frame struct {
		f    *ssa.Function
		loop *region
		bs   []*ssa.BasicBlock
		pos  map[*ssa.BasicBlock]string
	}
	frames := map[int]*frame{}
	var ids []int
	for _, sp := range l.spans {
		for i := sp.start; i < sp.end; i++ {
			if relevant[i] {
				fr := frames[sp.id]
				if fr == nil {
					fr = &frame{f: sp.f, loop: sp.loop, pos: map[*ssa.BasicBlock]string{}}
					frames[sp.id] = fr
					ids = append(ids, sp.id)
				}
				if fr.pos[sp.b] == "" {
					fr.bs = append(fr.bs, sp.b)
				}
				fr.pos[sp.b] = l.events[i].pos
				break
			}
		}
	}
	streamIn := map[*ssa.Function]bool{}
	for _, s := range l.streams {
		for _, f := range s.stack {
			streamIn[f] = true
		}
	}
	sort.Ints(ids)
	var r [][2]string
	for _, id := range ids {
		fr := frames[id]
		// blocks in the order of the region: each dominates the next
		for i := 0; i+1 < len(fr.bs); i++ {
			if !fr.bs[i].Dominates(fr.bs[i+1]) {
				r = append(r, [2]string{fr.pos[fr.bs[i]], fname(fr.f)})
			}
		}
		last := fr.bs[len(fr.bs)-1]
		if fr.loop != nil {
			if streamIn[fr.f] && last != fr.loop.header {
				continue // the loop over the tiles, some of which are empty
			}
			for _, p := range fr.loop.header.Preds {
				if fr.loop.blocks[p] && !last.Dominates(p) {
					r = append(r, [2]string{fr.pos[last], fname(fr.f)})
					break
				}
			}
			continue
		}
		only := true // a function that has no result but an error
		rs := fr.f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if !isErrorType(rs.At(i).Type()) {
				only = false
			}
		}
		if !only || streamIn[fr.f] {
			continue
		}
		for _, b := range fr.f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || last.Dominates(b) {
				continue
			}
			if n := len(ret.Results); n > 0 {
				if k, ok := ret.Results[n-1].(*ssa.Const); !ok || k.Value != nil {
					continue
				}
			}
			r = append(r, [2]string{fr.pos[last], fname(fr.f)})
			break
		}
	}
	return r
}

// tempRoot: objects the encoder and the decoder use for themselves.
func tempRoot(r string) bool {
	r = strings.SplitN(r, "'", 2)[0]
	return r == "navMeshSetHeader" || r == "navMeshTileHeader"
}

// savedRoots: the objects that a saved navigation mesh holds.
var savedRoots = map[string]bool{"MeshTile": true, "MeshHeader": true, "NavMeshParams": true, "navMeshSetHeader": true, "navMeshTileHeader": true}

// canonPlace names a place independently of how it is reached.
func canonPlace(p *lpath) string {
	root := p.root
	if !strings.HasPrefix(root, "new'") {
		root = strings.SplitN(root, "'", 2)[0]
	}
	q := &lpath{root, p.steps, p.typ}
	for {
		s := q.steps
		switch {
		case root == "NavMesh" && len(s) >= 2 && s[0].field == "Tiles" && s[1].idx != nil:
			q = &lpath{"MeshTile", s[2:], q.typ}
			root = "MeshTile"
		case root == "NavMesh" && len(s) >= 1 && s[0].field == "Params":
			q = &lpath{"NavMeshParams", s[1:], q.typ}
			root = "NavMeshParams"
		case root == "MeshTile" && len(s) >= 2 && s[0].field == "Header":
			q = &lpath{"MeshHeader", s[1:], q.typ}
			root = "MeshHeader"
		default:
			return q.String()
		}
	}
}

// canonAff names the places in an expression.
func canonAff(a aff) aff {
	r := aff{}
	for s, n := range a {
		if s != "" {
			pre, post, t := "", "", s
			if strings.HasPrefix(t, "len(") && strings.HasSuffix(t, ")") {
				pre, post, t = "len(", ")", t[4:len(t)-1]
			}
			for _, x := range []string{"NavMesh.Tiles["} {
				if strings.HasPrefix(t, x) {
					if i := strings.Index(t, "]."); i > 0 {
						t = "MeshTile." + t[i+2:]
					}
				}
			}
			t = strings.Replace(t, "MeshTile.Header.", "MeshHeader.", 1)
			if i := strings.Index(t, "'"); i >= 0 && !strings.HasPrefix(t, "new'") {
				if j := strings.Index(t[i:], "."); j >= 0 {
					t = t[:i] + t[i+j:]
				}
			}
			s = pre + t + post
		}
		r[s] += n
	}
	for s, n := range r {
		if n == 0 {
			delete(r, s)
		}
	}
	return r
}

// side computes what a function transfers.
func layoutSide(c *Ctx, f *ssa.Function, write bool, lens map[string]aff) *lside {
	l := newLayouter(c)
	l.inline = func(g *ssa.Function, args []lval) bool { return true }
	var args []lval
	for _, p := range f.Params {
		args = append(args, l.unknown(p.Type()))
	}
	l.exec(f, args, nil, "")
	s := &lside{recs: map[lkey][]lrec{}, lens: map[string]aff{}, undec: l.undec, visited: len(l.Visited)}
	for p, n := range l.lens {
		s.lens[canonAff(affS(p)).String()] = canonAff(n)
	}
	for p, n := range lens {
		s.lens[p] = n
	}
	part := map[string]int{}
	var partLoops []int
	for _, st := range l.streams {
		if st.write != write {
			s.undec = append(s.undec, fmt.Sprintf("%s: unexpected stream operation", st.pos))
			continue
		}
		if _, dup := part[st.buf.String()]; dup {
			s.undec = append(s.undec, fmt.Sprintf("%s: the buffer is used for a second stream operation", st.pos))
			continue
		}
		part[st.buf.String()] = len(s.parts)
		s.parts = append(s.parts, fmt.Sprintf("in %d loops", len(st.loops)))
		partLoops = append(partLoops, len(st.loops))
	}
	// the copies through the encoder's own objects
	type byteKey struct {
		place string
		k     int
	}
	via := map[byteKey][]levent{}
	for _, e := range l.events {
		if write && tempRoot(e.dst.root) {
			k := byteKey{e.dst.String(), e.k}
			via[k] = append(via[k], e)
		}
		if !write && e.src.p != nil && tempRoot(e.src.p.root) {
			k := byteKey{e.src.p.String(), e.src.k}
			via[k] = append(via[k], e)
		}
	}
	inBuf := func(p *lpath) (int, bool) {
		if p == nil {
			return 0, false
		}
		pt, ok := part[p.root]
		return pt, ok && len(p.steps) == 1 && p.steps[0].idx != nil
	}
	relevant := make([]bool, len(l.events))
	defer func() { s.conditional = skippable(c, l, relevant, write) }()
	for ei, e := range l.events {
		var buf *lpath
		var src lref
		if write {
			buf, src = e.dst, e.src
		} else {
			if e.src.p == nil {
				continue
			}
			buf, src = e.src.p, lref{p: e.dst, k: e.k}
		}
		pt, ok := inBuf(buf)
		if !ok {
			continue
		}
		relevant[ei] = write
		inner := e.loops
		if partLoops[pt] <= len(inner) {
			inner = inner[partLoops[pt]:]
		}
		s.resolve = func(src lref) ([]lref, string) {
			srcs := []lref{src}
			alt := ""
			if src.p != nil && tempRoot(src.p.root) {
				vs := via[byteKey{src.p.String(), src.k}]
				if write {
					alt = fmt.Sprintf("%s#%d", canonPlace(src.p), src.k)
					if len(vs) == 1 && (vs[0].src.p != nil || vs[0].src.n >= 0) {
						srcs[0] = vs[0].src
					}
				} else {
					for _, v := range vs {
						srcs = append(srcs, lref{p: v.dst, k: v.k})
					}
				}
			}
			var r []lref
			for _, src := range srcs {
				if src.p != nil {
					cp := canonPlace(src.p)
					i := strings.IndexAny(cp, ".[")
					if i < 0 || !savedRoots[cp[:i]] {
						if !write {
							continue // not a place of the navigation mesh
						}
					} else if strings.HasPrefix(cp, "MeshTile.Data[") {
						continue
					}
				}
				relevant[ei] = true
				r = append(r, src)
			}
			return r, alt
		}
		s.add(pt, buf.steps[0].idx, src, inner, nil, "", e.pos)
	}
	return s
}

// add records a byte; loops of a small constant number of iterations are unrolled.
func (s *lside) add(pt int, off aff, src lref, loops []lloop, ren []string, shape, pos string) {
	if len(loops) == 0 {
		srcs, alt := []lref{src}, ""
		if s.resolve != nil {
			srcs, alt = s.resolve(src)
		}
		for _, src := range srcs {
			r := lrec{k: src.k, n: src.n, pos: pos, loops: shape, alt: alt}
			if src.p != nil {
				r.place = canonPlace(src.p)
			}
			k := lkey{pt, s.expand(off).String()}
			s.recs[k] = append(s.recs[k], r)
		}
		return
	}
	lp := loops[0]
	if lp.n != nil && lp.n.konst() && lp.n.k() <= 16 {
		for j := int64(0); j < lp.n.k(); j++ {
			by := affK(j)
			if j == 0 {
				by = aff{}
			}
			var rest []lloop
			for _, r := range loops[1:] {
				if r.n != nil {
					r.n = r.n.subst(lp.idx, by)
				}
				rest = append(rest, r)
			}
			s.add(pt, off.subst(lp.idx, by), lref{src.p.subst(lp.idx, by), src.k, src.n}, rest, ren, shape, pos)
		}
		return
	}
	nm := fmt.Sprintf("i%d", len(ren))
	by := affS(nm)
	n := "?"
	if lp.n != nil {
		n = s.expand(lp.n).String()
	}
	s.add(pt, off.subst(lp.idx, by), lref{src.p.subst(lp.idx, by), src.k, src.n}, loops[1:], append(append([]string(nil), ren...), nm), shape+"for "+nm+" < "+n+" ", pos)
}

// expand writes the lengths of sections with the counts of the mesh header.
func (s *lside) expand(a aff) aff {
	a = canonAff(a)
	for k := 0; k < 3; k++ {
		for sy := range a {
			if strings.HasPrefix(sy, "len(") {
				if n, ok := s.lens[sy[4:len(sy)-1]]; ok {
					a = a.subst(sy, n)
				}
			}
		}
	}
	return canonAff(a)
}

func (r lrec) String() string {
	if r.place == "" {
		if r.n < 0 {
			return "an unknown value"
		}
		return fmt.Sprintf("the constant %d", r.n)
	}
	return fmt.Sprintf("byte %d of %s", r.k, r.place)
}

func (r lrec) key() string { return r.String() + " " + r.loops }

// sections: the slices of a tile that are saved, and the type of their elements.
var layoutSections = []struct{ field, elem string }{
	{"Verts", ""}, {"Polys", "Poly"}, {"Links", "Link"}, {"DetailMeshes", "PolyDetail"},
	{"DetailVerts", ""}, {"DetailTris", ""}, {"BvTree", "BvNode"}, {"OffMeshCons", "OffMeshConnection"}}

// wantedFields: the scalars that a saved navigation mesh holds.
func wantedFields(c *Ctx) []*lpath {
	var r []*lpath
	for _, n := range []string{"MeshHeader", "NavMeshParams"} {
		t := c.typ("detour", n)
		if t == nil {
			c.Undecided("anchor:"+n, "", "type %s not found", n)
			continue
		}
		r = append(r, leaves(&lpath{root: n, typ: t})...)
	}
	if t := c.typ("detour", "MeshTile"); t != nil {
		st := t.Underlying().(*types.Struct)
		for _, s := range layoutSections {
			ok := false
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Name() == s.field {
					if sl, is := f.Type().Underlying().(*types.Slice); is {
						ok = true
						r = append(r, leaves((&lpath{root: "MeshTile", typ: t}).step(lstep{field: s.field}, f.Type()).step(lstep{idx: affS("i0")}, sl.Elem()))...)
					}
				}
			}
			if !ok {
				c.Undecided("anchor:MeshTile."+s.field, "", "MeshTile.%s is not a slice", s.field)
			}
			c.Count("sections", 1)
		}
	} else {
		c.Undecided("anchor:MeshTile", "", "type MeshTile not found")
	}
	return r
}

func sideKeys(s *lside) []lkey {
	var ks []lkey
	for k := range s.recs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].part != ks[j].part {
			return ks[i].part < ks[j].part
		}
		return ks[i].off < ks[j].off
	})
	return ks
}

// field strips the element and byte of a place, for the key of a finding.
func layoutField(r lrec) string {
	p := r.place
	if i := strings.Index(p, "["); i >= 0 {
		if j := strings.LastIndex(p, "]"); j >= 0 && j < len(p)-1 {
			p = p[:i] + p[j+1:]
		} else {
			p = p[:i]
		}
	}
	if p == "" {
		return "value"
	}
	return p
}

var partName = []string{"set header", "tile header", "tile data"}

func partStr(i int) string {
	if i < len(partName) {
		return partName[i]
	}
	return fmt.Sprintf("part %d", i)
}

func layoutUndec(c *Ctx, s *lside, what string) {
	for _, u := range s.undec {
		pos := ""
		if i := strings.Index(u, ": "); i > 0 {
			pos = u[:i]
		}
		c.Undecided(what+":"+u[strings.Index(u, ": ")+1:], pos, "%s: %s", what, u)
	}
}

func layoutSkipped(c *Ctx, s *lside, what string) {
	for _, x := range s.conditional {
		c.Violate("conditional:"+what+":"+x[1], x[0], "%s: the %s may skip this transfer on a path that goes on to the next one", x[1], what)
	}
}

func runP01(c *Ctx) {
	w := c.fn("detour", "NavMesh.ToWriter")
	r := c.fn("detour", "Decode")
	if w == nil || r == nil {
		return
	}
	R := layoutSide(c, r, false, nil)
	W := layoutSide(c, w, true, R.lens)
	checkLengths(c, R, r)
	layoutUndec(c, R, "reader")
	layoutUndec(c, W, "writer")
	layoutSkipped(c, R, "reader")
	layoutSkipped(c, W, "writer")
	c.Count("functions interpreted", R.visited+W.visited)
	c.Count("parts of the stream", len(W.parts))
	if fmt.Sprint(R.parts) != fmt.Sprint(W.parts) {
		c.Violate("parts", c.pos(w.Pos()), "the writer makes the stream of %d parts %v, the reader reads %d parts %v", len(W.parts), W.parts, len(R.parts), R.parts)
	}
	// equal sets
	for _, k := range sideKeys(W) {
		ws, rs := W.recs[k], R.recs[k]
		wr := ws[len(ws)-1]
		c.Count("bytes compared", 1)
		for _, x := range ws[:len(ws)-1] {
			if x.key() != wr.key() {
				c.Violate("overlap:"+layoutField(wr), wr.pos, "%s, offset %s: %s is written over %s (%s)", partStr(k.part), k.off, wr, x, x.pos)
			}
		}
		if len(rs) == 0 {
			c.Violate("unread:"+layoutField(wr), wr.pos, "%s, offset %s: %s is written there and the reader does not read that byte into a field", partStr(k.part), k.off, wr)
			continue
		}
		for _, x := range rs {
			if x.key() != wr.key() && fmt.Sprintf("%s#%d", x.place, x.k) != wr.alt && !(tempPlace(x.place) && wr.alt == "") {
				c.Violate("mismatch:"+layoutField(wr), wr.pos, "%s, offset %s: the writer puts %s there (%s), the reader takes it for %s (%s) at %s", partStr(k.part), k.off, wr, strings.TrimSpace(wr.loops), x, strings.TrimSpace(x.loops), x.pos)
			}
			c.Sample("%s+%s: %s", partStr(k.part), k.off, wr)
		}
	}
	for _, k := range sideKeys(R) {
		if len(W.recs[k]) == 0 {
			x := R.recs[k][0]
			c.Violate("unwritten:"+layoutField(x), x.pos, "%s, offset %s: the reader reads %s there (%s) and the writer writes nothing", partStr(k.part), k.off, x, strings.TrimSpace(x.loops))
		}
	}
	// every field, once, completely
	for _, side := range []struct {
		s    *lside
		what string
		f    *ssa.Function
	}{{W, "writer", w}, {R, "reader", r}} {
		got := map[string]int{}
		for _, rs := range side.s.recs {
			for _, x := range rs {
				if x.place != "" {
					got[fmt.Sprintf("%s#%d", x.place, x.k)]++
				}
			}
		}
		for _, p := range wantedFields(c) {
			for k := 0; k < basicSize(p.typ); k++ {
				n := got[fmt.Sprintf("%s#%d", p, k)]
				if n == 0 {
					c.Violate("lost:"+side.what+":"+layoutField(lrec{place: p.String()}), c.pos(side.f.Pos()), "the %s does not transfer byte %d of %s", side.what, k, p)
				} else if n > 1 {
					c.Violate("twice:"+side.what+":"+layoutField(lrec{place: p.String()}), c.pos(side.f.Pos()), "the %s transfers byte %d of %s %d times", side.what, k, p, n)
				}
			}
			c.Count("fields covered", 1)
		}
	}
}

func tempPlace(p string) bool {
	return strings.HasPrefix(p, "navMeshSetHeader.") || strings.HasPrefix(p, "navMeshTileHeader.")
}

// layoutField describes a scalar of Detour's layout.
type fieldSpec struct {
	place string // canonical
	width int
	pad   bool
}

func f(place string, width int) fieldSpec { return fieldSpec{place, width, false} }

func arr(place string, n, width int) []fieldSpec {
	var r []fieldSpec
	for i := 0; i < n; i++ {
		r = append(r, f(fmt.Sprintf("%s[%d]", place, i), width))
	}
	return r
}

func each(pre string, width int, names ...string) []fieldSpec {
	var r []fieldSpec
	for _, n := range names {
		r = append(r, f(pre+"."+n, width))
	}
	return r
}

func cat(xs ...[]fieldSpec) []fieldSpec {
	var r []fieldSpec
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

// The layout of Detour: DetourNavMesh.h and the NavMeshSetHeader of
// RecastDemo's Sample_TileMesh.
var (
	specSetHeader = cat(each("navMeshSetHeader", 4, "Magic", "Version", "NumTiles"),
		arr("NavMeshParams.Orig", 3, 4), each("NavMeshParams", 4, "TileWidth", "TileHeight", "MaxTiles", "MaxPolys"))
	specTileHeader = each("navMeshTileHeader", 4, "TileRef", "DataSize")
	specMeshHeader = cat(each("MeshHeader", 4, "Magic", "Version", "X", "Y", "Layer", "UserID", "PolyCount", "VertCount",
		"MaxLinkCount", "DetailMeshCount", "DetailVertCount", "DetailTriCount", "BvNodeCount", "OffMeshConCount", "OffMeshBase",
		"WalkableHeight", "WalkableRadius", "WalkableClimb"), arr("MeshHeader.BMin", 3, 4), arr("MeshHeader.BMax", 3, 4), each("MeshHeader", 4, "BvQuantFactor"))
)

type sectionSpec struct {
	name   string
	count  string // field of the mesh header
	per    int64  // elements for one of the count
	stride int64
	fields []fieldSpec
}

var specSections = []sectionSpec{
	{"Verts", "VertCount", 3, 4, []fieldSpec{f("", 4)}},
	{"Polys", "PolyCount", 1, 32, cat([]fieldSpec{f(".FirstLink", 4)}, arr(".Verts", 6, 2), arr(".Neis", 6, 2), []fieldSpec{f(".Flags", 2), f(".VertCount", 1), f(".AreaAndType", 1)})},
	{"Links", "MaxLinkCount", 1, 12, []fieldSpec{f(".Ref", 4), f(".Next", 4), f(".Edge", 1), f(".Side", 1), f(".BMin", 1), f(".BMax", 1)}},
	{"DetailMeshes", "DetailMeshCount", 1, 12, []fieldSpec{f(".VertBase", 4), f(".TriBase", 4), f(".VertCount", 1), f(".TriCount", 1)}},
	{"DetailVerts", "DetailVertCount", 3, 4, []fieldSpec{f("", 4)}},
	{"DetailTris", "DetailTriCount", 4, 1, []fieldSpec{f("", 1)}},
	{"BvTree", "BvNodeCount", 1, 16, cat(arr(".BMin", 3, 2), arr(".BMax", 3, 2), []fieldSpec{f(".I", 4)})},
	{"OffMeshCons", "OffMeshConCount", 1, 36, cat(arr(".Pos", 6, 4), []fieldSpec{f(".Rad", 4), f(".Poly", 2), f(".Flags", 1), f(".Side", 1), f(".UserID", 4)})},
}

// specKeys gives the table as records; counts are named by the count function.
func specRecords(count func(s sectionSpec) aff, place func(s sectionSpec) string) (map[lkey]lrec, aff) {
	m := map[lkey]lrec{}
	put := func(part int, off aff, fs []fieldSpec, pre, loops string) {
		o := int64(0)
		for _, x := range fs {
			for k := 0; k < x.width; k++ {
				m[lkey{part, off.add(affK(o), 1).String()}] = lrec{place: pre + x.place, k: k, loops: loops}
				o++
			}
		}
	}
	put(0, aff{}, specSetHeader, "", "")
	put(1, aff{}, specTileHeader, "", "")
	put(2, aff{}, specMeshHeader, "", "")
	off := affK(100)
	for _, s := range specSections {
		n := aff{}.add(count(s), s.per)
		put(2, off.add(affS("i0"), s.stride), s.fields, place(s)+"[i0]", "for i0 < "+n.String()+" ")
		off = off.add(n, s.stride)
	}
	return m, off
}

func runP02(c *Ctx) {
	w := c.fn("detour", "NavMesh.ToWriter")
	r := c.fn("detour", "CreateNavMeshData")
	if w == nil || r == nil {
		return
	}
	// the lengths of the sections of a tile, in the table
	lens := map[string]aff{}
	for _, s := range specSections {
		lens["MeshTile."+s.name] = aff{"MeshHeader." + s.count: s.per}
	}
	W := layoutSide(c, w, true, lens)
	layoutUndec(c, W, "writer")
	layoutSkipped(c, W, "writer")
	if len(W.parts) != 3 || W.parts[0] != "in 0 loops" || W.parts[1] != "in 1 loops" || W.parts[2] != "in 1 loops" {
		c.Violate("parts", c.pos(w.Pos()), "the writer makes the stream of the parts %v; Detour's has a set header, then a tile header and the tile data for each tile", W.parts)
	}
	spec, _ := specRecords(func(s sectionSpec) aff { return affS("MeshHeader." + s.count) }, func(s sectionSpec) string { return "MeshTile." + s.name })
	c.compareSpec(W, spec, w, "writer")
	// what the reader takes the lengths of the sections for
	if dec := c.fn("detour", "Decode"); dec != nil {
		checkLengths(c, layoutSide(c, dec, false, nil), dec)
	}
	// constants
	for _, k := range []struct {
		place string
		want  uint32
	}{{"navMeshSetHeader.Magic", 'M'<<24 | 'S'<<16 | 'E'<<8 | 'T'}, {"navMeshSetHeader.Version", 1}} {
		for b := 0; b < 4; b++ {
			ok := false
			for _, rs := range W.recs {
				for _, x := range rs {
					if x.alt == fmt.Sprintf("%s#%d", k.place, b) && x.place == "" && x.n == int(uint8(k.want>>(8*b))) {
						ok = true
					}
				}
			}
			c.Count("constants", 1)
			if !ok {
				c.Violate("constant:"+k.place, c.pos(w.Pos()), "byte %d of %s is not written as %#x, the value of Detour", b, k.place, uint8(k.want>>(8*b)))
			}
		}
	}
	c.createLayout(r)
}

// checkLengths: the reader makes each section with the length of its count.
func checkLengths(c *Ctx, R *lside, f *ssa.Function) {
	for _, s := range specSections {
		c.Count("sections", 1)
		got, want := R.lens["MeshTile."+s.name], aff{"MeshHeader." + s.count: s.per}
		if got == nil || !got.eq(want) {
			c.Violate("length:"+s.name, c.pos(f.Pos()), "the reader makes %s with %v elements; the mesh header announces %v", s.name, got, want)
		}
	}
}

// compareSpec compares what is written with the table.
func (c *Ctx) compareSpec(W *lside, spec map[lkey]lrec, w *ssa.Function, what string) {
	for _, k := range sideKeys(W) {
		ws := W.recs[k]
		wr := ws[len(ws)-1]
		c.Count("bytes compared", 1)
		x, ok := spec[k]
		if !ok {
			if wr.place == "" && wr.n == 0 {
				continue // padding
			}
			c.Violate("extra:"+what+":"+layoutField(wr), wr.pos, "%s, offset %s: %s is written there (%s); in Detour's layout nothing is", partStr(k.part), k.off, wr, strings.TrimSpace(wr.loops))
			continue
		}
		if wr.alt != fmt.Sprintf("%s#%d", x.place, x.k) && wr.key() != x.key() {
			c.Violate("layout:"+what+":"+layoutField(x), wr.pos, "%s, offset %s: %s is written there (%s); in Detour's layout this is %s (%s)", partStr(k.part), k.off, wr, strings.TrimSpace(wr.loops), x, strings.TrimSpace(x.loops))
		}
	}
	for k, x := range spec {
		if len(W.recs[k]) == 0 {
			c.Violate("missing:"+what+":"+layoutField(x), c.pos(w.Pos()), "%s, offset %s: nothing is written there; in Detour's layout this is %s (%s)", partStr(k.part), k.off, x, strings.TrimSpace(x.loops))
		}
	}
}

// createLayout: the data that CreateNavMeshData makes has the layout, with the
// counts it stores in the mesh header.
func (c *Ctx) createLayout(f *ssa.Function) {
	l := newLayouter(c)
	l.inline = func(g *ssa.Function, args []lval) bool { return true }
	var args []lval
	for _, p := range f.Params {
		args = append(args, l.unknown(p.Type()))
	}
	rs := l.exec(f, args, nil, "")
	for _, u := range l.undec {
		c.Undecided("created:"+u, c.pos(f.Pos()), "%s: %s", fname(f), u)
	}
	if len(rs) == 0 || rs[0].slice == nil || rs[0].off == nil || len(rs[0].off) > 0 {
		c.Undecided("created", c.pos(f.Pos()), "the data that %s returns is not a buffer that it makes", fname(f))
		return
	}
	buf := rs[0].slice.root
	s := &lside{recs: map[lkey][]lrec{}, lens: map[string]aff{}}
	hdr := ""
	type placeByte struct {
		place string
		k     int
	}
	fields := map[placeByte]lref{}
	for _, e := range l.events {
		if strings.HasPrefix(e.dst.root, "MeshHeader") && e.src.p != nil {
			fields[placeByte{e.src.p.String(), e.src.k}] = lref{p: e.dst, k: e.k}
		}
	}
	for _, e := range l.events {
		if e.src.p != nil && !strings.HasPrefix(e.src.p.root, "MeshHeader") {
			if r, ok := fields[placeByte{e.src.p.String(), e.src.k}]; ok {
				e.src = r
			}
		}
		if e.dst.root != buf || len(e.dst.steps) != 1 || e.dst.steps[0].idx == nil {
			continue
		}
		s.add(2, e.dst.steps[0].idx, e.src, e.loops, nil, "", e.pos)
		if e.src.p != nil && strings.HasPrefix(e.src.p.root, "MeshHeader") {
			hdr = e.src.p.root
		}
	}
	spec, total := specRecords(func(x sectionSpec) aff {
		if v, ok := l.mem[hdr+"."+x.count]; ok && v.a != nil {
			return v.a
		}
		return affS(hdr + "." + x.count)
	}, func(x sectionSpec) string { return "MeshTile." + x.name })
	for k := range spec {
		if k.part != 2 {
			delete(spec, k)
		}
	}
	// the arrays of the sections
	arrays := map[string]string{}
	for _, k := range sideKeys(s) {
		x, ok := spec[k]
		if !ok || !strings.HasPrefix(x.place, "MeshTile.") {
			continue
		}
		for i, r := range s.recs[k] {
			j := strings.Index(r.place, "[")
			if !strings.HasPrefix(r.place, "new'") || j < 0 {
				continue
			}
			sec := x.place[:strings.Index(x.place, "[")]
			if a, ok := arrays[sec]; !ok {
				arrays[sec] = r.place[:j]
			} else if a != r.place[:j] {
				c.Violate("created:"+sec, r.pos, "%s takes the bytes of %s from two arrays", fname(f), sec)
			}
			s.recs[k][i].place = sec + r.place[j:]
		}
	}
	c.Count("sections of created data", len(arrays))
	c.compareSpec(s, spec, f, "CreateNavMeshData")
	for _, k := range []struct {
		field string
		want  int64
	}{{"Magic", 'D'<<24 | 'N'<<16 | 'A'<<8 | 'V'}, {"Version", 7}} {
		c.Count("constants", 1)
		if v := l.mem[hdr+"."+k.field]; v.a == nil || !v.a.konst() || v.a.k() != k.want {
			c.Violate("created:"+k.field, c.pos(f.Pos()), "%s writes %v as the %s of the mesh header; Detour's is %d", fname(f), v.a, strings.ToLower(k.field), k.want)
		}
	}
	// with the optional sections, as their lengths are counted
	made := l.made[buf]
	for sy := range made {
		if o, ok := l.option[sy]; ok && total[sy] == 0 {
			made = made.subst(sy, o)
		}
	}
	if made == nil || !made.eq(total) {
		c.Violate("created:size", c.pos(f.Pos()), "%s makes data of %v bytes; its mesh header and sections have %v", fname(f), made, total)
	}
}
