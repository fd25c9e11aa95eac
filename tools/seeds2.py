# Planted bugs, second batch. See seed.py.
M='detour/mesh.go'; Q='detour/query.go'
GEO='''
func demoSpan(hf *Heightfield, x, y int32, smin, smax uint16, area uint8) {
	if !hf.addSpan(x, y, smin, smax, area, 0) {
		panic("no span")
	}
}
'''
bug('Q07-pop','Q07','detour','a sliced search that visits a polygon again after it was closed',
 'A node taken out of the open list keeps its open mark, so that a better way to it moves a node that is not in the list.',
 [(Q,1,'bestNode.Flags &= ^nodeOpen\n\t\tbestNode.Flags |= nodeClosed','bestNode.Flags |= nodeClosed')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 1000)
	f := NewStandardQueryFilter()
	ext := d3.Vec3{2, 4, 2}
	_, a, pa := q.FindNearestPoly(d3.Vec3{5, 0, 10}, ext, f)
	_, b, pb := q.FindNearestPoly(d3.Vec3{50, 0, 30}, ext, f)
	st := q.InitSlicedFindPath(a, b, pa, pb, f, 0)
	for StatusInProgress(st) {
		st = q.UpdateSlicedFindPath(1, nil)
	}
	in := map[*Node]bool{}
	for !q.openList.empty() {
		in[q.openList.pop()] = true
	}
	for i := int32(1); i <= q.nodePool.NodeCount(); i++ {
		n := q.nodePool.NodeAtIdx(i)
		if n.Flags&nodeOpen != 0 && !in[n] {
			t.Errorf("node %d is marked open but not in the open list", i)
		}
	}
}
''', 'github.com/arl/gogeo/f32/d3')
bug('Q06-clear','Q06','detour','two searches of which the first used buckets beyond the number of its nodes',
 'Clearing the node pool forgets only as many buckets as nodes were used.',
 [('detour/node.go',1,'for idx := range np.first {\n\t\tnp.first[idx] = nullIdx','for idx := int32(0); idx < np.hashSize && idx <= 4*np.nodeCount; idx++ {\n\t\tnp.first[idx] = nullIdx')],
 '''
func TestDemo(t *testing.T) {
	for ref := PolyRef(1); ref < 400; ref++ {
		np := newNodePool(256, 64)
		np.Node(ref, 0)
		np.Clear()
		if np.FindNode(ref, 0) != nil {
			t.Fatalf("node of %d still found", ref)
		}
	}
}
''')
bug('Q01-slicedtile','Q01','detour','a filter that looks at the polygon, in a sliced search',
 'The sliced search asks the filter about the neighbour with the current polygon instead of the neighbour polygon.',
 [(Q,'if !q.query.filter.PassFilter(neighbourRef, neighbourTile, neighbourPoly) {','if !q.query.filter.PassFilter(neighbourRef, neighbourTile, bestPoly) {')],
 '''
type demoFilter struct{ *StandardQueryFilter }

func (f demoFilter) PassFilter(ref PolyRef, tile *MeshTile, poly *Poly) bool {
	if ref == demoSkip {
		return f.StandardQueryFilter.PassFilter(ref, tile, poly) && poly.Flags&0x8000 == 0
	}
	return f.StandardQueryFilter.PassFilter(ref, tile, poly)
}

var demoSkip PolyRef

func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 1000)
	f := demoFilter{NewStandardQueryFilter()}
	ext := d3.Vec3{2, 4, 2}
	_, a, pa := q.FindNearestPoly(d3.Vec3{5, 0, 10}, ext, f)
	_, b, pb := q.FindNearestPoly(d3.Vec3{50, 0, 30}, ext, f)
	run := func() []PolyRef {
		st := q.InitSlicedFindPath(a, b, pa, pb, f, 0)
		for StatusInProgress(st) {
			st = q.UpdateSlicedFindPath(1, nil)
		}
		path := make([]PolyRef, 100)
		n, _ := q.FinalizeSlicedFindPath(path, 100)
		return path[:n]
	}
	p := run()
	demoSkip = p[len(p)/2]
	var tile *MeshTile
	var poly *Poly
	mesh.TileAndPolyByRefUnsafe(demoSkip, &tile, &poly)
	poly.Flags |= 0x8000
	for _, r := range run() {
		if r == demoSkip {
			t.Error("the path goes through a polygon that the filter rejects")
		}
	}
}
''', 'github.com/arl/gogeo/f32/d3')
bug('Q04-count','Q04','detour','a ray crossing more polygons than the record has room for',
 'The number of visited polygons counts polygons that were not stored.',
 [(Q,'hit.Path[n] = curRef\n\t\t\tn++\n\t\t} else {\n\t\t\tst |= BufferTooSmall\n\t\t}','hit.Path[n] = curRef\n\t\t} else {\n\t\t\tst |= BufferTooSmall\n\t\t}\n\t\tn++')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 1000)
	f := NewStandardQueryFilter()
	ext := d3.Vec3{2, 4, 2}
	_, a, pa := q.FindNearestPoly(d3.Vec3{5, 0, 10}, ext, f)
	for x := float32(0); x < 60; x += 5 {
		for z := float32(0); z < 60; z += 5 {
			var hit RaycastHit
			hit.Path = make([]PolyRef, 1)
			hit.MaxPath = 1
			q.Raycast(a, pa, d3.Vec3{x, 0, z}, f, 0, &hit, 0)
			if hit.PathCount > 1 {
				t.Fatalf("%d polygons announced, one stored", hit.PathCount)
			}
		}
	}
}
''', 'github.com/arl/gogeo/f32/d3')
bug('Q05-details','Q05','detour','a sliced search that runs out of nodes and still reaches its goal',
 'Reaching the goal drops the out-of-nodes flag of a sliced search.',
 [(Q,0,'details := q.query.status & StatusDetailMask','details := q.query.status & (PartialResult | BufferTooSmall)')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	for max := int32(4); max < 200; max++ {
		_, q := NewNavMeshQuery(mesh, max)
		f := NewStandardQueryFilter()
		ext := d3.Vec3{2, 4, 2}
		_, a, pa := q.FindNearestPoly(d3.Vec3{5, 0, 10}, ext, f)
		_, b, pb := q.FindNearestPoly(d3.Vec3{50, 0, 30}, ext, f)
		st := q.InitSlicedFindPath(a, b, pa, pb, f, 0)
		out := false
		for StatusInProgress(st) {
			out = out || st&OutOfNodes != 0
			st = q.UpdateSlicedFindPath(1, nil)
		}
		if out && st&OutOfNodes == 0 {
			t.Fatalf("%d nodes: out of nodes, but the final status is %x", max, uint32(st))
		}
	}
}
''', 'github.com/arl/gogeo/f32/d3')
bug('K11-propagate','K11','recast','three unwalkable spans above a walkable one, each within the climb of the next',
 'The filter of low obstacles lets walkability spread past several unwalkable spans.',
 [('recast/filter.go','previousWalkable = walkable\n\t\t\t\tpreviousArea = s.area','previousArea = s.area\n\t\t\t\tpreviousWalkable = previousArea != nullArea')],
 '''
func TestDemo(t *testing.T) {
	hf := NewHeightfield(1, 1, []float32{0, 0, 0}, []float32{1, 20, 1}, 1, 1)
	demoSpan(hf, 0, 0, 0, 2, 5)
	demoSpan(hf, 0, 0, 4, 6, nullArea)
	demoSpan(hf, 0, 0, 8, 10, nullArea)
	FilterLowHangingWalkableObstacles(NewBuildContext(false), 4, hf)
	s := hf.Spans[0]
	if s.next.area != 5 {
		t.Errorf("area of the obstacle: %d", s.next.area)
	}
	if s.next.next.area != nullArea {
		t.Errorf("area of the span above the obstacle: %d", s.next.next.area)
	}
}
'''+GEO)
bug('P01-layer','P01','detour','a tile with a layer other than its user identifier',
 'Reading a saved mesh swaps the layer and the user identifier of a tile.',
 [('detour/structs.go','s.Layer = int32(little.Uint32(src[off+16:]))\n\ts.UserID = little.Uint32(src[off+20:])','s.Layer = int32(little.Uint32(src[off+20:]))\n\ts.UserID = little.Uint32(src[off+16:])')],
 '''
func TestDemo(t *testing.T) {
	h := MeshHeader{X: 1, Y: 2, Layer: 3, UserID: 4}
	buf := make([]byte, 200)
	h.serialize(buf)
	var g MeshHeader
	g.unserialize(buf)
	if g.Layer != 3 || g.UserID != 4 {
		t.Errorf("layer %d, user %d", g.Layer, g.UserID)
	}
}
''')
bug('B06-ten','B06','detour','a mesh whose tiles and polygons leave seven bits for the salt',
 'A mesh with less than 8 salt bits is accepted.',
 [(M,'if m.saltBits < 8 {','if m.saltBits < 7 {')],
 '''
func TestDemo(t *testing.T) {
	var m NavMesh
	if st := m.Init(&NavMeshParams{TileWidth: 1, TileHeight: 1, MaxTiles: 1 << 5, MaxPolys: 1 << 20}); !StatusFailed(st) {
		t.Errorf("%x with %d salt bits", uint32(st), m.saltBits)
	}
}
''')
bug('C05-origin','C05','detour','a caller that reuses its start position between the steps of a sliced search',
 'The first node of a sliced search refers to the position of the caller instead of copying it.',
 [(Q,'copy(startNode.Pos, startPos)','startNode.Pos = startPos')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 1000)
	f := NewStandardQueryFilter()
	ext := d3.Vec3{2, 4, 2}
	_, a, pa := q.FindNearestPoly(d3.Vec3{5, 0, 10}, ext, f)
	_, b, pb := q.FindNearestPoly(d3.Vec3{50, 0, 30}, ext, f)
	q.InitSlicedFindPath(a, b, pa, pb, f, 0)
	x := pa[0]
	pa[0] += 1000
	if n := q.nodePool.FindNode(a, 0); n.Pos[0] != x {
		t.Errorf("the position of the start node changed from %v to %v", x, n.Pos[0])
	}
}
''', 'github.com/arl/gogeo/f32/d3')
bug('Q08-boundary','Q08','detour','a position exactly on a corner of the polygon',
 'The closest point on the boundary is left unset for positions on the boundary.',
 [(Q,1,'d3.Vec3Lerp(closest, va, vb, edget[imin])','if dmin > 0 {\n\t\t\td3.Vec3Lerp(closest, va, vb, edget[imin])\n\t\t}')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 1000)
	f := NewStandardQueryFilter()
	_, a, _ := q.FindNearestPoly(d3.Vec3{5, 0, 10}, d3.Vec3{2, 4, 2}, f)
	var tile *MeshTile
	var poly *Poly
	mesh.TileAndPolyByRefUnsafe(a, &tile, &poly)
	for i := 0; i < int(poly.VertCount); i++ {
		v := d3.NewVec3From(tile.Verts[3*int(poly.Verts[i]) : 3*int(poly.Verts[i])+3])
		got := d3.Vec3{-1000, -1000, -1000}
		if st := q.ClosestPointOnPolyBoundary(a, v, got); StatusFailed(st) {
			t.Fatal(st)
		}
		if got[0] == -1000 {
			t.Errorf("no closest point for corner %d", i)
		}
	}
}
''', 'github.com/arl/gogeo/f32/d3')
