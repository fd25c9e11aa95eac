# Planted bugs, fifth batch. See seed.py.
M='detour/mesh.go'; Q='detour/query.go'
exec(open('/verif/tools/seeds3.py').read().split("bug('R05-layer'")[0].split('# Planted bugs, third batch. See seed.py.')[1])
HEAP='''
func demoQueue(t *testing.T, n int, cheaper func(i int) bool) {
	rnd := rand.New(rand.NewSource(5))
	for round := 0; round < 200; round++ {
		q := newnodeQueue(int32(n))
		nodes := make([]Node, n)
		for i := range nodes {
			nodes[i].Total = float32(rnd.Intn(1000))
			q.push(&nodes[i])
		}
		for i := range nodes {
			if cheaper != nil && cheaper(i) {
				nodes[i].Total = nodes[i].Total / 4096
				q.modify(&nodes[i])
			}
		}
		last := float32(-1)
		seen := map[*Node]bool{}
		for !q.empty() {
			node := q.pop()
			if node.Total < last {
				t.Fatalf("a node with total %v comes after one with %v", node.Total, last)
			}
			if seen[node] {
				t.Fatalf("the same node twice")
			}
			seen[node] = true
			last = node.Total
		}
		if len(seen) != n {
			t.Fatalf("%d nodes out of %d", len(seen), n)
		}
	}
}
'''
bug('Q11-child','Q11','detour','a list in which the last node is a second child',
 'Taking the cheapest node overlooks the last node of the list when it is the cheaper of two children.',
 [('detour/nodequeue.go','if ((child + 1) < q.size) &&','if ((child + 2) < q.size) &&')],
 HEAP+'''
func TestDemo(t *testing.T) {
	demoQueue(t, 40, nil)
}
''',"math/rand")
bug('Q11-modify','Q11','detour','a node that becomes cheaper while it is the last one of the open list',
 'The last node of the list is not moved when it has become cheaper.',
 [('detour/nodequeue.go','for i := int32(0); i < q.size; i++ {','for i := int32(0); i+1 < q.size; i++ {')],
 HEAP+'''
func TestDemo(t *testing.T) {
	demoQueue(t, 40, func(i int) bool { return i == 39 })
}
''',"math/rand")
bug('C05-orig','C05','detour','changing the parameters after the mesh was initialized with them',
 'The mesh keeps the origin in the memory of the caller, so that reusing the parameters moves its tiles.',
 [(M,'m.Orig = d3.NewVec3From(params.Orig[0:3])','m.Orig = d3.Vec3(params.Orig[0:3])')],
 '''
func TestDemo(t *testing.T) {
	params := NavMeshParams{TileWidth: 10, TileHeight: 10, MaxTiles: 4, MaxPolys: 16}
	var m NavMesh
	if st := m.Init(&params); StatusFailed(st) {
		t.Fatalf("init: 0x%x", st)
	}
	if x, y := m.CalcTileLoc([]float32{15, 0, 25}); x != 1 || y != 2 {
		t.Fatalf("tile %d,%d", x, y)
	}
	params.Orig[0], params.Orig[2] = 100, 100
	if x, y := m.CalcTileLoc([]float32{15, 0, 25}); x != 1 || y != 2 {
		t.Errorf("tile %d,%d after the parameters are reused", x, y)
	}
}
''')
SEARCH='''
func demoNodes(t *testing.T, opts int, step int, check func(q *NavMeshQuery, end PolyRef, endPos d3.Vec3)) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 2000)
	f := NewStandardQueryFilter()
	ext := d3.Vec3{2, 4, 2}
	for x := float32(10); x < 60; x += 5 {
		_, a, pa := q.FindNearestPoly(d3.Vec3{5, 0, 10}, ext, f)
		_, b, pb := q.FindNearestPoly(d3.Vec3{x, 0, x / 2}, ext, f)
		if a == 0 || b == 0 || a == b {
			continue
		}
		if step == 0 {
			path := make([]PolyRef, 500)
			if _, st := q.FindPath(a, b, pa, pb, f, path); StatusFailed(st) {
				t.Fatalf("status 0x%x", st)
			}
		} else {
			st := q.InitSlicedFindPath(a, b, pa, pb, f, uint32(opts))
			q.query.raycastLimitSqr = 1e6
			for i := 0; i < 10000 && StatusInProgress(st); i++ {
				st = q.UpdateSlicedFindPath(step, nil)
			}
			if !StatusSucceed(st) {
				t.Fatalf("status 0x%x", st)
			}
		}
		check(q, b, pb)
	}
}

func demoCosts(t *testing.T) func(q *NavMeshQuery, end PolyRef, endPos d3.Vec3) {
	return func(q *NavMeshQuery, end PolyRef, endPos d3.Vec3) {
		for i := int32(1); i <= q.nodePool.NodeCount(); i++ {
			n := q.nodePool.NodeAtIdx(i)
			p := q.nodePool.NodeAtIdx(int32(n.PIdx))
			if p == nil || n.Flags == 0 {
				continue
			}
			want := p.Cost + p.Pos.Dist(n.Pos)
			if n.ID == end {
				want += n.Pos.Dist(endPos)
			}
			if n.Cost < want-0.01 {
				t.Fatalf("polygon 0x%x: cost %v, at least %v expected (end polygon: %v)", n.ID, n.Cost, want, n.ID == end)
			}
		}
	}
}
'''
bug('Q10-raycost','Q10','detour','a sliced search with shortcuts by ray casts',
 'A node reached by a ray cast from the parent costs only the ray cast, whatever it took to get to the parent.',
 [(Q,'cost = parentNode.Cost + rayHit.PathCost','cost = rayHit.PathCost')],
 SEARCH+'''
func TestDemo(t *testing.T) {
	demoNodes(t, FindPathAnyAngle, 1, demoCosts(t))
}
''','github.com/arl/gogeo/f32/d3')
bug('Q10-endcost','Q10','detour','several ways into the end polygon, and an end position far from where they enter it',
 'The cost of the last node leaves out the way to the end position.',
 [(Q,'cost = bestNode.Cost + curCost + endCost\n','cost = bestNode.Cost + curCost\n\t\t\t\theuristic = endCost\n'),(Q,0,'				heuristic = 0\n			} else {\n				// Cost\n','			} else {\n				// Cost\n')],
 SEARCH+'''
func TestDemo(t *testing.T) {
	demoNodes(t, 0, 0, demoCosts(t))
}
''','github.com/arl/gogeo/f32/d3')
bug('Q10-budget','Q10','detour','a sliced search that is updated one iteration at a time',
 'An update of a sliced search makes one iteration less than it may, so that one allowed to make one never gets anywhere.',
 [(Q,'for iter < maxIter && !q.openList.empty() {','for iter+1 < maxIter && !q.openList.empty() {')],
 SEARCH+'''
func TestDemo(t *testing.T) {
	demoNodes(t, 0, 1, demoCosts(t))
}
''','github.com/arl/gogeo/f32/d3')
FINAL=SEARCH+'''
func demoPath(t *testing.T, partial bool) func(q *NavMeshQuery, end PolyRef, endPos d3.Vec3) {
	return func(q *NavMeshQuery, end PolyRef, endPos d3.Vec3) {
		start := q.query.startRef
		var (
			path [500]PolyRef
			n    int
			st   Status
		)
		if partial {
			n, st = q.FinalizeSlicedFindPathPartial([]PolyRef{start, end}, 2, path[:], len(path))
		} else {
			n, st = q.FinalizeSlicedFindPath(path[:], len(path))
		}
		if StatusFailed(st) || n == 0 || path[0] != start {
			t.Fatalf("status 0x%x, %d polygons from 0x%x, start 0x%x", st, n, path[0], start)
		}
		if st&(PartialResult|BufferTooSmall) == 0 && path[n-1] != end {
			t.Fatalf("the path ends at 0x%x, not at 0x%x", path[n-1], end)
		}
		for i := 1; i < n; i++ {
			if path[i] == path[i-1] {
				t.Fatalf("0x%x is twice in the path, %d of %d", path[i], i, n)
			}
			var tile *MeshTile
			var poly *Poly
			q.nav.TileAndPolyByRefUnsafe(path[i-1], &tile, &poly)
			near := false
			for l := poly.FirstLink; l != nullLink; l = tile.Links[l].Next {
				near = near || tile.Links[l].Ref == path[i]
			}
			if !near {
				t.Fatalf("0x%x, %d of %d, is no neighbour of the polygon before it", path[i], i, n)
			}
		}
	}
}
'''
bug('Q12-duplicate','Q12','detour','a sliced search with shortcuts by ray casts',
 'The last polygon of a ray cast, which is the first one of what follows, is stored twice.',
 [(Q,'m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)\n\t\t\t\tn += m\n\t\t\t\t// raycast ends on poly boundary and the path might include the next poly boundary.\n\t\t\t\tif n > 0 && path[n-1] == next.ID {','m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)\n\t\t\t\tn += m\n\t\t\t\t// raycast ends on poly boundary and the path might include the next poly boundary.\n\t\t\t\tif n > 0 && path[n-1] == node.ID {')],
 FINAL+'''
func TestDemo(t *testing.T) {
	demoNodes(t, FindPathAnyAngle, 1, demoPath(t, false))
}
''','github.com/arl/gogeo/f32/d3')
bug('Q12-mark','Q12','detour','a sliced search with shortcuts by ray casts, finalized along an existing path',
 'The mark of a parent that is not adjacent stays with the node when the path is reversed, so that the polygons below the wrong shortcuts are filled in.',
 [(Q,'node[0].Flags = (node[0].Flags & ^nodeParentDetached) | NodeFlags(prevRay)\n\t\t\tprevRay = int32(nextRay)','prevRay = int32(nextRay)\n\t\t\tnode[0].Flags = (node[0].Flags & ^nodeParentDetached) | NodeFlags(prevRay)')],
 FINAL+'''
func TestDemo(t *testing.T) {
	demoNodes(t, FindPathAnyAngle, 1, demoPath(t, true))
}
''','github.com/arl/gogeo/f32/d3')
bug('Q12-existing','Q12','detour','an existing path of which only the first polygon was visited by the search',
 'The first polygon of the existing path is not looked for when a sliced search is finalized along it.',
 [(Q,'for i := existingSize - 1; i >= 0; i-- {','for i := existingSize - 1; i > 0; i-- {')],
 SEARCH+'''
func TestDemo(t *testing.T) {
	demoNodes(t, 0, 1, func(q *NavMeshQuery, end PolyRef, endPos d3.Vec3) {
		start := q.query.startRef
		var path [500]PolyRef
		n, st := q.FinalizeSlicedFindPathPartial([]PolyRef{start, 0}, 2, path[:], len(path))
		if n != 1 || path[0] != start {
			t.Fatalf("status 0x%x, %d polygons from 0x%x, start 0x%x", st, n, path[0], start)
		}
	})
}
''','github.com/arl/gogeo/f32/d3')
BOX='''
// demoBox compares what a box query collects with all the polygons of the mesh
// whose bounds the box overlaps for sure, for boxes around some polygons.
func demoBox(t *testing.T, tree bool, size float32) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 100)
	f := NewStandardQueryFilter()
	seen := 0
	for i := range mesh.Tiles {
		tile := &mesh.Tiles[i]
		if tile.Header != nil && !tree {
			tile.BvTree = nil
			tile.Header.BvNodeCount = 0
		}
	}
	for i := range mesh.Tiles {
		tile := &mesh.Tiles[i]
		if tile.Header == nil {
			continue
		}
		for p := range tile.Polys {
			if p%7 != 0 || tile.Polys[p].Type() == polyTypeOffMeshConnection {
				continue
			}
			v := tile.Verts[3*int(tile.Polys[p].Verts[0]):]
			center := []float32{v[0], v[1], v[2]}
			polys := make([]PolyRef, 4096)
			n, st := q.queryPolygons6(center, []float32{size, 2, size}, f, polys, int32(len(polys)))
			if StatusFailed(st) || int(n) > len(polys) {
				t.Fatalf("status 0x%x, %d polygons", st, n)
			}
			found := map[PolyRef]bool{}
			for _, ref := range polys[:n] {
				found[ref] = true
			}
			for j := range mesh.Tiles {
				other := &mesh.Tiles[j]
				if other.Header == nil {
					continue
				}
				for k := range other.Polys {
					ref := mesh.polyRefBase(other) | PolyRef(k)
					poly := &other.Polys[k]
					if poly.Type() == polyTypeOffMeshConnection || !f.PassFilter(ref, other, poly) {
						continue
					}
					in := false
					for _, vi := range poly.Verts[:poly.VertCount] {
						w := other.Verts[3*int(vi):]
						dx, dy, dz := w[0]-v[0], w[1]-v[1], w[2]-v[2]
						in = in || dx > -size && dx < size && dz > -size && dz < size && dy > -2 && dy < 2
					}
					if in {
						seen++
						if !found[ref] {
							t.Fatalf("polygon 0x%x has a vertex in the box around %v and is not found (%d found)", ref, center, n)
						}
					}
				}
			}
		}
	}
	if seen == 0 {
		t.Fatal("nothing was looked for")
	}
}
'''
bug('Q13-batch','Q13','detour','a box that overlaps more polygons of a tile with a bounding volume tree than fit in a batch',
 'Of a full batch, the last polygon is not handed over.',
 [(Q,'query.process(tile, polys, polyRefs, batchSize)\n\t\t\t\t\t\tn = 0','query.process(tile, polys, polyRefs, n)\n\t\t\t\t\t\tn = 0')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 100)
	for i := range mesh.Tiles {
		tile := &mesh.Tiles[i]
		if tile.Header == nil {
			continue
		}
		// a tree of as many leaves as it takes
		for _, n := range []int{1, 31, 32, 33, 64, 65, 100} {
			tile.BvTree = nil
			for k := 0; k < n; k++ {
				tile.BvTree = append(tile.BvTree, BvNode{BMax: [3]uint16{65535, 65535, 65535}, I: int32(k % len(tile.Polys))})
			}
			tile.Header.BvNodeCount = int32(n)
			found := newCollectPolysQuery(make([]PolyRef, 200), 200)
			q.queryPolygonsInTile(tile, tile.Header.BMin[:], tile.Header.BMax[:], NewStandardQueryFilter(), found)
			if int(found.numCollected) != n {
				t.Fatalf("%d polygons are found, %d expected", found.numCollected, n)
			}
		}
		return
	}
}
''')
bug('Q13-index','Q13','detour','tiles without a bounding volume tree, and a box that does not overlap the first polygon of one',
 'In a tile without a bounding volume tree, the reference of a polygon is made of the number of polygons found before.',
 [(Q,'ref := base | PolyRef(i)\n\t\t\tif !filter','ref := base | PolyRef(n)\n\t\t\tif !filter')],
 BOX+'''
func TestDemo(t *testing.T) {
	demoBox(t, false, 3)
}
''')
bug('Q13-rows','Q13','detour','a box that touches several rows of tiles',
 'The tiles of the last row a box touches are not searched, unless it is the only one.',
 [(Q,'for y := miny; y <= maxy; y++ {','for y := miny; y == miny || y < maxy; y++ {')],
 BOX+'''
func TestDemo(t *testing.T) {
	demoBox(t, true, 5)
}
''')
