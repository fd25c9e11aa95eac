# Planted bugs, first batch. See seed.py.
M='detour/mesh.go'
bug('R01-saltmask','R01','detour','a mesh with more than 16 salt bits, and a tile removed and added 65536 times',
 'The salt extracted from a reference has at most 16 bits.',
 [(M,0,'saltMask := (PolyRef(1) << m.saltBits) - 1\n','saltMask := (PolyRef(1) << 16) - 1\n')],
 '''
func TestDemo(t *testing.T) {
	var m NavMesh
	if st := m.Init(&NavMeshParams{TileWidth: 1, TileHeight: 1, MaxTiles: 16, MaxPolys: 16}); StatusFailed(st) {
		t.Fatal(st)
	}
	for _, salt := range []uint32{1, 255, 65535, 65536, 65537, 1<<24 - 1} {
		ref := m.encodePolyID(salt, 3, 5)
		if got := m.decodePolyIDSalt(ref); got != salt {
			t.Errorf("salt %d read back as %d", salt, got)
		}
		var s, it, ip uint32
		if m.DecodePolyID(ref, &s, &it, &ip); s != salt || it != 3 || ip != 5 {
			t.Errorf("salt %d decoded as %d %d %d", salt, s, it, ip)
		}
	}
}
''')
bug('K04-setarea','K04','detour','an area above 63, set after the type',
 'Setting an area above 63 changes the type of the polygon.',
 [('detour/poly.go','p.AreaAndType = (p.AreaAndType & 0xc0) | (a & 0x3f)','p.AreaAndType = (p.AreaAndType & 0xc0) | a')],
 '''
func TestDemo(t *testing.T) {
	var p Poly
	p.SetType(0)
	p.SetArea(0x41)
	if p.Type() != 0 || p.Area() != 1 {
		t.Errorf("type %d, area %d", p.Type(), p.Area())
	}
}
''')
bug('Q09-exclude','Q09','detour','a polygon with two flags, one included and one excluded',
 'A polygon with an exclude flag passes the filter when it has another flag that is included.',
 [('detour/queryfilter.go','(poly.Flags&qf.includeFlags) != 0 && (poly.Flags&qf.excludeFlags) == 0','poly.Flags&qf.includeFlags&^qf.excludeFlags != 0')],
 '''
func TestDemo(t *testing.T) {
	qf := NewStandardQueryFilter()
	qf.SetExcludeFlags(2)
	if qf.PassFilter(1, nil, &Poly{Flags: 3}) {
		t.Error("an excluded polygon passes")
	}
	if !qf.PassFilter(1, nil, &Poly{Flags: 1}) {
		t.Error("an included polygon does not pass")
	}
}
''')
bug('R03-saltwrap','R03','detour','removing and adding one tile until its salt wraps around',
 'The salt of a removed tile becomes zero when it wraps around, so that a reference of the next tile can be zero.',
 [(M,'tile.Salt = (tile.Salt + 1) & ((1 << m.saltBits) - 1)\n\tif tile.Salt == 0 {','tile.Salt++\n\tif tile.Salt &= (1 << m.saltBits) - 1; tile.Salt > 1<<m.saltBits {')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	for i := range mesh.Tiles {
		tile := &mesh.Tiles[i]
		if tile.Header == nil {
			continue
		}
		tile.Salt = 1<<mesh.saltBits - 1
		if _, st := mesh.RemoveTile(mesh.TileRef(tile)); StatusFailed(st) {
			t.Fatal(st)
		}
		if tile.Salt != 1 {
			t.Fatalf("salt %d after wrapping around", tile.Salt)
		}
	}
}
''')
bug('K05-diagonal','K05','detour','a tile with a neighbour on the diagonal side 5 but none on side 7',
 'The tile neighbour on side 5 is looked up at the position of side 7.',
 [(M,'\tcase 5:\n\t\tnx--\n\t\tny--','\tcase 5:\n\t\tnx++\n\t\tny--')],
 '''
func TestDemo(t *testing.T) {
	var m NavMesh
	if st := m.Init(&NavMeshParams{TileWidth: 1, TileHeight: 1, MaxTiles: 16, MaxPolys: 16}); StatusFailed(st) {
		t.Fatal(st)
	}
	tile := &m.Tiles[0]
	tile.Header = &MeshHeader{X: 4, Y: 4}
	m.posLookup[computeTileHash(4, 4, m.TileLUTMask)] = tile
	tile.Next = nil
	var tiles [4]*MeshTile
	if n := m.neighbourTilesAt(5, 5, 5, tiles[:], 4); n != 1 {
		t.Errorf("%d neighbours on side 5", n)
	}
}
''')
bug('R02-polycount','R02','detour','a reference with the index just after the last polygon of a tile',
 'A reference one past the last polygon of its tile is valid.',
 [(M,0,'if ip >= uint32(m.Tiles[it].Header.PolyCount) {','if ip > uint32(m.Tiles[it].Header.PolyCount) {')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	for i := range mesh.Tiles {
		if h := mesh.Tiles[i].Header; h != nil {
			ref := mesh.encodePolyID(mesh.Tiles[i].Salt, uint32(i), uint32(h.PolyCount))
			if mesh.decodePolyIDPoly(ref) == uint32(h.PolyCount) && mesh.IsValidPolyRef(ref) {
				t.Fatalf("reference %x of polygon %d of %d is valid", ref, h.PolyCount, h.PolyCount)
			}
		}
	}
}
''')
bug('C02-startpos','C02','detour','a path whose start and end polygons differ, and whose caller looks at its start position afterwards',
 'FindPath keeps the start position slice in the start node and moves the vector of the caller when a later query fills the node.',
 [('detour/query.go',0,'startNode.Pos.Assign(startPos)','startNode.Pos = startPos')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh1.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 1000)
	ext := d3.NewVec3XYZ(2, 4, 2)
	f := NewStandardQueryFilter()
	_, r1, p1 := q.FindNearestPoly(d3.Vec3{37.298489, -1.776901, 11.652311}, ext, f)
	_, r2, p2 := q.FindNearestPoly(d3.Vec3{42.457218, 7.797607, 17.778244}, ext, f)
	a, b := d3.NewVec3From(p1), d3.NewVec3From(p2)
	path := make([]PolyRef, 100)
	q.FindPath(r1, r2, p1, p2, f, path)
	q.InitSlicedFindPath(r2, r1, p2, p1, f, 0)
	if !p1.Approx(a) || !p2.Approx(b) {
		t.Errorf("positions %v %v became %v %v", a, b, p1, p2)
	}
}
''','github.com/arl/gogeo/f32/d3')
bug('Q02-status','Q02','detour','a search that runs out of nodes',
 'FindPath answers with the details of the search alone, without success or failure, when it ran out of nodes.',
 [('detour/query.go',0,'\tif outOfNodes {\n\t\tstatus |= OutOfNodes\n\t}','\tif outOfNodes {\n\t\tstatus = status&StatusDetailMask | OutOfNodes\n\t}')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh1.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 4)
	ext := d3.NewVec3XYZ(2, 4, 2)
	f := NewStandardQueryFilter()
	_, r1, p1 := q.FindNearestPoly(d3.Vec3{37.298489, -1.776901, 11.652311}, ext, f)
	_, r2, p2 := q.FindNearestPoly(d3.Vec3{42.457218, 7.797607, 17.778244}, ext, f)
	_, st := q.FindPath(r1, r2, p1, p2, f, make([]PolyRef, 100))
	if StatusSucceed(st) == StatusFailed(st) {
		t.Errorf("status %x", uint32(st))
	}
}
''','github.com/arl/gogeo/f32/d3')
bug('R04-boundary','R04','detour','a reference to a polygon of a tile removed since, or with a stale salt',
 'ClosestPointOnPolyBoundary follows references that are not valid any more.',
 [('detour/query.go','\tif StatusFailed(q.nav.TileAndPolyByRef(ref, &tile, &poly)) {\n\t\treturn Failure | InvalidParam\n\t}\n\n\t// Collect','\tif ref == 0 {\n\t\treturn Failure | InvalidParam\n\t}\n\tq.nav.TileAndPolyByRefUnsafe(ref, &tile, &poly)\n\n\t// Collect')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 16)
	for i := range mesh.Tiles {
		if tile := &mesh.Tiles[i]; tile.Header != nil {
			ref := mesh.encodePolyID(tile.Salt+1, uint32(i), 0)
			if st := q.ClosestPointOnPolyBoundary(ref, d3.NewVec3(), d3.NewVec3()); !StatusFailed(st) {
				t.Fatalf("stale reference %x: status %x", ref, uint32(st))
			}
		}
	}
}
''','github.com/arl/gogeo/f32/d3')
