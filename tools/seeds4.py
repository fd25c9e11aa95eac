# Planted bugs, fourth batch. See seed.py.
M='detour/mesh.go'; Q='detour/query.go'
exec(open('/verif/tools/seeds3.py').read().split("bug('R05-layer'")[0].split('# Planted bugs, third batch. See seed.py.')[1])
bug('P05-ref','P05','detour','saving a mesh in which a tile was removed and added again',
 'The saved file has references with the first salt, so that references to polygons of a tile that was removed and added again are not valid in the mesh read back.',
 [(M,'tileHeader.TileRef = m.TileRef(tile)','tileHeader.TileRef = TileRef(m.encodePolyID(1, uint32(i), 0))')],
 TILES+'''
func TestDemo(t *testing.T) {
	m, refs := demoTiles(t, 2, 8)
	data, st := m.RemoveTile(refs[0])
	if StatusFailed(st) {
		t.Fatalf("remove: 0x%x", st)
	}
	st, ref := m.AddTile(append([]byte(nil), data...), 0)
	if StatusFailed(st) {
		t.Fatalf("add: 0x%x", st)
	}
	var buf bytes.Buffer
	checkt(t, m.ToWriter(&buf))
	back, err := Decode(&buf)
	checkt(t, err)
	if got := back.TileRefAt(0, 0, m.Tiles[0].Header.Layer); got != ref {
		t.Errorf("the tile has the reference 0x%x after saving and loading, and had 0x%x", got, ref)
	}
}
''','bytes')
bug('P05-upper','P05','detour','saving a mesh that has a tile on an upper layer',
 'Tiles that are not on the lowest layer are announced in the header of a saved mesh and not written.',
 [(M,0,'if tile.DataSize == 0 {','if tile.DataSize == 0 || tile.Header.Layer > 1 {')],
 TILES+'''
func TestDemo(t *testing.T) {
	m, _ := demoTiles(t, 2, 4)
	data := append([]byte(nil), m.Tiles[0].Data...)
	var h MeshHeader
	h.unserialize(data)
	h.Layer = 2
	h.serialize(data)
	if st, _ := m.AddTile(data, 0); StatusFailed(st) {
		t.Fatalf("add: 0x%x", st)
	}
	var buf bytes.Buffer
	checkt(t, m.ToWriter(&buf))
	back, err := Decode(&buf)
	checkt(t, err)
	if back.TileAt(0, 0, 2) == nil || back.TileAt(0, 0, 0) == nil || back.TileAt(1, 0, 0) == nil {
		t.Error("a tile is gone after saving and loading")
	}
}
''','bytes')
bug('R07-layer','R07','detour','two tiles at one position on different layers',
 'The reference of another tile at the same position is returned for a layer.',
 [(M,'tile.Header.Layer == layer {\n\t\t\treturn m.TileRef(tile)','tile.Header.Layer >= layer {\n\t\t\treturn m.TileRef(tile)')],
 TILES+'''
func TestDemo(t *testing.T) {
	m, refs := demoTiles(t, 1, 8)
	data := append([]byte(nil), m.Tiles[0].Data...)
	var h MeshHeader
	h.unserialize(data)
	h.Layer = 2
	h.serialize(data)
	if st, _ := m.AddTile(data, 0); StatusFailed(st) {
		t.Fatalf("add: 0x%x", st)
	}
	if got := m.TileRefAt(0, 0, 0); got != refs[0] {
		t.Errorf("got 0x%x, want 0x%x", got, refs[0])
	}
	if got := m.TileRefAt(0, 0, 1); got != 0 {
		t.Errorf("got 0x%x, want none", got)
	}
}
''')
bug('Q05-existing','Q05','detour','the partial result of a sliced search, none of whose polygons are on the existing path',
 'When no polygon of the existing path was visited, the path to the best node is returned as if it led to the end of the existing path.',
 [(Q,1,'q.query.status |= PartialResult\n','')],
 '''
func TestDemo(t *testing.T) {
	mesh, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	_, q := NewNavMeshQuery(mesh, 1000)
	f := NewStandardQueryFilter()
	ext := d3.Vec3{2, 4, 2}
	_, a, pa := q.FindNearestPoly(d3.Vec3{5, 0, 10}, ext, f)
	_, b, pb := q.FindNearestPoly(d3.Vec3{50, 0, 30}, ext, f)
	if a == 0 || b == 0 {
		t.Fatal("no polygon")
	}
	st := q.InitSlicedFindPath(a, b, pa, pb, f, 0)
	if StatusFailed(st) {
		t.Fatal("init")
	}
	var done int
	st = q.UpdateSlicedFindPath(2, &done)
	if StatusFailed(st) {
		t.Fatal("update")
	}
	path := make([]PolyRef, 50)
	_, st = q.FinalizeSlicedFindPathPartial([]PolyRef{b}, 1, path, 50)
	if StatusFailed(st) || st&PartialResult == 0 {
		t.Errorf("status 0x%x", uint32(st))
	}
}
''','github.com/arl/gogeo/f32/d3')
bug('K06-timer','K06','sample/solomesh','a build with the timers on',
 'The timer of the contour simplification is never stopped.',
 [('recast/contour.go','ctx.StopTimer(TimerBuildContoursSimplify)','ctx.StopTimer(TimerBuildContoursTrace)')],
 '''
func TestDemo(t *testing.T) {
	ctx := recast.NewBuildContext(true)
	sm := New(ctx)
	f, err := os.Open(OBJDir + "cube.obj")
	check(t, err)
	defer f.Close()
	check(t, sm.LoadGeometry(f))
	if _, ok := sm.Build(); !ok {
		t.Fatal("no mesh")
	}
	if d := ctx.AccumulatedTime(recast.TimerBuildContoursSimplify); d <= 0 {
		t.Errorf("time: %v", d)
	}
}
''','os github.com/arl/go-detour/recast')
bug('K08-height','K08','sample/solomesh','an agent height that is not a multiple of the cell height',
 'Spans that are a fraction of a voxel too low for the agent are walkable.',
 [('sample/solomesh/builder.go','math32.Ceil(agentHeight / sm.cfg.Ch)','math32.Floor(agentHeight / sm.cfg.Ch)')],
 '''
func TestDemo(t *testing.T) {
	sm := New(recast.NewBuildContext(false))
	s := DefaultSettings()
	s.AgentHeight = 9.5 * s.CellHeight
	sm.SetSettings(s)
	f, err := os.Open(OBJDir + "cube.obj")
	check(t, err)
	defer f.Close()
	check(t, sm.LoadGeometry(f))
	if _, ok := sm.Build(); !ok {
		t.Fatal("no mesh")
	}
	if sm.cfg.WalkableHeight != 10 {
		t.Errorf("walkable height: %d voxels, want 10", sm.cfg.WalkableHeight)
	}
}
''','os github.com/arl/go-detour/recast')
