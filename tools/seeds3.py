# Planted bugs, third batch. See seed.py.
M='detour/mesh.go'; Q='detour/query.go'
TILES='''
// demoTiles adds n copies of the tile of mesh2.bin next to each other.
func demoTiles(t *testing.T, n int32, maxTiles uint32) (*NavMesh, []TileRef) {
	src, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	var m NavMesh
	p := src.Params
	p.MaxTiles = maxTiles
	if st := m.Init(&p); StatusFailed(st) {
		t.Fatalf("init: 0x%x", st)
	}
	var refs []TileRef
	for i := int32(0); i < n; i++ {
		data := append([]byte(nil), src.Tiles[0].Data...)
		var h MeshHeader
		h.unserialize(data)
		h.X, h.Y = i, 0
		h.serialize(data)
		st, ref := m.AddTile(data, 0)
		if StatusFailed(st) {
			t.Fatalf("tile %d: 0x%x", i, st)
		}
		refs = append(refs, ref)
	}
	return &m, refs
}
'''
bug('R05-layer','R05','detour','a tile on an upper layer added at the position and layer of another',
 'A tile is added although there is one at its position and layer already, if the layer is not the lowest.',
 [(M,'if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {','if t := m.TileAt(hdr.X, hdr.Y, hdr.Layer); t != nil && m.TileAt(hdr.X, hdr.Y, 0) == t {')],
 TILES+'''
func TestDemo(t *testing.T) {
	m, _ := demoTiles(t, 1, 8)
	data := append([]byte(nil), m.Tiles[0].Data...)
	var h MeshHeader
	h.unserialize(data)
	h.Layer = 2
	h.serialize(data)
	if st, _ := m.AddTile(append([]byte(nil), data...), 0); StatusFailed(st) {
		t.Fatalf("first tile of layer 2: 0x%x", st)
	}
	if st, _ := m.AddTile(data, 0); StatusSucceed(st) {
		t.Error("two tiles at the same position and layer")
	}
}
''')
bug('R05-salt','R05','detour','a tile added back with its former reference when it is the first free tile',
 'A tile restored from the head of the free list does not get the salt of the reference it was asked for.',
 [(M,'\t\t\tprev.Next = tile.Next\n\t\t}\n\n\t\t// Restore salt.\n\t\ttile.Salt = m.decodePolyIDSalt(PolyRef(lastRef))\n',
     '\t\t\tprev.Next = tile.Next\n\t\t\t// Restore salt.\n\t\t\ttile.Salt = m.decodePolyIDSalt(PolyRef(lastRef))\n\t\t}\n')],
 TILES+'''
func TestDemo(t *testing.T) {
	m, refs := demoTiles(t, 2, 4)
	data, st := m.RemoveTile(refs[1])
	if StatusFailed(st) {
		t.Fatal("remove")
	}
	st, ref := m.AddTile(data, refs[1])
	if StatusFailed(st) || ref != refs[1] {
		t.Errorf("added back as 0x%x, was 0x%x", ref, refs[1])
	}
}
''')
bug('R06-previous','R06','detour','a polygon with two links in a row to the tile that is removed',
 'After a link was taken out of the list, the one before is taken to be the one just freed, so that the next link is not unlinked.',
 [(M,'freeLink(tile, j)\n\t\t\t\tj = nj','freeLink(tile, j)\n\t\t\t\tif pj != nullLink {\n\t\t\t\t\tpj = j\n\t\t\t\t}\n\t\t\t\tj = nj')],
 TILES+'''
func TestDemo(t *testing.T) {
	m, refs := demoTiles(t, 2, 4)
	a, b := m.TileByRef(refs[0]), m.TileByRef(refs[1])
	p := &a.Polys[0]
	var own PolyRef = m.polyRefBase(a)
	for _, ref := range []PolyRef{m.polyRefBase(b), m.polyRefBase(b) | 1, own} {
		idx := allocLink(a)
		if idx == nullLink {
			t.Skip("no link left")
		}
		a.Links[idx] = Link{Ref: ref, Next: p.FirstLink}
		p.FirstLink = idx
	}
	m.unconnectLinks(a, b)
	n := 0
	for l := p.FirstLink; l != nullLink && n < 1000; l = a.Links[l].Next {
		if m.decodePolyIDTile(a.Links[l].Ref) == m.decodePolyIDTile(PolyRef(refs[1])) {
			t.Errorf("link %d still leads to the removed tile", l)
		}
		n++
	}
	if n == 1000 {
		t.Error("the list of links does not end")
	}
}
''')
bug('R06-sides','R06','detour','the removal of a tile whose neighbour is on one of its last sides',
 'Removing a tile removes the links from the neighbours on four of its eight sides only.',
 [(M,'for i := 0; i < 8; i++ {\n\t\tnneis = int(','for i := 0; i < 8/2; i++ {\n\t\tnneis = int(')],
 TILES+'''
func TestDemo(t *testing.T) {
	m, refs := demoTiles(t, 2, 4)
	a, b := m.TileByRef(refs[0]), m.TileByRef(refs[1])
	p := &a.Polys[0]
	idx := allocLink(a)
	if idx == nullLink {
		t.Fatal("no link left")
	}
	a.Links[idx] = Link{Ref: m.polyRefBase(b), Next: p.FirstLink}
	p.FirstLink = idx
	if _, st := m.RemoveTile(refs[1]); StatusFailed(st) {
		t.Fatal("remove")
	}
	for l := p.FirstLink; l != nullLink; l = a.Links[l].Next {
		if m.decodePolyIDTile(a.Links[l].Ref) == m.decodePolyIDTile(PolyRef(refs[1])) {
			t.Errorf("link %d still leads to the removed tile", l)
		}
	}
}
''')
bug('P03-version','P03','detour','a file whose tile was written by another version',
 'The version of a tile is accepted when it is older than the expected one.',
 [(M,'if hdr.Version != navMeshVersion {\n\t\treturn Failure | WrongVersion, 0','if hdr.Version > navMeshVersion {\n\t\treturn Failure | WrongVersion, 0')],
 '''
func TestDemo(t *testing.T) {
	src, err := loadTestNavMesh("mesh2.bin")
	checkt(t, err)
	data := append([]byte(nil), src.Tiles[0].Data...)
	var h MeshHeader
	h.unserialize(data)
	h.Version--
	h.serialize(data)
	var m NavMesh
	p := src.Params
	m.Init(&p)
	if st, _ := m.AddTile(data, 0); StatusSucceed(st) {
		t.Error("a tile of another version is added")
	}
}
''')
