From f5510a899f248982e28c3b1c2f56035f3b4f7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 01/57] fix: Decode must read the whole tile data

io.Reader.Read may return fewer bytes than requested without error, leaving
the end of the tile zeroed. Use io.ReadFull.
---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 82ac9ca..5754d4a 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -111,7 +111,7 @@ func Decode(r io.Reader) (*NavMesh, error) {
 		if data == nil {
 			break
 		}
-		_, err = r.Read(data)
+		_, err = io.ReadFull(r, data)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From a5dd2a7166e8f4bd0b6668f2a44fd438c2731fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 02/57] fix: off-mesh connection flags and side must be stored
 in their record

They were read from and written to absolute offsets 30 and 31 of the tile
data, i.e in the middle of the tile vertices.
---
 detour/tile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/tile.go b/detour/tile.go
index 31dcf75..9a57d2c 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -191,8 +191,8 @@ func (s *MeshTile) unserialize(hdr *MeshHeader, src []byte) {
 		o.Pos[5] = math.Float32frombits(little.Uint32(src[off+20:]))
 		o.Rad = math.Float32frombits(little.Uint32(src[off+24:]))
 		o.Poly = little.Uint16(src[off+28:])
-		o.Flags = src[30]
-		o.Side = src[31]
+		o.Flags = src[off+30]
+		o.Side = src[off+31]
 		o.UserID = little.Uint32(src[off+32:])
 		off += 36
 	}
@@ -286,8 +286,8 @@ func serializeTileData(dst []byte,
 		little.PutUint32(dst[off+20:], uint32(math.Float32bits(o.Pos[5])))
 		little.PutUint32(dst[off+24:], uint32(math.Float32bits(o.Rad)))
 		little.PutUint16(dst[off+28:], o.Poly)
-		dst[30] = o.Flags
-		dst[31] = o.Side
+		dst[off+30] = o.Flags
+		dst[off+31] = o.Side
 		little.PutUint32(dst[off+32:], o.UserID)
 		off += 36
 	}
-- 
2.43.0


From e72c1fb0d030dd548dd8fa5094711b7189d89d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 03/57] fix: polygon query in a tile without bounding volume
 tree

The tile vertices were sliced with wrong bounds (panic as soon as a polygon
doesn't start at vertex 0), the first element of the result was never filled
and one element was written past the end of the result when it was full.
---
 detour/mesh.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 5754d4a..16be5aa 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -974,19 +974,21 @@ func (m *NavMesh) queryPolygonsInTile(
 			continue
 		}
 		// Calc polygon bounds.
-		v := tile.Verts[p.Verts[0]*3 : 3]
+		vidx := int(p.Verts[0]) * 3
+		v := tile.Verts[vidx : vidx+3]
 		d3.Vec3(bmin[:]).Assign(v)
 		d3.Vec3(bmax[:]).Assign(v)
 		var j uint8
 		for j = 1; j < p.VertCount; j++ {
-			v = tile.Verts[p.Verts[j]*3 : 3]
+			vidx = int(p.Verts[j]) * 3
+			v = tile.Verts[vidx : vidx+3]
 			d3.Vec3Min(bmin[:], v)
 			d3.Vec3Max(bmax[:], v)
 		}
 		if OverlapBounds(qmin, qmax, bmin[:], bmax[:]) {
 			if n < maxPolys {
-				n++
 				polys[n] = base | PolyRef(i)
+				n++
 			}
 		}
 	}
-- 
2.43.0


From 2b1afaa82e013290deb82623acadeb00cec73dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 04/57] fix: closest point on an off-mesh connection in a tile

The vertices were sliced with wrong bounds (panic for any connection which
doesn't start at vertex 0) and the out parameter was rebound to a new slice,
so that the caller never received the point.
---
 detour/mesh.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 16be5aa..6e922d3 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -1025,12 +1025,13 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		v0 = tile.Verts[poly.Verts[0]*3 : 3]
-		v1 = tile.Verts[poly.Verts[1]*3 : 3]
+		i0, i1 := int(poly.Verts[0])*3, int(poly.Verts[1])*3
+		v0 = tile.Verts[i0 : i0+3]
+		v1 = tile.Verts[i1 : i1+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
 		u = d0 / (d0 + d1)
-		closest = v0.Lerp(v1, u)
+		closest.Assign(v0.Lerp(v1, u))
 		if posOverPoly != nil {
 			*posOverPoly = false
 		}
-- 
2.43.0


From e8031b62086681a8ef1d0fba7b6f5877af82aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 05/57] fix: do not compute vertex offsets on 16 bits

Vertex indices are 16 bits wide, multiplying them by 3 in their own type wraps
as soon as a mesh has more than 21845 vertices (up to 65534 are allowed).
---
 detour/mesh.go          | 16 ++++++++--------
 detour/navmeshcreate.go | 18 +++++++++---------
 detour/poly.go          |  2 +-
 detour/query.go         | 28 ++++++++++++++--------------
 recast/mesh.go          | 18 +++++++++---------
 recast/meshdetail.go    | 14 +++++++-------
 recast/polymesh.go      |  4 ++--
 7 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 6e922d3..85b5312 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -815,7 +815,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 			continue
 		}
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = tile.Verts[poly.Verts[0]*3 : poly.Verts[0]*3+3]
+		var v d3.Vec3 = tile.Verts[int(poly.Verts[0])*3 : int(poly.Verts[0])*3+3]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1049,7 +1049,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1089,7 +1089,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		)
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				vidx := poly.Verts[t[k]] * 3
+				vidx := int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[vidx : vidx+3]
 			} else {
 				vidx := (pd.VertBase + uint32(t[k]-poly.VertCount)) * 3
@@ -1182,7 +1182,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		}
 
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = target.Verts[targetPoly.Verts[1]*3:]
+		var v d3.Vec3 = target.Verts[int(targetPoly.Verts[1])*3:]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1279,8 +1279,8 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 			}
 
 			// Create new links
-			va := tile.Verts[poly.Verts[j]*3:]
-			vb := tile.Verts[poly.Verts[(j+1)%int32(nv)]*3:]
+			va := tile.Verts[int(poly.Verts[j])*3:]
+			vb := tile.Verts[int(poly.Verts[(j+1)%int32(nv)])*3:]
 			nei := make([]PolyRef, 4)
 			neia := make([]float32, 4*2)
 			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, 4)
@@ -1359,9 +1359,9 @@ func (m *NavMesh) findConnectingPolys(
 				continue
 			}
 
-			idx := poly.Verts[j] * 3
+			idx := int(poly.Verts[j]) * 3
 			vc := tile.Verts[idx : idx+3]
-			idx = poly.Verts[(j+1)%nv] * 3
+			idx = int(poly.Verts[(j+1)%nv]) * 3
 			vd := tile.Verts[idx : idx+3]
 			bpos := slabCoord(vc, side)
 
diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5512bd1..8e2e03c 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -291,9 +291,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 		} else {
 			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
-			it.BMin[0] = params.Verts[p[0]*3+0]
-			it.BMin[1] = params.Verts[p[0]*3+1]
-			it.BMin[2] = params.Verts[p[0]*3+2]
+			it.BMin[0] = params.Verts[int(p[0])*3+0]
+			it.BMin[1] = params.Verts[int(p[0])*3+1]
+			it.BMin[2] = params.Verts[int(p[0])*3+2]
 
 			it.BMax[0] = it.BMin[0]
 			it.BMax[1] = it.BMin[1]
@@ -303,9 +303,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				if p[j] == meshNullIdx {
 					break
 				}
-				x := params.Verts[p[j]*3+0]
-				y := params.Verts[p[j]*3+1]
-				z := params.Verts[p[j]*3+2]
+				x := params.Verts[int(p[j])*3+0]
+				y := params.Verts[int(p[j])*3+1]
+				z := params.Verts[int(p[j])*3+2]
 
 				if x < it.BMin[0] {
 					it.BMin[0] = x
@@ -831,13 +831,13 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// The nav polygon vertices are stored as the first vertices on each mesh.
 	// We compress the mesh data by skipping them and using the navmesh coordinates.
 	if params.DetailMeshes != nil && len(params.DetailMeshes) > 0 {
-		var vbase uint16
+		var vbase uint32
 		for i2 := int32(0); i2 < params.PolyCount; i2++ {
 			dtl := &navDMeshes[i2]
 			vb := params.DetailMeshes[i2*4+0]
 			ndv := params.DetailMeshes[i2*4+1]
 			nv := int32(navPolys[i2].VertCount)
-			dtl.VertBase = uint32(vbase)
+			dtl.VertBase = vbase
 			dtl.VertCount = uint8(ndv - nv)
 			dtl.TriBase = uint32(params.DetailMeshes[i2*4+2])
 			dtl.TriCount = uint8(params.DetailMeshes[i2*4+3])
@@ -845,7 +845,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 			if ndv-nv != 0 {
 				start, length := int32(vb+nv)*3, 3*int32(ndv-nv)
 				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
-				vbase += uint16(ndv - nv)
+				vbase += uint32(ndv - nv)
 			}
 		}
 		// Store triangles.
diff --git a/detour/poly.go b/detour/poly.go
index 86c4026..eba0917 100644
--- a/detour/poly.go
+++ b/detour/poly.go
@@ -59,7 +59,7 @@ func CalcPolyCenter(idx []uint16, nidx int32, verts []float32) d3.Vec3 {
 	tc := d3.NewVec3()
 	var j int32
 	for j = 0; j < nidx; j++ {
-		start := idx[j] * 3
+		start := int(idx[j]) * 3
 		v := verts[start : start+3]
 		tc[0] += v[0]
 		tc[1] += v[1]
diff --git a/detour/query.go b/detour/query.go
index 1dd9e18..4796007 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -830,7 +830,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if fromTile.Links[i].Ref == to {
 				// TODO: AR, repass here and test
 				v := fromTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, fromTile.Verts[vidx:vidx+3])
 				copy(right, fromTile.Verts[vidx:vidx+3])
 				return Success
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
@@ -854,8 +854,8 @@ func (q *NavMeshQuery) portalPoints8(
 	}
 
 	// Find portal vertices.
-	v0 := fromPoly.Verts[link.Edge]
-	v1 := fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount]
+	v0 := int(fromPoly.Verts[link.Edge])
+	v1 := int(fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount])
 
 	// TODO: AR TO BE TESTED!
 	v0idx := v0 * 3
@@ -958,9 +958,9 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		vidx := poly.Verts[0] * 3
+		vidx := int(poly.Verts[0]) * 3
 		v0 = tile.Verts[vidx : vidx+3]
-		vidx = poly.Verts[1] * 3
+		vidx = int(poly.Verts[1]) * 3
 		v1 = tile.Verts[vidx : vidx+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
@@ -983,7 +983,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1023,7 +1023,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		var k int
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				idx = int(poly.Verts[t[k]] * 3)
+				idx = int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[idx : idx+3]
 			} else {
 				idx = int((pd.VertBase + uint32(t[k]-poly.VertCount)) * 3)
@@ -1065,7 +1065,7 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 		nv    int32
 	)
 	for i := uint8(0); i < poly.VertCount; i++ {
-		copy(verts[nv*3:nv*3+3], tile.Verts[poly.Verts[i]*3:poly.Verts[i]*3+3])
+		copy(verts[nv*3:nv*3+3], tile.Verts[int(poly.Verts[i])*3:int(poly.Verts[i])*3+3])
 		nv++
 	}
 
@@ -1317,12 +1317,12 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 				continue
 			}
 			// Calc polygon bounds.
-			vidx := p.Verts[0] * 3
+			vidx := int(p.Verts[0]) * 3
 			v := tile.Verts[vidx : vidx+3]
 			bmin.Assign(v)
 			bmax.Assign(v)
 			for j := uint8(1); j < p.VertCount; j++ {
-				vidx = p.Verts[j] * 3
+				vidx = int(p.Verts[j]) * 3
 				v = tile.Verts[vidx : vidx+3]
 				d3.Vec3Min(bmin, v)
 				d3.Vec3Max(bmax, v)
@@ -1486,7 +1486,7 @@ func (q *NavMeshQuery) Raycast(
 		// Collect vertices.
 		var nv int
 		for i := 0; i < int(poly.VertCount); i++ {
-			copy(verts[nv*3:], tile.Verts[poly.Verts[i]*3:3+poly.Verts[i]*3])
+			copy(verts[nv*3:], tile.Verts[int(poly.Verts[i])*3:3+int(poly.Verts[i])*3])
 			nv++
 		}
 
@@ -1569,8 +1569,8 @@ func (q *NavMeshQuery) Raycast(
 			}
 
 			// Check for partial edge links.
-			v0 := poly.Verts[link.Edge]
-			v1 := poly.Verts[(link.Edge+1)%poly.VertCount]
+			v0 := int(poly.Verts[link.Edge])
+			v1 := int(poly.Verts[(link.Edge+1)%poly.VertCount])
 			left := tile.Verts[v0*3 : 3+v0*3]
 			right := tile.Verts[v1*3 : 3+v1*3]
 
diff --git a/recast/mesh.go b/recast/mesh.go
index 1596911..d10cc8d 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -390,24 +390,24 @@ func getPolyMergeValue(pa, pb []uint16,
 	}
 
 	// Check to see if the merged polygon would be convex.
-	var va, vb, vc uint16
+	var va, vb, vc int32
 
-	va = pa[(*ea+na-1)%na]
-	vb = pa[*ea]
-	vc = pb[(*eb+2)%nb]
+	va = int32(pa[(*ea+na-1)%na])
+	vb = int32(pa[*ea])
+	vc = int32(pb[(*eb+2)%nb])
 	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
 		return -1
 	}
 
-	va = pb[(*eb+nb-1)%nb]
-	vb = pb[*eb]
-	vc = pa[(*ea+2)%na]
+	va = int32(pb[(*eb+nb-1)%nb])
+	vb = int32(pb[*eb])
+	vc = int32(pa[(*ea+2)%na])
 	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
 		return -1
 	}
 
-	va = pa[*ea]
-	vb = pa[(*ea+1)%na]
+	va = int32(pa[*ea])
+	vb = int32(pa[(*ea+1)%na])
 
 	dx := int32(verts[va*3+0]) - int32(verts[vb*3+0])
 	dy := int32(verts[va*3+2]) - int32(verts[vb*3+2])
diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 5ed97ef..a6005bc 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -387,7 +387,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int32(p[j])*3:]
 			*xmin = iMin(*xmin, int32(v[0]))
 			*xmax = iMax(*xmax, int32(v[0]))
 			*ymin = iMin(*ymin, int32(v[2]))
@@ -428,7 +428,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int32(p[j])*3:]
 			poly[j*3+0] = float32(v[0]) * cs
 			poly[j*3+1] = float32(v[1]) * ch
 			poly[j*3+2] = float32(v[2]) * cs
@@ -1063,9 +1063,9 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	)
 	for j := int32(0); j < npoly && dmin > 0; j++ {
 		for k := int32(0); k < 9 && dmin > 0; k++ {
-			ax := int32(verts[poly[j]*3+0]) + bsOffset[k*2+0]
-			ay := int32(verts[poly[j]*3+1])
-			az := int32(verts[poly[j]*3+2]) + bsOffset[k*2+1]
+			ax := int32(verts[int32(poly[j])*3+0]) + bsOffset[k*2+0]
+			ay := int32(verts[int32(poly[j])*3+1])
+			az := int32(verts[int32(poly[j])*3+2]) + bsOffset[k*2+1]
 			if ax < hp.xmin || ax >= hp.xmin+hp.width ||
 				az < hp.ymin || az >= hp.ymin+hp.height {
 				continue
@@ -1091,8 +1091,8 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	// Find center of the polygon
 	var pcx, pcy int32
 	for j := int32(0); j < npoly; j++ {
-		pcx += int32(verts[poly[j]*3+0])
-		pcy += int32(verts[poly[j]*3+2])
+		pcx += int32(verts[int32(poly[j])*3+0])
+		pcy += int32(verts[int32(poly[j])*3+2])
 	}
 	pcx /= npoly
 	pcy /= npoly
diff --git a/recast/polymesh.go b/recast/polymesh.go
index 2ae38e1..198ef6f 100644
--- a/recast/polymesh.go
+++ b/recast/polymesh.go
@@ -282,8 +282,8 @@ func BuildPolyMesh(ctx *BuildContext, cset *ContourSet, nvp int32) (*PolyMesh, b
 				if nj >= nvp || p[nj] == meshNullIdx {
 					nj = 0
 				}
-				va := mesh.Verts[p[j]*3:]
-				vb := mesh.Verts[p[nj]*3:]
+				va := mesh.Verts[int32(p[j])*3:]
+				vb := mesh.Verts[int32(p[nj])*3:]
 
 				if int32(va[0]) == 0 && int32(vb[0]) == 0 {
 					p[nvp+j] = 0x8000 | 0
-- 
2.43.0


From f7dc9897e65ce654303b1c5cf77dc45201c25285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 06/57] fix: navmesh data creation without bounding volume tree
 or detail mesh

Without bounding volume tree the (empty) nodes were serialized nonetheless, in
a buffer which had no room for them. Without detail meshes the bounding volume
tree creation panicked.
---
 detour/navmeshcreate.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 8e2e03c..2b05084 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -289,7 +289,6 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[1] = uint16(int32Clamp(int32((bmax[1]-params.BMin[1])*quantFactor), 0, 0xffff))
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
-			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
 			it.BMin[0] = params.Verts[int(p[0])*3+0]
 			it.BMin[1] = params.Verts[int(p[0])*3+1]
@@ -657,7 +656,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 		uniqueDetailVertCount int32
 		detailTriCount        int32
 	)
-	if params.DetailMeshes != nil {
+	if len(params.DetailMeshes) > 0 {
 		// Has detail mesh, count unique detail vertex count and use input detail tri count.
 		detailTriCount = params.DetailTriCount
 		for i := int32(0); i < params.PolyCount; i++ {
@@ -719,7 +718,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	navDMeshes := make([]PolyDetail, params.PolyCount)
 	navDVerts := make([]float32, 3*uniqueDetailVertCount)
 	navDTris := make([]uint8, 4*detailTriCount)
-	navBvtree := make([]BvNode, params.PolyCount*2)
+	var navBvtree []BvNode
+	if params.BuildBvTree {
+		navBvtree = make([]BvNode, params.PolyCount*2)
+	}
 	offMeshCons := make([]OffMeshConnection, storedOffMeshConCount)
 
 	// Fill header
-- 
2.43.0


From 92a0ad315f78ab9b53d2d07dfb43e9184bc87849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 07/57] fix: AddTile must report its failures instead of
 terminating the process

---
 detour/mesh.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 85b5312..cfefcaf 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -4,7 +4,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"log"
 	"math"
 	"os"
 	"unsafe"
@@ -336,7 +335,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		// Try to relocate the tile to specific index with same salt.
 		tileIndex := int32(m.decodePolyIDTile(PolyRef(lastRef)))
 		if tileIndex >= m.MaxTiles {
-			log.Fatalln("tileIndex >= m.m_maxTiles", tileIndex, m.MaxTiles)
 			return Failure | OutOfMemory, 0
 		}
 		// Try to find the specific tile id from the free list.
@@ -349,7 +347,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		}
 		// Could not find the correct location.
 		if tile != target {
-			log.Fatalln("couldn't find the correct tile location")
 			return Failure | OutOfMemory, 0
 		}
 		// Remove from freelist
@@ -365,7 +362,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 
 	// Make sure we could allocate a tile.
 	if tile == nil {
-		log.Fatalln("couldn't allocate tile")
 		return Failure | OutOfMemory, 0
 	}
 
-- 
2.43.0


From e35f4f677920c53729414b18a7cc0ccd2aa80719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 08/57] fix: reject the references of free tiles

RemoveTile dereferenced the nil header of a free tile, and TileByRef returned
a tile without header, when the salt of the reference was the one of the free
tile.
---
 detour/mesh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index cfefcaf..450c79e 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -456,7 +456,7 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 		return data, Failure | InvalidParam
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return data, Failure | InvalidParam
 	}
 	if tile.Data != nil {
@@ -1556,7 +1556,7 @@ func (m *NavMesh) TileByRef(ref TileRef) *MeshTile {
 		return nil
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return nil
 	}
 	return tile
-- 
2.43.0


From 334e12329dc9e4e09eb5cd23d34e9dfc2f03b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 09/57] fix: InitForSingleTile must not use the tile flags as a
 tile reference

The flags were given to AddTile as the reference to restore the tile at, so
that non-zero flags led to a tile with a zero or arbitrary salt, or to a
failure.
---
 detour/mesh.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 450c79e..87a02b9 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -230,7 +230,10 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 		return status
 	}
 
-	status, _ = m.AddTile(data, TileRef(flags))
+	status, ref := m.AddTile(data, 0)
+	if StatusSucceed(status) {
+		m.TileByRef(ref).Flags = int32(flags)
+	}
 	return status
 }
 
-- 
2.43.0


From d56eb740f666efa8ea196eef8893f203536f4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 10/57] fix: Init must reject parameters needing more bits than
 a reference has

32-tileBits-polyBits wrapped around, and the navmesh was initialized with 31
salt bits.
---
 detour/mesh.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 87a02b9..f43a6d4 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -269,6 +269,9 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 	// Init ID generator values.
 	m.tileBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxTiles)))
 	m.polyBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxPolys)))
+	if m.tileBits+m.polyBits > 32 {
+		return Status(Failure | InvalidParam)
+	}
 	// Only allow 31 salt bits, since the salt mask is calculated using 32bit uint and it will overflow.
 	if 31 < 32-m.tileBits-m.polyBits {
 		m.saltBits = 31
-- 
2.43.0


From 745fc4090f2fb07c336b98449ca16a4924e208c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 11/57] fix: SaveToFile must close the file and report the
 close error

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index f43a6d4..047ded8 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -129,7 +129,11 @@ func (m *NavMesh) SaveToFile(fn string) error {
 		return err
 	}
 
-	return m.ToWriter(f)
+	err = m.ToWriter(f)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ToWriter writes binary navigation mesh to io.Writer.
-- 
2.43.0


From 73a379393dbcda1415581f65f915164aa9034b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 12/57] fix: portal of an off-mesh connection entered by its
 own vertices

---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 4796007..c5e3c6a 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := int(fromPoly.Verts[v]) * 3
+				vidx := int(toPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
-- 
2.43.0


From bcd37d5af2ed0bac180f319e00bfb480f835c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 13/57] fix: Raycast must not accumulate over the results of a
 previous raycast

---
 detour/query.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index c5e3c6a..6ae6752 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1450,6 +1450,11 @@ func (q *NavMeshQuery) Raycast(
 		return
 	}
 
+	// The hit may have been filled by a previous raycast.
+	hit.T = 0
+	hit.PathCount = 0
+	hit.PathCost = 0
+
 	var (
 		dir, curPos, lastPos d3.Vec3
 		verts                [VertsPerPolygon*3 + 3]float32
-- 
2.43.0


From 5ddefa4f6d9304cfc1e2082983c4105b366c08fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 14/57] fix: queries must not terminate the process

---
 detour/node.go      | 3 +--
 detour/nodequeue.go | 3 +--
 detour/polyquery.go | 2 --
 detour/query.go     | 2 --
 4 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/detour/node.go b/detour/node.go
index dfae4a8..47811eb 100644
--- a/detour/node.go
+++ b/detour/node.go
@@ -1,7 +1,6 @@
 package detour
 
 import (
-	"log"
 	"unsafe"
 
 	assert "github.com/arl/assertgo"
@@ -218,7 +217,7 @@ func (np *NodePool) NodeAtIdx(idx int32) *Node {
 // MemUsed returns the number of bytes currently in use in this
 // node pool.
 func (np *NodePool) MemUsed() int32 {
-	log.Fatal("use of unsafe in getMemUsed")
+
 	return int32(unsafe.Sizeof(*np)) +
 		int32(unsafe.Sizeof(Node{}))*np.maxNodes +
 		int32(unsafe.Sizeof(NodeIndex(0)))*np.maxNodes +
diff --git a/detour/nodequeue.go b/detour/nodequeue.go
index f58f9a2..2177764 100644
--- a/detour/nodequeue.go
+++ b/detour/nodequeue.go
@@ -1,7 +1,6 @@
 package detour
 
 import (
-	"log"
 	"unsafe"
 
 	assert "github.com/arl/assertgo"
@@ -84,7 +83,7 @@ func (q *nodeQueue) empty() bool {
 }
 
 func (q *nodeQueue) memUsed() int32 {
-	log.Fatal("use of unsafe in memUsed")
+
 	return int32(unsafe.Sizeof(*q)) +
 		int32(unsafe.Sizeof(Node{}))*(q.capacity+1)
 }
diff --git a/detour/polyquery.go b/detour/polyquery.go
index f3fd922..4042b39 100644
--- a/detour/polyquery.go
+++ b/detour/polyquery.go
@@ -1,7 +1,6 @@
 package detour
 
 import (
-	"log"
 	"math"
 
 	"github.com/arl/gogeo/f32/d3"
@@ -97,7 +96,6 @@ func (q *collectPolysQuery) process(tile *MeshTile, polys []*Poly, refs []PolyRe
 		toCopy = numLeft
 	}
 
-	log.Fatal("untested")
 	copy(q.polys[q.numCollected:], refs[0:toCopy])
 	q.numCollected += toCopy
 }
diff --git a/detour/query.go b/detour/query.go
index 6ae6752..b332e2b 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1307,8 +1307,6 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 			p := &tile.Polys[i]
 			// Do not return off-mesh connection polygons.
 			if p.Type() == polyTypeOffMeshConnection {
-
-				log.Fatalf("do return off-mesh connection polygons")
 				continue
 			}
 			// Must pass filter
-- 
2.43.0


From 9af56a1b8220194cb5ef992464c40b1ffc3250f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 15/57] fix: NewNavMeshQuery with less than 4 nodes

---
 detour/query.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index b332e2b..44085d8 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -109,7 +109,7 @@ func newQueryData() queryData {
 // functions are used.
 // This function can be used multiple times.
 func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
-	if maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
+	if maxNodes <= 0 || maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
 		return Failure | InvalidParam, nil
 	}
 
@@ -120,7 +120,12 @@ func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
 		if q.nodePool != nil {
 			q.nodePool = nil
 		}
-		q.nodePool = newNodePool(maxNodes, int32(math32.NextPow2(uint32(maxNodes/4))))
+		// The hash table needs at least one bucket.
+		hashSize := int32(1)
+		if maxNodes >= 4 {
+			hashSize = int32(math32.NextPow2(uint32(maxNodes / 4)))
+		}
+		q.nodePool = newNodePool(maxNodes, hashSize)
 		if q.nodePool == nil {
 			return Failure | OutOfMemory, nil
 		}
-- 
2.43.0


From 64a8a430c503604a1f933d909a9b546c21965e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 16/57] fix: Raycast and InitSlicedFindPath must validate their
 parameters like FindPath

---
 detour/query.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 44085d8..2604b74 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1444,7 +1444,8 @@ func (q *NavMeshQuery) Raycast(
 	prevRef PolyRef) (st Status) {
 
 	// Validate input
-	if startRef == 0 || !q.nav.IsValidPolyRef(startRef) {
+	if startRef == 0 || !q.nav.IsValidPolyRef(startRef) ||
+		len(startPos) < 3 || len(endPos) < 3 || filter == nil || hit == nil {
 		st = Failure | InvalidParam
 		return
 	}
@@ -1772,7 +1773,8 @@ func (q *NavMeshQuery) InitSlicedFindPath(startRef, endRef PolyRef,
 	}
 
 	// Validate input
-	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) {
+	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) ||
+		len(startPos) < 3 || len(endPos) < 3 || filter == nil {
 		return Failure | InvalidParam
 	}
 
-- 
2.43.0


From dce55790f9d8b675b90c7121c55bb7b3ab30ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 17/57] fix: status text of BufferTooSmall

---
 detour/status.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/detour/status.go b/detour/status.go
index 70e8fd5..3482944 100644
--- a/detour/status.go
+++ b/detour/status.go
@@ -34,6 +34,8 @@ func (s Status) Error() string {
 			return "out of memory"
 		case InvalidParam:
 			return "invalid parameter"
+		case BufferTooSmall:
+			return "buffer too small"
 		case OutOfNodes:
 			return "out of nodes"
 		case PartialResult:
-- 
2.43.0


From 33872873cc4305a515f3e96ebbf45a6e2149655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 18/57] fix: saturate the erosion distances instead of wrapping
 them

---
 recast/area.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 8f2b833..3fc4ad3 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, int32(255)))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, int32(255)))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -182,7 +182,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	thr := uint8(radius * 2)
+	thr := uint8(iMin(radius*2, 255))
 	for i := int32(0); i < chf.SpanCount; i++ {
 		if dist[i] < thr {
 			chf.Areas[i] = nullArea
-- 
2.43.0


From eb8c006f0fb5f9811a2721e604da313cd59c7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 19/57] fix: SetCon must replace the connection set previously

---
 recast/recast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/recast.go b/recast/recast.go
index dd10b7c..6d6fd86 100644
--- a/recast/recast.go
+++ b/recast/recast.go
@@ -238,7 +238,7 @@ func init() {
 func SetCon(s *CompactSpan, dir, i int32) {
 	shift := uint32(uint32(dir * 6))
 	con := uint32(s.Con)
-	s.Con = (con ^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
+	s.Con = (con &^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
 }
 
 // GetCon gets neighbor connection data for the specified direction.
-- 
2.43.0


From 78e34dff0688b58c2de70a120757cac0bb5498f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 20/57] fix: stop the timers started by the filters and the
 region builder

---
 recast/filter.go      | 3 +++
 recast/heightfield.go | 1 +
 recast/region.go      | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/recast/filter.go b/recast/filter.go
index 90f1905..059f8c3 100644
--- a/recast/filter.go
+++ b/recast/filter.go
@@ -24,6 +24,7 @@ import "github.com/arl/assertgo"
 func FilterLowHangingWalkableObstacles(ctx *BuildContext, walkableClimb int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterLowObstacles)
+	defer ctx.StopTimer(TimerFilterLowObstacles)
 
 	w := solid.Width
 	h := solid.Height
@@ -77,6 +78,7 @@ func FilterLowHangingWalkableObstacles(ctx *BuildContext, walkableClimb int32, s
 func FilterLedgeSpans(ctx *BuildContext, walkableHeight, walkableClimb int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterBorder)
+	defer ctx.StopTimer(TimerFilterBorder)
 
 	w := solid.Width
 	h := solid.Height
@@ -187,6 +189,7 @@ func FilterLedgeSpans(ctx *BuildContext, walkableHeight, walkableClimb int32, so
 func FilterWalkableLowHeightSpans(ctx *BuildContext, walkableHeight int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterWalkable)
+	defer ctx.StopTimer(TimerFilterWalkable)
 
 	w := solid.Width
 	h := solid.Height
diff --git a/recast/heightfield.go b/recast/heightfield.go
index 2928aa2..f737367 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -268,6 +268,7 @@ func BuildCompactHeightfield(ctx *BuildContext, walkableHeight, walkableClimb in
 
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerBuildCompactHeightfield)
+	defer ctx.StopTimer(TimerBuildCompactHeightfield)
 
 	w := hf.Width
 	h := hf.Height
diff --git a/recast/region.go b/recast/region.go
index dbeebdd..74d88cd 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -338,7 +338,7 @@ func BuildRegions(ctx *BuildContext, chf *CompactHeightfield,
 		srcDist, dstDist = dstDist, srcDist
 	}
 
-	ctx.StartTimer(TimerBuildRegionsWatershed)
+	ctx.StopTimer(TimerBuildRegionsWatershed)
 
 	{
 		ctx.StartTimer(TimerBuildRegionsFilter)
-- 
2.43.0


From 92265d3af6c4873151f2f1880d6bac6c5693beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 21/57] fix: AccumulatedTime must return -1 for disabled or
 unused timers

---
 recast/buildcontext.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recast/buildcontext.go b/recast/buildcontext.go
index 84b1920..f594b07 100644
--- a/recast/buildcontext.go
+++ b/recast/buildcontext.go
@@ -65,6 +65,7 @@ func (ctx *BuildContext) ResetLog() {
 func (ctx *BuildContext) ResetTimers() {
 	if ctx.timerEnabled {
 		for i := 0; i < maxTimers; i++ {
+			ctx.startTime[i] = time.Time{}
 			ctx.accTime[i] = time.Duration(0)
 		}
 	}
@@ -163,8 +164,8 @@ func (ctx *BuildContext) StopTimer(label TimerLabel) {
 // Returns the accumulated time of the timer, or -1 if timers are disabled or
 // the timer has never been started.
 func (ctx *BuildContext) AccumulatedTime(label TimerLabel) time.Duration {
-	if ctx.timerEnabled {
+	if ctx.timerEnabled && !ctx.startTime[label].IsZero() {
 		return ctx.accTime[label]
 	}
-	return time.Duration(0)
+	return time.Duration(-1)
 }
-- 
2.43.0


From d9ed27c0531d8322a5d0f5a78133252a76e3525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 22/57] fix: number of vertices of the convex volumes

---
 recast/area.go      | 2 +-
 recast/inputgeom.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 3fc4ad3..72db6d1 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -222,7 +222,7 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	var bmin, bmax [3]float32
 	copy(bmin[:], verts[:3])
 	copy(bmax[:], verts[:3])
-	for i := int32(1); i*3 < nverts; i++ {
+	for i := int32(1); i < nverts; i++ {
 		v := verts[i*3:]
 		d3.Vec3Min(bmin[:], v)
 		d3.Vec3Max(bmax[:], v)
diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index eec5939..ec4c794 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -209,9 +209,9 @@ func (ig *InputGeom) OffMeshConnectionCount() int32 {
 // AddConvexVolume adds a new convex volume to the input geometry.
 //
 // The convex volume is defined by the verts slice [x, y, z] * Number of
-// vertices.
+// vertices. Volumes having more than maxConvexVolPts vertices are not added.
 func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area uint8) {
-	if ig.volumeCount >= maxVolumes {
+	if ig.volumeCount >= maxVolumes || len(verts) > maxConvexVolPts*3 {
 		return
 	}
 	vol := &ig.volumes[ig.volumeCount]
@@ -219,7 +219,7 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	copy(vol.Verts[:], verts)
 	vol.HMin = minh
 	vol.HMax = maxh
-	vol.NVerts = int32(len(verts))
+	vol.NVerts = int32(len(verts) / 3)
 	vol.Area = int32(area)
 }
 
-- 
2.43.0


From 59dad192240d10e352b397654f95d84da760d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 23/57] fix: keep the areas in the codes of the contour corners

---
 recast/contour.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index c5e07f5..3c1daf4 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -11,11 +11,11 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 	ch = int32(s.Y)
 	dirp := (dir + 1) & 0x3
 
-	regs := [4]uint16{0, 0, 0, 0}
+	regs := [4]uint32{0, 0, 0, 0}
 
 	// Combine region and area codes in order to prevent
 	// border vertices which are in between two areas to be removed.
-	regs[0] = uint16(uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16))
+	regs[0] = uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16)
 
 	if GetCon(s, dir) != notConnected {
 		ax := x + GetDirOffsetX(dir)
@@ -23,13 +23,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dir)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[1] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[1] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dirp) != notConnected {
 			ax2 := ax + GetDirOffsetX(dirp)
 			ay2 := ay + GetDirOffsetY(dirp)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dirp)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 	if GetCon(s, dirp) != notConnected {
@@ -38,13 +38,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dirp)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[3] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[3] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dir) != notConnected {
 			ax2 := ax + GetDirOffsetX(dir)
 			ay2 := ay + GetDirOffsetY(dir)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dir)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 
@@ -57,9 +57,9 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 
 		// The vertex is a border vertex there are two same exterior cells in a row,
 		// followed by two interior cells and none of the regions are out of bounds.
-		twoSameExts := (regs[a]&regs[b]&borderReg) != 0 && regs[a] == regs[b]
-		twoInts := ((regs[c] | regs[d]) & borderReg) == 0
-		intsSameArea := (uint32(regs[c]) >> 16) == (uint32(regs[d]) >> 16)
+		twoSameExts := (regs[a]&regs[b]&uint32(borderReg)) != 0 && regs[a] == regs[b]
+		twoInts := ((regs[c] | regs[d]) & uint32(borderReg)) == 0
+		intsSameArea := (regs[c] >> 16) == (regs[d] >> 16)
 		noZeros := regs[a] != 0 && regs[b] != 0 && regs[c] != 0 && regs[d] != 0
 		if twoSameExts && twoInts && intsSameArea && noZeros {
 			isBorderVertex = true
-- 
2.43.0


From f5aebb8bd8d00926f3ff2463eafd5faf032945d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 24/57] fix: merge the holes of the contours instead of
 panicking

---
 recast/contour.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index 3c1daf4..8b85a75 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -100,11 +100,12 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 		region.holes[i].minx, region.holes[i].minz, region.holes[i].leftmost = findLeftMostVertex(region.holes[i].contour)
 	}
 
-	sort.Sort(compareHoles(region.holes))
+	sort.Sort(compareHoles(region.holes[:region.nholes]))
 
 	maxVerts := region.outline.NVerts
 	for i := int32(0); i < region.nholes; i++ {
-		maxVerts += region.holes[i].contour.NVerts
+		// Merging a hole adds 2 vertices to the outline.
+		maxVerts += region.holes[i].contour.NVerts + 2
 	}
 
 	diags := make([]potentionalDiagonal, maxVerts)
@@ -140,13 +141,13 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 
 			// Sort potential diagonals by distance, we want to make the connection as short as possible.
 			//qsort(diags, ndiags, sizeof(rcPotentialDiagonal), compareDiagDist);
-			sort.Sort(compareDiagDist(diags))
+			sort.Sort(compareDiagDist(diags[:ndiags]))
 
 			// Find a diagonal that is not intersecting the outline not the remaining holes.
 			index = -1
 			for j := int32(0); j < ndiags; j++ {
 				pt := outline.Verts[diags[j].vert*4:]
-				intersect := intersectSegCountour(pt, corner, diags[i].vert, outline.NVerts, outline.Verts)
+				intersect := intersectSegCountour(pt, corner, diags[j].vert, outline.NVerts, outline.Verts)
 				for k := i; k < region.nholes && !intersect; k++ {
 					intersect = intersect || intersectSegCountour(pt, corner, -1, region.holes[k].contour.NVerts, region.holes[k].contour.Verts)
 				}
@@ -303,7 +304,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 				// Create contour.
 				if len(simplified)/4 >= 3 {
 					if cset.NConts >= maxContours {
-						panic("ENTERING")
 						// Allocate more contours.
 						// This happens when a region has holes.
 						oldMax := maxContours
@@ -356,13 +356,13 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 	// Merge holes if needed.
 	if cset.NConts > 0 {
 		// Calculate winding of all polygons.
-		winding := make([]uint8, cset.NConts)
+		winding := make([]int8, cset.NConts)
 		var nholes int32
 		for i := int32(0); i < cset.NConts; i++ {
 			cont := &cset.Conts[i]
 			// If the contour is wound backwards, it is a hole.
 			if calcAreaOfPolygon2D(cont.Verts, cont.NVerts) < 0 {
-				winding[i] = 0xff
+				winding[i] = -1
 			} else {
 				winding[i] = 1
 			}
@@ -372,7 +372,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 		}
 
 		if nholes > 0 {
-			panic("UNTESTED")
 			// Collect outline contour and holes contours per region.
 			// We assume that there is one outline and multiple holes.
 			nregions := chf.MaxRegions + 1
-- 
2.43.0


From 6bd86d2193a216be9703fb9c2bf204d1919e7ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 25/57] fix: BuildRegionsMonotone with more sweeps than cells
 in a row

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index 74d88cd..6baa554 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -102,6 +102,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 				if previd == 0 {
 					previd = rid
 					rid++
+					if int(previd) >= len(sweeps) {
+						// A row can have more than one span per cell.
+						sweeps = append(sweeps, make([]sweepSpan, nsweeps)...)
+					}
 					sweeps[previd].rid = previd
 					sweeps[previd].ns = 0
 					sweeps[previd].nei = 0
-- 
2.43.0


From 108228d651062a53839e7099a0cfd426d4e4d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 26/57] fix: BuildRegionsMonotone must report the overflow of
 region ids

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index 6baa554..1026979 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -137,6 +137,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 			if sweeps[i].nei != RC_NULL_NEI && sweeps[i].nei != 0 && prev[sweeps[i].nei] == int32(sweeps[i].ns) {
 				sweeps[i].id = sweeps[i].nei
 			} else {
+				if id >= borderReg {
+					ctx.Errorf("BuildRegionsMonotone: Region ID overflow")
+					return false
+				}
 				sweeps[i].id = id
 				id++
 			}
-- 
2.43.0


From 1489ecd41f9d5e13a98e02615c9910a49d8510c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 27/57] fix: dangling and exceeding triangles of the detail
 mesh must not panic

---
 recast/meshdetail.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index a6005bc..52a40cb 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -701,7 +701,6 @@ func delaunayHull(ctx *BuildContext, npts int32, pts []float32,
 		t := (*tris)[i*4:]
 		if t[0] == -1 || t[1] == -1 || t[2] == -1 {
 			ctx.Warningf("delaunayHull: Removing dangling face %d [%d,%d,%d].", i, t[0], t[1], t[2])
-			panic("untested")
 			// TODO: simplify
 			t[0] = (*tris)[len(*tris)-4]
 			t[1] = (*tris)[len(*tris)-3]
@@ -1033,9 +1032,7 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 
 	ntris := len(*tris) / 4
 	if ntris > MAX_TRIS {
-		panic("untested")
-		//tris.resize(MAX_TRIS*4);
-		*tris = make([]int32, MAX_TRIS*4)
+		*tris = (*tris)[:MAX_TRIS*4]
 		ctx.Errorf("rcBuildPolyMeshDetail: Shrinking triangle count from %d to max %d.", ntris, MAX_TRIS)
 	}
 
-- 
2.43.0


From d13acc47ece28133ab74666bcd2f3922872b1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 28/57] fix: missing start span must not panic while building
 the detail mesh

---
 recast/meshdetail.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 52a40cb..9dd7452 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -1,7 +1,6 @@
 package recast
 
 import (
-	"fmt"
 	"math"
 
 	assert "github.com/arl/assertgo"
@@ -1082,7 +1081,9 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	}
 
 	if startSpanIndex == -1 {
-		panic(fmt.Sprintf("startSpanIndex should be != 1, got %v", startSpanIndex))
+		// None of the spans under the polygon vertices can be used as seed.
+		ctx.Warningf("Could not find a start span to walk towards polygon center")
+		return
 	}
 
 	// Find center of the polygon
-- 
2.43.0


From 9f170f8c7c7d44ecbcbe950b24f1db8c0f9de312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 29/57] fix: detail mesh without sampling must triangulate the
 polygons

---
 recast/meshdetail.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 9dd7452..6becf67 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -922,6 +922,11 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 			}
 			j = i
 		}
+	} else {
+		// Outlines are not tessellated, the hull is the polygon itself.
+		for ; nhull < nin; nhull++ {
+			hull[nhull] = nhull
+		}
 	}
 
 	// If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From 8e4d1de7f069f1196cce9faec0cc8fa2491ef9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 30/57] fix: stop the region filter timer when the filter fails

---
 recast/region.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recast/region.go b/recast/region.go
index 1026979..24f4baa 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -164,11 +164,12 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 		// Merge regions and filter out small regions.
 		overlaps := make([]int32, 0)
 		chf.MaxRegions = id
-		if !mergeAndFilterRegions(ctx, minRegionArea, mergeRegionArea, &chf.MaxRegions, chf, srcReg, &overlaps) {
+		ok := mergeAndFilterRegions(ctx, minRegionArea, mergeRegionArea, &chf.MaxRegions, chf, srcReg, &overlaps)
+		ctx.StopTimer(TimerBuildRegionsFilter)
+		if !ok {
 			return false
 		}
 		// Monotone partitioning does not generate overlapping regions.
-		ctx.StopTimer(TimerBuildRegionsFilter)
 	}
 
 	// Store the result out.
-- 
2.43.0


From c8721af24248146d2efbc14ee5509421636d4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 31/57] fix: height difference of the merged vertices must not
 wrap

A vertex 1 or 2 voxels under an existing vertex was not merged with it.
---
 recast/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index d10cc8d..d4f8575 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -112,7 +112,7 @@ func addVertex(x, y, z uint16, verts []uint16, firstVert, nextVert []int32, nv *
 
 	for i != -1 {
 		v := verts[i*3:]
-		if v[0] == x && (iAbs(int32(v[1]-y)) <= 2) && v[2] == z {
+		if v[0] == x && (iAbs(int32(v[1])-int32(y)) <= 2) && v[2] == z {
 			return uint16(i)
 		}
 		i = nextVert[i] // next
-- 
2.43.0


From 886adb38b842f42f3495d40d80cee0a3fb28ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 32/57] fix: LoadOBJMesh must reject invalid or empty geometry

The bounds of an empty geometry panicked, and the geometry that could not be
decoded was kept and used by the next build.
---
 recast/inputgeom.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index ec4c794..5dc776f 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -98,10 +98,14 @@ func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
 	ig.offMeshConCount = 0
 	ig.volumeCount = 0
 
-	ig.mesh = NewMeshLoaderOBJ()
-	if err = ig.mesh.Load(r); err != nil {
+	mesh := NewMeshLoaderOBJ()
+	if err = mesh.Load(r); err != nil {
 		return err
 	}
+	if mesh.VertCount() == 0 || mesh.TriCount() == 0 {
+		return fmt.Errorf("no vertices or triangles")
+	}
+	ig.mesh = mesh
 
 	CalcBounds(ig.mesh.Verts(), ig.mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
 
-- 
2.43.0


From 2d61540cd2cd16b741ba8996fb84d53ddf5cd390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 33/57] fix: tiles overlapping more than 512 chunks must not
 lose triangles

---
 sample/tilemesh/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index eae53f1..a3ca84b 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -284,8 +284,8 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tbmin[1] = tm.cfg.BMin[2]
 	tbmax[0] = tm.cfg.BMax[0]
 	tbmax[1] = tm.cfg.BMax[2]
-	var cid [512]int32 // TODO: Make grow when returning too many items.
-	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid[:])
+	cid := make([]int32, chunkyMesh.Nnodes)
+	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
 		return nil
 	}
-- 
2.43.0


From 7391a9ddf1582822586dbd924db9ab848fcba3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 34/57] fix: the tile mesh builder must report the tiles it
 could not build

Build returned true with the failed tiles missing from the navmesh, an empty
one in the case of polygons with more vertices than supported.
---
 sample/tilemesh/builder.go | 58 +++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index a3ca84b..cc877f2 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -111,9 +111,7 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
-	tm.buildAllTiles()
-
-	return &tm.navMesh, true
+	return tm.buildAllTiles()
 }
 
 func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
@@ -138,12 +136,21 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 			tm.lastBuiltTileBMax[1] = bmax[1]
 			tm.lastBuiltTileBMax[2] = bmin[2] + float32(y+1)*tcs
 
-			data := tm.buildTileMesh(x, y, tm.lastBuiltTileBMin[:], tm.lastBuiltTileBMax[:])
+			data, ok := tm.buildTileMesh(x, y, tm.lastBuiltTileBMin[:], tm.lastBuiltTileBMax[:])
+			if !ok {
+				tm.ctx.StopTimer(recast.TimerTemp)
+				return nil, false
+			}
 			if data != nil {
 				// Remove any previous data (navmesh owns and deletes the data).
 				tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(x, y, 0))
 				// Let the navmesh own the data.
-				tm.navMesh.AddTile(data, detour.TileRef(0))
+				status, _ := tm.navMesh.AddTile(data, detour.TileRef(0))
+				if detour.StatusFailed(status) {
+					tm.ctx.Errorf("buildNavigation: Could not add tile (%d,%d).", x, y)
+					tm.ctx.StopTimer(recast.TimerTemp)
+					return nil, false
+				}
 			}
 		}
 	}
@@ -153,14 +160,15 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 
 	tm.totalBuildTime = tm.ctx.AccumulatedTime(recast.TimerTemp)
 
-	// TODO: probably useless
 	return &tm.navMesh, true
 }
 
-func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
+// buildTileMesh builds the data of the tile at tx, ty, or reports false if it
+// can't be built. The data of an empty tile is nil.
+func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) ([]byte, bool) {
 	if tm.geom.Mesh() == nil || tm.geom.ChunkyMesh() == nil {
 		tm.ctx.Errorf("buildNavigation: Input mesh is not specified.")
-		return nil
+		return nil, false
 	}
 
 	tm.tileMemUsage = 0
@@ -287,7 +295,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	cid := make([]int32, chunkyMesh.Nnodes)
 	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
-		return nil
+		return nil, true
 	}
 
 	tm.tileTriCount = 0
@@ -306,7 +314,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 			verts, nverts, ctris, nctris, tm.triAreas)
 
 		if !recast.RasterizeTriangles(tm.ctx, verts, nverts, ctris, tm.triAreas, nctris, tm.solid, tm.cfg.WalkableClimb) {
-			return nil
+			return nil, false
 		}
 	}
 
@@ -327,13 +335,13 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.chf = &recast.CompactHeightfield{}
 	if !recast.BuildCompactHeightfield(tm.ctx, tm.cfg.WalkableHeight, tm.cfg.WalkableClimb, tm.solid, tm.chf) {
 		tm.ctx.Errorf("buildNavigation: Could not build compact data.")
-		return nil
+		return nil, false
 	}
 
 	// Erode the walkable area by agent radius.
 	if !recast.ErodeWalkableArea(tm.ctx, tm.cfg.WalkableRadius, tm.chf) {
 		tm.ctx.Errorf("buildNavigation: Could not erode.")
-		return nil
+		return nil, false
 	}
 
 	// (Optional) Mark areas.
@@ -399,7 +407,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 		// Monotone partitioning does not need distancefield.
 		if !recast.BuildRegionsMonotone(tm.ctx, tm.chf, tm.cfg.BorderSize, tm.cfg.MinRegionArea, tm.cfg.MergeRegionArea) {
 			tm.ctx.Errorf("buildNavigation: Could not build monotone regions.")
-			return nil
+			return nil, false
 		}
 	} else {
 		// SAMPLE_PARTITION_LAYERS
@@ -418,11 +426,11 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.cset = &recast.ContourSet{}
 	if !recast.BuildContours(tm.ctx, tm.chf, tm.cfg.MaxSimplificationError, tm.cfg.MaxEdgeLen, tm.cset, recast.ContourTessWallEdges) {
 		tm.ctx.Errorf("buildNavigation: Could not create contours.")
-		return nil
+		return nil, false
 	}
 
 	if tm.cset.NConts == 0 {
-		return nil
+		return nil, true
 	}
 
 	//
@@ -434,7 +442,10 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.pmesh, ret = recast.BuildPolyMesh(tm.ctx, tm.cset, tm.cfg.MaxVertsPerPoly)
 	if !ret {
 		tm.ctx.Errorf("buildNavigation: Could not triangulate contours.")
-		return nil
+		return nil, false
+	}
+	if tm.pmesh.NPolys == 0 {
+		return nil, true
 	}
 
 	//
@@ -444,7 +455,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.dmesh, ret = recast.BuildPolyMeshDetail(tm.ctx, tm.pmesh, tm.chf, tm.cfg.DetailSampleDist, tm.cfg.DetailSampleMaxError)
 	if !ret {
 		tm.ctx.Errorf("buildNavigation: Could not build detail mesh.")
-		return nil
+		return nil, false
 	}
 
 	//
@@ -461,7 +472,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 		if tm.pmesh.NVerts >= 0xffff {
 			// The vertex indices are ushorts, and cannot point to more than 0xffff vertices.
 			tm.ctx.Errorf("Too many vertices per tile %d (max: %d).", tm.pmesh.NVerts, 0xffff)
-			return nil
+			return nil, false
 		}
 
 		// Update poly flags from areas.
@@ -515,8 +526,11 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 
 		if navData, err = detour.CreateNavMeshData(&params); err != nil {
 			tm.ctx.Errorf("Could not build Detour navmesh: %v", err)
-			return nil
+			return nil, false
 		}
+	} else {
+		tm.ctx.Errorf("detour doesn't handle so many vertices per polygon. should be <= %v", detour.VertsPerPolygon)
+		return nil, false
 	}
 
 	tm.tileMemUsage = float32(len(navData)) / 1024.0
@@ -527,7 +541,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.ctx.Progressf(">> Polymesh: %d vertices  %d polygons", tm.pmesh.NVerts, tm.pmesh.NPolys)
 	tm.tileBuildTime = tm.ctx.AccumulatedTime(recast.TimerTotal)
 
-	return navData
+	return navData, true
 }
 
 func (tm *TileMesh) BuildTile(pos d3.Vec3) {
@@ -548,7 +562,7 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 
 	tm.ctx.ResetLog()
 
-	data := tm.buildTileMesh(tx, ty, tm.lastBuiltTileBMin, tm.lastBuiltTileBMax)
+	data, _ := tm.buildTileMesh(tx, ty, tm.lastBuiltTileBMin, tm.lastBuiltTileBMax)
 
 	// Remove any previous data (navmesh owns and deletes the data).
 	tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(tx, ty, 0))
@@ -558,7 +572,7 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 		// Let the navmesh own the data.
 		status, _ := tm.navMesh.AddTile(data, detour.TileRef(0))
 		if detour.StatusFailed(status) {
-			data = nil
+			tm.ctx.Errorf("BuildTile: Could not add tile (%d,%d).", tx, ty)
 		}
 	}
 
-- 
2.43.0


From ac69388645221703091400e3d824a6c6364e0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 35/57] fix: the end of the input is not a confirmation

askForConfirmation panicked when the standard input was closed.
---
 cmd/recast/cmd/utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/recast/cmd/utils.go b/cmd/recast/cmd/utils.go
index ac367c9..ecb784b 100644
--- a/cmd/recast/cmd/utils.go
+++ b/cmd/recast/cmd/utils.go
@@ -22,14 +22,17 @@ func fileExists(path string) (err error) {
 }
 
 // askForConfirmation show msg and ask for the user to type y or n
-// (typing ENTER defaults to no)
+// (typing ENTER, or the end of the input, defaults to no)
 func askForConfirmation(msg string) bool {
 	fmt.Println(msg)
 	reader := bufio.NewReader(os.Stdin)
 	defaultInput := byte('N')
 
 	for {
-		input, _ := reader.ReadString('\n')
+		input, err := reader.ReadString('\n')
+		if err != nil && len(input) == 0 {
+			return false
+		}
 		c := string([]byte(input)[0])[0]
 		if c == 10 {
 			// ENTER
-- 
2.43.0


From 1a2a80426a383100c1fa26bd0c5e8e4287b4f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 36/57] fix: the config command must check the close error of
 its file

---
 cmd/recast/cmd/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/recast/cmd/config.go b/cmd/recast/cmd/config.go
index 0504402..cdbb99b 100644
--- a/cmd/recast/cmd/config.go
+++ b/cmd/recast/cmd/config.go
@@ -78,9 +78,10 @@ func doConfig(cmd *cobra.Command, args []string) {
 	// write config
 	f, err := os.Create(path)
 	check(err)
-	defer f.Close()
 	_, err = f.Write(cfg)
 	check(err)
+	err = f.Close()
+	check(err)
 
 	fmt.Printf("success\n")
 	fmt.Printf("build settings for '%v' navmesh generated to '%v'\n", typeVal, path)
-- 
2.43.0


From 359cabb2bd87aa9ee6dbef05ff01a53c899a5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 37/57] fix: the commands that fail must not exit with status 0

---
 cmd/recast/cmd/build.go  | 8 ++++----
 cmd/recast/cmd/config.go | 2 +-
 cmd/recast/cmd/infos.go  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/recast/cmd/build.go b/cmd/recast/cmd/build.go
index fadb073..b1a49f3 100644
--- a/cmd/recast/cmd/build.go
+++ b/cmd/recast/cmd/build.go
@@ -34,8 +34,8 @@ func init() {
 func doBuild(cmd *cobra.Command, args []string) {
 	// check existence of input geometry flags
 	if len(inputVal) == 0 {
-		fmt.Printf("missing input geometry file (--input)")
-		return
+		fmt.Println("missing input geometry file (--input)")
+		os.Exit(-1)
 	}
 
 	//
@@ -93,7 +93,7 @@ func doBuild(cmd *cobra.Command, args []string) {
 
 	default:
 		fmt.Printf("unknown (or unimplemented) navmesh type '%v'\n", typeVal)
-		return
+		os.Exit(-1)
 	}
 
 	ctx.DumpLog(os.Stdout, "")
@@ -104,7 +104,7 @@ func doBuild(cmd *cobra.Command, args []string) {
 
 	if !ok {
 		fmt.Printf("couldn't build navmesh for %v\n", inputVal)
-		return
+		os.Exit(-1)
 	}
 
 	// check output file name
diff --git a/cmd/recast/cmd/config.go b/cmd/recast/cmd/config.go
index cdbb99b..5d87647 100644
--- a/cmd/recast/cmd/config.go
+++ b/cmd/recast/cmd/config.go
@@ -59,7 +59,7 @@ func doConfig(cmd *cobra.Command, args []string) {
 
 	if cfg, ok = defaultCfgs[typeVal]; !ok {
 		fmt.Printf("error, unknown (or unimplemented) navmesh type '%v'\n", typeVal)
-		return
+		os.Exit(-1)
 	}
 
 	// check file name
diff --git a/cmd/recast/cmd/infos.go b/cmd/recast/cmd/infos.go
index b1cd4e6..110877f 100644
--- a/cmd/recast/cmd/infos.go
+++ b/cmd/recast/cmd/infos.go
@@ -25,8 +25,8 @@ func init() {
 func doInfos(cmd *cobra.Command, args []string) {
 	// check existence of navmesh
 	if len(args) < 1 {
-		fmt.Printf("no input navmesh file")
-		return
+		fmt.Println("no input navmesh file")
+		os.Exit(-1)
 	}
 	var (
 		err     error
-- 
2.43.0


From 3b98a81ec848e8e7315ce1c00616d648582049ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 38/57] fix: there is no path to finalize without a sliced
 query

The second call to finalize the same query succeeded with a path made of the
null reference.
---
 detour/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 2604b74..6605411 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2053,7 +2053,7 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 //
 // TODO: should remove maxPath as it should be the length of the path slice
 func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (pathCount int, st Status) {
-	if StatusFailed(q.query.status) {
+	if StatusFailed(q.query.status) || q.query.status == 0 {
 		// Reset query.
 		q.query = queryData{}
 		return 0, Failure
@@ -2157,7 +2157,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 		return 0, Failure
 	}
 
-	if StatusFailed(q.query.status) {
+	if StatusFailed(q.query.status) || q.query.status == 0 {
 		// Reset query.
 		q.query = queryData{}
 		return 0, Failure
-- 
2.43.0


From b5fe86ad7fa8ed63d59f5fb271a0938bb3745722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 39/57] fix: finalizing a sliced query must validate the size
 of its buffers

---
 detour/query.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 6605411..bf4d9ec 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2053,6 +2053,10 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 //
 // TODO: should remove maxPath as it should be the length of the path slice
 func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (pathCount int, st Status) {
+	if maxPath <= 0 || maxPath > len(path) {
+		return 0, Failure | InvalidParam
+	}
+
 	if StatusFailed(q.query.status) || q.query.status == 0 {
 		// Reset query.
 		q.query = queryData{}
@@ -2153,9 +2157,12 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 //	 st           The status flags for the query.
 func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existingSize int, path []PolyRef, maxPath int) (pathCount int, st Status) {
 
-	if existingSize == 0 {
+	if existingSize <= 0 || existingSize > len(existing) {
 		return 0, Failure
 	}
+	if maxPath <= 0 || maxPath > len(path) {
+		return 0, Failure | InvalidParam
+	}
 
 	if StatusFailed(q.query.status) || q.query.status == 0 {
 		// Reset query.
-- 
2.43.0


From 628fb81ca34acbfe4fe0ba420cf688de94d2ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 40/57] fix: tile data shorter than its content must be
 rejected

---
 detour/mesh.go    | 18 ++++++++++++++++--
 detour/structs.go | 25 +++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 047ded8..8fc674b 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -212,6 +212,9 @@ func (m *NavMesh) Size() int32 {
 //	see CreateNavMeshData
 func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 	var header MeshHeader
+	if len(data) < header.size() {
+		return Failure | InvalidParam
+	}
 	header.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -318,6 +321,9 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 // see CreateNavMeshData, removeTileBvTree
 func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	var hdr MeshHeader
+	if len(data) < hdr.size() {
+		return Failure | InvalidParam, 0
+	}
 	hdr.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -328,6 +334,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		return Failure | WrongVersion, 0
 	}
 
+	// Make sure the data holds the content the header announces.
+	if !hdr.contentFits(len(data)) {
+		return Failure | InvalidParam, 0
+	}
+
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
 		return Failure, 0
@@ -388,8 +399,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	}
 
 	// Build links freelist
-	tile.LinksFreeList = 0
-	tile.Links[hdr.MaxLinkCount-1].Next = nullLink
+	tile.LinksFreeList = nullLink
+	if hdr.MaxLinkCount > 0 {
+		tile.LinksFreeList = 0
+		tile.Links[hdr.MaxLinkCount-1].Next = nullLink
+	}
 
 	var i int32
 	for ; i < hdr.MaxLinkCount-1; i++ {
diff --git a/detour/structs.go b/detour/structs.go
index a5bfd7d..aceac4f 100644
--- a/detour/structs.go
+++ b/detour/structs.go
@@ -184,3 +184,28 @@ func (s *MeshHeader) unserialize(src []byte) {
 	s.BMax[2] = math.Float32frombits(little.Uint32(src[off+92:]))
 	s.BvQuantFactor = math.Float32frombits(little.Uint32(src[off+96:]))
 }
+
+// contentFits returns true if a buffer of n bytes can hold the header and the
+// tile content it announces.
+func (s *MeshHeader) contentFits(n int) bool {
+	left := int64(n) - int64(s.size())
+	for _, sec := range [...]struct {
+		count int32
+		size  int64
+	}{
+		{s.VertCount, 12},
+		{s.PolyCount, 32},
+		{s.MaxLinkCount, 12},
+		{s.DetailMeshCount, 12},
+		{s.DetailVertCount, 12},
+		{s.DetailTriCount, 4},
+		{s.BvNodeCount, 16},
+		{s.OffMeshConCount, 36},
+	} {
+		if sec.count < 0 {
+			return false
+		}
+		left -= int64(sec.count) * sec.size
+	}
+	return left >= 0
+}
-- 
2.43.0


From a7ad1f261d03a3a8d185b760ec2f95722b6e676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 41/57] fix: FindStraightPath must not append to a full
 straight path

---
 detour/query.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index bf4d9ec..dfffeb9 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -499,9 +499,11 @@ func (q *NavMeshQuery) FindStraightPath(
 					}
 
 					// Ignore status return value as we're just about to return anyway.
-					q.appendVertex(closestEndPos, 0, path[i],
-						straightPath, straightPathFlags, straightPathRefs,
-						&count)
+					if count < len(straightPath) {
+						q.appendVertex(closestEndPos, 0, path[i],
+							straightPath, straightPathFlags, straightPathRefs,
+							&count)
+					}
 
 					stat = Success | PartialResult
 					if count >= len(straightPath) {
-- 
2.43.0


From ace7d36d588a83a42bd7445b88286e8b568fd706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 42/57] fix: there is nothing to update without a sliced query

---
 detour/query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index dfffeb9..4aaca18 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1821,6 +1821,10 @@ func (q *NavMeshQuery) InitSlicedFindPath(startRef, endRef PolyRef,
 //	Returns
 //	 The status flags for the query.
 func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status {
+	if q.query.status == 0 {
+		// There is no sliced query to update.
+		return Failure
+	}
 	if !StatusInProgress(q.query.status) {
 		return q.query.status
 	}
-- 
2.43.0


From 9bd22373802a797bfc54d56ed326de7f641b5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 43/57] fix: finalizing a sliced query whose first raycast
 fails must not panic

---
 detour/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 4aaca18..29f2438 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2116,7 +2116,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
+				if n > 0 && path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
 			} else {
@@ -2234,7 +2234,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				m, _, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
+				if n > 0 && path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
 			} else {
-- 
2.43.0


From fa16fccd55021bf8b5bcef5eb79b2756a1043752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 44/57] fix: do not write past the path buffer when a sliced
 path's ray cast fills it

---
 detour/query.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 29f2438..0ad56d6 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2120,8 +2120,10 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 					n-- // remove to avoid duplicates
 				}
 			} else {
-				path[n] = node.ID
-				n++
+				if n < maxPath {
+					path[n] = node.ID
+					n++
+				}
 				if n >= maxPath {
 					status = BufferTooSmall
 				}
@@ -2238,8 +2240,10 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 					n-- // remove to avoid duplicates
 				}
 			} else {
-				path[n] = node[0].ID
-				n++
+				if n < maxPath {
+					path[n] = node[0].ID
+					n++
+				}
 				if n >= maxPath {
 					status = BufferTooSmall
 				}
-- 
2.43.0


From 40da13de9d726c1eaf21e70ea013444cd714ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 45/57] fix: Init must reject sizes whose number of bits cannot
 be computed

---
 detour/mesh.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 8fc674b..ff35e7e 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -251,6 +251,12 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 //
 // Return the status flags for the operation.
 func (m *NavMesh) Init(params *NavMeshParams) Status {
+	// More would leave less than 8 bits for the salt, and the numbers of bits
+	// are only meaningful up to 1<<31.
+	if params.MaxTiles > 1<<24 || params.MaxPolys > 1<<24 {
+		return Status(Failure | InvalidParam)
+	}
+
 	m.Params = *params
 	m.Orig = d3.NewVec3From(params.Orig[0:3])
 	m.TileWidth = params.TileWidth
-- 
2.43.0


From e472542234fc24fb02f3bb157a50239d334b389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 46/57] fix: CreateNavMeshData must reject negative counts

---
 detour/navmeshcreate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 2b05084..ba5fb2d 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -550,10 +550,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	if params.VertCount >= 0xffff {
 		return nil, fmt.Errorf("wrong value for params.VertCount")
 	}
-	if params.VertCount == 0 || params.Verts == nil {
+	if params.VertCount <= 0 || params.Verts == nil {
 		return nil, fmt.Errorf("wrong value for params.VertCount or params.Verts")
 	}
-	if params.PolyCount == 0 || params.Polys == nil {
+	if params.PolyCount <= 0 || params.Polys == nil {
 		return nil, fmt.Errorf("wrong value for params.PolyCount or params.Polys")
 	}
 
-- 
2.43.0


From 674e2ac040e88493026054746e644784dbd25b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 47/57] fix: off-mesh connections must not overflow 16-bit
 vertex and polygon indices

---
 detour/navmeshcreate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index ba5fb2d..64ea759 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -626,6 +626,9 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// Off-mesh connectionss are stored as polygons, adjust values.
 	totPolyCount := int(params.PolyCount + storedOffMeshConCount)
 	totVertCount := int(params.VertCount + storedOffMeshConCount*2)
+	if totVertCount >= 0xffff || totPolyCount > 0xffff {
+		return nil, fmt.Errorf("too many vertices or polygons with the off-mesh connections")
+	}
 
 	// Find portal edges which are at tile borders.
 	var (
-- 
2.43.0


From b79937f415ac36c8a88163dd76ab95b68a169114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 48/57] fix: Decode must reject a tile with a negative data
 size

---
 detour/mesh.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index ff35e7e..500e20d 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -105,6 +105,9 @@ func Decode(r io.Reader) (*NavMesh, error) {
 		if tileHdr.TileRef == 0 || tileHdr.DataSize == 0 {
 			break
 		}
+		if tileHdr.DataSize < 0 {
+			return nil, fmt.Errorf("wrong data size of tile %d: %d", i, tileHdr.DataSize)
+		}
 
 		data := make([]byte, tileHdr.DataSize)
 		if data == nil {
-- 
2.43.0


From 26b192e8e8acc5268ddb372fe67bd12dd175e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 49/57] fix: Raycast must reject a path capacity larger than
 the path buffer

---
 detour/query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 0ad56d6..d91063f 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1447,7 +1447,8 @@ func (q *NavMeshQuery) Raycast(
 
 	// Validate input
 	if startRef == 0 || !q.nav.IsValidPolyRef(startRef) ||
-		len(startPos) < 3 || len(endPos) < 3 || filter == nil || hit == nil {
+		len(startPos) < 3 || len(endPos) < 3 || filter == nil || hit == nil ||
+		hit.MaxPath > len(hit.Path) {
 		st = Failure | InvalidParam
 		return
 	}
-- 
2.43.0


From 162190bdd80af278a166d7493622a0bc8141a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 50/57] fix: queryPolygons6 must reject a capacity larger than
 the buffer

---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index d91063f..2e07fc5 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1162,7 +1162,7 @@ func (q *NavMeshQuery) queryPolygons6(
 	polys []PolyRef,
 	maxPolys int32) (polyCount int32, st Status) {
 
-	if polys == nil || maxPolys < 0 {
+	if polys == nil || maxPolys < 0 || int(maxPolys) > len(polys) {
 		st = Failure | InvalidParam
 		return
 	}
-- 
2.43.0


From 90273b3c95a19d36e84aeeca140a1b30f0668a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:46 +0000
Subject: [PATCH 51/57] fix: Raycast must not keep the hit edge of a previous
 ray cast

---
 detour/query.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/detour/query.go b/detour/query.go
index 2e07fc5..ccb08fb 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1459,6 +1459,7 @@ func (q *NavMeshQuery) Raycast(
 
 	// The hit may have been filled by a previous raycast.
 	hit.T = 0
+	hit.HitEdgeIndex = -1
 	hit.PathCount = 0
 	hit.PathCost = 0
 
-- 
2.43.0


From a26ad26843753b86c3c285d76cfcc3f1dc160bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 52/57] fix: BuildRegionsMonotone must fail when a row has more
 segments than region numbers

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index 24f4baa..7295fd8 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -100,6 +100,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 				}
 
 				if previd == 0 {
+					if rid >= borderReg {
+						ctx.Errorf("BuildRegionsMonotone: Region ID overflow")
+						return false
+					}
 					previd = rid
 					rid++
 					if int(previd) >= len(sweeps) {
-- 
2.43.0


From 1868916c282ad1361113318a4dac8926d75ff253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:40 +0000
Subject: [PATCH 53/57] fix: a cell of a compact heightfield may have more than
 255 spans

---
 recast/heightfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/heightfield.go b/recast/heightfield.go
index f737367..63edd8f 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -193,7 +193,7 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 // compact heightfield.
 type CompactCell struct {
 	Index uint32 // Index to the first span in the column.
-	Count uint8  // Number of spans in the column.
+	Count uint32 // Number of spans in the column.
 }
 
 // CompactSpan represents a span of unobstructed space within a compact
-- 
2.43.0


From 09063d27e0227740f704207474d8bb4fc7257e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 54/57] fix: a sweep may have more than 65535 samples

---
 recast/region.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recast/region.go b/recast/region.go
index 7295fd8..b3e6257 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -138,7 +138,7 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 
 		// Create unique ID.
 		for i := uint16(1); i < rid; i++ {
-			if sweeps[i].nei != RC_NULL_NEI && sweeps[i].nei != 0 && prev[sweeps[i].nei] == int32(sweeps[i].ns) {
+			if sweeps[i].nei != RC_NULL_NEI && sweeps[i].nei != 0 && prev[sweeps[i].nei] == sweeps[i].ns {
 				sweeps[i].id = sweeps[i].nei
 			} else {
 				if id >= borderReg {
@@ -1168,6 +1168,6 @@ const RC_NULL_NEI uint16 = 0xffff
 type sweepSpan struct {
 	rid uint16 // row id
 	id  uint16 // region id
-	ns  uint16 // number samples
+	ns  int32  // number samples
 	nei uint16 // neighbour id
 }
-- 
2.43.0


From 077fa601e3e96f0afca494c8ef561cc1152ec4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 55/57] fix: floodRegion must flood down to two levels below
 its level

---
 recast/region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/region.go b/recast/region.go
index b3e6257..b0b9939 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -415,7 +415,7 @@ func floodRegion(x, y, i int32,
 		count      int32
 	)
 	if level >= 2 {
-		lev = lev - 2
+		lev = level - 2
 	}
 
 	for len(*stack) > 0 {
-- 
2.43.0


From 14cc98ccc90a26f5b54e6acc986670264f9f1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 56/57] fix: sortCellsByLevel must put cells above the start
 level in the first stack

---
 recast/region.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recast/region.go b/recast/region.go
index b0b9939..e6ab26b 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -623,9 +623,9 @@ func sortCellsByLevel(startLevel uint16,
 					continue
 				}
 
-				level := chf.Dist[i] >> loglevelsPerStack
-				sID := startLevel - level
-				if uint32(sID) >= nbStacks {
+				level := int32(chf.Dist[i] >> loglevelsPerStack)
+				sID := int32(startLevel) - level
+				if sID >= int32(nbStacks) {
 					continue
 				}
 				if sID < 0 {
-- 
2.43.0


From efab0ea6e594a445557f572af8c8aa61883d0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 57/57] fix: a span at the top of the heightfield must have a
 height

---
 recast/rasterization.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/rasterization.go b/recast/rasterization.go
index ff6f20c..51bf3d6 100644
--- a/recast/rasterization.go
+++ b/recast/rasterization.go
@@ -233,7 +233,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 			}
 
 			// Snap the span to the heightfield height grid.
-			ismin := uint16(int32Clamp(int32(math32.Floor(smin*ich)), 0, RC_SPAN_MAX_HEIGHT))
+			ismin := uint16(int32Clamp(int32(math32.Floor(smin*ich)), 0, RC_SPAN_MAX_HEIGHT-1))
 			ismax := uint16(int32Clamp(int32(math32.Ceil(smax*ich)), int32(ismin+1), RC_SPAN_MAX_HEIGHT))
 
 			if !hf.addSpan(x, y, ismin, ismax, area, flagMergeThr) {
-- 
2.43.0

