# ---------------------------------------------------------------- persistence
T = 'not built yet'
MESH, TILE, STRUCTS = 'detour/mesh.go', 'detour/tile.go', 'detour/structs.go'
QUERY, CREATE, NODE = 'detour/query.go', 'detour/navmeshcreate.go', 'detour/node.go'

prop('P01', 'A saved navmesh field is read back from where it was written',
 'For every record of a saved navigation mesh (set header, tile header, mesh header, vertices, polygons, links, detail meshes, detail vertices, detail triangles, bounding volume nodes, off-mesh connections), the writer and the reader place every field at the same offset, with the same width, byte order and record stride, and the sections follow each other in the same order. No two fields overlap, no exported field is left out, and no field is read with a narrower width than it was written.',
 ['inputs'], 'every navigation mesh content, every number of polygons, links, detail triangles and off-mesh connections',
 'The tests read three sample files, where many fields are zero or equal; a swapped or truncated field only shows on data whose fields differ, and nothing compares a written file with a read one field by field.',
 [STRUCTS, TILE, MESH, CREATE],
 [('field-by-field serialization', STRUCTS), ('tile section serialization', TILE), ('set and tile headers', MESH)], technique='abstract interpretation of the encoder and the decoder over affine buffer offsets (SSA)',
 note='Every byte of every saved record, with loops summarized by their iteration number; transfers under conditions are reported. What may skip whole tiles (empty ones) is not part of it.')

prop('P02', 'The saved file has the binary layout of Detour',
 'A written navigation mesh file is the little-endian layout documented by Detour: a set header (magic MSET, version 1, number of tiles, parameters), then for each tile its 8-byte header, the 100-byte mesh header (magic DNAV, version 7) and the vertices, 32-byte polygons, 12-byte links, 12-byte detail meshes, detail vertices, detail triangles, 16-byte bounding volume nodes and 36-byte off-mesh connections in this order. Every field is at the offset and has the width it has in that layout.',
 ['inputs'], 'every navigation mesh content',
 'Compatibility with the C++ tools holds for every file or not at all; a layout changed consistently in the reader and the writer keeps any round trip test green.',
 [STRUCTS, TILE, MESH], [('layout', STRUCTS), ('tile layout', TILE), ('magic and version constants', MESH)], technique='abstract interpretation of the encoder over affine buffer offsets (SSA), compared with a layout table',
 note='Every byte written by NavMesh.ToWriter and by CreateNavMeshData against the table of the Detour layout.')

prop('P03', 'Foreign or truncated navmesh data is rejected',
 'Decoding a navigation mesh, and adding a tile or initializing a navigation mesh from tile data, succeed only if the magic number and the version are the expected ones; otherwise the wrong magic or the wrong version is reported. Decoding reads each part of its input completely and reports an error for an input that ends early.',
 ['inputs', 'fault_sequences'], 'every input stream, including those that end or fail at any byte and those that return fewer bytes than asked',
 'The tests decode well-formed files from disk; wrong versions, truncated streams and readers returning short counts are never exercised.',
 [MESH], [('Decode', MESH), ('AddTile', MESH), ('InitForSingleTile', MESH)], technique='path-sensitive fact and fault propagation over the SSA form',
 note='Every path of the three operations; each read of the input succeeds, fails or ends early.')

prop('P04', 'No I/O or encoding error is lost, and files are closed',
 'When reading geometry or settings, decoding, writing or saving reports an error at any step, the operation as a whole reports an error (the command line tool exits with an error) and never success. Every file the library creates is closed on every path, and the error of closing a written file is reported too.',
 ['fault_sequences'], 'every failing call: create, open, read, write, close, marshal, unmarshal',
 'No test injects an I/O fault; a full disk or a failing writer is never exercised.',
 [MESH, STRUCTS, TILE, 'recast/inputgeom.go', 'recast/meshloaderobj.go', 'cmd/recast/cmd/build.go', 'cmd/recast/cmd/config.go', 'cmd/recast/cmd/infos.go'],
 [('SaveToFile, ToWriter', MESH), ('LoadOBJMesh', 'recast/inputgeom.go'), ('commands', 'cmd/recast/cmd')], technique='path-sensitive fault propagation and typestate over the SSA form',
 note='Every path of every operation with an error result and of the commands, with every call that reports an error failing or not.')

prop('P05', 'Every tile is saved, and every saved tile is added back',
 'Saving a navigation mesh writes every tile that has data, with the reference of the tile, the size of its data and so many bytes, and announces exactly the number of tiles it writes. Decoding adds each announced tile with the reference and the bytes it was saved with, so that the references of tiles and polygons stay valid; it stops before the announced number only at a tile without reference or data, and otherwise fails.',
 ['inputs', 'histories'], 'every set of tiles, with any salts, layers, gaps in the tile table and data sizes',
 'The tests save meshes whose tiles fill the table from the start and have never been removed.',
 [MESH, TILE, STRUCTS], [('ToWriter', MESH), ('Decode', MESH)], technique='path-sensitive dataflow over the SSA form with ghost counters of the tiles written, counted and added',
 note='All paths of the writer and of Decode. The bytes themselves are P01 and P02, errors P04, and what adding a tile does R05.')

# ----------------------------------------------------------------- references
prop('R01', 'Packing and unpacking polygon and tile references are inverse',
 'For every way the parameters split the 32 bits of a reference between salt, tile and polygon, unpacking a packed reference gives back the same salt, tile index and polygon index, whenever each fits its number of bits. All the functions that extract a part of a reference agree on where it is.',
 ['configurations', 'inputs'], 'every number of tile and polygon bits accepted by the initialization, every salt, tile and polygon index',
 'The tests use two or three bit splits with small indices; an overlap or a wrong mask only shows with other splits or large salts.',
 [MESH], [('encodePolyID, DecodePolyID, decodePolyIDSalt/Tile/Poly', MESH)], technique='bit-provenance abstract interpretation of the SSA form',
 note='Every accepted split of the reference bits, every bit of an arbitrary reference: each bit is followed exactly through the packing and unpacking functions.')

prop('R02', 'Lookups reject stale and malformed references',
 'Looking up a tile or a polygon by a reference supplied by the user, checking whether a polygon reference is valid, and removing a tile succeed only for a reference whose tile index exists, whose salt is the current salt of that tile, whose tile holds data, and whose polygon index is below the number of polygons of that tile. Every other reference, including zero, is answered by a failure, false or nil, without touching the navigation mesh.',
 ['histories', 'inputs'], 'every history of added and removed tiles and every 32-bit reference',
 'The tests look up a handful of valid references; stale salts, free tiles and out of range polygons are reached by particular histories or bit patterns only.',
 [MESH], [('TileAndPolyByRef, IsValidPolyRef, TileByRef, RemoveTile', MESH)], technique='path-condition dataflow over the SSA form, callees analysed at their call sites',
 note='Every path of the lookups for every 32-bit reference. Assumes PolyCount of a loaded tile is not negative.')

prop('R03', 'Removing a tile invalidates its references and frees its content',
 'Removing a tile successfully advances its salt by one modulo the number of salt values, never to zero, so that no earlier reference to it stays valid. Everything that adding a tile stores in it is cleared, the tile is taken out of the position lookup, and it goes back to the list of free tiles.',
 ['histories'], 'every sequence of added and removed tiles',
 'The test suite removes no tile; salt wrap-around needs hundreds of cycles of one tile.',
 [MESH], [('RemoveTile', MESH)], technique='path-condition dataflow with range analysis, and constant propagation of boundary salts',
 note='All paths of RemoveTile; the salt is shown nonzero for every salt, its successor is compared for the boundary salts of each number of salt bits. The position lookup list is assumed well formed.')

prop('R04', 'Queries validate the references they are given',
 'A query that receives polygon references from its caller follows them, that is uses them to reach tile or polygon data, only after the navigation mesh has confirmed that they are valid. With an invalid start, end or previous reference it reports a failure.',
 ['inputs', 'histories'], 'every query entry point and every 32-bit reference, in particular references to tiles removed since',
 'The tests pass valid references, and one or two zero references; a stale one makes an unchecked lookup index out of range or return another tile.',
 [QUERY, MESH], [('parameter validation of the query methods', QUERY)], technique='path-condition dataflow over the SSA form, callees analysed at their call sites',
 note='Every path of the query methods taking references. References stored in links and search nodes are trusted; elements of caller slices are followed.')

prop('R05', 'Adding a tile is all or nothing and keeps the tile lists intact',
 'Adding a tile succeeds only if there was no tile at its position and layer. It then takes exactly the tile it uses out of the list of free tiles and puts it in front of the other tiles in the position lookup list of its position, so that no tile is lost from either list, and returns the reference of that tile; when a former reference is asked for, the tile gets the index and the salt of that reference, otherwise it is the first free tile with the salt it had. An attempt to add a tile that fails changes nothing in the navigation mesh.',
 ['histories', 'inputs'], 'every history of added and removed tiles, every tile position, layer and reference asked for',
 'The tests add one tile to an empty mesh; hash collisions, layers, and tiles restored from the middle of the free list need particular histories.',
 [MESH], [('AddTile', MESH)], technique='path-condition dataflow over the SSA form with the list links as ghost state',
 note='All paths of AddTile with the helpers that touch the tile lists. The lists are assumed well formed before the call. The initialization of a mesh is not covered.')

prop('R06', 'Polygon links are complete, and none is lost or left dangling',
 'Every link taken from the free links of a tile is stored in the links of that tile with its reference, edge, side, successor and, on a border side, its interval set, and becomes the first link of one polygon of that tile, in front of the links the polygon had. A link is given back to the free links exactly when it is taken out of the list of its polygon. Adding a tile links it, in both directions and with the right sides, with every tile found at its position and on its eight sides; removing a tile removes the links to it from all of these tiles.',
 ['histories'], 'every history of added and removed neighbouring tiles, every combination of exhausted free links',
 'The tests build single tiles; links between tiles, links reused after a removal, and exhausted free links appear in histories of several tiles only.',
 [MESH], [('connectIntLinks, connectExtLinks, baseOffMeshLinks, connectExtOffMeshLinks', MESH), ('unconnectLinks', MESH), ('AddTile, RemoveTile', MESH)], technique='typestate analysis of links and list cells over the SSA form, and induction variables of the loops over neighbours',
 note='All paths of the functions that take or give back links, and the loops of AddTile and RemoveTile over the neighbours. Which polygon a link leads to, and the values of its interval, are not decided.')

prop('R07', 'Looking up tiles by position finds exactly the tiles there',
 'Asked for the tile at a position and layer, the navigation mesh returns a tile only if it has this position and layer, and none only if there is none; asked for the tiles at a position, it stores every tile at that position, each once and one after the other, until there is no more room, and returns how many it stored. The reference of a tile consists of its current salt and its index and is zero for no tile. The tile position of a point is its distance from the origin of the mesh divided by the tile size, rounded down.',
 ['histories', 'inputs'], 'every set of tiles (including positions that share a list), every position and layer, also negative ones',
 'The tests look up tiles in meshes of one tile or of one layer; positions that share a list, several layers and negative coordinates need particular meshes.',
 [MESH], [('TileAt, TileRefAt, TilesAt', MESH), ('TileRef, polyRefBase', MESH), ('CalcTileLoc', MESH)], technique='path-sensitive dataflow over the SSA form with branch conditions on the tile gone past',
 note='All paths of the lookups by position. The lists are assumed well formed (R05, R03).')

# ------------------------------------------------------- purity, concurrency
prop('C01', 'Queries never modify the navigation mesh',
 'No query (finding paths at once or sliced, straight paths, ray casts, closest points, nearest polygons, validity checks), and no lookup or save operation of the navigation mesh, modifies the navigation mesh it runs on: its tiles, polygons, links, vertices, lookup tables and parameters. Two query objects can therefore share one navigation mesh, and a query has no effect on the results of another.',
 ['histories', 'schedules'], 'every query, argument and order of queries',
 'A test sees one result after one query; a stray write into shared vertices shows only in later queries over the same polygons, or as a data race.',
 [QUERY, MESH, 'detour/polyquery.go', 'detour/queryfilter.go', NODE], [('query methods', QUERY), ('lookups, ToWriter', MESH)], technique='context-sensitive pointer and effect analysis over the SSA form (every call site analysed in its own copy of the callee)',
 note='All instructions reachable from the exported query and lookup operations, dynamic calls resolved by the objects that reach them. Memory handed in through different parameters is assumed not to overlap.')

prop('C02', 'The caller\'s input data is not modified',
 'Positions, extents, polygon corridors and filters passed to the queries, the source data and parameters passed to navigation mesh creation, tile data passed to the navigation mesh, and vertices, triangles, bounds and settings passed to the voxel build stages are only read. The only caller memory written to is the one documented as output: result buffers, the structure being built and the build context.',
 ['inputs', 'histories'], 'every exported function of the two libraries and every argument',
 'Vectors are slices, so an in-place operation silently changes the caller\'s data; the tests use each input once and never look at it again.',
 [QUERY, MESH, CREATE, 'recast/recast.go', 'recast/rasterization.go', 'recast/area.go', 'recast/filter.go'],
 [('vector operations on arguments', QUERY), ('CreateNavMeshData', CREATE), ('build stages', 'recast')], technique='context-sensitive pointer and effect analysis over the SSA form (every call site analysed in its own copy of the callee)',
 note='Every exported function of the two libraries, against a table of the parameters documented as output.')

prop('C03', 'The libraries keep no mutable package-level state',
 'No function of the navigation, voxel build and sample packages modifies a package-level variable, or memory reachable from one, after package initialization. Independent navigation meshes, queries and builds therefore cannot influence each other, whether they run one after the other or at the same time.',
 ['schedules', 'histories'], 'every interleaving of independent builds and queries',
 'The tests run one build or query at a time in a fresh process.',
 ['detour', 'recast', 'sample'], [('no global writes', 'recast/recast.go')], technique='context-sensitive pointer and effect analysis over the SSA form (every call site analysed in its own copy of the callee)',
 note='Every function of the libraries, closures and method values included; package initialization excepted.')

prop('C04', 'Building and querying are deterministic',
 'The result of a build, a query or a save depends only on its inputs: the navigation, voxel build and sample packages take no decision and compute no result from map iteration order, the clock, random numbers, the environment, goroutine scheduling or memory addresses. Time is only used by the performance timers of the build context.',
 ['schedules', 'programs'], 'every run on every input',
 'A nondeterministic source can agree with the expected file on any number of test runs.',
 ['detour', 'recast', 'sample'], [('sorts, hashes and timers', 'recast/buildcontext.go')], technique='query over the SSA form and taint propagation of clock values and addresses',
 note='Every instruction of the libraries and the vector package. Floating-point differences between processors are out of scope.')

prop('C05', 'Results and stored state do not alias the caller\'s buffers',
 'A sliced path query keeps its own copy of the start and end positions, and a navigation mesh keeps its own copy of the tile data and of the parameters it is initialized with, so that reusing these buffers afterwards changes nothing. Positions returned by the queries are not views into the vertices of the navigation mesh or of the search nodes.',
 ['histories'], 'every history in which the caller reuses its buffers, or writes to the results, between two calls',
 'The tests never touch a buffer again after passing it.',
 [QUERY, MESH], [('InitSlicedFindPath, FindNearestPoly', QUERY), ('AddTile', MESH)], technique='context-sensitive pointer and effect analysis over the SSA form (every call site analysed in its own copy of the callee)',
 note='What every memory cell of the receiver and every result may refer to after the call, for positions and tile data.')

# -------------------------------------------------------------------- queries
prop('Q01', 'Searches only cross into polygons their filter accepts',
 'A path search, at once or sliced, a ray cast and a nearest polygon query enter, report or evaluate a polygon other than the start polygon only after the filter they were given accepted that very polygon. A polygon rejected by the filter is never expanded and never a result.',
 ['inputs'], 'every navigation mesh, every filter and every start and end',
 'The tests use the default filter that accepts everything, or one excluded flag in one mesh.',
 [QUERY, 'detour/polyquery.go'], [('neighbour expansion of FindPath, UpdateSlicedFindPath, Raycast, queryPolygonsInTile', QUERY)], technique='path-sensitive abstract interpretation of the SSA form with must-facts "the filter accepted this reference", callees analysed at their call sites',
 note='Every reference entered, stored or reported by a search must carry the accepted fact of the filter it was given; the facts follow values through helpers, ghosts and joins.')

prop('Q02', 'Every status says whether the operation succeeded, failed or is in progress',
 'Every status returned by an exported operation has at least one of the success, failure and in-progress flags, and never both success and failure. A status flag is never lost or turned into another by combining statuses.',
 ['inputs'], 'every exported function returning a status and every path through it',
 'The tests look at the status of the few paths they take; detail flags alone are neither success nor failure to the callers that test them.',
 [QUERY, MESH, 'detour/status.go'], [('status results', QUERY)], technique='path-sensitive known-bits dataflow over the SSA form, callees analysed at their call sites',
 note='Every path of each exported function with a Status, for all inputs; sliced queries for each class of the status kept between calls. Loops by a fixpoint. Assumes 32-bit and wider integer arithmetic does not overflow.')

prop('Q03', 'Results never overflow the caller\'s buffers, and truncation is reported',
 'A query writes results only at positions below the capacity of the buffer it was given. If results are left out because the buffer is full, the status has the buffer-too-small flag.',
 ['inputs'], 'every buffer capacity from one and every length of the result',
 'The tests use buffers far larger than their results.',
 [QUERY, 'detour/polyquery.go'], [('pathToNode, appendVertex, Raycast, FinalizeSlicedFindPath', QUERY)], technique='path-sensitive abstract interpretation over SSA with difference bounds and capacity contracts',
 note='Every function that fills a slice parameter, a slice of a result record or its own batch buffer is found by a dataflow query; at every position written the difference-bound facts of the path imply that it is inside the buffer, capacities told are shown at every call site, result counts are shown to be at most the capacity, and paths that found no room report BufferTooSmall. The callback of polygon queries is shown to keep 0 <= count <= capacity <= len and to flag what it leaves out.')

prop('Q04', 'A ray cast result depends on this ray cast only',
 'When a ray cast returns success, every result of the hit record (hit parameter, normal, hit edge, number of visited polygons, cost) has been set by this call, whatever the record held before. The number of visited polygons is the number this call stored in the path, which is at most the announced capacity.',
 ['histories'], 'every history of ray casts reusing the same record',
 'The tests use a new record for each ray cast.',
 [QUERY], [('Raycast', QUERY)], technique='flow-sensitive symbolic dataflow on SSA (typestate of record fields + linear facts)',
 note='Result fields of Raycast set on every successful return; count = positions stored ≤ capacity.')

prop('Q05', 'Incomplete searches are reported',
 'A path search that could not allocate a search node for a neighbour reports the out-of-nodes flag, and one whose path does not end at the requested end polygon reports the partial-result flag; finalizing a sliced search along an existing path reports it when none of the polygons of that path was visited. The flags are kept until the result of the search is returned, also across the steps of a sliced search.',
 ['inputs', 'histories'], 'every search, node pool size and number of slices',
 'The tests use pools that are large enough and reachable ends.',
 [QUERY], [('FindPath, UpdateSlicedFindPath, FinalizeSlicedFindPath, FinalizeSlicedFindPathPartial', QUERY)], technique='path-sensitive abstract interpretation over status bits with a ghost for failed node allocations',
 note='The kept status is followed bit by bit through the sliced search; completeness must follow from the path conditions.')

prop('Q06', 'Each search starts from an empty search state',
 'Before a search puts its start polygon in the open list, it has emptied both the node pool and the open list of its query object, so that nodes, costs or parents of an earlier search are never used. Emptying the node pool forgets every node, and a node allocated again is fully initialized.',
 ['histories'], 'every sequence of searches, finished or abandoned, on one query object',
 'The tests run one search per query object.',
 [QUERY, NODE, 'detour/nodequeue.go'], [('FindPath, InitSlicedFindPath', QUERY), ('NodePool.Clear, Node', NODE)], technique='typestate analysis of the search state, and invariants of an arbitrary bucket of the node pool',
 note='Typestate of pool and open list per query object; for-all-bucket argument by a symbolic index.')

prop('Q07', 'Open and closed marks of the search nodes are consistent',
 'In the path searches, a node is put in the open list exactly when it is not in it yet and is marked open then, a node already in the open list is moved instead of put in again, and a node taken out of it is marked closed and no longer open. A node already visited is only updated when the new total cost is lower.',
 ['inputs'], 'every navigation mesh and search',
 'Wrong marks change the result only on graphs where a node is reached several times with decreasing costs.',
 [QUERY, 'detour/nodequeue.go'], [('FindPath, UpdateSlicedFindPath', QUERY)], technique='typestate analysis of search nodes over their flag bits',
 note='The flags of the node obtained or popped last are followed as known bits through every path of the searches.')

prop('Q08', 'A query that succeeds has set all of its results',
 'A query or lookup that gives results through parameters (positions, or pointers to numbers, flags, tiles or polygons) has stored a result in every one of them that is not nil whenever it returns without failure: a successful status, true, no error or a reference found. The caller never takes what was in the variable before for a result.',
 ['inputs'], 'every path of every query and lookup with result parameters',
 'A result left unset shows only on the path that forgets it, and only when the caller notices the old value.',
 [QUERY, MESH, 'detour/common.go'], [('ClosestPointOnPoly, edgeMidPoint, portal points', QUERY), ('lookups, FindNearestPolyInTile', MESH)], technique='path-sensitive dataflow over the SSA form: must-stored result parameters',
 note='Every path of the exported functions and of the helpers that can fail; positions count as set by a store into them or a call that writes them. Not whether the value is the right one; updateSliced may leave its iteration count alone when there is nothing to do.')

prop('Q09', 'The standard filter obeys its include and exclude flags and area costs',
 'The standard filter accepts a polygon exactly if at least one of the polygon\'s flags is an include flag and none is an exclude flag. The cost of moving is the distance multiplied by the cost of the area of the current polygon; the setters change exactly the flags or the area cost the getters return.',
 ['inputs'], 'all 2^48 combinations of polygon, include and exclude flags, and all areas',
 'The tests use two or three flag combinations.',
 ['detour/queryfilter.go'], [('PassFilter, Cost', 'detour/queryfilter.go')], technique='bit-provenance abstract interpretation of the SSA form',
 note='All flag combinations by the path conditions of the filter; all areas for the setters and getters. Says nothing about the floating-point value of the distance.')

prop('Q10', 'Path searches follow the links, at the cost the filter gives',
 'A path search, at once or sliced, reaches a polygon only over a link of the polygon it takes out of the open list (or, where shortcuts are allowed, by a successful ray cast from the parent of that). The cost of a search node is that of the node it is reached from plus what the filter gives for the step, plus the way to the end position on the end polygon; its total adds at most the straight distance to the end position. No link is left out, except those without a reference, back to the parent, to polygons the filter rejects or no search node is left for, and those that give nothing cheaper; and a search that does not fail goes on until no node is left, the end polygon is taken out, or its iterations are used up.',
 ['inputs','histories'], 'every navigation mesh, filter, pair of polygons and budget of iterations, and every state of the search',
 'The tests compare a few paths on two meshes with unit costs; no test runs a sliced search.',
 ['detour/query.go'], [('FindPath, UpdateSlicedFindPath', 'detour/query.go')], technique='path-sensitive symbolic dataflow with ghost state for the current link',
 note='Every step of the searches, from any state of the pool and the open list. Costs are compared as sums of symbolic terms; nothing is said about rounding. Polygons are assumed to have no link to themselves.')

prop('Q11', 'The open list of a search gives the cheapest node first',
 'The open list of the searches is a priority queue: adding a node keeps all the others, taking a node removes and returns one with the smallest total cost, and after a node has become cheaper it has moved to where it belongs. No node is lost or duplicated by any of these.',
 ['inputs','histories'], 'every content of the open list, and every sequence of adding, taking and cheapening nodes',
 'A misplaced node only shows as a detour in some path of a mesh with the right costs; the tests search small meshes.',
 ['detour/nodequeue.go'], [('push, pop, modify', 'detour/nodequeue.go')], technique='path-sensitive symbolic dataflow: heap typestate of the place to fill',
 note='One inductive step per operation: from a heap, each path of push, pop and modify leaves a heap of the same nodes plus or minus one. Totals are taken to be numbers.')

prop('Q12', 'A path is stored along the parents, in order and complete',
 'The path a search returns is made of the nodes from the start to its last node, each one once and in order: a path found at once is stored from its last polygon back to its first one along the parents, and if it is too long for the result, its first part is stored; a sliced search reverses the parents from its best node, or from the last node of the existing path that was visited, and stores the polygons from the start on, where a shortcut found by a ray cast is filled in by the polygons below the ray from the one node to the next, without a duplicate. The number returned is the number of polygons stored, and the path is cut short only when it is full or by what a ray cast reports.',
 ['inputs','histories'], 'every history of searches over every mesh, every size of the result',
 'No test finalizes a sliced search along an existing path or with shortcuts, or gives a result that is too small; what is wrong with a path depends on what the search met.',
 ['detour/query.go'], [('pathToNode', 'detour/query.go'), ('FinalizeSlicedFindPath', 'detour/query.go'), ('FinalizeSlicedFindPathPartial', 'detour/query.go')], technique='path-sensitive symbolic dataflow: ghosts for the walk along the parents',
 note='Relies on Q10 (the parents lead to the start) and Q09 (nodes). That the parents of a node are walked the same way twice is assumed; what a ray cast stores and reports is the matter of Q04 and Q05.')

prop('Q13', 'A box query considers every polygon in every tile the box touches',
 'Looking for the polygons near a position searches all the tiles at all the positions from the one of the lower to the one of the upper corner of the box around it. In each of them every polygon is considered: by walking the whole bounding volume tree, leaving out only subtrees whose bounds the box does not overlap, or one polygon after the other. A polygon is found exactly if its bounds overlap the box, it is no off-mesh connection, and the filter accepts it; each one found is handed over once, with its own reference, however many there are.',
 ['inputs'], 'every box over every mesh, with and without bounding volume trees',
 'A polygon that is left out only shows if it is the nearest one; the tests look for a few positions, and never for more polygons than fit in a batch.',
 ['detour/query.go', 'detour/mesh.go'], [('queryPolygons4, queryPolygonsInTile', 'detour/query.go'), ('queryPolygonsInTile, FindNearestPolyInTile', 'detour/mesh.go')], technique='path-sensitive symbolic dataflow: ghosts for the next tile, node and polygon',
 note='The shape of the trees is assumed (leaves and escape indices in depth-first order). The comparison of the bounds itself, the bounds of a polygon without a tree and the rounding of the box are not covered.')

# ----------------------------------------------------------------- robustness
prop('B01', 'The libraries never terminate the process',
 'No function of the navigation, voxel build and sample packages terminates the process (by exiting, or by fatal logging), whatever its input; failures are returned to the caller. Only the command line tool may exit.',
 ['inputs'], 'every function of the libraries',
 'A process that exits cannot be observed by a unit test, and the paths that do are error paths.',
 ['detour', 'recast', 'sample'], [('error returns', MESH)], technique='call and value query over the SSA form',
 note='Every call, deferred call and function value of the library packages is resolved; none may end the process. Covers explicit terminators, not fatal runtime errors (stack overflow, out of memory).')

prop('B02', 'No stub or unfinished code path panics',
 'No function the libraries export, and nothing it calls, panics on purpose to signal unfinished, untested or unexpected code, or an unexpected input of the user. The only deliberate panics are about broken internal invariants: undersized internal buffers, and query objects that were not obtained from their constructor.',
 ['inputs'], 'every exported function of the libraries',
 'The tests do not reach such paths, or they would fail.',
 ['detour', 'recast', 'sample'], [('explicit panics', 'recast/region.go')], technique='call graph reachability of explicit panics',
 note='Class hierarchy call graph from the exported functions; every explicit panic reached must be one of the confirmed invariant checks. Implicit run-time panics are not in scope of this property.')

prop('B03', 'Index and offset arithmetic is not done in a type too narrow for it',
 'Sums, differences and products of 8-bit and 16-bit numbers (vertex, edge, polygon, region, layer and node numbers, distances, spans) used as indices, offsets, numbers or in comparisons never wrap around, for every mesh and heightfield within the sizes the formats allow; differences of wider unsigned numbers do not go below zero; and no wider number is cut to 8 or 16 bits and then used as an index, an offset or a bound unless it fits.',
 ['inputs'], 'every mesh up to the sizes the formats allow',
 'Wrapping needs meshes with more than 21845 vertices, 85 vertices per detail polygon or 32767 regions; the sample meshes are far smaller.',
 [MESH, QUERY, CREATE, 'recast/contour.go', 'recast/mesh.go', 'recast/meshdetail.go', 'recast/polymesh.go', 'recast/region.go', 'recast/area.go'],
 [('vertex offsets', MESH)], technique='abstract interpretation (relational intervals) of narrow integer arithmetic over SSA',
 note='Decides the integer sums, differences, products and truncations by the ranges the analysis derives from guards, loops and field bounds; conversions of floating-point numbers are outside it (Q03 has the quantised boxes).')

prop('B05', 'Creating navmesh data rejects source data it cannot represent',
 'Creating tile data returns an error, and no data, if a polygon can have more vertices than the format allows, if there are too many vertices for 16-bit indices (the end points of the off-mesh connections included), or if vertices or polygons are missing. It returns data only when all these conditions hold.',
 ['inputs'], 'every source data',
 'The tests create data from valid meshes only.',
 [CREATE], [('parameter validation of CreateNavMeshData', CREATE)], technique='path-condition dataflow with range analysis',
 note='Every path of CreateNavMeshData for all source data. Array lengths shorter than the announced counts are not covered.')

prop('B06', 'Initialization rejects parameters that leave too few salt bits',
 'Initializing a navigation mesh succeeds only if the tile bits and the polygon bits needed for the requested maximum numbers leave at least 8 bits, and at most 31, of the 32-bit reference for the salt. In every other case it reports an invalid parameter.',
 ['configurations'], 'every maximum number of tiles and polygons',
 'The tests initialize with a few small sizes.',
 [MESH], [('Init', MESH)], technique='path-condition dataflow with range analysis, and constant propagation of boundary sizes',
 note='Every path of Init with symbolic numbers of bits, and the number of bits of every power of two and its successor, for tiles and polygons.')

prop('B07', 'No update is lost in a copy',
 'What the libraries store reaches the state or the caller it is meant for: no function writes to a private copy, on any path, what it writes to its parameter on the others; no update of a field or element goes to a local copy of a record, an array or a vector that nothing reads, returns or stores afterwards; and no result of a function that only computes is ignored.',
 ['inputs'], 'every function of the libraries and the command, every store and call',
 'A lost update changes nothing but the result on the branch it is on; the tests check a few results of whole queries.',
 ['detour', 'recast', 'sample', 'cmd'], [('closestPointOnPoly', MESH), ('value copies of spans, links, nodes', 'recast')], technique='liveness of stores into copies and new objects, origin and purity analysis over the SSA form',
 note='Every store into a variable or new object and every call of a function without effects. What is passed to a function with effects, captured or stored counts as read.')

# --------------------------------------------------------------------- recast
prop('K01', 'Neighbour spans are only read through existing connections',
 'In the stages working on the compact heightfield (erosion, area marking, region building, contour tracing, height sampling), the neighbour span in a direction is looked up only after checking that the span is connected in that direction, and in the cell next to its own in that direction. A missing connection is never used as a span index. When the compact heightfield is built, every connection set is none or the number of a span of the next cell in the direction it is set for, below the mark for no connection.',
 ['inputs'], 'every heightfield',
 'An unchecked lookup reads an unrelated span at the border of the walkable surface; on most meshes the result differs by a few voxels only.',
 ['recast/area.go', 'recast/region.go', 'recast/contour.go', 'recast/meshdetail.go', 'recast/filter.go'], [('connection checks', 'recast/region.go')], technique='path-sensitive symbolic dataflow over the SSA form: connections and direction offsets as terms, cell positions compared as polynomials',
 note='helpers that leave the test to their callers are analysed in them; positions of spans taken from stacks are not followed')

prop('K03', 'Region identifiers never collide with the border mark',
 'When the number of regions would reach the bit reserved for the border mark, building regions fails and says so; it never hands out an identifier that reads as a border region or wraps.',
 ['inputs'], 'every heightfield',
 'It takes 32767 regions.',
 ['recast/region.go'], [('BuildRegionsMonotone', 'recast/region.go')], technique='path-sensitive symbolic dataflow with intervals, wrap-around of 16-bit sums and known bits; loop bounds widened to the constants of the function',
 note='that regions and identifiers are numbered consistently is not followed, only their bounds')

prop('K04', 'Span connections and polygon attributes survive being packed',
 'The connection of a span set for one direction is read back for this direction, for all four directions and all 64 values, and setting it leaves the three other directions unchanged, whatever was stored before. Likewise the area and the type of a polygon share a byte without affecting each other.',
 ['inputs', 'histories'], 'every value, direction and previous content',
 'The tests store a few values in fresh spans and polygons.',
 ['recast/heightfield.go', 'detour/poly.go'], [('SetCon, GetCon', 'recast/heightfield.go'), ('SetArea, SetType', 'detour/poly.go')], technique='bit-provenance abstract interpretation of the SSA form',
 note='All values, directions and previous contents, followed bit by bit as GF(2) polynomials.')

prop('K05', 'Direction tables are consistent',
 'The four voxel directions step to the four distinct horizontal neighbours, the direction two further is the opposite step, the direction for each step is the direction that makes it, and the opposite of a tile side is the side four further. Tile neighbours on the eight sides are at the eight distinct surrounding tile positions, opposite sides at opposite positions.',
 ['inputs'], 'all directions and sides',
 'A wrong table entry only affects portals and diagonals in one direction.',
 ['recast/recast.go', 'detour/common.go', MESH], [('GetDirOffsetX/Y, GetDirForOffset', 'recast/recast.go'), ('oppositeTile', 'detour/common.go')], technique='constant propagation over the finite domain of directions and sides',
 note='All directions and sides, through the functions themselves, and all neighbour tile positions with symbolic coordinates.')

prop('K06', 'Every timer a build stage starts is stopped when the stage returns',
 'Each build stage stops every performance timer it has started, on every return, successful or not, and stops none it has not started; once it has started its timers, it does its work while one of them is running. Stopping a timer adds the time since it was started to the accumulated time of that timer.',
 ['inputs', 'fault_sequences'], 'every path through every build stage, including the failures',
 'The tests do not look at the timers, and take the successful paths.',
 ['recast'], [('StartTimer/StopTimer', 'recast/buildcontext.go')], technique='typestate of the timers on the paths of the SSA form',
 note='Every exported function of recast that starts or stops a timer, all paths, deferred calls included; BuildRegions, which always panics (see B02), has no reachable timer.')

prop('K07', 'A failed build stage fails the build',
 'In the solo and tiled builders, when a build stage, the creation of tile data, the initialization of the navigation mesh or of its query, or adding a tile reports a failure, the build reports a failure and returns no navigation mesh. No result of a stage that reports failures is ignored.',
 ['inputs', 'fault_sequences'], 'every stage and every way it can fail',
 'The tests build valid geometry, where no stage fails.',
 ['sample/solomesh/builder.go', 'sample/tilemesh/builder.go'], [('Build', 'sample/solomesh/builder.go'), ('buildTileMesh, buildAllTiles', 'sample/tilemesh/builder.go')], technique='path-sensitive fault propagation over the SSA form',
 note='Every path of the builders, with every subset of failing stages; the stages themselves are represented by their possible results.')

prop('K08', 'Every build setting drives the stages it is meant for',
 'Both builders derive each parameter of the build stages and of the tile data from the settings that define it: cell sizes, agent height, radius, climb and slope, region sizes, edge length and error, vertices per polygon, detail sampling and tile size, with heights and radii rounded up to voxels and climb rounded down. Off-mesh connections, convex volumes, polygon areas and flags, bounds and tile coordinates of the input are all passed on. The stages run in order, each on what the stage before made, every convex volume is marked and every polygon gets the flags of its area before tile data is created, and a tile is removed and put where its position says.',
 ['configurations'], 'every combination of settings',
 'The tests use the default settings and compare with stored results; two settings with equal defaults, or one with no effect on the samples, can be exchanged unnoticed.',
 ['sample/solomesh/builder.go', 'sample/tilemesh/builder.go'], [('Build', 'sample/solomesh/builder.go'), ('buildTileMesh', 'sample/tilemesh/builder.go')], technique='symbolic comparison of the arguments of the build stages with expressions of the settings (path-sensitive dataflow on SSA, sums of products with rounding), typestate of the stages',
 note='float arithmetic is compared as that of real numbers; the numbers a stage computes from its arguments are not part of the property')

prop('K11', 'Filters and erosion never make an unwalkable surface walkable',
 'The ledge and low height filters and the erosion only ever clear the area of a span, marking a convex volume only changes spans that are walkable, and the filter of low obstacles gives a span the area of the walkable span below it only, when that is within the climb. The filter of low heights leaves no span walkable that has no more room above it than the height of the agent. Only rasterization and area marking introduce walkable areas.',
 ['inputs'], 'every heightfield',
 'On the sample meshes a wrongly walkable voxel disappears in the next stage or changes a few polygons.',
 ['recast/filter.go', 'recast/area.go'], [('FilterLedgeSpans, FilterWalkableLowHeightSpans, FilterLowHangingWalkableObstacles', 'recast/filter.go'), ('ErodeWalkableArea, MarkConvexPolyArea', 'recast/area.go')], technique='path-sensitive dataflow on SSA over the stores to areas, with ghost variables for the span below',
 note='')

# ------------------------------------------------------------------------ CLI
prop('L01', 'The command line tool never overwrites a file without confirmation',
 'Before creating its output, each command checks whether a file of that name exists, and if so creates it only after the user confirmed. An answer other than yes, including the end of the input, is not a confirmation.',
 ['inputs', 'histories'], 'every command, output name and answer',
 'The command line tool has no tests.',
 ['cmd/recast/cmd/build.go', 'cmd/recast/cmd/config.go', 'cmd/recast/cmd/utils.go'], [('fileExists, askForConfirmation', 'cmd/recast/cmd/utils.go')], technique='path-sensitive fact, fault and taint analysis of the SSA form',
 note='Every path of the commands, every answer on the standard input.')

prop('L02', 'A command that did not do its work exits with an error',
 'Each command exits with a non-zero status unless it did what it was asked for, or the user declined to overwrite a file. In particular missing arguments, unknown navmesh types, unreadable or invalid input, a failed build and a failed write are errors.',
 ['inputs', 'fault_sequences'], 'every command and every failure',
 'The command line tool has no tests.',
 ['cmd/recast/cmd'], [('check', 'cmd/recast/cmd/utils.go')], technique='path-sensitive fact, fault and taint analysis of the SSA form',
 note='Every path of the commands, with every call that reports a failure failing or not.')

# ------------------------------------------------------------- not applicable
prop('N01', 'Paths found are optimal for the filter\'s costs',
 'A complete path is one of minimal total cost among all the corridors the filter accepts.',
 ['inputs'], 'every navigation mesh, filter and pair of polygons',
 'Only an exhaustive search per instance can tell.', [QUERY], [('FindPath', QUERY)],
 na='Optimality relates floating-point sums over runtime graphs of unbounded size; A* here uses edge midpoints and is not even optimal in the metric. The structural necessary conditions are claimed as Q01, Q05, Q06, Q07 and Q09.')
prop('N02', 'The nearest polygon and the closest point are the nearest',
 'No polygon in the search box that the filter accepts is closer than the one returned, and the closest point is on it.',
 ['inputs'], 'every navigation mesh and position',
 'A geometric statement over all positions.', [QUERY], [('FindNearestPoly', QUERY)],
 na='A numerical minimum over floating-point distances of runtime polygons: no dataflow fact of the source bounds it. (Q01 and Q03 claim the filtering and the result bookkeeping.)')
prop('N03', 'The polygons cover the walkable surface and nothing else',
 'Every walkable voxel far enough from an obstacle is covered by a polygon, and no polygon covers an unwalkable one by more than the tolerated error.',
 ['inputs'], 'every input geometry and configuration',
 'The tests compare counts and stored meshes.', ['recast'], [('build pipeline', 'recast')],
 na='Geometric adequacy of the voxelization, contours and triangulation is numerical and data dependent. K01, K03 to K08 and K11 claim necessary conditions visible in the source.')
prop('N04', 'Contours, polygons and detail triangles are well formed',
 'Contours are simple, polygons convex and non-overlapping, and detail triangles within their height error.',
 ['inputs'], 'every input geometry', 'The tests cover a few meshes.', ['recast/contour.go', 'recast/mesh.go', 'recast/meshdetail.go'], [('triangulation', 'recast/mesh.go')],
 na='Depends on exact integer and floating-point geometry of runtime contours; out of reach of a sound static argument.')
prop('N05', 'Search, tree traversal and triangulation loops terminate',
 'Every query and build terminates, for any navigation mesh that was built or decoded successfully.',
 ['inputs'], 'every navigation mesh', 'A test only shows it for its inputs.', [QUERY, MESH], [('link lists, BV tree escapes, funnel restarts', QUERY)],
 na='Termination rests on acyclic link and node lists and decreasing escape offsets stored in runtime data; a static ranking argument would need shape invariants of the decoded data.')
prop('N06', 'The same input gives the same navmesh as the C++ libraries',
 'A build with the same settings gives byte-identical tile data.',
 ['inputs'], 'every input', 'Only stored samples are compared.', ['recast', 'detour'], [('port', 'recast')],
 na='Equivalence with another program compiled with other floating-point rules; there is no reference source here to compare with.')
