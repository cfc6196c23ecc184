#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ENG = ["store/gtreap", "store/boltdb", "store/goleveldb", "store/badger"]

p("K01", "Every storage engine behaves as an ordered map",
  "After any history of write batches, every engine (in-memory, Bolt, LevelDB, Badger, under each of their tuning options) answers single-key and multi-key reads exactly as an ordered byte-string map that received the same batches in the same order. An absent key reads as nil, a present key with an empty value reads as non-nil, and a multi-key read returns one value per requested key in the requested order.",
  ["histories", "inputs", "configurations"], "every engine and option set; every sequence of batches mixing sets, deletes and merges over arbitrary non-empty keys and values of any size",
  "The tests run one fixed 8-key script per engine; nothing calls the multi-key read or varies key bytes, value sizes, repetition inside a batch, or engine options.",
  ENG + ["store/batch.go", "store/multiget.go", "store/kvstore.go"],
  [("emulated batch replays operations in order", "store/batch.go"), ("per-engine ExecuteBatch", "store/*/writer.go"), ("per-engine Get", "store/*/reader.go"), ("MultiGet", "store/multiget.go")],
  ["KVReader.Get", "KVReader.MultiGet"], [("ordered key space", "the durable map of keys to values", "the engine behind each KVStore")])

p("K02", "Prefix and range iteration is exact, ordered and seekable",
  "A prefix iterator visits exactly the keys with that prefix and a range iterator exactly the keys k with start <= k < end, each once, in ascending byte order with the right value. Seeking to a key positions the iterator on the first visited key at or after it, never before the start of the iterated window and never outside it, also after the iterator was exhausted, and the one-call accessor always agrees with the separate key, value and validity accessors.",
  ["inputs", "histories", "configurations"], "all stored key sets, all prefixes and bounds including empty, all-0xff, nil end, inverted bounds, and all sequences of seeks and steps",
  "The tests walk two small fixed key sets with three hand-picked seeks; keys adjacent to window edges, 0xff prefixes, seeks before, after and outside the window in arbitrary orders are never tried.",
  ["store/gtreap/iterator.go", "store/boltdb/iterator.go", "store/goleveldb/iterator.go", "store/goleveldb/reader.go", "store/badger/prefix_iterator.go", "store/badger/range_iterator.go"],
  [("window test", "store/*/iterator.go"), ("seek clamping", "store/*/iterator.go Seek")], ["KVIterator.Seek/Next/Current/Key/Value/Valid"])

p("K03", "A reader is a frozen snapshot",
  "Everything a reader returns, by single reads, multi-key reads or iterators opened at any time before it is closed, reflects exactly the batches executed before the reader was opened and none executed after. This holds for any number of simultaneously open readers, whatever is written or compacted meanwhile.",
  ["histories", "schedules"], "all interleavings of opening readers and iterators, executing batches, deleting, compacting and reading, on every engine",
  "The isolation test opens two readers around one write; it never overwrites, deletes or compacts under a reader, or opens iterators late.",
  ENG, [("persistent treap root captured by the reader", "store/gtreap/store.go Reader"), ("read transaction", "store/boltdb/store.go Reader; store/badger/store.go Reader"), ("snapshot", "store/goleveldb/store.go Reader")],
  ["KVReader.Get", "KVReader.PrefixIterator", "KVReader.RangeIterator"])

p("K04", "Batches are all-or-nothing and failures are reported",
  "If executing a batch reports an error, because a merge was refused, a key is not acceptable to the engine or the batch is too large, none of its operations is visible then or after a reopen, and the store stays fully usable for later reads and writes. If it reports success, all of its operations are visible.",
  ["histories", "fault_sequences", "inputs"], "all batches in which any operation fails at any position, followed by any further history, on every engine",
  "No test makes a batch fail: merge refusal, rejected keys and oversize transactions are untested, and so is what the store looks like afterwards.",
  ["store/gtreap/writer.go", "store/boltdb/writer.go", "store/goleveldb/writer.go", "store/badger/writer.go"],
  [("transaction commit or rollback", "store/*/writer.go ExecuteBatch")], ["KVWriter.ExecuteBatch error", "state read back afterwards"])

p("K05", "Merges apply the configured operator exactly, in order",
  "A merge leaves the value the merge operator yields for the value stored before the batch (nil if and only if the key was absent) and the operands in the order they were given, whether or not the operator combines adjacent operands early. Merges of one batch are applied before that batch's sets and deletes, so an explicit set or delete of the same key in the same batch decides its final value, identically on every engine.",
  ["histories", "inputs", "configurations"], "all histories of batches mixing merges, sets and deletes of shared keys with non-commutative operators, with partial merging always, sometimes or never possible, on every engine",
  "The merge test increments one counter with a commutative operator that treats absent and empty alike, so ordering, absence and mixing with sets go unobserved.",
  ["store/merge.go", "store/batch.go", "store/gtreap/writer.go", "store/boltdb/writer.go", "store/goleveldb/writer.go", "store/goleveldb/batch.go", "store/badger/writer.go"],
  [("operand accumulation", "store/merge.go Merge"), ("full merge at execution", "store/*/writer.go ExecuteBatch")], ["arguments seen by the merge operator", "KVReader.Get"])

p("K06", "Byte ownership: buffers are never shared with the caller",
  "Key and value buffers given to set, delete or merge may be overwritten by the caller as soon as the call returns without changing what the batch does. Values returned by reads belong to the caller: changing them never alters the store, and they never change because of later writes, iteration or closing.",
  ["inputs", "histories"], "all sequences of batch building with one reused scratch buffer and of reads whose results are overwritten or kept across later activity, on every engine",
  "The ownership tests cover one set, one delete and one get; merges, deletes of several keys through one buffer, multi-key reads and values kept past close are not covered.",
  ["store/batch.go", "store/merge.go", "store/goleveldb/batch.go", "store/gtreap/reader.go", "store/boltdb/reader.go", "store/goleveldb/reader.go", "store/badger/reader.go"],
  [("copies taken by the batch", "store/batch.go"), ("copies returned by Get", "store/*/reader.go")], ["store contents after buffer reuse", "returned slices after later activity"])

p("K07", "Batches can be reset and reused; foreign batches are refused",
  "Resetting a batch discards every set, delete and merge in it, so that executing it afterwards applies only what was added since the reset, and a batch can be reset and reused any number of times and executed by any writer of its store. The presized batch constructor returns a buffer of exactly the requested size, and a batch that is not of the store's own batch type is refused with an error and no effect.",
  ["histories"], "all sequences of building, executing, resetting and reusing batches across writers of a store",
  "No test ever resets a batch, uses the presized constructor or passes a foreign batch.",
  ["store/batch.go", "store/goleveldb/batch.go", "store/*/writer.go"], [("Reset", "store/batch.go, store/goleveldb/batch.go"), ("NewBatchEx", "store/*/writer.go")], ["store contents", "ExecuteBatch error"])

p("K08", "Closing and reopening a store preserves its exact content",
  "A file-backed store that is closed and opened again at the same path with compatible options contains exactly the data of every successful batch, any number of times. Nothing is lost, resurrected or altered.",
  ["histories", "configurations"], "all histories of batches, compactions and reopen points for Bolt, LevelDB and Badger",
  "No existing test reopens a store.",
  ["store/boltdb/store.go", "store/goleveldb/store.go", "store/badger/store.go"], [("open", "store/*/store.go New"), ("close", "store/*/store.go Close")], ["full scan after reopen"])

p("K09", "Acknowledged batches survive a crash; no batch survives in part",
  "With default durability settings of Bolt and LevelDB, if the machine stops at any moment after a store was first opened, reopening the store yields exactly the state after some prefix of the executed batches, and that prefix includes every batch whose execution had already returned success. Badger gives the same guarantee when only the process dies.",
  ["crash_points", "histories"], "every batch history and every crash point in the stream of file writes and syncs; for power loss every image that keeps all synced and any subset of unsynced effects that the model generates",
  "No test simulates a crash; whether writes are synced before success is returned is invisible to in-process tests.",
  ["store/boltdb/store.go", "store/boltdb/writer.go", "store/goleveldb/store.go", "store/goleveldb/writer.go", "store/badger/writer.go"],
  [("synced write option", "store/goleveldb/store.go"), ("bolt NoSync default off", "store/boltdb/store.go"), ("single transaction per batch", "store/*/writer.go")], ["content after reopening a crash image"])

p("K10", "Compaction removes only zero-count dictionary entries",
  "Compacting a Bolt or LevelDB store, with any positive batch size, removes exactly the entries whose key starts with the letter d and whose value is the single byte 0, and changes nothing else; it terminates and may be repeated. Open readers keep seeing the state before it, and batches executed meanwhile are not disturbed.",
  ["inputs", "histories", "schedules"], "all stored key/value sets around the dictionary prefix, all batch sizes, and all batches executed meanwhile",
  "No test calls compaction.",
  ["store/boltdb/store.go", "store/goleveldb/store.go"], [("CompactWithBatchSize", "store/boltdb/store.go, store/goleveldb/store.go")], ["full scan before and after"])

p("K11", "Concurrent batches are serializable and visible atomically",
  "Under concurrent writers and readers on one store, a reader never sees part of a batch and successive readers never go back in time. Every batch reported successful takes effect exactly once, so concurrent merges of one key are not lost on the in-memory, Bolt and Badger engines; Badger may instead refuse a conflicting batch with an error.",
  ["schedules"], "all interleavings of batches, merges, readers and iterators on one store",
  "Every existing test is single threaded.",
  ["store/gtreap/writer.go", "store/gtreap/store.go", "store/gtreap/iterator.go", "store/boltdb/writer.go", "store/goleveldb/writer.go", "store/badger/writer.go"],
  [("store mutex", "store/gtreap/store.go"), ("write transactions", "store/boltdb/writer.go, store/badger/writer.go")], ["values of paired keys seen by one reader", "final counters against acknowledged merges", "race detector"])

p("K12", "The null store accepts everything and holds nothing",
  "Whatever is written to the null store, every operation succeeds, every read finds nothing (one nil per key for multi-key reads) and every iterator is invalid and empty.",
  ["histories"], "all histories of batches, reads and iterator moves",
  "The single test runs one fixed script.", ["store/null/null.go"], [("no-op implementations", "store/null/null.go")], ["all store calls"])

p("K13", "Open options do what they say and never damage existing data",
  "Different Bolt bucket names in one file are independent stores; a store opened read-only serves all its data and refuses writes with an error; LevelDB refuses to open when told not to create a missing store or when told to fail on an existing one. A missing or empty path is an error (the in-memory engine accepts only an empty path), and no refused open changes existing data or prevents a later correct open.",
  ["configurations", "histories"], "all combinations of path, bucket, read-only, create/exist and tuning options over existing and missing stores",
  "Tests open every engine with one fixed valid configuration.",
  ["store/boltdb/store.go", "store/goleveldb/store.go", "store/goleveldb/config.go", "store/badger/store.go", "store/gtreap/store.go"],
  [("option parsing", "store/*/store.go New, store/goleveldb/config.go")], ["New result and content afterwards"])

p("K14", "A closed store refuses work with an error",
  "After a LevelDB or Bolt store is closed, asking it for a reader or executing a batch reports an error; it neither panics, hangs nor silently succeeds.",
  ["histories"], "all histories that continue to use a store, or a writer obtained earlier, after closing it",
  "No test uses a closed store.", ["store/goleveldb/store.go", "store/goleveldb/writer.go", "store/boltdb/store.go", "store/boltdb/writer.go"],
  [("errors of the underlying engine are passed on", "store/*/store.go Reader, store/*/writer.go ExecuteBatch")], ["errors returned"])

IDX = ["index/s2idx.go", "index/geodata/tools.go"]
p("X01", "The region index never misses an object",
  "For every object accepted by the region index (point, line, polygon or multi-polygon), looking up the index cell containing any location on or inside the object returns the object's id. A radius query around a centre returns every object that has a location within the radius.",
  ["inputs", "configurations"], "all accepted geometries anywhere on the globe, including poles, the antimeridian and non-convex shapes in either ring orientation, all index levels, all query centres and radii, and all engines",
  "Tests index two or three fixed shapes far from poles, antimeridian and non-convexity and look up one interior point.",
  IDX + ["index/geodata/loop.go"], [("fixed-level covering stored one key per cell", "index/s2idx.go GeoIndex"), ("cap covering", "index/s2idx.go GeoIdsRadiusQuery")], ["ids returned for locations generated inside the object"])

p("X02", "The region index answers cell queries exactly",
  "A query for one cell returns exactly the ids of the indexed objects whose cover contains that cell, each once; a query for several cells returns the union without duplicates. A cell of another level is refused with an error, and nothing indexed in one cell, by one id or under one prefix appears in another. A radius query returns, each once, every object covered by the cell around its centre and only objects with a cover cell that reaches the circle.",
  ["histories", "inputs"], "all histories of indexing (including re-indexing and ids that are prefixes of one another or contain arbitrary bytes) and all queried cells",
  "Tests index at most three objects with printable ids and query one cell.",
  ["index/s2idx.go"], [("key layout prefix+cell+id", "index/s2idx.go"), ("prefix iteration", "index/s2idx.go GeoIdsAtCell"), ("dedup map", "index/s2idx.go GeoIdsAtCells")], ["ids returned against a reference model"])

p("X03", "The point index answers cell queries exactly at every level",
  "A query for a cell of any level, from whole cube faces down to leaf cells, returns exactly the ids of the points indexed inside that cell. A query for several cells returns the union without duplicates.",
  ["histories", "inputs"], "all sets of indexed points, including points in the first and last leaf of the queried cell, and all cells of all levels",
  "One test queries one coarse cell; edge leaves and leaf-level queries are never tried.",
  ["index/s2pointidx.go"], [("range scan from first to last leaf", "index/s2pointidx.go GeoIdsAtCell")], ["ids returned against a reference model"])

p("X04", "Point radius queries return exactly the points within the radius",
  "A point radius query returns every indexed point whose great-circle distance (on the sphere whose circumference is the equatorial one) to the centre is within the radius and no point beyond it, up to a centimetre-scale quantisation error. This holds for any radius from metres to the whole Earth, anywhere on the globe.",
  ["inputs"], "all point sets, centres and radii, including poles, the antimeridian, coincident points and distances just inside or outside the radius",
  "Two tests query one small radius around one city.",
  ["index/s2pointidx.go", "index/tools.go"], [("cap covering, range scans and in-place filter", "index/s2pointidx.go GeoIdsRadiusQuery"), ("radius to cap area", "index/tools.go")], ["ids returned against independently computed distances"])

p("X05", "Point rectangle queries return exactly the points inside",
  "A point rectangle query returns every indexed point whose latitude lies between the two corners' and whose longitude lies on the eastward way from the bottom-left to the upper-right corner, and no other, up to centimetre-scale quantisation. Rectangles may cross the antimeridian, touch the poles, span more than half of the globe or all of it.",
  ["inputs"], "all point sets and rectangles",
  "One test queries one small European rectangle.",
  ["index/s2pointidx.go"], [("rect covering, range scans and in-place filter", "index/s2pointidx.go GeoIdsRectQuery")], ["ids returned against independent interval arithmetic"])

p("X06", "Time index cell queries respect the time window and order",
  "Querying a cell for a time window, from a newer instant down to an older one, returns exactly the entries of that cell whose time is after the older and not after the newer instant, newest first, for all times representable in nanoseconds including before 1970. Entries of neighbouring cells, other times or other ids never appear, and the multi-cell query returns each id once.",
  ["histories", "inputs"], "all sets of (cell, time, id) entries with times down to one nanosecond apart and all windows, including empty and inverted ones",
  "Three tests use a handful of times seconds apart; window edges, order and negative times are not asserted.",
  ["index/s2timeidx.go"], [("reversed timestamp in the key", "index/s2timeidx.go timePrefixKey"), ("range scan", "index/s2timeidx.go GeoTimeIdsAtCell")], ["ids and their order against a reference model"])

p("X07", "Time index area queries are complete, duplicate free and local",
  "A radius or rectangle query over a time window returns, without duplicates, every object in the window that has a location inside the area, and only objects in the window whose cover reaches an index cell touching the area. Rectangles may cross the antimeridian or span more than half of the globe.",
  ["inputs", "histories"], "all object sets, windows, circles and rectangles at all index levels",
  "Tests run one radius and one rectangle around one city with two objects.",
  ["index/s2timeidx.go", "index/tools.go"], [("fixed-level covering of the query area", "index/s2timeidx.go"), ("dedup map", "index/s2timeidx.go GeoTimeIdsAtCells")], ["ids returned against an independent geometric oracle"])

p("X08", "Indexes sharing one store do not disturb each other",
  "Several indexes of any kind that share a store under prefixes none of which is a prefix of another, together with unrelated application keys, answer exactly as if each had a store of its own, and indexing never alters foreign keys.",
  ["histories", "configurations"], "all interleavings of indexing and querying over 2-4 indexes with arbitrary binary prefixes (including 0x00 and 0xff bytes) and foreign keys adjacent to index keys",
  "Every existing test uses a single index in an empty store.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go"], [("key prefixes", "index/*.go")], ["query results against per-index reference stores", "foreign keys read back"])

p("X09", "Query results stay valid and inputs are never modified",
  "Ids and keys returned by index calls keep their content whatever happens later to the store or index (further queries, writes, closing) on every engine, and overwriting them does not change the store. Index calls never modify the geometry, id, prefix or cell slices passed in, nor keep references that make later caller changes visible; extending one returned slice never alters another.",
  ["histories", "configurations"], "all query kinds and engines, followed by any later activity",
  "Tests use only the in-memory engine and look at ids immediately.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go", "index/geodata/tools.go"], [("copying of ids out of iterator buffers", "index/*.go")], ["returned slices after later activity on an engine that recycles buffers", "inputs compared before and after"])

p("X10", "Index calls release what they open and report storage faults",
  "Every index call closes every reader, iterator, writer and batch it opened, whether it succeeds or fails, and uses none after closing. If the store fails to provide a reader or writer or to execute a batch, or an index entry is corrupt, the call reports an error and never panics.",
  ["fault_sequences", "histories"], "every index call over all index contents, with each storage call failing in turn or an entry corrupted",
  "Tests never inject a fault and the in-memory engine ignores leaked resources.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go"], [("deferred closes and error checks", "index/*.go")], ["resource counters of an instrumented store", "returned errors"])

p("X11", "Indexing is all-or-nothing, idempotent and accepted means findable",
  "An indexing call that reports an error leaves the store unchanged, and one that reports success adds exactly one entry per cell of the object's cover (one for a point), so the object is returned by the matching cell query; indexing the same object again changes nothing. Objects that cannot be looked up afterwards (empty id, empty cover, unsupported or malformed geometry) are refused.",
  ["inputs", "histories"], "all geometries, well formed or not, ids, times and levels for the three index kinds",
  "Tests only index valid data and never read the raw entries.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go"], [("single batch per call", "index/*.go")], ["raw store content before and after each call"])

p("X12", "One index serves several goroutines at once",
  "An index used by several goroutines at once behaves as if its calls happened one after another: a query answers everything whose indexing had been acknowledged before it began and nothing whose indexing had not begun when it ended, each id once, and never fails or races. Answers keep their content while others go on indexing.",
  ["schedules", "configurations"], "all interleavings of indexing and query calls on one index value of each kind, on every engine",
  "Every existing test uses an index from one goroutine.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go"], [("no state shared between calls except the store", "index/*.go")], ["answers against the acknowledged and begun calls", "race detector"])

GD = ["index/geodata/tools.go", "index/geodata/loop.go"]
p("G01", "GeoJSON geometries convert to GeoData and back unchanged",
  "Converting a GeoJSON feature with a point, line or polygon to GeoData keeps its type and every longitude/latitude pair in order (only the outer ring of a polygon; altitudes are dropped), and converting back or exporting yields the same geometry. Unsupported geometry types are reported as errors, leaving the geometry of the target untouched.",
  ["inputs"], "all valid GeoJSON features with 2, 3 or 4 ordinates, with or without holes, any finite coordinates",
  "Tests convert three fixed 2-D features and inspect a few fields.",
  GD, [("GeomToGeoData / GeoDataToGeom", "index/geodata/tools.go")], ["coordinates before and after"])

p("G02", "Feature properties survive conversion",
  "Boolean, number and string properties of a feature survive conversion to GeoData and export back to GeoJSON with type and value intact; null properties are dropped, and unsupported property types are reported as an error without partly changing the target. Properties already present on the target under other names are kept.",
  ["inputs"], "all property maps, including unicode, empty strings and names, large and tiny numbers, and pre-populated targets",
  "One test converts one property of each type.",
  ["index/geodata/tools.go"], [("PropertiesToGeoData / PropertiesToJSONMap", "index/geodata/tools.go")], ["property maps before and after"])

p("G03", "Stored GeoData decodes to what was encoded, and is wire stable",
  "Encoding any GeoData to its binary form and decoding it yields an equal value, and the binary form matches the published schema byte for byte: field numbers, packed little-endian doubles and enum values as declared. Decoding arbitrary bytes never panics.",
  ["inputs"], "all GeoData values, including nested geometries, all enum values and special doubles, and arbitrary byte strings",
  "No test encodes or decodes GeoData.",
  ["index/geodata/geodata.pb.go", "index/geodata/geodata.proto"], [("generated protobuf code", "index/geodata/geodata.pb.go")], ["encoded bytes against an independent encoder of the schema"])

p("G04", "A cover contains the whole object and obeys its limits",
  "The cover of a point, line, polygon or multi-polygon contains every location on or inside the object and no cell that is disjoint from the object by more than its own size, and all its cells have levels within the requested minimum and maximum. A polygon's cover never becomes the cover of the polygon's complement.",
  ["inputs", "configurations"], "all simple polygons (convex or not) up to continental size, lines, points and collections anywhere on the globe, all level and cell-count settings",
  "Tests cover two fixed shapes and compare cell counts.",
  GD, [("region coverer over loop or polyline", "index/geodata/tools.go")], ["cover cells against an independent point-in-polygon and distance oracle"])

p("G05", "An interior cover lies inside the object",
  "Every cell of a polygon's or multi-polygon's interior cover lies completely inside the object and has a level within the requested limits, and large polygons get a non-empty interior cover when enough cells are allowed. A line has no interior cell.",
  ["inputs", "configurations"], "all simple polygons anywhere on the globe and all level and cell-count settings",
  "One test covers one shape and compares a cell count.",
  GD, [("InteriorCovering", "index/geodata/tools.go")], ["cell corners, edges and random interior locations against an independent oracle"])

p("G06", "Covers do not depend on how a ring is written",
  "The cover and bounding rectangle of a polygon are the same whichever vertex its ring starts at, whichever direction it is listed in and whether or not the first vertex is repeated at the end. Computing a cover never changes the object.",
  ["inputs"], "all simple polygons and all rotations, reversals and closings of their rings",
  "Tests use each shape in one written form only.",
  GD, [("orientation and closing-vertex handling", "index/geodata/loop.go")], ["covers of rewritten rings compared"])

p("G07", "Malformed geometry is refused, never crashes",
  "Whatever bytes, counts or numbers a GeoData holds (missing geometry, empty, odd or too few coordinates, degenerate or repeated vertices, not-a-number or out-of-range values, unknown types), covering, bounding, converting, exporting and indexing it terminate without panicking. Objects with no usable geometry are reported as errors instead of producing an empty or whole-Earth cover.",
  ["inputs"], "all GeoData values, structured mutations of valid ones and arbitrary coordinate lists",
  "Tests only try one or two malformed inputs.",
  GD + ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go"], [("validation before use", "index/geodata/tools.go")], ["errors and absence of panics"])

p("G08", "Bounding rectangles contain the object and are tight",
  "The bounding rectangle of a polygon or line contains every location of the object, including edges that bulge towards a pole and shapes that cross the antimeridian, and touches the object on every side within rounding. Points and multi-polygons are refused with an error.",
  ["inputs"], "all simple polygons and lines anywhere on the globe",
  "One test bounds two small shapes.",
  ["index/geodata/tools.go"], [("GeoDataToRect", "index/geodata/tools.go")], ["rectangle against densely sampled edges"])

p("G09", "Exports keep every object in order with its geometry and properties",
  "Exporting a list of objects as a feature collection yields one feature per object in order, with the same geometry (all polygons of a multi-polygon) and properties; exporting points as a line keeps all points in order with the first object's properties and refuses other geometry types. Exporting never changes the objects.",
  ["inputs"], "all lists of valid objects, including empty lists",
  "Tests export one fixed list each.",
  ["index/geodata/tools.go"], [("ToGeoJSONFeatureCollection / PointsToGeoJSONPolyLines", "index/geodata/tools.go")], ["decoded export against the objects"])

TL = ["s2tools/parse.go", "s2tools/cellunion.go", "s2tools/geojsoncells.go", "s2tools/handlers.go"]
p("T01", "Cell id parsing inverts every notation and rejects the rest",
  "Parsing the token, face/path or (17 to 20 digit) decimal notation of any valid cell yields that cell. Any other text yields nothing or a valid cell, and never an invalid cell or a crash.",
  ["inputs"], "all valid cells of all levels in the three notations, and arbitrary strings",
  "One test parses a few fixed strings.", [TL[0]], [("ParseCellID", TL[0])], ["parsed cell"])
p("T02", "Cell set operations are exact",
  "The union of cell lists contains every input cell exactly once in ascending order without merging cells into parents; the missing-cells operation returns, in order, the cells of the first list left after removing one occurrence per occurrence in the second; token export keeps length and order. Inputs are never modified.",
  ["inputs"], "all lists of cells, with duplicates, of mixed levels, including empty lists and any number of lists",
  "Tests use one fixed pair of small unions.", [TL[1], TL[2]], [("CellUnionUnion / CellUnionMissing / CellUnionToTokens", "s2tools")], ["results against reference implementations"])
p("T03", "Cell GeoJSON export is faithful",
  "Exporting cells yields one feature per cell in order, whose identifiers and level designate the cell and whose closed polygon consists of the cell's four corners.",
  ["inputs"], "all lists of valid cells of all levels and faces", "No test inspects the export.", [TL[2]], [("CellUnionToGeoJSON", TL[2])], ["decoded GeoJSON"])
p("T04", "The cells endpoint answers every query safely",
  "For a comma-separated list of valid cell tokens the cells endpoint answers success with exactly those cells, in order; for any list with an empty or invalid token, or no list, it answers with a client error. It never crashes, whatever the query.",
  ["inputs"], "all request query strings", "The handlers have no tests.", [TL[3]], [("S2CellQueryHandler", TL[3])], ["HTTP status and body"])
p("T05", "The GeoJSON endpoint answers every request safely",
  "For a collection with exactly one supported, well-formed feature and in-range level parameters the cover endpoint answers success with exactly the cells of that feature's cover. Every other body or parameter set is answered with a client error and never crashes the handler.",
  ["inputs"], "all request bodies (valid, structurally mutated, arbitrary bytes) and parameter values",
  "The handlers have no tests.", [TL[3]], [("GeoJSONToCellHandler", TL[3])], ["HTTP status and body against the cover computed directly"])

p("T06", "The debug server answers any mix of requests and keeps running",
  "Whatever requests clients send to the running debug server, one after the other or at once (cell lists, covers with bodies of any size, malformed ones, wrong methods and paths, connections cut in the middle), each complete request is answered as its handler alone would answer it, refused ones with a client error; the process stays up and free of data races.",
  ["histories", "schedules", "inputs"], "all sequences and overlaps of requests from any number of clients, complete or cut",
  "Nothing tests the server; handler state shared between requests and the routing only show in a running process with several clients.",
  ["cmd/mapdebugger/main.go", "s2tools/handlers.go", "s2tools/geojsoncells.go"], [("routes and methods", "cmd/mapdebugger/main.go"), ("handlers keep no state", "s2tools/handlers.go")],
  ["HTTP answers of the process", "race reports and exit of the process"])

p("K15", "Closing gives back everything that was opened",
  "After any history on a store, refused batches, refused opens and compactions included, closing its iterators, readers, writers and the store leaves no file descriptor, file mapping, engine goroutine or open Bolt transaction behind, and the path can be opened again at once. Space freed in LevelDB is returned by compaction once no reader needs it.",
  ["histories", "fault_sequences"], "all histories of opening, using, closing and failing to open stores, readers, iterators, writers and batches, in every closing order, on every engine",
  "Tests close everything in one order and never look at what is left; leaks on refused batches or opens need a failure and only show after many of them.",
  ENG, [("Close of readers, iterators, writers, batches and stores", "store/*/"), ("cleanup on failing paths", "store/*/writer.go ExecuteBatch, store/*/store.go New")],
  ["/proc/self/fd and maps", "goroutine dump", "Bolt statistics", "a second open"])

p("X13", "The stored entries follow the documented layout",
  "Every index stores exactly the documented entries: the prefix, the 8-byte big-endian cell id (of the leaf cell for points, of each covering cell otherwise), in the time index the inverted 8-byte time, then the id. Entries written by another program in that layout are found, entries deleted by their documented, computed or returned key are gone, and nothing else is ever stored or needed, also after a reopen.",
  ["histories", "inputs"], "all histories of indexing, hand-written and hand-deleted entries and reopening; all prefixes, levels, objects, ids and times",
  "Tests look at the store only through the index that wrote it, so a changed layout that still reads its own entries goes unseen.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go", "index/tools.go"], [("key construction and parsing", "index/")],
  ["raw keys of the store", "answers after raw writes and deletes"])

p("G10", "Objects and tools can be shared between goroutines",
  "Covering, bounding, converting, exporting, encoding and decoding the same object, and using the cell tools and handlers, from several goroutines at once gives every caller what the call alone gives, changes none of the shared objects and has no data race.",
  ["schedules", "inputs"], "all overlaps of read-only calls by any number of goroutines on shared objects, cells and coverers",
  "Every test runs one call at a time; shared scratch buffers, caches and in-place changes only show under overlap.",
  ["index/geodata", "s2tools"], [("functions without package state", "index/geodata/*.go, s2tools/*.go")], ["results of every call", "the shared objects afterwards", "race detector"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
