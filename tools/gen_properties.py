#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None, **({"state": state} if state else {}))))

p("C01", "A failed allocation is reported, leaks nothing and changes nothing",
  "Whenever any of the memory requests made during a call that constructs, parses, copies, clones or upcasts a geometry fail, the call either returns exactly what it returns when memory is plentiful or reports exhaustion in its documented way (no object, or the 'no memory' error). A call that reports exhaustion has given back every block it acquired, and has changed nothing observable about any object that already existed. Once memory is available again the same call on the same arguments succeeds with its normal result.",
  ["fault_sequences", "inputs", "histories"],
  "Every constructor, parser, copy and clone, on every kind of geometry, under every pattern of failing requests: the k-th, all from the k-th on, random subsets, everything above a size, followed by recovery.",
  "tests/test_memory.c and the chance() allocator in tests.h fail allocations at random for a handful of fixed documents and only look for crashes and leaks; which result comes back after a failure, what happens to the arguments, and the combinations of geometry kind and failing request are not looked at.",
  ["tg.c"],
  [("error paths of constructors", "tg.c: geom_new_multi, tg_poly_new, tg_ring_new_ix, geom_new_*"),
   ("goto-fail cleanup of the parsers", "tg.c: parse_geojson_*, parse_wkt_*, parse_wkb_*, parse_geobin"),
   ("error paths of deep copies", "tg.c: tg_ring_copy, tg_poly_copy, geom_copy")],
  ["return values", "tg_geom_error", "the configured allocator"])

p("C02", "Concurrent use of shared geometries gives sequential answers, without races",
  "When several threads parse, construct, query, search, write, clone, copy and free geometries at the same time, sharing objects through clones or through read-only references, every call returns exactly what it returns when run alone. No two threads ever access the same memory without ordering when one of them modifies it, and calls share no hidden modifiable state. An object stays intact until its last reference anywhere is released, and its memory is released exactly once whichever thread comes last.",
  ["schedules", "histories"],
  "All interleavings, at the granularity of single memory accesses, of any calls by several threads on shared and private geometries.",
  "No test starts a thread. A data race or a lost reference count update shows only under particular interleavings, which a test cannot choose.",
  ["tg.c", "deps/json.c", "deps/fp.c"],
  [("atomic reference counting", "tg.c: rc_init, rc_retain, rc_release"),
   ("immutable geometry after construction; no mutable statics other than the environment settings", "tg.c: predicates, searches, writers")],
  ["return values", "every load and store of the library", "the configured allocator"],
  [dict(name="head.rc", meaning="number of references to an object", where="tg.c struct head")])

p("C03", "Every block of memory is owned by references and released exactly once",
  "In every sequence of creating, cloning, copying, composing, wrapping and freeing geometries, rings, lines and polygons, in any order and with errors among them, an object stays valid while any reference to it or to an object composed from it is alive, and is released when the last one goes. Every block is obtained from the configured allocator and returned to it exactly once; nothing remains when the last reference has gone. This holds for the atomic and for the non-atomic build, and the size an object reports is never more than what was actually obtained for it, nor, for an object that shares nothing, less than that beyond a few bytes of rounding.",
  ["histories", "configurations", "inputs"],
  "All interleaved ownership histories over all kinds of object, freed in every order, in both reference counting builds.",
  "The tests free each object right after its use and in construction order, never compile the non-atomic build, and check only that the overall balance of malloc and free is zero at exit.",
  ["tg.c"],
  [("implicit sharing through clone", "tg.c: tg_*_clone, rc_retain"),
   ("release of children by the last owner", "tg.c: tg_ring_free, tg_poly_free, geom_free, boxed_point_free"),
   ("allocator indirection", "tg.c: tg_env_set_allocator, tg_malloc, tg_realloc, tg_free")],
  ["the configured allocator", "accessors of still referenced objects", "tg_geom_memsize"])

p("C04", "Geometries are immutable, and copies are independent of their originals",
  "No operation on a geometry, whether it succeeds, fails or is stopped half way by its caller, changes anything observable about that geometry or about any other object. A deep copy, of any kind of geometry and with any index, is observably equal to its original and keeps working unchanged after the original and everything it was made from has been released and its memory reused. A constructed geometry does not depend on the caller's input memory after the call returns.",
  ["histories", "inputs", "fault_sequences"],
  "All kinds of geometry and index, all orders of copying, composing, querying, failing, stopping, overwriting inputs and releasing originals.",
  "The tests copy a few geometries and compare a few fields while the original is still alive, so a copy that still points into its original passes.",
  ["tg.c"],
  [("deep copy", "tg.c: tg_ring_copy, tg_line_copy, tg_poly_copy, geom_copy, boxed_point_copy"),
   ("inputs copied at construction", "tg.c: series_new, geom_new_multi*, geom_new_*_z/m/zm")],
  ["all accessors, predicates, searches and writers of the object"])

p("C05", "Searches deliver every hit exactly once and stop the moment they are told to",
  "A rectangle search over the children of a collection, or a pairwise search over the segments of two rings or lines, reports exactly the children or segment pairs that intersect, each exactly once and with its right index and value, whatever the size, the index and its spread. When the caller's callback asks to stop, it is never called again, and what had been delivered is a prefix of what an unstopped run of the same search delivers. Callbacks may use the library freely, including starting searches on the same objects and releasing their own references, without disturbing the search in progress.",
  ["fault_sequences", "inputs", "configurations", "histories"],
  "Every stopping point of every search, on all sizes and index settings, with callbacks that re-enter the library.",
  "tests/test_ring.c and test_geom.c stop a few searches after the first hit and compare counts on a few fixed shapes, and no test re-enters the library from a callback.",
  ["tg.c"],
  [("collection search", "tg.c: tg_geom_search, multi_index_search"),
   ("segment join", "tg.c: tg_ring_ring_search, tg_ring_line_search, tg_line_line_search, ring_search and its index walkers")],
  ["the sequence of callback invocations"])

p("C06", "Nearest-segment traversal is ordered and complete, and fails cleanly",
  "A nearest-segment traversal delivers every segment exactly once, with its own index and the distance the caller computed for it, in order of non-decreasing distance, whether or not it uses an index and however often the caller asks for distances to be refined. When the caller stops it, nothing more is delivered and the traversal reports success. When memory runs out at any point it reports failure, what was delivered before is a correct prefix, and nothing is leaked.",
  ["fault_sequences", "inputs", "configurations"],
  "All line and ring sizes, index settings, distance functions (exact or refined in steps), stopping points and failing allocations.",
  "tests/test_nearest.c runs two fixed shapes with one distance function; neither the growth of the queue under failing allocations nor the step-wise refinement is reached.",
  ["tg.c"],
  [("priority queue over rectangles and segments", "tg.c: tg_ring_nearest_segment, nqueue_push, nqueue_pop")],
  ["the sequence of callback invocations", "return value", "the configured allocator"])

p("C07", "Writers respect the buffer they are given and always report the full length",
  "Writing a geometry in any format into a buffer of any capacity, including none, returns the full length of the complete document, the same whatever the capacity. The buffer never receives a byte beyond its capacity and holds the leading part of the complete document that fits, with a terminating zero inside the capacity for the text formats. A caller that grows its buffer and writes again therefore always ends with the complete document.",
  ["fault_sequences", "inputs"],
  "All geometries, all five formats, all buffer capacities from nothing to more than enough: every possible short write.",
  "The tests write each fixed geometry with a few buffer sizes; off-by-one errors at one particular capacity and geometry kind are out of their reach.",
  ["tg.c", "deps/fp.c"],
  [("bounded writer", "tg.c: struct writer, write_char, write_string, write_doublele, write_string_double, write_nullterm"),
   ("block fast paths", "tg.c: write_posn_wkb*, write_ring_points_wkb*, tg_geom_hex")],
  ["return value", "every byte of the buffer and around it"])

p("C08", "A truncated document is never accepted as a complete one",
  "If a complete document in any supported format loses any non-empty part of its tail, parsing what is left reports an error, for the specific parser as well as for the format-detecting one. No byte after the end of the given data is ever read, so the outcome does not depend on what follows it in memory.",
  ["crash_points", "inputs"],
  "Every geometry in every format (text, binary, hex, GeoBIN, GeoJSON), cut at every byte.",
  "The tests have a few hand-written truncated documents; the cut positions inside numbers, counts, nested members and metadata of real documents are not enumerated.",
  ["tg.c", "deps/json.c"],
  [("length checks of the binary readers", "tg.c: read_uint32, read_posn, parse_wkb_posns, parse_geobin"),
   ("balance and trailing-data checks of the text readers", "tg.c: wkt_balance_coords, parse_wkt; json_validn_ex")],
  ["tg_geom_error of the parse result"])

p("C09", "Damaged input is rejected or becomes a sound geometry, safely",
  "Whatever bytes a parser is given, it returns either an error with a message or a well-formed geometry: every child present and of the right type, every line with at least two points, every ring closed, every extra coordinate present, and usable by every accessor, predicate, search and writer. Neither parsing, nor the quick bounding box readers on raw bytes, nor any later use ever touches memory outside the given data and the library's own blocks, nor exhausts the call stack. An accepted geometry written in a lossless binary format parses again into the same geometry.",
  ["inputs", "fault_sequences"],
  "All byte sequences; in particular real documents damaged by flipped bits, overwritten length and type fields, lost, duplicated or exchanged ranges, and deep nesting.",
  "The tests parse a fixed list of malformed documents; damage at particular places of particular documents, and the use of what is accepted afterwards, are not covered.",
  ["tg.c", "deps/json.c", "deps/fp.c"],
  [("bounds checks and depth limits of the parsers", "tg.c: parse_wkb*, parse_geobin, parse_wkt*, parse_geojson*; json_validn_ex"),
   ("position checks", "tg.c: check_parse_posns"),
   ("raw readers", "tg.c: tg_geobin_fullrect, tg_geobin_rect, tg_geobin_point")],
  ["parse result and everything that can be asked of it"])

p("C10", "A stored geometry survives the trip through storage unchanged",
  "A geometry written completely in any of the five formats and read back later, by a process with other index settings and another locale, has the same type, structure, coordinates to the last bit including Z and M, emptiness, feature metadata and bounding box, as far as the format can carry them, and the quick bounding box readers on the stored bytes agree with it. Composing, splitting and copying reloaded geometries and storing them again loses nothing either. When the storage loses the unsynced tail or damages one record, the synced and undamaged records still read back as written.",
  ["histories", "crash_points", "inputs", "configurations"],
  "All geometries the API can build (all types, dimensions, empties, nested collections, features and collections with metadata), all formats, any number of generations of store, crash and reload under changing settings.",
  "The tests compare fixed strings for fixed geometries in one format at a time, with one index setting and one generation.",
  ["tg.c", "deps/json.c", "deps/fp.c", "docs/GEOBIN.md"],
  [("writers", "tg.c: write_*_wkb, write_*_wkt, write_*_geojson, write_*_geobin, tg_geom_hex"),
   ("readers", "tg.c: parse_*"),
   ("bounding box section", "tg.c: tg_geom_fullrect, tg_geobin_fullrect, tg_geobin_rect, tg_geobin_point")],
  ["accessors of the reloaded geometry"])

p("C11", "Parsing always finishes, with work and memory bounded by the input's size",
  "For every input, whole, damaged or hostile, and every index setting, parsing terminates, and the memory it holds at any time and the largest block it asks for are bounded by a constant multiple of the length of the input. The number of memory accesses it performs is bounded by a constant multiple of the length times the permitted nesting depth. No length, count or coordinate value found in the input can raise these bounds.",
  ["inputs", "fault_sequences", "configurations"],
  "All inputs and index settings; in particular huge counts in short inputs, coordinates at extreme magnitudes, many or deeply nested groups.",
  "A test cannot see memory or work, and fixed documents contain no hostile counts or coordinates.",
  ["tg.c", "deps/json.c"],
  [("counts checked against the remaining input", "tg.c: parse_wkb_posns, parse_geobin"),
   ("size of the stripe index", "tg.c: process_ystripes"),
   ("nesting limit", "tg.c: MAXDEPTH, wkt_balance_coords; json_validn_ex")],
  ["the configured allocator", "every load and store of the library"])

p("C12", "Results depend on the inputs only, not on memory contents or history",
  "The result of every call is a function of its arguments and the configured settings: it is the same whatever values fresh memory and the stack happen to contain, wherever objects lie in memory, whatever locale the process has set, and whatever calls, successful, failed or stopped, came before. The same program therefore always observes the same results, byte for byte, including the order in which callbacks are invoked.",
  ["histories", "configurations"],
  "All programs of library calls, repeated under different contents of fresh memory and stack, different reuse of freed blocks, different locales, and different histories.",
  "A unit test sees one memory image; a read of uninitialised or stale memory gives the expected value there by luck.",
  ["tg.c", "deps/json.c", "deps/fp.c"],
  [("initialisation of every object", "tg.c: memset/initialisers in geom_new, series_new, tg_poly_new, process_index"),
   ("no state kept between calls", "tg.c")],
  ["return values", "callback sequences"])

p("C13", "Using, sharing and releasing existing geometries never needs memory",
  "Accessors, predicates, rectangle and pair searches, writers, quick binary readers, clones and releases of existing objects work the same when no memory is left: with every allocation request refused they return exactly what they return otherwise, acquire nothing, and the last release of every object gives all its memory back. A program that has run out of memory can therefore still answer from, store and give up what it has.",
  ["fault_sequences", "histories", "inputs"],
  "All kinds of object, however made, all reading calls, all sequences of refused requests including permanent exhaustion.",
  "The random failing allocator of the tests is active only around constructors and parsers; no test queries, clones, writes or frees under exhaustion.",
  ["tg.c"],
  [("predicates and searches that work on the stack", "tg.c: tg_geom_covers, tg_poly_*, tg_ring_ring_search, tg_geom_search"),
   ("writers into the caller's buffer", "tg.c: tg_geom_wkt, tg_geom_geojson, tg_geom_wkb, tg_geom_hex, tg_geom_geobin"),
   ("clone and release", "tg.c: tg_geom_clone, tg_geom_free, rc_retain, rc_release")],
  ["return values, callbacks and buffers", "the configured allocator"])

p("C14", "Settings act on what is made afterwards and change nothing else",
  "The default index and the index spread decide how rings, lines and polygons made afterwards with the default index are indexed, exactly as if the same index had been asked for explicitly; values outside the documented range are ignored. What was made before, and every copy or clone of it whenever that is taken, keeps its index, its memory size, its answers and the order in which it reports hits, whatever is set later and whatever is made, fails or is released in between. Fixed float printing changes how the text writers print numbers from then on, and nothing else.",
  ["histories", "configurations", "fault_sequences"],
  "All histories of changing settings, making, copying, composing, querying and releasing objects of every kind, with failing allocations among them.",
  "The tests set a default before making one object and compare getters; no test changes a setting while objects made under another one are in use.",
  ["tg.c"],
  [("global settings", "tg.c: tg_env_set_index, tg_env_set_index_spread, tg_env_set_print_fixed_floats"),
   ("index and spread stored with each series", "tg.c: series_new, fill_index_struct, index_copy, index_spread")],
  ["index accessors", "tg_geom_memsize", "return values, callbacks and writer output"],
  [dict(name="default_index, default_index_spread, print_fixed_floats", meaning="the settings", where="tg.c static variables")])

p("C15", "Every query finishes, its work bounded by the sizes of its arguments",
  "Every predicate on two geometries ends after a number of memory accesses that is at most a constant times the product of their sizes; queries, searches, copies, writers and releases of one geometry take at most a constant times its size (and that of the output), nearest-segment traversal that times a logarithm, taking another reference a constant. This holds for degenerate, hostile and non-finite coordinates, with failing allocations and short buffers. A search told to stop by its caller returns at once. On large regular shapes an index spares most of the work, equally for objects made directly, parsed, copied or wrapped.",
  ["inputs", "fault_sequences", "configurations"],
  "All objects and pairs of objects, all index settings, all stopping points; large regular shapes for the effect of an index.",
  "Tests cannot see work, only that a fixed query ends in reasonable time; an answer that comes from a scan instead of the index, or a loop that visits everything twice per level, passes.",
  ["tg.c"],
  [("joint descent of two indexes", "tg.c: ring_ring_ix, ring_search, multi_index_search"),
   ("point in polygon with natural and stripe index", "tg.c: ring_contains_point, process_ystripes"),
   ("nearest-segment queue", "tg.c: tg_ring_nearest_segment")],
  ["number of loads and stores of the library per call"])

p("C16", "The result of a failed call can be handed on without harm",
  "What a failed call leaves, no object or an error object, may be passed unchecked to every accessor, predicate, search, traversal, writer, clone, copy and release, no object also to the polygon constructor and to the plain line and polygon geometry constructors, and an error also into a collection. No object answers as nothing: false, zero, empty, no hits, no output, no object. An error answers as an empty geometry, and it, its clones, its copies and it as a child of a collection all keep its message. Nothing is acquired, leaked or changed by it. A chain of such calls that never looks at a result therefore ends, wherever memory ran out or a document was broken, with its normal result, no object or an error.",
  ["fault_sequences", "histories", "inputs"],
  "All chains of calls, all places where a request is refused or a document is broken, all kinds of object.",
  "Tests pass a fixed NULL to a number of functions; they do not chain calls whose operands fail at arbitrary places.",
  ["tg.c"],
  [("tolerance of missing objects", "tg.c: tg_geom_error, tg_geom_clone, tg_poly_new, tg_ring_ring_search and the other public functions"),
   ("error objects", "tg.c: make_parse_error, tg_geom_new_error, geom_copy, tg_geom_extra_json")],
  ["return values, messages, callbacks and buffers", "the configured allocator"])

p("C17", "An index spares work and never changes an answer",
  "Replicas of a program that go through the same history of making, parsing, copying, wrapping, storing, reloading and asking, each under index settings, explicit indexes, changes of settings, refused requests, restarts and locales of its own, give the same answers as one that never uses an index: every predicate, point and rectangle query, every measure and box, every written document, the set of children and segment pairs found, and the distances of a nearest-segment traversal. This holds for finite coordinates of any magnitude at which their products neither overflow nor vanish, including points at the very edge of a ring, flat rings, and objects of any size.",
  ["configurations", "histories", "fault_sequences", "inputs"],
  "All histories, all assignments of indexes and spreads to the objects and to the moments at which they are made or reloaded.",
  "Tests compare indexes on a few fixed shapes, made directly and asked at once.",
  ["tg.c"],
  [("indexed and plain paths", "tg.c: standard_pip, index_pip, ystripes_pip, tg_ring_ring_search, ring_ring_ix, tg_geom_search, multi_index_search"),
   ("making of indexes", "tg.c: process_points, process_ystripes, ystripe_at, fill_in_upper_index_levels, geom_index")],
  ["return values and sets of hits", "written documents"])

p("C18", "Every build of the library gives the same answers",
  "Replicas of one program that run on different builds of the library give the same answers: the single-file build and the one with separate JSON and number libraries, with atomic and with plain reference counts, with and without 128-bit integers or machine-specific minimum and maximum, whichever compiler and optimisation level made them. Same results, errors and messages, written documents, memory requests and sizes, index contents and order of hits, byte for byte, also when requests are refused or documents are damaged; and a document stored by one build is read back by every other as by itself. The build with wide index rectangles gives the same answers to all predicates, searches, measures, readers and writers as well.",
  ["configurations", "histories", "fault_sequences", "inputs"],
  "All programs, all builds, all places where requests are refused, where a process ends and another build takes over its documents.",
  "The test runner builds one configuration at a time and compares with fixed expectations; the separate libraries, the portable fallbacks and the other compiler's reading of the source are never run against each other.",
  ["tg.c", "deps/json.c", "deps/fp.c"],
  [("two copies of the JSON and number code", "tg.c (embedded by deps/embed.sh) and deps/json.c, deps/fp.c under TG_NOAMALGA"),
   ("conditional code", "tg.c: TG_NOATOMICS, TG_IXFLOAT64, HAS_UINT128, fmin0/fmax0"),
   ("behaviour the language leaves open", "tg.c: overflow, conversion, evaluation order, uninitialised values")],
  ["return values, callbacks, messages, documents", "the configured allocator"])

na = "tests sample a fixed set of pairs and shapes"
p("N01", "Spatial predicates agree with the DE-9IM definitions",
  "For every two geometries each predicate answers as the DE-9IM model defines it for their point sets, and derived identities such as symmetry of intersects and duality of contains and within hold.",
  ["inputs"], "All pairs of geometries.", na, ["tg.c"], [("predicates", "tg.c: tg_geom_intersects, tg_geom_covers, tg_geom_contains, tg_geom_touches")], ["return values"])
p("N03", "Readers accept exactly the documented grammars",
  "A document is accepted if and only if it conforms to the grammar of GeoJSON, WKT, WKB, hex or GeoBIN as documented, and means what the format says.",
  ["inputs"], "All documents.", na, ["tg.c", "deps/json.c", "docs/GEOBIN.md"], [("parsers", "tg.c: parse_*")], ["parse results"])
p("N04", "Measures and bounding boxes are those of the point set",
  "Area, perimeter, length, orientation, convexity and bounding boxes of every geometry are those of its coordinates, up to rounding.",
  ["inputs"], "All geometries.", na, ["tg.c"], [("series processing", "tg.c: process_points, tg_ring_area, tg_ring_perimeter")], ["return values"])
p("N05", "Numbers are printed as the shortest text that reads back exactly",
  "Every finite number is printed as the shortest decimal text that reads back to the same value, and decimal text is read to the nearest value.",
  ["inputs"], "All doubles.", na, ["tg.c", "deps/fp.c"], [("ryu", "tg.c and deps/fp.c: fp_dtoa, fp_atod")], ["writer output"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
