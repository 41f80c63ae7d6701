# What each check runs; read by gen_manifest.py.
REAL = ['tg.c, compiled from /repo\'s working tree, with the embedded deps/json.c and deps/fp.c (all of the library)',
        'libm']
STUB = ['malloc, realloc, free: simulated heap (failing, exact-size, guarded, filled and reused as the seed says), installed through tg_env_set_allocator',
        'the C library\'s malloc family as reached directly from the library: trapped (any direct use is a violation)']
S_SCHED = ['threads and the order of memory accesses: cooperative tasks on own stacks, switched by the seeded scheduler at any memory access (own runtime for the compiler\'s -fsanitize=thread hooks)',
           'byte-wise C library functions (strlen, memcmp, strtod, ...): bounds-checked wrappers']
ASSUME = ['sequentially consistent memory model (x86-64, clang 18 -O1)',
          'search over seeds, not exhaustive: absence of a violation holds for the runs made']
NOTES = ('One simulator (sim/), built from /repo\'s working tree by check.py for every check. A violation is written to replays/ with its seed and the minimised '
         'choices; python3 check.py --replay FILE reproduces it. See DESIGN.md.')
T = 'deterministic simulation with fault injection: seeded search over '
PLANS = {
 'C01': dict(batches=[('C01', 'asan', 3000, 60000), ('C01', 'sched', 4000, 60000)],
   technique=T + 'which allocation requests fail, around seeded programs of calls; checked against the same call with plentiful memory, the state of all other objects and the simulated heap',
   rule='a run is non-trivial when at least one request of at least one call failed; distinct by kind and shape of operation and arguments',
   note='every single failing request of small calls is tried, larger ones are sampled; both an address-sanitised and an access-simulated build'),
 'C02': dict(batches=[('C02', 'sched', 20000, 400000)],
   technique=T + 'thread interleavings at single memory accesses; happens-before race check, results compared with those of the same calls alone',
   rule='a run is non-trivial when at least two tasks touched shared objects and a preemption happened inside a call; distinct by the programs of the tasks',
   note='2 to 4 simulated threads, a seeded number of preemptions, weak memory orders not explored', stub=S_SCHED),
 'C03': dict(batches=[('C03', 'asan', 4000, 60000), ('C03', 'noatomics', 4000, 60000), ('C03', 'sched', 4800, 40000)],
   technique=T + 'ownership histories with failing allocations, in both reference counting builds; conservation of blocks against a reference model of the references',
   rule='a run is non-trivial when objects were shared between two owners; distinct by the sequence of kinds of operation',
   note='up to about 60 operations per history'),
 'C04': dict(batches=[('C04', 'sched', 5000, 60000), ('C04', 'asan', 3500, 60000)],
   technique=T + 'histories of copying, failing, stopping, releasing and memory reuse; everything observable compared before and after',
   rule='a run is non-trivial when a copy outlived its original; distinct by shape of the objects',
   note='observation covers all accessors, predicates against probes, searches, writers and index contents'),
 'C05': dict(batches=[('C05', 'sched', 9000, 200000), ('C05', 'asan', 8000, 150000)],
   technique=T + 'stopping points, re-entering callbacks and failing allocations during searches; hits compared with brute force over the children or segments',
   rule='a run is non-trivial when the search has at least one hit or an index; distinct by kind, sizes, index levels and number of hits',
   note='stops at every hit of small results, sampled for larger ones'),
 'C06': dict(batches=[('C06', 'sched', 6000, 60000), ('C06', 'asan', 5000, 60000)],
   technique=T + 'stopping points, failing allocations and re-entering callbacks during nearest-segment traversals; order and completeness checked on the recorded deliveries',
   rule='every run traverses at least one line or ring; distinct by number of segments, index levels and distance function',
   note='distance functions are pure functions of the rectangle or segment and the number of refinements asked for'),
 'C07': dict(batches=[('C07', 'sched', 4000, 80000), ('C07', 'asan', 4000, 60000), ('C07', 'noamalga', 1500, 30000)],
   technique=T + 'buffer capacities too small for the document and clients that grow their buffer; checked against the document written into a large buffer',
   rule='every run writes in all five formats into buffers that are too small; distinct by shape of the geometry and how it was made',
   note='all capacities for documents under 100 bytes, sampled for larger ones; bytes inside the capacity behind the document may be used as scratch'),
 'C08': dict(batches=[('C08', 'sched', 4000, 80000), ('C08', 'asan', 3500, 60000), ('C08', 'noamalga', 1200, 20000)],
   technique=T + 'the point at which the tail of a stored document is lost, with failing allocations; every proper prefix must be rejected, and no byte behind it read',
   rule='every run cuts at least one valid document; distinct by shape of the geometry, format and writer',
   note='all cuts of documents up to 260 bytes, sampled for larger ones; documents from the library\'s writers and from independent encoders'),
 'C09': dict(batches=[('C09', 'sched', 12000, 200000), ('C09', 'asan', 12000, 200000), ('C09', 'noamalga', 4000, 60000)],
   technique=T + 'damage to stored documents (bit flips, lost and repeated parts, foreign tails, false counts and lengths, deep nesting) with failing allocations; outcome checked for soundness by using it',
   rule='every run hands at least one damaged or hostile document to a parser; distinct by the leading bytes and the length',
   note='single-file and multi-file build; the stack is that of an ordinary thread'),
 'C10': dict(batches=[('C10', 'sched', 8000, 150000), ('C10', 'asan', 6000, 100000)],
   technique=T + 'histories of processes with different settings writing to and reading from simulated storage, with crashes, lost and torn tails, damaged records and failing allocations; compared with a reference model',
   rule='every run stores geometries and reads them back in a later process; distinct by shape of the geometries and how they were made',
   note='the framing of the simulated log belongs to the harness; NaN coordinates are not stored, infinities only in binary formats, the sign of zero is not carried by the text formats'),
 'C11': dict(batches=[('C11', 'sched', 16000, 200000)],
   technique=T + 'damaged and hostile documents parsed by a library whose every memory access and request is counted; refused beyond a constant multiple of the length',
   rule='every run parses at least one document under the limits; distinct by the leading bytes and the length',
   note='limits: 100 bytes of memory per input byte + 8 KiB, 6 accesses per input byte and unit of nesting (+40) + 20000', stub=S_SCHED),
 'C12': dict(batches=[('C12', 'sched', 15000, 80000)],
   technique=T + 'the contents of fresh memory and stack, placement, reuse and history around the same program; results compared byte for byte',
   rule='every run executes one program under several memory images and histories; distinct by the program',
   note='the stack below each call and all fresh heap memory are filled with seeded garbage', stub=S_SCHED),
 'C13': dict(batches=[('C13', 'sched', 6000, 100000), ('C13', 'asan', 5000, 60000)],
   technique=T + 'which requests are refused, up to permanent exhaustion, while existing objects are read, shared, written and released; compared with the same program with plentiful memory',
   rule='every run repeats a program of reading calls with memory refused; distinct by the kinds of operation',
   note='constructors, parsers, copies and nearest-segment traversal need memory and are the subject of C01 and C06'),
 'C14': dict(batches=[('C14', 'sched', 6000, 100000), ('C14', 'asan', 5000, 60000)],
   technique=T + 'histories of changing settings among constructions, copies, queries, failures and releases; every object compared with one made in a fresh library that had only those settings',
   rule='every run changes settings while objects are alive or makes objects under changed settings; distinct by the sequence of actions',
   note='spreads from 2 to 4096 and values outside that range; single-threaded histories'),
 'C15': dict(batches=[('C15', 'sched', 8000, 120000)],
   technique=T + 'stopping points, failing allocations, short buffers and hostile coordinates, with every memory access of the library counted; liveness as a bound on simulated time',
   rule='every run makes calls under limits that follow from the sizes of their arguments; distinct by kinds and sizes of the objects',
   note='limits are 3 to 50 times what the current tree needs; index effect measured on regular polygons of 1000 to 70000 points and children', stub=S_SCHED),
 'C16': dict(batches=[('C16', 'sched', 5000, 80000), ('C16', 'asan', 4000, 60000), ('C16', 'noatomics', 1000, 20000)],
   technique=T + 'which allocation requests fail and which documents are broken along chains of calls whose results are never checked; outcome compared step by step with the rule of propagation and with the same chain under plentiful memory',
   rule='every run is a chain of calls run without and with refused requests; distinct by the operations and which earlier results they use',
   note='chains of up to 24 calls; missing parts are not given to constructors whose documentation does not allow for them (multi-geometries, extra coordinates)'),
 'C17': dict(batches=[('C17', 'sched', 7000, 100000), ('C17', 'asan', 12000, 200000), ('C17', 'noatomics', 1000, 20000)],
   technique=T + 'replicas of one history that differ in index settings, explicit indexes, refused requests and restarts (stored documents reloaded under other settings); every answer compared with the replica that never uses an index',
   rule='every run is one history executed by 3 to 5 replicas; distinct by its actions, the structure of its objects and the settings of the replicas',
   note='sizes to 700 points (60000 for giants); coordinates at scales from 1e-30 to 1e30, no NaN or infinities'),
 'C18': dict(batches=[('C18', 'variants', 12000, 250000)],
   technique=T + 'programs with refused requests, damaged documents and restarts, played by replicas on six builds of the library in one process; every answer compared byte for byte with the replica on the reference build',
   rule='every run is one program played on 2 to 4 builds; distinct by its operations and by the builds that played it',
   note='clang -O1/-O2/-O3 and gcc -O0/-O2, x86-64 only; the wide-rectangle build takes part in a fifth of the runs, without extreme coordinates and nearest-segment order',
   real=['the same sources once more for every other build: clang -O2 with deps/json.c and deps/fp.c (TG_NOAMALGA), clang -O3 with TG_NOATOMICS, without 128-bit integers and machine-specific min/max, gcc -O2, gcc -O0 with TG_NOAMALGA and TG_NOATOMICS and without 128-bit integers, clang -O1 with TG_IXFLOAT64'], stub=S_SCHED[1:]),
}
NA = {
 'N01': 'a pure function of two in-memory geometries: no thread, clock, I/O, fault or history takes part, so there is nothing for a simulator to decide; an input-space technique is needed',
 'N03': 'a pure function of a byte string; the accepted language is an input-space question (damage and truncation, which are faults, are decided by C08, C09)',
 'N04': 'a pure numeric function of the coordinates',
 'N05': 'a pure numeric function of a double (that stored coordinates read back exactly is decided by C10)',
}
