// Core of the simulator: choice streams, trace file, event hash, faults, simulated heap,
// simulated tasks, access hook. See DESIGN.md for the overall picture.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <map>

// ---------------------------------------------------------------- choices
// Every decision of a run is drawn from one of three streams, all derived from the run's seed:
//   W workload (world, programs, arguments), F faults, S schedule.
// In replay the recorded values are used instead; a missing value reads as 0, which is by
// construction the simplest choice. That makes a recorded run minimisable by deleting,
// zeroing and lowering values.
enum Stream { W = 0, F = 1, S = 2, NSTREAM = 3 };
uint32_t draw(Stream s, uint32_t n);                 // uniform in [0,n), n>=1
uint64_t draw64(Stream s);                           // 64 raw bits
inline bool chance(Stream s, uint32_t num, uint32_t den) { return draw(s, den) >= den - num; }
inline int range(Stream s, int lo, int hi) { return lo + (int)draw(s, (uint32_t)(hi - lo + 1)); }
int sizeish(Stream s, int small, int big, int huge); // mostly <=small, sometimes <=big, rarely <=huge

// ---------------------------------------------------------------- run state
enum Status : uint32_t { ST_IDLE = 0, ST_RUNNING = 1, ST_OK = 2, ST_VIOLATION = 3 };
struct TraceHead {
    uint64_t magic;
    uint32_t status;
    uint32_t nvals[NSTREAM];
    uint64_t run_index;
    uint64_t run_seed;
    uint64_t hash;        // running event hash
    uint64_t events;
    char cls[96];
    char msg[1024];
    uint64_t ready;       // not ST_IDLE once main has started
};
static const uint32_t TRACE_CAP = 1u << 20;          // values per stream
struct Trace { TraceHead h; uint32_t vals[NSTREAM][TRACE_CAP]; };
extern Trace *g_trace;
extern bool g_verbose;

void ev(uint64_t x);                                  // append to the event history (hash)
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // only text, no effect on the run
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

uint64_t mix64(uint64_t x);
uint64_t hash_bytes(const void *p, size_t n, uint64_t seed = 0x9e3779b97f4a7c15ull);
inline uint64_t hcomb(uint64_t h, uint64_t x) { return mix64(h * 0x9fb21c651e98df25ull + x + 0x632be59bd9b4e019ull); }

// ---------------------------------------------------------------- statistics
struct Counter { const char *kind; const char *name; uint64_t n; Counter *next; Counter(const char *k, const char *n); };
#define PROBE(name)  do { static Counter _c("probe", name); _c.n++; } while (0)
#define PROBEN(name, k) do { static Counter _c("probe", name); _c.n += (k); } while (0)
#define FAULT(name)  do { static Counter _c("fault", name); _c.n++; } while (0)
#define OPCOUNT(name) do { static Counter _c("op", name); _c.n++; } while (0)
extern Counter *g_counters;
void count_dyn(const char *kind, const char *name, uint64_t k = 1);   // name must be a literal or static
extern uint64_t g_total_steps;                        // simulated time over all runs (memory accesses)
void note_interleaving(uint64_t h);                   // distinct-state measure
void note_case(uint64_t h);                           // distinct-case measure (structure of the run)

// ---------------------------------------------------------------- simulated heap
enum FailMode { FAIL_NONE, FAIL_KTH, FAIL_FROM, FAIL_RANDOM, FAIL_SIZE, FAIL_WINDOW };
struct FailPlan { FailMode mode = FAIL_NONE; uint64_t k = 0, n = 0; uint32_t num = 0, den = 1; };
enum FillMode { FILL_ZERO, FILL_FF, FILL_RANDOM, FILL_A5, FILL_SMALL, FILL_STALE };
struct HeapStat { uint64_t nalloc, nfail, nfree, live_blocks, live_bytes, peak_bytes, max_req, total_bytes, moved_bytes; };
extern HeapStat g_heap;
void heap_reset(void);                                // start of a run
void heap_fail(const FailPlan &p);                    // arm (counts from the next request on)
void heap_nofail(void);
uint64_t heap_fail_requests(void);                    // requests made since heap_fail()
uint64_t heap_fail_fired(void);                       // failures injected since heap_fail()
void heap_fill(FillMode m, uint64_t seed);
void heap_reuse(bool on);                             // freed blocks are handed out again (LIFO)
void *sim_malloc(size_t n);                           // the allocator the library is configured with
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
uint64_t heap_mark(void);                             // allocation sequence number
void heap_check_leaks(const char *cls, uint64_t since, const char *what);
size_t heap_block_size(const void *p);                // 0 if not live
void heap_live(std::vector<std::pair<uint64_t, size_t>> &out, uint64_t since); // (seq,size)
bool heap_is_live_seq(uint64_t seq);
uint64_t heap_seq_of(const void *p);                  // of the live block starting at p, or 0
extern uint64_t g_live_cap;                           // requests that would exceed this fail
// memory the harness lends to the library: bounds-checked like the heap, but not counted
void *lend(size_t n);
void unlend(void *p);
void *lend_copy(const void *src, size_t n);

// ---------------------------------------------------------------- the library under simulation
extern bool g_in_lib;                                 // a library call is in progress (raw malloc trap)
void step_limit(uint64_t n);                          // accesses allowed until the limit is lifted (0: none)
void run_step_limit(uint64_t n);                      // the same for a whole run
uint64_t steps_now(void);
extern const bool HAVE_ACCESS_HOOK;                   // this build intercepts every memory access
extern const char *BUILD_NAME;

void set_locale(int which);                            // of the process: 0 "C", 1 decimal comma, 2 a decimal point of two bytes; 1 and 2 with letters above 127
int draw_locale(void);                                // one of them, most often "C"
void set_libc_memory(bool plenty);                     // what the C library gets of its own to sort with; without, it takes a method that does not keep the order of equals
void loc_qsort(void *p, size_t n, size_t es, int (*cmp)(const void*, const void*));
int variants(void);                                    // how many builds of the library this simulator contains
void set_variant(int k);                               // the one that calls go to from now on; 0 after lib_reset
void lib_reset(void);                                 // the library's static memory as at program start, default settings

// ---------------------------------------------------------------- simulated threads
static const int MAX_TASKS = 5;                       // task 0 is the main one
int  task_self(void);
void tasks_begin(void);                               // forget all tasks and access history
int  task_spawn(std::function<void()> fn);            // runnable from tasks_run() on
struct SchedCfg { int mode; uint32_t max_switch; uint32_t est_steps; };
void tasks_run(const SchedCfg &cfg);                  // returns when all have finished
void sched_point(int kind);                           // explicit scheduling point (op boundary, allocation)
void sync_release(uint64_t *clk);                     // harness-level synchronisation (mailboxes)
void sync_acquire(const uint64_t *clk);
uint64_t sched_switches(void);
void run_on_fresh_stack(std::function<void()> fn, FillMode fill, uint64_t seed); // garbage below the frame

// ---------------------------------------------------------------- scenarios
struct Scenario { const char *name; void (*run)(uint64_t index); Scenario *next; Scenario(const char *n, void (*r)(uint64_t)); };
extern Scenario *g_scenarios;
#define SCENARIO(id) static void scen_##id(uint64_t index); static Scenario reg_##id(#id, scen_##id); static void scen_##id([[maybe_unused]] uint64_t index)
