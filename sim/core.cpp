#include "core.h"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unordered_map>
#include <unordered_set>
#include <cstdlib>
#include <cstdarg>
#include <ctype.h>
#include <locale.h>
#include "rt.h"

// ------------------------------------------------------------------ hashing
uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t*)p;
    h = mix64(h ^ n);
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 29; b += 8; n -= 8; }
    uint64_t v = 0; if (n) memcpy(&v, b, n);
    return mix64(h ^ v);
}

// ------------------------------------------------------------------ choices
Trace *g_trace;
bool g_verbose;
static uint64_t rng_state[NSTREAM];
static bool replaying;
static std::vector<uint32_t> replay_vals[NSTREAM];

static uint64_t rng_next(int s) { rng_state[s] += 0x9e3779b97f4a7c15ull; return mix64(rng_state[s]); }

uint32_t draw(Stream s, uint32_t n) {
    if (n == 0) harness_error("draw(0)");
    uint32_t pos = g_trace->h.nvals[s], v;
    if (replaying) v = pos < replay_vals[s].size() ? replay_vals[s][pos] % n : 0;
    else v = (uint32_t)(((rng_next(s) >> 32) * (uint64_t)n) >> 32);
    if (pos < TRACE_CAP) { g_trace->vals[s][pos] = v; g_trace->h.nvals[s] = pos + 1; }
    else harness_error("choice stream %d overflows", (int)s);
    return v;
}
// n raw-range values: stored as they are (the recorded value must not be reduced on replay)
uint64_t draw64(Stream s) { uint64_t a = draw(s, 0xffffffffu); return (a << 32) | draw(s, 0xffffffffu); }

int sizeish(Stream s, int small, int big, int huge) {
    uint32_t k = draw(s, 32);
    if (k < 24) return (int)draw(s, small + 1);
    if (k < 31) return (int)draw(s, big + 1);
    return (int)draw(s, huge + 1);
}

// ------------------------------------------------------------------ events, violations
void ev(uint64_t x) { g_trace->h.hash = hcomb(g_trace->h.hash, x); g_trace->h.events++; }
void logf(const char *fmt, ...) {
    if (!g_verbose) return;
    va_list ap; va_start(ap, fmt);
    printf("  [%d] ", task_self()); vprintf(fmt, ap); printf("\n");
    va_end(ap);
}
static void finish_violation(const char *cls, const char *msg) {
    TraceHead &h = g_trace->h;
    snprintf(h.cls, sizeof h.cls, "%s", cls);
    snprintf(h.msg, sizeof h.msg, "%s", msg);
    h.status = ST_VIOLATION;
    if (g_verbose) printf("VIOLATED %s: %s\n", cls, msg);
    fflush(stdout);
    _exit(3);
}
void violate(const char *cls, const char *fmt, ...) {
    char buf[1000];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    finish_violation(cls, buf);
    _exit(3);
}
void harness_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "HARNESS ERROR: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap);
    fflush(stdout);
    _exit(4);
}

// ------------------------------------------------------------------ statistics
Counter *g_counters;
Counter::Counter(const char *k, const char *nm) : kind(k), name(nm), n(0), next(g_counters) { g_counters = this; }
void count_dyn(const char *kind, const char *name, uint64_t k) {
    static std::map<std::pair<std::string, std::string>, Counter*> m;
    auto key = std::make_pair(std::string(kind), std::string(name));
    auto it = m.find(key);
    if (it == m.end()) it = m.emplace(key, new Counter(strdup(kind), strdup(name))).first;
    it->second->n += k;
}
uint64_t g_total_steps;
static std::unordered_set<uint64_t> interleavings, cases;
void note_interleaving(uint64_t h) { if (interleavings.size() < 4000000) interleavings.insert(h); }
void note_case(uint64_t h) { if (cases.size() < 4000000) cases.insert(h); }

// ------------------------------------------------------------------ heap
HeapStat g_heap;
uint64_t g_live_cap = 768ull << 20;
bool g_in_lib;
struct Blk { uint64_t seq; size_t size; bool lent; };
static std::unordered_map<uintptr_t, Blk> blocks;
static uint64_t heap_seq;
// every simulated thread has its own plan
struct PlanState { FailPlan plan; bool on = false; uint64_t count = 0, fired = 0; };
static PlanState plans[MAX_TASKS];
static FillMode fill_mode = FILL_RANDOM; static uint64_t fill_seed;
static bool reuse_on;

static inline size_t round16(size_t n) { return (n + 15) & ~(size_t)15; }

#ifndef SIM_ASAN
// bump arena with a shadow byte per byte, at a fixed address
static uint8_t *arena_top;
static std::unordered_map<size_t, std::vector<uint8_t*>> freelist;   // by rounded size, reuse mode
static void arena_init(void) {
    if (g_arena) return;
    void *want = (void*)0x510000000000ull, *wants = (void*)0x520000000000ull;
    g_arena = (uint8_t*)mmap(want, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    g_shadow = (uint8_t*)mmap(wants, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (g_arena == MAP_FAILED || g_shadow == MAP_FAILED) harness_error("cannot map the arena");
    arena_top = g_arena;
}
static void *blk_alloc(size_t n, bool lent) {
    arena_init();
    if (reuse_on && !lent) {
        auto it = freelist.find(round16(n));
        if (it != freelist.end() && !it->second.empty()) {
            uint8_t *p = it->second.back(); it->second.pop_back();
            memset(g_shadow + (p - g_arena), SH_RED, round16(n));
            memset(g_shadow + (p - g_arena), SH_LIVE, n);
            PROBE("heap: freed block handed out again");
            return p;
        }
    }
    size_t need = round16(n) + 32;
    if ((size_t)(arena_top - g_arena) + need + 64 > ARENA_SIZE) return NULL;
    uint8_t *p = arena_top + 32;                       // 32 bytes of red zone in front
    arena_top = p + round16(n);
    if (arena_top > g_arena_hi) g_arena_hi = arena_top;
    memset(g_shadow + (p - g_arena), SH_LIVE, n);
    return p;
}
static void blk_free(void *vp, size_t n, bool lent) {
    uint8_t *p = (uint8_t*)vp;
    if (n) memset(g_shadow + (p - g_arena), SH_FREED, n);
    if (reuse_on && !lent) freelist[round16(n)].push_back(p);
}
static void arena_reset(void) {
    arena_init();
    size_t used = arena_top - g_arena;
    if (used > (64u << 20)) madvise(g_shadow, ARENA_SIZE, MADV_DONTNEED), madvise(g_arena, ARENA_SIZE, MADV_DONTNEED);
    else memset(g_shadow, 0, used + 64);
    arena_top = g_arena; g_arena_hi = g_arena;
    freelist.clear();
}
#else
static void *blk_alloc(size_t n, bool) { return malloc(n); }
static void blk_free(void *p, size_t, bool) { free(p); }
static void arena_reset(void) {}
#endif

void heap_reset(void) {
#ifdef SIM_ASAN
    for (auto &b : blocks) free((void*)b.first);
#endif
    blocks.clear();
    arena_reset();
    memset(&g_heap, 0, sizeof g_heap);
    heap_seq = 0; for (auto &s : plans) s = PlanState();
    fill_mode = FILL_RANDOM; fill_seed = 1; reuse_on = false;
}
void heap_fail(const FailPlan &p) { PlanState &s = plans[task_self()]; s.plan = p; s.on = p.mode != FAIL_NONE; s.count = 0; s.fired = 0; }
void heap_nofail(void) { plans[task_self()].on = false; }
uint64_t heap_fail_fired(void) { return plans[task_self()].fired; }
uint64_t heap_fail_requests(void) { return plans[task_self()].count; }
void heap_fill(FillMode m, uint64_t seed) { fill_mode = m; fill_seed = seed; }
void heap_reuse(bool on) { reuse_on = on; }
uint64_t heap_mark(void) { return heap_seq; }

static bool should_fail(size_t n) {
    PlanState &s = plans[task_self()]; const FailPlan &plan = s.plan;
    if (!s.on) return false;
    uint64_t i = s.count++;
    bool f = false;
    switch (plan.mode) {
    case FAIL_NONE: break;
    case FAIL_KTH: f = i == plan.k; break;
    case FAIL_FROM: f = i >= plan.k; break;
    case FAIL_WINDOW: f = i >= plan.k && i < plan.k + plan.n; break;
    case FAIL_RANDOM: f = chance(F, plan.num, plan.den); break;
    case FAIL_SIZE: f = n > plan.k; break;
    }
    if (f) { s.fired++; FAULT("allocation fails"); }
    return f;
}
// would the system refuse a request that is not the library's
static bool heap_short(size_t n) {
    PlanState &s = plans[task_self()]; const FailPlan &p = s.plan;
    return s.on && ((p.mode == FAIL_FROM && s.count >= p.k) || (p.mode == FAIL_SIZE && n > p.k) || (p.mode == FAIL_RANDOM && chance(F, p.num, p.den)));
}
static void fill(void *vp, size_t n, uint64_t seq) {
    uint8_t *p = (uint8_t*)vp;
    switch (fill_mode) {
    case FILL_ZERO: memset(p, 0, n); break;
    case FILL_FF: memset(p, 0xff, n); break;
    case FILL_A5: memset(p, 0xa5, n); break;
    case FILL_SMALL: for (size_t i = 0; i < n; i++) p[i] = (i & 7) == 0 ? (uint8_t)(1 + (fill_seed + i / 8) % 7) : 0; break;
    case FILL_STALE: break;
    case FILL_RANDOM: {
        uint64_t s = mix64(fill_seed ^ (seq * 0x9e3779b97f4a7c15ull));
        size_t i = 0;
        if (n > 8192) { memset(p + 8192, (int)(s & 0xff), n - 8192); n = 8192; }
        for (; i + 8 <= n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; uint64_t v = s ^ (s >> 29); memcpy(p + i, &v, 8); }
        for (; i < n; i++) p[i] = (uint8_t)(s >> (i & 7) * 8);
        break; }
    }
}
static void *alloc_common(size_t n, bool lent) {
    void *p = blk_alloc(n, lent);
    if (!p) return NULL;
    uint64_t seq = ++heap_seq;
    blocks[(uintptr_t)p] = Blk{seq, n, lent};
    return p;
}
static void *counted_alloc(size_t n) {
    g_heap.nalloc++;
    if (n > g_heap.max_req) g_heap.max_req = n;
    if (should_fail(n)) { g_heap.nfail++; ev(0xA110C0); return NULL; }
    if (n > g_live_cap || g_heap.live_bytes + n > g_live_cap) { FAULT("allocation refused: over the simulated machine's memory"); return NULL; }
    void *p = alloc_common(n, false);
    if (!p) { FAULT("allocation refused: arena full"); return NULL; }
    fill(p, n, heap_seq);
    g_heap.live_blocks++; g_heap.live_bytes += n; g_heap.total_bytes += n;
    if (g_heap.live_bytes > g_heap.peak_bytes) g_heap.peak_bytes = g_heap.live_bytes;
    return p;
}
void *sim_malloc(size_t n) {
    sched_point(2);
    void *p = counted_alloc(n);
    if (p) hook_alloc(p, n);
    return p;
}
static Blk find_owned(void *p, const char *what) {
    auto it = blocks.find((uintptr_t)p);
    if (it == blocks.end() || it->second.lent) {
        char cls[64]; snprintf(cls, sizeof cls, "bad-%s", what);
        violate(cls, "%s of an address that is not a live block of the allocator (freed twice, never obtained from it, or inside a block)", what);
    }
    return it->second;
}
void sim_free(void *p) {
    if (!p) return;
    sched_point(2);
    Blk b = find_owned(p, "free");
    hook_free(p, b.size);
    g_heap.nfree++; g_heap.live_blocks--; g_heap.live_bytes -= b.size;
    blocks.erase((uintptr_t)p);
    blk_free(p, b.size, false);
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    sched_point(2);
    Blk b = find_owned(p, "realloc");
    if (n == 0) { sim_free(p); return NULL; }
    void *q = counted_alloc(n);
    if (!q) return NULL;                               // the old block stays valid
    hook_alloc(q, n);
    memcpy(q, p, b.size < n ? b.size : n);
    g_heap.moved_bytes += b.size < n ? b.size : n;
    sim_free(p);
    return q;
}
size_t heap_block_size(const void *p) {
    auto it = blocks.find((uintptr_t)p);
    return it == blocks.end() ? 0 : it->second.size;
}
void heap_live(std::vector<std::pair<uint64_t, size_t>> &out, uint64_t since) {
    out.clear();
    for (auto &b : blocks) if (!b.second.lent && b.second.seq > since) out.push_back({b.second.seq, b.second.size});
}
uint64_t heap_seq_of(const void *p) { auto it = blocks.find((uintptr_t)p); return it == blocks.end() ? 0 : it->second.seq; }
bool heap_is_live_seq(uint64_t seq) { for (auto &b : blocks) if (b.second.seq == seq) return true; return false; }
void heap_check_leaks(const char *cls, uint64_t since, const char *what) {
    uint64_t n = 0, bytes = 0, first = ~0ull;
    for (auto &b : blocks) if (!b.second.lent && b.second.seq > since) { n++; bytes += b.second.size; if (b.second.seq < first) first = b.second.seq; }
    if (n) violate(cls, "%llu block(s), %llu bytes, still held after %s (first: request %llu)",
        (unsigned long long)n, (unsigned long long)bytes, what, (unsigned long long)(first - since));
}
void *lend(size_t n) { void *p = alloc_common(n, true); if (!p) harness_error("lend"); return p; }
void *lend_copy(const void *src, size_t n) { void *p = lend(n); if (n) memcpy(p, src, n); return p; }
void unlend(void *p) {
    if (!p) return;
    auto it = blocks.find((uintptr_t)p);
    if (it == blocks.end() || !it->second.lent) harness_error("unlend");
    size_t n = it->second.size; blocks.erase(it);
    blk_free(p, n, true);
}

// the library's own references to malloc & co are renamed to these at build time
extern "C" {
void *tgraw_malloc(size_t) { violate("allocator-bypass", "memory requested from the C library instead of the configured allocator"); }
void *tgraw_calloc(size_t, size_t) { violate("allocator-bypass", "memory requested from the C library instead of the configured allocator"); }
void *tgraw_realloc(void*, size_t) { violate("allocator-bypass", "memory requested from the C library instead of the configured allocator"); }
void  tgraw_free(void *p) { if (p) violate("allocator-bypass", "memory released to the C library instead of the configured allocator"); }
char *tgraw_strdup(const char*) { violate("allocator-bypass", "memory requested from the C library instead of the configured allocator"); }
void  tgraw_assert(const char *e, const char*, unsigned, const char*) { violate("assertion", "an assertion of the library failed: %s", e); }
void  tgraw_abort(void) { violate("abort", "the library aborted the process"); }
}

// ------------------------------------------------------------------ scenarios and main
Scenario *g_scenarios;
Scenario::Scenario(const char *n, void (*r)(uint64_t)) : name(n), run(r), next(g_scenarios) { g_scenarios = this; }

extern "C" void tg_env_set_allocator(void *(*)(size_t), void *(*)(void*, size_t), void (*)(void*));
static void env_defaults(void);
extern "C" void tg_env_set_index(int);
extern "C" void tg_env_set_index_spread(int);
extern "C" void tg_env_set_print_fixed_floats(bool);
// A simulator may contain several builds of the library, one in charge at a time (see check.py)
extern "C" { extern void *variant_slot[] __attribute__((weak)); extern void *const variant_table[] __attribute__((weak)); extern const int variant_syms __attribute__((weak)); extern const int variant_count __attribute__((weak)); }
int variants(void) { return variant_slot ? variant_count : 1; }
void set_variant(int k) { if (variant_slot) memcpy(variant_slot, variant_table + (size_t)k * variant_syms, variant_syms * sizeof(void*)); }
static void env_defaults(void) {
    for (int k = variants() - 1; k > 0; k--) { set_variant(k); tg_env_set_allocator(sim_malloc, sim_realloc, sim_free); }
    set_variant(0);
    tg_env_set_allocator(sim_malloc, sim_realloc, sim_free);
    tg_env_set_index(2); tg_env_set_index_spread(16); tg_env_set_print_fixed_floats(false);
}

// The library's writable static memory is collected in two sections of its own at build time, so that
// every run starts from a pristine library.
extern "C" { extern char __start_tgdata[] __attribute__((weak)); extern char __stop_tgdata[] __attribute__((weak)); extern char __start_tgbss[] __attribute__((weak)); extern char __stop_tgbss[] __attribute__((weak)); }
static std::string saved_data, saved_bss;
static void lib_save(void) {
    if (__start_tgdata) saved_data.assign(__start_tgdata, __stop_tgdata - __start_tgdata);
    if (__start_tgbss) saved_bss.assign(__start_tgbss, __stop_tgbss - __start_tgbss);
}
// Thread-local variables of the library (it is compiled with emulated thread-local storage): every
// simulated thread has its own, as fresh as in a new thread.
struct EmuTls { size_t size, align; void *obj; const void *init; };
static std::map<std::pair<const void*, int>, void*> tls_vars;
static uint8_t tls_arena[1 << 20] __attribute__((aligned(64))); static size_t tls_top;
extern "C" void *sim_emutls(EmuTls *c) {
    void *&p = tls_vars[{c, task_self()}];
    if (!p) {
        size_t al = c->align < 16 ? 16 : c->align, at = (tls_top + al - 1) / al * al;
        if (at + c->size > sizeof tls_arena) harness_error("thread-local storage");
        p = tls_arena + at; tls_top = at + c->size;
        if (c->init) memcpy(p, c->init, c->size); else memset(p, 0, c->size);
        PROBE("library uses thread-local storage");
    }
    return p;
}
void lib_reset(void) {
    tls_vars.clear(); tls_top = 0;
    if (!saved_data.empty()) memcpy(__start_tgdata, saved_data.data(), saved_data.size());
    if (!saved_bss.empty()) memcpy(__start_tgbss, saved_bss.data(), saved_bss.size());
    env_defaults(); set_locale(0); set_libc_memory(true);
}

// ------------------------------------------------------------------ the locale of the process
// Part of the environment that a program may change for reasons of its own. Only what C library calls
// of the library see of it is simulated: decimal points and the classes of characters above 127.
static int cur_locale;
static const char *points[] = {".", ",", "\xd9\xab"};
static unsigned short ctab[384];
void set_locale(int w) {
    cur_locale = w;
    const unsigned short *t = *__ctype_b_loc();
    memcpy(ctab, t - 128, sizeof ctab);
    if (w) for (int c = 128; c < 256; c++) {
        unsigned short k = c == 0x85 || c == 0xa0 ? t['\v'] : c >= 0xc0 ? t['x'] : t['!'];
        ctab[128 + c] = k; if (c != 255) ctab[c - 128] = k;
    }
}
int draw_locale(void) { int l = draw(F, 4) == 3 ? 1 + (int)draw(F, 2) : 0; if (l) FAULT("locale with another decimal point"); return l; }
// glibc's qsort merges in memory from malloc and sorts a heap in place when it gets none
static bool libc_memory = true;
void set_libc_memory(bool plenty) { libc_memory = plenty; }
void loc_qsort(void *v, size_t n, size_t es, int (*cmp)(const void*, const void*)) {
    if (libc_memory && !heap_short(n * es)) { qsort(v, n, es, cmp); return; }
    FAULT("the C library sorts without memory");
    char *p = (char*)v;
    auto sw = [&](size_t a, size_t b) { std::swap_ranges(p + a * es, p + a * es + es, p + b * es); };
    auto down = [&](size_t i, size_t m) { for (size_t c; (c = 2 * i + 1) < m; i = c) { if (c + 1 < m && cmp(p + c * es, p + (c + 1) * es) < 0) c++; if (cmp(p + i * es, p + c * es) >= 0) break; sw(i, c); } };
    for (size_t i = n / 2; i-- > 0; ) down(i, n);
    for (size_t m = n; m-- > 1; ) { sw(0, m); down(0, m); }
}
double loc_strtod(const char *s, char **e) {
    if (!cur_locale) return strtod(s, e);
    const char *pt = points[cur_locale]; size_t n = strlen(pt), k = 0; std::string t; std::vector<size_t> at;
    while (s[k] && t.size() < 8192) {
        at.push_back(k);
        if (!strncmp(s + k, pt, n)) { t += '.'; k += n; }
        else if (isalnum((uint8_t)s[k]) || s[k] == '-' || s[k] == '+' || isspace((uint8_t)s[k])) t += s[k++];
        else break;
    }
    at.push_back(k);
    char *q; double d = strtod(t.c_str(), &q);
    if (e) *e = (char*)s + ((size_t)(q - t.c_str()) < at.size() ? at[(size_t)(q - t.c_str())] : k);
    return d;
}
extern "C" {
int simx_snprintf(char *d, size_t n, const char *f, ...) {
    va_list ap; va_start(ap, f); char tmp[2048]; int k = vsnprintf(tmp, sizeof tmp, f, ap); va_end(ap);
    std::string t = k < (int)sizeof tmp ? tmp : "";
    if (k >= (int)sizeof tmp) { t.resize((size_t)k + 1); va_start(ap, f); vsnprintf(&t[0], t.size(), f, ap); va_end(ap); t.resize((size_t)k); }
    if (cur_locale) for (const char *p = f; (p = strchr(p, '%')); ) {
        p++; while (*p && strchr("0123456789.*+- #lL", *p)) p++;
        if (*p && strchr("fFeEgGaA", *p)) { size_t i = t.find('.'); if (i != t.npos) t.replace(i, 1, points[cur_locale]); }
        if (*p) p++;
    }
    if (n) { size_t m = std::min(n - 1, t.size()); memcpy(d, t.data(), m); d[m] = 0; }
    return (int)t.size();
}
struct lconv *simx_localeconv(void) { static struct lconv l; l = *localeconv(); l.decimal_point = (char*)points[cur_locale]; return &l; }
const unsigned short **simx___ctype_b_loc(void) { static const unsigned short *p = ctab + 128; return &p; }
}

static const int HANG_SECONDS = 60;
static void on_alarm(int) { finish_violation("hang", "the run did not finish within the wall-clock limit"); }
static void on_crash(int sig) {
    char b[64]; snprintf(b, sizeof b, "signal %d", sig);
    finish_violation(sig == SIGSEGV ? "crash:segv" : sig == SIGFPE ? "crash:fpe" : "crash:signal", b);
}
static void arm_alarm(int s) { struct itimerval it = {}; it.it_value.tv_sec = s; setitimer(ITIMER_REAL, &it, NULL); }

static uint64_t max_run_steps;
static const uint64_t RUN_STEPS = 2000000000ull;       // many times what the longest runs need
static void one_run(Scenario *sc, uint64_t index) {
    TraceHead &h = g_trace->h;
    for (int i = 0; i < NSTREAM; i++) h.nvals[i] = 0;
    h.run_index = index; h.hash = 0; h.events = 0; h.cls[0] = h.msg[0] = 0;
    h.status = ST_RUNNING;
    arm_alarm(HANG_SECONDS);
    heap_reset(); run_step_limit(RUN_STEPS); tasks_begin(); lib_reset();
    uint64_t s0 = steps_now();
    sc->run(index);
    g_total_steps += steps_now() - s0;
    max_run_steps = std::max(max_run_steps, steps_now() - s0);
    heap_nofail();
    ev(g_heap.nalloc); ev(g_heap.nfree); ev(g_heap.total_bytes);
    if (HAVE_ACCESS_HOOK) ev(steps_now() - s0);
    h.status = ST_OK;
}
static void seed_run(const char *scen, uint64_t vseed, uint64_t index) {
    uint64_t s = mix64(hash_bytes(scen, strlen(scen)) ^ mix64(vseed) ^ mix64(index * 0x2545F4914F6CDD1Dull + 11));
    g_trace->h.run_seed = s;
    for (int i = 0; i < NSTREAM; i++) rng_state[i] = mix64(s + 0x1234567 * (i + 1));
}
static Trace *map_trace(const char *path) {
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Trace)) < 0) { perror(path); _exit(4); }
    void *p = mmap(NULL, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
    close(fd);
    Trace *t = (Trace*)p; memset(&t->h, 0, sizeof t->h); t->h.magic = 0x31454341525447ull;
    return t;
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((uint8_t)*s >= 32) fputc(*s, f); }
    fputc('"', f);
}
static void write_stats(const char *path, uint64_t runs, double wall, uint64_t hashes) {
    FILE *f = fopen(path, "w");
    if (!f) harness_error("cannot write %s", path);
    fprintf(f, "{\"build\":\"%s\",\"runs\":%llu,\"wall\":%.3f,\"steps\":%llu,\"max_run_steps\":%llu,\"hash\":\"%016llx\",\"counters\":[", BUILD_NAME,
        (unsigned long long)runs, wall, (unsigned long long)g_total_steps, (unsigned long long)max_run_steps, (unsigned long long)hashes);
    bool first = true;
    std::map<std::pair<std::string, std::string>, uint64_t> m;
    for (Counter *c = g_counters; c; c = c->next) m[{c->kind, c->name}] += c->n;
    for (auto &c : m) {
        fprintf(f, "%s[", first ? "" : ","); json_str(f, c.first.first.c_str()); fputc(',', f);
        json_str(f, c.first.second.c_str()); fprintf(f, ",%llu]", (unsigned long long)c.second);
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    std::string s = path; s += ".inter";
    f = fopen(s.c_str(), "wb"); for (uint64_t h : interleavings) fwrite(&h, 8, 1, f); fclose(f);
    s = path; s += ".cases";
    f = fopen(s.c_str(), "wb"); for (uint64_t h : cases) fwrite(&h, 8, 1, f); fclose(f);
}

static void install_signals(void) {
    struct sigaction sa = {};
    static char alt[65536];
    stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, NULL);
    sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK; sigaction(SIGALRM, &sa, NULL);
#ifndef SIM_ASAN
    sa.sa_handler = on_crash;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    for (int s : sigs) sigaction(s, &sa, NULL);
#else
    (void)on_crash;
#endif
}

int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    auto usage = [&]() { fprintf(stderr, "usage: sim list | run SCEN VSEED START STRIDE COUNT SECONDS TRACE STATS | one SCEN VSEED INDEX TRACE [-v] | replay SCEN STREAMS TRACE [-v]\n"); return 4; };
    if (argc < 2) return usage();
    std::string cmd = argv[1];
    if (cmd == "list") { for (Scenario *s = g_scenarios; s; s = s->next) printf("%s\n", s->name); return 0; }
    if (argc < 3) return usage();
    Scenario *sc = g_scenarios;
    for (; sc; sc = sc->next) if (!strcmp(sc->name, argv[2])) break;
    if (!sc) { fprintf(stderr, "no scenario %s\n", argv[2]); return 4; }
    install_signals(); lib_save();
    if (cmd == "run" && argc == 10) {
        uint64_t vs = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        double lim = atof(argv[7]), t0 = now();
        g_trace = map_trace(argv[8]); g_trace->h.ready = 1;
        uint64_t n = 0, hh = 0;
        for (; n < count; n++) {
            if (lim > 0 && now() - t0 > lim) break;
            uint64_t idx = start + n * stride;
            seed_run(sc->name, vs, idx);
            one_run(sc, idx);
            hh = hcomb(hh, g_trace->h.hash);
        }
        arm_alarm(0);
        write_stats(argv[9], n, now() - t0, hh);
        g_trace->h.status = ST_IDLE;
        fflush(stdout);
        _exit(0);
    }
    if (cmd == "one" && argc >= 6) {
        g_trace = map_trace(argv[5]); g_trace->h.ready = 1;
        g_verbose = argc > 6;
        uint64_t idx = strtoull(argv[4], 0, 10);
        seed_run(sc->name, strtoull(argv[3], 0, 10), idx);
        one_run(sc, idx);
        if (g_verbose) printf("ok events=%llu hash=%016llx\n", (unsigned long long)g_trace->h.events, (unsigned long long)g_trace->h.hash);
        fflush(stdout);
        _exit(0);
    }
    if (cmd == "replay" && argc >= 5) {
        FILE *f = fopen(argv[3], "r"); if (!f) { perror(argv[3]); return 4; }
        unsigned long long idx = 0; unsigned cnt;
        if (fscanf(f, "%llu", &idx) != 1) return 4;
        for (int i = 0; i < NSTREAM; i++) {
            if (fscanf(f, "%u", &cnt) != 1) return 4;
            replay_vals[i].resize(cnt);
            for (unsigned j = 0; j < cnt; j++) if (fscanf(f, "%u", &replay_vals[i][j]) != 1) return 4;
        }
        fclose(f);
        replaying = true;
        g_trace = map_trace(argv[4]); g_trace->h.ready = 1;
        g_verbose = argc > 5;
        one_run(sc, idx);
        if (g_verbose) printf("ok events=%llu hash=%016llx\n", (unsigned long long)g_trace->h.events, (unsigned long long)g_trace->h.hash);
        fflush(stdout);
        _exit(0);
    }
    return usage();
}
