// Runtime for the "sched" build. tg.c is compiled with clang's -fsanitize=thread instrumentation but
// linked against this file instead of the ThreadSanitizer runtime: every load, store, atomic operation,
// memcpy/memset and function entry of the library calls in here. That makes every memory access
//   - one tick of simulated time (step counter, step limit),
//   - a bounds and lifetime check against the simulated heap's shadow,
//   - a possible preemption point for the seeded scheduler (simulated threads are fibers),
//   - an access in the happens-before race detector (vector clocks, C11 orderings).
#include "core.h"
#include "rt.h"
#include <sys/mman.h>
#include <ucontext.h>
#include <memory>
#include <cstdlib>
#include <algorithm>

const bool HAVE_ACCESS_HOOK = true;
const char *BUILD_NAME = "sched";
uint8_t *g_arena, *g_shadow, *g_arena_hi;

static uint64_t steps, step_lim = ~0ull;
uint64_t steps_now(void) { return steps; }
static uint64_t run_lim = ~0ull;
void step_limit(uint64_t n) { step_lim = n && n < run_lim - steps ? steps + n : run_lim; }
void run_step_limit(uint64_t n) { step_lim = run_lim = steps + n; }

// ------------------------------------------------------------------ tasks
static const size_t STACK = 2u << 20;
static uint8_t *stacks;                                  // MAX_TASKS+1 stacks
struct Task {
    ucontext_t ctx; std::function<void()> fn; bool done = false; uint64_t own = 0;
    uint32_t vc[MAX_TASKS]; uint32_t acq[MAX_TASKS]; uint32_t relf[MAX_TASKS]; bool has_relf;
};
static Task tasks[MAX_TASKS];
static int ntasks, cur;
static bool conc;                                        // several tasks are running
static int64_t slice = INT64_MAX;
static SchedCfg cfg; static uint64_t switches; static uint32_t sw_left;
static int prio[MAX_TASKS]; static std::vector<uint64_t> pct_points; static size_t pct_i; static uint64_t run_steps0;
static uint64_t order_hash;
static ucontext_t main_ctx;
int task_self(void) { return cur; }
uint64_t sched_switches(void) { return switches; }

static inline bool on_stack(uintptr_t a) { return stacks && a >= (uintptr_t)stacks && a < (uintptr_t)stacks + STACK * (MAX_TASKS + 1); }

// ------------------------------------------------------------------ race detector
// Per 8-byte granule: for every task and byte the epoch of its last plain read, plain write,
// atomic load, atomic store/RMW.
struct Cell { uintptr_t key; uint32_t e[4][MAX_TASKS][8]; };
static const uint32_t TAB = 1u << 18;
static uint32_t *tab; static uint32_t *tabv; static uint32_t tver = 1; static std::vector<std::unique_ptr<Cell[]>> pool; static uint32_t ncells;
static const uint32_t POOLCH = 4096;
static Cell *cell_at(uint32_t i) { return &pool[i / POOLCH][i % POOLCH]; }
static Cell *cell_for(uintptr_t key) {
    uint32_t h = (uint32_t)(mix64(key) & (TAB - 1));
    for (;;) {
        if (tabv[h] != tver) {
            if (ncells >= TAB / 2) return NULL;
            if (ncells / POOLCH >= pool.size()) pool.emplace_back(new Cell[POOLCH]);
            Cell *c = cell_at(ncells);
            memset(c, 0, sizeof *c); c->key = key;
            tab[h] = ncells++; tabv[h] = tver;
            return c;
        }
        Cell *c = cell_at(tab[h]);
        if (c->key == key) return c;
        h = (h + 1) & (TAB - 1);
    }
}
struct SyncVar { uint32_t vc[MAX_TASKS]; };
static std::map<uintptr_t, SyncVar> syncs;

static const char *kname[4] = {"read", "write", "atomic load", "atomic update"};
static const uint8_t conflicts[4] = { /*read vs*/ 2 | 8, /*write vs*/ 1 | 2 | 4 | 8, /*aload vs*/ 2, /*aupd vs*/ 1 | 2 };
[[noreturn]] static void race(uintptr_t a, int kind, int other, int okind) {
    const char *where = (uint8_t*)a >= g_arena && (uint8_t*)a < g_arena + ARENA_SIZE ? "an object" : "static memory";
    violate("data-race", "unordered accesses to the same byte of %s: %s by thread %d, %s by thread %d", where, kname[kind], cur, kname[okind], other);
}
static void race_access(uintptr_t a, size_t n, int kind) {
    if (on_stack(a)) return;
    Task &t = tasks[cur];
    uint32_t me = t.vc[cur];
    while (n) {
        uintptr_t key = a >> 3; unsigned off = a & 7; unsigned len = 8 - off; if (len > n) len = (unsigned)n;
        Cell *c = cell_for(key);
        if (!c) { PROBE("race detector: table full"); return; }
        for (unsigned b = off; b < off + len; b++) {
            if (c->e[kind][cur][b] == me) continue;
            for (int k = 0; k < 4; k++) if (conflicts[kind] >> k & 1)
                for (int u = 0; u < ntasks; u++) if (u != cur && c->e[k][u][b] > t.vc[u]) race(a, kind, u, k);
            c->e[kind][cur][b] = me;
        }
        a += len; n -= len;
    }
}
static void vjoin(uint32_t *d, const uint32_t *s) { for (int i = 0; i < MAX_TASKS; i++) if (s[i] > d[i]) d[i] = s[i]; }

// ------------------------------------------------------------------ scheduler
static void new_slice(void) {
    slice = INT64_MAX;
    if (!conc || sw_left == 0) return;
    if (cfg.mode == 0 || cfg.mode == 3) {
        uint32_t d = draw(S, cfg.mode == 3 ? 9 : 15);
        if (d) slice = 1 + (int64_t)draw(S, 1u << d);
    } else if (cfg.mode == 2) {
        if (pct_i < pct_points.size()) {
            uint64_t at = run_steps0 + pct_points[pct_i];
            slice = at > steps ? (int64_t)(at - steps) : 1;
        }
    }
}
static void switch_to(int to) {
    if (to == cur) return;
    int from = cur;
    switches++; if (sw_left) sw_left--;
    ev(0x5C0000 + from * 16 + to); ev(tasks[from].own);
    cur = to;
    swapcontext(&tasks[from].ctx, &tasks[to].ctx);
}
static int pick_other(void) {
    int c[MAX_TASKS], n = 0;
    for (int i = 1; i < ntasks; i++) if (!tasks[i].done && i != cur) c[n++] = i;
    if (!n) return cur;
    if (cfg.mode == 2) { int b = c[0]; for (int i = 1; i < n; i++) if (prio[c[i]] > prio[b]) b = c[i]; return b; }
    return c[n == 1 ? 0 : draw(S, n)];
}
static void preempt(void) {
    if (!conc || sw_left == 0) { slice = INT64_MAX; return; }
    if (cfg.mode == 2) {
        if (pct_i < pct_points.size()) pct_i++;
        prio[cur] = -(int)pct_i - 10;
    }
    int to = pick_other();
    new_slice();
    if (to != cur) { FAULT("preemption between two memory accesses"); switch_to(to); }
}
void sched_point(int kind) {
    if (!conc || cur == 0 || sw_left == 0) return;
    if (cfg.mode == 1 || cfg.mode == 3) {
        if (chance(S, 1, 4)) { int to = pick_other(); new_slice(); if (to != cur) { FAULT("preemption at a synchronisation or allocation point"); switch_to(to); } }
        else if (cfg.mode == 3 && kind == 1 && chance(S, 1, 3)) slice = 1 + draw(S, 12);
    }
}
void tasks_begin(void) {
    if (!stacks) {
        stacks = (uint8_t*)mmap(NULL, STACK * (MAX_TASKS + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (stacks == MAP_FAILED) harness_error("stacks");
        tab = new uint32_t[TAB](); tabv = new uint32_t[TAB]();
    }
    for (auto &t : tasks) { t.fn = nullptr; t.done = false; t.own = 0; memset(t.vc, 0, sizeof t.vc); memset(t.acq, 0, sizeof t.acq); memset(t.relf, 0, sizeof t.relf); t.has_relf = false; }
    tasks[0].vc[0] = 1;
    ntasks = 1; cur = 0; conc = false; slice = INT64_MAX; switches = 0; order_hash = 0;
    tver++; ncells = 0; syncs.clear();
}
static void task_main(int id) {
    tasks[id].fn();
    tasks[id].done = true;
    ev(0x5CD000 + id);
    // finished: hand over to another task, or back to main
    int c[MAX_TASKS], n = 0;
    for (int i = 1; i < ntasks; i++) if (!tasks[i].done) c[n++] = i;
    if (!n) { cur = 0; setcontext(&main_ctx); }
    int to;
    if (cfg.mode == 2) { to = c[0]; for (int i = 1; i < n; i++) if (prio[c[i]] > prio[to]) to = c[i]; }
    else to = c[n == 1 ? 0 : draw(S, n)];
    new_slice();
    cur = to;
    setcontext(&tasks[to].ctx);
}
int task_spawn(std::function<void()> fn) {
    if (ntasks >= MAX_TASKS) harness_error("too many tasks");
    int id = ntasks++;
    Task &t = tasks[id];
    t.fn = std::move(fn); t.done = false;
    memcpy(t.vc, tasks[0].vc, sizeof t.vc);               // everything main did happens before the task
    t.vc[id] = 1;
    getcontext(&t.ctx);
    t.ctx.uc_stack.ss_sp = stacks + STACK * id; t.ctx.uc_stack.ss_size = STACK; t.ctx.uc_link = NULL;
    makecontext(&t.ctx, (void(*)())task_main, 1, id);
    return id;
}
void tasks_run(const SchedCfg &c) {
    if (ntasks < 2) return;
    cfg = c; sw_left = c.max_switch; conc = true; run_steps0 = steps;
    tasks[0].vc[0]++;
    pct_points.clear(); pct_i = 0;
    if (cfg.mode == 2) {
        for (int i = 1; i < ntasks; i++) prio[i] = (int)draw(S, 1000);
        uint32_t k = 1 + draw(S, 6);
        for (uint32_t i = 0; i < k; i++) pct_points.push_back(1 + draw(S, cfg.est_steps ? cfg.est_steps : 1));
        std::sort(pct_points.begin(), pct_points.end());
    }
    int first = 1;
    if (cfg.mode == 2) { for (int i = 2; i < ntasks; i++) if (prio[i] > prio[first]) first = i; }
    else first = 1 + (int)draw(S, ntasks - 1);
    new_slice();
    cur = first;
    swapcontext(&main_ctx, &tasks[first].ctx);
    cur = 0; conc = false; slice = INT64_MAX;
    for (int i = 1; i < ntasks; i++) vjoin(tasks[0].vc, tasks[i].vc);   // join
    tasks[0].vc[0]++;
    note_interleaving(order_hash);
    PROBEN("context switches", switches);
}
void sync_release(uint64_t *clk) { Task &t = tasks[cur]; for (int i = 0; i < MAX_TASKS; i++) clk[i] = t.vc[i]; t.vc[cur]++; }
void sync_acquire(const uint64_t *clk) { Task &t = tasks[cur]; for (int i = 0; i < MAX_TASKS; i++) if (clk[i] > t.vc[i]) t.vc[i] = (uint32_t)clk[i]; }

static ucontext_t fs_ctx, fs_back; static std::function<void()> fs_fn;
static void fs_main(void) { fs_fn(); setcontext(&fs_back); }
void run_on_fresh_stack(std::function<void()> fn, FillMode m, uint64_t seed) {
    uint8_t *st = stacks + STACK * MAX_TASKS;
    size_t n = 192 << 10; uint8_t *p = st + STACK - n;
    switch (m) {
    case FILL_ZERO: memset(p, 0, n); break;
    case FILL_FF: memset(p, 0xff, n); break;
    case FILL_A5: memset(p, 0xa5, n); break;
    default: { uint64_t s = mix64(seed); for (size_t i = 0; i < n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; uint64_t v = m == FILL_SMALL ? 1 + (s >> 60) : s ^ (s >> 29); memcpy(p + i, &v, 8); } }
    }
    fs_fn = std::move(fn);
    getcontext(&fs_ctx); fs_ctx.uc_stack.ss_sp = st; fs_ctx.uc_stack.ss_size = STACK; fs_ctx.uc_link = NULL;
    makecontext(&fs_ctx, fs_main, 0);
    swapcontext(&fs_back, &fs_ctx);
    fs_fn = nullptr;
}

// ------------------------------------------------------------------ the hook
[[noreturn]] static void bad_access(uintptr_t, size_t n, bool wr, uint8_t sh) {
    violate(sh == SH_FREED ? "use-after-free" : "out-of-bounds", "%s of %zu byte(s) %s", wr ? "write" : "read", n,
        sh == SH_FREED ? "in a block that has been released" : "outside every live block");
}
[[noreturn]] static void too_long(void) { violate("no-progress", "a call did not finish within its bound of memory accesses"); }

static void check_range(uintptr_t a, size_t n, bool wr) {
    if (a - (uintptr_t)g_arena < ARENA_SIZE) {
        const uint8_t *s = g_shadow + (a - (uintptr_t)g_arena);
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, s + i, 8); if (v != 0x0101010101010101ull) break; }
        for (; i < n; i++) if (s[i] != SH_LIVE) bad_access(a, n, wr, s[i]);
    }
}
static inline __attribute__((always_inline)) void acc(uintptr_t a, size_t n, int kind) {
    if (++steps >= step_lim) too_long();
    if (a - (uintptr_t)g_arena < ARENA_SIZE) {
        const uint8_t *s = g_shadow + (a - (uintptr_t)g_arena);
        uint64_t v, full = n == 8 ? 0x0101010101010101ull : n == 4 ? 0x01010101ull : n == 2 ? 0x0101 : 1;
        v = 0; memcpy(&v, s, n <= 8 ? n : 8);
        if (n > 8) check_range(a, n, kind & 1);
        else if (__builtin_expect(v != full, 0)) bad_access(a, n, kind & 1, s[0] != SH_LIVE ? s[0] : s[n - 1]);
    }
    if (__builtin_expect(conc, 0) && cur) {
        tasks[cur].own++;
        if (--slice <= 0) preempt();
        race_access(a, n, kind);
    }
}
static void acc_range(uintptr_t a, size_t n, int kind) {
    steps += n / 16;
    if (++steps >= step_lim) too_long();
    if (!n) return;
    check_range(a, n, kind & 1);
    if (conc && cur) { tasks[cur].own++; slice -= 1; if (slice <= 0) preempt(); race_access(a, n, kind); }
}
void hook_alloc(void *p, size_t n) {
    // a fresh block: accesses to whatever lived here before are ordered by the allocator
    if (!conc) return;
    uintptr_t a = (uintptr_t)p;
    (void)a; (void)n;                                     // bump arena: addresses are never reused while tasks run
}
void hook_free(void *p, size_t n) {
    if (conc && cur) {
        if (n) race_access((uintptr_t)p, n, 1);           // releasing a block conflicts with every unordered access to it
        order_hash = hcomb(order_hash, 0xF000 + cur);
    }
}

#define X extern "C" __attribute__((used))
X void __tsan_init(void) {}
X void __tsan_func_entry(void *) {}
X void __tsan_func_exit(void) {}
#define RW(n) \
X void __tsan_read##n(void *a) { acc((uintptr_t)a, n, 0); } \
X void __tsan_write##n(void *a) { acc((uintptr_t)a, n, 1); } \
X void __tsan_volatile_read##n(void *a) { acc((uintptr_t)a, n, 0); } \
X void __tsan_volatile_write##n(void *a) { acc((uintptr_t)a, n, 1); } \
X void __tsan_unaligned_volatile_read##n(void *a) { acc((uintptr_t)a, n, 0); } \
X void __tsan_unaligned_volatile_write##n(void *a) { acc((uintptr_t)a, n, 1); } \
X void __tsan_read_write##n(void *a) { acc((uintptr_t)a, n, 0); acc((uintptr_t)a, n, 1); } \
X void __tsan_unaligned_read##n(void *a) { acc((uintptr_t)a, n, 0); } \
X void __tsan_unaligned_write##n(void *a) { acc((uintptr_t)a, n, 1); } \
X void __tsan_unaligned_read_write##n(void *a) { acc((uintptr_t)a, n, 0); acc((uintptr_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
X void __tsan_read_range(void *a, uintptr_t n) { acc_range((uintptr_t)a, n, 0); }
X void __tsan_write_range(void *a, uintptr_t n) { acc_range((uintptr_t)a, n, 1); }
X void __tsan_vptr_read(void **a) { acc((uintptr_t)a, 8, 0); }
X void __tsan_vptr_update(void **a, void *) { acc((uintptr_t)a, 8, 1); }
X void __tsan_ignore_thread_begin(void) {}
X void __tsan_ignore_thread_end(void) {}
X void *__tsan_memcpy(void *d, const void *s, size_t n) { acc_range((uintptr_t)s, n, 0); acc_range((uintptr_t)d, n, 1); return n ? memmove(d, s, n) : d; }
X void *__tsan_memmove(void *d, const void *s, size_t n) { acc_range((uintptr_t)s, n, 0); acc_range((uintptr_t)d, n, 1); return n ? memmove(d, s, n) : d; }
X void *__tsan_memset(void *d, int c, size_t n) { acc_range((uintptr_t)d, n, 1); return n ? memset(d, c, n) : d; }
// C library functions the library calls on its buffers: same checks, then the real thing
X size_t simx_strlen(const char *s) { size_t n = 0; for (;; n++) { check_range((uintptr_t)s + n, 1, false); if (!s[n]) break; } acc_range((uintptr_t)s, n + 1, 0); return n; }
X int simx_memcmp(const void *a, const void *b, size_t n) { acc_range((uintptr_t)a, n, 0); acc_range((uintptr_t)b, n, 0); return memcmp(a, b, n); }
// the parsers of the C library look at the number and one byte after it
static bool in_arena(const void *p) { return (uintptr_t)p - (uintptr_t)g_arena < ARENA_SIZE; }
template <class T, class Fn> static T numparse(const char *s, char **e, Fn fn) {
    if (!in_arena(s)) return fn(s, e);
    std::string c;
    for (size_t i = 0; i < 4096; i++) { if (g_shadow[(uintptr_t)s + i - (uintptr_t)g_arena] != SH_LIVE || !s[i]) break; c += s[i]; }
    char *end; T v = fn(c.c_str(), &end);
    size_t n = end - c.c_str();
    check_range((uintptr_t)s, n + 1, false); acc_range((uintptr_t)s, n + 1, 0);
    if (e) *e = (char*)s + n;
    return v;
}
X double simx_strtod(const char *s, char **e) { return numparse<double>(s, e, [](const char *p, char **q) { return loc_strtod(p, q); }); }
X long simx_strtol(const char *s, char **e, int b) { return numparse<long>(s, e, [b](const char *p, char **q) { return strtol(p, q, b); }); }
X long long simx_strtoll(const char *s, char **e, int b) { return numparse<long long>(s, e, [b](const char *p, char **q) { return strtoll(p, q, b); }); }
X int simx_bcmp(const void *a, const void *b, size_t n) { return simx_memcmp(a, b, n); }
X int simx_strncmp(const char *a, const char *b, size_t n) {
    size_t i = 0;
    for (; i < n; i++) { check_range((uintptr_t)a + i, 1, false); check_range((uintptr_t)b + i, 1, false); if (a[i] != b[i] || !a[i]) break; }
    acc_range((uintptr_t)a, i < n ? i + 1 : n, 0); acc_range((uintptr_t)b, i < n ? i + 1 : n, 0);
    return i < n ? (int)(uint8_t)a[i] - (int)(uint8_t)b[i] : 0;
}
X char *simx_strchr(const char *s, int c) { simx_strlen(s); return (char*)strchr(s, c); }
X int simx_vsnprintf(char *d, size_t n, const char *f, va_list ap) { int k = vsnprintf(d, n, f, ap); if (n && k >= 0) acc_range((uintptr_t)d, (size_t)k + 1 < n ? (size_t)k + 1 : n, 1); return k; }
X void simx_qsort(void *p, size_t n, size_t es, int (*cmp)(const void*, const void*)) { if (n) { acc_range((uintptr_t)p, n * es, 0); acc_range((uintptr_t)p, n * es, 1); } loc_qsort(p, n, es, cmp); }
X int simx_strcmp(const char *a, const char *b) {
    size_t i = 0;
    for (;; i++) { check_range((uintptr_t)a + i, 1, false); check_range((uintptr_t)b + i, 1, false); if (a[i] != b[i] || !a[i]) break; }
    acc_range((uintptr_t)a, i + 1, 0); acc_range((uintptr_t)b, i + 1, 0);
    return (int)(uint8_t)a[i] - (int)(uint8_t)b[i];
}

// ------------------------------------------------------------------ atomics
enum { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
static bool is_acq(int mo) { return mo == mo_acquire || mo == mo_consume || mo == mo_acq_rel || mo == mo_seq_cst; }
static bool is_rel(int mo) { return mo == mo_release || mo == mo_acq_rel || mo == mo_seq_cst; }
static void before_atomic(uintptr_t a, size_t n, int kind) {
    if (++steps >= step_lim) too_long();
    check_range(a, n, kind == 3);
    if (conc && cur) {
        tasks[cur].own++;
        sched_point(1);
        if (--slice <= 0) preempt();
        check_range(a, n, kind == 3);                     // may have been released meanwhile
        race_access(a, n, kind);
        order_hash = hcomb(order_hash, 0xA000 + cur * 4 + kind);
        PROBE("atomic operation by a simulated thread");
    }
}
// the accesses above are instantaneous: nothing is scheduled between the check and the update
static void sync_load(uintptr_t a, int mo) {
    if (!conc || !cur) return;
    auto it = syncs.find(a); if (it == syncs.end()) return;
    if (is_acq(mo)) vjoin(tasks[cur].vc, it->second.vc); else vjoin(tasks[cur].acq, it->second.vc);
}
static void sync_store(uintptr_t a, int mo, bool rmw) {
    if (!conc || !cur) return;
    Task &t = tasks[cur];
    SyncVar &s = syncs[a];
    if (!rmw) memset(&s, 0, sizeof s);
    if (is_rel(mo)) { vjoin(s.vc, t.vc); t.vc[cur]++; }
    else if (t.has_relf) vjoin(s.vc, t.relf);
}
X void __tsan_atomic_thread_fence(int mo) {
    steps++;
    if (!conc || !cur) return;
    Task &t = tasks[cur];
    if (is_acq(mo)) vjoin(t.vc, t.acq);
    if (is_rel(mo)) { memcpy(t.relf, t.vc, sizeof t.relf); t.has_relf = true; t.vc[cur]++; }
}
X void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, T) \
X T __tsan_atomic##bits##_load(const volatile T *a, int mo) { before_atomic((uintptr_t)a, sizeof(T), 2); sync_load((uintptr_t)a, mo); return *a; } \
X void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { before_atomic((uintptr_t)a, sizeof(T), 3); sync_store((uintptr_t)a, mo, false); *a = v; } \
X T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { before_atomic((uintptr_t)a, sizeof(T), 3); sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); T o = *a; *a = v; return o; } \
X T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { before_atomic((uintptr_t)a, sizeof(T), 3); sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); T o = *a; *a = (T)(o + v); return o; } \
X T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { before_atomic((uintptr_t)a, sizeof(T), 3); sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); T o = *a; *a = (T)(o - v); return o; } \
X T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { before_atomic((uintptr_t)a, sizeof(T), 3); sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); T o = *a; *a = (T)(o & v); return o; } \
X T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { before_atomic((uintptr_t)a, sizeof(T), 3); sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); T o = *a; *a = (T)(o | v); return o; } \
X T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { before_atomic((uintptr_t)a, sizeof(T), 3); sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); T o = *a; *a = (T)(o ^ v); return o; } \
X T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { before_atomic((uintptr_t)a, sizeof(T), 3); sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); T o = *a; *a = (T)~(o & v); return o; } \
X int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    before_atomic((uintptr_t)a, sizeof(T), 3); T o = *a; \
    if (o == *c) { sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); *a = v; return 1; } \
    sync_load((uintptr_t)a, fmo); *c = o; return 0; } \
X int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
    before_atomic((uintptr_t)a, sizeof(T), 3); T o = *a; \
    if (o == *c && !(conc && cur && sw_left && chance(F, 1, 8))) { sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); *a = v; return 1; } \
    if (o == *c) FAULT("weak compare-exchange fails spuriously"); \
    sync_load((uintptr_t)a, fmo); *c = o; return 0; } \
X T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { T e = c; __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
