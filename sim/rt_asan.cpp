// Runtime stub for the "asan" builds: the library runs under AddressSanitizer, without access hooks
// and without simulated threads.
#include "core.h"
#include "rt.h"
const bool HAVE_ACCESS_HOOK = false;
const char *BUILD_NAME = "asan";
uint8_t *g_arena, *g_shadow, *g_arena_hi;
uint64_t steps_now(void) { return 0; }
void step_limit(uint64_t) {}
void run_step_limit(uint64_t) {}
void hook_alloc(void*, size_t) {}
void hook_free(void*, size_t) {}
int task_self(void) { return 0; }
void tasks_begin(void) {}
int task_spawn(std::function<void()>) { harness_error("no tasks in this build"); }
void tasks_run(const SchedCfg&) { harness_error("no tasks in this build"); }
void sched_point(int) {}
void sync_release(uint64_t*) {}
void sync_acquire(const uint64_t*) {}
uint64_t sched_switches(void) { return 0; }
void run_on_fresh_stack(std::function<void()> fn, FillMode, uint64_t) { fn(); }
extern "C" {
size_t simx_strlen(const char *s) { return strlen(s); }
int simx_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
double simx_strtod(const char *s, char **e) { return loc_strtod(s, e); }
void simx_qsort(void *p, size_t n, size_t es, int (*cmp)(const void*, const void*)) { loc_qsort(p, n, es, cmp); }
int simx_strcmp(const char *a, const char *b) { return strcmp(a, b); }
}
