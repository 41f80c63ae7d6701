// Interface between the core and the access-hook runtime (rt_sched.cpp) or its stub (rt_asan.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
static const size_t ARENA_SIZE = 1ull << 30;
enum { SH_RED = 0, SH_LIVE = 1, SH_FREED = 2 };
extern uint8_t *g_arena, *g_shadow, *g_arena_hi;
void hook_alloc(void *p, size_t n);
void hook_free(void *p, size_t n);
double loc_strtod(const char *s, char **end);
