#pragma once
#include <cstdint>
namespace sim {
void rt_init();
void rt_flush();
void rt_quiet(int d);
void core_set_steps(uint64_t st, uint64_t ns);
void ihash(uint64_t v);
bool verbose();
void vtrace(const char* fmt, ...);   // shown in replays, not hashed
uint64_t real_mono_ns();
void alloc_arena_map();
void alloc_arena_start();
[[noreturn]] void fail_at(const char* kind, const char* where, const char* msg);
}
