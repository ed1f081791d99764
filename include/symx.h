// Harness API.  Under the symbolic executor these are intercepted; natively they are implemented in native/runtime.cc.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t symx_int(const char* name, unsigned bits);               // fresh value of `bits` bits, zero-extended
uint64_t symx_range(const char* name, uint64_t lo, uint64_t hi);  // fresh value in [lo,hi], every value explored on a path of its own
void symx_bytes(void* p, size_t n, const char* name);             // n fresh bytes
void symx_assume(bool c);
void symx_assert(bool c, const char* msg);
[[noreturn]] void symx_fail(const char* msg);
void symx_obs(const char* name, uint64_t v);                      // observation compared with the native run
void symx_obs_bytes(const char* name, const void* p, size_t n);
void symx_freeze(void);                                           // from now on: no unsynchronised write to objects that exist now
void symx_unfreeze(void);
void symx_cover(const char* label);                               // reachability witness
int symx_tier(void);
uint64_t symx_concretize(uint64_t v);
[[noreturn]] void symx_stop(void);
void symx_lenient(void);                                          // from now on, memory faults end the path as unexplored (buffers with a size but no content)
void symx_lock(void* m);
void symx_unlock(void* m);
// implemented by the harness
unsigned symx_jobs(int tier);
void symx_main(unsigned job);
}
