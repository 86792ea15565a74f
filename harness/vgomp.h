// Control of the harness's own OpenMP runtime (vgomp.cpp).
#pragma once
#include <cstdint>
namespace vgomp {
// Number of threads of the next teams, and the seed of the order in which a
// serialised team runs.
void configure(int threads, uint64_t seed);
// Parallel regions with more than one thread run so far.
uint64_t regions();
}  // namespace vgomp
