#pragma once
#include <cstdint>
#include <random>
using u64 = std::uint64_t;
using Rng = std::mt19937_64;
inline int rnd(Rng& g, int n) { return n <= 1 ? 0 : int(g() % u64(n)); }
inline bool chance(Rng& g, int pct) { return int(g() % 100) < pct; }
