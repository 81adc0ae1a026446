// The C library's random generator with its rare values made frequent: the ends of its range and the middle, which real
// runs draw once in two thousand million times. Deterministic in the seed; off unless a workload asks for it.
#ifndef RARE_H
#define RARE_H
#include "harness.h"
#include <stdlib.h>
namespace hv
{
struct Rare
{
    double often;       // probability of a rare value per draw
    bool zero;          // whether 0 is among them
    uint64_t seed, n, made;
};
inline Rare& rare() { static Rare r = {0, true, 1, 0, 0}; return r; }
inline void rare_draws(double often, bool zero = true) { rare().often = often; rare().zero = zero; }
}
extern "C" void srand(unsigned s) noexcept { srandom(s); hv::rare().seed = s; hv::rare().n = 0; }
extern "C" int rand() noexcept
{
    hv::Rare& r = hv::rare();
    int v = (int)random();
    if (r.often <= 0) return v;
    uint64_t h = (r.seed * 0x9e3779b97f4a7c15ull) ^ (++r.n * 0xd1342543de82ef95ull);
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; h *= 0x94d049bb133111ebull; h ^= h >> 31;
    if ((double)(h >> 11) / 9007199254740992.0 >= r.often) return v;
    static const int odd[] = {RAND_MAX, RAND_MAX - 1, 1, RAND_MAX / 2, RAND_MAX / 2 + 1, 2, 0, 0};
    r.made++;
    return odd[(h & 1023) % (r.zero ? 8 : 6)];
}
#endif
