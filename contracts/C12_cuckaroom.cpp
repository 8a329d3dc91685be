// vc-src: src/PoW/Cuckaroom.cpp
// vc-use: cuckaroom_sipblock sip::blockall_contract C12_siphash::block_cuckaroom
// vc-opaque: sip::blockall -
// vc-assume: the walk along the cycle takes fewer than 1000 steps (it never visits an endpoint twice; argued in DESIGN.md)
// vc-opt: nosummary=true
// vc-opt: invjobs=4
// vc-opt: invsplit={"i":[0,41]}
#include "sip.h"

int verify_cuckaroom(const word_t edges[PROOFSIZE], siphash_keys& keys);

namespace C12 {
static const uint64_t NONE = 63;
struct Arcs { std::array<uint64_t, 42> from, to; };
static Arcs arcs(const siphash_keys& k, const std::array<uint64_t, 42>& edges, uint64_t mask)
{
    Arcs r;
    for (int n = 0; n < 42; n++) { uint64_t h = sip::blockall(k.k0, k.k1, k.k2, k.k3, edges[n]); r.from[n] = h & mask; r.to[n] = (h >> 32) & mask; }
    return r;
}
// walk state: the current edge and, from bit 8, the set of edges left behind.  From an edge not yet left behind, go on to the
// first edge that starts where it ends
static uint64_t follow(const Arcs& a, uint64_t state)
{
    uint64_t i = state & 0xff, seen = state >> 8;
    if (i >= 42 || ((seen >> i) & 1)) return NONE;
    uint64_t next = NONE;
    for (uint64_t k = 42; k-- > 0;) if (a.from[k] == a.to[i]) next = k;
    return next == NONE ? NONE : next | ((seen | (1ull << i)) << 8);
}

void cuckaroom_cycle(siphash_keys keys, std::array<uint64_t, 42> edges, uint64_t t)
{
    vc::require(t > 0 && t < 42);
    uint64_t mask = (1ull << 29) - 1;
    Arcs a = arcs(keys, edges, mask);
    auto state = [&](uint64_t n) { return vc::recursive("state", n, 0, [&](uint64_t s, uint64_t) { return follow(a, s); }); };
    auto pos = [&](uint64_t n) { return state(n) & 0xff; };
    auto seen = [&](uint64_t n, const std::array<uint64_t, 42>& visited) {
        bool r = true;
        for (int q = 0; q < 42; q++) r = r && (visited[q] != 0) == (((state(n) >> (8 + q)) & 1) != 0);
        return r; };

    vc::invariant([&](uint32_t n, uint32_t i, std::array<uint64_t, 42> visited) {
            vc::require(n < 1000);
            return n >= 1 && i < 42 && pos(n) == i && (t >= n || (pos(t) != 0 && pos(t) != NONE)) && seen(n, visited); },
        [&](uint32_t n, uint32_t i, std::array<uint64_t, 42> visited, uint32_t result) {
            return result != POW_OK && pos(n + 1) == NONE; });
    int r = verify_cuckaroom(edges.data(), keys);
    bool in = true;
    for (int n = 0; n < 42; n++) in = in && edges[n] <= mask && (n == 0 || edges[n] > edges[n - 1]);
    if (r == POW_OK) {
        vc::ensure("ascending-within-graph", in);
        vc::ensure("cycle-closes", pos(42) == 0);
        vc::ensure("cycle-visits-no-edge-twice", pos(t) != 0 && pos(t) != NONE);
        vc::cover("accepted");
    }
}
VC_CONTRACT(cuckaroom_cycle);
}
