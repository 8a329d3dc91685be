// vc-src: src/PoW/Cuckarood.cpp
// vc-use: sipblock<25> sip::block25_contract C12_siphash::block_cuckarood
// vc-opaque: sip::block25 -
// vc-assume: the walk along the cycle takes fewer than 1000 steps (it never visits an endpoint twice; argued in DESIGN.md)
// vc-opt: inv_timeout=150
// vc-opt(cuckarood_cycle): budget=500
// vc-opt: pure=["e"]
// vc-opt: nosummary=true
// vc-opt: invjobs=4
// vc-opt: invsplit={"i":[0,83],"n":[0,42,41]}
#include "sip.h"

int verify_cuckarood(const word_t edges[PROOFSIZE], siphash_keys& keys);

namespace C12 {
static const uint64_t NONE = 84;
// leave the node of endpoint i by the only edge of the other direction ending there on the same side; NONE if there is no such edge, or more than one
static uint64_t follow(const std::array<uint64_t, 84>& e, uint64_t i)
{
    if (i >= 84) return NONE;
    bool one = false, more = false;
    uint64_t next = NONE;
    for (uint64_t k = 0; k < 84; k++)
        if (k % 4 == (i % 4 ^ 2) && e[k] == e[i]) { more = more || one; one = true; next = k ^ 1; }
    return one && !more ? next : NONE;
}

// odd[n] is the number of odd edges among the first n; e names the endpoints of the edges, 21 of each direction: slot 4r+2d+s is end s of the r-th edge of direction d
void cuckarood_cycle(siphash_keys keys, std::array<uint64_t, 42> edges, std::array<uint32_t, 43> odd, std::array<uint64_t, 84> e, uint64_t t)
{
    vc::require(t > 0 && t < 42);
    uint64_t mask = (1ull << 28) - 1;
    vc::require(odd[0] == 0);
    auto named = [&](uint32_t n) {
        if (n >= 42) return true;
        uint64_t h = sip::block25(keys.k0, keys.k1, keys.k2, keys.k3, edges[n]);
        uint32_t d = edges[n] & 1, r = d ? odd[n] : n - odd[n];
        return odd[n + 1] == odd[n] + d && (r >= 21 || (e[4 * r + 2 * d] == (h & mask) && e[4 * r + 2 * d + 1] == ((h >> 32) & mask)));
    };
    auto pos = [&](uint64_t n) { return vc::recursive("pos", n, 0, [&](uint64_t i, uint64_t) { return follow(e, i); }); };
    auto same = [&](const std::array<uint64_t, 84>& uvs) { bool r = true; for (int q = 0; q < 84; q++) r = r && uvs[q] == e[q]; return r; };
    auto in = [&](uint32_t n) { bool r = true; for (uint32_t q = 0; q < 42; q++) r = r && (q >= n || (edges[q] < 1ull << 29 && (q == 0 || edges[q] > edges[q - 1]))); return r; };
    vc::invariant([&](uint32_t n, std::array<uint64_t, 84> uvs, std::array<uint32_t, 2> ndir) {
            vc::require(named(n));
            bool filled = true;
            for (uint32_t q = 0; q < 84; q++) filled = filled && (q / 4 >= ndir[q / 2 % 2] || uvs[q] == e[q]);
            return n <= 42 && ndir[0] <= 21 && ndir[1] <= 21 && ndir[1] == odd[n] && ndir[0] == n - odd[n] && in(n) && filled; },
        [&](uint32_t n, std::array<uint64_t, 84> uvs, std::array<uint32_t, 2> ndir, uint32_t result) { return result != POW_OK; });

    vc::invariant([&](uint32_t n, uint32_t i, std::array<uint64_t, 84> uvs) {
            vc::require(n < 1000);
            return n >= 1 && i < 84 && pos(n) == i && (t >= n || (pos(t) != 0 && pos(t) != NONE)) && same(uvs); },
        [&](uint32_t n, uint32_t i, std::array<uint64_t, 84> uvs, uint32_t result) {
            return result != POW_OK && pos(n + 1) == NONE; });
    int r = verify_cuckarood(edges.data(), keys);
    if (r == POW_OK) {
        vc::ensure("ascending-within-graph", in(42));
        vc::ensure("as-many-of-each-direction", odd[42] == 21);
        vc::ensure("cycle-closes", pos(42) == 0);
        vc::ensure("cycle-visits-no-edge-twice", pos(t) != 0 && pos(t) != NONE);
        vc::cover("accepted");
    }
}
VC_CONTRACT(cuckarood_cycle);
}
