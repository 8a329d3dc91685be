// vc-src: src/PoW/Cuckaroo.cpp
// vc-use: sipblock<21> sip::block21_contract C12_siphash::block_cuckaroo
// vc-opaque: sip::block21 -
// vc-assume: the walk along the cycle takes fewer than 1000 steps (it never visits an endpoint twice; argued in DESIGN.md)
// vc-opt: nosummary=true
// vc-opt: invjobs=4
// vc-opt: invsplit={"i":[0,83]}
#include "sip.h"

int verify_cuckaroo(const uint64_t edges[PROOFSIZE], siphash_keys& keys, const uint8_t edgeBits);

namespace C12 {
static const uint64_t NONE = 84;
// the endpoints of the 42 edges; 2n and 2n+1 are the two ends of edge n
static std::array<uint64_t, 84> ends(const siphash_keys& k, const std::array<uint64_t, 42>& edges, uint64_t mask)
{
    std::array<uint64_t, 84> r;
    for (int n = 0; n < 42; n++) { uint64_t h = sip::block21(k.k0, k.k1, k.k2, k.k3, edges[n]); r[2 * n] = h & mask; r[2 * n + 1] = (h >> 32) & mask; }
    return r;
}
// leave the node of endpoint i by the only other edge ending there on the same side; NONE if there is no such edge, or more than one
static uint64_t follow(const std::array<uint64_t, 84>& e, uint64_t i)
{
    if (i >= 84) return NONE;
    bool one = false, more = false, bad = false;
    uint64_t next = NONE;
    for (uint64_t k = 0; k < 84; k++)
        if (k % 2 == i % 2 && k != i && e[k] == e[i]) { more = more || one; one = true; bad = bad || false; next = k ^ 1; }
    return one && !more && !bad ? next : NONE;
}

void cuckaroo_cycle(siphash_keys keys, std::array<uint64_t, 42> edges, uint64_t t)
{
    vc::require(t > 0 && t < 42);
    uint64_t mask = (1ull << 29) - 1;
    std::array<uint64_t, 84> e = ends(keys, edges, mask);
    auto pos = [&](uint64_t n) { return vc::recursive("pos", n, 0, [&](uint64_t i, uint64_t) { return follow(e, i); }); };

    vc::invariant([&](uint32_t n, uint32_t i) {
            vc::require(n < 1000);
            return n >= 1 && i < 84 && pos(n) == i && (t >= n || (pos(t) != 0 && pos(t) != NONE)); },
        [&](uint32_t n, uint32_t i, uint32_t result) {
            return result != POW_OK && pos(n + 1) == NONE; });
    int r = verify_cuckaroo(edges.data(), keys, 29);
    bool in = true;
    for (int n = 0; n < 42; n++) in = in && edges[n] <= mask && (n == 0 || edges[n] > edges[n - 1]);
    if (r == POW_OK) {
        vc::ensure("ascending-within-graph", in);
        vc::ensure("cycle-closes", pos(42) == 0);
        vc::ensure("cycle-visits-no-edge-twice", pos(t) != 0 && pos(t) != NONE);
        vc::cover("accepted");
    }
}
VC_CONTRACT(cuckaroo_cycle);
}
