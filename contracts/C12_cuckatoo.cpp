// vc-src: src/PoW/Cuckatoo.cpp
// vc-use: sipnode sip::node_contract C12_siphash::node
// vc-opaque: sip::endpoint -
// vc-assume: the walk along the cycle takes fewer than 1000 steps (it never visits an endpoint twice; argued in DESIGN.md)
// vc-opt: nosummary=true
// vc-opt: invjobs=4
// vc-opt: invsplit={"i":[0,83]}
#include "sip.h"

int verify_cuckatoo(const word_t edges[PROOFSIZE], siphash_keys* keys, const uint8_t edgeBits);

namespace C12 {
static const uint64_t NONE = 84;
// the endpoints of the 42 edges; 2n and 2n+1 are the two ends of edge n
static std::array<uint64_t, 84> ends(const siphash_keys& k, const std::array<uint64_t, 42>& edges, uint64_t mask)
{
    std::array<uint64_t, 84> r;
    for (int n = 0; n < 42; n++) for (int s = 0; s < 2; s++) r[2 * n + s] = sip::endpoint(k.k0, k.k1, k.k2, k.k3, edges[n], s, mask);
    return r;
}
// leave the node pair of endpoint i by the only other edge ending there on the same side, which must end at the other node of the pair; NONE if there is no such edge, or more than one
static uint64_t follow(const std::array<uint64_t, 84>& e, uint64_t i)
{
    if (i >= 84) return NONE;
    bool one = false, more = false, bad = false;
    uint64_t next = NONE;
    for (uint64_t k = 0; k < 84; k++)
        if (k % 2 == i % 2 && k != i && e[k] >> 1 == e[i] >> 1) { more = more || one; one = true; bad = bad || e[k] == e[i]; next = k ^ 1; }
    return one && !more && !bad ? next : NONE;
}

void cuckatoo_cycle(siphash_keys keys, std::array<uint64_t, 42> edges, uint8_t bits, uint64_t t)
{
    vc::require(bits >= 1 && bits <= 63 && t > 0 && t < 42);
    uint64_t mask = (1ull << bits) - 1;
    std::array<uint64_t, 84> e = ends(keys, edges, mask);
    auto pos = [&](uint64_t n) { return vc::recursive("pos", n, 0, [&](uint64_t i, uint64_t) { return follow(e, i); }); };

    vc::invariant([&](uint32_t n, uint32_t i) {
            vc::require(n < 1000);
            return n >= 1 && i < 84 && pos(n) == i && (t >= n || (pos(t) != 0 && pos(t) != NONE)); },
        [&](uint32_t n, uint32_t i, uint32_t result) {
            return result != POW_OK && pos(n + 1) == NONE; });
    int r = verify_cuckatoo(edges.data(), &keys, bits);
    bool in = true;
    for (int n = 0; n < 42; n++) in = in && edges[n] <= mask && (n == 0 || edges[n] > edges[n - 1]);
    if (r == POW_OK) {
        vc::ensure("ascending-within-graph", in);
        vc::ensure("cycle-closes", pos(42) == 0);
        vc::ensure("cycle-visits-no-edge-twice", pos(t) != 0 && pos(t) != NONE);
        vc::cover("accepted");
    }
}
VC_CONTRACT(cuckatoo_cycle);
}
