// SipHash-2-4 over a 256-bit key, as the proof-of-work graphs use it, and the contracts of the block functions built on it.
#pragma once
#include "vc.h"
#include <PoW/Common.h>
#ifdef VC_CONCRETE
namespace vc {
template <> struct Gen<siphash_keys> {
    static siphash_keys make(Src& s)
    {
        uint64_t k[4];
        for (auto& x : k) x = Gen<uint64_t>::make(s);
        return siphash_keys((const char*)k);
    }
};
}
#endif
namespace sip {
struct State { uint64_t v[4]; };
static uint64_t left(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }
static void add_rotate_xor(uint64_t& a, uint64_t& b, int s) { a += b; b = left(b, s); b ^= a; }
static void round(uint64_t* v, int e)
{
    add_rotate_xor(v[0], v[1], 13);
    add_rotate_xor(v[2], v[3], 16);
    v[0] = left(v[0], 32);
    add_rotate_xor(v[2], v[1], 17);
    add_rotate_xor(v[0], v[3], e);
    v[2] = left(v[2], 32);
}
// lane `which` after absorbing one nonce: two compression and four finalisation rounds
static uint64_t lane(int which, int e, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t nonce)
{
    uint64_t v[4] = {a, b, c, d};
    v[3] ^= nonce;
    round(v, e); round(v, e);
    v[0] ^= nonce;
    v[2] ^= 0xff;
    round(v, e); round(v, e); round(v, e); round(v, e);
    return v[which];
}
static uint64_t lane0(uint8_t e, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t nonce) { return lane(0, e, a, b, c, d, nonce); }
static uint64_t lane1(uint8_t e, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t nonce) { return lane(1, e, a, b, c, d, nonce); }
static uint64_t lane2(uint8_t e, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t nonce) { return lane(2, e, a, b, c, d, nonce); }
static uint64_t lane3(uint8_t e, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t nonce) { return lane(3, e, a, b, c, d, nonce); }

template <int E> static void absorb(siphash_state<E>& self, uint64_t nonce)
{
    uint64_t a = self.v0, b = self.v1, c = self.v2, d = self.v3;
    self.v0 = lane0(E, a, b, c, d, nonce); self.v1 = lane1(E, a, b, c, d, nonce); self.v2 = lane2(E, a, b, c, d, nonce); self.v3 = lane3(E, a, b, c, d, nonce);
}
static void absorb21(siphash_state<21>& self, uint64_t nonce) { absorb<21>(self, nonce); }
static void absorb25(siphash_state<25>& self, uint64_t nonce) { absorb<25>(self, nonce); }

static uint64_t digest(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t n)
{
    return (lane0(21, a, b, c, d, n) ^ lane1(21, a, b, c, d, n)) ^ (lane2(21, a, b, c, d, n) ^ lane3(21, a, b, c, d, n));
}
// the hashes of one block of 64 edges, chained
template <int E> static void chain(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t first, uint64_t* h)
{
    for (int i = 0; i < 64; i++) {
        uint64_t n = first + i;
        uint64_t a2 = lane0(E, a, b, c, d, n), b2 = lane1(E, a, b, c, d, n), c2 = lane2(E, a, b, c, d, n), d2 = lane3(E, a, b, c, d, n);
        a = a2; b = b2; c = c2; d = d2;
        h[i] = (a ^ b) ^ (c ^ d);
    }
}
// hash of an edge: its own combined with the last of the block, or with all that follow
template <int E> static uint64_t last_xored(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t edge)
{
    uint64_t h[64];
    chain<E>(a, b, c, d, edge & ~63ull, h);
    return (edge & 63) == 63 ? h[63] : h[edge & 63] ^ h[63];
}
static uint64_t block21(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t edge) { return last_xored<21>(a, b, c, d, edge); }
static uint64_t block25(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t edge) { return last_xored<25>(a, b, c, d, edge); }
static uint64_t blockall(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t edge)
{
    uint64_t h[64];
    chain<21>(a, b, c, d, edge & ~63ull, h);
    uint64_t r = 0;
    for (int i = 63; i >= 0; i--) if (i >= (int)(edge & 63)) r ^= h[i];
    return r;
}
// contracts of the repository's functions
static uint64_t endpoint(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t edge, uint32_t side, uint64_t mask) { return digest(a, b, c, d, 2 * edge + side) & mask; }
static uint64_t node_contract(siphash_keys* k, uint64_t edge, uint32_t side, uint64_t mask) { return endpoint(k->k0, k->k1, k->k2, k->k3, edge, side, mask); }
static uint64_t block21_contract(siphash_keys& k, uint64_t edge, uint64_t* buf)
{
    for (int i = 0; i < 64; i++) buf[i] = block21(k.k0, k.k1, k.k2, k.k3, (edge & ~63ull) + i);
    return block21(k.k0, k.k1, k.k2, k.k3, edge);
}
static uint64_t block25_contract(siphash_keys& k, uint64_t edge, uint64_t* buf)
{
    for (int i = 0; i < 64; i++) buf[i] = block25(k.k0, k.k1, k.k2, k.k3, (edge & ~63ull) + i);
    return block25(k.k0, k.k1, k.k2, k.k3, edge);
}
static uint64_t blockall_contract(siphash_keys& k, uint64_t edge, uint64_t* buf)
{
    for (int i = 0; i < 64; i++) buf[i] = blockall(k.k0, k.k1, k.k2, k.k3, (edge & ~63ull) + i);
    return blockall(k.k0, k.k1, k.k2, k.k3, edge);
}
}
