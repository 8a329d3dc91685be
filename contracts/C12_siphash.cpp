// vc-src: src/PoW/Cuckaroo.cpp src/PoW/Cuckarood.cpp src/PoW/Cuckaroom.cpp src/PoW/Cuckarooz.cpp src/PoW/Cuckatoo.cpp
// vc-use: siphash_state<>::hash24 sip::absorb21 hash_round
// vc-use: siphash_state<25>::hash24 sip::absorb25 hash_round
// vc-opaque: sip::lane0 hash_round
// vc-opaque: sip::lane1 hash_round
// vc-opaque: sip::lane2 hash_round
// vc-opaque: sip::lane3 hash_round
// vc-opt(block_cuckarooz): split=["low",0,63]
// vc-opt(block_cuckaroom): split=["low",0,63]
// vc-opt(block_cuckarood): split=["low",0,63]
// vc-opt(block_cuckaroo): split=["low",0,63]
#include "sip.h"

word_t sipnode(siphash_keys* keys, word_t edge, uint32_t uorv, const word_t edgeMask);
uint64_t cuckaroom_sipblock(siphash_keys& keys, const word_t edge, uint64_t* buf);
uint64_t cuckarooz_sipblock(siphash_keys& keys, const word_t edge, uint64_t* buf);

namespace C12 {
using namespace sip;

template <int E> static void hash_is(siphash_keys keys, uint64_t nonce)
{
    siphash_state<E> s(keys);
    vc::ensure("starts-with-key", s.v0 == keys.k0 && s.v1 == keys.k1 && s.v2 == keys.k2 && s.v3 == keys.k3);
    s.hash24(nonce);
    State t{{lane0(E, keys.k0, keys.k1, keys.k2, keys.k3, nonce), lane1(E, keys.k0, keys.k1, keys.k2, keys.k3, nonce),
             lane2(E, keys.k0, keys.k1, keys.k2, keys.k3, nonce), lane3(E, keys.k0, keys.k1, keys.k2, keys.k3, nonce)}};
    vc::ensure("lanes", s.v0 == t.v[0] && s.v1 == t.v[1] && s.v2 == t.v[2] && s.v3 == t.v[3]);
    vc::ensure("digest", s.xor_lanes() == (t.v[0] ^ t.v[1] ^ t.v[2] ^ t.v[3]));
}
void hash_round(siphash_keys keys, uint64_t nonce)
{
    hash_is<21>(keys, nonce);
    hash_is<25>(keys, nonce);
}
VC_CONTRACT(hash_round);

void node(siphash_keys keys, uint64_t edge, uint32_t side, uint64_t mask)
{
    vc::require(side < 2);
    vc::ensure("endpoint", sipnode(&keys, edge, side, mask) == node_contract(&keys, edge, side, mask));
}
VC_CONTRACT(node);

void block_cuckaroo(siphash_keys keys, uint64_t block, uint8_t low)
{
    vc::require(low < 64);
    uint64_t edge = (block << 6) | low, buf[64];
    uint64_t r = sipblock(keys, edge, buf);
    vc::ensure("edge-hash", r == block21(keys.k0, keys.k1, keys.k2, keys.k3, edge));
}
VC_CONTRACT(block_cuckaroo);
void buffer_cuckaroo(siphash_keys keys, uint64_t block)
{
    uint64_t edge = block << 6, buf[64], want[64];
    sipblock(keys, edge, buf);
    block21_contract(keys, edge, want);
    bool all = true;
    for (int i = 0; i < 64; i++) all = all && buf[i] == want[i];
    vc::ensure("block-hashes", all);
}
VC_CONTRACT(buffer_cuckaroo);
void block_cuckarood(siphash_keys keys, uint64_t block, uint8_t low)
{
    vc::require(low < 64);
    uint64_t edge = (block << 6) | low, buf[64];
    uint64_t r = sipblock<25>(keys, edge, buf);
    vc::ensure("edge-hash", r == block25(keys.k0, keys.k1, keys.k2, keys.k3, edge));
}
VC_CONTRACT(block_cuckarood);
void buffer_cuckarood(siphash_keys keys, uint64_t block)
{
    uint64_t edge = block << 6, buf[64], want[64];
    sipblock<25>(keys, edge, buf);
    block25_contract(keys, edge, want);
    bool all = true;
    for (int i = 0; i < 64; i++) all = all && buf[i] == want[i];
    vc::ensure("block-hashes", all);
}
VC_CONTRACT(buffer_cuckarood);
void block_cuckaroom(siphash_keys keys, uint64_t block, uint8_t low)
{
    vc::require(low < 64);
    uint64_t edge = (block << 6) | low, buf[64];
    uint64_t r = cuckaroom_sipblock(keys, edge, buf);
    vc::ensure("edge-hash", r == blockall(keys.k0, keys.k1, keys.k2, keys.k3, edge));
}
VC_CONTRACT(block_cuckaroom);
void buffer_cuckaroom(siphash_keys keys, uint64_t block)
{
    uint64_t edge = block << 6, buf[64], want[64];
    cuckaroom_sipblock(keys, edge, buf);
    blockall_contract(keys, edge, want);
    bool all = true;
    for (int i = 0; i < 64; i++) all = all && buf[i] == want[i];
    vc::ensure("block-hashes", all);
}
VC_CONTRACT(buffer_cuckaroom);
void block_cuckarooz(siphash_keys keys, uint64_t block, uint8_t low)
{
    vc::require(low < 64);
    uint64_t edge = (block << 6) | low, buf[64];
    uint64_t r = cuckarooz_sipblock(keys, edge, buf);
    vc::ensure("edge-hash", r == blockall(keys.k0, keys.k1, keys.k2, keys.k3, edge));
}
VC_CONTRACT(block_cuckarooz);
void buffer_cuckarooz(siphash_keys keys, uint64_t block)
{
    uint64_t edge = block << 6, buf[64], want[64];
    cuckarooz_sipblock(keys, edge, buf);
    blockall_contract(keys, edge, want);
    bool all = true;
    for (int i = 0; i < 64; i++) all = all && buf[i] == want[i];
    vc::ensure("block-hashes", all);
}
VC_CONTRACT(buffer_cuckarooz);
}
