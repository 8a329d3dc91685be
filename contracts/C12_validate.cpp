// vc-src: src/Core/Models/BlockHeader.cpp src/PoW/Cuckatoo.cpp src/PoW/Cuckaroo.cpp src/PoW/Cuckarood.cpp src/PoW/Cuckaroom.cpp src/PoW/Cuckarooz.cpp
// vc-link: src/Core/Models/ProofOfWork.cpp src/Crypto/Hasher.cpp
// vc-use: verify_cuckatoo C12::judge_cuckatoo -
// vc-use: verify_cuckaroo C12::judge_cuckaroo -
// vc-use: verify_cuckarood C12::judge_cuckarood -
// vc-use: verify_cuckaroom C12::judge_cuckaroom -
// vc-use: verify_cuckarooz C12::judge_cuckarooz -
// vc-opaque: C12::verdict -
#include "model.h"
#include "sip.h"
#include <PoW/Cuckaroo.h>
#include <PoW/Cuckarood.h>
#include <PoW/Cuckaroom.h>
#include <PoW/Cuckarooz.h>
#include <PoW/Cuckatoo.h>
#include <Crypto/Hasher.h>

namespace C12 {
// the answer of a graph's cycle verification: a function of the graph, the keys, the 42 nonces and the size; C12_<graph>.cpp state what it is
static int verdict(int graph, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint8_t bits,
    uint64_t e0, uint64_t e1, uint64_t e2, uint64_t e3, uint64_t e4, uint64_t e5, uint64_t e6, uint64_t e7, uint64_t e8, uint64_t e9, uint64_t e10, uint64_t e11, uint64_t e12, uint64_t e13,
    uint64_t e14, uint64_t e15, uint64_t e16, uint64_t e17, uint64_t e18, uint64_t e19, uint64_t e20, uint64_t e21, uint64_t e22, uint64_t e23, uint64_t e24, uint64_t e25, uint64_t e26, uint64_t e27,
    uint64_t e28, uint64_t e29, uint64_t e30, uint64_t e31, uint64_t e32, uint64_t e33, uint64_t e34, uint64_t e35, uint64_t e36, uint64_t e37, uint64_t e38, uint64_t e39, uint64_t e40, uint64_t e41) { return 0; }
static int judge(int graph, const siphash_keys& k, const uint64_t* e, uint8_t bits)
{
    return verdict(graph, k.k0, k.k1, k.k2, k.k3, bits, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16], e[17], e[18], e[19], e[20],
        e[21], e[22], e[23], e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31], e[32], e[33], e[34], e[35], e[36], e[37], e[38], e[39], e[40], e[41]);
}
static int judge_cuckatoo(const uint64_t* e, siphash_keys* k, uint8_t bits) { return judge(0, *k, e, bits); }
static int judge_cuckaroo(const uint64_t* e, siphash_keys& k, uint8_t bits) { return judge(1, k, e, bits); }
static int judge_cuckarood(const uint64_t* e, siphash_keys& k) { return judge(2, k, e, 29); }
static int judge_cuckaroom(const uint64_t* e, siphash_keys& k) { return judge(3, k, e, 29); }
static int judge_cuckarooz(const uint64_t* e, siphash_keys& k) { return judge(4, k, e, 29); }

static uint64_t le64(const Hash& h, size_t at)
{
    uint64_t r = 0;
    for (size_t i = 8; i-- > 0;) r = r << 8 | h[at + i];
    return r;
}
// exactly 42 nonces, on the graph keyed by the hash of the header without its proof of work
static bool expected(int graph, const BlockHeader& h, uint8_t bits)
{
    std::vector<uint64_t> n = h.GetProofOfWork().GetProofNonces();
    if (n.size() != 42) return false;
    Hash seed = Hasher::Blake2b(h.GetPreProofOfWork());
    return verdict(graph, le64(seed, 0), le64(seed, 8), le64(seed, 16), le64(seed, 24), bits, n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], n[9], n[10], n[11], n[12], n[13], n[14], n[15], n[16],
        n[17], n[18], n[19], n[20], n[21], n[22], n[23], n[24], n[25], n[26], n[27], n[28], n[29], n[30], n[31], n[32], n[33], n[34], n[35], n[36], n[37], n[38], n[39], n[40], n[41]) == POW_OK;
}
#ifdef VC_CONCRETE
static void concrete() { vc::require(false); }
#else
static void concrete() {}
#endif
void validate_cuckatoo(BlockHeader h) { concrete(); bool r = Cuckatoo::Validate(h); vc::ensure("42-nonces-verified-on-the-header-graph", r == expected(0, h, h.GetEdgeBits())); vc::cover("asked"); }
VC_CONTRACT(validate_cuckatoo);
void validate_cuckaroo(BlockHeader h) { concrete(); bool r = Cuckaroo::Validate(h); vc::ensure("42-nonces-verified-on-the-header-graph", r == expected(1, h, h.GetEdgeBits())); }
VC_CONTRACT(validate_cuckaroo);
void validate_cuckarood(BlockHeader h) { concrete(); bool r = Cuckarood::Validate(h); vc::ensure("42-nonces-verified-on-the-header-graph", r == expected(2, h, 29)); }
VC_CONTRACT(validate_cuckarood);
void validate_cuckaroom(BlockHeader h) { concrete(); bool r = Cuckaroom::Validate(h); vc::ensure("42-nonces-verified-on-the-header-graph", r == expected(3, h, 29)); }
VC_CONTRACT(validate_cuckaroom);
void validate_cuckarooz(BlockHeader h) { concrete(); bool r = Cuckarooz::Validate(h); vc::ensure("42-nonces-verified-on-the-header-graph", r == expected(4, h, 29)); }
VC_CONTRACT(validate_cuckarooz);
}
