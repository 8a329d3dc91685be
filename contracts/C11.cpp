// vc-src: stubs/global.cpp stubs/clock.cpp src/PoW/PoWValidator.cpp src/Core/Models/ProofOfWork.cpp src/PoW/uint128.cpp src/BlockChain/Validators/BlockHeaderValidator.cpp
// vc-link: src/Core/Models/BlockHeader.cpp src/Crypto/Hasher.cpp
// vc-use: uint128_t::operator/ vcu::divide -
// vc-opaque: vcu::quo -
// vc-assume: the proof-of-work verifiers and the difficulty rule are replaced here by recording stand-ins (their own contracts are C12 and C10); the header tree answers with an arbitrary root
#include "model.h"
#include "vcg.h"
#include "u128.h"
#include <Consensus.h>
#include <PoW/PoWValidator.h>
#include <PoW/DifficultyCalculator.h>
#include <PoW/Cuckaroo.h>
#include <PoW/Cuckarood.h>
#include <PoW/Cuckaroom.h>
#include <PoW/Cuckarooz.h>
#include <PoW/Cuckatoo.h>
#include <PMMR/HeaderMMR.h>
#include <Core/Exceptions/BadDataException.h>
#include <BlockChain/Validators/BlockHeaderValidator.h>

static int g_calls, g_which;
static bool g_verdict;
static HeaderInfo g_next(0, 0, 0, false);
static bool used(int which) { g_calls++; g_which = which; return g_verdict; }
bool Cuckaroo::Validate(const BlockHeader&) { return used(1); }
bool Cuckarood::Validate(const BlockHeader&) { return used(2); }
bool Cuckaroom::Validate(const BlockHeader&) { return used(3); }
bool Cuckarooz::Validate(const BlockHeader&) { return used(4); }
bool Cuckatoo::Validate(const BlockHeader&) { return used(0); }
HeaderInfo DifficultyCalculator::CalculateNextDifficulty(const BlockHeader&) const { return g_next; }

namespace C11 {
using namespace vcu;

// the greatest difficulty a proof of this hash and size can claim
static uint64_t claimable(const BlockHeader& h)
{
    uint8_t bits = h.GetEdgeBits();
    uint64_t scale = bits == 29 ? (uint64_t)h.GetScalingDifficulty() : (2ull << (bits - 24)) * bits;
    const Hash& hash = h.GetHash();
    uint64_t w = 0;
    for (int i = 0; i < 8; i++) w = (w << 8) | hash.data()[i];
    u128 q = quo((u128)scale << 64, w == 0 ? (u128)1 : (u128)w);
    return q < (u128)UINT64_MAX ? (uint64_t)q : UINT64_MAX;
}

void claimed_work(BlockHeader header)
{
    vc::require(header.GetEdgeBits() >= 24 && header.GetEdgeBits() <= 63);
    vc::ensure("maximum", PoWValidator(std::shared_ptr<const IBlockDB>()).GetMaximumDifficulty(header) == claimable(header));
}
VC_CONTRACT(claimed_work);

static bool work_ok(const BlockHeader& header, const BlockHeader& prev, uint64_t diff, uint32_t scaling, bool verdict)
{
    uint8_t bits = header.GetEdgeBits();
    if (bits != 29 && bits < 31) return false;                     // graphs smaller than the permitted ones
    if (header.GetTotalDifficulty() <= prev.GetTotalDifficulty()) return false;
    uint64_t step = header.GetTotalDifficulty() - prev.GetTotalDifficulty();
    return step <= claimable(header) && step == diff && header.GetScalingDifficulty() == scaling && verdict;
}

void proof_of_work(BlockHeader header, BlockHeader prev, uint64_t diff, uint32_t scaling, bool verdict)
{
    vc::require(header.GetEdgeBits() >= 1 && header.GetEdgeBits() <= 63);
    g_calls = 0; g_verdict = verdict;
    g_next = HeaderInfo(1, diff, scaling, true);
    bool ok = PoWValidator(std::shared_ptr<const IBlockDB>()).IsPoWValid(header, prev);
    vc::ensure("accepted-iff-worked", ok == work_ok(header, prev, diff, scaling, verdict));
    if (ok) {
        vc::ensure("verified", g_calls == 1);
        // the graph follows from the size and, for the secondary one, the header version
        uint16_t v = header.GetVersion();
        vc::ensure("on-the-graph-of-its-version", g_which == (header.GetEdgeBits() != 29 ? 0 : v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 3 : 4));
    }
}
VC_CONTRACT(proof_of_work);

class HeaderRoots : public IHeaderMMR {
public:
    Hash root;
    uint64_t last;
    mutable uint64_t asked = 0;
    void Commit() final {}
    void Rollback() noexcept final {}
    void AddHeader(const BlockHeader&) final {}
    Hash Root(const uint64_t nextHeight) const final { asked = nextHeight; return root; }
    void Rewind(const uint64_t) final {}
};

void accept(uint8_t env, int64_t now, BlockHeader header, BlockHeader prev, Hash root, uint64_t diff, uint32_t scaling, bool verdict)
{
    vc::require(env < 3 && header.GetEdgeBits() >= 1 && header.GetEdgeBits() <= 63);
    vc::require(now >= 0 && now < (1ll << 62));   // nanoseconds: until the year 2116
    vcg::env = (Environment)env;
    vcg::now_ns = now;
    vc::axiom("division-shift", (now + 300000000000) / 1000000000 == now / 1000000000 + 300);
    g_calls = 0; g_verdict = verdict;
    g_next = HeaderInfo(1, diff, scaling, true);
    auto roots = std::make_shared<HeaderRoots>();
    roots->root = root;
    bool ok = true;
    try { BlockHeaderValidator(std::shared_ptr<IBlockDB>(), roots).Validate(header, prev); } catch (const BadDataException&) { ok = false; }
    bool expected = header.GetHeight() == prev.GetHeight() + 1
        && header.GetVersion() == Consensus::GetHeaderVersion((Environment)env, header.GetHeight())
        && header.GetTimestamp() > prev.GetTimestamp()
        && header.GetTimestamp() <= now / 1000000000 + 300
        && (env == 2 || work_ok(header, prev, diff, scaling, verdict))
        && header.GetPreviousRoot() == root;
    vc::ensure("accepted-iff-valid", ok == expected);
    if (ok) vc::ensure("root-before-it", roots->asked == prev.GetHeight());
}
VC_CONTRACT(accept);
}
