// vc-src: stubs/global.cpp src/PoW/PoWValidator.cpp src/Core/Models/ProofOfWork.cpp src/PMMR/Common/Index.cpp src/Core/Config.cpp src/PoW/uint128.cpp
// vc-link: src/Core/Models/BlockHeader.cpp
// vc-use: uint128_t::operator/ vcu::divide -
// vc-opaque: vcu::quo -
// vc-assume: the proof-of-work verifiers and the difficulty rule are replaced here by recording stand-ins (their own contracts are C12 and C10)
#include "model.h"
#include "vcg.h"
#include "u128.h"
#include <Consensus.h>
#include <PoW/PoWValidator.h>
#include <PoW/DifficultyCalculator.h>
#include <PoW/Cuckaroo.h>
#include <PoW/Cuckarood.h>
#include <PoW/Cuckaroom.h>
#include <PoW/Cuckarooz.h>
#include <PoW/Cuckatoo.h>
#include <Wallet/WalletUtil.h>
#include <Core/Config.h>

static int g_used;        // which verifier was consulted
static int g_calls;
static bool g_verdict;    // and what it answered
static HeaderInfo g_next(0, 0, 0, false);
static bool used(int which) { g_used = which; g_calls++; return g_verdict; }
bool Cuckaroo::Validate(const BlockHeader&) { return used(1); }
bool Cuckarood::Validate(const BlockHeader&) { return used(2); }
bool Cuckaroom::Validate(const BlockHeader&) { return used(3); }
bool Cuckarooz::Validate(const BlockHeader&) { return used(4); }
bool Cuckatoo::Validate(const BlockHeader&) { return used(5); }
HeaderInfo DifficultyCalculator::CalculateNextDifficulty(const BlockHeader&) const { return g_next; }

namespace C09 {

// the published schedule
static int scheduled(Environment e, uint64_t h)
{
    uint64_t f1 = 262080, f2 = 524160, f3 = 786240, f4 = 1048320;
    if (e == Environment::FLOONET) { f1 = 185040; f2 = 298080; f3 = 552960; f4 = 642240; }
    return h < f1 ? 1 : h < f2 ? 2 : h < f3 ? 3 : h < f4 ? 4 : 5;
}

void header_version(uint8_t env, uint64_t height)
{
    vc::require(env < 3);
    Environment e = (Environment)env;
    vc::ensure("scheduled", Consensus::GetHeaderVersion(e, height) == scheduled(e, height));
    vcg::env = e;
    vc::ensure("of-this-network", Consensus::GetHeaderVersion(height) == scheduled(e, height));
    // versions never go back as the chain grows
    if (height < UINT64_MAX) vc::ensure("monotone", Consensus::GetHeaderVersion(e, height) <= Consensus::GetHeaderVersion(e, height + 1));
}
VC_CONTRACT(header_version);

void coinbase_window(uint8_t env, uint64_t height)
{
    vc::require(env < 3);
    Environment e = (Environment)env;
    uint64_t window = e == Environment::AUTOMATED_TESTING ? 25 : 1440;
    uint64_t expected = height < window ? 0 : height - window;
    vc::ensure("maturity", Consensus::GetMaxCoinbaseHeight(e, height) == expected);
    vcg::env = e;
    vc::ensure("of-this-network", Consensus::GetMaxCoinbaseHeight(height) == expected);
}
VC_CONTRACT(coinbase_window);

void horizon_window(uint64_t height)
{
    vc::ensure("horizon", Consensus::GetHorizonHeight(height) == (height < 10080 ? 0 : height - 10080));
}
VC_CONTRACT(horizon_window);

// a coinbase output is immature exactly until it is as deep as the maturity window
void wallet_maturity(uint8_t env, uint64_t output_height, uint64_t current)
{
    vc::require(env < 3);
#ifdef VC_CONCRETE
    vc::require(false);   // the settings object is not built in the replay
#endif
    vcg::env = (Environment)env;
    vcg::config = &vc::any<Config>("config");
    uint64_t window = env == 2 ? 25 : 1440;
    uint64_t newest = current < window ? 0 : current - window;
    vc::ensure("coinbase", WalletUtil::IsOutputImmature(EOutputFeatures::COINBASE_OUTPUT, output_height, current) == (newest <= output_height));
}
VC_CONTRACT(wallet_maturity);

// proof-of-work variant by header version; the verdict is the verifier's
void pow_variant(BlockHeader header, BlockHeader prev, uint64_t diff, uint32_t scaling, bool verdict)
{
    vc::require(header.m_proofOfWork.m_edgeBits == 29);
    g_used = 0; g_calls = 0; g_verdict = verdict;
    g_next = HeaderInfo(1, diff, scaling, true);
    std::shared_ptr<const IBlockDB> db;
    bool ok = PoWValidator(db).IsPoWValid(header, prev);
    if (g_calls == 0) vc::ensure("refused-without-verifier", !ok);
    else {
        uint16_t v = header.m_version;
        vc::ensure("once", g_calls == 1);
        vc::ensure("variant", g_used == (v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 3 : 4));
        vc::ensure("verdict", ok == verdict);
    }
}
VC_CONTRACT(pow_variant);

void pow_primary(BlockHeader header, BlockHeader prev, uint64_t diff, uint32_t scaling, bool verdict)
{
    vc::require(header.m_proofOfWork.m_edgeBits != 29);
    g_used = 0; g_calls = 0; g_verdict = verdict;
    g_next = HeaderInfo(1, diff, scaling, true);
    std::shared_ptr<const IBlockDB> db;
    bool ok = PoWValidator(db).IsPoWValid(header, prev);
    if (g_calls == 0) vc::ensure("refused-without-verifier", !ok);
    else {
        vc::ensure("once", g_calls == 1);
        vc::ensure("variant", g_used == 5);
        vc::ensure("verdict", ok == verdict);
    }
}
VC_CONTRACT(pow_primary);

}
