// vc-src: stubs/global.cpp src/BlockChain/Validators/BlockValidator.cpp src/Core/Validation/TransactionValidator.cpp src/Core/Models/FullBlock.cpp src/Core/Models/Transaction.cpp src/Core/Models/TransactionBody.cpp src/Core/Models/BlockHeader.cpp
// vc-opt: focus=true
// vc-link: src/Core/Models/TransactionInput.cpp src/Core/Models/TransactionOutput.cpp src/Core/Models/TransactionKernel.cpp src/Core/Models/ProofOfWork.cpp src/Crypto/Hasher.cpp
// vc-assume: commitment arithmetic is a recording stand-in with arbitrary results; the checks of the body itself are the contracts in C13.cpp and are represented here by an arbitrary verdict
#include "model.h"
#include "vcg.h"
#include <Consensus.h>
#include <Core/Models/FullBlock.h>
#include <Core/Models/Transaction.h>
#include <Core/Validation/TxBodyValidator.h>
#include <Core/Validation/TransactionValidator.h>
#include <Core/Exceptions/BadDataException.h>
#include <BlockChain/Validators/BlockValidator.h>
#include <Crypto/Crypto.h>
#include <Crypto/Hasher.h>

static bool g_body_ok;
static int g_body_calls, g_sums;
static uint64_t g_value;              // the amount committed to transparently
static Commitment g_transparent, g_blinded, g_r0, g_r1, g_r2;
static std::vector<Commitment> g_p0, g_n0, g_p1, g_n1, g_p2, g_n2;
static BlindingFactor g_offset;
static TransactionBody g_body;
void TxBodyValidator::Validate(const TransactionBody& b)
{
    g_body_calls++;
    g_body = b;
    if (!g_body_ok) throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "stand-in");
}
Commitment Crypto::CommitTransparent(const uint64_t v) { g_value = v; return g_transparent; }
Commitment Crypto::CommitBlinded(const uint64_t v, const BlindingFactor& b) { g_value += v; g_offset = b; return g_blinded; }
Commitment Crypto::AddCommitments(const std::vector<Commitment>& p, const std::vector<Commitment>& n)
{
    int c = g_sums++;
    if (c == 0) { g_p0 = p; g_n0 = n; return g_r0; }
    if (c == 1) { g_p1 = p; g_n1 = n; return g_r1; }
    g_p2 = p; g_n2 = n;
    return g_r2;
}

namespace C13 {
static uint64_t fees(const std::vector<TransactionKernel>& k)
{
    uint64_t r = 0;
    for (size_t i = 0; i < k.size(); i++) r += k[i].GetFee();
    return r;
}
static uint64_t weight(Environment env, uint64_t height, uint64_t i, uint64_t o, uint64_t k)
{
    if (Consensus::GetHeaderVersion(env, height) < 5) { uint64_t w = 4 * o + k; return w > i + 1 ? w - i : 1; }
    return i + 21 * o + 3 * k;
}

static bool known_features(const std::vector<TransactionOutput>& outs, const std::vector<TransactionKernel>& kers)
{
    for (size_t j = 0; j < outs.size(); j++) if ((uint32_t)outs[j].GetFeatures() > EOutputFeatures::COINBASE_OUTPUT) return false;
    for (size_t j = 0; j < kers.size(); j++) if ((uint32_t)kers[j].GetFeatures() > EKernelFeatures::NO_RECENT_DUPLICATE) return false;
    return true;
}

// what acceptance of a block implies; i is an arbitrary place
void accepted_block(BlockHeader h, std::vector<TransactionInput> ins, std::vector<TransactionOutput> outs, std::vector<TransactionKernel> kers, Environment env, bool body_ok, Commitment zero, Commitment r0, Commitment r1, size_t i)
{
    vcg::env = env;
    vc::require(known_features(outs, kers));
    FullBlock b(std::make_shared<const BlockHeader>(h), TransactionBody::NoSort(ins, outs, kers));
    g_body_ok = body_ok; g_body_calls = g_sums = 0; g_transparent = zero; g_r0 = r0; g_r1 = r1; g_value = 0;
    bool ok = true;
    try { BlockValidator::VerifySelfConsistent(b); } catch (const BadDataException&) { ok = false; }
    vc::ensure("marked-iff-accepted", b.WasValidated() == ok);
    if (ok) {
        vc::ensure("weight", b.CalcWeight() <= 40000);
        vc::ensure("no-kernel-locked-beyond", i >= kers.size() || kers[i].GetLockHeight() <= h.GetHeight());
        vc::ensure("body-validated", g_body_calls == 1 && body_ok);
        vc::ensure("whole-body", g_body.GetInputs().size() == ins.size() && g_body.GetOutputs().size() == outs.size() && g_body.GetKernels().size() == kers.size());
        vc::ensure("sums-compared", g_sums == 2 && r0 == r1);
        vc::ensure("reward-plus-fees", g_value == 60000000000ull + fees(kers));
        std::vector<Commitment> co, ck;
        for (size_t j = 0; j < outs.size(); j++) if (outs[j].GetFeatures() == EOutputFeatures::COINBASE_OUTPUT) co.push_back(outs[j].GetCommitment());
        for (size_t j = 0; j < kers.size(); j++) if (kers[j].GetFeatures() == EKernelFeatures::COINBASE_KERNEL) ck.push_back(kers[j].GetExcessCommitment());
        vc::ensure_eq("coinbase-outputs", g_p0, co);
        vc::ensure("less-the-reward", g_n0.size() == 1 && g_n0[0] == zero);
        vc::ensure_eq("coinbase-kernels", g_p1, ck);
        vc::ensure("nothing-else", g_n1.empty());
        vc::cover("accepted");
    }
}
VC_CONTRACT(accepted_block);

// what acceptance of a transaction implies
void accepted_transaction(BlindingFactor offset, std::vector<TransactionInput> ins, std::vector<TransactionOutput> outs, std::vector<TransactionKernel> kers, uint64_t height, Environment env, bool body_ok, Commitment zero, Commitment r0, Commitment r1, Commitment r2, size_t i)
{
    vcg::env = env;
    vc::require(known_features(outs, kers));
    Transaction t(BlindingFactor(offset), TransactionBody::NoSort(ins, outs, kers));
    g_body_ok = body_ok; g_body_calls = g_sums = 0; g_transparent = zero; g_r0 = r0; g_r1 = r1; g_r2 = r2; g_value = 0;
    bool ok = true;
    uint64_t fee = fees(kers);
    vc::require(fee < (1ull << 63));       // the sum of the fees is the overage, a signed amount
    try { TransactionValidator().Validate(t, height); } catch (const BadDataException&) { ok = false; }
    if (ok) {
        vc::ensure("weight-leaves-room-for-coinbase", t.GetBody().CalcWeight(height) + 24 <= 40000);
        vc::ensure("body-validated", g_body_calls == 1 && body_ok);
        vc::ensure("no-coinbase-output", i >= outs.size() || outs[i].GetFeatures() != EOutputFeatures::COINBASE_OUTPUT);
        vc::ensure("no-coinbase-kernel", i >= kers.size() || kers[i].GetFeatures() != EKernelFeatures::COINBASE_KERNEL);
        vc::ensure("sum-of-kernels", g_p1.size() == kers.size() && g_n1.empty() && (i >= kers.size() || g_p1[i] == kers[i].GetExcessCommitment()));
        vc::ensure("sum-of-inputs", g_n0.size() == ins.size() && (i >= ins.size() || g_n0[i] == ins[i].GetCommitment()));
        vc::ensure("sum-of-outputs-and-fees", g_p0.size() == outs.size() + (fee > 0 ? 1 : 0) && (i >= outs.size() || g_p0[i] == outs[i].GetCommitment()) && (fee == 0 || g_value == fee && g_p0[outs.size()] == zero));
        bool no_offset = true;
        for (int k = 0; k < 32; k++) if (offset.data()[k] != 0) no_offset = false;
        vc::ensure("sums-compared", no_offset ? g_sums == 2 && r0 == r1 : g_sums == 3 && r0 == r2);
        vc::ensure("offset-added", no_offset || g_offset == offset && g_p2.size() == 2 && g_p2[0] == r1 && g_n2.empty());
        vc::cover("accepted");
    }
}
VC_CONTRACT(accepted_transaction);
}
