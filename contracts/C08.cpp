// vc-src: src/Core/Models/TransactionBody.cpp src/Core/Models/Transaction.cpp src/Core/Models/TransactionOutput.cpp src/Core/Config.cpp stubs/global.cpp
// vc-link: src/Core/Models/TransactionKernel.cpp src/Core/Models/TransactionInput.cpp
#include "gen.h"
#include "vcg.h"
#include <Core/Models/Fee.h>
#include <Core/Models/Transaction.h>
#include <Core/Util/FeeUtil.h>
#include <Core/Config.h>
#include <Consensus.h>

VC_GEN(Fee, m_shift, m_fee)
VC_GEN(TransactionKernel, m_features, m_fee, m_lockHeight, m_excessCommitment, m_excessSignature, m_hash)

namespace C08 {

// an in-range fee survives its eight-byte encoding
void fee_roundtrip(uint8_t shift, uint64_t fee)
{
    vc::require(shift < 16 && fee < (1ull << 40));
    Fee f(shift, fee);
    Serializer s;
    f.Serialize(s);
    const std::vector<uint8_t>& w = s.GetBytes();
    vc::ensure("eight-bytes", w.size() == 8);
    uint64_t word = 0;
    for (int i = 0; i < 8; i++) word = (word << 8) | w[i];
    vc::ensure("layout", word == (((uint64_t)shift << 40) | fee));
    ByteBuffer b(s.GetBytes());
    Fee g = Fee::Deserialize(b);
    vc::ensure("lossless", g.GetFee() == fee && g.GetShift() == shift);
    vc::ensure("equal", g == f && !(g != f));
    vc::ensure("consumed", b.GetRemainingSize() == 0);
}
VC_CONTRACT(fee_roundtrip);

// eight arbitrary bytes decode to a 40-bit fee and a 4-bit shift taken from their documented places
void fee_decode(std::vector<uint8_t> bytes)
{
    ByteBuffer b(bytes);
    bool ok = true;
    Fee f;
    try { f = Fee::Deserialize(b); } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused-iff-short", ok == (bytes.size() >= 8));
    if (ok) {
        uint64_t word = 0;
        for (int i = 0; i < 8; i++) word = (word << 8) | bytes[i];
        vc::ensure("fee", f.GetFee() == (word & 0xffffffffffull));
        vc::ensure("shift", f.GetShift() == ((word >> 40) & 0xf));
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - 8);
    }
}
VC_CONTRACT(fee_decode);

// equality tells fees apart
void fee_equality(uint8_t s1, uint64_t f1, uint8_t s2, uint64_t f2)
{
    bool same = s1 == s2 && f1 == f2;
    vc::ensure("eq", (Fee(s1, f1) == Fee(s2, f2)) == same);
    vc::ensure("neq", (Fee(s1, f1) != Fee(s2, f2)) == !same);
}
VC_CONTRACT(fee_equality);

// total fee and fee shift of a body: exact sum and maximum over its kernels
void body_fee(std::vector<TransactionKernel> kernels)
{
    uint64_t sum = 0;
    for (size_t i = 0; i < kernels.size(); i++) sum += kernels[i].m_fee.m_fee;
    TransactionBody body = TransactionBody::NoSort({}, {}, kernels);
    vc::ensure("sum", body.CalcFee() == sum);
}
VC_CONTRACT(body_fee);

void body_shift(std::vector<TransactionKernel> kernels)
{
    TransactionBody body = TransactionBody::NoSort({}, {}, kernels);
    uint8_t m = 0;
    for (size_t i = 0; i < kernels.size(); i++) m = m < kernels[i].m_fee.m_shift ? kernels[i].m_fee.m_shift : m;
    vc::ensure("maximum", body.GetFeeShift() == m);
}
VC_CONTRACT(body_shift);

// weights
void weights(uint64_t in, uint64_t out, uint64_t kern)
{
    vc::require(in < (1ull << 40) && out < (1ull << 40) && kern < (1ull << 40));
    vc::ensure("block", Consensus::CalculateWeightV5(in, out, kern) == in + 21 * out + 3 * kern);
    int64_t w = 4 * (int64_t)out + (int64_t)kern - (int64_t)in;
    vc::ensure("legacy", Consensus::CalculateWeightV4(in, out, kern) == (uint64_t)(w < 1 ? 1 : w));
    vc::ensure("limit", Consensus::MAX_BLOCK_WEIGHT == 40000);
}
VC_CONTRACT(weights);

uint64_t spec_weight(Environment env, uint64_t height, uint64_t in, uint64_t out, uint64_t kern)
{
    uint64_t fifth = env == Environment::FLOONET ? 642240 : 4 * 262080;
    if (height >= fifth) return in + 21 * out + 3 * kern;
    int64_t w = 4 * (int64_t)out + (int64_t)kern - (int64_t)in;
    return w < 1 ? 1 : (uint64_t)w;
}

void body_weight(std::vector<TransactionKernel> kernels, uint64_t height, Environment env, uint16_t nin, uint16_t nout)
{
    vcg::env = env;
    TransactionBody body = TransactionBody::NoSort(std::vector<TransactionInput>(nin), std::vector<TransactionOutput>(nout, TransactionOutput(EOutputFeatures::DEFAULT, Commitment(), RangeProof({}))), kernels);
    vc::ensure("weight", body.CalcWeight(height) == spec_weight(env, height, nin, nout, kernels.size()));
}
VC_CONTRACT(body_weight);

// a transaction is relayed only if its fee covers weight * base shifted by its fee shift
void minimum_fee(std::vector<TransactionKernel> kernels, uint64_t height, Environment env, uint16_t nin)
{
    vcg::env = env;
    vcg::config = &vc::any<Config>("config");
    Transaction tx(BlindingFactor(), TransactionBody::NoSort(std::vector<TransactionInput>(nin), {}, kernels));
    vc::require(tx.GetFeeShift() < 16 && kernels.size() < (1 << 24));
    uint64_t min = 500000 * tx.GetBody().CalcWeight(height);    // see body_weight
    vc::ensure("meets", tx.FeeMeetsMinimum(height) == (tx.CalcFee() >= (min << tx.GetFeeShift())));
    vc::ensure("fee-is-body-fee", tx.CalcFee() == tx.GetBody().CalcFee() && tx.GetFeeShift() == tx.GetBody().GetFeeShift());
}
VC_CONTRACT(minimum_fee);

void wallet_fee(uint64_t base, uint32_t in, uint32_t out, uint32_t kern)
{
    vc::require(in < (1u << 20) && out < (1u << 20) && kern < (1u << 20) && base < (1ull << 32));
    vc::ensure("formula", FeeUtil::CalculateFee(base, in, out, kern) == base * ((uint64_t)in + 21 * (uint64_t)out + 3 * (uint64_t)kern));
}
VC_CONTRACT(wallet_fee);

}
