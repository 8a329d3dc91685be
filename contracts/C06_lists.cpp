// vc-src: src/Core/Models/TransactionBody.cpp
// vc-link: src/Core/Models/TransactionInput.cpp src/Core/Models/TransactionOutput.cpp src/Core/Models/TransactionKernel.cpp
// vc-assume: element readers inside a body (under contract in C06.cpp) are represented by fixed-size readers while proving the counting, order and completeness of lists
// vc-assume: fewer than 2^31 bytes in one body; elements with equal hashes are interchangeable
// vc-opt: timeout=200
// vc-opt(body_read): budget=500
// vc-opt(body_refused): budget=500
#include "model.h"
#include "vcg.h"
#include <Core/Models/TransactionBody.h>
#include <Crypto/Hasher.h>

#ifndef VC_CONCRETE
TransactionInput TransactionInput::Deserialize(ByteBuffer& b)
{
    TransactionInput r;
    r.m_features = EOutputFeatures::DEFAULT;
    r.m_hash = b.ReadBigInteger<32>();
    return r;
}
TransactionOutput::TransactionOutput(const EOutputFeatures f, Commitment c, RangeProof p) : m_features(f), m_commitment(std::move(c)), m_rangeProof(std::move(p)) {}
TransactionOutput TransactionOutput::Deserialize(ByteBuffer& b)
{
    TransactionOutput r(EOutputFeatures::DEFAULT, Commitment(), RangeProof(std::vector<unsigned char>()));
    r.m_hash = b.ReadBigInteger<32>();
    return r;
}
TransactionKernel TransactionKernel::Deserialize(ByteBuffer& b)
{
    TransactionKernel r;
    r.m_features = EKernelFeatures::DEFAULT_KERNEL;
    r.m_lockHeight = 0;
    r.m_hash = b.ReadBigInteger<32>();
    return r;
}
#endif

namespace C06 {
struct Lists {
    std::vector<TransactionInput> ins;
    std::vector<TransactionOutput> outs;
    std::vector<TransactionKernel> kers;
    size_t left = 0;
};
static bool code(const std::vector<uint8_t>& bytes, Lists& l)
{
    ByteBuffer b(bytes, EProtocolVersion::V2);
    try {
        TransactionBody r = TransactionBody::Deserialize(b);
        l.ins = r.GetInputs(); l.outs = r.GetOutputs(); l.kers = r.GetKernels();
        l.left = b.GetRemainingSize();
    } catch (const DeserializationException&) { return false; }
    return true;
}
// three counts, then that many inputs, outputs and kernels
static bool spec(const std::vector<uint8_t>& bytes, Lists& l)
{
    ByteBuffer c(bytes, EProtocolVersion::V2);
    try {
        uint64_t ni = c.ReadU64(), no = c.ReadU64(), nk = c.ReadU64();
        for (uint64_t i = 0; i < ni; i++) l.ins.push_back(TransactionInput::Deserialize(c));
        for (uint64_t i = 0; i < no; i++) l.outs.push_back(TransactionOutput::Deserialize(c));
        for (uint64_t i = 0; i < nk; i++) l.kers.push_back(TransactionKernel::Deserialize(c));
        l.left = c.GetRemainingSize();
    } catch (const DeserializationException&) { return false; }
    return true;
}
void body_refused(std::vector<uint8_t> bytes)
{
    vc::require(bytes.size() < 0x7fffffff);
    Lists got, want;
    bool ok = code(bytes, got), good = spec(bytes, want);
    vc::ensure("incomplete-refused", !ok || good);
    vc::ensure("complete-accepted", ok || !good);
}
VC_CONTRACT(body_refused);

void body_read(std::vector<uint8_t> bytes)
{
    vc::require(bytes.size() < 0x7fffffff);
    Lists got, want;
    bool ok = code(bytes, got), good = spec(bytes, want);
    if (!ok || !good) return;
    vc::ensure("counts", got.ins.size() == want.ins.size() && got.outs.size() == want.outs.size() && got.kers.size() == want.kers.size());
    vc::ensure("consumed", got.left == want.left);
    std::sort(want.ins.begin(), want.ins.end(), SortInputsByHash);
    vc::ensure_eq("inputs-sorted", got.ins, want.ins);
    std::sort(want.outs.begin(), want.outs.end(), SortOutputsByHash);
    vc::ensure_eq("outputs-sorted", got.outs, want.outs);
    std::sort(want.kers.begin(), want.kers.end(), SortKernelsByHash);
    vc::ensure_eq("kernels-sorted", got.kers, want.kers);
    vc::cover("read");
}
VC_CONTRACT(body_read);
}
