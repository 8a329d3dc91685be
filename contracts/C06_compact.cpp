// vc-src: src/Core/Models/CompactBlock.cpp
// vc-link: src/Core/Models/BlockHeader.cpp src/Core/Models/TransactionBody.cpp src/Core/Models/TransactionInput.cpp src/Core/Models/TransactionOutput.cpp src/Core/Models/TransactionKernel.cpp src/Core/Models/ShortId.cpp src/Core/Models/ProofOfWork.cpp
// vc-opt: timeout=200
// vc-opt(compact_read): budget=500
// vc-assume: bodies, elements and proofs of work inside blocks and transactions (under contract in C06.cpp, C06_body.cpp, C06_lists.cpp, C05_pow.cpp) are represented by fixed-size codes while proving the enclosing encodings
#include "model.h"
#include "vcg.h"
#include <Core/Models/FullBlock.h>
#include <Core/Models/CompactBlock.h>
#include <Core/Models/Transaction.h>
#include <Crypto/Hasher.h>

#ifndef VC_CONCRETE
BlockHeader::BlockHeader(const uint16_t v, const uint64_t hgt, const int64_t ts, Hash&& a, Hash&& b, Hash&& c, Hash&& d, Hash&& e, BlindingFactor&& o, const uint64_t os, const uint64_t ks,
    const uint64_t td, const uint32_t sd, const uint64_t n, ProofOfWork&& p)
    : m_version(v), m_height(hgt), m_timestamp(ts), m_previousBlockHash(std::move(a)), m_previousRoot(std::move(b)), m_outputRoot(std::move(c)), m_rangeProofRoot(std::move(d)), m_kernelRoot(std::move(e)),
      m_totalKernelOffset(std::move(o)), m_outputMMRSize(os), m_kernelMMRSize(ks), m_totalDifficulty(td), m_scalingDifficulty(sd), m_nonce(n), m_proofOfWork(std::move(p)) {}
BlockHeader BlockHeader::Deserialize(ByteBuffer& b)
{
    uint64_t h = b.ReadU64();
    return BlockHeader(1, h, 0, Hash(), Hash(), Hash(), Hash(), Hash(), BlindingFactor(), 0, 0, 0, 0, 0, ProofOfWork(29, std::vector<uint64_t>(), Hash()));
}
ProofOfWork::ProofOfWork(const uint8_t edgeBits, std::vector<uint64_t>&& n, Hash&& h) : m_edgeBits(edgeBits), m_proofNonces(std::move(n)), m_hash(h) {}
void ProofOfWork::Serialize(Serializer& s) const { s.AppendByteVector(m_hash.GetData()); }
const Hash& ProofOfWork::GetHash() const { return m_hash; }
ProofOfWork ProofOfWork::Deserialize(ByteBuffer& b)
{
    Hash h = b.ReadBigInteger<32>();
    return ProofOfWork(29, std::vector<uint64_t>(), std::move(h));
}
TransactionOutput::TransactionOutput(const EOutputFeatures f, Commitment c, RangeProof p) : m_features(f), m_commitment(std::move(c)), m_rangeProof(std::move(p)) {}
TransactionOutput TransactionOutput::Deserialize(ByteBuffer& b)
{
    TransactionOutput r(EOutputFeatures::DEFAULT, Commitment(), RangeProof(std::vector<unsigned char>()));
    r.m_hash = Hash(std::vector<uint8_t>(32, b.ReadU8()));
    return r;
}
void TransactionOutput::Serialize(Serializer& s) const { s.AppendByteVector(m_hash.GetData()); }
TransactionKernel TransactionKernel::Deserialize(ByteBuffer& b)
{
    TransactionKernel r;
    r.m_features = EKernelFeatures::DEFAULT_KERNEL;
    r.m_lockHeight = 0;
    r.m_hash = Hash(std::vector<uint8_t>(32, b.ReadU8()));
    return r;
}
void TransactionKernel::Serialize(Serializer& s) const { s.AppendByteVector(m_hash.GetData()); }
ShortId::ShortId(CBigInteger<6>&& id) : m_id(id) {}
ShortId ShortId::Deserialize(ByteBuffer& b) { return ShortId(CBigInteger<6>(std::vector<uint8_t>(6, b.ReadU8()))); }

#endif

namespace C06 {
struct Parts {
    uint64_t header = 0;
    uint64_t nonce = 0;
    std::vector<TransactionOutput> outs;
    std::vector<TransactionKernel> kers;
    std::vector<ShortId> ids;
    size_t left = 0;
};
static bool code(const std::vector<uint8_t>& bytes, Parts& l)
{
    ByteBuffer b(bytes, EProtocolVersion::V2);
    try {
        CompactBlock r = CompactBlock::Deserialize(b);
        l.header = r.GetHeader()->GetHeight(); l.nonce = r.GetNonce();
        l.outs = r.GetOutputs(); l.kers = r.GetKernels(); l.ids = r.GetShortIds();
        l.left = b.GetRemainingSize();
    } catch (const DeserializationException&) { return false; }
    return true;
}
#ifndef VC_CONCRETE
static const size_t HEADER = 8, ELEMENT = 1;    // the fixed-size codes
static uint64_t be(const std::vector<uint8_t>& d, size_t at)
{
    uint64_t v = 0;
    for (size_t i = 0; i < 8; i++) v = (v << 8) | d[at + i];
    return v;
}
// header, nonce, three counts, then that many outputs, kernels and short ids
static bool complete(const std::vector<uint8_t>& d)
{
    if (d.size() < HEADER + 32) return false;
    uint64_t room = (d.size() - HEADER - 32) / ELEMENT, no = be(d, HEADER + 8), nk = be(d, HEADER + 16), ni = be(d, HEADER + 24);
    return no <= room && nk <= room - no && ni <= room - no - nk;
}
static std::vector<uint8_t> element(const std::vector<uint8_t>& d, uint64_t i, size_t n)
{
    return std::vector<uint8_t>(n, d[HEADER + 32 + ELEMENT * i]);
}
#endif
// (the codes are the verifier's: no replay)
void compact_read(std::vector<uint8_t> bytes, uint64_t i)
{
    vc::require(bytes.size() < 0x7fffffff);
#ifdef VC_CONCRETE
    vc::require(false);
#else
    Parts got;
    bool ok = code(bytes, got);
    vc::ensure("incomplete-refused", !ok || complete(bytes));
    vc::ensure("complete-accepted", ok || !complete(bytes));
    if (!ok || !complete(bytes)) return;
    vc::ensure("header", got.header == be(bytes, 0) && got.nonce == be(bytes, HEADER));
    size_t no = got.outs.size(), nk = got.kers.size(), ni = got.ids.size();
    vc::ensure("counts", no == be(bytes, HEADER + 8) && nk == be(bytes, HEADER + 16) && ni == be(bytes, HEADER + 24));
    vc::ensure("consumed", got.left == bytes.size() - HEADER - 32 - ELEMENT * (no + nk + ni));
    if (i < no) vc::ensure_eq("outputs", got.outs[i].GetHash().GetData(), element(bytes, i, 32));
    if (i < nk) vc::ensure_eq("kernels", got.kers[i].GetHash().GetData(), element(bytes, no + i, 32));
    if (i < ni) vc::ensure_eq("ids", got.ids[i].GetId().GetData(), element(bytes, no + nk + i, 6));
    vc::cover("read");
#endif
}
VC_CONTRACT(compact_read);
}
