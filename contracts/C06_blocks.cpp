// vc-src: src/Core/Models/FullBlock.cpp src/Core/Models/CompactBlock.cpp src/Core/Models/Transaction.cpp src/Core/Models/BlockHeader.cpp
// vc-link: src/Core/Models/TransactionBody.cpp src/Core/Models/TransactionInput.cpp src/Core/Models/TransactionOutput.cpp src/Core/Models/TransactionKernel.cpp src/Core/Models/ShortId.cpp src/Core/Models/ProofOfWork.cpp
// vc-assume: bodies, elements and proofs of work inside blocks and transactions (under contract in C06.cpp, C06_body.cpp, C06_lists.cpp, C05_pow.cpp) are represented by fixed-size codes while proving the enclosing encodings
#include "model.h"
#include "vcg.h"
#include <Core/Models/FullBlock.h>
#include <Core/Models/CompactBlock.h>
#include <Core/Models/Transaction.h>
#include <Crypto/Hasher.h>

#ifndef VC_CONCRETE
ProofOfWork::ProofOfWork(const uint8_t edgeBits, std::vector<uint64_t>&& n, Hash&& h) : m_edgeBits(edgeBits), m_proofNonces(std::move(n)), m_hash(h) {}
void ProofOfWork::Serialize(Serializer& s) const { s.AppendByteVector(m_hash.GetData()); }
const Hash& ProofOfWork::GetHash() const { return m_hash; }
ProofOfWork ProofOfWork::Deserialize(ByteBuffer& b)
{
    Hash h = b.ReadBigInteger<32>();
    return ProofOfWork(29, std::vector<uint64_t>(), std::move(h));
}
TransactionOutput::TransactionOutput(const EOutputFeatures f, Commitment c, RangeProof p) : m_features(f), m_commitment(std::move(c)), m_rangeProof(std::move(p)) {}
TransactionOutput TransactionOutput::Deserialize(ByteBuffer& b)
{
    TransactionOutput r(EOutputFeatures::DEFAULT, Commitment(), RangeProof(std::vector<unsigned char>()));
    r.m_hash = b.ReadBigInteger<32>();
    return r;
}
void TransactionOutput::Serialize(Serializer& s) const { s.AppendByteVector(m_hash.GetData()); }
TransactionKernel TransactionKernel::Deserialize(ByteBuffer& b)
{
    TransactionKernel r;
    r.m_features = EKernelFeatures::DEFAULT_KERNEL;
    r.m_lockHeight = 0;
    r.m_hash = b.ReadBigInteger<32>();
    return r;
}
void TransactionKernel::Serialize(Serializer& s) const { s.AppendByteVector(m_hash.GetData()); }
ShortId::ShortId(CBigInteger<6>&& id) : m_id(id) {}
ShortId ShortId::Deserialize(ByteBuffer& b) { b.ReadU16(); return ShortId(b.ReadBigInteger<6>()); }
void ShortId::Serialize(Serializer& s) const { s.Append<uint16_t>(0); s.AppendBigInteger<6>(m_id); }
// a body: its kernels only
TransactionBody TransactionBody::Deserialize(ByteBuffer& b)
{
    TransactionBody r;
    r.m_kernels.push_back(TransactionKernel::Deserialize(b));
    return r;
}
void TransactionBody::Serialize(Serializer& s) const { for (const auto& k : m_kernels) k.Serialize(s); }
TransactionBody TransactionBody::NoSort(std::vector<TransactionInput> i, std::vector<TransactionOutput> o, std::vector<TransactionKernel> k)
{
    TransactionBody r;
    r.m_kernels = std::move(k);
    return r;
}
#endif

namespace C06 {
static TransactionBody body_of(const std::vector<TransactionKernel>& k) { return TransactionBody::NoSort(std::vector<TransactionInput>(), std::vector<TransactionOutput>(), k); }

// ------------------------------------------------------------------------------------------------ full blocks
void block_written(BlockHeader h, std::vector<TransactionKernel> k)
{
    FullBlock f(std::make_shared<const BlockHeader>(h), body_of(k));
    Serializer s(EProtocolVersion::V2), w(EProtocolVersion::V2);
    f.Serialize(s);
    h.Serialize(w);
    body_of(k).Serialize(w);
    vc::ensure_eq("header-then-body", s.GetBytes(), w.GetBytes());
    vc::ensure_eq("hash-of-the-header", f.GetHash(), h.GetHash());
}
VC_CONTRACT(block_written);

static std::vector<uint8_t> bytes_of(const BlockHeader& h) { Serializer s(EProtocolVersion::V2); h.Serialize(s); return s.GetBytes(); }
static std::vector<uint8_t> bytes_of(const TransactionBody& h) { Serializer s(EProtocolVersion::V2); h.Serialize(s); return s.GetBytes(); }

void block_read(std::vector<uint8_t> bytes)
{
    ByteBuffer b(bytes, EProtocolVersion::V2), c(bytes, EProtocolVersion::V2);
    std::vector<uint8_t> gh, gb, wh, wb;
    bool ok = true, good = true;
    try {
        FullBlock f = FullBlock::Deserialize(b);
        gh = bytes_of(*f.GetHeader());
        gb = bytes_of(f.GetTransactionBody());
        vc::ensure("not-marked-validated", !f.WasValidated());
    } catch (const DeserializationException&) { ok = false; }
    try {
        BlockHeader h = BlockHeader::Deserialize(c);
        wh = bytes_of(h);
        TransactionBody t = TransactionBody::Deserialize(c);
        wb = bytes_of(t);
    } catch (const DeserializationException&) { good = false; }
    vc::ensure("refused-iff-incomplete", ok == good);
    if (ok && good) {
        vc::ensure_eq("header", gh, wh);
        vc::ensure_eq("body", gb, wb);
        vc::ensure("consumed", b.GetRemainingSize() == c.GetRemainingSize());
        vc::cover("read");
    }
}
VC_CONTRACT(block_read);

// ------------------------------------------------------------------------------------------------ transactions
void tx_written(BlindingFactor offset, std::vector<TransactionKernel> k)
{
    Transaction t(BlindingFactor(offset), body_of(k));
    Serializer s(EProtocolVersion::V2), w(EProtocolVersion::V2), h;
    t.Serialize(s);
    w.AppendBigInteger<32>(offset.GetBytes());
    body_of(k).Serialize(w);
    vc::ensure_eq("offset-then-body", s.GetBytes(), w.GetBytes());
    Transaction u(t);
    Serializer s2(EProtocolVersion::V2);
    u.Serialize(s2);
    vc::ensure_eq("copy", s2.GetBytes(), w.GetBytes());
}
VC_CONTRACT(tx_written);

void tx_read(std::vector<uint8_t> bytes)
{
    ByteBuffer b(bytes, EProtocolVersion::V2), c(bytes, EProtocolVersion::V2);
    std::vector<uint8_t> gb, wb;
    BlindingFactor go, wo;
    bool ok = true, good = true;
    try {
        Transaction t = Transaction::Deserialize(b);
        go = t.GetOffset();
        gb = bytes_of(t.GetBody());
    } catch (const DeserializationException&) { ok = false; }
    try {
        wo = BlindingFactor(c.ReadBigInteger<32>());
        TransactionBody t = TransactionBody::Deserialize(c);
        wb = bytes_of(t);
    } catch (const DeserializationException&) { good = false; }
    vc::ensure("refused-iff-incomplete", ok == good);
    if (ok && good) {
        vc::ensure_eq("offset", go.GetBytes(), wo.GetBytes());
        vc::ensure_eq("body", gb, wb);
        vc::ensure("consumed", b.GetRemainingSize() == c.GetRemainingSize());
        vc::cover("read");
    }
}
VC_CONTRACT(tx_read);

// ------------------------------------------------------------------------------------------------ compact blocks
void compact_written(BlockHeader h, uint64_t nonce, std::vector<TransactionOutput> outs, std::vector<TransactionKernel> kers, std::vector<CBigInteger<6>> ids)
{
    std::vector<ShortId> sh;
    for (size_t i = 0; i < ids.size(); i++) sh.push_back(ShortId(CBigInteger<6>(ids[i])));
    std::vector<TransactionOutput> o = outs;
    std::vector<TransactionKernel> k = kers;
    std::vector<ShortId> d = sh;
    CompactBlock f(std::make_shared<const BlockHeader>(h), nonce, std::move(o), std::move(k), std::move(d));
    Serializer s(EProtocolVersion::V2), w(EProtocolVersion::V2);
    f.Serialize(s);
    h.Serialize(w);
    w.Append<uint64_t>(nonce);
    w.Append<uint64_t>(outs.size());
    w.Append<uint64_t>(kers.size());
    w.Append<uint64_t>(ids.size());
    for (size_t i = 0; i < outs.size(); i++) outs[i].Serialize(w);
    for (size_t i = 0; i < kers.size(); i++) kers[i].Serialize(w);
    for (size_t i = 0; i < sh.size(); i++) sh[i].Serialize(w);
    vc::ensure_eq("written", s.GetBytes(), w.GetBytes());
    vc::ensure_eq("hash-of-the-header", f.GetHash(), h.GetHash());
}
VC_CONTRACT(compact_written);
}
