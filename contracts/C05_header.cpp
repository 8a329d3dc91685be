// vc-src: src/Core/Models/BlockHeader.cpp
// vc-link: src/Core/Models/ProofOfWork.cpp src/Crypto/Hasher.cpp src/Core/Global.cpp src/Core/Config.cpp
// vc-assume: the proof of work inside a header is encoded by the functions under contract in C05_pow.cpp; while proving the header codec they are represented by an edge-bit size and a hash
#include "model.h"
#include <Crypto/Hasher.h>

#ifndef VC_CONCRETE
ProofOfWork::ProofOfWork(const uint8_t edgeBits, std::vector<uint64_t>&& n, Hash&& h) : m_edgeBits(edgeBits), m_proofNonces(std::move(n)), m_hash(h) {}
void ProofOfWork::Serialize(Serializer& s) const { s.Append<uint8_t>(m_edgeBits); s.AppendByteVector(m_hash.GetData()); }
const Hash& ProofOfWork::GetHash() const { return m_hash; }
ProofOfWork ProofOfWork::Deserialize(ByteBuffer& b)
{
    uint8_t e = b.ReadU8();
    Hash h = b.ReadBigInteger<32>();
    return ProofOfWork(e, std::vector<uint64_t>(), std::move(h));
}
#endif

namespace C05 {
static void put(std::vector<uint8_t>& r, uint64_t v, size_t bytes)
{
    for (size_t i = 0; i < bytes; i++) r.push_back((uint8_t)(v >> (8 * (bytes - 1 - i))));
}
static void put(std::vector<uint8_t>& r, const std::vector<uint8_t>& v) { r.insert(r.end(), v.begin(), v.end()); }
static uint64_t be(const std::vector<uint8_t>& d, size_t at, size_t bytes)
{
    uint64_t v = 0;
    for (size_t i = 0; i < bytes; i++) v = (v << 8) | d[at + i];
    return v;
}
static std::vector<uint8_t> part(const std::vector<uint8_t>& d, size_t at, size_t n) { return std::vector<uint8_t>(d.begin() + at, d.begin() + at + n); }

// the header fields in consensus order, big-endian, the nonce last
static std::vector<uint8_t> fields(const BlockHeader& h)
{
    std::vector<uint8_t> r;
    put(r, h.GetVersion(), 2);
    put(r, h.GetHeight(), 8);
    put(r, (uint64_t)h.GetTimestamp(), 8);
    put(r, h.GetPreviousHash().GetData());
    put(r, h.GetPreviousRoot().GetData());
    put(r, h.GetOutputRoot().GetData());
    put(r, h.GetRangeProofRoot().GetData());
    put(r, h.GetKernelRoot().GetData());
    put(r, h.GetTotalKernelOffset().GetBytes().GetData());
    put(r, h.GetOutputMMRSize(), 8);
    put(r, h.GetKernelMMRSize(), 8);
    put(r, h.GetTotalDifficulty(), 8);
    put(r, h.GetScalingDifficulty(), 4);
    put(r, h.GetNonce(), 8);
    return r;
}
static const size_t FIELDS = 2 + 8 + 8 + 5 * 32 + 32 + 8 + 8 + 8 + 4 + 8;

void mined_bytes(BlockHeader h)
{
    vc::ensure_eq("fields-in-order", h.GetPreProofOfWork(), fields(h));
}
VC_CONTRACT(mined_bytes);

void written(BlockHeader h)
{
    Serializer s, p;
    h.Serialize(s);
    h.GetProofOfWork().Serialize(p);
    std::vector<uint8_t> want = fields(h);
    put(want, p.GetBytes());
    vc::ensure_eq("fields-then-work", s.GetBytes(), want);
}
VC_CONTRACT(written);

void hashed(BlockHeader h)
{
    vc::ensure_eq("hash-of-the-work", h.GetHash(), h.GetProofOfWork().GetHash());
}
VC_CONTRACT(hashed);

void read(std::vector<uint8_t> bytes)
{
    ByteBuffer b(bytes);
    bool ok = true;
    std::vector<uint8_t> left;
    try {
        BlockHeader h = BlockHeader::Deserialize(b);
        vc::ensure("long-enough", bytes.size() >= FIELDS);
        vc::ensure_eq("same-bytes", fields(h), part(bytes, 0, FIELDS));
        vc::ensure("version", h.GetVersion() == be(bytes, 0, 2) && h.GetHeight() == be(bytes, 2, 8) && (uint64_t)h.GetTimestamp() == be(bytes, 10, 8));
        vc::ensure("work-last", h.GetEdgeBits() == bytes[FIELDS] && (h.GetEdgeBits() != 29 || bytes.size() - b.GetRemainingSize() >= FIELDS + 1));
        vc::cover("read");
    } catch (const DeserializationException&) { ok = false; }
    if (!ok) vc::cover("refused");
}
VC_CONTRACT(read);

void refused_truncated(std::vector<uint8_t> bytes)
{
    vc::require(bytes.size() <= FIELDS);
    ByteBuffer b(bytes);
    bool ok = true;
    try { BlockHeader::Deserialize(b); } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused", !ok);
}
VC_CONTRACT(refused_truncated);
}
