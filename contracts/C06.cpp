// vc-src: src/Core/Models/TransactionInput.cpp src/Core/Models/TransactionOutput.cpp src/Core/Models/TransactionKernel.cpp src/Core/Models/OutputIdentifier.cpp src/Core/Models/ShortId.cpp
// vc-assume: an input without a feature byte takes its features from the unspent output set, represented by an arbitrary answer or failure
#include "model.h"
#include "vcg.h"
#include <Core/Models/TransactionInput.h>
#include <Core/Models/TransactionOutput.h>
#include <Core/Models/TransactionKernel.h>
#include <Core/Models/OutputIdentifier.h>
#include <Core/Models/ShortId.h>
#include <BlockChain/ICoinView.h>
#include <Crypto/Hasher.h>

namespace C06 {
static int answer;   // what the unspent output set says: -1 not found
struct Coins : public ICoinView {
    EOutputFeatures GetOutputType(const Commitment&) const final
    {
        if (answer < 0) throw std::runtime_error("not found");
        return (EOutputFeatures)answer;
    }
};
}
std::shared_ptr<const ICoinView> Global::GetCoinView() { return std::make_shared<C06::Coins>(); }

namespace C06 {
static void put(std::vector<uint8_t>& r, uint64_t v, size_t bytes)
{
    for (size_t i = 0; i < bytes; i++) r.push_back((uint8_t)(v >> (8 * (bytes - 1 - i))));
}
static void put(std::vector<uint8_t>& r, const std::vector<uint8_t>& v) { r.insert(r.end(), v.begin(), v.end()); }
static uint64_t be(const std::vector<uint8_t>& d, size_t at, size_t bytes)
{
    uint64_t v = 0;
    for (size_t i = 0; i < bytes; i++) v = (v << 8) | d[at + i];
    return v;
}
static std::vector<uint8_t> part(const std::vector<uint8_t>& d, size_t at, size_t n) { return std::vector<uint8_t>(d.begin() + at, d.begin() + at + n); }
static EProtocolVersion version(uint8_t v) { return v == 1 ? EProtocolVersion::V1 : v == 2 ? EProtocolVersion::V2 : v == 3 ? EProtocolVersion::V3 : EProtocolVersion::V1000; }

// ------------------------------------------------------------------------------------------------ inputs
void input_written(uint8_t features, Commitment c, uint8_t ver)
{
    vc::require(features <= 1);
    TransactionInput in((EOutputFeatures)features, Commitment(c));
    Serializer s(version(ver));
    in.Serialize(s);
    std::vector<uint8_t> want;
    if (ver == 1 || ver == 2) put(want, features, 1);
    put(want, c.GetBytes().GetData());
    vc::ensure_eq("written", s.GetBytes(), want);
    vc::ensure_eq("hash-of-the-commitment", in.GetHash(), Hasher::Blake2b(c.GetBytes().GetData()));
    vc::ensure("getters", in.GetFeatures() == (EOutputFeatures)features && in.GetCommitment() == c);
}
VC_CONTRACT(input_written);

void input_read(std::vector<uint8_t> bytes, uint8_t ver)
{
    vc::require(ver == 1 || ver == 2);
    ByteBuffer b(bytes, version(ver));
    bool ok = true;
    bool well = bytes.size() >= 34 && bytes[0] <= 1;
    try {
        TransactionInput in = TransactionInput::Deserialize(b);
        vc::ensure("complete", well);
        vc::ensure_eq("commitment", in.GetCommitment().GetBytes().GetData(), part(bytes, 1, 33));
        vc::ensure("features", (uint8_t)in.GetFeatures() == bytes[0]);
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - 34);
        vc::ensure_eq("hash", in.GetHash(), Hasher::Blake2b(part(bytes, 1, 33)));
        vc::cover("read");
    } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused-iff-malformed", ok == well);
}
VC_CONTRACT(input_read);

void input_read_v3(std::vector<uint8_t> bytes, uint8_t ver, int known)
{
    vc::require(ver >= 3 && known >= -1 && known <= 1);
    answer = known;
    ByteBuffer b(bytes, version(ver));
    bool ok = true, found = true;
    try {
        TransactionInput in = TransactionInput::Deserialize(b);
        vc::ensure_eq("commitment", in.GetCommitment().GetBytes().GetData(), part(bytes, 0, 33));
        vc::ensure("features", (int)in.GetFeatures() == known);
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - 33);
    } catch (const DeserializationException&) { ok = false; }
    catch (const std::runtime_error&) { found = false; }
    vc::ensure("refused-iff-short", ok == (bytes.size() >= 33));
    vc::ensure("unknown-output-refused", !ok || found == (known >= 0));
    if (ok && found) vc::cover("read");
}
VC_CONTRACT(input_read_v3);

// ------------------------------------------------------------------------------------------------ outputs
void output_written(uint8_t features, Commitment c, std::vector<uint8_t> proof, uint8_t ver)
{
    vc::require(features <= 1);
    std::vector<uint8_t> pr = proof;
    TransactionOutput out((EOutputFeatures)features, c, RangeProof(std::move(pr)));
    Serializer s(version(ver));
    out.Serialize(s);
    std::vector<uint8_t> id, want;
    put(id, features, 1);
    put(id, c.GetBytes().GetData());
    want = id;
    put(want, proof.size(), 8);
    put(want, proof);
    vc::ensure_eq("written", s.GetBytes(), want);
    vc::ensure_eq("hash-of-the-identifier", out.GetHash(), Hasher::Blake2b(id));
    vc::ensure_eq("proof", out.GetRangeProof().GetProofBytes(), proof);
    vc::ensure("getters", out.GetFeatures() == (EOutputFeatures)features && out.GetCommitment() == c && out.IsCoinbase() == (features == 1));
    Serializer s2(version(ver));
    OutputIdentifier::FromOutput(out).Serialize(s2);
    vc::ensure_eq("identifier-written", s2.GetBytes(), id);
}
VC_CONTRACT(output_written);

void output_read(std::vector<uint8_t> bytes, uint8_t ver)
{
    ByteBuffer b(bytes, version(ver));
    bool ok = true;
    bool well = bytes.size() >= 42 && bytes[0] <= 1;
    uint64_t len = bytes.size() >= 42 ? be(bytes, 34, 8) : 0;
    well = well && len <= 675 && bytes.size() - 42 >= len;
    try {
        TransactionOutput out = TransactionOutput::Deserialize(b);
        vc::ensure("complete", well);
        vc::ensure_eq("commitment", out.GetCommitment().GetBytes().GetData(), part(bytes, 1, 33));
        vc::ensure("features", (uint8_t)out.GetFeatures() == bytes[0]);
        vc::ensure_eq("proof", out.GetRangeProof().GetProofBytes(), part(bytes, 42, (size_t)len));
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - 42 - len);
        vc::ensure_eq("hash", out.GetHash(), Hasher::Blake2b(part(bytes, 0, 34)));
        vc::cover("read");
    } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused-iff-malformed", ok == well);
}
VC_CONTRACT(output_read);

void identifier_read(std::vector<uint8_t> bytes, uint8_t ver)
{
    ByteBuffer b(bytes, version(ver));
    bool ok = true;
    bool well = bytes.size() >= 34 && bytes[0] <= 1;
    try {
        OutputIdentifier out = OutputIdentifier::Deserialize(b);
        vc::ensure("complete", well);
        vc::ensure_eq("commitment", out.GetCommitment().GetBytes().GetData(), part(bytes, 1, 33));
        vc::ensure("features", (uint8_t)out.GetFeatures() == bytes[0] && out.IsCoinbase() == (bytes[0] == 1));
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - 34);
    } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused-iff-malformed", ok == well);
}
VC_CONTRACT(identifier_read);

// ------------------------------------------------------------------------------------------------ kernels
static std::vector<uint8_t> kernel_bytes(uint8_t features, uint64_t fee, uint64_t lock, const Commitment& c, const Signature& g, bool v1)
{
    std::vector<uint8_t> r;
    put(r, features, 1);
    if (v1 || features != 1) put(r, fee, 8);
    if (v1 || features == 2) put(r, lock, 8);
    else if (features == 3) put(r, lock & 0xffff, 2);
    put(r, c.GetBytes().GetData());
    put(r, g.GetSignatureBytes().GetData());
    return r;
}
static const uint64_t FEE_BITS = 0xffffffffffULL, WEEK = 7 * 24 * 60;

void kernel_written(uint8_t features, uint64_t fee, uint8_t shift, uint64_t lock, Commitment c, Signature g, uint8_t ver)
{
    vc::require(features <= 3 && fee <= FEE_BITS && shift < 16);
    TransactionKernel k((EKernelFeatures)features, Fee(shift, fee), lock, Commitment(c), Signature(g));
    uint64_t word = fee | ((uint64_t)shift << 40);
    Serializer s(version(ver));
    k.Serialize(s);
    vc::ensure_eq("written", s.GetBytes(), kernel_bytes(features, word, lock, c, g, ver == 1));
    vc::ensure_eq("hash", k.GetHash(), Hasher::Blake2b(kernel_bytes(features, word, lock, c, g, true)));
    vc::ensure("getters", k.GetFeatures() == (EKernelFeatures)features && k.GetFee() == fee && k.GetFeeShift() == shift && k.GetLockHeight() == lock
        && k.GetExcessCommitment() == c && k.IsCoinbase() == (features == 1));
    std::vector<uint8_t> msg;
    put(msg, features, 1);
    if (features != 1) put(msg, word, 8);
    if (features == 2) put(msg, lock, 8);
    if (features == 3) put(msg, lock & 0xffff, 2);
    vc::ensure_eq("signed-message", k.GetSignatureMessage(), Hasher::Blake2b(msg));
    TransactionKernel k2((EKernelFeatures)features, Fee(shift, fee), lock, c, g);
    vc::ensure_eq("same-kernel", k2.GetHash(), k.GetHash());
}
VC_CONTRACT(kernel_written);

void kernel_read(std::vector<uint8_t> bytes, uint8_t ver)
{
    ByteBuffer b(bytes, version(ver));
    bool v1 = ver == 1;
    uint8_t f = bytes.size() >= 1 ? bytes[0] : 255;
    size_t fee_at = 1, fee_len = v1 || f != 1 ? 8 : 0;
    size_t lock_at = 1 + fee_len, lock_len = v1 || f == 2 ? 8 : f == 3 ? 2 : 0;
    size_t at = lock_at + lock_len, need = at + 33 + 64;
    bool well = f <= 3 && bytes.size() >= need;
    uint64_t fee = well && fee_len == 8 ? be(bytes, fee_at, 8) : 0;
    uint64_t lock = well && lock_len == 8 ? be(bytes, lock_at, 8) : well && lock_len == 2 ? be(bytes, lock_at, 2) : 0;
    if (f == 3 && (lock == 0 || lock > WEEK)) well = false;
    bool ok = true;
    try {
        TransactionKernel k = TransactionKernel::Deserialize(b);
        vc::ensure("complete", well);
        vc::ensure("features", (uint8_t)k.GetFeatures() == f);
        vc::ensure("fee", k.GetFee() == (fee & FEE_BITS) && k.GetFeeShift() == ((fee >> 40) & 15));
        vc::ensure("lock-height", k.GetLockHeight() == lock);
        vc::ensure_eq("excess", k.GetExcessCommitment().GetBytes().GetData(), part(bytes, at, 33));
        vc::ensure_eq("signature", k.GetExcessSignature().GetSignatureBytes().GetData(), part(bytes, at + 33, 64));
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - need);
        vc::cover("read");
    } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused-iff-malformed", ok == well);
}
VC_CONTRACT(kernel_read);

// ------------------------------------------------------------------------------------------------ short ids
void short_id_round_trip(CBigInteger<6> id)
{
    ShortId x = ShortId(CBigInteger<6>(id));
    Serializer s;
    x.Serialize(s);
    vc::ensure_eq("written", s.GetBytes(), id.GetData());
    ByteBuffer b(s.GetBytes());
    vc::ensure_eq("read", ShortId::Deserialize(b).GetId(), id);
}
VC_CONTRACT(short_id_round_trip);

void short_id_refused(std::vector<uint8_t> bytes)
{
    ByteBuffer b(bytes);
    bool ok = true;
    try { ShortId::Deserialize(b); } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused-iff-short", ok == (bytes.size() >= 6));
}
VC_CONTRACT(short_id_refused);
}
