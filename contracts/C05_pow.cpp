// vc-src: src/Core/Models/ProofOfWork.cpp
// vc-link: src/Core/Models/BlockHeader.cpp src/Crypto/Hasher.cpp src/Core/Global.cpp src/Core/Config.cpp
// vc-opt: unroll=400
// vc-opt(write_from_1): split=["bits", 1, 8]
// vc-opt(write_from_1): budget=1500
// vc-opt(read_from_1): split=["bits", 1, 8]
// vc-opt(read_from_1): budget=1500
// vc-opt(write_from_9): split=["bits", 9, 16]
// vc-opt(write_from_9): budget=1500
// vc-opt(read_from_9): split=["bits", 9, 16]
// vc-opt(read_from_9): budget=1500
// vc-opt(write_from_17): split=["bits", 17, 24]
// vc-opt(write_from_17): budget=1500
// vc-opt(read_from_17): split=["bits", 17, 24]
// vc-opt(read_from_17): budget=1500
// vc-opt(write_from_25): split=["bits", 25, 32]
// vc-opt(write_from_25): budget=1500
// vc-opt(read_from_25): split=["bits", 25, 32]
// vc-opt(read_from_25): budget=1500
// vc-opt(write_from_33): split=["bits", 33, 40]
// vc-opt(write_from_33): budget=1500
// vc-opt(read_from_33): split=["bits", 33, 40]
// vc-opt(read_from_33): budget=1500
// vc-opt(write_from_41): split=["bits", 41, 48]
// vc-opt(write_from_41): budget=1500
// vc-opt(read_from_41): split=["bits", 41, 48]
// vc-opt(read_from_41): budget=1500
// vc-opt(write_from_49): split=["bits", 49, 56]
// vc-opt(write_from_49): budget=1500
// vc-opt(read_from_49): split=["bits", 49, 56]
// vc-opt(read_from_49): budget=1500
// vc-opt(write_from_57): split=["bits", 57, 63]
// vc-opt(write_from_57): budget=1500
// vc-opt(read_from_57): split=["bits", 57, 63]
// vc-opt(read_from_57): budget=1500
// vc-thorough: write_from_1 read_from_1 write_from_9 read_from_9 write_from_17 read_from_17 write_from_25 read_from_25 write_from_33 read_from_33 write_from_41 read_from_41 write_from_49 read_from_49 write_from_57 read_from_57
#include "model.h"
#include <Crypto/Hasher.h>

namespace C05 {
static const size_t N = 42;
// bit k of the packed cycle is bit k mod `bits` of nonce k / bits; bits fill bytes from the least significant one, the rest is zero
static std::vector<uint8_t> packed(const std::array<uint64_t, 42>& nonces, uint8_t bits)
{
    std::vector<uint8_t> r((N * bits + 7) / 8, 0);
    for (size_t j = 0; j < r.size(); j++) {
        uint8_t x = 0;
        for (size_t i = 0; i < 8; i++) {
            size_t k = 8 * j + i;
            if (k < N * bits) x |= (uint8_t)((uint8_t)((nonces[k / bits] >> (k % bits)) & 1) << i);
        }
        r[j] = x;
    }
    return r;
}
static uint64_t nonce_at(const std::vector<uint8_t>& bytes, size_t n, uint8_t bits)
{
    uint64_t v = 0;
    for (size_t b = 0; b < bits; b++) {
        size_t k = n * bits + b;
        v |= (uint64_t)((bytes[k / 8] >> (k % 8)) & 1) << b;
    }
    return v;
}

static void write(std::array<uint64_t, 42> nonces, uint8_t bits)
{
    std::vector<uint64_t> v(nonces.begin(), nonces.end());
    ProofOfWork p(bits, std::move(v));
    Serializer s;
    p.Serialize(s);
    std::vector<uint8_t> body = packed(nonces, bits), all = { bits };
    all.insert(all.end(), body.begin(), body.end());
    vc::ensure_eq("written-packed", s.GetBytes(), all);
    vc::ensure_eq("hash-of-the-packed-cycle", p.GetHash(), Hasher::Blake2b(body));
}

static void read(std::vector<uint8_t> bytes, uint8_t bits)
{
    std::vector<uint8_t> all = { bits };
    all.insert(all.end(), bytes.begin(), bytes.end());
    size_t need = (N * bits + 7) / 8;
    ByteBuffer b(all);
    bool ok = true;
    std::vector<uint64_t> n;
    Hash h;
    uint8_t eb = 0;
    try { ProofOfWork p = ProofOfWork::Deserialize(b); n = p.GetProofNonces(); h = p.GetHash(); eb = p.GetEdgeBits(); } catch (const DeserializationException&) { ok = false; }
    // only zero padding: every cycle has one encoding
    bool fits = bytes.size() >= need, clean = fits && (N * bits % 8 == 0 || bytes[need - 1] >> (N * bits % 8) == 0);
    vc::ensure("refused-iff-short-or-padded", ok == clean);
    if (ok) {
        bool good = n.size() == N;
        for (size_t i = 0; i < N; i++) good = good && n[i] == nonce_at(bytes, i, bits);
        vc::ensure("nonces", good);
        vc::ensure("size", eb == bits && b.GetRemainingSize() == bytes.size() - need);
        vc::ensure_eq("hash", h, Hasher::Blake2b(std::vector<uint8_t>(bytes.begin(), bytes.begin() + need)));
        vc::cover("read");
    }
}

void refused_sizes(std::vector<uint8_t> bytes)
{
    vc::require(bytes.size() >= 1 && (bytes[0] == 0 || bytes[0] > 63));
    ByteBuffer b(bytes);
    bool ok = true;
    try { ProofOfWork::Deserialize(b); } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused", !ok);
}
VC_CONTRACT(refused_sizes);

void write_1(std::array<uint64_t, 42> nonces) { write(nonces, 1); }
VC_CONTRACT(write_1);
void read_1(std::vector<uint8_t> bytes) { read(bytes, 1); }
VC_CONTRACT(read_1);
void write_12(std::array<uint64_t, 42> nonces) { write(nonces, 12); }
VC_CONTRACT(write_12);
void read_12(std::vector<uint8_t> bytes) { read(bytes, 12); }
VC_CONTRACT(read_12);
void write_29(std::array<uint64_t, 42> nonces) { write(nonces, 29); }
VC_CONTRACT(write_29);
void read_29(std::vector<uint8_t> bytes) { read(bytes, 29); }
VC_CONTRACT(read_29);
void write_31(std::array<uint64_t, 42> nonces) { write(nonces, 31); }
VC_CONTRACT(write_31);
void read_31(std::vector<uint8_t> bytes) { read(bytes, 31); }
VC_CONTRACT(read_31);
void write_32(std::array<uint64_t, 42> nonces) { write(nonces, 32); }
VC_CONTRACT(write_32);
void read_32(std::vector<uint8_t> bytes) { read(bytes, 32); }
VC_CONTRACT(read_32);
void write_63(std::array<uint64_t, 42> nonces) { write(nonces, 63); }
VC_CONTRACT(write_63);
void read_63(std::vector<uint8_t> bytes) { read(bytes, 63); }
VC_CONTRACT(read_63);
// every size, in the thorough check
void write_from_1(std::array<uint64_t, 42> nonces, uint8_t bits) { vc::require(bits >= 1 && bits < 9); write(nonces, bits); }
VC_CONTRACT(write_from_1);
void read_from_1(std::vector<uint8_t> bytes, uint8_t bits) { vc::require(bits >= 1 && bits < 9); read(bytes, bits); }
VC_CONTRACT(read_from_1);
void write_from_9(std::array<uint64_t, 42> nonces, uint8_t bits) { vc::require(bits >= 9 && bits < 17); write(nonces, bits); }
VC_CONTRACT(write_from_9);
void read_from_9(std::vector<uint8_t> bytes, uint8_t bits) { vc::require(bits >= 9 && bits < 17); read(bytes, bits); }
VC_CONTRACT(read_from_9);
void write_from_17(std::array<uint64_t, 42> nonces, uint8_t bits) { vc::require(bits >= 17 && bits < 25); write(nonces, bits); }
VC_CONTRACT(write_from_17);
void read_from_17(std::vector<uint8_t> bytes, uint8_t bits) { vc::require(bits >= 17 && bits < 25); read(bytes, bits); }
VC_CONTRACT(read_from_17);
void write_from_25(std::array<uint64_t, 42> nonces, uint8_t bits) { vc::require(bits >= 25 && bits < 33); write(nonces, bits); }
VC_CONTRACT(write_from_25);
void read_from_25(std::vector<uint8_t> bytes, uint8_t bits) { vc::require(bits >= 25 && bits < 33); read(bytes, bits); }
VC_CONTRACT(read_from_25);
void write_from_33(std::array<uint64_t, 42> nonces, uint8_t bits) { vc::require(bits >= 33 && bits < 41); write(nonces, bits); }
VC_CONTRACT(write_from_33);
void read_from_33(std::vector<uint8_t> bytes, uint8_t bits) { vc::require(bits >= 33 && bits < 41); read(bytes, bits); }
VC_CONTRACT(read_from_33);
void write_from_41(std::array<uint64_t, 42> nonces, uint8_t bits) { vc::require(bits >= 41 && bits < 49); write(nonces, bits); }
VC_CONTRACT(write_from_41);
void read_from_41(std::vector<uint8_t> bytes, uint8_t bits) { vc::require(bits >= 41 && bits < 49); read(bytes, bits); }
VC_CONTRACT(read_from_41);
void write_from_49(std::array<uint64_t, 42> nonces, uint8_t bits) { vc::require(bits >= 49 && bits < 57); write(nonces, bits); }
VC_CONTRACT(write_from_49);
void read_from_49(std::vector<uint8_t> bytes, uint8_t bits) { vc::require(bits >= 49 && bits < 57); read(bytes, bits); }
VC_CONTRACT(read_from_49);
void write_from_57(std::array<uint64_t, 42> nonces, uint8_t bits) { vc::require(bits >= 57 && bits < 64); write(nonces, bits); }
VC_CONTRACT(write_from_57);
void read_from_57(std::vector<uint8_t> bytes, uint8_t bits) { vc::require(bits >= 57 && bits < 64); read(bytes, bits); }
VC_CONTRACT(read_from_57);
}
