// vc-src: src/Core/Global.cpp
// vc-link: src/Core/Config.cpp
#include "vc.h"
#include <Core/Serialization/ByteBuffer.h>
#include <Core/Serialization/Serializer.h>
#include <Core/Serialization/EndianHelper.h>

namespace C04 {

// ---- reading: every read either fails leaving nothing read outside the buffer, or consumes exactly its size
void read_u64(std::vector<uint8_t> bytes, uint64_t skip)
{
    vc::require(skip <= bytes.size());
    ByteBuffer b(bytes);
    std::vector<uint8_t> head = b.ReadVector(skip);
    vc::ensure("prefix-size", head.size() == skip && b.GetRemainingSize() == bytes.size() - skip);
    bool ok = true;
    uint64_t v = 0;
    try { v = b.ReadU64(); } catch (const DeserializationException&) { ok = false; }
    vc::ensure("fails-iff-short", ok == (bytes.size() - skip >= 8));
    if (ok) {
        uint64_t w = 0;
        for (int i = 0; i < 8; i++) w = (w << 8) | bytes[skip + i];
        vc::ensure("big-endian", v == w);
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - skip - 8);
        vc::cover("read");
    }
}
VC_CONTRACT(read_u64);

void read_small(std::vector<uint8_t> bytes)
{
    ByteBuffer b(bytes);
    vc::require(bytes.size() >= 7);
    uint8_t a = b.ReadU8();
    uint16_t c = b.ReadU16();
    uint32_t d = b.ReadU32();
    vc::ensure("u8", a == bytes[0]);
    vc::ensure("u16", c == (uint16_t)((bytes[1] << 8) | bytes[2]));
    vc::ensure("u32", d == (((uint32_t)bytes[3] << 24) | ((uint32_t)bytes[4] << 16) | ((uint32_t)bytes[5] << 8) | bytes[6]));
}
VC_CONTRACT(read_small);

// a declared length that exceeds what is left is always refused
void read_vector(std::vector<uint8_t> bytes, uint64_t skip, uint64_t n)
{
    vc::require(skip <= bytes.size());
    ByteBuffer b(bytes);
    b.ReadVector(skip);
    bool ok = true;
    std::vector<uint8_t> r;
    try { r = b.ReadVector(n); } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused-iff-too-long", ok == (n <= bytes.size() - skip));
    if (ok) {
        vc::ensure_eq("content", r, std::vector<uint8_t>(bytes.begin() + skip, bytes.begin() + skip + n));
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - skip - n);
    }
}
VC_CONTRACT(read_vector);

void read_string(std::vector<uint8_t> bytes, uint64_t skip, uint64_t n)
{
    vc::require(skip <= bytes.size());
    ByteBuffer b(bytes);
    b.ReadVector(skip);
    bool ok = true;
    std::string r;
    try { r = b.ReadString(n); } catch (const DeserializationException&) { ok = false; }
    vc::ensure("refused-iff-too-long", ok == (n <= bytes.size() - skip));
    if (ok) {
        vc::ensure("size", r.size() == n);
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - skip - n);
    }
}
VC_CONTRACT(read_string);

void read_varstr(std::vector<uint8_t> bytes)
{
    ByteBuffer b(bytes);
    bool ok = true;
    std::string r;
    try { r = b.ReadVarStr(); } catch (const DeserializationException&) { ok = false; }
    uint64_t n = 0;
    if (bytes.size() >= 8) { for (int i = 0; i < 8; i++) n = (n << 8) | bytes[i]; }
    vc::ensure("refused-iff-too-long", ok == (bytes.size() >= 8 && n <= bytes.size() - 8));
    if (ok) {
        vc::ensure("size", r.size() == n);
        vc::ensure("consumed", b.GetRemainingSize() == bytes.size() - 8 - n);
    }
}
VC_CONTRACT(read_varstr);

void read_fixed(std::vector<uint8_t> bytes)
{
    ByteBuffer b(bytes);
    bool ok = true;
    CBigInteger<32> h;
    try { h = b.ReadBigInteger<32>(); } catch (const DeserializationException&) { ok = false; }
    vc::ensure("hash:refused-iff-short", ok == (bytes.size() >= 32));
    if (ok) {
        vc::ensure_eq("hash:content", h.GetData(), std::vector<uint8_t>(bytes.begin(), bytes.begin() + 32));
        bool ok2 = true;
        std::array<uint8_t, 16> a{};
        try { a = b.ReadArray<16>(); } catch (const DeserializationException&) { ok2 = false; }
        vc::ensure("array:refused-iff-short", ok2 == (bytes.size() >= 48));
        if (ok2) {
            vc::ensure_eq("array:content", std::vector<uint8_t>(a.begin(), a.end()), std::vector<uint8_t>(bytes.begin() + 32, bytes.begin() + 48));
            vc::ensure_eq("rest", b.ReadRemainingBytes(), std::vector<uint8_t>(bytes.begin() + 48, bytes.end()));
            vc::ensure("nothing-left", b.GetRemainingSize() == 0);
        }
    }
}
VC_CONTRACT(read_fixed);

// ---- writing then reading
void write_read_ints(uint8_t a, uint16_t b, uint32_t c, uint64_t d, int64_t e, std::vector<uint8_t> tail)
{
    Serializer s;
    s.Append(a).Append(b).Append(c).Append(d).Append(e);
    s.AppendLittleEndian(d);
    s.AppendByteVector(tail);
    vc::ensure("size", s.GetBytes().size() == 31 + tail.size());
    ByteBuffer r(s.GetBytes());
    vc::ensure("u8", r.ReadU8() == a);
    vc::ensure("u16", r.ReadU16() == b);
    vc::ensure("u32", r.ReadU32() == c);
    vc::ensure("u64", r.ReadU64() == d);
    vc::ensure("i64", r.Read64() == e);
    vc::ensure("u64-little-endian", r.ReadU64_LE() == d);
    vc::ensure_eq("tail", r.ReadRemainingBytes(), tail);
}
VC_CONTRACT(write_read_ints);

void write_read_strings(std::string v, std::vector<uint8_t> w, std::string t)
{
    Serializer s;
    s.AppendVarStr(v);
    s.AppendByteVector(w, ESerializeLength::U32);
    s.AppendStr(t);
    vc::require(w.size() < (1ull << 32));
    ByteBuffer r(s.GetBytes());
    vc::ensure_eq("string", r.ReadVarStr(), v);
    uint32_t n = r.ReadU32();
    vc::ensure("length", n == w.size());
    vc::ensure_eq("bytes", r.ReadVector(n), w);
    vc::ensure_eq("tail", r.ReadString(r.GetRemainingSize()), t);
}
VC_CONTRACT(write_read_strings);

void endian(uint64_t x)
{
    uint8_t a[8], b[8];
    EndianHelper::WriteBE64(a, x);
    EndianHelper::WriteLE64(b, x);
    for (int i = 0; i < 8; i++) {
        vc::ensure("big", a[i] == (uint8_t)(x >> (56 - 8 * i)));
        vc::ensure("little", b[i] == (uint8_t)(x >> (8 * i)));
    }
    vc::ensure("read-back", EndianHelper::ReadBE64(a) == x);
    uint8_t c[4];
    EndianHelper::WriteBE32(c, (uint32_t)x);
    vc::ensure("read-back-32", EndianHelper::ReadBE32(c) == (uint32_t)x && c[0] == (uint8_t)(x >> 24));
    vc::ensure("swap-16", EndianHelper::changeEndianness16((uint16_t)x) == (uint16_t)(((x & 0xff) << 8) | ((x >> 8) & 0xff)));
}
VC_CONTRACT(endian);

}
