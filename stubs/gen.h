// generators of repository values for the concrete replay
#pragma once
#include "vc.h"
#include <Crypto/Models/BigInteger.h>
#include <Crypto/Models/Commitment.h>
#include <Crypto/Models/Signature.h>
#include <Crypto/Models/BlindingFactor.h>
#ifdef VC_CONCRETE
namespace vc {
template <size_t N> struct Gen<CBigInteger<N>> {
    static CBigInteger<N> make(Src& s)
    {
        size_t n = s.reading ? (size_t)s.tok() : N;
        s.put(N);
        std::vector<uint8_t> v(N);
        int m = s.reading ? 0 : (int)s.pick(4);
        for (size_t i = 0; i < N; i++) { uint64_t x = s.reading ? (i < n ? s.tok() : 0) : m == 0 ? 0 : m == 1 ? s.rng() : m == 2 ? (i + 1 == N ? s.pick(4) : 0) : (i == 0 ? s.pick(256) : 7); v[i] = (uint8_t)x; s.put(v[i]); }
        return CBigInteger<N>(v);
    }
};
}
#endif
VC_GEN(Commitment, m_commitmentBytes)
VC_GEN(Signature, m_signatureBytes)
VC_GEN(CompactSignature, m_signatureBytes)
VC_GEN(BlindingFactor, m_blindingFactorBytes)
