// Aggregates from which contracts build repository values that have no default constructor.
#pragma once
#include "gen.h"
#include <Core/Models/BlockHeader.h>
#include <Core/Models/TransactionInput.h>
#include <Core/Models/TransactionOutput.h>
#include <Core/Models/TransactionKernel.h>
VC_GEN(Fee, m_shift, m_fee)
#ifdef VC_CONCRETE
namespace vc {
template <> struct Gen<ProofOfWork> {
    static ProofOfWork make(Src& s)
    {
        uint8_t eb = Gen<uint8_t>::make(s);
        std::vector<uint64_t> n = Gen<std::vector<uint64_t>>::make(s);
        Hash h = Gen<Hash>::make(s);
        return ProofOfWork(eb, std::move(n), std::move(h));
    }
};
template <> struct Gen<BlockHeader> {
    static BlockHeader make(Src& s)
    {
        auto ver = Gen<uint16_t>::make(s); auto hgt = Gen<uint64_t>::make(s); auto ts = Gen<int64_t>::make(s);
        auto a = Gen<Hash>::make(s); auto b = Gen<Hash>::make(s); auto c = Gen<Hash>::make(s); auto d = Gen<Hash>::make(s); auto e = Gen<Hash>::make(s);
        auto o = Gen<BlindingFactor>::make(s);
        auto os = Gen<uint64_t>::make(s); auto ks = Gen<uint64_t>::make(s); auto td = Gen<uint64_t>::make(s);
        auto sd = Gen<uint32_t>::make(s); auto n = Gen<uint64_t>::make(s); auto p = Gen<ProofOfWork>::make(s);
        return BlockHeader(ver, hgt, ts, std::move(a), std::move(b), std::move(c), std::move(d), std::move(e), std::move(o), os, ks, td, sd, n, std::move(p));
    }
};
template <> struct Gen<TransactionInput> {
    static TransactionInput make(Src& s) { auto f = Gen<EOutputFeatures>::make(s); auto c = Gen<Commitment>::make(s); (void)Gen<Hash>::make(s); return TransactionInput(f, std::move(c)); }
};
template <> struct Gen<RangeProof> {
    static RangeProof make(Src& s) { auto v = Gen<std::vector<unsigned char>>::make(s); return RangeProof(std::move(v)); }
};
template <> struct Gen<TransactionOutput> {
    static TransactionOutput make(Src& s) { auto f = Gen<EOutputFeatures>::make(s); auto c = Gen<Commitment>::make(s); auto p = Gen<RangeProof>::make(s); (void)Gen<Hash>::make(s); return TransactionOutput(f, std::move(c), std::move(p)); }
};
template <> struct Gen<TransactionKernel> {
    static TransactionKernel make(Src& s)
    {
        auto f = Gen<EKernelFeatures>::make(s); auto fee = Gen<Fee>::make(s); auto l = Gen<uint64_t>::make(s); auto c = Gen<Commitment>::make(s); auto g = Gen<Signature>::make(s); (void)Gen<Hash>::make(s);
        return TransactionKernel(f, fee, l, std::move(c), std::move(g));
    }
};
}
#endif
