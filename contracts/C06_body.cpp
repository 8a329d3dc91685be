// vc-src: src/Core/Models/TransactionBody.cpp src/Core/Models/TransactionInput.cpp src/Core/Models/TransactionOutput.cpp src/Core/Models/TransactionKernel.cpp
#include "model.h"
#include "vcg.h"
#include <Core/Models/TransactionBody.h>
#include <Crypto/Hasher.h>

namespace C06 {
static void put(std::vector<uint8_t>& r, uint64_t v, size_t bytes)
{
    for (size_t i = 0; i < bytes; i++) r.push_back((uint8_t)(v >> (8 * (bytes - 1 - i))));
}
static void put(std::vector<uint8_t>& r, const std::vector<uint8_t>& v) { r.insert(r.end(), v.begin(), v.end()); }

void body_written(std::vector<TransactionInput> ins, std::vector<TransactionOutput> outs, std::vector<TransactionKernel> kers)
{
    TransactionBody b = TransactionBody::NoSort(ins, outs, kers);
    Serializer s(EProtocolVersion::V2);
    b.Serialize(s);
    Serializer w(EProtocolVersion::V2);
    w.Append<uint64_t>(ins.size());
    w.Append<uint64_t>(outs.size());
    w.Append<uint64_t>(kers.size());
    for (size_t i = 0; i < ins.size(); i++) ins[i].Serialize(w);
    for (size_t i = 0; i < outs.size(); i++) outs[i].Serialize(w);
    for (size_t i = 0; i < kers.size(); i++) kers[i].Serialize(w);
    vc::ensure_eq("written", s.GetBytes(), w.GetBytes());
}
VC_CONTRACT(body_written);
}
