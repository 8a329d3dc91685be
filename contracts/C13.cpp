// vc-src: stubs/global.cpp src/Core/Validation/TxBodyValidator.cpp src/Core/Models/TransactionKernel.cpp src/Core/Models/TransactionBody.cpp
// vc-opt: focus=true
// vc-link: src/Core/Models/TransactionBody.cpp src/Core/Models/TransactionInput.cpp src/Core/Models/TransactionOutput.cpp src/Crypto/Hasher.cpp
// vc-use: TransactionKernel::GetSignatureMessage C13::any_message signed_message
// vc-assume: the cryptographic checks (range proofs, kernel signatures, commitment sums) are recording stand-ins with arbitrary verdicts
#include "model.h"
#include "vcg.h"
#include <Consensus.h>
#include <Core/Models/TransactionBody.h>
#include <Core/Validation/TxBodyValidator.h>
#include <Core/Validation/KernelSignatureValidator.h>
#include <Core/Exceptions/BadDataException.h>
#include <Crypto/Crypto.h>
#include <Crypto/Hasher.h>

static bool g_proofs_ok, g_sigs_ok;
static int g_proof_calls, g_sig_calls;
static std::vector<std::pair<Commitment, RangeProof>> g_proofs;
static size_t g_at;                 // the signature looked at
static size_t g_nsig, g_nkey, g_nmsg;
static Signature g_sig;
static Commitment g_key;
static Hash g_msg;
bool Crypto::VerifyRangeProofs(const std::vector<std::pair<Commitment, RangeProof>>& p) { g_proof_calls++; g_proofs = p; return g_proofs_ok; }
bool Crypto::VerifyKernelSignatures(const std::vector<const Signature*>& s, const std::vector<const Commitment*>& k, const std::vector<const Hash*>& m)
{
    g_sig_calls++;
    g_nsig = s.size(); g_nkey = k.size(); g_nmsg = m.size();
    if (g_at < s.size()) g_sig = *s[g_at];
    if (g_at < k.size()) g_key = *k[g_at];
    if (g_at < m.size()) g_msg = *m[g_at];
    return g_sigs_ok;
}

namespace C13 {
static Hash message(const TransactionKernel& k)
{
    std::vector<uint8_t> r;
    r.push_back((uint8_t)k.GetFeatures());
    if (k.GetFeatures() != EKernelFeatures::COINBASE_KERNEL) {
        uint64_t fee = ((uint64_t)k.GetFeeShift() << 40) | k.GetFee();
        for (int i = 0; i < 8; i++) r.push_back((uint8_t)(fee >> (8 * (7 - i))));
    }
    if (k.GetFeatures() == EKernelFeatures::HEIGHT_LOCKED)
        for (int i = 0; i < 8; i++) r.push_back((uint8_t)(k.GetLockHeight() >> (8 * (7 - i))));
    if (k.GetFeatures() == EKernelFeatures::NO_RECENT_DUPLICATE)
        for (int i = 0; i < 2; i++) r.push_back((uint8_t)(k.GetLockHeight() >> (8 * (1 - i))));
    return Hasher::Blake2b(r);
}
// some fixed function of the three signed fields (which one is the contract signed_message)
Hash any_message(const TransactionKernel& k)
{
    std::vector<uint8_t> r;
    r.push_back((uint8_t)k.GetFeatures());
    r.push_back(k.GetFeeShift());
    for (int i = 0; i < 8; i++) r.push_back((uint8_t)(k.GetFee() >> (8 * i)));
    for (int i = 0; i < 8; i++) r.push_back((uint8_t)(k.GetLockHeight() >> (8 * i)));
    return Hasher::SHA256(r);
}
void signed_message(TransactionKernel k)
{
    vc::require((uint8_t)k.GetFeatures() <= 3 && k.GetFee() < (1ull << 40) && k.GetFeeShift() < 16);
    vc::ensure_eq("covers-features-fee-lock", k.GetSignatureMessage(), message(k));
}
VC_CONTRACT(signed_message);

// what acceptance of a body implies, at arbitrary places i, j
void accepted_body(std::vector<TransactionInput> ins, std::vector<TransactionOutput> outs, std::vector<TransactionKernel> kers, bool proofs, bool sigs, size_t i, size_t j)
{
    TransactionBody b = TransactionBody::NoSort(ins, outs, kers);
    g_proofs_ok = proofs; g_sigs_ok = sigs; g_proof_calls = g_sig_calls = 0; g_at = i;
    try {
        TxBodyValidator().Validate(b);
        vc::ensure("proofs-checked", g_proof_calls == 1 && proofs && g_proofs.size() == outs.size());
        vc::ensure("each-proof-checked", j >= outs.size() || g_proofs[j].first == outs[j].GetCommitment() && g_proofs[j].second == outs[j].GetRangeProof());
        vc::ensure("signatures-checked", kers.empty() || g_sig_calls == 1 && sigs && g_nsig == kers.size() && g_nkey == kers.size() && g_nmsg == kers.size());
        if (i < kers.size()) {
            vc::ensure_eq("each-signature", g_sig, kers[i].GetExcessSignature());
            vc::ensure_eq("each-excess", g_key, kers[i].GetExcessCommitment());
            vc::ensure_eq("each-message", g_msg, kers[i].GetSignatureMessage());
        }
        vc::cover("accepted");
    } catch (const BadDataException& e) {
    }
}
VC_CONTRACT(accepted_body);

// order, at arbitrary places i, j
void sorted_body(std::vector<TransactionInput> ins, std::vector<TransactionOutput> outs, std::vector<TransactionKernel> kers, bool proofs, bool sigs, size_t i, size_t j)
{
    TransactionBody b = TransactionBody::NoSort(ins, outs, kers);
    g_proofs_ok = proofs; g_sigs_ok = sigs; g_proof_calls = g_sig_calls = 0; g_at = i;
    try {
        TxBodyValidator().Validate(b);
        vc::ensure("inputs-sorted", i >= ins.size() || j >= ins.size() || i + 1 != j || ins[i].GetHash() <= ins[j].GetHash());
        vc::ensure("outputs-sorted", i >= outs.size() || j >= outs.size() || i + 1 != j || outs[i].GetHash() <= outs[j].GetHash());
        vc::ensure("kernels-sorted", i >= kers.size() || j >= kers.size() || i + 1 != j || kers[i].GetHash() <= kers[j].GetHash());
        vc::cover("accepted");
    } catch (const BadDataException& e) {
    }
}
VC_CONTRACT(sorted_body);

// no repetition, at arbitrary places i, j
void distinct_body(std::vector<TransactionInput> ins, std::vector<TransactionOutput> outs, std::vector<TransactionKernel> kers, bool proofs, bool sigs, size_t i, size_t j)
{
    TransactionBody b = TransactionBody::NoSort(ins, outs, kers);
    g_proofs_ok = proofs; g_sigs_ok = sigs; g_proof_calls = g_sig_calls = 0; g_at = i;
    try {
        TxBodyValidator().Validate(b);
        vc::ensure("no-duplicate-input", i >= ins.size() || j >= ins.size() || i + 1 != j || ins[i].GetCommitment() != ins[j].GetCommitment());
        vc::ensure("no-duplicate-output", i >= outs.size() || j >= outs.size() || i + 1 != j || outs[i].GetHash() != outs[j].GetHash());
        vc::ensure("no-duplicate-kernel", i >= kers.size() || j >= kers.size() || i + 1 != j || kers[i].GetHash() != kers[j].GetHash());
        vc::cover("accepted");
    } catch (const BadDataException& e) {
    }
}
VC_CONTRACT(distinct_body);

// nothing created and spent in the same body, at arbitrary places i, j
void cut_through_body(std::vector<TransactionInput> ins, std::vector<TransactionOutput> outs, std::vector<TransactionKernel> kers, bool proofs, bool sigs, size_t i, size_t j)
{
    TransactionBody b = TransactionBody::NoSort(ins, outs, kers);
    g_proofs_ok = proofs; g_sigs_ok = sigs; g_proof_calls = g_sig_calls = 0; g_at = i;
    try {
        TxBodyValidator().Validate(b);
        vc::ensure("nothing-created-and-spent", i >= ins.size() || j >= outs.size() || ins[i].GetCommitment() != outs[j].GetCommitment());
        vc::cover("accepted");
    } catch (const BadDataException& e) {
    }
}
VC_CONTRACT(cut_through_body);
}
