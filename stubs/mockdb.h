// A block database answering header look-ups from an arbitrary chain of samples: the header at depth i (0 = parent)
// is the one whose hash carries the number i.
#pragma once
#include "model.h"
#include <Database/BlockDb.h>
#include <Core/Models/FullBlock.h>
#include <Core/Models/BlockSums.h>
#include <Core/Models/OutputLocation.h>

static Hash depth_hash(uint64_t i)
{
    std::vector<uint8_t> b(32, 0);
    for (int k = 0; k < 8; k++) b[31 - k] = (uint8_t)(i >> (8 * k));
    return Hash(std::move(b));
}
static uint64_t hash_depth(const Hash& h)
{
    uint64_t i = 0;
    for (int k = 24; k < 32; k++) i = (i << 8) | h.data()[k];
    return i;
}
struct Sample {
    int64_t timestamp; uint64_t total; uint32_t scaling; uint8_t edge_bits;
    VC_FIELDS(timestamp, total, scaling, edge_bits);
};
class NoBlocks : public IBlockDB {
public:
    void Commit() final {}
    void Rollback() noexcept final {}
    uint8_t GetVersion() const final { return 0; }
    void SetVersion(const uint8_t) final {}
    void MigrateBlocks() final {}
    void Compact(const std::shared_ptr<const Chain>&) final {}
    void AddBlockHeader(BlockHeaderPtr) final {}
    void AddBlockHeaders(const std::vector<BlockHeaderPtr>&) final {}
    void AddBlock(const FullBlock&) final {}
    std::unique_ptr<FullBlock> GetBlock(const Hash&) const override { return nullptr; }
    void ClearBlocks() final {}
    void AddBlockSums(const Hash&, const BlockSums&) final {}
    std::unique_ptr<BlockSums> GetBlockSums(const Hash&) const final { return nullptr; }
    void ClearBlockSums() final {}
    void AddOutputPosition(const Commitment&, const OutputLocation&) final {}
    std::unique_ptr<OutputLocation> GetOutputPosition(const Commitment&) const override { return nullptr; }
    void RemoveOutputPositions(const std::vector<Commitment>&) final {}
    void ClearOutputPositions() final {}
    void AddSpentPositions(const Hash&, const std::vector<SpentOutput>&) final {}
    std::unordered_map<Commitment, OutputLocation> GetSpentPositions(const Hash&) const final { return {}; }
    void ClearSpentPositions() final {}
};
class SampleChain : public NoBlocks {
public:
    std::vector<Sample> s;
    BlockHeaderPtr GetBlockHeader(const Hash& hash) const final
    {
        uint64_t i = hash_depth(hash);
        if (i >= s.size()) return nullptr;
        return std::make_shared<BlockHeader>((uint16_t)0, (uint64_t)0, s[i].timestamp, depth_hash(i + 1), Hash(), Hash(), Hash(), Hash(), BlindingFactor(),
            (uint64_t)0, (uint64_t)0, s[i].total, s[i].scaling, (uint64_t)0, ProofOfWork(s[i].edge_bits, std::vector<uint64_t>(), Hash()));
    }
};
