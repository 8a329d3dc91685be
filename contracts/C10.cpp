// vc-src: stubs/global.cpp src/PoW/DifficultyCalculator.cpp src/PoW/DifficultyLoader.cpp src/Core/Models/ProofOfWork.cpp src/Core/Models/BlockHeader.cpp
// vc-link: src/Core/Models/FullBlock.cpp
#include "mockdb.h"
#include "vcg.h"
#include <Consensus.h>
#include <PoW/DifficultyCalculator.h>
#include <PoW/DifficultyLoader.h>

namespace C10 {

static uint64_t umin(uint64_t a, uint64_t b) { return b < a ? b : a; }
static uint64_t umax(uint64_t a, uint64_t b) { return a < b ? b : a; }

// the header whose difficulty is asked for: its parent is at depth 0
static BlockHeader child(uint16_t version, uint64_t height)
{
    return BlockHeader(version, height, 0, depth_hash(0), Hash(), Hash(), Hash(), Hash(), BlindingFactor(), 0, 0, 0, 0, 0, ProofOfWork(29, std::vector<uint64_t>(), Hash()));
}

void damp(uint64_t actual, uint64_t goal, uint64_t factor)
{
    vc::require(factor != 0);
    vc::ensure("damped", Consensus::Damp(actual, goal, factor) == (actual + (factor - 1) * goal) / factor);
}
VC_CONTRACT(damp);

void clamp(uint64_t actual, uint64_t goal, uint64_t factor)
{
    vc::require(factor != 0 && goal < (1ull << 32) && factor < (1ull << 31));
    uint64_t c = Consensus::Clamp(actual, goal, factor);
    uint64_t lo = goal / factor, hi = goal * factor;
    vc::ensure("clamped", c == (actual > hi ? (hi < lo ? lo : hi) : actual < lo ? lo : actual));
}
VC_CONTRACT(clamp);

void secondary_ratio(uint64_t height)
{
    uint64_t r = Consensus::SecondaryPOWRatio(height);
    vc::ensure("start", height >= 11648 || r == 90);
    vc::ensure("linear", height >= 90ull * 11648 || r == 90 - height / 11648);
    vc::ensure("ends", height < 90ull * 11648 || r == 0);
}
VC_CONTRACT(secondary_ratio);

void graph_weight(uint64_t height, uint8_t edge_bits)
{
    vc::require(edge_bits >= 24 && edge_bits <= 63);
    uint64_t e = edge_bits;
    if (edge_bits == 31 && height >= 524160) e = 31 - umin(31, 1 + (height - 524160) / 10080);
    vc::ensure("weight", Consensus::GraphWeight(height, edge_bits) == (2ull << (edge_bits - 24)) * e);
    vc::ensure("scaling", Consensus::ScalingDifficulty(edge_bits) == (2ull << (edge_bits - 24)) * edge_bits);
}
VC_CONTRACT(graph_weight);

// weighted-target average once the fourth fork is active: last block's difficulty and duration only
void wtema(uint8_t env, uint16_t version, uint64_t height, std::vector<Sample> chain)
{
    vc::require(env < 3 && version >= 5);
    vcg::env = (Environment)env;
    auto db = std::make_shared<SampleChain>();
    db->s = chain;
    bool failed = false;
    HeaderInfo next(0, 0, 0, false);
    try { next = DifficultyCalculator(db).CalculateNextDifficulty(child(version, height)); } catch (const std::runtime_error&) { failed = true; }
    vc::ensure("needs-two-blocks", failed == (chain.size() < 2));
    if (!failed) {
        uint64_t block_time = (uint64_t)(chain[0].timestamp - chain[1].timestamp);
        uint64_t last = chain[0].total - chain[1].total;
        uint64_t floor = env == 0 ? 16384 : 1856;
        vc::require(block_time < (1ull << 62));
        vc::ensure("difficulty", next.GetDifficulty() == umax(floor, last * 14400 / (14340 + block_time)));
        vc::ensure("minimum", next.GetDifficulty() >= floor);
        vc::ensure("scaling", next.GetSecondaryScaling() == 0);
    }
}
VC_CONTRACT(wtema);

// damped and clamped moving average over the last 60 blocks, padded with simulated blocks while the chain is shorter
template <size_t N> static void dma(uint16_t version, uint64_t height, const std::array<Sample, N>& newest)
{
    vc::require(version < 5);
    auto db = std::make_shared<SampleChain>();
    for (size_t i = 0; i < N; i++) db->s.push_back(newest[i]);
    HeaderInfo next = DifficultyCalculator(db).CalculateNextDifficulty(child(version, height));

    const size_t W = 61;
    uint64_t ts[W], diff[W], scale[W], sec[W];
    size_t n = N < W ? N : W;
    for (size_t i = 0; i < n; i++) {
        ts[i] = (uint64_t)newest[i].timestamp;
        diff[i] = i + 1 < N ? newest[i].total - newest[i + 1].total : newest[i].total;
        scale[i] = newest[i].scaling;
        sec[i] = newest[i].edge_bits == 29 ? 1 : 0;
    }
    uint64_t step = n > 1 ? ts[0] - ts[1] : 60;
    for (size_t i = n; i < W; i++) {
        ts[i] = ts[i - 1] - umin(ts[i - 1], step);
        diff[i] = diff[0];
        scale[i] = 1856;
        sec[i] = 1;
    }
    uint64_t diff_sum = 0, scale_sum = 0, secondary = 0;
    for (size_t i = 0; i < 60; i++) { diff_sum += diff[i]; scale_sum += scale[i]; secondary += sec[i]; }

    uint64_t damped = (ts[0] - ts[60] + 2 * 3600) / 3;
    uint64_t adjusted = umax(1800, umin(7200, damped));
    vc::ensure("difficulty", next.GetDifficulty() == umax(3, diff_sum * 60 / adjusted));

    uint64_t pct = 90 - umin(90, height / 11648);
    uint64_t goal = 60 * pct;
    uint64_t count = (secondary * 100 + 12 * goal) / 13;
    uint64_t adj = umax(goal / 2, umin(goal * 2, count));
    vc::ensure("scaling", next.GetSecondaryScaling() == (uint32_t)umax(13, scale_sum * pct / umax(1, adj)));
}
void dma1(uint16_t version, uint64_t height, std::array<Sample, 1> newest) { dma<1>(version, height, newest); }
VC_CONTRACT(dma1);
void dma2(uint16_t version, uint64_t height, std::array<Sample, 2> newest) { dma<2>(version, height, newest); }
VC_CONTRACT(dma2);
void dma3(uint16_t version, uint64_t height, std::array<Sample, 3> newest) { dma<3>(version, height, newest); }
VC_CONTRACT(dma3);
void dma4(uint16_t version, uint64_t height, std::array<Sample, 4> newest) { dma<4>(version, height, newest); }
VC_CONTRACT(dma4);
void dma5(uint16_t version, uint64_t height, std::array<Sample, 5> newest) { dma<5>(version, height, newest); }
VC_CONTRACT(dma5);
void dma6(uint16_t version, uint64_t height, std::array<Sample, 6> newest) { dma<6>(version, height, newest); }
VC_CONTRACT(dma6);
void dma7(uint16_t version, uint64_t height, std::array<Sample, 7> newest) { dma<7>(version, height, newest); }
VC_CONTRACT(dma7);
void dma8(uint16_t version, uint64_t height, std::array<Sample, 8> newest) { dma<8>(version, height, newest); }
VC_CONTRACT(dma8);
void dma9(uint16_t version, uint64_t height, std::array<Sample, 9> newest) { dma<9>(version, height, newest); }
VC_CONTRACT(dma9);
void dma10(uint16_t version, uint64_t height, std::array<Sample, 10> newest) { dma<10>(version, height, newest); }
VC_CONTRACT(dma10);
void dma11(uint16_t version, uint64_t height, std::array<Sample, 11> newest) { dma<11>(version, height, newest); }
VC_CONTRACT(dma11);
void dma12(uint16_t version, uint64_t height, std::array<Sample, 12> newest) { dma<12>(version, height, newest); }
VC_CONTRACT(dma12);
void dma13(uint16_t version, uint64_t height, std::array<Sample, 13> newest) { dma<13>(version, height, newest); }
VC_CONTRACT(dma13);
void dma14(uint16_t version, uint64_t height, std::array<Sample, 14> newest) { dma<14>(version, height, newest); }
VC_CONTRACT(dma14);
void dma15(uint16_t version, uint64_t height, std::array<Sample, 15> newest) { dma<15>(version, height, newest); }
VC_CONTRACT(dma15);
void dma16(uint16_t version, uint64_t height, std::array<Sample, 16> newest) { dma<16>(version, height, newest); }
VC_CONTRACT(dma16);
void dma17(uint16_t version, uint64_t height, std::array<Sample, 17> newest) { dma<17>(version, height, newest); }
VC_CONTRACT(dma17);
void dma18(uint16_t version, uint64_t height, std::array<Sample, 18> newest) { dma<18>(version, height, newest); }
VC_CONTRACT(dma18);
void dma19(uint16_t version, uint64_t height, std::array<Sample, 19> newest) { dma<19>(version, height, newest); }
VC_CONTRACT(dma19);
void dma20(uint16_t version, uint64_t height, std::array<Sample, 20> newest) { dma<20>(version, height, newest); }
VC_CONTRACT(dma20);
void dma21(uint16_t version, uint64_t height, std::array<Sample, 21> newest) { dma<21>(version, height, newest); }
VC_CONTRACT(dma21);
void dma22(uint16_t version, uint64_t height, std::array<Sample, 22> newest) { dma<22>(version, height, newest); }
VC_CONTRACT(dma22);
void dma23(uint16_t version, uint64_t height, std::array<Sample, 23> newest) { dma<23>(version, height, newest); }
VC_CONTRACT(dma23);
void dma24(uint16_t version, uint64_t height, std::array<Sample, 24> newest) { dma<24>(version, height, newest); }
VC_CONTRACT(dma24);
void dma25(uint16_t version, uint64_t height, std::array<Sample, 25> newest) { dma<25>(version, height, newest); }
VC_CONTRACT(dma25);
void dma26(uint16_t version, uint64_t height, std::array<Sample, 26> newest) { dma<26>(version, height, newest); }
VC_CONTRACT(dma26);
void dma27(uint16_t version, uint64_t height, std::array<Sample, 27> newest) { dma<27>(version, height, newest); }
VC_CONTRACT(dma27);
void dma28(uint16_t version, uint64_t height, std::array<Sample, 28> newest) { dma<28>(version, height, newest); }
VC_CONTRACT(dma28);
void dma29(uint16_t version, uint64_t height, std::array<Sample, 29> newest) { dma<29>(version, height, newest); }
VC_CONTRACT(dma29);
void dma30(uint16_t version, uint64_t height, std::array<Sample, 30> newest) { dma<30>(version, height, newest); }
VC_CONTRACT(dma30);
void dma31(uint16_t version, uint64_t height, std::array<Sample, 31> newest) { dma<31>(version, height, newest); }
VC_CONTRACT(dma31);
void dma32(uint16_t version, uint64_t height, std::array<Sample, 32> newest) { dma<32>(version, height, newest); }
VC_CONTRACT(dma32);
void dma33(uint16_t version, uint64_t height, std::array<Sample, 33> newest) { dma<33>(version, height, newest); }
VC_CONTRACT(dma33);
void dma34(uint16_t version, uint64_t height, std::array<Sample, 34> newest) { dma<34>(version, height, newest); }
VC_CONTRACT(dma34);
void dma35(uint16_t version, uint64_t height, std::array<Sample, 35> newest) { dma<35>(version, height, newest); }
VC_CONTRACT(dma35);
void dma36(uint16_t version, uint64_t height, std::array<Sample, 36> newest) { dma<36>(version, height, newest); }
VC_CONTRACT(dma36);
void dma37(uint16_t version, uint64_t height, std::array<Sample, 37> newest) { dma<37>(version, height, newest); }
VC_CONTRACT(dma37);
void dma38(uint16_t version, uint64_t height, std::array<Sample, 38> newest) { dma<38>(version, height, newest); }
VC_CONTRACT(dma38);
void dma39(uint16_t version, uint64_t height, std::array<Sample, 39> newest) { dma<39>(version, height, newest); }
VC_CONTRACT(dma39);
void dma40(uint16_t version, uint64_t height, std::array<Sample, 40> newest) { dma<40>(version, height, newest); }
VC_CONTRACT(dma40);
void dma41(uint16_t version, uint64_t height, std::array<Sample, 41> newest) { dma<41>(version, height, newest); }
VC_CONTRACT(dma41);
void dma42(uint16_t version, uint64_t height, std::array<Sample, 42> newest) { dma<42>(version, height, newest); }
VC_CONTRACT(dma42);
void dma43(uint16_t version, uint64_t height, std::array<Sample, 43> newest) { dma<43>(version, height, newest); }
VC_CONTRACT(dma43);
void dma44(uint16_t version, uint64_t height, std::array<Sample, 44> newest) { dma<44>(version, height, newest); }
VC_CONTRACT(dma44);
void dma45(uint16_t version, uint64_t height, std::array<Sample, 45> newest) { dma<45>(version, height, newest); }
VC_CONTRACT(dma45);
void dma46(uint16_t version, uint64_t height, std::array<Sample, 46> newest) { dma<46>(version, height, newest); }
VC_CONTRACT(dma46);
void dma47(uint16_t version, uint64_t height, std::array<Sample, 47> newest) { dma<47>(version, height, newest); }
VC_CONTRACT(dma47);
void dma48(uint16_t version, uint64_t height, std::array<Sample, 48> newest) { dma<48>(version, height, newest); }
VC_CONTRACT(dma48);
void dma49(uint16_t version, uint64_t height, std::array<Sample, 49> newest) { dma<49>(version, height, newest); }
VC_CONTRACT(dma49);
void dma50(uint16_t version, uint64_t height, std::array<Sample, 50> newest) { dma<50>(version, height, newest); }
VC_CONTRACT(dma50);
void dma51(uint16_t version, uint64_t height, std::array<Sample, 51> newest) { dma<51>(version, height, newest); }
VC_CONTRACT(dma51);
void dma52(uint16_t version, uint64_t height, std::array<Sample, 52> newest) { dma<52>(version, height, newest); }
VC_CONTRACT(dma52);
void dma53(uint16_t version, uint64_t height, std::array<Sample, 53> newest) { dma<53>(version, height, newest); }
VC_CONTRACT(dma53);
void dma54(uint16_t version, uint64_t height, std::array<Sample, 54> newest) { dma<54>(version, height, newest); }
VC_CONTRACT(dma54);
void dma55(uint16_t version, uint64_t height, std::array<Sample, 55> newest) { dma<55>(version, height, newest); }
VC_CONTRACT(dma55);
void dma56(uint16_t version, uint64_t height, std::array<Sample, 56> newest) { dma<56>(version, height, newest); }
VC_CONTRACT(dma56);
void dma57(uint16_t version, uint64_t height, std::array<Sample, 57> newest) { dma<57>(version, height, newest); }
VC_CONTRACT(dma57);
void dma58(uint16_t version, uint64_t height, std::array<Sample, 58> newest) { dma<58>(version, height, newest); }
VC_CONTRACT(dma58);
void dma59(uint16_t version, uint64_t height, std::array<Sample, 59> newest) { dma<59>(version, height, newest); }
VC_CONTRACT(dma59);
void dma60(uint16_t version, uint64_t height, std::array<Sample, 60> newest) { dma<60>(version, height, newest); }
VC_CONTRACT(dma60);
void dma61(uint16_t version, uint64_t height, std::array<Sample, 61> newest) { dma<61>(version, height, newest); }
VC_CONTRACT(dma61);
void dma62(uint16_t version, uint64_t height, std::array<Sample, 62> newest) { dma<62>(version, height, newest); }
VC_CONTRACT(dma62);
void dma63(uint16_t version, uint64_t height, std::array<Sample, 63> newest) { dma<63>(version, height, newest); }
VC_CONTRACT(dma63);

}
