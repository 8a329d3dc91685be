// vc-src: src/PMMR/Common/Index.cpp src/PMMR/Common/MMRUtil.cpp
// vc-use: BitUtil::CountBitsSet C01::popcount8 count_bits
// vc-use: BitUtil::FillOnesToRight C01::fill fill_ones
// vc-opaque: C01::popcount pc_shift,pc_bit,pc_low,pc_le,pc_zero,pc_next,pc_setbit
// vc-opt(pc_setbit): split=["h", 0, 63]
// vc-opt(pc_next): split=["h", 0, 61]
// vc-opaque: Index::CalculateHeight height_of_node
// vc-opaque: C01::fill fill_ones,fill_covers
#include "vc.h"
#include <PMMR/Common/Index.h>
#include <PMMR/Common/LeafIndex.h>
#include <PMMR/Common/MMRUtil.h>
#include <Common/Util/BitUtil.h>

// Independent characterisation of the post-order layout: the node of height h whose rightmost leaf is leaf r
// (h at most the number of trailing one bits of r) is stored at position 2r - popcount(r) + h.
namespace C01 {

static uint64_t popcount(uint64_t x)
{
    x = x - ((x >> 1) & 0x5555555555555555ull);
    x = (x & 0x3333333333333333ull) + ((x >> 2) & 0x3333333333333333ull);
    x = (x + (x >> 4)) & 0x0f0f0f0f0f0f0f0full;
    x = x + (x >> 8);
    x = x + (x >> 16);
    x = x + (x >> 32);
    return x & 0x7f;
}
static uint8_t popcount8(uint64_t x) { return (uint8_t)popcount(x); }
static bool ones(uint64_t m) { return (m & (m + 1)) == 0; }
// smallest all-ones mask covering x
static uint64_t fill(uint64_t x)
{
    uint64_t m = 0;
    for (int i = 0; i < 64; i++) { if (m < x) m = 2 * m + 1; }
    return m;
}

void fill_ones(uint64_t x)
{
    vc::ensure("smallest-mask", BitUtil::FillOnesToRight(x) == fill(x));
}
VC_CONTRACT(fill_ones);

void fill_covers(uint64_t r, uint64_t p)
{
    uint64_t m = fill(p);
    vc::ensure("mask", ones(m) && p <= m);
    vc::ensure("least", p == 0 ? m == 0 : (m >> 1) < p);
    vc::ensure("covers", r > p || (r & m) == r);
}
VC_CONTRACT(fill_covers);

// ---- facts about popcount
void pc_bit(uint64_t r, uint64_t p)
{
    uint64_t q = p >> 1;
    vc::ensure("one-more-bit", !ones(p) || p == 0 || popcount(r & p) == popcount(r & q) + ((r & (p ^ q)) ? 1 : 0));
}
VC_CONTRACT(pc_bit);
void pc_low(uint64_t x, uint64_t h)
{
    vc::ensure("at-least-trailing-ones", h >= 64 || (x & ((1ull << h) - 1)) != (1ull << h) - 1 || popcount(x) >= h);
}
VC_CONTRACT(pc_low);
void pc_le(uint64_t x) { vc::ensure("at-most-value", popcount(x) <= x && popcount(x) <= 64); }
VC_CONTRACT(pc_le);
void pc_zero() { vc::ensure("zero", popcount(0) == 0); }
VC_CONTRACT(pc_zero);

void pc_shift(uint64_t x) { vc::ensure("shift", popcount(x) == (x & 1) + popcount(x >> 1)); }
VC_CONTRACT(pc_shift);

void count_bits(uint64_t x)
{
    pc_zero(); pc_le(x);
    vc::invariant([=](uint8_t count, uint64_t n) { pc_shift(n); pc_le(n); return count + popcount(n) == popcount(x) && count <= 64; });
    vc::ensure("popcount", BitUtil::CountBitsSet(x) == popcount8(x));
}
VC_CONTRACT(count_bits);

static bool node(uint64_t r, uint64_t h)   // h <= trailing ones of r
{
    if (h >= 62 || r >= (1ull << 62)) return false;
    uint64_t m = (1ull << h) - 1;
    return (r & m) == m;
}
static uint64_t pos(uint64_t r, uint64_t h) { return 2 * r - popcount(r) + h; }

// stripping the top perfect subtree of 2^k - 1 nodes
void strip(uint64_t r, uint64_t h, uint64_t p)
{
    uint64_t q = p >> 1;
    pc_bit(r, p); pc_low(r & p, h); pc_low(r & q, h); pc_le(r & q); pc_le(r & p);
    vc::ensure("strip", !node(r, h) || !ones(p) || p == 0 ||
        ((r & (p ^ q)) ? pos(r & p, h) == pos(r & q, h) + p && pos(r & p, h) >= p : pos(r & p, h) < p && (r & p) == (r & q)));
}
VC_CONTRACT(strip);

void height_of_node(uint64_t r, uint64_t h)
{
    vc::require(node(r, h));
    pc_le(r); pc_zero(); fill_covers(r, pos(r, h));
    vc::invariant([=](uint64_t left, uint64_t peak) { strip(r, h, peak); return ones(peak) && left == pos(r & peak, h); });
    Index i = Index::At(pos(r, h));
    vc::ensure("height", i.GetHeight() == h);
    vc::ensure("position", i.GetPosition() == pos(r, h));
}
VC_CONTRACT(height_of_node);

void leaf_index_of_leaf(uint64_t r)
{
    vc::require(r < (1ull << 62));
    pc_le(r); pc_zero(); fill_covers(r, pos(r, 0));
    vc::invariant([=](uint64_t leaf, uint64_t peak, uint64_t left) { strip(r, 0, peak); return ones(peak) && left == pos(r & peak, 0) && leaf == (r & ~peak); });
    vc::ensure("leaf-number", Index(pos(r, 0), 0).GetLeafIndex() == r);
}
VC_CONTRACT(leaf_index_of_leaf);

void leaf_position(uint64_t r)
{
    vc::require(r < (1ull << 62));
    pc_le(r);
    LeafIndex l = LeafIndex::At(r);
    vc::ensure("position", l.GetPosition() == pos(r, 0));
    vc::ensure("index", l.Get() == r);
    vc::ensure("next", LeafIndex::At(r).Next().Get() == r + 1);
}
VC_CONTRACT(leaf_position);

// positions of consecutive nodes: a perfect subtree is closed by its parent, otherwise the next leaf follows
void pc_next(uint64_t r, uint64_t h)
{
    uint64_t m = (1ull << h) - 1;
    vc::ensure("carry", h >= 62 || r >= (1ull << 62) || (r & m) != m || (r & (1ull << h)) || popcount(r + 1) + h == popcount(r) + 1);
}
VC_CONTRACT(pc_next);
void pc_setbit(uint64_t r, uint64_t h)
{
    vc::ensure("set", h >= 64 || (r & (1ull << h)) || popcount(r | (1ull << h)) == popcount(r) + 1);
}
VC_CONTRACT(pc_setbit);

void consecutive(uint64_t r, uint64_t h)
{
    vc::require(node(r, h) && h < 61);
    pc_next(r, h);
    if (r & (1ull << h)) vc::ensure("parent-follows-right-child", pos(r, h) + 1 == pos(r, h + 1) && node(r, h + 1));
    else vc::ensure("leaf-follows-complete-tree", pos(r, h) + 1 == pos(r + 1, 0));
}
VC_CONTRACT(consecutive);

// callers below use the contract of Index::CalculateHeight proved by height_of_node
void family(uint64_t r, uint64_t h)
{
    vc::require(node(r, h) && h < 61 && r < (1ull << 61));
    uint64_t bit = 1ull << h;
    pc_le(r); pc_low(r, h); pc_next(r, h); pc_setbit(r, h); pc_setbit(r & ~bit, h); pc_le(r | bit); pc_le(r & ~bit); pc_low(r + bit, h);
    consecutive(r, h);
    Index i(pos(r, h), h);
    if (r & bit) {
        height_of_node(r, h + 1);
        vc::ensure("right-child:parent", i.GetParent() == Index(pos(r, h + 1), h + 1));
        vc::ensure("right-child:sibling", i.GetSibling() == Index(pos(r - bit, h), h));
    } else {
        height_of_node(r + 1, 0);
        vc::ensure("left-child:parent", i.GetParent() == Index(pos(r + bit, h + 1), h + 1));
        vc::ensure("left-child:sibling", i.GetSibling() == Index(pos(r + bit, h), h));
    }
    if (h > 0) {
        uint64_t half = bit >> 1;
        pc_setbit(r & ~half, h - 1);
        vc::ensure("left-child", i.GetLeftChild() == Index(pos(r - half, h - 1), h - 1));
        vc::ensure("right-child", i.GetRightChild() == Index(pos(r, h - 1), h - 1));
    }
}
VC_CONTRACT(family);

}
