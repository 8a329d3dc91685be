// vc-src: src/PoW/uint128.cpp
// vc-opaque: vcu::quo -
// vc-opaque: vcu::rem -
// vc-opt: loopmode={"uint128_t::bits": "unroll"}
#include "u128.h"
#include <utility>

// 128-bit arithmetic used for the work comparison, against the compiler's own
namespace C11 {
using namespace vcu;

static uint128_t make(uint64_t hi, uint64_t lo) { return uint128_t(hi, lo); }

void shift_left(uint64_t hi, uint64_t lo, uint8_t n)
{
    vc::ensure("shl", of(make(hi, lo) << n) == (n >= 128 ? (u128)0 : join(hi, lo) << n));
}
VC_CONTRACT(shift_left);
void shift_right(uint64_t hi, uint64_t lo, uint8_t n)
{
    vc::ensure("shr", of(make(hi, lo) >> n) == (n >= 128 ? (u128)0 : join(hi, lo) >> n));
}
VC_CONTRACT(shift_right);
void compare(uint64_t ah, uint64_t al, uint64_t bh, uint64_t bl)
{
    u128 a = join(ah, al), b = join(bh, bl);
    vc::ensure("less", (make(ah, al) < make(bh, bl)) == (a < b));
    vc::ensure("greater", (make(ah, al) > make(bh, bl)) == (a > b));
    vc::ensure("less-or-equal", (make(ah, al) <= make(bh, bl)) == (a <= b));
    vc::ensure("greater-or-equal", (make(ah, al) >= make(bh, bl)) == (a >= b));
    vc::ensure("equal", (make(ah, al) == make(bh, bl)) == (a == b));
    vc::ensure("different", (make(ah, al) != make(bh, bl)) == (a != b));
    vc::ensure("less-than-word", (make(ah, al) < bl) == (a < bl));
}
VC_CONTRACT(compare);
void add_sub(uint64_t ah, uint64_t al, uint64_t bh, uint64_t bl)
{
    u128 a = join(ah, al), b = join(bh, bl);
    vc::ensure("sum", of(make(ah, al) + make(bh, bl)) == (u128)(a + b));
    vc::ensure("difference", of(make(ah, al) - make(bh, bl)) == (u128)(a - b));
    uint128_t x = make(ah, al);
    x -= make(bh, bl);
    vc::ensure("subtracted", of(x) == (u128)(a - b));
    uint128_t y = make(ah, al);
    ++y;
    vc::ensure("incremented", of(y) == (u128)(a + 1));
}
VC_CONTRACT(add_sub);
static bool step(u128 a, u128 b, bool c)   // quotient and remainder of 2a+c by b, where 2a+c does not overflow
{
    if (b == 0 || (a >> 127) != 0) return true;
    u128 q = quo(a, b), r = rem(a, b), a2 = (a << 1) | (c ? 1 : 0), r2 = (r << 1) | (c ? 1 : 0);
    bool k = r2 >= b;
    return r < b && r <= a && quo(a2, b) == (u128)((q << 1) + (k ? 1 : 0)) && rem(a2, b) == (u128)(r2 - (k ? b : 0));
}
static bool edge(u128 a, u128 b)
{
    if (b == 0) return true;
    return (!(a < b) || (quo(a, b) == 0 && rem(a, b) == a)) && (b != 1 || (quo(a, b) == a && rem(a, b) == 0)) && (a != b || (quo(a, b) == 1 && rem(a, b) == 0));
}
static u128 top(u128 a, uint8_t x) { return x >= 128 ? (u128)0 : a >> x; }
void bits(uint64_t hi, uint64_t lo)
{
    u128 a = join(hi, lo);
    uint8_t n = make(hi, lo).bits();
    vc::ensure("length", n <= 128 && top(a, n) == 0);
    vc::ensure("tight", n == 0 || ((a >> (n - 1)) & 1) == 1);
}
VC_CONTRACT(bits);
void division(uint64_t ah, uint64_t al, uint64_t bh, uint64_t bl)
{
    u128 a = join(ah, al), b = join(bh, bl);
    vc::axiom("division-edge", edge(a, b) && edge(0, b));
    vc::invariant([&](uint8_t x, uint64_t first_UPPER, uint64_t first_LOWER, uint64_t second_UPPER, uint64_t second_LOWER) {
        u128 t = top(a, x);
        if (x > 0 && x <= 128) vc::axiom("division-step", step(t, b, ((a >> (x - 1)) & 1) != 0));
        return x <= 128 && join(first_UPPER, first_LOWER) == quo(t, b) && join(second_UPPER, second_LOWER) == rem(t, b);
    });
    bool refused = false;
    uint128_t q;
    try { q = make(ah, al) / make(bh, bl); } catch (const std::domain_error&) { refused = true; }
    vc::ensure("refused-iff-zero", refused == (b == 0));
    if (!refused) vc::ensure("quotient", of(q) == quo(a, b));
}
VC_CONTRACT(division);
}
