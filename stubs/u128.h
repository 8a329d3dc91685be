// Contract of the repository's 128-bit division, over the compiler's own 128-bit arithmetic (proved in contracts/C11.cpp).
#pragma once
#include "vc.h"
#include <PoW/uint128.h>
namespace vcu {
typedef unsigned __int128 u128;
static u128 join(uint64_t hi, uint64_t lo) { return ((u128)hi << 64) | lo; }
static u128 of(const uint128_t& x) { return join(x.UPPER, x.LOWER); }
static u128 quo(u128 a, u128 b) { return a / b; }
static u128 rem(u128 a, u128 b) { return a % b; }
static uint128_t divide(const uint128_t& self, const uint128_t& b)
{
    if (of(b) == 0) throw std::domain_error("division by 0");
    u128 q = quo(of(self), of(b));
    return uint128_t((uint64_t)(q >> 64), (uint64_t)q);
}
}
