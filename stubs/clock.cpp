// Stand-in for the system clock: the contract says what time it is.
#include "vcg.h"
#include <chrono>
namespace vcg { int64_t now_ns; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vcg::now_ns)); }
} } }
