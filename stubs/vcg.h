#pragma once
#include <Core/Enums/Environment.h>
#include <Core/Global.h>
class Config;
// the process-wide context, set by a contract
namespace vcg {
extern Environment env;
extern Config* config;
extern int64_t now_ns;   // the system clock (stubs/clock.cpp), nanoseconds
#ifdef VC_CONCRETE
extern std::shared_ptr<const ICoinView> coins;
#endif
}
