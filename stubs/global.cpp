// Stand-in for the process-wide context (src/Core/Global.cpp): the configured network and settings, whatever they are.
#include "vcg.h"
namespace vcg { Environment env; Config* config; }
Environment Global::GetEnv() { return vcg::env; }
Config& Global::GetConfig() { return *vcg::config; }
