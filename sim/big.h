#pragma once
#include "sim.h"
namespace big { void gen(Rng &r, Plan &p); void exec(const Plan &p, bool reclaim); std::string describe(); }
