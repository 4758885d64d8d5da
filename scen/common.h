#pragma once
#include "sim.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <algorithm>
#define SIM_PROPERTY(id, real, stub) namespace sim { const char *PROPERTY = id; const char *REAL_COMPONENTS = real; const char *STUB_COMPONENTS = stub; }
namespace h {
// harness-side wait in simulated time, never interrupted by injected faults
inline void pause(int64_t ns)
{
	int64_t dl = sim::now() + ns;
	sim::block("harness.pause", [] { return false; }, dl);
}
inline void until(std::function<bool()> f) { sim::block("harness.until", f); }
template<class T> inline T pickOf(std::initializer_list<T> l) { return l.begin()[sim::choose((uint32_t)l.size())]; }
}
