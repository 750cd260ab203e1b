// Thread-count / schedule control, implemented by whichever OpenMP runtime is linked.
#pragma once
#include <cstdint>
#include <functional>
// team size and schedule seed for parallel regions started by the calling OS thread
void vomp_set(int threads, uint64_t sched);
// true when the deterministic fiber runtime is linked
bool vomp_is_fiber();
// number of parallel regions (team > 1) started since the last reset, and fiber switches
struct VompStats { uint64_t regions, barriers, switches; };
VompStats vomp_stats();
// called by the fiber runtime: ev 0 a team member with this stack is about to run, 1 a synchronisation point of the whole team
// (region start, barrier, region end; afterwards the starting thread runs), 2 a lock taken or released
extern void (*vomp_hook)(int ev, int tid, void* lo, void* hi);
// runs f in an OpenMP parallel region of the caller's own (libgomp only), with this many nested levels active
bool vomp_team(int n, int levels, const std::function<void(int)>& f);
