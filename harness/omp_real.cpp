#include "omp_rt.h"
#include <omp.h>
void vomp_set(int threads, uint64_t) { omp_set_dynamic(0); omp_set_num_threads(threads < 1 ? 1 : threads); }
bool vomp_is_fiber() { return false; }
VompStats vomp_stats() { return VompStats{0, 0, 0}; }
void (*vomp_hook)(int, int, void*, void*) = nullptr;
bool vomp_team(int n, int levels, const std::function<void(int)>& f)
{
    omp_set_dynamic(0); omp_set_max_active_levels(levels);
    #pragma omp parallel num_threads(n)
    f(omp_get_thread_num());
    omp_set_max_active_levels(1);
    return true;
}
