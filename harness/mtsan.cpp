#include "mtsan.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstring>
#include <atomic>
#include <dlfcn.h>
#include <mutex>
namespace {
struct Page { uint32_t ep[1024]; uint64_t w[1024], r[1024]; };
const int L1 = 1 << 18, L2 = 1 << 18;
Page*** top = nullptr; uint32_t epoch = 1; volatile bool on = false, cnt_only = false; char rep[512];
MtStats st; std::atomic_flag lk = ATOMIC_FLAG_INIT;
thread_local int tid = -1, ign = 0; thread_local uintptr_t slo = 0, shi = 0;
thread_local uintptr_t cpage = ~(uintptr_t)0; thread_local Page* cp = nullptr;
void* mm(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) __builtin_trap(); return p; }
Page* page(uintptr_t a)
{
    uintptr_t k = a >> 12;
    if (k == cpage) return cp;
    if (!top) top = (Page***)mm(sizeof(void*) * L1);
    Page**& m = top[(k >> 18) & (L1 - 1)]; if (!m) m = (Page**)mm(sizeof(void*) * L2);
    Page*& p = m[k & (L2 - 1)]; if (!p) p = (Page*)mm(sizeof(Page));
    cpage = k; cp = p; return p;
}
const char* sym(void* pc, char* b, size_t n) { Dl_info d; if (dladdr(pc, &d) && d.dli_fbase) snprintf(b, n, "%s+%#lx", d.dli_sname ? d.dli_sname : "", (unsigned long)((char*)pc - (char*)d.dli_fbase)); else snprintf(b, n, "%p", pc); return b; }
void acc(uintptr_t a, size_t n, bool wr, void* pc)
{
    if (!on || tid < 0 || ign) return;
    if (a >= slo && a < shi) return;
    if (n < 4) return;                               // cells are 4 bytes; smaller neighbours would alias
    uint64_t me = 1ull << (tid & 63); uintptr_t e = (a + n) & ~(uintptr_t)3; a = (a + 3) & ~(uintptr_t)3;
    if (wr) st.writes++; else st.reads++;
    if (cnt_only) return;
    for (; a < e; a += 4) {
        Page* p = page(a); unsigned i = (a & 4095) >> 2;
        if (p->ep[i] != epoch) { p->ep[i] = epoch; p->w[i] = p->r[i] = 0; }
        uint64_t other = (p->w[i] | (wr ? p->r[i] : 0)) & ~me;
        if (!(p->w[i] & me) && !(p->r[i] & me) && (p->r[i] | p->w[i])) st.shared_cells++;
        if (other && !rep[0]) { char b[200]; snprintf(rep, sizeof rep, "unsynchronised %s of %zu bytes at %p by thread %d at %s, also %s by thread %d", wr ? "write" : "read", n, (void*)a, tid, sym(pc, b, sizeof b), (p->w[i] & ~me) ? "written" : "read", __builtin_ctzll(other)); }
        if (wr) p->w[i] |= me; else p->r[i] |= me;
    }
}
void bump() { if (tid >= 0 && !ign) epoch++; }     // not for the harness's own locks
}
void mt_start() { epoch++; rep[0] = 0; st = MtStats{0, 0, 0}; on = true; }
void mt_count_only(bool c) { cnt_only = c; }
void mt_stop() { on = false; epoch++; }
void mt_thread(int t, void* lo, void* hi) { tid = t; slo = (uintptr_t)lo; shi = (uintptr_t)hi; }
void mt_sync() { epoch++; }
void mt_ignore(int d) { ign += d; }
const char* mt_report() { return rep[0] ? rep : nullptr; }
MtStats mt_stats() { return st; }
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { acc((uintptr_t)p, n, false, PC); } void __tsan_write##n(void* p) { acc((uintptr_t)p, n, true, PC); } \
 void __tsan_unaligned_read##n(void* p) { acc((uintptr_t)p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { acc((uintptr_t)p, n, true, PC); } \
 void __tsan_volatile_read##n(void* p) { acc((uintptr_t)p, n, false, PC); } void __tsan_volatile_write##n(void* p) { acc((uintptr_t)p, n, true, PC); } \
 void __tsan_unaligned_volatile_read##n(void* p) { acc((uintptr_t)p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { acc((uintptr_t)p, n, true, PC); } \
 void __tsan_read_write##n(void* p) { acc((uintptr_t)p, n, false, PC); acc((uintptr_t)p, n, true, PC); } void __tsan_unaligned_read_write##n(void* p) { acc((uintptr_t)p, n, false, PC); acc((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { acc((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { acc((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { acc((uintptr_t)p, 8, false, PC); }
// atomic updates, locks and guarded initialisations are carried out and order everything before them
// (an over-approximation that can only hide races)
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T* a, int) { return __atomic_load_n(a, 5); } \
void __tsan_atomic##b##_store(volatile T* a, T v, int) { epoch++; __atomic_store_n(a, v, 5); } \
T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { epoch++; return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { epoch++; return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { epoch++; return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { epoch++; return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { epoch++; return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { epoch++; return __atomic_fetch_xor(a, v, 5); } \
T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { epoch++; return __atomic_fetch_nand(a, v, 5); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { epoch++; return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { epoch++; return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { epoch++; __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { epoch++; } void __tsan_atomic_signal_fence(int) {}
void __real___cxa_guard_release(void*); void __wrap___cxa_guard_release(void* g) { bump(); __real___cxa_guard_release(g); }
int __real_pthread_mutex_unlock(void*); int __wrap_pthread_mutex_unlock(void* m) { bump(); return __real_pthread_mutex_unlock(m); }
int __real_pthread_mutex_lock(void*); int __wrap_pthread_mutex_lock(void* m) { int r = __real_pthread_mutex_lock(m); bump(); return r; }
int __real_pthread_once(void*, void (*)()); int __wrap_pthread_once(void* o, void (*f)()) { int r = __real_pthread_once(o, f); bump(); return r; }
}
