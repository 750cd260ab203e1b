// A deterministic OpenMP runtime: the members of a team are fibers of one OS thread. Between
// two synchronisation points a fiber runs undisturbed; at every synchronisation point the next
// fiber is chosen by a seeded generator. Every order it produces is one a conforming runtime may produce.
#include "omp_rt.h"
#include "ref.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>

void (*vomp_hook)(int, int, void*, void*) = nullptr;
namespace {
inline void hook(int ev, int t, void* lo, void* hi) { if (vomp_hook) vomp_hook(ev, t, lo, hi); }
const int MAXT = 256;
const size_t STK = 1 << 20;
struct WS { bool used; long next, end, incr, chunk; int kind; void* copy; };
struct Fiber { ucontext_t ctx; int state; int wsn; int curws; int singles; }; // state 0 runnable 1 at barrier 2 done
struct Team {
    int n; Fiber f[MAXT]; ucontext_t main; int cur; void (*fn)(void*); void* data;
    int singles_seen; WS* ws; int nws, capws; Team* parent; int critical_owner;
};
struct Tls { int threads; uint64_t sched; Rng rng; Team* team; char* stacks[MAXT]; VompStats st; int nest;
    Tls() : threads(1), sched(0), rng(0), team(nullptr), nest(0) { memset(stacks, 0, sizeof stacks); st = VompStats{0, 0, 0}; }
    ~Tls() { for (auto p : stacks) if (p) munmap(p, STK + 4096); } };
thread_local Tls T;

void die(const char* m) { ssize_t r = write(2, m, strlen(m)); (void)r; abort(); }

void entry()
{
    Team* t = T.team;
    t->fn(t->data);
    t->f[t->cur].state = 2;
    swapcontext(&t->f[t->cur].ctx, &t->main);
    die("fiber resumed after end\n");
}
void yield(Team* t) { T.st.switches++; swapcontext(&t->f[t->cur].ctx, &t->main); }

int choose(Team* t)
{
    int cand[MAXT], c = 0;
    for (int i = 0; i < t->n; i++) if (t->f[i].state == 0) cand[c++] = i;
    if (!c) return -1;
    if (T.sched == 0) return cand[0];
    if (T.sched == 1) return cand[c - 1];
    return cand[T.rng.below(c)];
}
void run_team(void (*fn)(void*), void* data, int n, const WS* pre)
{
    Team tm;            // large, lives on the caller's stack
    Team* t = &tm;
    t->n = n; t->fn = fn; t->data = data; t->singles_seen = 0; t->ws = nullptr; t->nws = t->capws = 0; t->parent = T.team; t->critical_owner = -1;
    WS first;
    if (pre) { first = *pre; t->capws = 0; }
    T.team = t;
    T.st.regions++;
    auto addws = [&](const WS& w) {
        if (t->nws == t->capws) { t->capws = t->capws ? 2 * t->capws : 8; void* nw = mmap(nullptr, sizeof(WS) * t->capws + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (t->ws) memcpy(nw, t->ws, sizeof(WS) * t->nws); t->ws = (WS*)nw; }
        t->ws[t->nws++] = w; };
    if (pre) addws(first);
    for (int i = 0; i < n; i++) {
        Fiber& f = t->f[i];
        if (!T.stacks[i]) {
            char* p = (char*)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            mprotect(p, 4096, PROT_NONE);
            T.stacks[i] = p;
        }
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = T.stacks[i] + 4096; f.ctx.uc_stack.ss_size = STK; f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, entry, 0);
        f.state = 0; f.wsn = pre ? 1 : 0; f.curws = 0; f.singles = 0;
    }
    hook(1, 0, nullptr, nullptr);
    for (;;) {
        int c = choose(t);
        if (c < 0) {
            int at = 0, done = 0;
            for (int i = 0; i < n; i++) { at += t->f[i].state == 1; done += t->f[i].state == 2; }
            if (done == n) break;
            if (done && at) die("OMP-DEADLOCK: some team members ended while others wait at a barrier\n");
            T.st.barriers++; hook(1, 0, nullptr, nullptr);
            for (int i = 0; i < n; i++) t->f[i].state = 0;
            continue;
        }
        t->cur = c; hook(0, c, T.stacks[c], T.stacks[c] + STK + 4096);
        swapcontext(&t->main, &t->f[c].ctx);
    }
    T.team = t->parent; hook(1, 0, nullptr, nullptr);
}
void parallel(void (*fn)(void*), void* data, unsigned nt, const WS* pre)
{
    int n = nt ? (int)nt : T.threads;
    if (n > MAXT) n = MAXT;
    if (T.team && T.team->n > 1) n = 1;       // nested regions are serialised
    if (n < 1) n = 1;
    if (n == 1) {
        Team* save = T.team;
        static thread_local Team one;          // one member, run inline
        Team local_small; (void)local_small;
        one.n = 1; one.cur = 0; one.singles_seen = 0; one.nws = 0; one.ws = nullptr; one.capws = 0;
        one.f[0].wsn = 0; one.f[0].curws = 0; one.f[0].singles = 0; one.parent = save;
        WS w; if (pre) { w = *pre; one.ws = &w; one.nws = one.capws = 1; one.f[0].wsn = 1; }
        T.team = &one;
        fn(data);
        T.team = save;
    }
    else run_team(fn, data, n, pre);
}
WS* cur_ws(Team* t) { return &t->ws[t->f[t->cur].curws]; }
WS* enter_ws(Team* t, const WS& init)
{
    Fiber& f = t->f[t->cur];
    f.curws = f.wsn++;
    while (t->nws <= f.curws) {
        if (t->nws == t->capws) {
            int cap = t->capws ? 2 * t->capws : 8;
            WS* nw = (WS*)mmap(nullptr, sizeof(WS) * cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (t->ws) memcpy(nw, t->ws, sizeof(WS) * t->nws);
            t->ws = nw; t->capws = cap;
        }
        t->ws[t->nws++] = init;
    }
    return &t->ws[f.curws];
}
bool ws_next(Team* t, long* is, long* ie)
{
    if (t->n > 1) yield(t);
    WS* w = cur_ws(t);
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (left <= 0) return false;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 2) { long g = left / (2 * t->n); if (g > c) c = g; }
    if (w->kind == 0 && w->chunk <= 0) { c = (left + t->n - 1) / t->n; }
    if (c > left) c = left;
    *is = w->next; *ie = w->next + c * w->incr; w->next = *ie;
    return true;
}
Team* team_or_solo()
{
    static thread_local Team solo;
    if (T.team) return T.team;
    solo.n = 1; solo.cur = 0;
    return &solo;
}
}

void vomp_set(int threads, uint64_t sched) { T.threads = threads < 1 ? 1 : threads; T.sched = sched; T.rng = Rng(sched); }
bool vomp_is_fiber() { return true; }
VompStats vomp_stats() { return T.st; }

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { parallel(fn, data, nt, nullptr); }
void GOMP_barrier()
{
    Team* t = T.team;
    if (!t || t->n == 1) return;
    t->f[t->cur].state = 1;
    yield(t);
}
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
bool GOMP_single_start()
{
    Team* t = T.team;
    if (!t || t->n == 1) return true;
    yield(t);
    int k = ++t->f[t->cur].singles;
    if (k > t->singles_seen) { t->singles_seen = k; return true; }
    return false;
}
void* GOMP_single_copy_start()
{
    Team* t = T.team;
    if (!t || t->n == 1) return nullptr;
    yield(t);
    int k = ++t->f[t->cur].singles;
    if (k > t->singles_seen) { t->singles_seen = k; return nullptr; }
    GOMP_barrier();
    return t->ws ? t->ws[0].copy : nullptr;
}
void GOMP_single_copy_end(void* d) { Team* t = T.team; if (!t || t->n == 1) return; WS w; memset(&w, 0, sizeof w); if (!t->ws) enter_ws(t, w); t->ws[0].copy = d; GOMP_barrier(); }
static void lock() { Team* t = T.team; if (!t || t->n == 1) return; yield(t); while (t->critical_owner >= 0) yield(t); t->critical_owner = t->cur; hook(2, 0, nullptr, nullptr); }
static void unlock() { Team* t = T.team; if (!t || t->n == 1) return; hook(2, 0, nullptr, nullptr); t->critical_owner = -1; yield(t); }
void GOMP_critical_start() { lock(); }
void GOMP_critical_end() { unlock(); }
void GOMP_critical_name_start(void**) { lock(); }
void GOMP_critical_name_end(void**) { unlock(); }
void GOMP_atomic_start() { lock(); }
void GOMP_atomic_end() { unlock(); }
#define LOOP(name, k) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { Team* t = team_or_solo(); WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = i; w.chunk = c; w.kind = k; enter_ws(t, w); return ws_next(t, is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(team_or_solo(), is, ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = i; w.chunk = c; w.kind = k; parallel(fn, d, nt, &w); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { return GOMP_loop_dynamic_start(s, e, i, 1, is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(team_or_solo(), is, ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, s, e, i, 1, f); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_next() { long a, b; return ws_next(team_or_solo(), &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { Team* t = team_or_solo(); WS w; memset(&w, 0, sizeof w); w.next = 1; w.end = (long)n + 1; w.incr = 1; w.chunk = 1; w.kind = 1; enter_ws(t, w); return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { WS w; memset(&w, 0, sizeof w); w.next = 1; w.end = (long)n + 1; w.incr = 1; w.chunk = 1; w.kind = 1; parallel(fn, d, nt, &w); }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*)
{
    if (!cpy) { fn(data); return; }
    char* buf = (char*)alloca(sz + al);
    buf = (char*)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1));
    cpy(buf, data); fn(buf);
}
int omp_get_thread_num() { return T.team ? T.team->cur : 0; }
int omp_get_num_threads() { return T.team ? T.team->n : 1; }
int omp_get_max_threads() { return T.threads; }
void omp_set_num_threads(int n) { T.threads = n < 1 ? 1 : n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return T.team && T.team->n > 1; }
int omp_get_level() { int l = 0; for (Team* t = T.team; t; t = t->parent) l++; return l; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_thread_limit() { return MAXT; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
}
