// C18 (stack): creating, using and destroying objects needs stack space that does not grow with the length. Everything runs
// on a painted stack of its own; the deepest byte touched is measured.
#include "xf.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <algorithm>
static ucontext_t u_main, u_work; static std::function<void()> u_fn;
static void u_entry() { u_fn(); swapcontext(&u_work, &u_main); }
static const size_t SZ = 64u << 20;
static char* u_stk()
{
    static char* p = nullptr;
    if (!p) { p = (char*)mmap(nullptr, SZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(p, 4096, PROT_NONE); p += 4096; }
    return p;
}
// bytes of stack used by f; pages never touched are skipped through mincore
static size_t depth_of(const std::function<void()>& f)
{
    char* p = u_stk(); static size_t dirty = SZ;
    if (dirty) madvise(p + SZ - dirty, dirty, MADV_DONTNEED);
    const size_t paint = 256 << 10; memset(p + SZ - paint, 0x5A, paint);
    getcontext(&u_work); u_work.uc_stack.ss_sp = p; u_work.uc_stack.ss_size = SZ; u_work.uc_link = nullptr; u_fn = f; makecontext(&u_work, u_entry, 0);
    swapcontext(&u_main, &u_work);
    std::vector<unsigned char> v(SZ / 4096); mincore(p, SZ, v.data()); size_t i = 0; while (i < v.size() && !(v[i] & 1)) i++;
    size_t low = i * 4096;                           // lowest page present
    while (low < SZ && (p[low] == 0 || p[low] == 0x5A)) low++;
    dirty = (SZ - i * 4096); return SZ - low;
}
static void b_stk(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); auto ops = c.list("op");
    va_mode(AM_PASS); vomp_set(1, 0);
    size_t na = std::max(in_len(kind, false, n), in_len(kind, true, n)); UBuf a(na, 0), b(kind == 'r' ? 2 * n : 0, 0);
    const size_t lim = 192 << 10;
    for (auto& be : c.list("be")) {
        Case s = c; s.set("be", be).set("op", "setup"); std::string id = s.str(); sub_begin(id); Obj o;
        size_t d = depth_of([&] { obj_create(o, kind, be, n); }); note_max("stack bytes, setup", d);
        if (d > lim) sub_fail(id, fmt("creating an object of length %zu used %zu bytes of stack (allowed %zu)", n, d, lim));
        sub_done(id, n >= 2);
        for (auto& op : ops) {
            s.set("op", op); id = s.str(); sub_begin(id); for (size_t i = 0; i < na; i++) a.p[i] = (double)((i * 2654435761u) % 1000) - 500;
            d = depth_of([&] { obj_run(o, op, a.p, b.p); }); note_max("stack bytes, transform", d);
            if (d > lim) sub_fail(id, fmt("%s of length %zu used %zu bytes of stack (allowed %zu)", op.c_str(), n, d, lim));
            sub_done(id, n >= 2); tally("stack use of a transform"); if (sub_enough()) break;
        }
        depth_of([&] { obj_destroy(o); });
    }
}
static RegB rb("stk", b_stk);
static RegP rp("C18stk", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 271 + 8);
    for (char k : std::string("crdb")) {
        auto& v = ops_of(k);
        auto add = [&](size_t n) { if ((k == 'r' || k == 'd') && (n & 1)) n++; if (k != 'b' && (double)n * max_prime(n) > 3e7) return;
            std::string o; for (auto& x : v) o += (o.empty() ? "" : ",") + x; if (n > 5000) o = v[g.below(v.size() / 2)] + "," + v[v.size() / 2 + g.below(v.size() / 2)];
            out.push_back(fmt("stk kind=%c n=%zu be=%s op=%s", k, n, n > (1u << 19) ? (g.below(2) ? "sse2" : "avx2") : "sse2,avx,avx2", o.c_str())); };
        for (int l = k == 'b' ? 18 : 22; l >= 0; l--) add((size_t)1 << l);
        for (int i = 0; i < (th ? 300 : 40); i++) { size_t n = 1; while (n < 2000 + g.below(300000)) n *= g.pick({2, 2, 3, 5, 7}); add(n); }
        for (int i = 0; i < (th ? 1000 : 120); i++) add(1 + g.below(6000));
    }
});
