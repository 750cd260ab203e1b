// C16: the complex type and the aligned array of the public header, in several compilations of it.
#include "core.h"
#include "cx.h"
#include <algorithm>
#include <new>
CxVar* cx_vars = nullptr;
static bool usable(const CxVar& v) { std::string c = v.cpu; if (c == "avx") return __builtin_cpu_supports("avx"); if (c == "avx2fma") return __builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma"); if (c == "avx512f") return __builtin_cpu_supports("avx512f"); return true; }
static CxVar* find_var(const std::string& n) { for (CxVar* v = cx_vars; v; v = v->next) if (n == v->name) return v; return nullptr; }
static double operand(Rng& g, int cls)
{
    switch (cls) {
    case 0: return g.sym();
    case 1: return ldexp(g.sym(), (int)g.range(-200, 200));
    case 2: return (double)g.range(-9, 9);
    case 3: return g.pick({0, 0, 1, -1}) * (g.chance(0.5) ? 1.0 : -1.0);
    default: return ldexp(g.chance(0.5) ? 1.0 : -1.0, (int)g.range(-60, 60));
    }
}
// cx v= op= seed= lo= hi=
static void b_cx(const Case& c)
{
    CxVar* v = find_var(c.get("v")); if (!v || !usable(*v)) return;
    std::string on = c.get("op"); uint64_t seed = c.u64("seed", 1);
    for (int k = 0; k < v->nops; k++) if (on == v->ops[k].name) {
        const CxOp& op = v->ops[k];
        for (long i = c.num("lo"); i < c.num("hi"); i++) {
            Case s(c); s.set("lo", i).set("hi", i + 1); std::string id = s.str(); sub_begin(id);
            Rng g(seed * 7919 + hash64(on.data(), on.size()) + (uint64_t)i * 1000003);
            double in[6]; int cls = (int)(i % 5);
            bool div = on == "div" || on == "rdiv", sdiv = on == "diveqd" || on == "scale" || on == "selfdiv";
            for (int q = 0; q < 6; q++) in[q] = operand(g, g.chance(0.15) ? (int)g.below(5) : cls);
            if (g.chance(0.1)) { in[2] = in[0]; in[3] = in[1]; }
            if (div && in[2] == 0 && in[3] == 0) in[3] = 1;                     // a divisor
            if (sdiv) { if (in[2] == 0) in[2] = -3; if (on == "selfdiv") { if (in[0] == 0) in[0] = 2; if (in[1] == 0) in[1] = -5; } }
            if (on == "arg" && in[0] == 0 && in[1] == 0) in[0] = 1;
            double got[16]; long double want[16], tol[8]; int n = 0;
            const char* side = op.run(in, got, want, tol, &n);
            std::string args; for (int q = 0; q < op.nin; q++) args += fmt(" %.17g", in[q]);
            bool bad = false;
            for (int q = 0; q < n && !side && !bad; q += 2) {
                long double e = hypotl(got[q] - want[q], got[q + 1] - want[q + 1]);
                if (!(e <= tol[q / 2])) { bad = true; sub_fail(id, fmt("%s of%s: result %d is (%.17g, %.17g), expected (%.17g, %.17g)", on.c_str(), args.c_str(), q / 2, got[q], got[q + 1], (double)want[q], (double)want[q + 1])); }
                if (tol[q / 2] > 0) note_max("err/tol " + on, (double)(e / tol[q / 2]));
            }
            if (side) sub_fail(id, side);
            bool nt = false; for (int q = 0; q < op.nin; q++) nt |= in[q] != 0;
            sub_done(id, nt); tally("op " + on); tally(std::string("variant ") + v->name);
            if (sub_enough()) return;
        }
    }
}
static RegB rb1("cx", b_cx);
// sa v= mode=E|S h=steps:  n<slot>:<type>:<len> construct with length, e<slot>:<type> construct empty, s<slot>:<len> setup, x<slot> destroy, d<slot> delete, f<slot>:<len> setup with a failing allocation, F<slot>:<type>:<len> failing construction
static void b_sa(const Case& c)
{
    CxVar* v = find_var(c.get("v")); if (!v || !usable(*v)) return;
    std::string id = c.str(); sub_begin(id);
    const int NS = 5; struct Slot { CxArr* a = nullptr; long n = -1; int tag = 0; } s[NS];
    int step = 0; bool any = false;
    va_clear_corruption(); int mode = c.get("mode") == "S" ? AM_START : AM_END; va_mode(mode); AllocStats a0 = va_stats();
    auto val = [&](const Slot& z, long i) { return (int)((z.tag * 31 + i * 7) % 97); };
    auto fail = [&](const std::string& w) { sub_fail(id, fmt("step %d: ", step) + w); };
    bool stop = false;
    for (auto& st : split(c.get("h"), ';')) {
        if (st.size() < 2 || stop) continue; step++;
        int k = st[1] - '0'; if (k < 0 || k >= NS) continue;
        auto p = split(st, ':'); Slot& z = s[k]; char o = st[0];
        long a1 = p.size() > 1 ? atol(p[1].c_str()) : 0, a2 = p.size() > 2 ? atol(p[2].c_str()) : 0;
        auto filled = [&](long n) {
            z.n = n; z.tag = step; void* q = z.a->ptr();
            if (!q) { if (n > 0) { fail("no storage"); stop = true; } return; }
            if ((uintptr_t)q % v->align) { fail(fmt("storage of %ld elements is not aligned to %zu bytes", n, v->align)); stop = true; }
            for (long i = 0; i < n; i++) z.a->put((int)i, val(z, i));
            any |= n > 0; };
        try {
            if (o == 'n' || o == 'e') { delete z.a; z.a = nullptr; z.n = -1; z.a = v->make((int)a1, (int)a2, o == 'n'); if (o == 'n') filled(a2); }
            else if (o == 's' && z.a) { z.n = -1; z.a->setup((int)a1); filled(a1); }
            else if (o == 'x' && z.a) { z.a->destroy(); z.n = -1; if (z.a->ptr()) { fail("storage pointer kept after destroy"); stop = true; } }
            else if (o == 'd') { delete z.a; z.a = nullptr; z.n = -1; }
            else if (o == 'f' && z.a) {
                z.n = -1; bool threw = false; long f0 = va_stats().failed; va_fail(0, false);
                try { z.a->setup((int)a1); } catch (std::bad_alloc&) { threw = true; }
                bool hit = va_stats().failed > f0; va_fail_off();
                if (hit) tally("failed setup");
                // an implementation that needed no memory has simply succeeded
                if (hit && !threw) { fail("setup did not throw although its allocation failed"); stop = true; }
                else if (!hit && threw) { fail("setup threw although no allocation failed"); stop = true; }
                else if (!threw) filled(a1);
            }
        } catch (std::exception& e) { va_fail_off(); fail(std::string("exception: ") + e.what()); stop = true; }
        for (int q = 0; q < NS && !stop; q++) if (s[q].a && s[q].n > 0) for (long i = 0; i < s[q].n; i++) if (s[q].a->get((int)i) != val(s[q], i)) { fail(fmt("element %ld of array %d changed", i, q)); stop = true; break; }
        if (va_corruption() && !stop) { fail(va_corruption()); stop = true; }
    }
    for (auto& z : s) { delete z.a; z.a = nullptr; }
    AllocStats a1 = va_stats();
    if (!stop && va_corruption()) fail(va_corruption());
    else if (!stop && (a1.live_blocks != a0.live_blocks || a1.live_bytes != a0.live_bytes)) fail(fmt("%ld blocks, %ld bytes still allocated after all arrays are gone", a1.live_blocks - a0.live_blocks, a1.live_bytes - a0.live_bytes));
    va_clear_corruption(); va_reset(); va_mode(AM_PASS);
    sub_done(id, any); tally("array histories"); tally(std::string("array variant ") + v->name);
}
static RegB rb2("sa", b_sa);
// sabig v= type= n= : far elements of an array whose size in bytes does not fit 32 bits
static void b_sabig(const Case& c)
{
    CxVar* v = find_var(c.get("v")); if (!v || !usable(*v)) return;
    std::string id = c.str(); sub_begin(id); va_mode(AM_PASS);
    long n = c.num("n"); CxArr* a = v->make((int)c.num("type"), 16, c.num("late") != 0);
    try {
        if (c.num("late")) a->setup((int)n); else { delete a; a = nullptr; a = v->make((int)c.num("type"), (int)n, true); }
        long at[] = {0, n / 4, n / 2, n - n / 4, n - 1}; int k = 1;
        for (long i : at) a->put((int)i, k++);
        k = 1; for (long i : at) if (a->get((int)i) != k++) { sub_fail(id, fmt("element %ld of %ld does not keep its value", i, n)); break; }
    } catch (std::bad_alloc&) { tally("no memory for a big array"); }
    delete a; sub_done(id, true); tally("array beyond 2 GB");
}
static RegB rb3("sabig", b_sabig);
static RegP p16("C16", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 1009 + 16);
    long per = th ? 40000 : 6000;
    std::vector<CxVar*> vs; for (CxVar* v = cx_vars; v; v = v->next) vs.push_back(v);
    std::sort(vs.begin(), vs.end(), [](CxVar* a, CxVar* b) { return std::string(a->name) < b->name; });
    for (auto v : vs) for (int k = 0; k < v->nops; k++) for (long lo = 0; lo < per; lo += 500)
        out.push_back(fmt("cx v=%s op=%s seed=%llu lo=%ld hi=%ld", v->name, v->ops[k].name, (unsigned long long)seed, lo, lo + 500));
    for (auto v : vs) for (int i = 0; i < (th ? 12000 : 1500); i++) {
        std::string h; int len = (int)g.range(2, 14);
        auto ln = [&]() { return (long)(g.chance(0.1) ? g.pick({1, 2, 3}) : g.chance(0.15) ? g.range(2000, 40000) : g.range(1, 300)); };
        for (int s = 0; s < len; s++) {
            int k = (int)g.below(5); double r = g.unit();
            if (s < 2 || r < 0.25) h += fmt("n%d:%d:%ld;", k, (int)g.below(5), ln());
            else if (r < 0.35) h += fmt("e%d:%d;", k, (int)g.below(5));
            else if (r < 0.65) h += fmt("s%d:%ld;", k, ln());
            else if (r < 0.77) h += fmt("x%d;", k);
            else if (r < 0.87) h += fmt("d%d;", k);
            else h += fmt("f%d:%ld;", k, ln());
        }
        h.pop_back();
        out.push_back(fmt("sa v=%s mode=%s h=%s", v->name, i % 3 == 2 ? "S" : "E", h.c_str()));
    }
    for (auto v : vs) for (int late = 0; late < 2; late++) { out.push_back(fmt("sabig v=%s type=0 n=%ld late=%d", v->name, 1L << 28, late)); out.push_back(fmt("sabig v=%s type=1 n=%ld late=%d", v->name, (1L << 29) + 12345, late)); }
});
