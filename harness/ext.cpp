// C21: non-finite data, and data at the ends of the double range.
#include "xf.h"
#include <algorithm>
#include <cmath>
typedef long double ld;
// Is the weight with which an input component enters an output component zero? Decided with integers.
// in/out are indices of doubles of the input and output arrays.
static bool weight_zero(char kind, bool inv, size_t n, size_t in, size_t out)
{
    if (kind == 'd') { // cos(pi k (2j+1) / 2n); the first coefficient's weight is one
        uint64_t k = inv ? in : out, j = inv ? out : in;
        return (uint64_t)(((unsigned __int128)k * (2 * j + 1)) % (2 * n)) == n;
    }
    bool ci = in_len(kind, inv, n) == 2 * n, co = out_len(kind, inv, n) == 2 * n;
    uint64_t j = ci ? in / 2 : in, k = co ? out / 2 : out; int pi = ci ? in & 1 : 0, po = co ? out & 1 : 0;
    uint64_t m = (uint64_t)(((unsigned __int128)j * k) % n);
    if (pi == po) return 4 * m == n || 4 * m == 3 * n;   // cosine
    return 2 * m == 0 || 2 * m == n;                      // sine
}
// ---------------------------------------------------------------- bundle "nf"
// kind n be= op= T= seed off: one non-finite component (for a spectrum of a real signal: both of its mirrored places) must
// reach every output component in which it has a weight, and be gone with the next transform
static void b_nf(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"), off = c.num("off") * 8; uint64_t seed = c.u64("seed", 1);
    auto ops = c.list("op"), bes = c.list("be"); std::string T = c.get("T", "1:0");
    auto tp = split(T, ':'); int th = atoi(tp[0].c_str()); uint64_t sc = tp.size() > 1 ? strtoull(tp[1].c_str(), 0, 10) : 0;
    va_mode(n <= (1u << 20) ? AM_POISON : AM_PASS);
    UBuf a(std::max(in_len(kind, false, n), in_len(kind, true, n)), off), b(kind == 'r' ? 2 * n : 0, off);
    int reps = (int)c.num("reps", 3);
    for (auto& be : bes) {
        vomp_set(th, sc); sub_begin(Case(c).set("be", be).set("op", ops[0]).str());
        Obj o; obj_create(o, kind, be, (long)n);
        for (auto& op : ops) {
            bool inv = op_inverse(op); size_t il = in_len(kind, inv, n), ol = out_len(kind, inv, n); Rng g(seed * 31 + inv);
            std::vector<double> x(il), y(ol), z(ol);
            for (auto& v : x) v = g.chance(0.2) ? 0 : g.sym();
            if (kind == 'r' && inv) { x[1] = 0; x[n + 1] = 0; for (size_t k = 1; 2 * k < n; k++) { x[2 * (n - k)] = x[2 * k]; x[2 * (n - k) + 1] = -x[2 * k + 1]; } }
            auto run = [&](const std::vector<double>& in, std::vector<double>& out) { vomp_set(th, sc); a.fill_garbage(seed | 1); if (kind == 'r') b.fill_garbage(seed | 1); memcpy((void*)a.p, in.data(), il * 8); obj_run(o, op, a.p, b.p); memcpy(out.data(), kind == 'r' ? b.p : a.p, ol * 8); };
            Case s(c); s.set("be", be).set("op", op); std::string id = s.str(); sub_begin(id);
            run(x, y); double nx = 0; for (double v : y) nx += v * v; nx = sqrt(nx);
            bool bad = false; size_t seen = 0;
            for (int r = 0; r < reps && !bad; r++) {
                size_t i = r == 0 ? g.below(il) : r == 1 ? il - 1 - g.below(std::min<size_t>(il, 4)) : g.below(std::min<size_t>(il, 6));
                if (kind == 'r' && inv && i / 2 > n / 2) i = 2 * (n - i / 2) + (i & 1);
                double v = g.pick({0, 1, 2}) == 0 ? NAN : g.chance(0.5) ? INFINITY : -INFINITY; if (g.chance(0.3)) v = NAN;
                std::vector<double> w(x); w[i] = v; if (kind == 'r' && inv && i / 2 > 0 && i / 2 < n / 2) w[2 * (n - i / 2) + (i & 1)] = (i & 1) ? -v : v;
                run(w, z);
                for (size_t k = 0; k < ol; k++) if (std::isfinite(z[k])) { if (!weight_zero(kind, inv, n, i, k)) { bad = true; sub_fail(id, fmt("input double %zu is %g, but output double %zu is %.17g", i, v, k, z[k])); break; } } else seen++;
                if (bad) break;
                run(x, z); ld e = 0; for (size_t k = 0; k < ol; k++) { ld d = (ld)z[k] - y[k]; e += d * d; }
                if (!(sqrtl(e) <= 2 * tol_loose(kind, n) * nx)) { bad = true; sub_fail(id, fmt("after a transform of data with %g at double %zu, a transform of finite data has relative error %.3g", v, i, (double)(sqrtl(e) / (nx > 0 ? nx : 1)))); }
            }
            if (!bad && va_corruption()) sub_fail(id, va_corruption());
            sub_done(id, n >= 2 && seen > 0); tally("non-finite data"); tally(fmt("nf %c %s", kind, inv ? "inverse" : "forward")); if (th > 1) tally("threads>1");
            if (sub_enough()) { obj_destroy(o); return; }
        }
        obj_destroy(o);
    }
}
static RegB rb_nf("nf", b_nf);
// ---------------------------------------------------------------- bundle "rng"
// kind n be= op= T= seed off e=list: data of magnitude 2^e; e=max the largest for which no sum of all elements (Bluestein: no
// element of the convolution, N^3 times as large) can overflow
static void b_rng(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"), off = c.num("off") * 8; uint64_t seed = c.u64("seed", 1); std::string sig = c.get("sig", "uni");
    auto ops = c.list("op"), bes = c.list("be"), es = c.list("e"); std::string T = c.get("T", "1:0");
    auto tp = split(T, ':'); int th = atoi(tp[0].c_str()); uint64_t sc = tp.size() > 1 ? strtoull(tp[1].c_str(), 0, 10) : 0;
    va_mode(n <= (1u << 20) ? AM_POISON : AM_PASS);
    UBuf a(std::max(in_len(kind, false, n), in_len(kind, true, n)), off), b(kind == 'r' ? 2 * n : 0, off);
    int lg = 0; while (((size_t)1 << lg) < n) lg++;
    for (int dir = 0; dir < 2; dir++) {
        std::vector<std::string> dops; for (auto& o : ops) if ((int)op_inverse(o) == dir) dops.push_back(o);
        if (dops.empty()) continue;
        const XRef& R = xref(kind, dir, n, sig, seed); size_t il = R.in.size(), ol = R.ref.size();
        double mx = 0; for (double v : R.in) mx = std::max(mx, fabs(v));
        int ex = 0; frexp(mx, &ex);
        for (auto& be : bes) {
            vomp_set(th, sc); sub_begin(Case(c).set("be", be).set("op", dops[0]).str());
            Obj o; obj_create(o, kind, be, (long)n);
            for (auto& op : dops) for (auto& e : es) {
                Case s(c); s.set("be", be).set("op", op).set("e", e); std::string id = s.str(); sub_begin(id);
                int sh = e == "max" ? 1023 - ex - (kind == 'b' ? 3 * lg + 7 : lg + 4) : atoi(e.c_str()) - ex;
                vomp_set(th, sc); a.fill_garbage(seed | 1); if (kind == 'r') b.fill_garbage(seed | 1);
                for (size_t i = 0; i < il; i++) a.p[i] = ldexp(R.in[i], sh);
                obj_run(o, op, a.p, b.p);
                const double* out = kind == 'r' ? b.p : a.p; ld is = ldexpl(1, -sh) / op_scale(op, n), err = 0;
                for (size_t i = 0; i < ol; i++) { ld d = out[i] * is - R.ref[i]; err += d * d; }
                err = sqrtl(err); size_t mp = max_prime(kind == 'r' || kind == 'd' ? std::max<size_t>(n / 2, 1) : n); if (kind == 'b') mp = 2;
                ld slack = ldexpl(8, -1074) * n * (lg + mp + 4) * (kind == 'b' ? 16.0L * n * n : 1) * sqrtl((ld)n) * is;
                ld lim = 2 * tol_loose(kind, n) * R.innorm + slack;
                if (!(err <= lim)) { size_t w = 0; ld worst = -1; for (size_t i = 0; i < ol; i++) { ld d = fabsl(out[i] * is - R.ref[i]); if (!(d <= worst)) { worst = d; w = i; if (d != d) break; } }
                    sub_fail(id, fmt("data scaled by 2^%d: relative error %.3g exceeds %.3g; output double %zu is %.17g, expected %.17Lg", sh, (double)(err / R.innorm), (double)(lim / R.innorm), w, out[w], R.ref[w] / is)); }
                else if (va_corruption()) sub_fail(id, va_corruption());
                bool vac = slack > 0.01L * R.innorm;
                sub_done(id, n >= 2 && !R.zero && !vac); tally(sh > 0 ? "data near overflow" : "data near underflow"); if (vac) tally("bound exceeds the data"); if (th > 1) tally("threads>1");
                if (sub_enough()) { obj_destroy(o); return; }
            }
            obj_destroy(o);
        }
    }
}
static RegB rb_rng("rng", b_rng);
