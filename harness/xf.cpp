#include "xf.h"
#include <sys/mman.h>
using namespace OTFFT;

OptimizationType be_type(const std::string& be)
{
#ifdef OTFFT_WITH_SSE2
    if (be == "sse2") return OptimizationType::OPTIMIZED_FFT_SSE2;
#endif
#ifdef OTFFT_WITH_AVX
    if (be == "avx") return OptimizationType::OPTIMIZED_FFT_AVX;
#endif
#ifdef OTFFT_WITH_AVX2
    if (be == "avx2") return OptimizationType::OPTIMIZED_FFT_AVX2;
#endif
    return OptimizationType::OPTIMIZED_FFT_AUTO;
}
void obj_create(Obj& o, char kind, const std::string& be, long n)
{
    auto t = be_type(be);
    obj_destroy(o);
    LibScope ls;
    switch (kind) {
    case 'c': o.c = Factory::createComplexFFT((int)n, t); break;
    case 'b': o.c = Factory::createBluesteinFFT((int)n, t); break;
    case 'r': o.r = Factory::createRealFFT((int)n, t); break;
    case 'd': o.d = Factory::createDCT((int)n, t); break;
    }
    o.kind = kind; o.n = n;
}
void obj_setup(Obj& o, long n)
{
    LibScope ls;
    if (o.c) o.c->setup((int)n); else if (o.r) o.r->setup((int)n); else if (o.d) o.d->setup((int)n);
    o.n = n;
}
void obj_destroy(Obj& o) { LibScope ls; o.c.reset(); o.r.reset(); o.d.reset(); o.n = 0; }
const std::vector<std::string>& ops_of(char kind)
{
    static const std::vector<std::string> a{"fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"}, d{"fwd", "fwd0", "fwdn", "inv", "inv0", "invn"};
    return kind == 'd' ? d : a;
}
bool op_inverse(const std::string& op) { return op[0] == 'i'; }
long double op_scale(const std::string& op, size_t n)
{
    if (op == "fwd" || op == "fwdn" || op == "invn") return 1.0L / n;
    if (op == "fwdu" || op == "invu") return 1.0L / sqrtl((long double)n);
    return 1.0L;
}
bool out_of_place(char kind) { return kind == 'r'; }
size_t in_len(char k, bool inv, size_t n) { return k == 'd' ? n : k == 'r' ? (inv ? 2 * n : n) : 2 * n; }
size_t out_len(char k, bool inv, size_t n) { return k == 'd' ? n : k == 'r' ? (inv ? n : 2 * n) : 2 * n; }

template <class O> static void go_c(O& o, const std::string& op, complex_t* x)
{
    if (op == "fwd") o.fwd(x); else if (op == "fwd0") o.fwd0(x); else if (op == "fwdu") o.fwdu(x); else if (op == "fwdn") o.fwdn(x);
    else if (op == "inv") o.inv(x); else if (op == "inv0") o.inv0(x); else if (op == "invu") o.invu(x); else if (op == "invn") o.invn(x);
}
void obj_run(const Obj& o, const std::string& op, double* in, double* out)
{
    LibScope ls;
    if (o.c) go_c(*o.c, op, (complex_t*)in);
    else if (o.r) {
        auto& f = *o.r; complex_t* cin = (complex_t*)in; complex_t* cout = (complex_t*)out;
        if (op == "fwd") f.fwd(in, cout); else if (op == "fwd0") f.fwd0(in, cout); else if (op == "fwdu") f.fwdu(in, cout); else if (op == "fwdn") f.fwdn(in, cout);
        else if (op == "inv") f.inv(cin, out); else if (op == "inv0") f.inv0(cin, out); else if (op == "invu") f.invu(cin, out); else if (op == "invn") f.invn(cin, out);
    }
    else if (o.d) {
        auto& f = *o.d;
        if (op == "fwd") f.fwd(in); else if (op == "fwd0") f.fwd0(in); else if (op == "fwdn") f.fwdn(in);
        else if (op == "inv") f.inv(in); else if (op == "inv0") f.inv0(in); else if (op == "invn") f.invn(in);
    }
}
size_t max_prime(size_t n) { size_t m = 1; for (size_t p = 2; p * p <= n; p++) while (n % p == 0) { m = p; n /= p; } return n > 1 ? (n > m ? n : m) : m; }
bool is_pow2(size_t n) { return n && !(n & (n - 1)); }

const std::vector<std::string>& sig_names()
{
    static const std::vector<std::string> v{"uni", "wide", "delta", "const", "alt", "tone", "sparse", "reonly", "imonly", "int", "big", "small", "ramp", "half", "zero", "spike"};
    return v;
}
// real sequence of m values; c: 0 first component, 1 second
static void gen_signal(const std::string& sig, uint64_t seed, size_t n, bool cplx, std::vector<double>& v)
{
    size_t w = cplx ? 2 : 1; v.assign(w * n, 0.0); Rng g(seed * 2654435761u + hash64(sig.data(), sig.size()) + n);
    auto put = [&](size_t i, double a, double b) { v[w * i] = a; if (cplx) v[w * i + 1] = b; };
    if (sig == "wide") for (size_t i = 0; i < w * n; i++) v[i] = ldexp(g.sym(), (int)g.range(-30, 30));
    else if (sig == "delta") put(g.below(n), 1 + g.unit(), g.sym());
    else if (sig == "const") { double a = g.sym() + 1.5, b = g.sym(); for (size_t i = 0; i < n; i++) put(i, a, b); }
    else if (sig == "alt") { double a = g.sym() + 1.5, b = g.sym(); for (size_t i = 0; i < n; i++) put(i, i & 1 ? -a : a, i & 1 ? -b : b); }
    else if (sig == "tone") { size_t f = g.below(n); for (size_t i = 0; i < n; i++) { long double th = 6.283185307179586476925286766559L * ((unsigned __int128)f * i % n) / n; put(i, (double)cosl(th), (double)sinl(th)); } }
    else if (sig == "sparse") for (int k = 0; k < 5; k++) put(g.below(n), g.sym(), g.sym());
    else if (sig == "reonly") for (size_t i = 0; i < n; i++) put(i, g.sym(), 0);
    else if (sig == "imonly") { if (cplx) for (size_t i = 0; i < n; i++) put(i, 0, g.sym()); else for (size_t i = 1; i < n; i += 2) put(i, g.sym(), 0); if (!cplx && n < 2) put(0, 1, 0); }
    else if (sig == "int") for (size_t i = 0; i < w * n; i++) v[i] = (double)g.range(-1000, 1000);
    else if (sig == "big") for (size_t i = 0; i < w * n; i++) v[i] = ldexp(g.sym(), 400);
    else if (sig == "small") for (size_t i = 0; i < w * n; i++) v[i] = ldexp(g.sym(), -400);
    else if (sig == "ramp") for (size_t i = 0; i < n; i++) put(i, (double)i / n, 1.0 - (double)i / n);
    else if (sig == "half") { bool lo = g.chance(0.5); for (size_t i = 0; i < n; i++) if ((i < (n + 1) / 2) == lo || n < 2) put(i, g.sym(), g.sym()); }
    else if (sig == "zero") {}
    else if (sig == "spike") { for (size_t i = 0; i < w * n; i++) v[i] = g.sym() * 1e-6; put(g.below(n), 1e3 * (1 + g.unit()), g.sym()); }
    else for (size_t i = 0; i < w * n; i++) v[i] = g.sym();
}
static void hermitian(std::vector<double>& v, size_t n)
{
    v[1] = 0; if (n % 2 == 0) v[n + 1] = 0;
    for (size_t k = 1; 2 * k < n; k++) { v[2 * (n - k)] = v[2 * k]; v[2 * (n - k) + 1] = -v[2 * k + 1]; }
}
// closed-form pair for very long transforms: x = sum of tones and impulses, X its transform
struct Phasor { // e^{2 pi i (a j + b)/M}, j = 0,1,...
    uint64_t a, b, M; ld c, s, dc, ds; uint64_t j;
    Phasor(uint64_t a_, uint64_t b_, uint64_t M_) : a(a_ % M_), b(b_ % M_), M(M_), j(0) { const ld t = 6.283185307179586476925286766559005768L; dc = cosl(t * a / M); ds = sinl(t * a / M); sync(); }
    void sync() { uint64_t k = (uint64_t)(((unsigned __int128)a * j + b) % M); const ld t = 6.283185307179586476925286766559005768L; ld th; if (2 * k <= M) th = t * k / M; else th = -t * (M - k) / M; c = cosl(th); s = sinl(th); }
    void next() { j++; if ((j & 255) == 0) { sync(); return; } ld nc = c * dc - s * ds; s = c * ds + s * dc; c = nc; }
};
static void closed(char kind, size_t n, uint64_t seed, std::vector<double>& x, std::vector<double>& X)
{
    Rng g(seed ^ 0xC105EDull);
    bool cp = kind == 'c' || kind == 'b';
    const int NT = 3, NI = 3;
    size_t f[NT], p[NI]; ld a[NT], ph[NT], b[NI], bi[NI];
    size_t used = 0;
    for (int t = 0; t < NT; t++) { for (;;) { f[t] = t == 0 ? g.below(n) : t == 1 ? n - 1 - g.below(n < 64 ? n : 64) : g.below(n); if (kind == 'r') f[t] = f[t] % (n / 2); bool dup = f[t] == 0; for (int q = 0; q < t; q++) dup |= f[q] == f[t]; if (!dup || ++used > 100) break; } a[t] = 0.25L * (1 + g.unit()); ph[t] = kind == 'd' ? 0 : g.below(1u << 20); }
    for (int i = 0; i < NI; i++) { p[i] = i == 0 ? g.below(n) : i == 1 ? n - 1 - g.below(n < 64 ? n : 64) : g.below(n); b[i] = sqrtl((ld)n) * 0.25L * (1 + g.unit()); bi[i] = cp ? sqrtl((ld)n) * 0.25L * g.sym() : 0; }
    if (kind == 'd') {
        x.assign(n, 0); X.assign(n, 0);
        std::vector<double> dummy;
        for (int t = 0; t < NT; t++) { Phasor q(2 * f[t], f[t], 4 * (uint64_t)n); for (size_t j = 0; j < n; j++, q.next()) x[j] += (double)(a[t] * q.c); }
        for (int i = 0; i < NI; i++) { double bb = (double)b[i]; x[p[i]] += bb; Phasor q(2 * p[i] + 1, 0, 4 * (uint64_t)n); for (size_t k = 0; k < n; k++, q.next()) X[k] += (double)(bb * q.c); }
        for (int t = 0; t < NT; t++) X[f[t]] += (double)(a[t] * n / (f[t] ? 2 : 1));
        return;
    }
    size_t w = cp ? 2 : 1; x.assign(w * n, 0); X.assign(2 * n, 0);
    const ld tp = 6.283185307179586476925286766559005768L;
    for (int t = 0; t < NT; t++) {
        ld pc = cosl(tp * ph[t] / (1u << 20)), ps = sinl(tp * ph[t] / (1u << 20));
        Phasor q(f[t], 0, n);
        for (size_t j = 0; j < n; j++, q.next()) { x[w * j] += (double)(a[t] * (q.c * pc - q.s * ps)); if (cp) x[2 * j + 1] += (double)(a[t] * (q.s * pc + q.c * ps)); }
    }
    for (int i = 0; i < NI; i++) {
        double br = (double)b[i], bm = (double)bi[i]; x[w * p[i]] += br; if (cp) x[2 * p[i] + 1] += bm;
        Phasor q(p[i], 0, n);
        for (size_t k = 0; k < n; k++, q.next()) { X[2 * k] += (double)(br * q.c + bm * q.s); X[2 * k + 1] += (double)(bm * q.c - br * q.s); }
    }
    for (int t = 0; t < NT; t++) {
        ld pc = cosl(tp * ph[t] / (1u << 20)), ps = sinl(tp * ph[t] / (1u << 20));
        if (cp) { X[2 * f[t]] += (double)(a[t] * n * pc); X[2 * f[t] + 1] += (double)(a[t] * n * ps); }
        else if (f[t] == 0) X[0] += (double)(a[t] * n * pc);
        else { size_t k2 = n - f[t]; X[2 * f[t]] += (double)(a[t] * n / 2 * pc); X[2 * f[t] + 1] += (double)(a[t] * n / 2 * ps); X[2 * k2] += (double)(a[t] * n / 2 * pc); X[2 * k2 + 1] -= (double)(a[t] * n / 2 * ps); }
    }
    if (kind == 'r') { X[1] = 0; X[n + 1] = 0; }
}
static XRef cache; static std::string cache_key;
void xref_drop() { cache_key.clear(); cache = XRef(); }
const XRef& xref(char kind, bool inv, size_t n, const std::string& sig, uint64_t seed)
{
    std::string key = fmt("%c%d %zu %s %llu", kind == 'b' ? 'c' : kind, (int)inv, n, sig.c_str(), (unsigned long long)seed);
    if (key == cache_key) return cache;
    cache_key.clear();
    XRef& R = cache;
    if (sig == "closed") {
        std::vector<double> x, X; closed(kind, n, seed, x, X);
        if (!inv) { R.in.swap(x); R.ref.swap(X); }
        else { R.in.swap(X); R.ref.swap(x); for (auto& v : R.ref) v *= (double)n; }
        // the samples are not exactly band-limited after rounding; that is within tolerance (relative 2^-53)
    }
    else {
        bool cin = in_len(kind, inv, n) == 2 * n;
        gen_signal(sig, seed, n, cin, R.in);
        if (kind == 'r' && inv) hermitian(R.in, n);
        if (kind == 'd') {
            std::vector<ld> x(R.in.begin(), R.in.end()), X(n);
            if (inv) ref_dct3(x.data(), X.data(), n); else ref_dct2(x.data(), X.data(), n);
            R.ref.resize(n); for (size_t i = 0; i < n; i++) R.ref[i] = (double)X[i];
        }
        else {
            std::vector<cld> x(n), X(n);
            ld sg = inv ? -1 : 1;
            for (size_t i = 0; i < n; i++) x[i] = cin ? cld{R.in[2 * i], sg * R.in[2 * i + 1]} : cld{R.in[i], 0};
            ref_dft(x.data(), X.data(), n);
            if (kind == 'r' && inv) { R.ref.resize(n); for (size_t i = 0; i < n; i++) R.ref[i] = (double)X[i].re; }
            else { R.ref.resize(2 * n); for (size_t i = 0; i < n; i++) { R.ref[2 * i] = (double)X[i].re; R.ref[2 * i + 1] = (double)(sg * X[i].im); } }
        }
    }
    // every transform here is orthogonal up to a factor, so the norm of the result never cancels
    ld s = 0; R.zero = true;
    for (double v : R.ref) { s += (ld)v * v; }
    for (double v : R.in) if (v != 0) { R.zero = false; break; }
    R.norm2 = 0; R.innorm = (double)sqrtl(s);
    cache_key = key;
    return cache;
}
double rel_err(const double* out, const std::vector<double>& ref, long double scale, double norm, bool zero)
{
    if (zero) { for (size_t i = 0; i < ref.size(); i++) if (!(out[i] == 0)) return INFINITY; return 0; }
    ld e = 0; const ld is = 1.0L / scale;
    for (size_t i = 0; i < ref.size(); i++) { ld d = out[i] * is - ref[i]; e += d * d; }
    double r = (double)(sqrtl(e) / norm);
    return r == r ? r : INFINITY;
}
// Error bounds, relative in the Euclidean norm. Measured maxima are in DESIGN.md.
// The twiddles of a mixed length are evaluated at angles up to 2 pi without reduction and the radix 5 and
// any-radix butterflies multiply them up, so those factors cost more than the powers of two.
static const double EPS = 2.220446049250313e-16;
static double growth(char kind, size_t n)
{
    double lg = log2((double)n + 2), p = 0;
    if (kind != 'b') { size_t m = n; if (kind == 'r' || kind == 'd') m = n / 2; size_t q = m ? max_prime(m) : 1; if (q > 5) p = sqrt((double)q); }
    else lg = 3 * log2(2.0 * n + 2) ;
    return lg + p;
}
double tol_tight(char kind, size_t n)
{
    if (kind == 'b' || is_pow2(n)) return EPS * (growth(kind, n) + 2);
    size_t m = kind == 'r' || kind == 'd' ? n / 2 : n; int f5 = 0; double big = 0;
    size_t mp = max_prime(m); for (; m % 5 == 0 && m; m /= 5) f5++; if (mp > 5) big = sqrt((double)mp);
    return EPS * (10 * log2((double)n + 2) + 50 * f5 + 20 * big + 20);
}
double tol_loose(char kind, size_t n) { double t = EPS * 64 * growth(kind, n), u = 2 * tol_tight(kind, n); return u > t ? u : t; }

static const size_t PADB = 256;
UBuf::UBuf(size_t d, size_t off) : n(d)
{
    size_t bytes = d * 8 + off + 2 * PADB + 64;
    raw = (char*)malloc(bytes);
    p = (double*)((((uintptr_t)raw + PADB + 63) & ~(uintptr_t)63) + off);
    memset(raw, 0x5C, (char*)p - raw); memset((char*)(p + n), 0x5C, raw + bytes - (char*)(p + n));
}
UBuf::~UBuf() { free(raw); }
bool UBuf::intact() const
{
    for (const char* c = raw; c < (char*)p; c++) if (*c != 0x5C) return false;
    for (const char* c = (char*)(p + n); c < (char*)(p + n) + PADB - 64; c++) if (*c != 0x5C) return false;
    return true;
}
void UBuf::fill_garbage(uint64_t seed) { if (seed % 3 == 0) { memset((void*)p, 0xFF, n * 8); return; } Rng g(seed); for (size_t i = 0; i < n; i++) p[i] = g.sym() * 1e3; }
void UBuf::load(const std::vector<double>& v) { memcpy(p, v.data(), v.size() * 8); }

// ---------------------------------------------------------------- bundle "xf"
// kind n be=list op=list T=list of threads:sched sig seed off  tol=l|t  obj=0|1 (created with length / without)
static void b_xf(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); std::string sig = c.get("sig", "uni"); uint64_t seed = c.u64("seed", 1);
    size_t off = c.num("off") * 8; bool late = c.num("late") != 0; bool tight = c.get("tol") == "t";
    bool guard = c.num("g") != 0; va_mode(guard ? AM_END : n <= (1u << 20) ? AM_POISON : AM_PASS);
    double tol = tight ? tol_tight(kind, n) : tol_loose(kind, n);
    auto ops = c.list("op"), Ts = c.list("T"), bes = c.list("be"); if (Ts.empty()) Ts.push_back("1:0");
    UBuf a(in_len(kind, false, n) > in_len(kind, true, n) ? in_len(kind, false, n) : in_len(kind, true, n), off);
    UBuf b(kind == 'r' ? 2 * n : 0, off);
    for (int dir = 0; dir < 2; dir++) {
        std::vector<std::string> dops; for (auto& o : ops) if ((int)op_inverse(o) == dir) dops.push_back(o);
        if (dops.empty()) continue;
        const XRef& R = xref(kind, dir, n, sig, seed);
        for (auto& be : bes) for (auto& T : Ts) {
            auto tp = split(T, ':'); int th = atoi(tp[0].c_str()); uint64_t sc = tp.size() > 1 ? strtoull(tp[1].c_str(), 0, 10) : 0;
            vomp_set(th, sc);
            Case s = c; s.set("be", be).set("T", T);
            sub_begin(Case(s).set("op", dops[0]).str());
            Obj o;
            if (late) { obj_create(o, kind, be, 0); obj_setup(o, n); } else obj_create(o, kind, be, n);
            for (auto& op : dops) {
                s.set("op", op); std::string id = s.str(); sub_begin(id);
                vomp_set(th, sc);
                a.fill_garbage(seed + 1); a.load(R.in); if (kind == 'r') b.fill_garbage(seed + n);
                obj_run(o, op, a.p, b.p);
                const double* out = kind == 'r' ? b.p : a.p;
                double e = rel_err(out, R.ref, op_scale(op, n), R.innorm, R.zero);
                const char* cl = tight ? "tight" : "xf"; (void)cl;
                note_max(fmt("%c err/tol", kind), e / tol);
                if (is_pow2(n)) note_max(fmt(tight ? "%c pow2 err/tight tol" : "%c pow2 err/tol", kind), e / tol);
                else if (tight) { size_t mp = max_prime(kind == 'r' || kind == 'd' ? n / 2 : n); note_max(fmt("%c maxprime %s err/tol", kind, mp <= 5 ? "<=5" : mp <= 13 ? "<=13" : mp < 100 ? "<100" : mp < 1000 ? "<1000" : ">=1000"), e / tol); }
                if (!(e <= tol)) {
                    size_t w = 0; ld worst = -1; const ld is = 1 / op_scale(op, n);
                    for (size_t i = 0; i < R.ref.size(); i++) { ld d = fabsl(out[i] * is - R.ref[i]); if (!(d <= worst)) { worst = d; w = i; if (d != d) break; } }
                    sub_fail(id, fmt("relative error %.3g exceeds %.3g; worst at double %zu: got %.17g expected %.17g", e, tol, w, (double)(out[w] * is), R.ref[w]));
                }
                else if (!a.intact() || (kind == 'r' && !b.intact())) sub_fail(id, "wrote outside the caller's array");
                else if (kind == 'r' && dir == 0 && memcmp(a.p, R.in.data(), R.in.size() * 8)) sub_fail(id, "input array of a real forward transform was modified");
                else if (va_corruption()) sub_fail(id, va_corruption());
                sub_done(id, n >= 2 && !R.zero);
                tally(fmt("%c %s", kind, dir ? "inverse" : "forward")); tally("be " + be); tally("sig " + sig); if (th > 1) tally("threads>1");
                tally(is_pow2(n) ? "len pow2" : max_prime(n) <= 5 ? "len 2,3,5-smooth" : max_prime(n) == n ? "len prime" : "len other");
                tally(n < 16 ? "n<16" : n < 1024 ? "n<2^10" : n < 32768 ? "n<2^15" : n < (1u << 20) ? "n<2^20" : "n>=2^20");
                if (off) tally("array at 8 mod 16");
                if (sub_enough()) { obj_destroy(o); return; }
            }
            obj_destroy(o);
        }
    }
    if (n > (1u << 20)) xref_drop();
    if (guard) { va_reset(); va_mode(AM_PASS); }
}
static RegB rb("xf", b_xf);

// ---------------------------------------------------------------- bundle "hom"
// Scaling by a power of two and negation commute exactly with every rounding the transforms do; -0 and +0 are the same input.
static void b_hom(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); std::string sig = c.get("sig", "uni"); uint64_t seed = c.u64("seed", 1);
    size_t off = c.num("off") * 8; auto ops = c.list("op"), bes = c.list("be"), es = c.list("e"); std::string T = c.get("T", "1:0");
    auto tp = split(T, ':'); int th = atoi(tp[0].c_str()); uint64_t sc = tp.size() > 1 ? strtoull(tp[1].c_str(), 0, 10) : 0;
    va_mode(AM_POISON);
    size_t len = std::max(in_len(kind, false, n), in_len(kind, true, n));
    UBuf a(len, off), b(kind == 'r' ? 2 * n : 0, off);
    for (auto& be : bes) {
        vomp_set(th, sc); sub_begin(Case(c).set("be", be).set("op", ops[0]).set("e", es[0]).str());
        Obj o; obj_create(o, kind, be, n);
        for (auto& op : ops) {
            bool inv = op_inverse(op);
            std::vector<double> x; size_t il = in_len(kind, inv, n), ol = out_len(kind, inv, n);
            { Rng g(seed + (inv ? 77 : 0)); x.resize(il); for (auto& v : x) { v = ldexp(g.sym(), (int)g.range(-20, 3)); if (sig == "holes" && g.chance(0.4)) v = 0; } if (kind == 'r' && inv) { x[1] = 0; if (n % 2 == 0) x[n + 1] = 0; for (size_t k = 1; 2 * k < n; k++) { x[2 * (n - k)] = x[2 * k]; x[2 * (n - k) + 1] = -x[2 * k + 1]; } } }
            auto run = [&](const std::vector<double>& in, std::vector<double>& out) { vomp_set(th, sc); a.fill_garbage(seed); if (kind == 'r') b.fill_garbage(seed + 1); memcpy((void*)a.p, in.data(), in.size() * 8); obj_run(o, op, a.p, b.p); out.resize(ol); memcpy(out.data(), kind == 'r' ? b.p : a.p, ol * 8); };
            std::vector<double> y, z, x2(il);
            Case s(c); s.set("be", be).set("op", op).set("e", es[0]); sub_begin(s.str());
            run(x, y);
            double mx = 0; for (double v : y) if (fabs(v) > mx) mx = fabs(v);
            for (auto& e : es) {
                s.set("e", e); std::string id = s.str(); sub_begin(id);
                double f = 1; bool nz = e == "nz", zero = e == "zero";
                if (e == "neg") f = -1; else if (nz || zero) f = 1; else f = ldexp(1.0, atoi(e.c_str()));
                for (size_t i = 0; i < il; i++) x2[i] = zero ? (i % 3 ? 0.0 : -0.0) : nz && x[i] == 0 ? -x[i] : f * x[i];
                run(x2, z);
                size_t bad = 0; bool ok = true;
                for (size_t i = 0; i < ol; i++) { double w = zero ? 0.0 : f * y[i]; if (!(z[i] == w)) { ok = false; bad = i; break; } }
                if (!ok) sub_fail(id, zero ? fmt("transform of zeros is %.17g at double %zu", z[bad], bad) : fmt("double %zu: transform of the %s input is %.17g, expected exactly %.17g", bad, nz ? "zero-sign-flipped" : e == "neg" ? "negated" : "scaled", z[bad], f * y[bad]));
                sub_done(id, n >= 2 && (zero || mx > 0)); tally(zero ? "hom zero" : nz ? "hom zero sign" : e == "neg" ? "hom negation" : "hom scaling");
                if (sub_enough()) { obj_destroy(o); return; }
            }
        }
        obj_destroy(o);
    }
}
static RegB rb_hom("hom", b_hom);
