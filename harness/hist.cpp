// C07: random histories over several objects; every transform is compared with a fresh object's and with the reference.
// ops (separated by ';', every list is a legal history):
//   c<i>:<kind>:<be>:<n>  create in slot i (n = 0: without a length)      s<i>:<n>  setup     x<i>:<op>:<sig>:<seed>  transform
//   p<i>:<op>:<nan|inf|huge|den>:<seed>  transform of such data
//   m<i>:<j>  move the owning pointer     d<i>  destroy     t:<threads>:<sched>     k<i>:<j> swap owners
#include "xf.h"
#include <deque>
#include <algorithm>
struct RefLru {
    struct E { std::string key; XRef r; }; std::deque<E> q; size_t bytes = 0;
    const XRef& get(char kind, bool inv, size_t n, const std::string& sig, uint64_t seed)
    {
        std::string key = fmt("%c%d %zu %s %llu", kind == 'b' ? 'c' : kind, inv, n, sig.c_str(), (unsigned long long)seed);
        for (auto& e : q) if (e.key == key) return e.r;
        q.push_front(E{key, xref(kind, inv, n, sig, seed)}); bytes += (q[0].r.in.size() + q[0].r.ref.size()) * 8;
        while (q.size() > 1 && bytes > (64u << 20)) { bytes -= (q.back().r.in.size() + q.back().r.ref.size()) * 8; q.pop_back(); }
        return q[0].r;
    }
};
static RefLru lru;
struct Slot { Obj o; int setups; bool moved; std::string be; Slot() : setups(0), moved(false) {} };
static void b_hist(const Case& c)
{
    std::string id = c.str(); sub_begin(id);
    va_mode(c.num("mode", AM_POISON)); vomp_set(1, 0); size_t off = c.num("off") * 8;
    long guard0 = va_stats().live_blocks;
    const int NS = std::max(4, (int)c.num("ns", 4)); bool nt = false; int step = 0, nx = 0, T = 1; uint64_t sched = 0;
    {
        std::vector<Slot> sl(NS);
        auto ops = split(c.get("ops"), ';');
        for (auto& op : ops) {
            step++;
            auto a = split(op, ':'); if (a.empty() || a[0].empty()) continue;
            char w = a[0][0]; int i = a[0].size() > 1 ? atoi(a[0].c_str() + 1) % NS : 0; if (i < 0) i = 0;
            if (w == 't' && a.size() > 1) { T = atoi(a[1].c_str()); sched = a.size() > 2 ? strtoull(a[2].c_str(), 0, 10) : 0; vomp_set(T, sched); }
            else if (w == 'c' && a.size() > 3) { obj_create(sl[i].o, a[1][0], a[2], atol(a[3].c_str())); sl[i].be = a[2]; sl[i].setups = sl[i].o.n > 0; sl[i].moved = false; }
            else if (w == 's' && a.size() > 1) { if (sl[i].o.live()) { obj_setup(sl[i].o, atol(a[1].c_str())); sl[i].setups++; } }
            else if (w == 'd') { obj_destroy(sl[i].o); }
            else if (w == 'm' && a.size() > 1) { int j = std::max(0, atoi(a[1].c_str())) % NS; if (j != i) { obj_destroy(sl[j].o); LibScope ls; sl[j] = std::move(sl[i]); sl[j].moved = true; sl[i] = Slot(); } }
            else if (w == 'k' && a.size() > 1) { int j = std::max(0, atoi(a[1].c_str())) % NS; if (j != i) { LibScope ls; std::swap(sl[i].o, sl[j].o); std::swap(sl[i].setups, sl[j].setups); std::swap(sl[i].be, sl[j].be); sl[i].moved = sl[j].moved = true; } }
            else if (w == 'p' && a.size() > 3) {    // data with non-finite or extreme values: the result is not judged, what it leaves behind is
                Slot& s = sl[i]; if (!s.o.live() || s.o.n <= 0) continue;
                char kind = s.o.kind; std::string t = a[1]; if (kind == 'd' && (t == "fwdu" || t == "invu")) t = t == "fwdu" ? "fwd" : "inv";
                bool inv = op_inverse(t); long n = s.o.n; Rng g(strtoull(a[3].c_str(), 0, 10));
                size_t na = std::max(in_len(kind, false, n), in_len(kind, true, n)), nb = kind == 'r' ? 2 * n : 0, il = in_len(kind, inv, n);
                double v = a[2] == "inf" ? INFINITY : a[2] == "huge" ? 1.7e308 : a[2] == "den" ? 5e-324 : NAN; bool all = g.chance(.5);
                UBuf x(na, off), y(nb, off); x.fill_garbage(1); y.fill_garbage(2);
                for (size_t k = 0; k < il; k++) x.p[k] = all ? v : g.sym();
                if (!all) for (int q = 0; q < 3; q++) x.p[g.below(il)] = v;
                vomp_set(T, sched); obj_run(s.o, t, x.p, y.p); tally("transform of " + a[2] + " data");
                if (!x.intact() || !y.intact()) { sub_fail(id, fmt("step %d (%s): wrote outside the caller's array", step, op.c_str())); break; }
            }
            else if (w == 'x' && a.size() > 3) {
                Slot& s = sl[i]; if (!s.o.live() || s.o.n <= 0) continue;
                char kind = s.o.kind; std::string t = a[1]; if (kind == 'd' && (t == "fwdu" || t == "invu")) t = t == "fwdu" ? "fwd" : "inv";
                bool inv = op_inverse(t); long n = s.o.n; uint64_t seed = strtoull(a[3].c_str(), 0, 10);
                const XRef& R = lru.get(kind, inv, n, a[2], seed);
                size_t na = std::max(in_len(kind, false, n), in_len(kind, true, n)), nb = kind == 'r' ? 2 * n : 0;
                UBuf x(na, off), y(nb, off), fx(na, off), fy(nb, off);
                x.fill_garbage(seed); x.load(R.in); y.fill_garbage(seed + step);
                fx.fill_garbage(seed); fx.load(R.in); fy.fill_garbage(seed + step);
                vomp_set(T, sched);
                obj_run(s.o, t, x.p, y.p);
                { Obj f; vomp_set(T, sched); obj_create(f, kind, s.be, n); obj_run(f, t, fx.p, fy.p); obj_destroy(f); }
                const double* o1 = kind == 'r' ? y.p : x.p; const double* o2 = kind == 'r' ? fy.p : fx.p;
                double tol = tol_loose(kind, n), sc = (double)op_scale(t, n);
                double e1 = rel_err(o1, R.ref, sc, R.innorm, R.zero), e2 = rel_err(o2, R.ref, sc, R.innorm, R.zero);
                bool same = !memcmp(o1, o2, out_len(kind, inv, n) * 8);
                tally(same ? "bitwise as fresh" : "as fresh up to rounding"); nx++;
                if (!(e1 <= tol)) { sub_fail(id, fmt("step %d (%s): object of length %ld with this history gives relative error %.3g; a fresh object gives %.3g", step, op.c_str(), n, e1, e2)); break; }
                if (!(e2 <= tol)) { sub_fail(id, fmt("step %d (%s): a fresh object of length %ld created now gives relative error %.3g", step, op.c_str(), n, e2)); break; }
                if (!x.intact() || !y.intact()) { sub_fail(id, fmt("step %d (%s): wrote outside the caller's array", step, op.c_str())); break; }
                int others = 0; tally(NS > 4 ? "transform among many objects" : "transform among few objects"); for (int j = 0; j < NS; j++) others += j != i && sl[j].o.live();
                if (s.setups >= 2) tally("transform after re-setup"); if (s.moved) tally("transform after move"); if (others) tally("transform with other live objects");
                if (s.setups >= 2 || s.moved || others) nt = true;
                tally(fmt("transform kind %c", kind)); tally(n >= 32768 ? "transform n>=2^15" : n >= 1024 ? "transform n>=2^10" : "transform n<2^10");
            }
            else if (w == 'z' && a.size() > 4) {    // the same transform very many times: every result the same up to rounding
                Slot& s = sl[i]; if (!s.o.live() || s.o.n <= 0) continue;
                char kind = s.o.kind; std::string t = a[1]; if (kind == 'd' && (t == "fwdu" || t == "invu")) t = t == "fwdu" ? "fwd" : "inv";
                bool inv = op_inverse(t); long n = s.o.n, cnt = atol(a[4].c_str());
                const XRef& R = lru.get(kind, inv, n, a[2], strtoull(a[3].c_str(), 0, 10));
                size_t na = std::max(in_len(kind, false, n), in_len(kind, true, n)), nb = kind == 'r' ? 2 * n : 0, ol = out_len(kind, inv, n);
                UBuf x(na, off), y(nb, off); x.fill_garbage(3); y.fill_garbage(4); std::vector<double> first(ol);
                double tol = tol_loose(kind, n), sc = (double)op_scale(t, n); const double* out = kind == 'r' ? y.p : x.p; bool bad = false;
                for (long q = 0; q < cnt && !bad; q++) {
                    x.load(R.in); obj_run(s.o, t, x.p, y.p);
                    if (q && !memcmp(out, first.data(), ol * 8)) continue;
                    double e = rel_err(out, R.ref, sc, R.innorm, R.zero);
                    if (!(e <= tol)) { sub_fail(id, fmt("step %d (%s): call %ld of this transform of length %ld gives relative error %.3g", step, op.c_str(), q + 1, n, e)); bad = true; }
                    memcpy(first.data(), out, ol * 8);
                }
                if (bad) break;
                tally("calls in long runs of one transform", cnt); nx++; nt = true;
            }
            if (va_corruption()) { sub_fail(id, fmt("step %d (%s): %s", step, op.c_str(), va_corruption())); break; }
        }
        for (auto& s : sl) obj_destroy(s.o);
    }
    if (va_corruption() && !sub_enough()) sub_fail(id, va_corruption());
    (void)guard0;
    tally("histories"); tally("history steps", step); tally("transforms checked", nx);
    if (c.num("mode", AM_POISON) >= AM_END) va_reset();
    va_clear_corruption();
    sub_done(id, nt);
}
static RegB rb("hist", b_hist);
static long pick_n(Rng& g, char kind, int sz)
{
    long n;
    switch (g.below(8)) {
    case 0: case 1: n = 1L << g.below(sz == 0 ? 12 : sz == 1 ? 17 : 19); break;
    case 2: n = 1 + (long)g.below(40); break;
    case 3: n = 1 + (long)g.below(sz == 0 ? 700 : 3000); break;
    case 4: n = g.pick({3, 5, 7, 9, 11, 13, 15, 25, 27, 49, 97, 101, 121, 127}) * (1L << g.below(sz == 0 ? 5 : 10)); break;
    case 5: n = g.pick({30, 60, 100, 120, 210, 360, 480, 500, 1000, 1001, 1023, 1200}); break;
    case 6: n = sz == 0 ? 1 + (long)g.below(256) : (long)g.pick({32768, 65536, 40960, 49152, 36864, 50000, 46656, 32768 + 8, 61440}); break;
    default: n = 1L << g.range(0, sz == 0 ? 8 : 16); break;
    }
    if ((kind == 'r' || kind == 'd') && (n & 1)) n++;
    if (kind != 'b' && n > 20000 && max_prime(n) > 400) n = 32768;
    return n;
}
std::string gen_history(Rng& g, int sz, int len, int ns = 4)
{
    static const char* bes[] = {"sse2", "avx", "avx2"}; static const char* ops[] = {"fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"};
    std::string r; std::vector<char> kind(ns, 0); std::vector<long> n(ns, 0), prev(ns, 0);
    int nslots = ns > 4 ? ns : 1 + (int)g.below(3); std::string mainbe = bes[g.below(3)];
    auto add = [&](const std::string& s) { if (!r.empty()) r += ";"; r += s; };
    int xs = 0;
    for (int k = 0; k < len; k++) {
        int i = (int)g.below(nslots);
        if (!kind[i]) { kind[i] = "crdb"[g.below(4)]; std::string be = g.chance(.7) ? mainbe : bes[g.below(3)]; n[i] = g.chance(.3) ? 0 : pick_n(g, kind[i], sz); add(fmt("c%d:%c:%s:%ld", i, kind[i], be.c_str(), n[i])); continue; }
        int w = (int)g.below(100);
        if (n[i] == 0 || w < 28) { long m = prev[i] && g.chance(.35) ? prev[i] : pick_n(g, kind[i], sz); if (g.chance(.06)) m = n[i] ? n[i] : m; prev[i] = n[i]; n[i] = m; add(fmt("s%d:%ld", i, m)); if (g.chance(.75)) goto xform; continue; }
        if (w < 36) { static const char* sp[] = {"nan", "nan", "inf", "huge", "den"}; add(fmt("p%d:%s:%s:%d", i, ops[g.below(8)], sp[g.below(5)], (int)g.below(100))); goto xform; }
        if (w < 80) { xform: add(fmt("x%d:%s:%s:%d", i, ops[g.below(8)], g.chance(.8) ? "uni" : sig_names()[g.below(sig_names().size())].c_str(), (int)g.below(3))); xs++; continue; }
        if (w < 85) { int j = (i + 1 + (int)g.below(ns - 1)) % ns; add(fmt("m%d:%d", i, j)); kind[j] = kind[i]; n[j] = n[i]; prev[j] = prev[i]; kind[i] = 0; n[i] = prev[i] = 0; if (j >= nslots) nslots = j + 1; continue; }
        if (w < 88) { int j = (int)g.below(nslots); if (j != i && kind[j]) { add(fmt("k%d:%d", i, j)); std::swap(kind[i], kind[j]); std::swap(n[i], n[j]); std::swap(prev[i], prev[j]); } continue; }
        if (w < 93) { add(fmt("d%d", i)); kind[i] = 0; n[i] = prev[i] = 0; continue; }
        add(fmt("t:%d:%d", (int)g.pick({1, 1, 2, 3, 4, 8, 40}), (int)g.below(1000)));
    }
    return r;
}
static RegP rp("C07", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 7919 + 11);
    auto put = [&](int cnt, int sz, int lo, int hi, int mode) { for (int i = 0; i < cnt; i++) { Case c; c.word = "hist"; c.set("mode", (long)mode).set("off", (long)g.below(2)).set("ops", gen_history(g, sz, (int)g.range(lo, hi))); out.push_back(c.str()); } };
    put(th ? 900 : 150, 2, 8, 24, AM_POISON);
    put(th ? 6000 : 1300, 1, 8, 30, AM_POISON);
    put(th ? 100000 : 24000, 0, 6, 30, AM_POISON);
    put(th ? 6000 : 1500, 0, 10, 30, AM_END);
    // many live objects, long histories, very many calls
    auto many = [&](int cnt, int sz, int ns, int len) { for (int i = 0; i < cnt; i++) { Case c; c.word = "hist"; c.set("mode", (long)AM_POISON).set("off", 0L).set("ns", (long)ns).set("ops", gen_history(g, sz, len, ns)); out.push_back(c.str()); } };
    many(th ? 400 : 60, 0, 20, 300); many(th ? 200 : 24, 0, 70, 700); many(th ? 100 : 10, 0, 300, 1400); many(th ? 100 : 10, 1, 12, 150); many(th ? 200 : 30, 0, 4, 1000); many(th ? 100 : 10, 1, 4, 200);
    static const char* bes[] = {"sse2", "avx", "avx2"}; static const char* ops[] = {"fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"};
    for (int i = 0; i < (th ? 600 : 96); i++) {
        char kind = "crdb"[i & 3]; long n = 2 * (1 + (long)g.below(i % 5 ? 16 : 200)), cnt = (i % 5 ? 66000 : 5000) * (th ? 4 : 1); if (g.chance(.5)) n = 1L << g.range(1, i % 5 ? 5 : 9);
        if (kind == 'b' || kind == 'd') cnt = std::min(cnt, th ? 264000L : 66000L); Case c; c.word = "hist"; c.set("mode", (long)AM_POISON).set("off", 0L).set("ops", fmt("c0:%c:%s:%ld;z0:%s:uni:1:%ld;x0:%s:uni:2;s0:%ld;x0:%s:uni:1", kind, bes[g.below(3)], n, ops[g.below(8)], cnt, ops[g.below(8)], 2 * n, ops[g.below(8)])); out.push_back(c.str());
    }
});
