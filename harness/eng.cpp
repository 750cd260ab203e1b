// C13: every engine of every backend against the reference, at every power of two it accepts.
#include "xf.h"
#include "shim.h"
#include <algorithm>
static std::string eng_one(const std::string& en, const std::string& be, int log, const std::vector<std::string>& ops, const Case& c, Case s)
{
    size_t n = (size_t)1 << log; uint64_t seed = c.u64("seed", 1); std::string sig = c.get("sig", "uni");
    size_t off = c.num("off") * 8; auto Ts = c.list("T"); if (Ts.empty()) Ts.push_back("1:0");
    const shim::Backend* B = shim::backend(be);
    va_mode(n <= (1u << 20) ? AM_POISON : AM_PASS);
    UBuf x(2 * n, off), y(2 * n, off);
    for (int dir = 0; dir < 2; dir++) {
        std::vector<std::string> d; for (auto& o : ops) if ((int)op_inverse(o) == dir) d.push_back(o);
        if (d.empty()) continue;
        const XRef& R = xref('c', dir, n, sig, seed);
        for (auto& T : Ts) {
            auto tp = split(T, ':'); int th = atoi(tp[0].c_str()); uint64_t sc = tp.size() > 1 ? strtoull(tp[1].c_str(), 0, 10) : 0;
            s.set("T", T).set("op", d[0]); vomp_set(th, sc); sub_begin(s.str());
            std::unique_ptr<shim::Eng> e;
            { LibScope ls; e.reset(B->engine(en)); if (e) { if (c.num("late")) e->setup2(log > 3 ? 3 : 5); if (c.num("by")) e->setup((int)n); else e->setup2(log); } }
            if (!e) { tally("engine missing " + en); return ""; }
            for (auto& op : d) {
                s.set("op", op); std::string id = s.str(); sub_begin(id); vomp_set(th, sc);
                x.load(R.in); y.fill_garbage(seed + 3 * log + dir);
                { LibScope ls; e->run(op, x.p, y.p); }
                double er = rel_err(x.p, R.ref, op_scale(op, n), R.innorm, R.zero), tol = tol_loose('c', n);
                note_max("engine err/tol", er / tol); note_max("engine " + en + " err/tol", er / tol);
                if (!(er <= tol)) sub_fail(id, fmt("engine %s: relative error %.3g exceeds %.3g", en.c_str(), er, tol));
                else if (!x.intact() || !y.intact()) sub_fail(id, "wrote outside the data or work array");
                else if (va_corruption()) sub_fail(id, va_corruption());
                sub_done(id, n >= 2 && !R.zero);
                tally("engine " + en); tally("be " + be); tally(n < 8192 ? "n<2^13" : n < (1u << 18) ? "n<2^18" : "n>=2^18"); if (th > 1) tally("threads>1");
                if (sub_enough()) { LibScope ls; e.reset(); return ""; }
            }
            LibScope ls; e.reset();
        }
    }
    return "";
}
static void b_eng(const Case& c)
{
    auto ops = c.list("op");
    for (auto& be : c.list("be")) for (auto& en : c.list("eng")) for (auto& l : c.list("log")) {
        if (!shim::backend(be)) {   // only the engine the public class picks can be reached
            tally("engines not reachable on this tree, public class used"); if (en != "dif4" && c.list("eng").size() > 1) continue;
            Case s; s.word = "xf"; s.kv = c.kv; s.kv.erase("eng"); s.kv.erase("log"); s.kv.erase("by"); s.set("kind", "c").set("n", 1L << atoi(l.c_str())).set("be", be).set("tol", "l");
            run_sub_bundle(s); if (sub_enough()) return; continue; }
        Case s = c; s.set("be", be).set("eng", en).set("log", l); sub_begin(s.set("op", ops[0]).str());
        eng_one(en, be, atoi(l.c_str()), ops, c, s);
        if (sub_enough()) return;
    }
    xref_drop();
}
static RegB rb("eng", b_eng);
static RegP rp("C13", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 917 + 3);
    const char* bes[] = {"sse2", "avx", "avx2"}; static const char* OPS = "fwd,fwd0,fwdu,fwdn,inv,inv0,invu,invn";
    auto T = [&](int k, bool one) { std::string r = one ? "1:0" : ""; for (int i = 0; i < k; i++) { uint64_t s = g.pick({0, 1, 2, 2}); if (s == 2) s = 2 + g.below(100000); r += fmt("%s%d:%llu", r.empty() ? "" : ",", (int)g.pick({2, 3, 4, 5, 7, 8, 12, 16, 40, 128}), (unsigned long long)s); } return r; };
    struct Q { std::string s; double cost; }; std::vector<Q> q;
    auto add = [&](const std::string& be, const std::string& en, const std::string& log, const std::string& ops, const std::string& t, const std::string& sig, double cost) {
        Case c; c.word = "eng"; c.set("be", be).set("eng", en).set("log", log).set("op", ops).set("T", t).set("sig", sig).setu("seed", g.below(1000000)).set("off", (long)g.below(2)).set("late", (long)g.below(2)).set("by", (long)g.below(2)); q.push_back(Q{c.str(), cost}); };
    std::string all = "dif4,dit4,dif8,dit8,dif16,dit16,six,mixed";
    for (int l = 0; l <= 12; l++) for (auto be : bes) for (auto& s : sig_names()) { if (!th && l > 6 && g.chance(.6)) continue; add(be, all, std::to_string(l), OPS, "1:0", s, (double)(1 << l) * 64); }
    for (int l = 10; l <= (th ? 21 : 18); l++) for (auto be : bes) for (auto& en : shim::engine_names()) add(be, en, std::to_string(l), OPS, T(th ? 3 : l < 15 ? 2 : 1, l < 16 || th), l % 2 ? "uni" : "wide", (double)(1 << l) * 8 * (th ? 4 : l < 15 ? 3 : 1));
    // the longest ones: each engine and backend, forward and inverse in one variant each
    const char* F[] = {"fwd", "fwd0", "fwdu", "fwdn"}; const char* I[] = {"inv", "inv0", "invu", "invn"};
    for (int l = th ? 22 : 19; l <= 24; l++) for (auto& en : shim::engine_names()) for (int b = 0; b < 3; b++) {
        if (!th && (l > 20 ? (int)g.below(3) != b : false)) continue;
        std::string op = th ? OPS : std::string(F[g.below(4)]) + "," + I[g.below(4)];
        add(bes[b], en, std::to_string(l), op, g.chance(.6) ? T(1, false) : "1:0", "closed", (double)(1 << l) * (th ? 12 : 5)); }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) out.push_back(x.s);
});
