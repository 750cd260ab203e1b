// C08: accesses stay inside the documented arrays, whatever their alignment; no uninitialised reads; no leaks.
// C12: allocation failures.
#include "xf.h"
#include <algorithm>
#include <new>
static bool op_const_input(char kind, const std::string& op) { return kind == 'r' && !op_inverse(op); }
static void parse_T(const std::string& T, int& t, uint64_t& s) { auto p = split(T, ':'); t = p.empty() ? 1 : atoi(p[0].c_str()); s = p.size() > 1 ? strtoull(p[1].c_str(), 0, 10) : 0; }

// kind n be op mode=E|S|M  off=0|1 (doubles)  T  sig seed n0 (earlier length, 0 none)
static void b_mem(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); uint64_t seed = c.u64("seed", 1); size_t off = c.num("off") * 8; long n0 = c.num("n0");
    int T; uint64_t sc; parse_T(c.get("T", "1:0"), T, sc); std::string sig = c.get("sig", "uni"); auto ops = c.list("op");
    for (auto& be : c.list("be")) for (auto& mode : c.list("mode")) {
        int am = mode == "E" ? AM_END : AM_START, um = am;
        for (int dir = 0; dir < 2; dir++) {
            std::vector<std::string> d; for (auto& o : ops) if ((int)op_inverse(o) == dir) d.push_back(o);
            if (d.empty()) continue;
            const XRef& R = xref(kind, dir, n, sig, seed);
            size_t nin = in_len(kind, dir, n), nout = out_len(kind, dir, n);
            Case s = c; s.set("be", be).set("mode", mode).set("op", d[0]); std::string id = s.str(); sub_begin(id);
            std::vector<std::vector<double>> first(d.size());
            for (int pass = 0; pass < 2; pass++) {
                // the second pass sees other garbage in every fresh block and in the output array
                va_fill(pass ? 0x3C : 0xFF); vomp_set(T, sc);
                va_mode(am); Obj o;
                if (n0) { obj_create(o, kind, be, n0); obj_setup(o, n); } else obj_create(o, kind, be, n);
                for (size_t q = 0; q < d.size(); q++) {
                    s.set("op", d[q]); id = s.str(); sub_begin(id); vomp_set(T, sc);
                    double* x = (double*)va_buf(nin * 8, 8, um, um == AM_START ? off : off), *y = kind == 'r' ? (double*)va_buf(nout * 8, 8, um, off) : nullptr;
                    memcpy(x, R.in.data(), nin * 8); if (y) memset(y, pass ? 0x41 : 0xFF, nout * 8);
                    if (op_const_input(kind, d[q])) va_readonly(x, true);
                    obj_run(o, d[q], x, y);
                    const double* out = y ? y : x; double e = rel_err(out, R.ref, op_scale(d[q], n), R.innorm, R.zero), tol = tol_loose(kind, n);
                    if (!(e <= tol)) sub_fail(id, fmt("relative error %.3g with the array %zu bytes off and fresh memory filled with %#x", e, off, pass ? 0x3C : 0xFF));
                    else if (pass == 0) first[q].assign(out, out + nout);
                    else if (memcmp(first[q].data(), out, nout * 8)) { size_t w = 0; while (!memcmp(&first[q][w], out + w, 8)) w++; sub_fail(id, fmt("result depends on what fresh memory contains (double %zu: %.17g or %.17g)", w, first[q][w], out[w])); }
                    va_buf_free(x); if (y) va_buf_free(y);
                    if (va_corruption()) { sub_fail(id, va_corruption()); va_clear_corruption(); }
                    if (pass) { sub_done(id, n >= 2 && !R.zero); tally("guard " + mode); tally(fmt("kind %c", kind)); tally(off ? "array at 8 mod 16" : "array at 0 mod 8 from the guard"); tally(n < 1024 ? "n<2^10" : n < 32768 ? "n<2^15" : "n>=2^15"); if (T > 1) tally("threads>1"); if (op_const_input(kind, d[q])) tally("read-only input"); }
                    if (sub_enough()) { obj_destroy(o); va_reset(); va_fill(0xFF); return; }
                }
                obj_destroy(o);
                if (va_corruption()) { sub_fail(id, va_corruption()); va_clear_corruption(); }
            }
            va_reset(); va_fill(0xFF);
        }
    }
    va_mode(AM_PASS);
}
// leak cycles: kind be ns=list of lengths; live memory after every cycle must equal that after the first
static void b_leak(const Case& c)
{
    std::string id = c.str(); sub_begin(id);
    char kind = c.get("kind")[0]; auto ns = c.list("ns"); int reps = (int)c.num("reps", 4); bool use = c.num("use", 1) != 0; std::string be = c.get("be");
    int T; uint64_t sc; parse_T(c.get("T", "1:0"), T, sc); vomp_set(T, sc); va_mode(AM_POISON);
    AllocStats base{}, in1{}; size_t mx = 0; for (auto& n : ns) mx = std::max(mx, (size_t)atol(n.c_str()));
    std::vector<double> a(2 * mx + 2, 0.5), b(2 * mx + 2); bool nt = false; long c0 = va_stats().calls;
    // whole objects
    for (int r = 0; r < reps; r++) {
        Obj o; obj_create(o, kind, be, c.num("first0") ? 0 : atol(ns[0].c_str()));
        for (auto& n : ns) { obj_setup(o, atol(n.c_str())); if (use) for (auto& op : ops_of(kind)) { std::fill(a.begin(), a.end(), 0.5); obj_run(o, op, a.data(), b.data()); } }
        if (c.num("move")) { Obj p; { LibScope ls; p = std::move(o); } obj_destroy(p); } else obj_destroy(o);
        AllocStats s = va_stats();
        if (r == 0) base = s;
        else if (s.live_blocks != base.live_blocks || s.live_bytes != base.live_bytes) { sub_fail(id, fmt("after cycle %d of create/re-size/destroy %ld blocks (%ld bytes) more are live than after the first", r + 1, s.live_blocks - base.live_blocks, s.live_bytes - base.live_bytes)); break; }
    }
    // re-sizing one object round and round
    { Obj o; obj_create(o, kind, be, atol(ns[0].c_str()));
      for (int r = 0; r < reps && !sub_enough(); r++) {
        for (auto& n : ns) { obj_setup(o, atol(n.c_str())); if (use) { std::fill(a.begin(), a.end(), 0.5); obj_run(o, ops_of(kind)[r % ops_of(kind).size()], a.data(), b.data()); } }
        AllocStats s = va_stats();
        if (r == 1) in1 = s;
        else if (r > 1 && (s.live_blocks != in1.live_blocks || s.live_bytes != in1.live_bytes)) { sub_fail(id, fmt("after round %d of re-sizing one object %ld blocks (%ld bytes) more are live than after round 2", r + 1, s.live_blocks - in1.live_blocks, s.live_bytes - in1.live_bytes)); break; }
      }
      obj_destroy(o);
      AllocStats s = va_stats(); if (s.live_blocks != base.live_blocks && !sub_enough()) sub_fail(id, fmt("destroying a re-sized object leaves %ld blocks", s.live_blocks - base.live_blocks)); }
    if (va_corruption()) sub_fail(id, va_corruption());
    nt = va_stats().calls - c0 > reps;
    tally("leak cycles", reps); tally("allocations in leak cycles", va_stats().calls - c0);
    sub_done(id, nt);
}
static RegB r1("mem", b_mem), r2("leak", b_leak);
static long any_len(Rng& g, char kind, bool th)
{
    long n;
    switch (g.below(7)) {
    case 0: n = 1L << g.below(th ? 18 : 16); break;
    case 1: n = 1 + (long)g.below(300); break;
    case 2: n = 300 + (long)g.below(4000); break;
    case 3: n = g.pick({3, 5, 7, 9, 11, 13, 15, 25, 27, 45, 49, 75, 77, 125, 135, 343}) * (1L << g.below(9)); break;
    case 4: n = (long)g.pick({32768, 40960, 49152, 36864, 32772, 50000, 46656, 61440, 39366, 35721, 34300, 65536}); break;
    case 5: n = g.pick({2, 4, 6, 8, 10, 12, 14, 16, 18, 22, 26, 1024, 1536, 2000}) ; break;
    default: n = 1 + (long)g.below(64);
    }
    if ((kind == 'r' || kind == 'd') && (n & 1)) n++;
    return n;
}
static RegP rp("C08", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 6007 + 1); static const char* bes[] = {"sse2", "avx", "avx2"};
    struct Q { std::string s; double cost; }; std::vector<Q> q;
    auto ops = [](char k) { std::string r; for (auto& o : ops_of(k)) r += (r.empty() ? "" : ",") + o; return r; };
    auto Tt = [&](long n) { return n >= 4096 && g.chance(.6) ? fmt("%d:%d", (int)g.pick({2, 3, 4, 5, 7, 8, 16, 72}), (int)g.below(1000)) : std::string("1:0"); };
    auto mem = [&](char k, long n, const std::string& be, const std::string& mode, long off, long n0) {
        if ((k == 'r' || k == 'd') && (n & 1)) n++;
        if (k != 'b' && (double)n * max_prime(n) > 2e7) n = 4096;
        Case c; c.word = "mem"; c.set("kind", std::string(1, k)).set("n", n).set("be", be).set("op", ops(k)).set("mode", mode).set("off", off).set("n0", n0).set("T", Tt(n)).set("sig", "uni").setu("seed", g.below(100000)); q.push_back(Q{c.str(), (double)n * (1 + be.size() / 5) * (k == 'b' ? 6 : 1) * mode.size()}); };
    for (char k : std::string("crdb")) {
        long lim = th ? 1100 : 160;
        for (long n = 1; n <= lim; n++) { if ((k == 'r' || k == 'd') && (n & 1)) continue; for (long off = 0; off < 2; off++) mem(k, n, "sse2,avx,avx2", "E,S", off, 0); }
        for (int l = 8; l <= (th ? 20 : 18); l++) for (auto be : bes) mem(k, 1L << l, be, l <= 14 || th ? "E,S" : g.chance(.5) ? "E" : "S", (long)g.below(2), 0);
        for (int i = 0; i < (th ? 2500 : 220); i++) mem(k, any_len(g, k, th), bes[g.below(3)], g.chance(.5) ? "E" : "S", (long)g.below(2), g.chance(.5) ? any_len(g, k, false) : 0);
        for (int i = 0; i < (th ? 2000 : 150); i++) {
            std::string ns; int m = 1 + (int)g.below(4); for (int j = 0; j < m; j++) ns += (j ? "," : "") + std::to_string(g.chance(.8) ? std::min(any_len(g, k, false), 2048L) : any_len(g, k, false));
            Case c; c.word = "leak"; c.set("kind", std::string(1, k)).set("be", bes[g.below(3)]).set("ns", ns).set("reps", (long)g.range(3, 6)).set("use", (long)g.chance(.5)).set("first0", (long)g.chance(.3)).set("move", (long)g.chance(.3)).set("T", g.chance(.7) ? "1:0" : "3:5"); q.push_back(Q{c.str(), 3000}); }
        for (int l = 0; l <= (th ? 22 : 19); l++) { Case c; c.word = "leak"; c.set("kind", std::string(1, k)).set("be", bes[g.below(3)]).set("ns", fmt("%ld,%ld", 1L << (l ? l : 1), l > 3 ? 12L << (l - 3) : 6L)).set("reps", 4L).set("use", (long)(l < 14)).set("first0", 0L).set("move", 0L).set("T", "1:0"); q.push_back(Q{c.str(), (double)(1 << l)}); }
    }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) out.push_back(x.s);
});

// ---------------------------------------------------------------- C12
// scen: cre (create n)  late (create 0, setup n)  re (create n1, setup n)   kind be n n1 from to  pers=0|1|r(run of 2..)  then=d|s|r  n2
static bool check_obj(Obj& o, uint64_t seed, std::string& why)
{
    static int rot = 0; auto& ops = ops_of(o.kind); long n = o.n;
    for (int k = 0; k < 2; k++) {
        std::string op = ops[(rot++) % ops.size()]; bool inv = op_inverse(op);
        const XRef& R = xref(o.kind, inv, n, "uni", seed);
        std::vector<double> a(2 * n), b(2 * n); std::copy(R.in.begin(), R.in.end(), a.begin());
        obj_run(o, op, a.data(), b.data());
        double e = rel_err(o.kind == 'r' ? b.data() : a.data(), R.ref, op_scale(op, n), R.innorm, R.zero);
        if (!(e <= tol_loose(o.kind, n))) { why = fmt("%s of length %ld has relative error %.3g", op.c_str(), n, e); return false; }
        if (va_corruption()) { why = va_corruption(); return false; }
    }
    return true;
}
static void b_oom(const Case& c)
{
    char kind = c.get("kind")[0]; std::string be = c.get("be"), scen = c.get("scen", "cre"), then = c.get("then", "d"); long n = c.num("n"), n1 = c.num("n1", 8), n2 = c.num("n2", 8); char bk = c.get("bk", "c")[0]; long bn = c.num("bn", 64);
    bool pers = c.num("pers") != 0; int T; uint64_t sc; parse_T(c.get("T", "1:0"), T, sc); int mode = (int)c.num("mode", AM_POISON);
    std::string base_id = c.str(); sub_begin(base_id);
    va_mode(mode); vomp_set(T, sc);
    std::string why;
    { Obj w; obj_create(w, 'c', be, 4); }                       // one-time initialisation
    Obj by; obj_create(by, bk, be, bn);
    // undisturbed run: how many allocations does the faulted phase make?
    auto prepare = [&](Obj& o) { if (scen == "late") obj_create(o, kind, be, 0); else if (scen == "re") { obj_create(o, kind, be, n1); } };
    auto act = [&](Obj& o) { if (scen == "cre") obj_create(o, kind, be, n); else obj_setup(o, n); };
    long cnt; { Obj o; prepare(o); long s0 = va_stats().calls; act(o); cnt = va_stats().calls - s0; if (!check_obj(o, 3, why)) sub_fail(base_id, "without any failure: " + why); obj_destroy(o); }
    long from = c.num("from", 0), to = c.num("to", cnt); if (to > cnt) to = cnt;
    long live0 = va_stats().live_blocks, bytes0 = va_stats().live_bytes;
    note_max("allocations in one phase", cnt);
    for (long k = from; k < to && !sub_enough(); k++) {
        Case s = c; s.set("from", k).set("to", k + 1); std::string id = s.str(); sub_begin(id);
        Obj o; bool thrown = false; std::string other; vomp_set(T, sc);
        prepare(o);
        { long f0 = va_stats().failed;
          va_fail(k, pers);
          try { act(o); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::exception& e) { other = e.what(); } catch (...) { other = "unknown exception"; }
          va_fail_off();
          bool hit = va_stats().failed > f0;
          if (!other.empty()) sub_fail(id, "failed allocation surfaced as something other than std::bad_alloc: " + other);
          else if (hit && !thrown) {
              // tolerated only if the object is complete nevertheless (the failed allocation was optional)
              if (!o.live() || !check_obj(o, 3, why)) sub_fail(id, "allocation failed without an exception and the object is unusable: " + why); tally("failure absorbed"); }
          else if (thrown) tally(pers ? "bad_alloc, memory exhausted" : "bad_alloc, one failure"); }
        if (sub_enough()) break;
        bool bad = false;
        if (scen == "cre") { if (thrown && (va_stats().live_blocks != live0 || va_stats().live_bytes != bytes0)) { sub_fail(id, fmt("failed creation leaks %ld blocks (%ld bytes)", va_stats().live_blocks - live0, va_stats().live_bytes - bytes0)); bad = true; } }
        if (!bad && o.live() && thrown) {
            o.n = 0;
            for (char w : then) {
                if (w == 'd') obj_destroy(o);
                else if (w == 's') { vomp_set(T, sc); obj_setup(o, n); if (!check_obj(o, 5, why)) { sub_fail(id, "after a failed setup and a successful one to the same length: " + why); bad = true; break; } }
                else if (w == 'r') { vomp_set(T, sc); obj_setup(o, n2); if (!check_obj(o, 5, why)) { sub_fail(id, "after a failed setup and a successful one to another length: " + why); bad = true; break; } }
                else if (w == 'f') { va_fail(0, true); try { obj_setup(o, n2); } catch (const std::bad_alloc&) {} va_fail_off(); o.n = 0; }
                if (!o.live()) break;
            }
            tally(std::string("recovery ") + then);
        }
        obj_destroy(o);
        if (!bad && (va_stats().live_blocks != live0 || va_stats().live_bytes != bytes0)) sub_fail(id, fmt("after recovery and destruction %ld blocks (%ld bytes) remain", va_stats().live_blocks - live0, va_stats().live_bytes - bytes0));
        if (!bad && !check_obj(by, 9, why)) sub_fail(id, "another object was affected: " + why);
        if (va_corruption()) { sub_fail(id, va_corruption()); va_clear_corruption(); }
        tally("scenario " + scen); tally(fmt("kind %c", kind)); tally("be " + be);
        sub_done(id, true);
    }
    obj_destroy(by);
    if (mode >= AM_END) va_reset();
    va_mode(AM_PASS);
}
// transforms while no memory can be had: kind be n T
static void b_oomx(const Case& c)
{
    char kind = c.get("kind")[0]; long n = c.num("n"); int T; uint64_t sc; parse_T(c.get("T", "1:0"), T, sc); va_mode(AM_POISON);
    for (auto& be : c.list("be")) {
        Obj o; vomp_set(T, sc); obj_create(o, kind, be, n);
        for (auto& op : ops_of(kind)) {
            Case s = c; s.set("be", be).set("op", op); std::string id = s.str(); sub_begin(id);
            if (!c.get("op").empty() && c.get("op") != op) continue;
            bool inv = op_inverse(op); const XRef& R = xref(kind, inv, n, "uni", c.u64("seed", 1));
            std::vector<double> a(2 * n), b(2 * n); std::copy(R.in.begin(), R.in.end(), a.begin());
            vomp_set(T, sc); long f0 = va_stats().failed; va_fail(0, true);
            try { obj_run(o, op, a.data(), b.data()); va_fail_off(); } catch (...) { va_fail_off(); sub_fail(id, "a transform threw when no memory was available"); }
            double e = rel_err(kind == 'r' ? b.data() : a.data(), R.ref, op_scale(op, n), R.innorm, R.zero);
            if (!(e <= tol_loose(kind, n))) sub_fail(id, fmt("with no memory available the result has relative error %.3g (%ld allocations refused)", e, va_stats().failed - f0));
            tally("transform without memory"); sub_done(id, n >= 2);
            if (sub_enough()) break;
        }
        obj_destroy(o); if (sub_enough()) break;
    }
    va_mode(AM_PASS);
}
static RegB r3("oom", b_oom), r4("oomx", b_oomx);
static RegP rp2("C12", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 4001 + 9); static const char* bes[] = {"sse2", "avx", "avx2"};
    static const char* thens[] = {"d", "s", "r", "sr", "rs", "fd", "fs", "ffr", "fsr"};
    struct Q { std::string s; double cost; }; std::vector<Q> q;
    auto fix = [](char k, long n) { if ((k == 'r' || k == 'd') && (n & 1)) n++; if (k != 'b' && (double)n * max_prime(n) > 1e7) n = 2048; return n; };
    auto put = [&](char k, const std::string& be, const std::string& scen, long n, bool pers, const std::string& then) {
        n = fix(k, n); Case c; c.word = "oom"; char bk = "crdb"[g.below(4)]; c.set("kind", std::string(1, k)).set("be", be).set("scen", scen).set("n", n).set("n1", fix(k, g.chance(.8) ? std::min(any_len(g, k, false), 4096L) : any_len(g, k, false))).set("n2", fix(k, std::min(any_len(g, k, false), 4096L))).set("pers", (long)pers).set("then", then).set("bk", std::string(1, bk)).set("bn", (long)g.pick({2, 16, 30, 64, 100, 256, 1000})).set("T", n >= 8192 && g.chance(.5) ? "4:7" : "1:0").set("mode", (long)(n < 5000 && g.chance(.2) ? AM_END : AM_POISON)); q.push_back(Q{c.str(), (double)n * (k == 'b' ? 30 : 8)}); };
    static const char* scens[] = {"cre", "late", "re"};
    for (char k : std::string("crdb")) for (auto be : bes) {
        // every length class of every engine, every scenario, single failure and exhausted memory
        for (int l = 0; l <= (th ? 19 : 17); l++) for (auto sc : scens) for (int p = 0; p < 2; p++) { if (!th && l > 14 && (p || g.chance(.5))) continue; put(k, be, sc, 1L << l, p, std::string(sc) == "cre" ? "d" : thens[g.below(9)]); }
        for (int i = 0; i < (th ? 400 : 90); i++) { auto sc = scens[i % 3]; put(k, be, sc, g.chance(.85) ? std::min(any_len(g, k, false), 6000L) : any_len(g, k, false), g.chance(.5), std::string(sc) == "cre" ? "d" : thens[g.below(9)]); }
        for (int i = 0; i < (th ? 200 : 40); i++) { Case c; c.word = "oomx"; c.set("kind", std::string(1, k)).set("be", be).set("n", fix(k, any_len(g, k, th))).set("T", g.chance(.5) ? "1:0" : fmt("%d:%d", (int)g.range(2, 8), (int)g.below(100))).setu("seed", g.below(1000)); q.push_back(Q{c.str(), 5000}); }
        for (int l = 13; l <= (th ? 21 : 18); l++) { Case c; c.word = "oomx"; c.set("kind", std::string(1, k)).set("be", be).set("n", 1L << l).set("T", l % 2 ? "1:0" : "4:3").setu("seed", g.below(1000)); q.push_back(Q{c.str(), (double)(1 << l) * 4}); }
    }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) out.push_back(x.s);
});
