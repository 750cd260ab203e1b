#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <cstdarg>
#include <cstdlib>
#include <atomic>
#include <algorithm>
#include <unordered_set>
#include <ctime>

std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r; size_t a = 0;
    while (a <= s.size()) { size_t b = s.find(c, a); if (b == std::string::npos) b = s.size(); if (b > a) r.push_back(s.substr(a, b - a)); a = b + 1; }
    return r;
}
std::string fmt(const char* f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
Case Case::parse(const std::string& s)
{
    Case c; auto p = split(s, ' ');
    for (size_t i = 0; i < p.size(); i++) { if (i == 0) { c.word = p[0]; continue; } size_t e = p[i].find('='); if (e == std::string::npos) c.kv[p[i]] = ""; else c.kv[p[i].substr(0, e)] = p[i].substr(e + 1); }
    return c;
}
std::string Case::str() const { std::string r = word; for (auto& k : kv) r += " " + k.first + "=" + k.second; return r; }
std::vector<std::string> Case::list(const std::string& k) const { return split(get(k), ','); }

static std::map<std::string, BundleFn>& bundles() { static std::map<std::string, BundleFn> m; return m; }
static std::map<std::string, GenFn>& props() { static std::map<std::string, GenFn> m; return m; }
void register_bundle(const std::string& w, BundleFn f) { bundles()[w] = f; }
void register_prop(const std::string& w, GenFn f) { props()[w] = f; }

static const int MAXW = 16, MAXFAIL = 64, MAXCLS = 512, NSAMP = 24;
static const long HCAP = 3000000;
struct Fail { char bundle[40000], sub[40000], detail[600]; int kind; int w; long from, pos; }; // kind 0 wrong, 1 crash, 2 hang
struct Shared {
    std::atomic<long> next, nfail, stop;
    std::atomic_flag lk;
    struct W { std::atomic<long> bundle; std::atomic<long> t0; char sub[40000]; std::atomic<long> evals, nontrivial, nh; long from, nseq; } w[MAXW];
    Fail fails[MAXFAIL];
    struct Cls { char name[56]; long n; double mx; } cls[MAXCLS]; int ncls;
    struct Smp { uint64_t h; char s[600]; } smp[NSAMP]; int nsmp;
};
static Shared* S; static uint64_t* H[MAXW]; static uint32_t* SEQ[MAXW]; // SEQ: the bundles each worker ran, in order
static int me = 0; static std::string cur_bundle; static int bundle_fails = 0; static bool one_mode = false; static long budget_sub = 150;
struct LK { LK() { while (S->lk.test_and_set(std::memory_order_acquire)) usleep(1); } ~LK() { S->lk.clear(std::memory_order_release); } };
static long now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }

template <size_t N> static void set_str(char (&d)[N], const std::string& s) { size_t k = s.size() < N ? s.size() : N - 1; memcpy(d, s.data(), k); d[k] = 0; }
void sub_begin(const std::string& s) { auto& w = S->w[me]; set_str(w.sub, s); w.t0 = now(); if (one_mode && getenv("H_TRACE")) fprintf(stderr, "%s\n", s.c_str()); }
void sub_done(const std::string& s, bool nt)
{
    auto& w = S->w[me]; w.evals++;
    if (!nt) return;
    w.nontrivial++;
    uint64_t h = hash64(s.data(), s.size());
    if (w.nh < HCAP) { H[me][w.nh] = h; w.nh++; }
    if (S->nsmp < NSAMP || h < S->smp[S->nsmp - 1].h) {
        LK l; int i = S->nsmp < NSAMP ? S->nsmp++ : NSAMP - 1;
        for (int k = 0; k < i; k++) if (S->smp[k].h == h) { if (S->nsmp - 1 == i) S->nsmp--; return; }
        while (i > 0 && S->smp[i - 1].h > h) { S->smp[i] = S->smp[i - 1]; i--; }
        S->smp[i].h = h; memset(S->smp[i].s, 0, sizeof S->smp[i].s); strncpy(S->smp[i].s, s.c_str(), sizeof S->smp[i].s - 1);
    }
}
static void put_fail(const std::string& b, const std::string& s, const std::string& d, int kind, int wk)
{
    LK l; long i = S->nfail; if (i >= MAXFAIL) return;
    Fail& f = S->fails[i];
    set_str(f.bundle, b); set_str(f.sub, s); set_str(f.detail, d); f.kind = kind; f.w = wk; f.from = S->w[wk].from; f.pos = S->w[wk].nseq;
    S->nfail = i + 1;
}
void sub_fail(const std::string& s, const std::string& d) { if (++bundle_fails <= 3) put_fail(cur_bundle, s, d, 0, me); }
bool sub_enough() { return bundle_fails >= 3; }
static Shared::Cls* cls(const std::string& n)
{
    for (int i = 0; i < S->ncls; i++) if (n == S->cls[i].name) return &S->cls[i];
    if (S->ncls >= MAXCLS) return nullptr;
    auto* c = &S->cls[S->ncls]; strncpy(c->name, n.c_str(), sizeof c->name - 1); c->n = 0; c->mx = -1; S->ncls++; return c;
}
// buffered per worker, flushed at bundle ends
static std::map<std::string, long> tl; static std::map<std::string, double> tm;
void tally(const std::string& c, long n) { tl[c] += n; }
void note_max(const std::string& n, double v) { auto i = tm.find(n); if (i == tm.end()) tm[n] = v; else if (!(v <= i->second)) i->second = v; }
static void flush_stats()
{
    LK l;
    for (auto& t : tl) if (auto* c = cls(t.first)) c->n += t.second;
    for (auto& t : tm) if (auto* c = cls("max:" + t.first)) { if (!(t.second <= c->mx)) c->mx = t.second; }
    tl.clear(); tm.clear();
}
static void run_bundle(const std::string& line)
{
    Case c = Case::parse(line);
    auto i = bundles().find(c.word);
    cur_bundle = line; bundle_fails = 0;
    if (c.word == "startup") return;
    if (i == bundles().end()) { fprintf(stderr, "unknown bundle %s\n", line.c_str()); _exit(9); }
    va_clear_corruption(); va_fail_off();
    i->second(c);
    flush_stats();
}
void run_sub_bundle(const Case& c) { auto i = bundles().find(c.word); if (i != bundles().end()) i->second(c); }
static std::string jesc(const char* s) { std::string r; for (; *s; s++) { if (*s == '"' || *s == '\\') { r += '\\'; r += *s; } else if ((unsigned char)*s < 32) r += ' '; else r += *s; } return r; }
static void alloc_shared()
{
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto& h : SEQ) h = (uint32_t*)mmap(nullptr, HCAP * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (auto& h : H) h = (uint64_t*)mmap(nullptr, HCAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void limits(long mb) { if (mb > 0) { rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r); } }
// run one line in a child; 0 ok, 1 failed (detail printed), by signal -> failed
static int run_child(const std::vector<std::string>& lines, long tmo_s, std::string& detail)
{
    S->nfail = 0; long t0 = now(); S->w[0].sub[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); limits(1); me = 0; one_mode = true; for (size_t i = 0; i < lines.size(); i++) { S->w[0].bundle = (long)i; run_bundle(lines[i]); if (S->nfail > 0) break; } fflush(stdout); _exit(0); }
    int st;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > tmo_s * 1000) { kill(p, SIGKILL); waitpid(p, &st, 0); detail = fmt("did not finish within %ld s", tmo_s); return 1; }
        usleep(now() - t0 > 100 ? 5000 : 200);
    }
    if (WIFSIGNALED(st)) { detail = fmt("killed by signal %d in: %s", WTERMSIG(st), S->w[0].sub); return 1; }
    if (WEXITSTATUS(st) != 0) { detail = fmt("exit status %d in: %s", WEXITSTATUS(st), S->w[0].sub); return 1; }
    if (S->nfail > 0) { detail = std::string(S->fails[0].sub) + " : " + S->fails[0].detail; return 1; }
    return 0;
}
int main(int argc, char** argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    alloc_shared();
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "one" && argc > 2) {
        std::string d; int r = run_child({argv[2]}, argc > 3 ? atol(argv[3]) : 300, d);
        printf("%s %s\n", r ? "FAIL" : "OK", d.c_str());
        if (getenv("H_STATS")) for (int i = 0; i < S->ncls; i++) printf("  %s %ld %g\n", S->cls[i].name, S->cls[i].n, S->cls[i].mx);
        return r;
    }
    if (mode == "seq" && argc > 2) { // all lines of stdin, one after another in one process; prints the index of the line that failed
        static char buf[65536]; std::vector<std::string> v;
        while (fgets(buf, sizeof buf, stdin)) { std::string l(buf); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); if (!l.empty()) v.push_back(l); }
        std::string d; int r = run_child(v, atol(argv[2]), d);
        printf("%s %ld %s\n", r ? "FAIL" : "OK", (long)S->w[0].bundle, d.c_str()); return r;
    }
    if (mode == "batch" && argc > 2) { // lines on stdin; prints index of the first failing line
        static char buf[65536]; int i = 0; long tmo = atol(argv[2]);
        while (fgets(buf, sizeof buf, stdin)) {
            std::string l(buf); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
            if (l.empty()) continue;
            std::string d; if (run_child({l}, tmo, d)) { printf("FIRST %d %s\n", i, d.c_str()); return 1; }
            i++;
        }
        printf("NONE\n"); return 0;
    }
    if ((mode == "run" || mode == "list") && argc > 4) {
        // run <prop> <quick|thorough> <seed> <workers> <deadline_s> <out.json>
        std::string id = argv[2]; bool th = std::string(argv[3]) == "thorough"; uint64_t seed = strtoull(argv[4], 0, 10);
        if (!props().count(id)) { fprintf(stderr, "no property %s\n", id.c_str()); return 4; }
        if (!ref_selftest()) { fprintf(stderr, "reference self-test failed\n"); return 5; }
        std::vector<std::string> bl; props()[id](th, seed, bl);
        if (mode == "list") { for (auto& b : bl) puts(b.c_str()); return 0; }
        int nw = argc > 5 ? atoi(argv[5]) : 8; long dl = argc > 6 ? atol(argv[6]) : 600;
        if (nw > MAXW) nw = MAXW;
        if (th) budget_sub = 900;
        long t0 = now();
        std::vector<pid_t> pid(nw, 0);
        long total = (long)bl.size(); bool trunc = false;
        auto spawn = [&](int k) {
            S->w[k].bundle = -1; S->w[k].t0 = now(); S->w[k].from = S->w[k].nseq;
            pid_t p = fork();
            if (!p) {
                prctl(PR_SET_PDEATHSIG, SIGKILL); limits(1); me = k;
                for (;;) {
                    if (S->stop || S->nfail >= 12) break;
                    long b = S->next++; if (b >= total) break;
                    S->w[k].sub[0] = 0; S->w[k].t0 = now(); S->w[k].bundle = b; if (S->w[k].nseq < HCAP) SEQ[k][S->w[k].nseq++] = (uint32_t)b;
                    long tb = now(); run_bundle(bl[b]);
                    if (getenv("H_TIME")) fprintf(stderr, "TIME %ld %s\n", now() - tb, bl[b].c_str());
                }
                S->w[k].bundle = -1; fflush(stdout); _exit(0);
            }
            pid[k] = p; };
        for (int k = 0; k < nw; k++) spawn(k);
        int alive = nw;
        while (alive > 0) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                for (int k = 0; k < nw; k++) if (pid[k] == p) {
                    pid[k] = 0; alive--;
                    if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
                        long b = S->w[k].bundle; std::string why = WIFSIGNALED(st) ? fmt("worker killed by signal %d", WTERMSIG(st)) : fmt("worker exit %d", WEXITSTATUS(st));
                        S->lk.clear();
                        put_fail(b >= 0 ? bl[b] : "?", S->w[k].sub, why, 1, k);
                        if (S->next < total && S->nfail < 12 && !S->stop) { spawn(k); alive++; }
                    }
                }
                continue;
            }
            long t = now();
            if (t - t0 > dl * 1000 && !S->stop) { S->stop = 1; trunc = true; }
            for (int k = 0; k < nw; k++) if (pid[k] && S->w[k].bundle >= 0 && t - S->w[k].t0 > budget_sub * 1000) {
                long b = S->w[k].bundle; kill(pid[k], SIGKILL); int st2; waitpid(pid[k], &st2, 0); pid[k] = 0; alive--;
                S->lk.clear();
                put_fail(bl[b], S->w[k].sub, fmt("did not finish within %ld s", budget_sub), 2, k);
                if (S->next < total && S->nfail < 12 && !S->stop) { spawn(k); alive++; }
            }
            usleep(2000);
        }
        std::unordered_set<uint64_t> u; long ev = 0, nt = 0;
        for (int k = 0; k < nw; k++) { ev += S->w[k].evals; nt += S->w[k].nontrivial; u.insert(H[k], H[k] + S->w[k].nh); }
        FILE* o = argc > 7 ? fopen(argv[7], "w") : stdout;
        long done = S->next < total ? (long)S->next : total;
        fprintf(o, "{\"bundles_total\":%ld,\"bundles_done\":%ld,\"truncated\":%s,\"evaluations\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,\"wall_s\":%.2f,\n\"fails\":[", total, done, trunc ? "true" : "false", ev, nt, u.size(), (now() - t0) / 1000.0);
        for (long i = 0; i < S->nfail; i++) { fprintf(o, "%s{\"bundle\":\"%s\",\"sub\":\"%s\",\"detail\":\"%s\",\"kind\":%d,\"before\":[", i ? "," : "", jesc(S->fails[i].bundle).c_str(), jesc(S->fails[i].sub).c_str(), jesc(S->fails[i].detail).c_str(), S->fails[i].kind);
            // what the same process had run before
            if (i < 4 || S->fails[i].pos - S->fails[i].from < 400) for (long q = S->fails[i].from; q + 1 < S->fails[i].pos; q++) fprintf(o, "%s%u", q > S->fails[i].from ? "," : "", SEQ[S->fails[i].w][q]);
            fprintf(o, "]}"); }
        fprintf(o, "],\n\"classes\":{");
        bool first = true;
        for (int i = 0; i < S->ncls; i++) { auto& c = S->cls[i]; if (!strncmp(c.name, "max:", 4)) continue; fprintf(o, "%s\"%s\":%ld", first ? "" : ",", jesc(c.name).c_str(), c.n); first = false; }
        fprintf(o, "},\n\"maxima\":{"); first = true;
        for (int i = 0; i < S->ncls; i++) { auto& c = S->cls[i]; if (strncmp(c.name, "max:", 4)) continue; fprintf(o, "%s\"%s\":%g", first ? "" : ",", jesc(c.name + 4).c_str(), std::isfinite(c.mx) ? c.mx : 1e300); first = false; }
        fprintf(o, "},\n\"samples\":[");
        for (int i = 0; i < S->nsmp; i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(S->smp[i].s).c_str());
        fprintf(o, "]}\n"); fclose(o);
        return S->nfail > 0 ? 1 : 0;
    }
    fprintf(stderr, "usage: %s run <prop> <tier> <seed> [workers deadline out] | one <case> | batch <tmo>\n", argv[0]);
    return 2;
}
