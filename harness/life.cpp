// C11 (lifetime): the factory works before main (static initialisation) and after it (termination). The case runs this
// executable again with OTFFT_EARLY set: everything then happens in the first constructor and the last destructor.
#include "otfft.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <new>
#include "xf.h"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
using namespace OTFFT;
namespace {
struct Early { ComplexFFTPtr c, b; RealFFTPtr r; RealDCTPtr d; };
alignas(16) unsigned char store[sizeof(Early)]; Early* ea = nullptr; int en = 0; bool live = false;
alignas(64) double X[2 * 4096], Y[2 * 4096];
const char* try_all(int n)      // transforms of a unit impulse: constant one (complex, real); back again
{
    for (int k = 0; k < 2; k++) {
        ComplexFFTPtr& f = k ? ea->b : ea->c; memset(X, 0, sizeof X); X[0] = 1; f->fwd0((complex_t*)X);
        for (int i = 0; i < n; i++) if (!(X[2 * i] > 0.999999 && X[2 * i] < 1.000001 && X[2 * i + 1] < 1e-6 && X[2 * i + 1] > -1e-6)) return k ? "wrong Bluestein transform" : "wrong complex transform";
        f->invn((complex_t*)X); if (!(X[0] > 0.999999 && X[0] < 1.000001 && X[2] < 1e-6 && X[2] > -1e-6)) return "wrong inverse transform";
    }
    memset(X, 0, sizeof X); X[0] = 1; ea->r->fwd0(X, (complex_t*)Y); for (int i = 0; i <= n / 2; i++) if (!(Y[2 * i] > 0.999999 && Y[2 * i] < 1.000001)) return "wrong real transform";
    memset(X, 0, sizeof X); X[1] = 1; ea->d->fwd(X); ea->d->inv(X); if (!(X[1] > 0.999999 && X[1] < 1.000001 && X[0] < 1e-6 && X[0] > -1e-6)) return "wrong DCT";
    return nullptr;
}
void say(const char* s) { ssize_t w = write(1, s, strlen(s)); (void)w; }
__attribute__((constructor(101))) void early()
{
    const char* e = getenv("OTFFT_EARLY"); if (!e) return;
    en = atoi(e); live = true; const char* r = nullptr;
    try { ea = new (store) Early; bool l = en < 0; if (l) en = -en; int n = l ? 0 : en;
        ea->c = Factory::createComplexFFT(n); ea->b = Factory::createBluesteinFFT(n); ea->r = Factory::createRealFFT(n); ea->d = Factory::createDCT(n);
        if (l) { ea->c->setup(en); ea->b->setup(en); ea->r->setup(en); ea->d->setup(en); }
        r = try_all(en); }
    catch (const std::exception& x) { r = x.what(); }
    say("before main: "); say(r ? r : "ok"); say("\n");
    if (r) _exit(0);
}
__attribute__((constructor(65535))) void leave() { if (live) exit(0); }
__attribute__((destructor(101))) void late()
{
    if (!live) return;
    const char* r = try_all(en);
    try { if (!r) { int m = en / 2 + en / 2 % 2; if (m < 2) m = 2; ea->c->setup(m); ea->b->setup(m); ea->r->setup(m); ea->d->setup(m); r = try_all(m); }
        if (!r) { auto f = Factory::createComplexFFT(en); auto g = Factory::createDCT(en); f->fwd((complex_t*)X); g->fwd(X); }
        ea->~Early(); }
    catch (const std::exception& x) { r = x.what(); }
    say("after main: "); say(r ? r : "ok"); say("\n");
}
void b_life(const Case& c)
{
    std::string id = c.str(); sub_begin(id); int fd[2]; if (pipe(fd)) return; fflush(stdout); std::string n = c.get("n"), out;
    pid_t p = fork();
    if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(fd[1], 1); close(fd[0]); alarm(60); setenv("OTFFT_EARLY", n.c_str(), 1); execl("/proc/self/exe", "h", (char*)0); _exit(9); }
    close(fd[1]); char b[256]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, k); close(fd[0]); int st = 0; waitpid(p, &st, 0);
    if (out != "before main: ok\nafter main: ok\n" || !WIFEXITED(st) || WEXITSTATUS(st) != 0) { for (auto& ch : out) if (ch == '\n') ch = ';'; sub_fail(id, fmt("objects with static lifetime: %s %s", out.c_str(), WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)).c_str() : "")); }
    tally("objects used before and after main"); sub_done(id, true);
}
RegB rb("life", b_life);
RegP rp("C11life", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 3 + 2);
    for (int n : {2, 4, 6, 16, 64, 100, 128, 1000, 1024, 2048, 4096}) for (int s : {1, -1}) out.push_back(fmt("life n=%d", n * s));
    for (int i = 0; i < (th ? 400 : 40); i++) out.push_back(fmt("life n=%d", (int)(2 + 2 * g.below(2047)) * (g.below(2) ? 1 : -1)));
});
}
