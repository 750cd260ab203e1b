// C20: library calls leave the process as it was. Each case runs in a process of its own, with real libgomp, under a generated
// configuration of OpenMP settings, signals, locale and streams. A snapshot of the process state is compared around every call;
// standard output and error are captured; system calls with an effect outside the process are trapped.
#include "xf.h"
#include <omp.h>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <locale.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <stddef.h>
#include <unistd.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <algorithm>
#include <iostream>
#include <locale>
#include <new>
#include <exception>
using namespace OTFFT;
extern char** environ;
namespace {
volatile int sys_nr = -1; volatile bool in_lib = false;
void on_sys(int, siginfo_t* si, void* uc) { if (in_lib && sys_nr < 0) sys_nr = si->si_syscall; ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RAX] = -38; }
bool filter()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
    std::vector<sock_filter> f;
    auto st = [&](unsigned code, unsigned k) { f.push_back(sock_filter BPF_STMT((unsigned short)code, k)); };
    auto jp = [&](unsigned code, unsigned k, int t, int e) { sock_filter x = BPF_JUMP((unsigned short)code, k, (unsigned char)t, (unsigned char)e); f.push_back(x); };
    const unsigned TRAP = SECCOMP_RET_TRAP, OK = SECCOMP_RET_ALLOW;
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    for (int nr : {SYS_creat, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_chmod, SYS_fchmodat, SYS_chown,
                   SYS_truncate, SYS_socket, SYS_connect, SYS_fork, SYS_vfork, SYS_execve, SYS_execveat, SYS_kill, SYS_ptrace, SYS_sched_setaffinity, SYS_sched_setscheduler, SYS_sched_setparam, SYS_setpriority,
                   SYS_setitimer, SYS_timer_create, SYS_alarm, SYS_umask, SYS_chdir, SYS_fchdir, SYS_setuid, SYS_setgid, SYS_setsid, SYS_setpgid, SYS_shmget, SYS_mq_open, SYS_setrlimit, SYS_personality}) {
        jp(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1); st(BPF_RET | BPF_K, TRAP); }
    jp(BPF_JMP | BPF_JEQ | BPF_K, SYS_clone3, 0, 1); st(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | 38);
    auto arg = [&](int nr, int i, unsigned mask, bool trap_if_set) {      // trap nr when (argument & mask) is set / not set
        jp(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 4); st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, args) + 8 * i);
        jp(BPF_JMP | BPF_JSET | BPF_K, mask, trap_if_set ? 0 : 1, trap_if_set ? 1 : 0); st(BPF_RET | BPF_K, TRAP); st(BPF_RET | BPF_K, OK); };
    const unsigned W = O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND;
    arg(SYS_open, 1, W, true); arg(SYS_openat, 2, W, true); arg(SYS_clone, 0, 0x10000 /* CLONE_THREAD */, false);
    st(BPF_RET | BPF_K, OK);
    sock_fprog pr = {(unsigned short)f.size(), f.data()};
    return prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr) == 0;
}
typedef std::vector<std::pair<std::string, std::string>> Snap;
int count_dir(const char* d) { int n = 0; DIR* D = opendir(d); if (!D) return -1; while (dirent* e = readdir(D)) if (e->d_name[0] != '.') n++; closedir(D); return n; }
Snap snap()
{
    Snap s; auto put = [&](const char* k, const std::string& v) { s.emplace_back(k, v); }; auto num = [&](const char* k, long v) { put(k, std::to_string(v)); };
    num("the OpenMP thread count", omp_get_max_threads()); num("OpenMP dynamic adjustment", omp_get_dynamic()); num("OpenMP nesting depth limit", omp_get_max_active_levels());
    omp_sched_t k; int ch; omp_get_schedule(&k, &ch); put("the OpenMP run-time schedule", fmt("%d,%d", (int)k, ch)); num("the OpenMP thread limit", omp_get_thread_limit()); num("OpenMP thread binding", omp_get_proc_bind()); num("the OpenMP default device", omp_get_default_device()); num("the OpenMP nesting level", omp_get_level());
    cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); put("the CPU affinity", fmt("%016llx", (unsigned long long)hash64((char*)&cs, sizeof cs)));
    sigset_t m; sigemptyset(&m); sigprocmask(SIG_BLOCK, nullptr, &m); std::string ms; for (int i = 1; i < 65; i++) ms += sigismember(&m, i) == 1 ? '1' : '0'; put("the signal mask", ms);
    for (int i = 1; i < 65; i++) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(i, nullptr, &a) == 0) put("a signal handler", fmt("%d:%p:%x", i, (void*)a.sa_handler, a.sa_flags)); }
    put("the C locale", setlocale(LC_ALL, nullptr)); put("the C++ locale", std::locale().name());
    std::string env; for (char** e = environ; *e; e++) { env += *e; env += '\n'; } put("the environment", env);
    char cwd[4096]; put("the working directory", getcwd(cwd, sizeof cwd) ? cwd : "?");
    for (int r = 0; r < RLIM_NLIMITS; r++) { rlimit l; if (getrlimit((__rlimit_resource_t)r, &l) == 0) put("a resource limit", fmt("%d:%lu:%lu", r, (unsigned long)l.rlim_cur, (unsigned long)l.rlim_max)); }
    num("the priority", getpriority(PRIO_PROCESS, 0)); num("the scheduling policy", sched_getscheduler(0));
    for (int w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) { itimerval t; if (w != ITIMER_REAL && getitimer((__itimer_which_t)w, &t) == 0) num("a timer", t.it_value.tv_sec + t.it_value.tv_usec); }
    char nm[17] = ""; prctl(PR_GET_NAME, nm); put("the thread name", nm); num("PR_DUMPABLE", prctl(PR_GET_DUMPABLE)); num("the timer slack", prctl(PR_GET_TIMERSLACK)); num("transparent huge pages", prctl(PR_GET_THP_DISABLE, 0, 0, 0, 0));
    put("the terminate handler", fmt("%p", (void*)std::get_terminate())); put("the new handler", fmt("%p", (void*)std::get_new_handler()));
    for (std::ostream* o : {&std::cout, &std::cerr, &std::clog}) put("the state of a standard stream", fmt("%lx:%ld:%ld:%d:%p:%x", (long)o->flags(), (long)o->precision(), (long)o->width(), o->fill(), (void*)o->rdbuf(), (unsigned)o->exceptions() * 16 + (unsigned)o->rdstate()));
    DIR* D = opendir("/proc/self/fd"); if (D) { std::vector<std::string> v; while (dirent* e = readdir(D)) { int fd = atoi(e->d_name); if (e->d_name[0] == '.' || fd == dirfd(D)) continue; char b[300]; ssize_t l = readlinkat(dirfd(D), e->d_name, b, 299); v.push_back(fmt("%d->%.*s@%ld", fd, (int)(l < 0 ? 0 : l), b, (long)lseek(fd, 0, SEEK_CUR))); } closedir(D); std::sort(v.begin(), v.end()); std::string a; for (auto& x : v) a += x + " "; put("the open files", a); }
    FILE* f = fopen("/proc/self/status", "r"); if (f) { char b[400]; while (fgets(b, sizeof b, f)) if (!strncmp(b, "Umask", 5)) put("the umask", b); fclose(f); }
    return s;
}
std::string differ(const Snap& a, const Snap& b)
{
    if (a.size() != b.size()) return "the process state changed";
    for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return a[i].first + " changed from " + a[i].second.substr(0, 120) + " to " + b[i].second.substr(0, 120);
    return "";
}
struct Guard {
    Snap before; unsigned seed; int r0; long r1; int out; int tmax;
    template <class F> std::string call(F f)
    {
        fflush(nullptr); std::cout.flush(); srand(seed); srand48(seed); Snap a = snap(); off_t o0 = lseek(out, 0, SEEK_END); sys_nr = -1;
        in_lib = true; f(); in_lib = false;
        int q0 = rand(); long q1 = lrand48(); fflush(nullptr); std::cout.flush(); std::clog.flush();
        if (lseek(out, 0, SEEK_END) != o0) { char b[121] = ""; ssize_t k = pread(out, b, 120, o0); b[k < 0 ? 0 : k] = 0; for (char* p = b; *p; p++) if (*p < 32) *p = ' '; return std::string("wrote to standard output or error: ") + b; }
        std::string d = differ(a, snap()); if (!d.empty()) return d;
        if (q0 != r0) return "the state of rand() changed"; if (q1 != r1) return "the state of drand48() changed";
        if (sys_nr >= 0) return fmt("made system call %d, which has an effect outside the process or on its limits", (int)sys_nr);
        if (count_dir(".") != 0) return "left a file in the working directory";
        return "";
    }
};
std::string side_case(const Case& c, const char* dir)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); std::string be = c.get("be"); int T = c.num("T", 1), lv = c.num("lv", 1);
    if (chdir(dir)) return "skip"; setenv("HOME", dir, 1); setenv("TMPDIR", dir, 1);
    int out = memfd_create("out", 0); if (out < 0) return "skip"; int flags = fcntl(out, F_GETFL); fcntl(out, F_SETFL, flags | O_APPEND); dup2(out, 1); dup2(out, 2);
    omp_set_num_threads(T); omp_set_dynamic(c.num("dyn")); omp_set_max_active_levels(lv); omp_set_schedule((omp_sched_t)(1 + c.num("sch")), 1 + c.num("sch") * 3);
    if (c.num("loc")) setlocale(LC_ALL, "C.UTF-8"); sigset_t m; sigemptyset(&m); for (int s : {SIGUSR1, SIGUSR2, SIGHUP, SIGINT}) if (c.num("mask") >> (s & 3) & 1) sigaddset(&m, s); sigprocmask(SIG_BLOCK, &m, nullptr);
    signal(SIGUSR1, SIG_IGN); signal(SIGPIPE, c.num("mask") & 1 ? SIG_IGN : SIG_DFL); umask(c.num("mask") & 2 ? 027 : 022); std::cout << std::hex << std::uppercase; std::cout.precision(3 + T); setpriority(PRIO_PROCESS, 0, c.num("loc"));
    bool flt = filter(); Guard g; g.out = out; g.seed = 11 + (unsigned)n; srand(g.seed); srand48(g.seed); g.r0 = rand(); g.r1 = lrand48();
    Obj o; bool late = c.num("late"); std::string r; std::string what;
    bool trip = c.num("trip"); if (!trip) for (int dir2 = 0; dir2 < 2; dir2++) xref(kind, dir2, n, c.get("sig", "uni"), c.u64("seed"));
    size_t words = std::max(in_len(kind, false, n), in_len(kind, true, n)); UBuf a(words, 0), b(kind == 'r' ? 2 * n : 0, 0);
    r = g.call([&] { obj_create(o, kind, be, late ? 0 : (long)n); if (late) obj_setup(o, (long)n); }); if (!r.empty()) return "creating the object: " + r;
    if (trip) {         // forward and matching inverse
        Rng q(c.u64("seed")); std::vector<double> x(kind == 'r' || kind == 'd' ? n : 2 * n); for (auto& v : x) v = q.sym(); a.fill_garbage(0); a.load(x); if (kind == 'r') b.fill_garbage(0);
        auto ops = c.list("op"); for (auto& op : ops) { r = g.call([&] { if (kind == 'r' && op_inverse(op)) obj_run(o, op, b.p, a.p); else obj_run(o, op, a.p, b.p); }); if (!r.empty()) return "transform " + op + ": " + r; }
        double d = 0, t = 0; for (size_t i = 0; i < x.size(); i++) { double z = a.p[i] - x[i]; d += z * z; t += x[i] * x[i]; } if (!(std::sqrt(d / t) <= 2 * tol_loose(kind, n))) return fmt("transforms %s: relative error %.3g", c.get("op").c_str(), std::sqrt(d / t));
    }
    else for (auto& op : c.list("op")) {
        const XRef& R = xref(kind, op_inverse(op), n, c.get("sig", "uni"), c.u64("seed")); a.fill_garbage(0); a.load(R.in); if (kind == 'r') b.fill_garbage(0);
        r = g.call([&] { obj_run(o, op, a.p, b.p); }); if (!r.empty()) return "transform " + op + ": " + r;
        double e = rel_err(kind == 'r' ? b.p : a.p, R.ref, op_scale(op, n), R.innorm, R.zero); if (!(e <= tol_loose(kind, n))) return fmt("transform %s: relative error %.3g", op.c_str(), e);
    }
    r = g.call([&] { obj_setup(o, c.num("n2", 8)); }); if (!r.empty()) return "setting the object up again: " + r;
    r = g.call([&] { obj_destroy(o); }); if (!r.empty()) return "destroying the object: " + r;
    if (lv <= 1) { int t = count_dir("/proc/self/task"), lim = std::max(T, omp_get_num_procs()) + 1; if (t > lim) return fmt("%d threads are left for %d OpenMP threads", t, T); }
    return flt ? "filtered" : "";
}
int rm_one(const char* p, const struct stat*, int, FTW*) { return remove(p); }
void b_side(const Case& c)
{
    std::string id = c.str(); sub_begin(id); va_mode(AM_PASS);
    char dir[] = "/tmp/otfft-side-XXXXXX"; if (!mkdtemp(dir)) return;
    int fd[2]; if (pipe(fd)) return; fflush(nullptr);
    pid_t p = fork();
    if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); alarm(100); std::string r; try { r = side_case(c, dir); } catch (const std::exception& e) { r = std::string("exception: ") + e.what(); } ssize_t w = write(fd[1], r.data(), r.size()); (void)w; _exit(0); }
    close(fd[1]); std::string out; char b[512]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, k); close(fd[0]); int st = 0; waitpid(p, &st, 0);
    nftw(dir, rm_one, 8, FTW_DEPTH | FTW_PHYS);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) sub_fail(id, out + fmt(" process ended by %s %d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)));
    else if (out == "filtered") tally("system calls filtered"); else if (out == "skip") { tally("skipped"); return; }
    else if (!out.empty()) sub_fail(id, out); else tally("no system-call filter here");
    tally(fmt("kind %c", c.get("kind")[0])); tally("backend " + c.get("be")); tally("threads " + c.get("T")); tally(c.num("n") < 2048 ? "length below 2048" : c.num("n") < 32768 ? "length 2048..32767" : "length 32768 and more");
    sub_done(id, c.num("n") >= 2);
}
RegB rb("side", b_side);
RegP rp("C20", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 20011 + 3); static const char* sigs[] = {"uni", "uni", "delta", "const", "zero", "sparse", "big", "small"}; static const char* bes[] = {"auto", "sse2", "avx", "avx2"}; int turn = 0;
    for (char k : std::string("crdb")) {
        auto add = [&](size_t n) {
            if ((k == 'r' || k == 'd') && (n & 1)) n++; if (n < 1 || (k != 'b' && (double)n * max_prime(n) > 4e7)) return;
            auto& v = ops_of(k); std::string ops; bool trip = n > 3000 && !(n < 40000 && g.chance(.15)); if (n <= 64) for (auto& x : v) ops += (ops.empty() ? "" : ",") + x; else if (trip) ops = g.pick({"fwd,inv", "fwd0,invn", k == 'd' ? "fwdn,inv0" : "fwdu,invu", "fwdn,inv0"}); else ops = v[g.below(v.size() / 2)] + "," + v[v.size() / 2 + g.below(v.size() / 2)];
            Case c; c.word = "side"; c.set("kind", std::string(1, k)).set("n", (long)n).set("be", bes[turn++ & 3]).set("op", ops).set("trip", (long)trip).set("T", (long)g.pick({1, 2, 2, 3, 4, 6})).set("dyn", (long)g.below(2)).set("lv", (long)g.pick({0, 1, 1, 2, 3})).set("sch", (long)g.below(4)).set("loc", (long)g.below(2)).set("mask", (long)g.below(16))
                .set("late", (long)g.below(2)).set("sig", sigs[g.below(8)]).setu("seed", g.below(1000000)).set("n2", (long)(2 + 2 * g.below(600))); out.push_back(c.str()); };
        for (int r = 0; r < (th ? 24 : 8); r++) for (int l = 0; l <= (th ? 23 : r ? 19 : 21); l++) if (k != 'b' || l < 20) add((size_t)1 << l);
        for (size_t n = 1; n <= (th ? 1000u : 130u); n++) add(n);
        for (int i = 0; i < (th ? 6000 : 500); i++) add(1 + g.below(g.pick({300, 3000, 9000, 40000})));
        for (int i = 0; i < (th ? 800 : 120); i++) { size_t n = 1, m = 1000 + g.below(150000); while (n < m) n *= g.pick({2, 2, 3, 5, 7}); add(n); }
        for (int i = 0; i < (th ? 600 : 60); i++) { size_t p = g.pick({11, 13, 17, 101, 251, 257, 509, 997, 1009}); add(p * (1 + g.below(60))); add(p * p % 300000); }
    }
    for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1], out[g.below(i)]);
});
}
