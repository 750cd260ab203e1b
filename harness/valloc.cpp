#include "valloc.h"
#include <sys/mman.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <unistd.h>
#include <malloc.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
namespace {
const size_t PG = 4096, RSIZE = (size_t)1 << 38;
const unsigned char CAN = 0xA5;
thread_local int t_mode = 0, t_in = 0;
thread_local long t_fail = -1; thread_local bool t_fail_all = false;
thread_local unsigned char t_fill = 0xFF;
std::atomic<long> s_blocks(0), s_bytes(0), s_calls(0), s_failed(0);
char* R = nullptr; size_t cur = 0; std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct Blk { char* p; size_t size; char* page; size_t npages; bool live, lib; };
uint32_t* idx = nullptr; Blk* tab = nullptr; size_t ntab = 0; const size_t CAPTAB = 1 << 22;
char corrupt[256];
struct Lock { Lock() { while (lk.test_and_set(std::memory_order_acquire)) {} } ~Lock() { lk.clear(std::memory_order_release); } };
void note(const char* f, const void* p, long a, long b) { if (!corrupt[0]) snprintf(corrupt, sizeof corrupt, f, p, a, b); }
void init()
{
    if (R) return;
    void* p = mmap(nullptr, RSIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "region\n"); _exit(3); }
    idx = (uint32_t*)mmap(nullptr, (RSIZE / PG) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    tab = (Blk*)mmap(nullptr, CAPTAB * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ntab = 1; cur = PG; R = (char*)p;
}
void* galloc(size_t size, size_t align, int mode, size_t off, bool lib, unsigned char fill)
{
    Lock l;
    init();
    if (align < 1) align = 1;
    size_t np = (size + off + (align > PG ? align : 0) + PG - 1) / PG;
    if (!np) np = 1;
    if (size + off > 0 && mode == AM_START && align > PG) return nullptr;
    if (cur + (np + 1) * PG > RSIZE || ntab >= CAPTAB) return nullptr;
    char* page = R + cur; cur += (np + 1) * PG;
    if (mprotect(page, np * PG, PROT_READ | PROT_WRITE)) return nullptr;
    char* p;
    if (mode == AM_START) p = page + off;
    else { uintptr_t e = (uintptr_t)(page + np * PG) - size - off; if (off) { e = ((e + align - 1 - off) & ~(align - 1)); e = ((uintptr_t)(page + np * PG) - size - off) & ~(align - 1); e += off; } else e &= ~(uintptr_t)(align - 1); p = (char*)e; }
    if (!size && p == page + np * PG) p -= align < 16 ? 16 : align;
    memset(page, CAN, p - page);
    memset(p + size, CAN, page + np * PG - (p + size));
    memset(p, fill, size);
    idx[(page - R) / PG] = (uint32_t)ntab;
    for (size_t i = 1; i < np; i++) idx[(page - R) / PG + i] = (uint32_t)ntab;
    tab[ntab++] = Blk{p, size, page, np, true, lib};
    return p;
}
Blk* find(const void* q)
{
    if (!R || (const char*)q < R || (const char*)q >= R + cur) return nullptr;
    uint32_t i = idx[((const char*)q - R) / PG];
    return i ? &tab[i] : nullptr;
}
void gfree(void* q)
{
    Lock l;
    Blk* b = find(q);
    if (!b || b->p != q) { note("free of %p, which is not the start of a block", q, 0, 0); return; }
    if (!b->live) { note("double free of %p", q, 0, 0); return; }
    mprotect(b->page, b->npages * PG, PROT_READ | PROT_WRITE);
    for (char* c = b->page; c < b->p; c++) if ((unsigned char)*c != CAN) { note("bytes before block %p (size %ld) overwritten at offset %ld", q, (long)b->size, (long)(c - b->p)); break; }
    for (char* c = b->p + b->size; c < b->page + b->npages * PG; c++) if ((unsigned char)*c != CAN) { note("bytes after block %p (size %ld) overwritten at offset %ld", q, (long)b->size, (long)(c - b->p)); break; }
    b->live = false;
    if (b->lib) { s_blocks--; s_bytes -= (long)b->size; }
    madvise(b->page, b->npages * PG, MADV_DONTNEED);
    mprotect(b->page, b->npages * PG, PROT_NONE);
}
bool inject()
{
    s_calls++;
    if (t_fail < 0) return false;
    if (t_fail == 0) { if (!t_fail_all) t_fail = -1; s_failed++; return true; }
    t_fail--;
    return false;
}
// POISON blocks carry a header and a trailing canary
struct Hdr { uint64_t magic; uint64_t size; uint64_t pad; uint64_t magic2; };
const uint64_t MG = 0x9d3f1c75b2e86a41ull;
Hdr* hdr(void* p) { return (Hdr*)p - 1; }
bool is_poison(void* p) { return ((uintptr_t)p & 15) == 0 && hdr(p)->magic2 == (MG ^ (uint64_t)(uintptr_t)p); }
std::atomic<bool> any_poison(false);
void* lib_alloc(size_t size, size_t align)
{
    if (inject()) { errno = ENOMEM; return nullptr; }
    if (t_mode == AM_PASS) return __libc_memalign(align < 16 ? 16 : align, size);
    if (t_mode == AM_POISON) {
        if (align < 32) align = 32;
        char* base = (char*)__libc_memalign(align, size + align + 16);
        if (!base) return base;
        char* p = base + align;
        memset(p, t_fill, size); memset(p + size, CAN, 16);
        Hdr* h = hdr(p); h->magic = MG; h->size = size; h->pad = align; h->magic2 = MG ^ (uint64_t)(uintptr_t)p;
        any_poison = true; s_blocks++; s_bytes += (long)size;
        return p;
    }
    void* p = galloc(size, align < 16 ? 16 : align, t_mode, 0, true, t_fill);
    if (p) { s_blocks++; s_bytes += (long)size; }
    return p;
}
}
void va_mode(int m) { t_mode = m; }
int va_mode() { return t_mode; }
void va_fill(unsigned char f) { t_fill = f; }
AllocStats va_stats() { return AllocStats{s_blocks, s_bytes, s_calls, s_failed}; }
void va_fail(long k, bool p) { t_fail = k; t_fail_all = p; }
void va_fail_off() { t_fail = -1; t_fail_all = false; }
const char* va_corruption() { return corrupt[0] ? corrupt : nullptr; }
void va_clear_corruption() { corrupt[0] = 0; }
void va_reset()
{
    Lock l;
    if (!R) return;
    for (size_t i = 1; i < ntab; i++) if (tab[i].live && tab[i].lib) { s_blocks--; s_bytes -= (long)tab[i].size; }
    madvise(R, cur, MADV_DONTNEED);
    mprotect(R, cur, PROT_NONE);
    memset(idx, 0, cur / PG * 4);
    cur = PG; ntab = 1;
}
void* va_buf(size_t size, size_t align, int mode, size_t off) { return galloc(size, align, mode, off, false, 0xFF); }
void va_buf_free(void* p) { gfree(p); }
void va_readonly(void* p, bool ro) { Blk* b = find(p); if (b) mprotect(b->page, b->npages * PG, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
bool va_in_region(const void* p) { return R && (const char*)p >= R && (const char*)p < R + RSIZE; }
void va_region(char** b, size_t* u) { init(); *b = R; *u = cur; }
LibScope::LibScope() : save(t_in) { t_in = 1; }
LibScope::~LibScope() { t_in = save; }

extern "C" {
void* malloc(size_t n) { return t_in ? lib_alloc(n, 16) : __libc_malloc(n); }
void free(void* p)
{
    if (!p) return;
    if (R && va_in_region(p)) { gfree(p); return; }
    if (any_poison && is_poison(p)) {
        Hdr* h = hdr(p); size_t n = h->size, al = h->pad;
        h->magic2 = 0;
        for (size_t i = 0; i < 16; i++) if (((unsigned char*)p)[n + i] != CAN) { note("bytes after block %p (size %ld) overwritten at offset %ld", p, (long)n, (long)(n + i)); break; }
        s_blocks--; s_bytes -= (long)n; memset(p, 0xFF, n);
        p = (char*)p - al;
    }
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    if (!t_in) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = lib_alloc(n, 16); if (p) memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n)
{
    bool reg = p && R && va_in_region(p), poi = p && any_poison && !reg && is_poison(p);
    if (!t_in && !reg && !poi) return __libc_realloc(p, n);
    if (!p) return malloc(n);
    size_t old = reg ? find(p)->size : poi ? hdr(p)->size : malloc_usable_size(p);
    void* q = malloc(n); if (!q) return q;
    memcpy(q, p, old < n ? old : n); free(p); return q;
}
void* memalign(size_t a, size_t n) { return t_in ? lib_alloc(n, a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return t_in ? lib_alloc(n, a) : __libc_memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n)
{
    if (a < sizeof(void*) || (a & (a - 1))) return EINVAL;
    void* p = t_in ? lib_alloc(n, a) : __libc_memalign(a, n);
    if (!p) return ENOMEM;
    *o = p; return 0;
}
void* valloc(size_t n) { return t_in ? lib_alloc(n, 4096) : __libc_memalign(4096, n); }
}
