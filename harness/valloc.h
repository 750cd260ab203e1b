// Control over the allocations the library makes. Allocations are only affected while the calling
// thread is inside a LibScope; everything else goes straight to libc.
#pragma once
#include <cstddef>
#include <cstdint>
enum AllocMode {
    AM_PASS = 0,   // plain libc
    AM_POISON = 1, // libc, block filled with 0xFF.. (NaN doubles) on allocation and on release
    AM_END = 2,    // own pages, block flush with an inaccessible page after it
    AM_START = 3   // own pages, block flush with an inaccessible page before it
};
struct AllocStats { long live_blocks; long live_bytes; long calls; long failed; };
void va_mode(int m);                 // for the calling thread
int  va_mode();
void va_fill(unsigned char f);       // fill byte of fresh blocks (default 0xFF)
AllocStats va_stats();               // of all scopes of all threads
// the k-th allocation (0-based) from now on made inside a scope fails; persistent: all later ones too
void va_fail(long k, bool persistent);
void va_fail_off();
const char* va_corruption();         // text of the first damaged canary / bad free seen, or null
void va_clear_corruption();
void va_reset();                     // forget the guarded region (no live blocks must be in use any more)
// harness buffers in the guarded region
void* va_buf(size_t size, size_t align, int mode, size_t off);
void va_buf_free(void* p);
void va_readonly(void* p, bool ro);
bool va_in_region(const void* p);
void va_region(char** base, size_t* used);
struct LibScope { int save; LibScope(); ~LibScope(); };
