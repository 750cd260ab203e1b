// C16: what one compilation of the public header's complex type and array helper offers to the checks.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
struct CxOp { const char* name; int nin; // doubles used
    // runs the library's operation and the reference; got/want: up to 4 doubles; tol: absolute bound per group of two, normwise; flag: 0 fine, else a broken side condition
    const char* (*run)(const double* in, double* got, long double* want, long double* tol, int* nout); };
struct CxArr { // one simd_array<T>, or one simd_malloc block
    virtual ~CxArr() {}
    virtual void setup(int n) = 0; virtual void destroy() = 0; virtual void* ptr() = 0; virtual size_t elem() = 0;
    virtual void put(int i, int v) = 0; virtual int get(int i) = 0;
};
struct CxVar { const char* name; const char* cpu; size_t align; const CxOp* ops; int nops; CxArr* (*make)(int type, int n, bool sized); CxVar* next; };
extern CxVar* cx_vars;
