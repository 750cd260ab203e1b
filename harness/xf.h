// Objects under test through the public API, inputs, references and comparison.
#pragma once
#include "core.h"
#include "otfft.h"
#include <memory>

// kind: c complex, r real, d dct, b bluestein.  be: auto sse2 avx avx2
struct Obj {
    char kind; long n;
    OTFFT::ComplexFFTPtr c; OTFFT::RealFFTPtr r; OTFFT::RealDCTPtr d;
    Obj() : kind(0), n(0) {}
    bool live() const { return c || r || d; }
};
OTFFT::OptimizationType be_type(const std::string& be);
void obj_create(Obj& o, char kind, const std::string& be, long n);   // throws what the library throws
void obj_setup(Obj& o, long n);
void obj_destroy(Obj& o);
const std::vector<std::string>& ops_of(char kind);        // op names
bool op_inverse(const std::string& op);
long double op_scale(const std::string& op, size_t n);    // factor applied to the unnormalised (inverse) transform
// doubles in input / output arrays
size_t in_len(char kind, bool inv, size_t n);
size_t out_len(char kind, bool inv, size_t n);
bool out_of_place(char kind);
// runs op: in-place kinds use a only; real: fwd a -> b, inv b(complex) -> a ... see xf.cpp
void obj_run(const Obj& o, const std::string& op, double* in, double* out);

struct XRef { std::vector<double> in, ref; double norm2, innorm; bool zero; };   // ref: unnormalised result
// cached by its arguments
const XRef& xref(char kind, bool inv, size_t n, const std::string& sig, uint64_t seed);
void xref_drop();
const std::vector<std::string>& sig_names();
// relative L2 error of out*1/scale against ref
double rel_err(const double* out, const std::vector<double>& ref, long double scale, double norm2, bool zero);
size_t max_prime(size_t n);
bool is_pow2(size_t n);
double tol_loose(char kind, size_t n);
double tol_tight(char kind, size_t n);

// a caller's array with canaries on both sides; off = bytes past a 64-byte boundary (multiple of 8)
struct UBuf {
    char* raw; double* p; size_t n;
    UBuf(size_t doubles, size_t off); ~UBuf();
    UBuf(const UBuf&) = delete;
    void fill_garbage(uint64_t seed); void load(const std::vector<double>& v);
    bool intact() const;
};
