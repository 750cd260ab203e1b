// Compiled once per backend, with that backend's flags.
#include "otfft_types.h"
#include "otfft_misc.h"
#include "otfft.h"
#include "otfft_platform.h"
#ifdef USE_AVX2
#include "otfft_avx2.h"
#endif
#ifdef USE_AVX
#include "otfft_avx.h"
#endif
#ifdef USE_SSE2
#include "otfft_sse2.h"
#endif
#include "shim.h"
namespace OTFFT_NAMESPACE {
#ifdef SHIM_ENGINES
#define E(n) namespace n { extern std::unique_ptr<FFT_IF> instance(); }
E(OTFFT_AVXDIF4) E(OTFFT_AVXDIT4) E(OTFFT_AVXDIF8) E(OTFFT_AVXDIT8) E(OTFFT_AVXDIF16) E(OTFFT_AVXDIT16) E(OTFFT_SixStep) E(OTFFT_MixedRadix)
#undef E
#endif
}
namespace shim { namespace {
namespace NS = OTFFT_NAMESPACE;
using OTFFT::complex_t;
template <class F> void go(const F& f, const std::string& op, complex_t* x, complex_t* y)
{
    if (op == "fwd") f.fwd(x, y); else if (op == "fwd0") f.fwd0(x, y); else if (op == "fwdu") f.fwdu(x, y); else if (op == "fwdn") f.fwdn(x, y);
    else if (op == "inv") f.inv(x, y); else if (op == "inv0") f.inv0(x, y); else if (op == "invu") f.invu(x, y); else if (op == "invn") f.invn(x, y);
}
#ifdef SHIM_ENGINES
struct E : Eng {
    std::unique_ptr<NS::FFT_IF> o;
    void setup2(int l) override { o->setup2(l); } void setup(int n) override { o->setup(n); }
    void run(const std::string& op, double* x, double* y) const override { go(*o, op, (complex_t*)x, (complex_t*)y); }
};
Eng* engine(const std::string& n)
{
    E* e = new E;
    if (n == "dif4") e->o = NS::OTFFT_AVXDIF4::instance(); else if (n == "dit4") e->o = NS::OTFFT_AVXDIT4::instance();
    else if (n == "dif8") e->o = NS::OTFFT_AVXDIF8::instance(); else if (n == "dit8") e->o = NS::OTFFT_AVXDIT8::instance();
    else if (n == "dif16") e->o = NS::OTFFT_AVXDIF16::instance(); else if (n == "dit16") e->o = NS::OTFFT_AVXDIT16::instance();
    else if (n == "six") e->o = NS::OTFFT_SixStep::instance(); else if (n == "mixed") e->o = NS::OTFFT_MixedRadix::instance();
    if (!e->o) { delete e; return nullptr; }
    return e;
}
#else
Eng* engine(const std::string&) { return nullptr; }
#endif
struct F0 : Fft0 { NS::FFT0 o; void setup(int n) override { o.setup(n); } void run(const std::string& op, double* x, double* y) const override { go(o, op, (complex_t*)x, (complex_t*)y); } };
struct D0 : Dct0 {
    NS::DCT0 o; void setup(int n) override { o.setup(n); }
    void run(const std::string& op, double* x, double* y, double* zz) const override {
        complex_t* z = (complex_t*)zz;
        if (op == "fwd") o.fwd(x, y, z); else if (op == "fwd0") o.fwd0(x, y, z); else if (op == "fwdn") o.fwdn(x, y, z);
        else if (op == "inv") o.inv(x, y, z); else if (op == "inv0") o.inv0(x, y, z); else if (op == "invn") o.invn(x, y, z);
    }
};
Fft0* fft0(int n) { F0* f = new F0; if (n) f->setup(n); return f; }
Dct0* dct0(int n) { D0* f = new D0; if (n) f->setup(n); return f; }
} }
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace shim { extern const Backend CAT(be_, OTFFT_NAMESPACE); const Backend CAT(be_, OTFFT_NAMESPACE) = {SHIM_BE, engine, fft0, dct0}; }
