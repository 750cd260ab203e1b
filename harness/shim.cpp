#include "shim.h"
namespace shim {
#ifndef SHIM_NONE
extern const Backend be_OTFFT_SSE2 __attribute__((weak)), be_OTFFT_AVX __attribute__((weak)), be_OTFFT_AVX2 __attribute__((weak));
const Backend* backend(const std::string& n)
{
    if (n == "sse2") return &be_OTFFT_SSE2; if (n == "avx") return &be_OTFFT_AVX; if (n == "avx2") return &be_OTFFT_AVX2;
    return nullptr;
}
#else
const Backend* backend(const std::string&) { return nullptr; }
#endif
const std::vector<std::string>& engine_names() { static const std::vector<std::string> v{"dif4", "dit4", "dif8", "dit8", "dif16", "dit16", "six", "mixed"}; return v; }
}
