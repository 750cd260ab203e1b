// Access to parts of the library below the Factory: the per-radix engines and the documented
// multi-thread objects that take their work areas as arguments.
#pragma once
#include <string>
#include <vector>
#include <memory>
namespace shim {
struct Eng { virtual ~Eng() {} virtual void setup2(int log) = 0; virtual void setup(int n) = 0; virtual void run(const std::string& op, double* x, double* y) const = 0; };
struct Fft0 { virtual ~Fft0() {} virtual void setup(int n) = 0; virtual void run(const std::string& op, double* x, double* y) const = 0; };
struct Dct0 { virtual ~Dct0() {} virtual void setup(int n) = 0; virtual void run(const std::string& op, double* x, double* y, double* z) const = 0; };
struct Backend { const char* name; Eng* (*engine)(const std::string&); Fft0* (*fft0)(int n); Dct0* (*dct0)(int n); };
const Backend* backend(const std::string& name);     // null when not built on this tree
const std::vector<std::string>& engine_names();
}
