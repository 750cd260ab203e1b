// Case scheduling, bookkeeping and shared helpers of the harness.
#pragma once
#include "ref.h"
#include "omp_rt.h"
#include "valloc.h"
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <cstring>
#include <cmath>
#include <cstdio>

typedef std::map<std::string, std::string> KV;
struct Case {              // "word key=value key=value ..."; values may be comma lists
    std::string word; KV kv;
    static Case parse(const std::string& s);
    std::string str() const;
    std::string get(const std::string& k, const std::string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    long num(const std::string& k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtol(i->second.c_str(), 0, 0); }
    uint64_t u64(const std::string& k, uint64_t d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtoull(i->second.c_str(), 0, 0); }
    std::vector<std::string> list(const std::string& k) const;
    Case& set(const std::string& k, const std::string& v) { kv[k] = v; return *this; }
    Case& set(const std::string& k, long v) { kv[k] = std::to_string(v); return *this; }
    Case& setu(const std::string& k, uint64_t v) { kv[k] = std::to_string(v); return *this; }
};
std::vector<std::string> split(const std::string& s, char c);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Called by bundle code, in the worker process.
void sub_begin(const std::string& sub);                       // announces the sub-case about to run
void sub_done(const std::string& sub, bool nontrivial);       // counts it
void sub_fail(const std::string& sub, const std::string& detail);
void run_sub_bundle(const Case& c);                          // runs another kind of bundle as part of this one
bool sub_enough();                                            // this bundle already failed often enough
void tally(const std::string& cls, long n = 1);               // class histogram
void note_max(const std::string& name, double v);             // largest value seen, for calibration

typedef void (*BundleFn)(const Case&);
void register_bundle(const std::string& word, BundleFn f);
typedef void (*GenFn)(bool thorough, uint64_t seed, std::vector<std::string>& out);
void register_prop(const std::string& id, GenFn g);
struct RegB { RegB(const char* w, BundleFn f) { register_bundle(w, f); } };
struct RegP { RegP(const char* w, GenFn f) { register_prop(w, f); } };
