// Common support for the bounded stand-ins / replay harnesses.  A harness runs the real code of /repo
// on enumerated and seeded-random inputs and compares it with an executable reading of the contract.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <iostream>
#include <sstream>
#include <functional>
#include <chrono>
#include <random>
#include <unordered_set>
#include <algorithm>
namespace vh {
inline std::string cur;             // description of the case being run (for crash reports)
inline const char* area = "";       // contract clause group being exercised
inline unsigned long long evals = 0;
inline std::unordered_set<size_t> distinct;
inline std::vector<std::string> samples;
inline uint64_t seed = 1;
inline double budget = 10;
inline std::chrono::steady_clock::time_point t0;
inline std::mt19937_64 rng;
inline std::map<std::string,unsigned long long> area_count;
inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }             // 0..n-1
inline bool coin(unsigned pct = 50) { return rng() % 100 < pct; }
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool time_left(double frac = 1.0) { return elapsed() < budget * frac; }
inline void emit(const char* what, const std::string& msg) {
    std::string s = "\nFAILING-INPUT area=" + std::string(area) + " kind=" + what + "\n  case: " + cur + "\n  " + msg + "\n";
    (void)!write(1, s.data(), s.size());
}
[[noreturn]] inline void fail(const std::string& msg) { emit("mismatch", msg); _exit(3); }
inline void on_sig(int s) {
    const char* n = s == SIGALRM ? "the call does not return (watchdog)" : s == SIGABRT ? "assertion failure or abort in the code under test" : s==SIGSEGV ? "invalid memory access" : "fatal signal";
    emit(s == SIGALRM ? "timeout" : "crash", n); _exit(3);
}
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
inline void on_asan() { emit("crash", "sanitizer report (see stderr)"); _exit(3); }
// signed overflow is reported through these (they replace the ones of the sanitizer runtime): harnesses whose
// property is conditional on exact sums being representable set allow_overflow and skip such instances
inline bool allow_overflow = false, overflowed = false;
inline void on_overflow() { overflowed = true; if (!allow_overflow) { emit("crash", "signed integer overflow in the code under test"); _exit(3); } }
}
extern "C" { inline __attribute__((used)) void __ubsan_handle_add_overflow(void*, void*, void*) { vh::on_overflow(); } inline __attribute__((used)) void __ubsan_handle_sub_overflow(void*, void*, void*) { vh::on_overflow(); } inline __attribute__((used)) void __ubsan_handle_mul_overflow(void*, void*, void*) { vh::on_overflow(); } inline __attribute__((used)) void __ubsan_handle_negate_overflow(void*, void*) { vh::on_overflow(); } }
namespace vh {
inline void watchdog(unsigned s = 20) { alarm(s); }
// start of a case: remember the text, count it
inline void begin(const std::string& c, bool nontrivial = true) {
    cur = c; ++evals; ++area_count[area];
    if (nontrivial) { if (distinct.size() < 5000000) distinct.insert(std::hash<std::string>{}(std::string(area) + c)); }
    if (samples.size() < 3 && nontrivial && (evals % 37) == 5) samples.push_back(std::string(area) + ": " + c);
    watchdog();
}
#define VH_CHECK(cond, msg) do { if (!(cond)) { std::ostringstream o_; o_ << msg << "   [violated: " #cond "]"; ::vh::fail(o_.str()); } } while (0)
template<class T> std::string show(const std::vector<T>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << +v[i]; } o << "]"; return o.str(); }
inline std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
inline void init(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i+1], 0, 10); if (!strcmp(argv[i], "--budget")) budget = atof(argv[i+1]); }
    rng.seed(seed * 7919 + 13); t0 = std::chrono::steady_clock::now();
    signal(SIGABRT, on_sig); signal(SIGSEGV, on_sig); signal(SIGALRM, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_asan);
}
inline int finish() {
    alarm(0);
    if (samples.empty()) samples.push_back(std::string(area) + ": " + cur);
    std::ostringstream o; o << "\nSTATS {\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct.size() << ",\"areas\":{";
    bool f = true; for (auto& [k, v] : area_count) { if (!f) o << ","; f = false; o << "\"" << k << "\":" << v; }
    o << "},\"samples\":["; f = true; for (auto& s : samples) { if (!f) o << ","; f = false; o << "\"" << jesc(s.substr(0, 400)) << "\""; }
    o << "]}\n"; std::cout << o.str() << std::flush; return 0;
}
}
