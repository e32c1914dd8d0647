// harness support: seeded random inputs, hints from failed obligations, violation reports, statistics
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
namespace h {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); for (auto& b : v) b = (uint8_t)next(); return v; }
    // a 64-bit value biased to boundaries
    uint64_t edgy() { switch (below(6)) { case 0: return below(4); case 1: return ~uint64_t(0) - below(4); case 2: return (uint64_t(1) << below(64)) + below(3) - 1; case 3: return below(300); case 4: return next() >> below(64); default: return next(); } }
};
struct Hint { std::string unit, name, value; };
inline uint64_t seed = 1; inline double secs = 5; inline std::vector<Hint> hints; inline std::string scratch = ".";
inline uint64_t evals = 0; inline std::unordered_set<uint64_t> distinctSet; inline int viols = 0; inline std::set<std::string> seenViol;
inline std::chrono::steady_clock::time_point t0;
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more(double frac = 1.0) { return elapsed() < secs * frac && viols < 20; }
inline std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string r; auto b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { r += d[b[i] >> 4]; r += d[b[i] & 15]; } return r; }
template <class C> std::string hex(const C& c) { return hex(c.data(), c.size()); }
inline std::vector<uint8_t> unhex(const std::string& s) { std::vector<uint8_t> r; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), 0, 16)); return r; }
inline void viol(const std::string& key, const std::string& detail) { if (seenViol.insert(key).second) { ++viols; std::cout << "VIOL " << key << " :: " << detail << std::endl; } }
inline void count(const std::string& what) { ++evals; uint64_t x = 1469598103934665603ull; for (unsigned char c : what) { x ^= c; x *= 1099511628211ull; } if (distinctSet.size() < 2000000) distinctSet.insert(x); }
inline void init(int argc, char** argv) {
    t0 = std::chrono::steady_clock::now();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        else if (a == "--secs") secs = atof(argv[i + 1]);
        else if (a == "--scratch") scratch = argv[i + 1];
        else if (a == "--hints") { std::ifstream f(argv[i + 1]); std::string l; while (std::getline(f, l)) { std::istringstream is(l); Hint x; is >> x.unit >> x.name; std::getline(is, x.value); while (!x.value.empty() && x.value[0] == ' ') x.value.erase(0, 1); hints.push_back(x); } }
    }
}
inline int done() { std::cout << "STAT evaluations " << evals << "\nSTAT distinct " << distinctSet.size() << "\nSTAT violations " << viols << "\nSTAT secs " << elapsed() << std::endl; std::cout.flush(); _Exit(viols ? 1 : 0); }
#define H_CHECK(cond, key, detail) do { if (!(cond)) { std::ostringstream os_; os_ << detail; h::viol(key, os_.str()); } } while (0)
}  // namespace h
