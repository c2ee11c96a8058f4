// qbsim: common helpers (PRNG, hashing, quoting).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <algorithm>

namespace qs {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
    template <class V> void shuffle(V& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
};

struct Hash {
    uint64_t h = 0xcbf29ce484222325ull;
    void bytes(const void* p, size_t n) {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
    }
    void u64(uint64_t v) { bytes(&v, 8); }
    void str(const std::string& s) { u64(s.size()); bytes(s.data(), s.size()); }
};
inline uint64_t hash_str(const std::string& s) { Hash h; h.str(s); return h.h; }

std::string quote(const std::string& s);             // C-style quoted
bool unquote(const char*& p, std::string& out);      // parses at p, advances
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
bool starts_with(const std::string& s, const std::string& p);
bool ends_with(const std::string& s, const std::string& p);
std::vector<std::string> split_lines(const std::string& s); // keeps no terminators
std::string replace_all(std::string s, const std::string& a, const std::string& b);
bool contains(const std::string& s, const std::string& p);
std::string dirname_of(const std::string& p);
std::string basename_of(const std::string& p);
std::string lexnorm(const std::string& abs);         // remove . and .. lexically
std::string errno_name(int e);
int errno_value(const std::string& n);
std::string json_str(const std::string& s);
double now_s();

} // namespace qs
