// shared by the native harnesses: argv = [args...] seed millis failfile
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <chrono>
#include <time.h>
#include <set>
#include <map>
#include <deque>
#include <random>
#include <sstream>
struct H {
    std::mt19937_64 rng; uint64_t end; const char * out; unsigned long long cases = 0; std::vector<std::string> args; std::ostringstream log;
    H(int argc, char ** argv) : rng(strtoull(argv[argc-3], 0, 10)), end(ms() + atoi(argv[argc-2])), out(argv[argc-1]) {
        for (int i = 1; i < argc-3; ++i) args.push_back(argv[i]);
        setvbuf(stdout, 0, _IONBF, 0);
    }
    static uint64_t ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }
    bool more() { ++cases; return ms() < end; }
    bool on(const std::string & p) { std::istringstream i(p); std::string w; while (i >> w) for (auto & a : args) if (a == w) return true; return args.empty(); }
    uint64_t r(uint64_t n) { return n ? rng() % n : 0; }
    uint64_t bits() { uint64_t v = rng(); return v >> r(64); }
    [[noreturn]] void fail(const std::string & s) {
        FILE * f = fopen(out, "w"); if (f) { fprintf(f, "%s\n%s\n", log.str().c_str(), s.c_str()); fclose(f); }
        printf("FAIL %s\ncases %llu\n", s.c_str(), cases); _Exit(1);
    }
    int done() { printf("cases %llu\n", cases); fflush(stdout); _Exit(0); }
};
#define CHECK(c, msg) do { if (!(c)) { std::ostringstream o_; o_ << "line " << __LINE__ << ": " << #c << " : " << msg; h.fail(o_.str()); } } while (0)
static std::string esc(const std::string & s) { std::string o; char b[8]; for (unsigned char c : s.substr(0, 400)) { if (c >= 32 && c < 127 && c != '\\') o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } if (s.size() > 400) o += "...(" + std::to_string(s.size()) + ")"; return o; }

// a failed check of a property this run does not decide abandons the history (another check decides it)
struct Abandon {};
#define CK(prop, c, msg) do { if (!(c)) { std::ostringstream o_; o_ << std::string(prop) << " line " << __LINE__ << ": " << #c << " : " << msg; if (h.on(prop)) h.fail(o_.str()); throw Abandon(); } } while (0)
#ifdef FAKE_CLOCK
static uint64_t fake_now = 1000;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(chrono::seconds(fake_now))); } } } }
#endif
