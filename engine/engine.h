// Property-based testing engine: every random choice of a case is drawn from a
// Src, so that a case is a sequence of integers that can be recorded, shrunk
// and replayed without the generator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <functional>
#include <cmath>
#include <cstdarg>
#include <cstring>

struct Src {
    // ---- raw choice: an integer in [0, n)
    uint64_t draw(uint64_t n);
    // ---- derived choices
    int range(int lo, int hi);            // inclusive, shrinks towards lo
    bool chance(int num, int den);        // true with probability num/den; shrinks to false
    double unit();                        // [0,1); shrinks to 0
    double real(double lo, double hi);
    int weighted(std::initializer_list<int> w); // index; shrinks to 0
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

    uint64_t rng = 0;
    bool replay = false;
    const uint64_t* rdata = nullptr;
    size_t rn = 0, rpos = 0;
    uint64_t ncount = 0;
};

struct Ctx {
    std::ostringstream desc;              // human readable rendering of the case
    bool nontrivial = false;
    bool discarded = false;
    std::vector<std::string> labels;
    void label(const std::string& s) { labels.push_back(s); }
    void label(bool c, const std::string& s) { if (c) labels.push_back(s); }
};

typedef void (*CaseFn)(Src&, Ctx&);
struct Lane {
    const char* name;
    CaseFn fn;
    long quick;
    long thorough;
    int huge = 0;                         // unusual sizes: see HUGE_MODE in gen.h
};
extern int HUGE_MODE;                     // set by the driver for the lane that runs
struct Property {
    const char* id;
    const char* rule;                     // what makes a case non-trivial
    std::vector<Lane> lanes;
    std::vector<std::string> assumptions;
};
extern Property THE_PROPERTY;

// Ends the case as a failure.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

// gu_quit(), as seen by the harness
struct Quit { std::string msg; };
struct Discard {};
[[noreturn]] void discard();

// directory for scratch files of this worker (removed by the driver)
const std::string& scratch();
// directory with the command line programs built from the tree under test
std::string tool(const std::string& name, bool sanitized);

struct RunResult {
    int code = -1;                        // exit code, or -1
    int sig = 0;                          // terminating signal, or 0
    bool timeout = false;
    std::string out, err;
    bool ok() const { return sig == 0 && code == 0; }
};
// Runs a program with the given standard input. The program is given 20 s of CPU.
RunResult run(const std::vector<std::string>& argv, const std::string& in = "");
// As run() but fails the case if the program crashed (signal, sanitizer report) or ran out of CPU.
RunResult runSafe(const std::vector<std::string>& argv, const std::string& in = "");

// As runSafe(), with faults: writing to the standard output fails beyond outLimit bytes (if >= 0), and
// reading from the standard input fails (if inError) when all of `in' (up to 100 kB) has been read.
RunResult runFault(const std::vector<std::string>& argv, const std::string& in, long outLimit, bool inError);

std::string writeFile(const std::string& name, const std::string& text); // in scratch(), returns the path
std::string readFile(const std::string& path);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool thorough();
size_t liveBytes();                       // bytes allocated and not freed (0 when unknown)
