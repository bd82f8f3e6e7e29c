#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <fcntl.h>
#include <spawn.h>
#include <signal.h>
#include <errno.h>
#include <poll.h>
#include <time.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <algorithm>
#include <set>

extern char** environ;
extern "C" {
typedef void (*gu_quitfn)(char* format, ...);
void gu_setquitfn(gu_quitfn quitfn);
extern int gu_verbose;
}
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" size_t __sanitizer_get_current_allocated_bytes();
size_t liveBytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
size_t liveBytes() { return 0; }
#endif

static const size_t MAXDRAWS = 1 << 20;
enum { ST_NONE = 0, ST_FAIL = 1, ST_HANG = 2 };
enum { EX_FAIL = 77, EX_HANG = 78 };

struct Shared {
    volatile uint64_t caseidx;
    volatile int lane;
    volatile int status;
    volatile uint64_t n;
    volatile uint64_t done;
    char msg[8192];
    char desc[1 << 17];
    uint64_t draws[MAXDRAWS];
};
static Shared* SH = nullptr;
static Ctx* CUR = nullptr;
static std::string SCRATCH, BINDIR;
static bool THOROUGH = false;
static int CASE_CPU_S = 60;
int HUGE_MODE = 0;

bool thorough() { return THOROUGH; }
const std::string& scratch() { return SCRATCH; }
std::string tool(const std::string& name, bool sanitized) { return BINDIR + (sanitized ? "/bin-asan/" : "/bin/") + name; }

std::string strf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    va_end(ap);
    std::string s(n, 0);
    vsnprintf(&s[0], n + 1, fmt, ap2);
    va_end(ap2);
    return s;
}

// ---------------------------------------------------------------- choices
static uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

uint64_t Src::draw(uint64_t n)
{
    uint64_t v;
    if (n == 0)
        n = 1;
    if (replay) {
        v = (rpos < rn) ? rdata[rpos++] : 0;
        if (v >= n)
            v %= n;
    } else
        v = splitmix(rng) % n;
    if (SH) {
        if (ncount < MAXDRAWS) {
            SH->draws[ncount] = v;
            SH->n = ncount + 1;
        }
    }
    ncount++;
    if (ncount >= MAXDRAWS)
        discard();
    return v;
}
int Src::range(int lo, int hi) { return lo + (int) draw((uint64_t) ((int64_t) hi - lo + 1)); }
bool Src::chance(int num, int den) { return (int) draw(den) >= den - num; }
double Src::unit() { return (double) draw(1ull << 53) / (double) (1ull << 53); }
double Src::real(double lo, double hi) { return lo + (hi - lo) * unit(); }
int Src::weighted(std::initializer_list<int> w)
{
    int tot = 0;
    for (int x : w)
        tot += x;
    int r = (int) draw(tot), k = 0;
    for (int x : w) {
        if (r < x)
            return k;
        r -= x;
        k++;
    }
    return 0;
}
void discard() { throw Discard(); }

void fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char buf[8192];
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (SH) {
        strncpy(SH->msg, buf, sizeof(SH->msg) - 1);
        if (CUR) {
            std::string d = CUR->desc.str();
            size_t n = std::min(d.size(), sizeof(SH->desc) - 1);
            memcpy(SH->desc, d.data(), n);
            SH->desc[n] = 0;
        }
        SH->status = ST_FAIL;
    }
    fprintf(stderr, "FAIL: %s\n", buf);
    _exit(EX_FAIL);
}

static void quit_throw(char* fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    throw Quit{buf};
}

static void on_prof(int)
{
    if (SH) {
        strcpy(SH->msg, "the case did not terminate within its CPU allowance (a call never returned)");
        SH->status = ST_HANG;
        if (CUR) {              // (may deadlock if malloc() was interrupted)
            signal(SIGALRM, SIG_DFL);
            alarm(2);
            std::string d = CUR->desc.str();
            size_t n = std::min(d.size(), sizeof(SH->desc) - 1);
            memcpy(SH->desc, d.data(), n);
            SH->desc[n] = 0;
        }
    }
    _exit(EX_HANG);
}

// ---------------------------------------------------------------- files, processes
std::string writeFile(const std::string& name, const std::string& text)
{
    std::string p = SCRATCH + "/" + name;
    int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0) {
        perror(p.c_str());
        _exit(99);
    }
    size_t off = 0;
    while (off < text.size()) {
        ssize_t k = write(fd, text.data() + off, text.size() - off);
        if (k <= 0)
            _exit(99);
        off += k;
    }
    close(fd);
    return p;
}
std::string readFile(const std::string& path)
{
    std::string s;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f)
        return s;
    char buf[65536];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, f)) > 0)
        s.append(buf, k);
    fclose(f);
    return s;
}

RunResult run(const std::vector<std::string>& argv, const std::string& in)
{
    RunResult r;
    std::string fin = writeFile("stdin.txt", in), fout = SCRATCH + "/stdout.txt", ferr = SCRATCH + "/stderr.txt";
    std::vector<char*> av;
    for (auto& a : argv)
        av.push_back((char*) a.c_str());
    av.push_back(nullptr);
    pid_t pid = vfork();
    if (pid == 0) {
        int a = open(fin.c_str(), O_RDONLY), b = open(fout.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), c = open(ferr.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(a, 0);
        dup2(b, 1);
        dup2(c, 2);
        struct rlimit rl = {(rlim_t) (HUGE_MODE ? 60 : 20), (rlim_t) (HUGE_MODE ? 61 : 21)};
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 1ull << 30;
        setrlimit(RLIMIT_FSIZE, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        if (argv[0].find("asan") == std::string::npos) {
            rl.rlim_cur = rl.rlim_max = 1ull << 30;
            setrlimit(RLIMIT_AS, &rl);
        }
        if (chdir(SCRATCH.c_str()) != 0)
            _exit(126);
        execv(av[0], av.data());
        _exit(127);
    }
    int st = 0;
    if (pid < 0)
        _exit(99);
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    if (WIFEXITED(st))
        r.code = WEXITSTATUS(st);
    else {
        r.sig = WTERMSIG(st);
        if (r.sig == SIGXCPU || r.sig == SIGKILL)
            r.timeout = true;
    }
    if (r.code == 127) {
        fprintf(stderr, "cannot run %s\n", av[0]);
        _exit(99);
    }
    r.out = readFile(fout);
    r.err = readFile(ferr);
    return r;
}

static RunResult judged(const std::vector<std::string>& argv, RunResult r)
{
    std::string cmd;
    for (auto& a : argv)
        cmd += a + " ";
    if (r.sig == SIGXCPU)
        fail("%s: did not terminate within %d s of CPU", cmd.c_str(), HUGE_MODE ? 60 : 20);
    if (r.sig)
        fail("%s: killed by signal %d\n%s", cmd.c_str(), r.sig, r.err.substr(0, 3000).c_str());
    if (r.code == 66 || r.err.find("ERROR: AddressSanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos || r.err.find("ERROR: LeakSanitizer") != std::string::npos)
        fail("%s: memory error\n%s", cmd.c_str(), r.err.substr(0, 4000).c_str());
    return r;
}

RunResult runFault(const std::vector<std::string>& argv, const std::string& in, long outLimit, bool inError)
{
    RunResult r;
    std::string fin = writeFile("stdin.txt", in), fout = SCRATCH + "/stdout.txt";
    std::vector<char*> av;
    for (auto& a : argv)
        av.push_back((char*) a.c_str());
    av.push_back(nullptr);
    int pe[2], sv[2] = {-1, -1};
    if (pipe2(pe, O_CLOEXEC) != 0)
        _exit(99);
    if (inError) {
        // a socket closed at the other end with data not received there: ECONNRESET once all that was sent has been read
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0 || write(sv[0], "x", 1) != 1)
            _exit(99);
        for (size_t k = 0; k < in.size();) {
            ssize_t n = write(sv[1], in.data() + k, std::min<size_t>(in.size() - k, 8192));
            if (n <= 0)
                _exit(99);
            k += n;
        }
        close(sv[1]);
    }
    pid_t pid = vfork();
    if (pid == 0) {
        int a = inError ? sv[0] : open(fin.c_str(), O_RDONLY), b = open(fout.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(a, 0);
        dup2(b, 1);
        dup2(pe[1], 2);
        struct rlimit rl = {(rlim_t) (HUGE_MODE ? 60 : 20), (rlim_t) (HUGE_MODE ? 61 : 21)};
        setrlimit(RLIMIT_CPU, &rl);
        signal(SIGXFSZ, SIG_IGN);
        rl.rlim_cur = rl.rlim_max = outLimit >= 0 ? (rlim_t) outLimit : (rlim_t) 1 << 30;
        setrlimit(RLIMIT_FSIZE, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        if (chdir(SCRATCH.c_str()) != 0)
            _exit(126);
        execv(av[0], av.data());
        _exit(127);
    }
    if (pid < 0)
        _exit(99);
    close(pe[1]);
    if (inError)
        close(sv[0]);
    char b[4096];
    for (;;) {
        ssize_t n = read(pe[0], b, sizeof b);
        if (n < 0 && errno == EINTR)
            continue;
        if (n <= 0)
            break;
        r.err.append(b, n);
    }
    close(pe[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    if (WIFEXITED(st))
        r.code = WEXITSTATUS(st);
    else
        r.sig = WTERMSIG(st);
    if (r.code == 127) {
        fprintf(stderr, "cannot run %s\n", av[0]);
        _exit(99);
    }
    r.out = readFile(fout);
    return judged(argv, r);
}

RunResult runSafe(const std::vector<std::string>& argv, const std::string& in)
{
    return judged(argv, run(argv, in));
}

// ---------------------------------------------------------------- driver
static uint64_t hash64(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    uint64_t s = h;
    return splitmix(s);
}

static void arm()
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = CASE_CPU_S * (HUGE_MODE && CASE_CPU_S > 10 ? 2 : 1);
    setitimer(ITIMER_PROF, &it, nullptr);
}

// an error exit leaves the files open at that moment behind
static void closeFiles()
{
    static int base = -1;
    int fd = dup(STDERR_FILENO);
    if (fd >= 0) close(fd);
    if (base < 0) base = fd < 0 ? 3 : fd;
    if (fd < 0 || fd > base + 100) {
        int last = fd < 0 ? (int) sysconf(_SC_OPEN_MAX) : fd;
        for (int k = base; k <= last && k < 70000; ++k) close(k);
    }
}

static void runCase(const Lane& L, Src& s, Ctx& c)
{
    closeFiles();
    SH->n = 0;
    SH->status = ST_NONE;
    SH->msg[0] = 0;
    SH->desc[0] = 0;
    CUR = &c;
    gu_setquitfn(quit_throw);
    gu_verbose = 0;
    HUGE_MODE = L.huge;
    arm();
    try {
        L.fn(s, c);
    } catch (Discard&) {
        c.discarded = true;
    } catch (Quit& q) {
        fail("unexpected error exit on valid input: %s", q.msg.c_str());
    }
    CUR = nullptr;
}

static void childSetup(const std::string& errfile)
{
    signal(SIGPROF, on_prof);
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

static std::string TMPROOT;

// replays a sequence of draws (preceded by whole cases, if any) in a child: true if it fails
struct Hist { int lane; std::vector<uint64_t> idx; uint64_t seed; };
static uint64_t caseSeed(uint64_t seed, const char* id, int lane, uint64_t idx)
{
    uint64_t h = hash64(0x1234, seed);
    for (const char* p = id; *p; ++p)
        h = hash64(h, (unsigned char) *p);
    return hash64(hash64(h, lane), idx);
}

static bool attempt(int lane, const std::vector<uint64_t>& draws, const Hist* hist, std::string* msg, std::string* desc, std::vector<uint64_t>* used)
{
    const Property& P = THE_PROPERTY;
    SCRATCH = TMPROOT + "/r";
    mkdir(SCRATCH.c_str(), 0700);
    std::string errf = TMPROOT + "/replay.err";
    SH->status = ST_NONE;
    SH->msg[0] = SH->desc[0] = 0;
    SH->n = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(errf);
        if (hist)
            for (uint64_t k : hist->idx) {
                Src s;
                Ctx c;
                s.rng = caseSeed(hist->seed, P.id, hist->lane, k);
                runCase(P.lanes[hist->lane], s, c);
            }
        else {
            Src s;
            Ctx c;
            s.replay = true;
            s.rdata = draws.data();
            s.rn = draws.size();
            runCase(P.lanes[lane], s, c);
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
        fprintf(stderr, "engine: internal error during replay\n%s\n", readFile(errf).c_str());
        exit(3);
    }
    if (msg) {
        *msg = SH->msg;
        if (msg->empty()) {
            std::string e = readFile(errf);
            *msg = strf("the process died (%s %d): ", WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + e.substr(0, 4000);
        }
    }
    if (desc)
        *desc = SH->desc;
    if (used)
        used->assign(SH->draws, SH->draws + std::min<uint64_t>((uint64_t) SH->n, MAXDRAWS));
    return true;
}

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static int SHRINKS = 3000;
static std::vector<uint64_t> shrink(int lane, std::vector<uint64_t> best)
{
    double t0 = now();
    int budget = SHRINKS;
    auto spent = [&]() { return budget <= 0 || now() - t0 > 60; };
    auto tryit = [&](const std::vector<uint64_t>& v) {
        if (spent())
            return false;
        budget--;
        std::vector<uint64_t> used;
        if (attempt(lane, v, nullptr, nullptr, nullptr, &used)) {
            if (used.size() < v.size())
                best.assign(v.begin(), v.begin() + used.size());
            else
                best = v;
            while (!best.empty() && best.back() == 0)
                best.pop_back();
            return true;
        }
        return false;
    };
    bool improved = true;
    while (improved && !spent()) {
        improved = false;
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1 && !spent(); blk /= 2) {
            for (size_t i = best.size(); i >= 1 && !spent();) {
                size_t a = i >= blk ? i - blk : 0;
                if (a < best.size()) {
                    std::vector<uint64_t> v = best;
                    v.erase(v.begin() + a, v.begin() + std::min(a + blk, v.size()));
                    if (tryit(v)) {
                        improved = true;
                        i = std::min(i, best.size());
                        continue;
                    }
                    bool nz = false;
                    v = best;
                    for (size_t k = a; k < std::min(a + blk, v.size()); ++k) {
                        nz = nz || v[k];
                        v[k] = 0;
                    }
                    if (nz && tryit(v))
                        improved = true;
                }
                if (i <= blk)
                    break;
                i -= blk;
            }
        }
        for (size_t k = 0; k < best.size() && !spent(); ++k) {
            uint64_t lo = 0;
            while (k < best.size() && lo < best[k] && !spent()) {
                uint64_t mid = lo + (best[k] - lo) / 2;
                std::vector<uint64_t> v = best;
                v[k] = mid;
                if (tryit(v))
                    improved = true;
                else
                    lo = mid + 1;
            }
        }
    }
    return best;
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\')
            o += '\\', o += ch;
        else if (ch == '\n')
            o += "\\n";
        else if (ch == '\t')
            o += "\\t";
        else if (ch < 32 || ch > 126)
            o += strf("\\u%04x", ch);
        else
            o += ch;
    }
    return o;
}

static void rmTree(const std::string& d)
{
    DIR* D = opendir(d.c_str());
    if (D) {
        while (struct dirent* e = readdir(D)) {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
                rmTree(p);
            else
                unlink(p.c_str());
        }
        closedir(D);
    }
    rmdir(d.c_str());
}

static bool readReplay(const std::string& path, int* lane, std::vector<uint64_t>* draws, Hist* h, bool* hashist)
{
    FILE* f = fopen(path.c_str(), "r");
    if (!f)
        return false;
    char* line = nullptr;
    size_t cap = 0;
    *hashist = false;
    while (getline(&line, &cap, f) > 0) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "lane") {
            std::string n;
            is >> n;
            for (size_t i = 0; i < THE_PROPERTY.lanes.size(); ++i)
                if (n == THE_PROPERTY.lanes[i].name)
                    *lane = (int) i;
        } else if (k == "draws") {
            uint64_t v;
            while (is >> v)
                draws->push_back(v);
        } else if (k == "history") {
            *hashist = true;
            uint64_t v;
            is >> h->seed;
            while (is >> v)
                h->idx.push_back(v);
        } else if (k == "message")
            break;
    }
    free(line);
    fclose(f);
    h->lane = *lane;
    return true;
}

#ifndef LIBFUZZER
static const long QUICK = 3;         // multiplies the numbers of cases given by the properties

int main(int argc, char** argv)
{
    const Property& P = THE_PROPERTY;
    uint64_t seed = 1;
    std::string evidence, replayOut, replayIn, only;
    double scale = 1.0;
    int W = 8;
    long start = 0;
    double maxwall = -1;
    bool dump = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--tier") THOROUGH = next() == "thorough";
        else if (a == "--evidence") evidence = next();
        else if (a == "--replay-out") replayOut = next();
        else if (a == "--replay") replayIn = next();
        else if (a == "--bindir") BINDIR = next();
        else if (a == "--workers") W = atoi(next().c_str());
        else if (a == "--scale") scale = atof(next().c_str());
        else if (a == "--lane") only = next();
        else if (a == "--start") start = atol(next().c_str());
        else if (a == "--max-wall") maxwall = atof(next().c_str());
        else if (a == "--dump") dump = true;
        else if (a == "--shrinks") SHRINKS = atoi(next().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    double t0 = now();
    if (maxwall < 0) maxwall = THOROUGH ? 780 : 500;            // for slow machines: what was left out is reported
    {
        char tmpl[] = "/tmp/gupbt.XXXXXX";
        if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
        TMPROOT = tmpl;
    }
    struct Guard { ~Guard() { rmTree(TMPROOT); } } guard;
    SH = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if (!replayIn.empty()) {
        int lane = 0;
        std::vector<uint64_t> draws;
        Hist h;
        bool hh;
        if (!readReplay(replayIn, &lane, &draws, &h, &hh)) { fprintf(stderr, "cannot read %s\n", replayIn.c_str()); return 2; }
        std::string msg, desc;
        bool f = attempt(lane, draws, hh ? &h : nullptr, &msg, &desc, nullptr);
        if (f) {
            printf("REPLAY-FAILS property=%s\n%s\n%s\n", P.id, desc.c_str(), msg.c_str());
            return 1;
        }
        printf("replay passes\n");
        return 0;
    }

    struct LaneStat { uint64_t evals = 0, nontriv = 0, discarded = 0; };
    std::vector<LaneStat> LS(P.lanes.size());
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    bool violation = false;
    std::string vmsg, vdesc;
    std::vector<uint64_t> vdraws;
    int vlane = -1;
    Hist vh;
    bool vhist = false;
    uint64_t unreproduced = 0;
    bool truncated = false;

    std::vector<Shared*> shs(W);
    for (int w = 0; w < W; ++w)
        shs[w] = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared* replaySH = SH;
    // the time by which a lane has to be over, as a fraction of the whole
    std::vector<double> share;
    for (auto& l : P.lanes) share.push_back((share.empty() ? 0 : share.back()) + (l.huge ? 0.4 : 1));
    const double tot = share.back();
    for (double& v : share) v /= tot;

    for (size_t L = 0; L < P.lanes.size() && !violation; ++L) {
        if (!only.empty() && only != P.lanes[L].name)
            continue;
        uint64_t N = (uint64_t) ((THOROUGH ? P.lanes[L].thorough : QUICK * P.lanes[L].quick) * scale);
        if (N < 1)
            N = 1;
        int Wl = (int) std::min<uint64_t>(W, N);
        std::vector<pid_t> pids(Wl);
        std::vector<uint64_t> from(Wl);
        for (int w = 0; w < Wl; ++w)
            from[w] = w;
        auto spawnWorker = [&](int w) {
            fflush(stdout);
            fflush(stderr);
            shs[w]->done = 0;
            pid_t pid = fork();
            if (pid == 0) {
                SH = shs[w];
                SCRATCH = TMPROOT + strf("/w%d", w);
                mkdir(SCRATCH.c_str(), 0700);
                childSetup(TMPROOT + strf("/w%d.err", w));
                LaneStat st;
                std::map<std::string, uint64_t> lab;
                std::vector<uint64_t> hs;
                std::vector<std::string> smp;
                int trunc = 0;
                SH->lane = (int) L;
                for (uint64_t k = from[w]; k < N; k += Wl) {
                    if (maxwall > 0 && now() - t0 > maxwall * share[L]) { trunc = 1; break; }
                    SH->caseidx = k;
                    Src s;
                    Ctx c;
                    s.rng = caseSeed(seed, P.id, (int) L, k + start);
                    runCase(P.lanes[L], s, c);
                    st.evals++;
                    if (c.discarded) {
                        st.discarded++;
                        lab["DISCARDED"]++;
                        continue;
                    }
                    for (auto& x : c.labels)
                        lab[x]++;
                    if (dump)
                        smp.push_back(c.desc.str());
                    if (c.nontrivial) {
                        st.nontriv++;
                        uint64_t h = 7 + L;
                        for (uint64_t q = 0; q < SH->n; ++q)
                            h = hash64(h, SH->draws[q]);
                        hs.push_back(h);
                        if (smp.size() < 1 && w < 3 && c.desc.str().size() < 6000)
                            smp.push_back(c.desc.str());
                    }
                }
                std::string out = strf("S %llu %llu %llu %d\n", (unsigned long long) st.evals, (unsigned long long) st.nontriv, (unsigned long long) st.discarded, trunc);
                for (auto& kv : lab)
                    out += strf("L %llu ", (unsigned long long) kv.second) + kv.first + "\n";
                std::sort(hs.begin(), hs.end());
                hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
                for (uint64_t h : hs)
                    out += strf("H %llx\n", (unsigned long long) h);
                for (auto& s : smp)
                    out += "E " + jesc(s) + "\n";
                SCRATCH = TMPROOT;
                writeFile(strf("w%d.sum", w), out);
                SH->done = 1;
                _exit(0);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < Wl; ++w)
            spawnWorker(w);
        int running = Wl;
        while (running > 0 && !violation) {
            int st;
            pid_t pid = waitpid(-1, &st, 0);
            if (pid < 0) {
                if (errno == EINTR)
                    continue;
                break;
            }
            int w = -1;
            for (int k = 0; k < Wl; ++k)
                if (pids[k] == pid)
                    w = k;
            if (w < 0)
                continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shs[w]->done) {
                running--;
                std::istringstream is(readFile(TMPROOT + strf("/w%d.sum", w)));
                std::string line;
                while (getline(is, line)) {
                    if (line[0] == 'S') {
                        unsigned long long a, b, c;
                        int t = 0;
                        sscanf(line.c_str(), "S %llu %llu %llu %d", &a, &b, &c, &t);
                        LS[L].evals += a;
                        LS[L].nontriv += b;
                        LS[L].discarded += c;
                        if (t)
                            truncated = true;
                    } else if (line[0] == 'L') {
                        unsigned long long a;
                        int off;
                        sscanf(line.c_str(), "L %llu %n", &a, &off);
                        labels[std::string(P.lanes[L].name) + "/" + line.substr(off)] += a;
                    } else if (line[0] == 'H') {
                        unsigned long long a;
                        sscanf(line.c_str(), "H %llx", &a);
                        hashes.push_back(a);
                    } else if (line[0] == 'E')
                        samples.push_back(std::string("[") + P.lanes[L].name + "] " + line.substr(2));
                }
                continue;
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
                fprintf(stderr, "engine: internal error in worker\n%s\n", readFile(TMPROOT + strf("/w%d.err", w)).c_str());
                for (int k = 0; k < Wl; ++k)
                    kill(pids[k], SIGKILL);
                return 3;
            }
            // the worker died in a case
            uint64_t k = shs[w]->caseidx;
            std::vector<uint64_t> d(shs[w]->draws, shs[w]->draws + std::min<uint64_t>((uint64_t) shs[w]->n, MAXDRAWS));
            std::string m1 = shs[w]->msg;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && m1.empty()) {
                fprintf(stderr, "engine: a worker was killed (out of memory?)\n");
            }
            SH = replaySH;
            // a case stops at its failure: what was drawn is a prefix, and zeroes beyond it are harmless
            int fails = 0;
            CASE_CPU_S = 60;
            int need = m1.find("CPU allowance") != std::string::npos ? 1 : 3;       // (a hang takes its time)
            for (int t = 0; t < need; ++t)
                fails += attempt((int) L, d, nullptr, &vmsg, &vdesc, nullptr);
            if (fails == need) {
                violation = true;
                vlane = (int) L;
                vdraws = d;
            } else {
                // may depend on the cases that this worker ran before
                Hist h;
                h.lane = (int) L;
                h.seed = seed;
                bool found = false;
                for (uint64_t len = 2; ; len *= 4) {
                    h.idx.clear();
                    uint64_t avail = (k - from[w]) / Wl + 1;
                    uint64_t m = std::min(len, avail);
                    for (uint64_t q = 0; q < m; ++q)
                        h.idx.push_back(k - (m - 1 - q) * Wl + start);
                    int f2 = 0;
                    for (int t = 0; t < need; ++t)
                        f2 += attempt((int) L, d, &h, &vmsg, &vdesc, nullptr);
                    if (f2 == need) {
                        found = true;
                        break;
                    }
                    if (m == avail || (need == 1 && now() - t0 > 400))
                        break;
                }
                if (found) {
                    violation = true;
                    vhist = true;
                    vh = h;
                    vlane = (int) L;
                } else {
                    int f3 = fails;
                    for (int t = 0; need > 1 && t < 7; ++t)
                        f3 += attempt((int) L, d, nullptr, &vmsg, &vdesc, nullptr);
                    if (f3 >= 4) {
                        violation = true;
                        vlane = (int) L;
                        vdraws = d;
                    } else {
                        unreproduced++;
                        fprintf(stderr, "engine: lane %s case %llu failed once and not on replay: %s\n", P.lanes[L].name, (unsigned long long) k, m1.c_str());
                        if (unreproduced > 50) {
                            fprintf(stderr, "engine: too many failures that do not reproduce\n");
                            return 3;
                        }
                        from[w] = k + Wl;
                        spawnWorker(w);
                    }
                }
            }
        }
        if (violation) {
            for (int w = 0; w < Wl; ++w)
                if (pids[w] > 0)
                    kill(pids[w], SIGKILL);
            while (waitpid(-1, nullptr, 0) > 0);
        }
    }

    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());

    if (violation) {
        SH = replaySH;
        if (!vhist) {
            CASE_CPU_S = 10;
            std::vector<uint64_t> sm = shrink(vlane, vdraws);
            CASE_CPU_S = 60;
            std::string m2, d2;
            int f = 0;
            int need = vmsg.find("CPU allowance") != std::string::npos ? 1 : 3;
            for (int t = 0; t < need; ++t)
                f += attempt(vlane, sm, nullptr, &m2, &d2, nullptr);
            if (f == need) {
                vdraws = sm;
                vmsg = m2;
                vdesc = d2;
            }
        }
        FILE* f = fopen(replayOut.c_str(), "w");
        if (f) {
            fprintf(f, "property %s\nlane %s\n", P.id, P.lanes[vlane].name);
            if (vhist) {
                fprintf(f, "history %llu", (unsigned long long) seed);
                for (uint64_t x : vh.idx)
                    fprintf(f, " %llu", (unsigned long long) x);
                fprintf(f, "\n");
            } else {
                fprintf(f, "draws");
                for (uint64_t x : vdraws)
                    fprintf(f, " %llu", (unsigned long long) x);
                fprintf(f, "\n");
            }
            fprintf(f, "message\n%s\n\ncase\n%s\n", vmsg.c_str(), vdesc.c_str());
            fclose(f);
        }
        printf("%s\n%s\n", vmsg.c_str(), vdesc.substr(0, 3000).c_str());
        printf("VIOLATION property=%s replay=%s\n", P.id, replayOut.c_str());
    }

    uint64_t ev = 0, nt = 0, dc = 0;
    for (auto& l : LS) {
        ev += l.evals;
        nt += l.nontriv;
        dc += l.discarded;
    }
    if (!evidence.empty()) {
        FILE* f = fopen(evidence.c_str(), "w");
        if (!f) { perror(evidence.c_str()); return 3; }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", P.id, THOROUGH ? "thorough" : "quick", (unsigned long long) seed);
        fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"nontrivial\": %llu,\n  \"discarded\": %llu,\n  \"unreproduced_failures\": %llu,\n  \"stopped_by_time\": %s,\n", (unsigned long long) ev, (unsigned long long) hashes.size(), (unsigned long long) nt, (unsigned long long) dc, (unsigned long long) unreproduced, truncated ? "true" : "false");
        fprintf(f, "  \"rule\": \"%s\",\n", jesc(P.rule).c_str());
        fprintf(f, "  \"lanes\": {");
        for (size_t i = 0; i < P.lanes.size(); ++i)
            fprintf(f, "%s\"%s\": {\"evaluations\": %llu, \"nontrivial\": %llu, \"discarded\": %llu}", i ? ", " : "", P.lanes[i].name, (unsigned long long) LS[i].evals, (unsigned long long) LS[i].nontriv, (unsigned long long) LS[i].discarded);
        fprintf(f, "},\n  \"classes\": {");
        bool first = true;
        for (auto& kv : labels) {
            fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(kv.first).c_str(), (unsigned long long) kv.second);
            first = false;
        }
        fprintf(f, "},\n  \"samples\": [");
        size_t ns = 0;
        std::map<std::string, int> per;
        for (auto& s : samples) {
            std::string key = s.substr(0, s.find(']'));
            if (!dump && (per[key]++ >= 2 || s.size() > 7000))
                continue;
            fprintf(f, "%s\n   \"%s\"", ns++ ? "," : "", s.c_str());
        }
        fprintf(f, "\n  ]\n },\n \"assumptions\": [");
        for (size_t i = 0; i < P.assumptions.size(); ++i)
            fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(P.assumptions[i]).c_str());
        fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - t0, violation ? 1 : 0);
        fclose(f);
    }
    printf("%s %s: %llu cases, %llu distinct non-trivial, %llu discarded, %.1f s%s\n", P.id, THOROUGH ? "thorough" : "quick", (unsigned long long) ev, (unsigned long long) hashes.size(), (unsigned long long) dc, now() - t0, violation ? ", VIOLATED" : "");
    return violation ? 1 : 0;
}
#endif
