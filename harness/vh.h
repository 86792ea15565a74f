// Common runtime for the property drivers: seeded randomness, case loop,
// verdict records, coverage counters.  Nothing here depends on the library
// under test.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b * 0x9e3779b97f4a7c15ull + 0x1234567)); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // uniform integer in [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    double normal() {
        double u = uni() + 1e-300, v = uni();
        return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <class T>
    void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
    }
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

struct Violation {
    std::string key, msg;
    Violation(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
};
// A case whose precondition turned out not to hold: not counted.
struct Skip {};

#define VH_CHECK(cond, key, ...)                                  \
    do {                                                          \
        if (!(cond)) throw vh::Violation((key), vh::fmt(__VA_ARGS__)); \
    } while (0)

inline std::string jsonEscape(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c < 0x20 || c >= 0x7f) {
            o += fmt("\\u%04x", c);
        } else {
            o += (char)c;
        }
    }
    return o;
}

struct Ctx {
    uint64_t seed = 1;
    bool thorough = false;
    int shard = 0, nshards = 1;
    long start = 0, only = -1, cases = 0;
    std::string scratch = ".";
    FILE *out = stdout;
    char *status = nullptr;
    long curCase = -1;
    uint64_t evaluations = 0;
    std::map<std::string, uint64_t> counters;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;

    void count(const std::string &k, uint64_t n = 1) { counters[k] += n; }
    void eval(uint64_t n = 1) { evaluations += n; }
    void nontrivial(uint64_t h) { distinct.insert(h); }
    void sample(const std::string &s) {
        if (samples.size() < 3) samples.push_back(s);
    }
    void stage(const char *s) {
        if (status) {
            snprintf(status + 16, 200, "%s", s);
        }
    }
    void setCase(long id) {
        curCase = id;
        if (status) {
            memcpy(status, &id, sizeof id);
            status[16] = 0;
        }
    }
};

inline Ctx *&gctx() {
    static Ctx *c = nullptr;
    return c;
}

// Outcome of running something in a forked child.
struct ChildResult {
    enum Kind { OK, REJECTED, EXCEPTION, CRASH, HANG } kind;
    int detail;
    std::string text;
};

// Runs f in a child.  REJECTED: std::terminate without an active exception
// (the library's error channel) or its assertion channel (abort with a message).
// EXCEPTION: an uncaught/propagated C++ exception.  CRASH: any other death,
// sanitizer reports included.
ChildResult runChild(const std::function<std::string()> &f, int cpuSeconds = 60);

inline int g_termFd = -1;
inline void childTerminate() {
    int code = 70;
    if (std::current_exception()) code = 71;
    _exit(code);
}

inline ChildResult runChild(const std::function<std::string()> &f, int cpuSeconds) {
    fflush(nullptr);
    int p[2];
    if (pipe(p) != 0) {
        perror("pipe");
        _exit(3);
    }
    // stderr of the child goes to a file so that sanitizer reports can be told
    // from plain aborts.
    const std::string errFile = gctx()->scratch + fmt("/child.%d.err", gctx()->shard);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        _exit(3);
    }
    if (pid == 0) {
        close(p[0]);
        int e = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        int nul = open("/dev/null", O_WRONLY);
        dup2(e, 2);
        dup2(nul, 1);
        struct rlimit rl = {(rlim_t)cpuSeconds, (rlim_t)cpuSeconds + 5};
        setrlimit(RLIMIT_CPU, &rl);
        std::set_terminate(childTerminate);
        std::string r;
        try {
            r = f();
        } catch (const std::exception &ex) {
            std::string w = std::string("what: ") + ex.what();
            ssize_t n = write(p[1], w.data(), std::min<size_t>(w.size(), 60000));
            (void)n;
            _exit(72);
        } catch (const Violation &v) {
            std::string w = std::string("VIOLATION ") + v.key + "|" + v.msg;
            ssize_t n = write(p[1], w.data(), std::min<size_t>(w.size(), 60000));
            (void)n;
            _exit(73);
        }
        size_t off = 0;
        while (off < r.size()) {
            ssize_t n = write(p[1], r.data() + off, r.size() - off);
            if (n <= 0) break;
            off += (size_t)n;
        }
        _exit(0);
    }
    close(p[1]);
    std::string got;
    char buf[65536];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) got.append(buf, (size_t)n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    ChildResult res;
    res.detail = st;
    res.text = got;
    std::string err;
    if (FILE *ef = fopen(errFile.c_str(), "r")) {
        size_t k;
        while ((k = fread(buf, 1, sizeof buf, ef)) > 0) err.append(buf, k);
        fclose(ef);
    }
    const bool san = err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos ||
                     err.find("__glibcxx_assert") != std::string::npos || err.find("eigen_assert") != std::string::npos ||
                     err.find("Assertion `") != std::string::npos || err.find("Assertion '") != std::string::npos;
    if (WIFEXITED(st)) {
        switch (WEXITSTATUS(st)) {
        case 0:
            res.kind = ChildResult::OK;
            break;
        case 70:
            res.kind = ChildResult::REJECTED;
            break;
        case 71:
        case 72:
            res.kind = ChildResult::EXCEPTION;
            break;
        case 73: {
            const size_t bar = got.find('|');
            throw Violation(got.substr(10, bar - 10), got.substr(bar + 1));
        }
        default:
            res.kind = ChildResult::CRASH;
            res.text = err.substr(0, 1500);
        }
    } else {
        const int sig = WTERMSIG(st);
        if (sig == SIGXCPU || sig == SIGKILL) {
            res.kind = ChildResult::HANG;
        } else if (sig == SIGABRT && !san) {
            res.kind = ChildResult::REJECTED;
        } else {
            res.kind = ChildResult::CRASH;
        }
        if (res.kind == ChildResult::CRASH) res.text = fmt("signal %d; ", sig) + err.substr(0, 1500);
    }
    return res;
}

// Implemented by each property driver.
void runCase(Ctx &ctx, long id, Rng &rng);
void finish(Ctx &ctx);

}  // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char **argv) {
    using namespace vh;
    static Ctx ctx;
    gctx() = &ctx;
    std::string outFile, statusFile, distinctFile;
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") ctx.seed = strtoull(v.c_str(), nullptr, 10);
        if (k == "--tier") ctx.thorough = v == "thorough";
        if (k == "--shard") ctx.shard = atoi(v.c_str());
        if (k == "--nshards") ctx.nshards = atoi(v.c_str());
        if (k == "--start") ctx.start = atol(v.c_str());
        if (k == "--only") ctx.only = atol(v.c_str());
        if (k == "--cases") ctx.cases = atol(v.c_str());
        if (k == "--out") outFile = v;
        if (k == "--status") statusFile = v;
        if (k == "--distinct") distinctFile = v;
        if (k == "--scratch") ctx.scratch = v;
    }
    if (!outFile.empty()) ctx.out = fopen(outFile.c_str(), "a");
    if (!statusFile.empty()) {
        int fd = open(statusFile.c_str(), O_CREAT | O_RDWR, 0644);
        if (ftruncate(fd, 256) != 0) return 3;
        ctx.status = (char *)mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    int nviol = 0;
    auto one = [&](long id) {
        ctx.setCase(id);
        Rng rng(mix(ctx.seed, (uint64_t)id * 2654435761ull + 17));
        try {
            runCase(ctx, id, rng);
        } catch (const Violation &v) {
            fprintf(ctx.out, "{\"type\":\"violation\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n", id,
                    jsonEscape(v.key).c_str(), jsonEscape(v.msg).c_str());
            fflush(ctx.out);
            nviol++;
        } catch (const Skip &) {
            ctx.count("skipped");
        } catch (const std::exception &e) {
            fprintf(ctx.out, "{\"type\":\"violation\",\"case\":%ld,\"key\":\"exception\",\"msg\":\"%s (stage %s)\"}\n", id,
                    jsonEscape(e.what()).c_str(), ctx.status ? jsonEscape(ctx.status + 16).c_str() : "");
            fflush(ctx.out);
            nviol++;
        }
    };
    if (ctx.only >= 0) {
        one(ctx.only);
    } else {
        for (long id = ctx.start; id < ctx.cases && nviol < 8; id++) {
            if (id % ctx.nshards != ctx.shard) continue;
            one(id);
        }
    }
    if (nviol == 0 && ctx.only < 0) {
        try {
            finish(ctx);
        } catch (const Violation &v) {
            fprintf(ctx.out, "{\"type\":\"violation\",\"case\":-1,\"key\":\"%s\",\"msg\":\"%s\"}\n",
                    jsonEscape(v.key).c_str(), jsonEscape(v.msg).c_str());
            fflush(ctx.out);
        }
    }
    std::string s = "{\"type\":\"summary\",\"evaluations\":" + std::to_string(ctx.evaluations) + ",\"counters\":{";
    bool first = true;
    for (auto &kv : ctx.counters) {
        s += (first ? "" : ",") + std::string("\"") + jsonEscape(kv.first) + "\":" + std::to_string(kv.second);
        first = false;
    }
    s += "},\"samples\":[";
    first = true;
    for (auto &x : ctx.samples) {
        s += (first ? "" : ",") + std::string("\"") + jsonEscape(x) + "\"";
        first = false;
    }
    s += "]}\n";
    fputs(s.c_str(), ctx.out);
    fflush(ctx.out);
    if (!distinctFile.empty()) {
        FILE *f = fopen(distinctFile.c_str(), "ab");
        for (uint64_t h : ctx.distinct) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    _exit(0);
}
#endif
