// Common parts of the handwritten harnesses: random numbers, statistics,
// violations, crash notes and child processes.  Includes nothing of the library.
#pragma once
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <vector>
#include "rng.hpp"


struct Viol { std::string tag, msg; u64 seed; };
struct Stats { std::map<std::string, u64> n; std::set<u64> distinct; std::vector<std::string> samples; std::vector<Viol> viol; };
inline Stats& stats() { static Stats* s = new Stats; return *s; }
inline u64& cur_seed() { static u64 s = 0; return s; }
inline std::string& trail() { static std::string* s = new std::string; return *s; } // operations of the case
inline void count(const char* k, u64 n = 1) { stats().n[k] += n; }
inline void distinct(u64 h) { if (stats().distinct.size() < 200000) stats().distinct.insert(h); }
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline void sample(const std::string& s) { if (stats().samples.size() < 3) stats().samples.push_back(s); }
inline const char*& forced_tag() { static const char* t = nullptr; return t; }
inline bool violation(const char* tag, const char* f, ...) {
    char b[2000];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    for (char* p = b; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
    if (stats().viol.size() < 40) stats().viol.push_back({forced_tag() ? forced_tag() : tag, std::string(b) + (trail().empty() ? "" : " | " + trail().substr(trail().size() > 700 ? trail().size() - 700 : 0)), cur_seed()});
    return false;
}

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
inline void crash_note() {
    char b[64];
    int n = snprintf(b, sizeof b, "\nCRASH\t%llu\n", (unsigned long long)cur_seed());
    if (write(1, b, n) < 0) {}
}
inline void on_signal(int s) {
    crash_note();
    char b[64];
    int n = snprintf(b, sizeof b, "SIGNAL\t%d\n", s);
    if (write(1, b, n) < 0) {}
    auto& t = trail();
    if (write(2, "\ntrail: ", 8) < 0) {}
    if (write(2, t.data() + (t.size() > 500 ? t.size() - 500 : 0), t.size() > 500 ? 500 : t.size()) < 0) {}
    signal(s, SIG_DFL);
    raise(s);
}
inline void watch_crashes() {
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(crash_note);
    signal(SIGABRT, on_signal);
    signal(SIGALRM, on_signal);
    std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
}

// Runs f in a child; what it writes to stdout, stderr and its wait status come back.
struct Child { std::string out, err; int status = 0; bool aborted() const { return WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT; } bool ok() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; } };
template<class F> Child in_child(F f, unsigned seconds = 60) {
    int o[2], e[2];
    if (pipe(o) || pipe(e)) { perror("pipe"); _exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        dup2(o[1], 1); dup2(e[1], 2);
        close(o[0]); close(o[1]); close(e[0]); close(e[1]);
        signal(SIGABRT, SIG_DFL); signal(SIGALRM, SIG_DFL);
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(nullptr);
        alarm(seconds);
        f();
        fflush(stdout); fflush(stderr);
        _exit(0);
    }
    close(o[1]); close(e[1]);
    Child c;
    // small outputs only: read one after the other from pipes of 64 KiB
    auto drain = [](int fd, std::string& s) { char b[4096]; for (;;) { auto n = read(fd, b, sizeof b); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; s.append(b, n); } close(fd); };
    drain(o[0], c.out); drain(e[0], c.err);
    while (waitpid(pid, &c.status, 0) < 0 && errno == EINTR) {}
    return c;
}

// A case in a child process; what it observed is merged, what kills it is a violation.
template<class F> void forked_case(F f) {
    Child c = in_child([&] {
        stats() = Stats();
        f();
        for (auto& v : stats().viol) std::printf("VIOL\t%s\t%s\n", v.tag.c_str(), v.msg.c_str());
        for (auto& [k, n] : stats().n) std::printf("STAT\t%s\t%llu\n", k.c_str(), (unsigned long long)n);
        for (auto d : stats().distinct) std::printf("DIST\t%llu\n", (unsigned long long)d);
        for (auto& t : stats().samples) std::printf("SAMPLE\t%s\n", t.c_str());
        std::printf("END\n");
    });
    bool end = false;
    std::size_t i = 0;
    while (i < c.out.size()) {
        std::size_t e = c.out.find('\n', i);
        if (e == std::string::npos) e = c.out.size();
        std::string l = c.out.substr(i, e - i);
        i = e + 1;
        auto tab = [&](std::size_t n) { std::size_t p = 0; while (n--) p = l.find('\t', p) + 1; return p; };
        if (l.rfind("VIOL\t", 0) == 0) { auto a = tab(1), b = tab(2); if (stats().viol.size() < 40) stats().viol.push_back({l.substr(a, b - a - 1), l.substr(b), cur_seed()}); }
        else if (l.rfind("STAT\t", 0) == 0) { auto a = tab(1), b = tab(2); stats().n[l.substr(a, b - a - 1)] += strtoull(l.c_str() + b, nullptr, 10); }
        else if (l.rfind("DIST\t", 0) == 0) distinct(strtoull(l.c_str() + 5, nullptr, 10));
        else if (l.rfind("SAMPLE\t", 0) == 0) sample(l.substr(7));
        else if (l == "END") end = true;
    }
    if (!end || !c.ok()) {
        if (WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGKILL) { std::printf("KILLED\n"); _exit(2); } // out of memory, not a finding
        std::string e = c.err.substr(0, 600);
        auto p = c.err.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = c.err.find("runtime error:");
        if (p != std::string::npos) e = c.err.substr(p, 900);
        violation("crash", "the process ended with %s %d: %s", WIFSIGNALED(c.status) ? "signal" : "status", WIFSIGNALED(c.status) ? WTERMSIG(c.status) : WEXITSTATUS(c.status), e.c_str());
    }
}

struct Args { u64 seed = 1, cases = 100; long long one = -1; double seconds = 1e9; std::string mode; };
inline Args parse_args(int argc, char** argv) {
    Args a;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i];
        if (k == "--mode") a.mode = argv[i + 1];
        else if (k == "--seed") a.seed = std::stoull(argv[i + 1]);
        else if (k == "--cases") a.cases = std::stoull(argv[i + 1]);
        else if (k == "--case") a.one = std::stoll(argv[i + 1]);
        else if (k == "--seconds") a.seconds = std::stod(argv[i + 1]);
    }
    return a;
}
inline void report() {
    for (auto& v : stats().viol) std::printf("VIOL\t%s\t%llu\t%s\n", v.tag.c_str(), (unsigned long long)v.seed, v.msg.c_str());
    for (auto& [k, n] : stats().n) std::printf("STAT\t%s\t%llu\n", k.c_str(), (unsigned long long)n);
    std::printf("STAT\tdistinct\t%zu\n", stats().distinct.size());
    for (auto& t : stats().samples) std::printf("SAMPLE\t%s\n", t.c_str());
    std::printf("DONE\n");
    fflush(stdout);
}
template<class F> int run_cases(int argc, char** argv, F f) {
    Args a = parse_args(argc, argv);
    watch_crashes();
    auto t0 = time(nullptr);
    auto one = [&](u64 seed) { cur_seed() = seed; trail().clear(); alarm(120); Rng g(seed * 0x9e3779b97f4a7c15ull + 17); f(g, a); alarm(0); };
    if (a.one >= 0) one(u64(a.one));
    else for (u64 i = 0; i < a.cases && difftime(time(nullptr), t0) < a.seconds; ++i) {
        one(a.seed * 1000000 + i);
        if (stats().viol.size() >= 20) break;
    }
    report();
    return 0;
}
