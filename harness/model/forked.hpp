// Run a piece of a case in a child process and get its observations back.
#pragma once
#include "runner.hpp"
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

inline void crash_note() {
    char b[64];
    int n = snprintf(b, sizeof b, "\nCRASH\t%llu\n", (unsigned long long)cur_seed());
    if (write(1, b, n) < 0) {}
}
inline void on_signal(int s) {
    crash_note();
    char b[64];
    int n = snprintf(b, sizeof b, "SIGNAL\t%d\n", s);
    if (write(1, b, n) < 0) {}
    signal(s, SIG_DFL);
    raise(s);
}
inline void watch_crashes() {
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(crash_note);
    signal(SIGABRT, on_signal);
    signal(SIGALRM, on_signal);
    std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
}

struct Outcome {
    int rc = 0, errkind = 0;
    bool crashed = false;
    std::string crash;
    struct { std::vector<u64> h; std::vector<std::string> what; } b;
    std::map<std::string, u64> stats;
    template<class B> void set(const B& x) { b.h = x.h; b.what = x.what; }
};

inline void put(std::string& s, u64 x) { s.append(reinterpret_cast<char*>(&x), 8); }
inline void put(std::string& s, const std::string& x) { put(s, x.size()); s += x; }
struct Reader {
    const std::string& s; std::size_t i = 0; bool ok = true;
    u64 num() { u64 x = 0; if (i + 8 > s.size()) { ok = false; return 0; } memcpy(&x, &s[i], 8); i += 8; return x; }
    std::string str() { u64 n = num(); if (!ok || i + n > s.size()) { ok = false; return {}; } auto r = s.substr(i, n); i += n; return r; }
};

template<class F> Outcome forked(F f) {
    int fd[2];
    if (pipe(fd)) { perror("pipe"); _exit(2); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        close(fd[0]);
        alarm(120);
        if (!getenv("SHOW_CHILD")) { if (!freopen("/dev/null", "w", stdout)) {} }
        stats() = Stats();
        Outcome o = f();
        std::string s;
        put(s, u64(o.rc)); put(s, u64(o.errkind));
        put(s, o.b.h.size()); for (auto x : o.b.h) put(s, x);
        put(s, o.b.what.size()); for (auto& x : o.b.what) put(s, x);
        put(s, stats().n.size()); for (auto& [k, v] : stats().n) { put(s, k); put(s, v); }
        put(s, stats().viol.size()); for (auto& v : stats().viol) { put(s, v.tag); put(s, v.msg); }
        put(s, stats().distinct.size()); for (auto v : stats().distinct) put(s, v);
        put(s, u64(0xfeed));
        for (std::size_t i = 0; i < s.size();) { auto n = write(fd[1], s.data() + i, s.size() - i); if (n <= 0) _exit(3); i += n; }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    for (;;) { auto n = read(fd[0], buf, sizeof buf); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; s.append(buf, n); }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    Reader r{s};
    o.rc = int(r.num()); o.errkind = int(r.num());
    for (u64 n = r.num(); n-- && r.ok;) o.b.h.push_back(r.num());
    for (u64 n = r.num(); n-- && r.ok;) o.b.what.push_back(r.str());
    for (u64 n = r.num(); n-- && r.ok;) { auto k = r.str(); o.stats[k] = r.num(); }
    std::vector<Violation> vs;
    for (u64 n = r.num(); n-- && r.ok;) { auto t = r.str(); vs.push_back({t, r.str(), cur_seed()}); }
    std::vector<u64> ds;
    for (u64 n = r.num(); n-- && r.ok;) ds.push_back(r.num());
    if (!r.ok || r.num() != 0xfeed) {
        o.crashed = true;
        o.b.h.clear(); o.b.what.clear();
        o.crash = WIFSIGNALED(st) ? "the process was ended by signal " + std::to_string(WTERMSIG(st)) : "the process ended with status " + std::to_string(WEXITSTATUS(st));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { std::printf("KILLED\n"); _exit(2); } // out of memory, not a finding
        return o;
    }
    for (auto& v : vs) stats().viol.push_back(v);
    for (auto d : ds) stats().distinct.insert(d);
    for (auto& [k, v] : o.stats) stats().n[k] += v;
    return o;
}
// A whole case in a child; its statistics are kept.
template<class F> void forked_case(F f) {
    Outcome o = forked([&] { f(); return Outcome(); });
    if (o.crashed) violation("crash", "%s", o.crash.c_str());
}
