// Choice-sequence property-based testing engine (self-contained, no dependencies).
//
// Every random decision of a case goes through Gen::draw and is recorded as a small integer on the
// case's "tape".  A case is a pure function of its tape, so
//   * random search draws the tape from a PRNG seeded by (VERIF_SEED, case index),
//   * coverage-guided search (libFuzzer) derives the tape from the fuzzer's bytes,
//   * shrinking edits the tape (0 is always the simplest choice), and
//   * a replay file is the tape itself.
// Workers are forked; crashes, sanitizer aborts and runaway cases are attributed to the case that was
// running, confirmed three times in fresh processes, shrunk, and written out.
#pragma once
#include <algorithm>
#include <cassert>
#include <numeric>
#include <random>
#include <tuple>
#include <typeinfo>
#include <unordered_map>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Failure { std::string msg; };
[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t mix2(uint64_t a, uint64_t b) { uint64_t s = a * 0x9E3779B97F4A7C15ull + b; splitmix(s); return splitmix(s); }

class Gen {
public:
    enum Mode { RNG, TAPE, BYTES };
    static Gen fromSeed(uint64_t seed, uint64_t index) { Gen g; g.mode = RNG; g.st = mix2(seed + 0x51ED27ull, index); return g; }
    static Gen fromTape(std::vector<uint64_t> t) { Gen g; g.mode = TAPE; g.in = std::move(t); return g; }
    static Gen fromBytes(const uint8_t* d, size_t n) { Gen g; g.mode = BYTES; g.bytes = d; g.nbytes = n; return g; }

    // uniform in [0,n); 0 is the simplest value
    uint64_t draw(uint64_t n) {
        if (n == 0) n = 1;
        uint64_t v = 0;
        if (mode == RNG) v = splitmix(st) % n;
        else if (mode == TAPE) { v = pos < in.size() ? in[pos] : 0; pos++; if (v >= n) v = v % n; }
        else {
            int k = n <= 1 ? 0 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
            for (int i = 0; i < k; i++) v = (v << 8) | (bpos < nbytes ? bytes[bpos++] : 0);
            v %= n;
        }
        tape.push_back(v);
        if (pub && pub[0] + 1 < pubCap) { pub[pub[0] + 1] = v; pub[0]++; }
        return v;
    }
    int i(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }          // lo is simplest
    bool flip(int percent) { return draw(100) >= (uint64_t)(100 - percent); }             // false is simplest
    // index chosen with integer weights, index 0 simplest
    int pick(std::initializer_list<int> w) {
        uint64_t tot = 0; for (int x : w) tot += x;
        uint64_t r = draw(tot); int k = 0;
        for (int x : w) { if (r < (uint64_t)x) return k; r -= x; k++; }
        return 0;
    }
    uint64_t seed32() { return draw(1ull << 32); }

    // bookkeeping
    void label(const char* l) { labels.push_back(l); }
    void nontrivial() { nontriv = true; }
    bool verbose = false;
    char* textPub = nullptr; size_t textCap = 0;  // shared memory for the case's description
    void note(const std::string& s) {
        if (!textPub) return;
        size_t at = strlen(textPub), n = std::min(s.size(), textCap - 1 - at);
        memcpy(textPub + at, s.data(), n); textPub[at + n] = 0;
    }
    uint64_t* pub = nullptr; size_t pubCap = 0;   // shared memory the tape is published to as it is drawn (survives any crash)

    std::vector<uint64_t> tape;
    std::vector<const char*> labels;
    bool nontriv = false;
private:
    Mode mode = RNG;
    uint64_t st = 0;
    std::vector<uint64_t> in; size_t pos = 0;
    const uint8_t* bytes = nullptr; size_t nbytes = 0, bpos = 0;
};

#define NOTE(g, x) do { if ((g).verbose) { std::ostringstream no_; no_ << std::setprecision(10) << x; (g).note(no_.str()); } } while (0)
#define PFAIL(x) do { std::ostringstream pf_os_; pf_os_ << std::setprecision(12) << x; ::pbt::fail(pf_os_.str()); } while (0)
#define PCHECK(c, x) do { if (!(c)) PFAIL(x); } while (0)

// Runs f and reports whether it threw a std::exception (anything else thrown is a failure).
template <class F> inline bool throws(F&& f, std::string* what = nullptr) {
    try { f(); }
    catch (const Failure&) { throw; }
    catch (const std::exception& e) { if (what) *what = e.what(); return true; }
    catch (...) { fail("threw something that is not a std::exception"); }
    return false;
}

using Prop = void (*)(Gen&);

inline uint64_t hashTape(const std::vector<uint64_t>& t) {
    uint64_t h = 0xcbf29ce484222325ull;
    for (uint64_t v : t) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0x100000001b3ull; }
    return h;
}

struct Outcome { int kind = 0; std::string msg; };   // 0 ok, 1 failure

inline Outcome runOnce(Prop p, Gen& g) {
    Outcome o;
    try { p(g); }
    catch (const Failure& f) { o.kind = 1; o.msg = f.msg; }
    catch (const std::exception& e) { o.kind = 1; o.msg = std::string("unexpected exception from valid use: ") + e.what(); }
    catch (...) { o.kind = 1; o.msg = "unexpected non-standard exception"; }
    return o;
}

inline void cpuLimit(int sec) {
    struct itimerval t{}; t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}

#ifndef PBT_CASE_CPU
#define PBT_CASE_CPU 90        // CPU seconds one case may take before it counts as non-terminating (normal: milliseconds)
#endif

struct Child { bool bad = false; std::string msg; };

// Runs fn (returns Outcome) in a forked child, classifies the result.
inline Child inChild(const std::function<Outcome()>& fn, bool keepStderr, const std::string& errFile = "") {
    const size_t SZ = 1 << 16;
    char* sh = (char*)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh[0] = 0;
    fflush(nullptr); std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
        if (!keepStderr) {
            int fd = errFile.empty() ? open("/dev/null", O_WRONLY) : open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) { dup2(fd, 2); }
        }
        cpuLimit(PBT_CASE_CPU);
        Outcome o = fn();
        if (o.kind) { std::string m = o.msg.substr(0, SZ - 2); memcpy(sh, m.c_str(), m.size() + 1); _exit(3); }
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Child c;
    if (WIFEXITED(st)) {
        int e = WEXITSTATUS(st);
        if (e == 0) {}
        else if (e == 3) { c.bad = true; c.msg = sh; }
        else { c.bad = true; c.msg = "process aborted with exit code " + std::to_string(e) + " (sanitizer report)"; }
    } else if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        c.bad = true;
        if (s == SIGPROF) c.msg = "case did not terminate within " + std::to_string(PBT_CASE_CPU) + " CPU seconds";
        else c.msg = std::string("process killed by signal ") + std::to_string(s) + " (" + strsignal(s) + ")";
        if (s == SIGKILL) { c.bad = false; c.msg = "killed externally"; }
    }
    munmap(sh, SZ);
    return c;
}

inline Child tryTape(Prop p, const std::vector<uint64_t>& t) {
    return inChild([&]() { Gen g = Gen::fromTape(t); return runOnce(p, g); }, false);
}

// The tape a generator yields, however the case ends (normally, by exception, crash or sanitizer abort).
inline std::vector<uint64_t> captureTape(Prop p, const std::function<Gen()>& mk) {
    const size_t N = 1 << 20;
    uint64_t* m = (uint64_t*)mmap(nullptr, N * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    m[0] = 0;
    inChild([&]() { Gen g = mk(); g.pub = m; g.pubCap = N; return runOnce(p, g); }, false);
    std::vector<uint64_t> tape(m + 1, m + 1 + m[0]);
    munmap(m, N * 8);
    return tape;
}

inline double nowS() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

inline std::vector<uint64_t> shrink(Prop p, std::vector<uint64_t> t, double maxSeconds, size_t maxTries) {
    double end = nowS() + maxSeconds; size_t tries = 0;
    auto bad = [&](const std::vector<uint64_t>& c) { tries++; return tryTape(p, c).bad; };
    auto out = [&]() { return nowS() > end || tries > maxTries; };
    while (!t.empty() && t.back() == 0) t.pop_back();
    bool progress = true;
    while (progress && !out()) {
        progress = false;
        // truncate
        for (size_t len = t.size() / 2; len >= 1 && !out(); len /= 2) {
            while (t.size() > len && !out()) {
                std::vector<uint64_t> c(t.begin(), t.end() - len);
                if (bad(c)) { t = c; progress = true; } else break;
            }
        }
        // delete chunks
        for (size_t len : {64u, 16u, 8u, 4u, 2u, 1u}) {
            for (size_t at = 0; at + len <= t.size() && !out();) {
                std::vector<uint64_t> c(t.begin(), t.begin() + at);
                c.insert(c.end(), t.begin() + at + len, t.end());
                if (bad(c)) { t = c; progress = true; } else at += len;
            }
        }
        // zero chunks
        for (size_t len : {32u, 8u, 2u}) {
            for (size_t at = 0; at + len <= t.size() && !out(); at += len) {
                bool any = false; for (size_t k = at; k < at + len; k++) any |= t[k] != 0;
                if (!any) continue;
                std::vector<uint64_t> c = t; for (size_t k = at; k < at + len; k++) c[k] = 0;
                if (bad(c)) { t = c; progress = true; }
            }
        }
        // minimise single values
        for (size_t at = 0; at < t.size() && !out(); at++) {
            if (t[at] == 0) continue;
            std::vector<uint64_t> c = t; c[at] = 0;
            if (bad(c)) { t = c; progress = true; continue; }
            uint64_t lo = 0, hi = t[at];
            while (lo + 1 < hi && !out()) {
                uint64_t mid = lo + (hi - lo) / 2; c = t; c[at] = mid;
                if (bad(c)) { hi = mid; t = c; progress = true; } else lo = mid;
            }
        }
        while (!t.empty() && t.back() == 0) t.pop_back();
    }
    return t;
}

struct Shared { volatile uint64_t cur; volatile uint64_t done; };

inline std::string jsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline std::string describe(Prop p, const std::vector<uint64_t>& t) {
    // runs the case verbosely in a child, returns its notes
    const size_t SZ = 1 << 16;
    char* sh = (char*)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh[0] = 0;
    inChild([&]() {
        Gen g = Gen::fromTape(t); g.verbose = true; g.textPub = sh; g.textCap = SZ;
        return runOnce(p, g); }, false);
    std::string s = sh; munmap(sh, SZ); return s;
}

inline int writeReplay(Prop p, const std::string& file, const std::string& prop, const std::string& config,
                       const std::vector<uint64_t>& t, const std::string& msg) {
    std::string d = describe(p, t);
    std::ofstream f(file);
    f << "PBT-TAPE v1\nprop " << prop << "\nconfig " << config << "\ntape";
    for (uint64_t v : t) f << ' ' << v;
    f << "\n";
    std::istringstream a(msg); std::string line;
    f << "# failure:\n"; while (std::getline(a, line)) f << "#   " << line << "\n";
    std::istringstream b(d); f << "# case:\n"; while (std::getline(b, line)) f << "#   " << line << "\n";
    // sanitizer output, if any
    std::string err = file + ".stderr";
    inChild([&]() { Gen g = Gen::fromTape(t); return runOnce(p, g); }, false, err);
    std::ifstream e(err); int n = 0;
    f << "# stderr:\n"; while (n++ < 60 && std::getline(e, line)) f << "#   " << line << "\n";
    unlink(err.c_str());
    return 0;
}

// exit codes: 0 held, 1 violation (message on stdout), 2 machinery error
inline int runMain(int argc, char** argv, Prop p) {
    std::map<std::string, std::string> a;
    for (int k = 1; k + 1 < argc; k += 2) a[argv[k]] = argv[k + 1];
    std::string prop = a.count("--prop") ? a["--prop"] : "?", config = a.count("--config") ? a["--config"] : "?";
    if (a.count("--replay") || a.count("--bytes")) {
        std::vector<uint64_t> tape; std::string seq;
        if (a.count("--bytes")) {
            std::ifstream f(a["--bytes"], std::ios::binary);
            std::string s((std::istreambuf_iterator<char>(f)), {});
            tape = captureTape(p, [&]() { return Gen::fromBytes((const uint8_t*)s.data(), s.size()); });
        } else {
            std::ifstream f(a["--replay"]); std::string line;
            while (std::getline(f, line)) {
                if (line.rfind("tape", 0) == 0) { std::istringstream is(line.substr(4)); uint64_t v; while (is >> v) tape.push_back(v); }
                if (line.rfind("sequence", 0) == 0) seq = line.substr(8);
            }
        }
        Child c;
        if (!seq.empty()) {
            uint64_t seed, from, step, to; std::istringstream(seq) >> seed >> from >> step >> to;
            c = inChild([&]() { Outcome o; for (uint64_t x = from; x <= to; x += step) { cpuLimit(PBT_CASE_CPU); Gen g = Gen::fromSeed(seed, x); o = runOnce(p, g); if (o.kind) break; } return o; }, true);
        } else {
            int bad = 0;
            for (int k = 0; k < 3; k++) { Child d = tryTape(p, tape); if (d.bad) { bad++; c = d; if (d.msg.find("terminate") != std::string::npos) { bad = 3; break; } } }
            if (bad < 3) c.bad = false;
            if (c.bad && a.count("--shrink-to")) {
                tape = shrink(p, tape, 60, 4000);
                Child d = tryTape(p, tape); if (d.bad) c = d;
                writeReplay(p, a["--shrink-to"], prop, config, tape, c.msg);
            }
            std::cout << describe(p, tape) << "\n";
        }
        std::cout << (c.bad ? "FAILS: " + c.msg : std::string("passes")) << std::endl;
        return c.bad ? 1 : 0;
    }

    if (a.count("--case")) { // development: describe one case of a run
        uint64_t sd = std::stoull(a["--seed"]), x = std::stoull(a["--case"]);
        std::cout << describe(p, captureTape(p, [&]() { return Gen::fromSeed(sd, x); })) << std::endl; return 0;
    }
    uint64_t seed = std::stoull(a["--seed"]), cases = std::stoull(a["--cases"]);
    int J = std::stoi(a["--jobs"]);
    double maxS = a.count("--max-seconds") ? std::stod(a["--max-seconds"]) : 600;
    std::string out = a["--out"], replay = a["--replay-file"];
    double t0 = nowS();
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < J; w++) {
        sh[w].cur = ~0ull; sh[w].done = 0;
        pid_t pid = fork();
        if (pid == 0) {
            { int fd = open((out + ".stderr" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) dup2(fd, 2); }
            std::map<std::string, uint64_t> lab; std::unordered_set<uint64_t> nt; std::vector<std::vector<uint64_t>> samples;
            uint64_t done = 0, ntc = 0; int rc = 0; bool timedOut = false; double slow = 0; uint64_t slowAt = 0;
            for (uint64_t x = w; x < cases; x += J) {
                if (nowS() - t0 > maxS) { timedOut = true; break; }
                sh[w].cur = x;
                cpuLimit(PBT_CASE_CPU);
                Gen g = Gen::fromSeed(seed, x);
                clock_t c0 = clock();
                Outcome o = runOnce(p, g);
                if (o.kind) { rc = 3; break; }
                double cs = double(clock() - c0) / CLOCKS_PER_SEC; if (cs > slow) { slow = cs; slowAt = x; }
                done++; sh[w].done = done;
                for (auto* l : g.labels) lab[l]++;
                if (g.nontriv) { ntc++; nt.insert(hashTape(g.tape)); if (samples.size() < 3 && ntc % 37 == 5) samples.push_back(g.tape); }
            }
            cpuLimit(0);
            std::ofstream f(out + ".w" + std::to_string(w));
            f << "slow " << slow << " " << slowAt << "\ndone " << done << "\nntc " << ntc << "\ntimeout " << timedOut << "\n";
            for (auto& kv : lab) f << "label " << kv.second << " " << kv.first << "\n";
            for (auto& s : samples) { f << "sample"; for (auto v : s) f << ' ' << v; f << "\n"; }
            f.close();
            std::ofstream h(out + ".h" + std::to_string(w), std::ios::binary);
            for (uint64_t v : nt) h.write((const char*)&v, 8);
            h.close();
            _exit(rc);
        }
        pids.push_back(pid);
    }
    std::vector<uint64_t> failing; std::vector<int> failW; bool lost = false; std::string lostMsg;
    int left = J;
    while (left > 0) {
        int st; pid_t q = waitpid(-1, &st, 0);
        if (q < 0) break;
        int w = -1; for (int k = 0; k < J; k++) if (pids[k] == q) w = k;
        if (w < 0) continue;
        left--;
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { if (failing.empty()) { lost = true; lostMsg = "worker killed (out of memory?)"; } continue; }
        if (!ok) {
            if (sh[w].cur == ~0ull) { lost = true; lostMsg = "worker died before its first case"; continue; }
            failing.push_back((uint64_t)sh[w].cur); failW.push_back(w);
            for (int k = 0; k < J; k++) if (k != w) kill(pids[k], SIGKILL);
        }
    }
    // merge
    double slowest = 0; uint64_t slowestCase = 0;
    std::map<std::string, uint64_t> lab; std::unordered_set<uint64_t> nt; uint64_t done = 0, ntc = 0; bool timedOut = false; std::vector<std::vector<uint64_t>> samples;
    for (int w = 0; w < J; w++) {
        std::ifstream f(out + ".w" + std::to_string(w)); std::string line; bool any = false;
        while (std::getline(f, line)) {
            std::istringstream is(line); std::string k; is >> k; any = true;
            if (k == "slow") { double v; uint64_t at; is >> v >> at; if (v > slowest) { slowest = v; slowestCase = at; } }
            else if (k == "done") { uint64_t v; is >> v; done += v; }
            else if (k == "ntc") { uint64_t v; is >> v; ntc += v; }
            else if (k == "timeout") { int v; is >> v; timedOut |= v; }
            else if (k == "label") { uint64_t v; std::string n; is >> v; std::getline(is, n); lab[n.substr(1)] += v; }
            else if (k == "sample" && samples.size() < 4) { std::vector<uint64_t> t; uint64_t v; while (is >> v) t.push_back(v); samples.push_back(t); }
        }
        if (!any) done += sh[w].done;
        std::ifstream h(out + ".h" + std::to_string(w), std::ios::binary); uint64_t v;
        while (h.read((char*)&v, 8)) nt.insert(v);
        unlink((out + ".w" + std::to_string(w)).c_str()); unlink((out + ".h" + std::to_string(w)).c_str());
        unlink((out + ".stderr" + std::to_string(w)).c_str());
    }
    int rc = lost ? 2 : 0; std::string msg = lost ? lostMsg : "";
    if (!failing.empty()) {
        uint64_t idx = *std::min_element(failing.begin(), failing.end());
        int w = failW[std::min_element(failing.begin(), failing.end()) - failing.begin()];
        // re-derive the tape of that case: the tape is what the PRNG yields; replay by seed, then by tape
        Child c; int bad = 0;
        for (int k = 0; k < 3; k++) { Child d = inChild([&]() { Gen g = Gen::fromSeed(seed, idx); return runOnce(p, g); }, false); if (d.bad) { bad++; c = d; if (d.msg.find("terminate") != std::string::npos) { bad = 3; break; } } }
        if (bad == 3) {
            std::vector<uint64_t> tape = captureTape(p, [&]() { return Gen::fromSeed(seed, idx); });
            Child d = tryTape(p, tape);
            rc = 1;
            if (d.bad) {
                bool hang = d.msg.find("terminate") != std::string::npos;
                if (!hang) tape = shrink(p, tape, 45, 3000);
                int again = 0; for (int k = 0; k < (hang ? 1 : 3); k++) { d = tryTape(p, tape); again += d.bad; if (d.bad) msg = d.msg; }
                if (msg.empty()) msg = c.msg;
                writeReplay(p, replay, prop, config, tape, msg);
            } else {
                msg = c.msg;
                std::ofstream f(replay); f << "PBT-TAPE v1\nprop " << prop << "\nconfig " << config << "\nsequence " << seed << " " << idx << " 1 " << idx << "\n# failure: " << msg << "\n";
            }
        } else {
            // depends on what ran before in the process: replay the worker's own history, shortest suffix first
            for (uint64_t back : {1ull, 4ull, 16ull, 64ull, 256ull, 1024ull, ~0ull}) {
                uint64_t from = (back == ~0ull || back * J > idx) ? (uint64_t)w : idx - back * J;
                Child d; int b = 0;
                for (int k = 0; k < 3; k++) {
                    d = inChild([&]() { Outcome o; for (uint64_t x = from; x <= idx; x += J) { cpuLimit(PBT_CASE_CPU); Gen g = Gen::fromSeed(seed, x); o = runOnce(p, g); if (o.kind) break; } return o; }, false);
                    if (d.bad) b++; else break;
                }
                if (b == 3) {
                    rc = 1; msg = d.msg + " (after " + std::to_string((idx - from) / J) + " earlier cases in the same process)";
                    std::ofstream f(replay); f << "PBT-TAPE v1\nprop " << prop << "\nconfig " << config << "\nsequence " << seed << " " << from << " " << J << " " << idx << "\n# failure: " << msg << "\n";
                    break;
                }
                if (from == (uint64_t)w) break;
            }
            if (rc != 1) { rc = 2; msg = "a case failed once but did not reproduce: " + std::to_string(idx) + " " + c.msg; }
        }
    }
    std::ofstream f(out);
    f << "{\"rc\":" << rc << ",\"evaluations\":" << done << ",\"nontrivial\":" << ntc << ",\"distinct_nontrivial\":" << nt.size()
      << ",\"time_capped\":" << (timedOut ? "true" : "false") << ",\"slowest_case_cpu_s\":" << slowest << ",\"slowest_case\":" << slowestCase << ",\"wall_s\":" << (nowS() - t0) << ",\"message\":\"" << jsonEsc(msg) << "\",\"labels\":{";
    bool first = true;
    for (auto& kv : lab) { f << (first ? "" : ",") << "\"" << jsonEsc(kv.first) << "\":" << kv.second; first = false; }
    f << "},\"samples\":["; first = true;
    for (auto& s : samples) { std::string d = describe(p, s); if (d.size() > 1500) d = d.substr(0, 1500) + "..."; f << (first ? "" : ",") << "\"" << jsonEsc(d) << "\""; first = false; }
    f << "]}\n";
    f.close();
    std::ofstream hs(out + ".hashes", std::ios::binary);
    for (uint64_t v : nt) hs.write((const char*)&v, 8);
    return rc;
}

} // namespace pbt

// Each harness defines:  static void property(pbt::Gen& g)   and ends with   PBT_MAIN(property)
#ifdef PBT_LIBFUZZER
#define PBT_MAIN(P)                                                                        \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {                    \
        pbt::Gen g = pbt::Gen::fromBytes(d, n);                                            \
        pbt::Outcome o = pbt::runOnce(P, g);                                               \
        if (o.kind) { fprintf(stderr, "PBT-FAILURE: %s\n", o.msg.c_str()); __builtin_trap(); } \
        return 0;                                                                          \
    }
#else
#define PBT_MAIN(P) int main(int argc, char** argv) { return pbt::runMain(argc, argv, P); }
#endif
