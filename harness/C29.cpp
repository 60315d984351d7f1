// C29: the build with parallel directives computes what the sequential one does, without data races (ThreadSanitizer in the tsan configuration)
#include "C29gen.hpp"
#include <dlfcn.h>
#include <unistd.h>
#ifndef _OPENMP
#error the harness must be compiled with OpenMP
#endif
#ifdef OWN_GOMP
#include "gomp.hpp"
static void threads(int n) { gomp::width() = (unsigned)n; }
#else
#include <omp.h>
static void threads(int n) { omp_set_dynamic(0); omp_set_num_threads(n); }
#endif
typedef void (*RefFn)(const OpIn*, OpOut*);
static RefFn reference() {
    static RefFn f = nullptr; if (f) return f; char buf[4096]; ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1); if (n <= 0) _exit(2); buf[n] = 0; std::string p(buf); p = p + "-ref.so";
    void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(2); } f = (RefFn)dlsym(h, "c29_reference"); if (!f) _exit(2); return f;
}
static void property(Gen& g) {
    OpIn o; bool exact; double K; genOp(g, o, exact, K);
    int nt = g.pick({10, 20, 20, 15, 10, 5, 5, 15}) + 1; if (g.flip(5)) nt = 16; g.label(opName[o.op]); size_t big = 0; for (auto& d : o.d) big = std::max(big, numel(d));
    std::string sh; for (auto& d : o.d) sh += str(d); NOTE(g, opName[o.op] << " variant " << o.sub << (o.dbl ? " double " : " float ") << sh << " with " << nt << " threads" << (o.op == O_MODEL ? " " + str(o.stack) : std::string()));
    OpOut want, got; reference()(&o, &want); threads(nt); performOp(o, got);
    PCHECK(got.threw == want.threw, opName[o.op] << " on " << sh << (want.threw ? " is rejected sequentially but not with " : " is accepted sequentially but rejected with ") << nt << " threads: " << got.text << want.text);
    PCHECK(got.d == want.d, opName[o.op] << " on " << sh << " gives other shapes with " << nt << " threads");
    for (size_t k = 0; k < want.v.size(); k++) {
        PCHECK(got.v[k].size() == want.v[k].size(), "sizes differ"); double top = 1; for (double x : want.v[k]) if (std::isfinite(x)) top = std::max(top, std::fabs(x));
        double eps = o.dbl ? 2.3e-16 : 1.2e-7, tol = o.op == O_MODEL ? (o.dbl ? 1e-7 : 2e-2) * top : eps * (K + 16) * (16 + top);
        for (size_t i = 0; i < want.v[k].size(); i++) { double a = got.v[k][i], b = want.v[k][i]; if (a != a && b != b) continue; bool ok = exact ? sameBits(a, b) || a == b : a == b || std::fabs(a - b) <= tol; if (o.op == O_MODEL && !(top < 1e6)) ok = true;
            PCHECK(ok, opName[o.op] << " on " << sh << ": element " << i << " of result " << k << " is " << a << " with " << nt << " threads, " << b << " sequentially"); }
    }
    if (nt > 1 && (big > 1 || want.threw)) g.nontrivial(); if (big > 1000) g.label("over 1000 elements"); if (want.threw) g.label("rejected");
}
PBT_MAIN(property)
