// C06: sum, mean, variance reduce exactly the requested axes
#include "common.hpp"

struct Groups { Dims kept, keptOnes; std::vector<size_t> of; size_t per; };   // group index per flat element
static Groups groupsOf(const Dims& d, const std::vector<size_t>& axes) {
    Groups G; std::vector<bool> red(d.size(), false); for (size_t a : axes) red[a] = true;
    G.per = 1;
    for (size_t i = 0; i < d.size(); i++) { G.keptOnes.push_back(red[i] ? 1 : d[i]); if (!red[i]) G.kept.push_back(d[i]); else G.per *= (size_t)d[i]; }
    size_t n = numel(d); G.of.resize(n);
    for (size_t i = 0; i < n; i++) { Dims ix = unflat(d, i); for (size_t k = 0; k < ix.size(); k++) if (red[k]) ix[k] = 0; G.of[i] = flat(G.keptOnes, ix); }
    if (G.kept.empty()) G.kept = {1};
    return G;
}
template <class T> static void cmp(const Tensor<T>& t, const Dims& d, const std::vector<ld>& ref, const std::vector<ld>& mag, ld k, const char* what, const Dims& in) {
    Arr<T> got = snap(t);
    if (d.size() == 0) PCHECK(got.n() == ref.size(), what << " of " << str(in) << " has shape " << str(got.d) << ", expected one element");
    else PCHECK(got.d == d, what << " of " << str(in) << " has shape " << str(got.d) << ", expected " << str(d));
    for (size_t i = 0; i < ref.size(); i++) if (!std::isfinite(mag[i])) {
        bool var = std::strncmp(what, "variance", 8) == 0;   // only its being finite is judged
        PCHECK(var ? !std::isfinite(got.v[i]) : sameNonFinite(got.v[i], ref[i]), what << " of " << str(in) << ", element " << i << " is " << got.v[i] << " although it reduces infinite or NaN elements to " << (double)ref[i]);
    } else CLOSE(T, got.v[i], ref[i], mag[i], k, what << " of " << str(in) << ", element " << i);
}
template <class T> static void body(Gen& g) {
    Dims d = genDimsBig(g, 1, 5, 400, 5, 5000, 70001);
    VKind kind = g.flip(50) ? V_SMALLINT : V_NORMAL; if (g.flip(10)) kind = V_WIDE;
    Arr<T> a = genArr<T>(g, d, kind);
    if (g.flip(40)) for (size_t i = 0; i < a.n(); i++) if (kind == V_SMALLINT) a.v[i] += T(1 + (int)(i % 7));   // not symmetric about zero
    if (kind != V_WIDE) nonfinite(g, a);
    Tensor<T> t = mk(a); const Tensor<T>& ct = t;
    // a non-empty subset of axes, in a drawn order
    std::vector<size_t> axes; size_t r = d.size();
    if (g.flip(18)) for (size_t i = 0; i < r; i++) axes.push_back(i);
    else for (size_t i = 0; i < r; i++) if (g.flip(45)) axes.push_back(i);
    if (axes.empty()) axes.push_back(g.draw(r));
    for (size_t i = axes.size(); i > 1; i--) std::swap(axes[i - 1], axes[g.draw(i)]);
    NOTE(g, str(a) << " axes " << strv(axes));
    prime<T>(g, {&t}, [&] { using A = AdvancedTensorOperations<T>; (void)A::sum(ct, axes); (void)A::sum(ct, axes[0]); (void)A::sum(ct); Tensor<T> m = A::mean(ct, axes); (void)A::variance(ct, m, axes); m = A::mean(ct); (void)A::variance(ct, m); });
    Groups G = groupsOf(d, axes); size_t ng = numel(G.keptOnes);
    bool all = axes.size() == r;
    std::vector<ld> S(ng, 0), M(ng, 0);
    for (size_t i = 0; i < a.n(); i++) { S[G.of[i]] += a.v[i]; M[G.of[i]] += std::fabs((ld)a.v[i]); }
    ld k = kind == V_SMALLINT ? 2 : (ld)G.per + 8;
    using A = AdvancedTensorOperations<T>;
    cmp(A::sum(ct, axes), G.kept, S, M, k, "sum over axes", d);
    if (axes.size() == 1) {
        cmp(A::sum(ct, axes[0]), G.kept, S, M, k, "sum over one axis", d); g.label("single axis");
    }
    ld tot = 0, totm = 0; for (T x : a.v) { tot += x; totm += std::fabs((ld)x); }
    ld kt = kind == V_SMALLINT ? 2 : (ld)a.n() + 8;
    cmp(A::sum(ct), {1}, {tot}, {totm}, kt, "total sum", d);
    // mean
    std::vector<ld> MU(ng), MM(ng); for (size_t i = 0; i < ng; i++) { MU[i] = S[i] / G.per; MM[i] = M[i] / G.per; }
    Tensor<T> mu = A::mean(ct, axes);
    cmp(mu, all ? Dims{} : G.keptOnes, MU, MM, k + 4, "mean over axes", d);
    cmp(A::mean(ct), {1}, {tot / a.n()}, {totm / a.n()}, kt + 4, "mean", d);
    // variance about a given mean: the computed one, or an arbitrary one of the same shape
    Arr<T> about = snap(mu);
    if (g.flip(40)) { about.v = genVals<T>(g, about.n(), kind == V_WIDE ? V_NORMAL : kind); g.label("variance about another value"); }
    Tensor<T> tm = mk(about); prime<T>(g, {&tm}, [&] { (void)A::variance(ct, tm, axes); });
    std::vector<ld> V(ng, 0), VM(ng, 0);
    for (size_t i = 0; i < a.n(); i++) { ld c = (ld)about.v[all ? 0 : G.of[i]]; ld x = (ld)a.v[i] - c; V[G.of[i]] += x * x / G.per; ld m = std::fabs((ld)a.v[i]) + std::fabs(c); VM[G.of[i]] += m * m / G.per; }
    cmp(A::variance(ct, tm, axes), about.d, V, VM, (ld)G.per + 12, "variance over axes", d);
    Tensor<T> gm(Shape({1}), all ? about.v[0] : T(tot / a.n()));
    { ld c = (ld)snap(gm).v[0], v = 0, m = 0; for (T x : a.v) { ld y = (ld)x - c; v += y * y / a.n(); ld q = std::fabs((ld)x) + std::fabs(c); m += q * q / a.n(); }
      cmp(A::variance(ct, gm), {1}, {v}, {m}, (ld)a.n() + 12, "variance", d); }
    // invalid axes
    if (g.flip(40)) {
        g.label("invalid axis");
        size_t bad = g.flip(80) ? r + g.draw(3) : (size_t)-1;
        std::vector<size_t> ax = axes;
        if (g.flip(60)) ax[g.draw(ax.size())] = bad; else ax.insert(ax.begin() + g.draw(ax.size() + 1), bad);
        std::string w = " of " + str(d) + " over axes " + strv(ax);
        mustThrow([&] { A::sum(ct, ax); }, "sum" + w);
        mustThrow([&] { A::mean(ct, ax); }, "mean" + w);
        mustThrow([&] { A::variance(ct, tm, ax); }, "variance" + w);
        mustThrow([&] { A::sum(ct, bad); }, "sum of " + str(d) + " over axis " + std::to_string(bad));
    }
    checkBits(t, a, "reduced tensor"); checkBits(tm, about, "mean argument");
    if (all) g.label("all axes");
    if (axes.size() > 1 && !all) g.label("several axes");
    if (a.n() > 1 && G.per > 1) g.nontrivial();
}
TWO_TYPES(body)
