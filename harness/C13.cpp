// C13: losses have their defining value and their gradient is its derivative
#include "common.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"

template <class T> static void mse(Gen& g) {
    MSELoss<T> L; Dims d = genDimsBig(g, 1, 4, 300, 4, 5000, 100000); VKind k = genKind(g); if (k == V_SPECIAL) k = V_NORMAL;
    bool column = g.flip(20); if (column) d = {g.i(1, 40), 1};
    Arr<T> p = genArr<T>(g, d, k), t = genArr<T>(g, d, k);
    int how = g.pick({70, 12, 18});
    if (how == 1) t.v = p.v;
    if (how == 2) { t.v = p.v; size_t i = g.draw(t.n()); t.v[i] += T(1) + std::fabs(t.v[i]); }   // differ in one place only
    Dims td = column ? Dims{d[0]} : d; if (column) g.label("rank-1 target");
    Arr<T> tt{td, t.v};
    NOTE(g, "MSE " << str(p) << " target " << str(tt));
    Tensor<T> P = mk(p), G = mk(tt);
    prime<T>(g, {&P, &G}, [&] { (void)L.compute(P, G); (void)L.gradient(P, G); });
    Arr<T> loss = snap(L.compute(P, G)), gr = snap(L.gradient(P, G));
    PCHECK(loss.n() == 1, "MSE has " << loss.n() << " elements");
    ld n = p.n(), ref = 0; for (size_t i = 0; i < p.n(); i++) { ld x = (ld)p.v[i] - (ld)t.v[i]; ref += x * x; }
    CLOSE(T, loss.v[0], ref / n, ref / n, n + 12, "MSE value");
    if (how == 1) PCHECK(loss.v[0] == 0, "MSE of equal tensors is " << loss.v[0]);
    if (how == 2) PCHECK(loss.v[0] > 0, "MSE of tensors differing in one element is " << loss.v[0]);
    PCHECK(gr.d == d, "MSE gradient has shape " << str(gr.d) << ", prediction has " << str(d));
    for (size_t i = 0; i < p.n(); i++) { ld w = 2 * ((ld)p.v[i] - (ld)t.v[i]) / n; CLOSE(T, gr.v[i], w, std::fabs(w), 8, "MSE gradient element " << i); }
    checkBits(P, p, "prediction"); checkBits(G, tt, "target");
    // other shapes are rejected
    Dims bad = d; switch (g.i(0, 5)) {
        case 0: bad[g.draw(bad.size())] += 1; break;
        case 1: bad.push_back(1); break;
        case 2: bad.insert(bad.begin(), 1); break;
        case 3: std::reverse(bad.begin(), bad.end()); break;
        case 4: bad = {(int)p.n()}; break;
        default: bad = Dims(d.size() > 1 ? d.begin() + 1 : d.begin(), d.end()); if (d.size() == 1) bad[0]++; break;
    }
    bool columnTarget = bad.size() == 1 && d[0] == bad[0];
    if (bad != d && !columnTarget) {
        g.label("mismatch"); Tensor<T> Q(Shape(bad), T(1));
        mustThrow([&] { L.compute(P, Q); }, "MSE of prediction " + str(d) + " and target " + str(bad));
        mustThrow([&] { L.gradient(P, Q); }, "MSE gradient of prediction " + str(d) + " and target " + str(bad));
    } else if (bad != d && columnTarget && p.n() != (size_t)d[0]) {
        g.label("mismatch"); Tensor<T> Q(Shape(bad), T(1));
        mustThrow([&] { L.compute(P, Q); }, "MSE of prediction " + str(d) + " and target " + str(bad));
        mustThrow([&] { L.gradient(P, Q); }, "MSE gradient of prediction " + str(d) + " and target " + str(bad));
    }
    g.label("MSE"); if (p.n() > 1) g.nontrivial();
}
// the point at which predictions are clamped from below, read off the loss at prediction 0
template <class T> static ld clampPoint() {
    CategoricalCrossEntropyLoss<T> L; Tensor<T> p(Shape({1, 1}), T(0)), t(Shape({1, 1}), T(1)); T v = snap(L.compute(p, t)).v[0];
    PCHECK(std::isfinite(v) && v >= T(13.7) && v < T(100), "cross-entropy at prediction 0 is " << v << ", so the prediction is clamped at " << (double)expl(-(ld)v)); return expl(-(ld)v);
}
template <class T> static void cce(Gen& g) {
    CategoricalCrossEntropyLoss<T> L; int B = g.i(1, 9), C = g.flip(5) ? g.i(60, 300) : g.i(1, 12); if (g.flip(2)) { B = g.i(10, 300); if (g.flip(8)) { C = g.i(1, 3); B = g.flip(10) ? g.i(65536, 70000) : g.i(1000, 9000); g.label("thousands of rows"); } } const ld c0 = clampPoint<T>(); Dims d{B, C};
    Arr<T> p{d, {}}, t{d, std::vector<T>((size_t)B * C, T(0))}; p.v.resize(t.n());
    bool edge = g.flip(35); int tk = g.i(0, 2); uint64_t s = g.seed32();
    for (auto& x : p.v) x = (T)(1e-6 + (1 - 2e-6) * ((double)(pbt::splitmix(s) >> 11) / 9007199254740992.0));
    if (g.flip(30)) for (auto& x : p.v) if (pbt::splitmix(s) % 2) x = (T)std::pow(10.0, -6.0 * ((double)(pbt::splitmix(s) % 1000) / 1001.0));
    if (g.flip(15)) for (auto& x : p.v) if (pbt::splitmix(s) % 2) x = (T)(1 - std::pow(10.0, -5.0 * ((double)(pbt::splitmix(s) % 1000) / 1001.0)));
    if (tk == 0) for (int b = 0; b < B; b++) t.v[(size_t)b * C + (B > 300 ? pbt::splitmix(s) % C : g.draw(C))] = T(1);
    else if (tk == 1) for (int b = 0; b < B; b++) { ld sum = 0; std::vector<ld> w(C); for (auto& x : w) sum += x = 1 + (ld)(pbt::splitmix(s) % 8); for (int c = 0; c < C; c++) t.v[(size_t)b * C + c] = (T)(w[c] / sum); }
    else for (auto& x : t.v) x = (T)((double)(pbt::splitmix(s) % 5) / 4.0);
    if (edge) { static const double e[] = {0, 1, 1e-7, 5e-8, 1e-9, 1e-30, 1 - 1e-8, 2e-7, 3e-7, 1e-6, 9e-7, 1.5e-7, -0.25, 1.25, 3}; int m = g.i(1, 3); for (int i = 0; i < m; i++) { size_t at = g.draw(p.n()); p.v[at] = (T)e[g.draw(15)]; if (g.flip(50)) t.v[at] = T(1); } }
    NOTE(g, "CCE " << str(p) << " target " << str(t));
    Tensor<T> P = mk(p), G = mk(t);
    prime<T>(g, {&P, &G}, [&] { (void)L.compute(P, G); (void)L.gradient(P, G); });
    Arr<T> loss = snap(L.compute(P, G)), gr = snap(L.gradient(P, G));
    PCHECK(loss.n() == 1, "cross-entropy has " << loss.n() << " elements");
    PCHECK(gr.d == d, "cross-entropy gradient has shape " << str(gr.d) << ", prediction has " << str(d));
    ld lo = 0, hi = 0, mag = 0; const ld z = 9.9e-7L;
    for (size_t i = 0; i < p.n(); i++) {
        ld x = p.v[i], w = t.v[i];
        if (x > 1 - z) { hi += w * 2.2e-6L; mag += w * 1e-5L; }
        else { ld v = -w * logl(std::max(x, c0)); lo += v; hi += v; mag += std::fabs(v); }
        T gv = gr.v[i]; PCHECK(std::isfinite(gv), "cross-entropy gradient at prediction " << p.v[i] << " is " << gv);
        if (t.v[i] == 0) PCHECK(gv == 0, "cross-entropy gradient of a class with target 0 is " << gv);
        else if (x <= 1 - z) { ld want = -w / std::max(x, c0) / B; CLOSE(T, gv, want, std::fabs(want), x < c0 * 1.001L ? 512 : 8, "cross-entropy gradient at prediction " << p.v[i] << ", target " << t.v[i] << ", batch " << B); }
        else PCHECK(std::fabs((ld)gv + w / B) <= (3e-6L + 8 * epsOf<T>()) * w / B, "cross-entropy gradient at prediction " << p.v[i] << ", target " << t.v[i] << ", batch " << B << " is " << gv);
    }
    ld tol = ((ld)p.n() + 300) * epsOf<T>() * mag / B + 64 * (ld)std::numeric_limits<T>::min();
    PCHECK(std::isfinite(loss.v[0]) && loss.v[0] >= lo / B - tol && loss.v[0] <= hi / B + tol, "cross-entropy is " << std::setprecision(12) << loss.v[0] << ", expected " << (double)(lo / B) << (edge ? " or up to " + std::to_string((double)(hi / B)) : ""));
    checkBits(P, p, "prediction"); checkBits(G, t, "target");
    Dims bad = d; switch (g.i(0, 3)) { case 0: bad[g.draw(2)] += 1; break; case 1: bad = {B * C}; break; case 2: bad = {C, B}; break; default: bad = {B, C, 1}; break; }
    if (bad != d) { g.label("mismatch"); Tensor<T> Q(Shape(bad), T(1)); mustThrow([&] { L.compute(P, Q); }, "cross-entropy of prediction " + str(d) + " and target " + str(bad)); mustThrow([&] { L.gradient(P, Q); }, "cross-entropy gradient of prediction " + str(d) + " and target " + str(bad)); }
    g.label("CCE"); if (edge) g.label("clamped predictions"); if (p.n() > 1) g.nontrivial();
}
template <class T> static void body(Gen& g) { if (g.flip(50)) mse<T>(g); else cce<T>(g); }
TWO_TYPES(body)
