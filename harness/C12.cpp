// C12: activation backward passes are the derivative of the forward pass
#include "act.hpp"

template <class T> static Arr<T> bwd(Gen& g, const Activation<T>& f, const Arr<T>& a, const Arr<T>& go, const char* nm) {
    Tensor<T> x = mk(a), t = mk(go); prime<T>(g, {&x, &t}, [&] { (void)f.backward(x, t); }); Tensor<T> y = f.backward(x, t); checkBits(x, a, "activation input"); checkBits(t, go, "incoming gradient");
    Arr<T> r = snap(y); PCHECK(r.d == a.d, nm << " backward for an input of shape " << str(a.d) << " has shape " << str(r.d));
    for (size_t i = 0; i < r.n(); i++) PCHECK(std::isfinite(r.v[i]), nm << " backward at " << std::setprecision(9) << a.v[i] << " with gradient " << go.v[i] << " is " << r.v[i]);
    return r;
}
template <class T> static void body(Gen& g) {
    int k = g.i(0, A_COUNT - 1); T alpha = genAlpha<T>(g);
    Dims d = genDimsBig(g, k == A_SOFTMAX ? 2 : 1, 5, 100, 3, k == A_SOFTMAX ? 400 : 3000, k == A_SOFTMAX ? 0 : 70001);
    if (k == A_SOFTMAX && numel(d) * d.back() > 300000 && !g.flip(5)) d.back() = 1 + d.back() % 60;
    Arr<T> a{d, genXs<T>(g, numel(d))};
    if (k == A_RELU || k == A_LEAKY) for (auto& x : a.v) if (x == 0) x = T(0.25);
    if (k == A_SOFTMAX && g.flip(60)) a.v = genVals<T>(g, a.n(), g.flip(70) ? V_NORMAL : V_SMALLINT);
    VKind gk = genKind(g); Arr<T> go = genArr<T>(g, d, gk);
    T big = 1; if (g.flip(10)) { big = T(1e16); for (auto& x : go.v) x *= big; }
    g.label(actName[k]); NOTE(g, actName[k] << " alpha " << alpha << " at " << str(a) << " gradient " << str(go));
    auto f = mkAct<T>(k, alpha); const char* nm = actName[k]; ld eps = epsOf<T>(); ld tiny = 16 * (ld)std::numeric_limits<T>::min();
    const ld under = (ld)std::numeric_limits<T>::min() / eps; // exponentials that underflow
    Arr<T> r = bwd(g, *f, a, go, nm);
    // a second gradient of the same shape for linearity, small integers so that the combination is exact
    Arr<T> h1 = genArr<T>(g, d, V_SMALLINT), h2 = genArr<T>(g, d, V_SMALLINT), h3 = h1; int c1 = g.i(-3, 3), c2 = g.i(-3, 3);
    for (size_t i = 0; i < h3.n(); i++) h3.v[i] = T(c1) * h1.v[i] + T(c2) * h2.v[i];
    Arr<T> r1 = bwd(g, *f, a, h1, nm), r2 = bwd(g, *f, a, h2, nm), r3 = bwd(g, *f, a, h3, nm);
    if (k != A_SOFTMAX) {
        for (size_t i = 0; i < a.n(); i++) {
            ld x = a.v[i], D = actDer(k, alpha, x), want = D * (ld)go.v[i];
            ld tol = (k == A_RELU || k == A_LEAKY) ? 2 * eps * std::fabs(want) : 16 * eps * std::fabs((ld)go.v[i]) * (k == A_SIGMOID ? lsig(x) + under : k == A_TANH ? 1 : k == A_SWISH ? (lsig(x) + under) * (1 + std::min<ld>(std::fabs(x), 800)) : 1 + std::min<ld>(std::fabs(x), 45));
            PCHECK(std::fabs((ld)r.v[i] - want) <= tol + tiny, nm << " backward at " << std::setprecision(12) << a.v[i] << " with gradient " << go.v[i] << " is " << r.v[i] << ", expected " << (double)want);
            ld lin = (ld)c1 * r1.v[i] + (ld)c2 * r2.v[i], m = std::fabs((ld)c1 * r1.v[i]) + std::fabs((ld)c2 * r2.v[i]);
            PCHECK(std::fabs((ld)r3.v[i] - lin) <= 16 * eps * (m + std::fabs((ld)r3.v[i])) + tiny, nm << " backward is not linear in the gradient at " << a.v[i] << ": " << r3.v[i] << " against " << (double)lin);
        }
        g.nontrivial(); return;
    }
    size_t B = (size_t)d[0], F = a.n() / B;
    for (size_t b = 0; b < B; b++) {
        ld mx = a.v[b * F]; for (size_t i = 0; i < F; i++) mx = std::max<ld>(mx, a.v[b * F + i]);
        std::vector<ld> s(F); ld den = 0, gm = 0, dot = 0; for (size_t i = 0; i < F; i++) den += s[i] = expl((ld)a.v[b * F + i] - mx);
        for (size_t i = 0; i < F; i++) { s[i] /= den; gm = std::max<ld>(gm, std::fabs((ld)go.v[b * F + i])); dot += s[i] * go.v[b * F + i]; }
        ld sum = 0, lm = 32;
        for (size_t i = 0; i < F; i++) {
            ld want = s[i] * ((ld)go.v[b * F + i] - dot); T got = r.v[b * F + i]; sum += got;
            PCHECK(std::fabs((ld)got - want) <= (32 + (ld)F) * eps * gm + tiny, "Softmax backward, element " << i << " of row " << b << " of " << str(d) << ": " << std::setprecision(12) << got << ", expected " << (double)want);
            size_t q = b * F + i; ld lin = (ld)c1 * r1.v[q] + (ld)c2 * r2.v[q];
            PCHECK(std::fabs((ld)r3.v[q] - lin) <= (lm + (ld)F) * eps * 64, "Softmax backward is not linear in the gradient: " << r3.v[q] << " against " << (double)lin);
        }
        PCHECK(std::fabs(sum) <= (32 + (ld)F) * (ld)F * eps * gm + tiny, "Softmax backward row " << b << " sums to " << (double)sum << " (largest gradient " << (double)gm << ")");
    }
    if (F > 1) g.nontrivial();
}
TWO_TYPES(body)
