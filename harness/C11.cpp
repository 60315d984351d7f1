// C11: activation functions compute their defining formula
#include "act.hpp"

template <class T> static Arr<T> fwd(Gen& g, const Activation<T>& f, const Arr<T>& a, const char* nm) {
    Tensor<T> x = mk(a); prime<T>(g, {&x}, [&] { (void)f.forward(x); }); Tensor<T> y = f.forward(x); checkBits(x, a, "activation input");
    Arr<T> r = snap(y); PCHECK(r.d == a.d, nm << " of shape " << str(a.d) << " has shape " << str(r.d)); 
    for (size_t i = 0; i < r.n(); i++) PCHECK(std::isfinite(r.v[i]), nm << " of the finite " << std::setprecision(9) << a.v[i] << " (row of a tensor " << str(a.d) << ") is " << r.v[i]);
    return r;
}
template <class T> static void body(Gen& g) {
    int k = g.i(0, A_COUNT - 1); T alpha = genAlpha<T>(g);
    Dims d = genDimsBig(g, k == A_SOFTMAX ? 2 : 1, 5, 120, 3, 3000, 70001);
    Arr<T> a{d, genXs<T>(g, numel(d))};
    g.label(actName[k]); NOTE(g, actName[k] << " alpha " << alpha << " of " << str(a));
    auto f = mkAct<T>(k, alpha); const char* nm = actName[k]; ld eps = epsOf<T>();
    if (k == A_LEAKY && alpha > 1) for (auto& x : a.v) if (std::fabs(x) > std::numeric_limits<T>::max() / 4) x /= 4;
    if (k != A_SOFTMAX) {
        Arr<T> y = fwd(g, *f, a, nm);
        for (size_t i = 0; i < a.n(); i++) {
            ld x = a.v[i], r = actRef(k, alpha, x);
            if (k == A_RELU || k == A_LEAKY) { T w = x > 0 ? a.v[i] : k == A_RELU ? T(0) : T(alpha * a.v[i]); PCHECK(y.v[i] == w, nm << "(" << std::setprecision(9) << a.v[i] << ") is " << y.v[i] << ", expected " << w); }
            else PCHECK(std::fabs((ld)y.v[i] - r) <= actTol<T>(k, x, r), nm << "(" << std::setprecision(17) << a.v[i] << ") is " << y.v[i] << ", expected " << (double)r);
            if (k == A_SIGMOID) PCHECK(y.v[i] >= 0 && y.v[i] <= 1, "Sigmoid(" << a.v[i] << ") is " << y.v[i]);
            if (k == A_TANH) PCHECK(y.v[i] >= -1 && y.v[i] <= 1, "Tanh(" << a.v[i] << ") is " << y.v[i]);
        }
        g.nontrivial(); return;
    }
    size_t B = (size_t)d[0], F = a.n() / B;
    bool spread = g.flip(40); // often rows whose elements are near one another, so that no element dominates
    if (spread) { uint64_t s = g.seed32(); for (size_t b = 0; b < B; b++) { T base = mkVal<T>(pbt::splitmix(s), g.flip(50) ? V_SMALLINT : V_NORMAL); if (g.flip(20)) base *= T(1000); for (size_t i = 0; i < F; i++) a.v[b * F + i] = base + mkVal<T>(pbt::splitmix(s), V_NORMAL); } }
    if (g.flip(10)) { g.label("one dominant element"); uint64_t s = g.seed32(); for (size_t b = 0; b < B; b++) a.v[b * F + pbt::splitmix(s) % F] += T(50 + (int)(pbt::splitmix(s) % 2000)); }
    Arr<T> y = fwd(g, *f, a, nm);
    for (size_t b = 0; b < B; b++) {
        ld mx = a.v[b * F]; for (size_t i = 0; i < F; i++) mx = std::max<ld>(mx, a.v[b * F + i]);
        ld den = 0; for (size_t i = 0; i < F; i++) den += expl((ld)a.v[b * F + i] - mx);
        ld sum = 0;
        for (size_t i = 0; i < F; i++) {
            T v = y.v[b * F + i]; ld r = expl((ld)a.v[b * F + i] - mx) / den; sum += v;
            PCHECK(v >= 0 && v <= 1, "Softmax returned " << v);
            PCHECK(std::fabs((ld)v - r) <= (16 + (ld)F + std::min<ld>(mx - (ld)a.v[b * F + i], 800)) * eps * r + 4 * (ld)std::numeric_limits<T>::min(), "Softmax element " << i << " of row " << b << " (" << F << " features) is " << std::setprecision(12) << v << ", expected " << (double)r);
        }
        PCHECK(std::fabs(sum - 1) <= (8 + (ld)F) * eps, "Softmax row " << b << " sums to " << std::setprecision(12) << (double)sum);
    }
    if (B > 1) { // rows are independent
        size_t b = g.draw(B); Arr<T> a2 = a; auto other = genXs<T>(g, a.n());
        for (size_t i = 0; i < a.n(); i++) if (i / F != b) a2.v[i] = other[i];
        Arr<T> y2 = fwd(g, *f, a2, nm);
        for (size_t i = b * F; i < (b + 1) * F; i++) PCHECK(sameBits(y.v[i], y2.v[i]), "changing other rows changed Softmax row " << b);
        g.label("row independence");
    }
    { // shift invariance, on values where the shift is exact
        Arr<T> p{d, genVals<T>(g, a.n(), V_SMALLINT)}, q = p; T c = (T)g.i(-3000, 3000); for (auto& x : q.v) x += c;
        Arr<T> yp = fwd(g, *f, p, nm), yq = fwd(g, *f, q, nm);
        for (size_t i = 0; i < p.n(); i++) PCHECK(std::fabs((ld)yp.v[i] - (ld)yq.v[i]) <= (16 + (ld)F * yp.v[i]) * eps, "adding " << c << " to a row changes Softmax from " << yp.v[i] << " to " << yq.v[i]);
    }
    if (F > 1) g.nontrivial();
}
TWO_TYPES(body)
