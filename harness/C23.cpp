// C23: one training step with plain gradient descent follows the true gradient of the loss, for random stacks of layers.
// The derivative is measured on the model itself: Richardson-extrapolated central differences of loss(predict(x)).
#include "model.hpp"
typedef double T;

static std::unique_ptr<Loss<T>> mkLoss(bool ce) { if (ce) return std::make_unique<CategoricalCrossEntropyLoss<T>>(); return std::make_unique<MSELoss<T>>(); }
static void property(Gen& g) {
    bool ce = g.flip(40); Stack s = genStack(g, ce ? 1 : 0); bool hasP = false; for (auto& l : s.l) hasP |= l.k == L_FC || l.k == L_CONV || l.k == L_BN;
    if (!hasP) { LDesc l{L_FC}; if (ce) s.l.insert(s.l.begin() + 0, LDesc{L_FC}), s.l[0].a = s.in[0], s.l[0].b = s.in[0]; else { l.a = s.out[0]; l.b = s.out[0]; s.l.push_back(l); } if (s.in.size() > 1 && ce) { s = Stack(); s.in = {3}; LDesc f{L_FC}; f.a = 3; f.b = 2; s.l.push_back(f); LDesc q{L_ACT}; q.act = A_SOFTMAX; s.l.push_back(q); s.out = {2}; } }
    int batch = s.rank1 ? 1 : g.i(1, 4); uint32_t seed = g.seed32(), noise = g.seed32(); uint64_t st = g.seed32();
    NOTE(g, str(s) << " batch " << batch << (ce ? " cross-entropy" : " mse"));
    RandomEngine::setSeed(seed); SmartDNN<T> m; build(m, s);
    Arr<T> x{withBatch(s, batch), {}}, t{withBatch(s, batch, true), {}};
    for (size_t i = 0; i < numel(x.d); i++) x.v.push_back(gauss(st));
    if (ce) for (int b = 0; b < batch; b++) { int n = s.out[0]; if (g.flip(60)) { int k = (int)g.draw(n); for (int j = 0; j < n; j++) t.v.push_back(j == k); } else for (int j = 0; j < n; j++) t.v.push_back(std::fabs(gauss(st))); }
    else for (size_t i = 0; i < numel(t.d); i++) t.v.push_back(gauss(st));
    Tensor<T> xt = mk(x), tt = mk(t); auto loss = mkLoss(ce);

    // find the parameters: train one step with an optimizer that changes nothing
    auto found = std::make_shared<std::vector<Found<T>>>();
    auto trainWith = [&](auto&& opt) { RandomEngine::setSeed(noise); if (ce) m.compile(CategoricalCrossEntropyLoss<T>(), opt); else m.compile(MSELoss<T>(), opt); Capture c; m.train({xt}, {tt}, 1); };
    trainWith(SpyOpt<T>(found));
    for (auto& f : *found) { // parameters of ordinary size instead of the initial ones
        Arr<T> a = snap(*f.w); size_t fan = a.d.size() == 4 ? numel(a.d) / a.d[0] : a.d[0]; double sc = 1.2 / std::sqrt((double)std::max<size_t>(1, fan));
        for (size_t i = 0; i < a.n(); i++) f.w->getData().data()[i] = sc * gauss(st) + (a.d.size() == 2 && a.d[0] == 1 ? 0.3 : 0);
    }
    auto L = [&] { RandomEngine::setSeed(noise); return (ld)loss->compute(m.predict(xt), tt)[0]; };
    struct C { int p; size_t i; }; std::vector<C> all; for (size_t p = 0; p < found->size(); p++) for (size_t i = 0; i < (*found)[p].w->getShape().size(); i++) all.push_back({(int)p, i});
    auto val = [&](const C& c) -> T& { return (*found)[c.p].w->getData().data()[c.i]; };

    ld L0 = L(); if (!std::isfinite((double)L0) || fabsl(L0) > 1e6) { g.label("loss out of range, skipped"); return; }
    if (ce) { RandomEngine::setSeed(noise); Arr<T> pr = snap(m.predict(xt)); for (T v : pr.v) if (v < 2e-7 || v > 1 - 2e-7) { g.label("prediction at the clamp, skipped"); return; } }
    std::vector<T> before; for (auto& c : all) before.push_back(val(c));
    T lr = g.flip(50) ? T(1) : T(0.125); SGDOptions<T> so; so.learningRate = lr; so.momentum = 0;
    trainWith(SGDOptimizer<T>(so));
    std::vector<ld> gr; ld gmax = 0, g2 = 0; for (size_t k = 0; k < all.size(); k++) { ld d = ((ld)before[k] - (ld)val(all[k])) / lr; PCHECK(std::isfinite((double)d), "parameter " << k << " became " << val(all[k])); gr.push_back(d); gmax = std::max(gmax, fabsl(d)); g2 += d * d; }
    auto restore = [&] { for (size_t k = 0; k < all.size(); k++) val(all[k]) = before[k]; }; restore();
    // Derivative of the loss along a direction; false where the loss is not smooth at this scale.
    auto deriv = [&](const std::vector<std::pair<size_t, ld>>& dir, ld& D, ld& tol) {
        auto at = [&](ld h) { for (auto& q : dir) val(all[q.first]) = (T)(before[q.first] + h * q.second); ld r = L(); for (auto& q : dir) val(all[q.first]) = before[q.first]; return r; };
        ld h = 2e-4L, p1 = at(h), m1 = at(-h), p2 = at(h / 2), m2 = at(-h / 2), p4 = at(h / 4), m4 = at(-h / 4);
        ld d1 = (p1 - m1) / (2 * h), d2 = (p2 - m2) / h, d4 = (p4 - m4) / (h / 2), r1 = (4 * d2 - d1) / 3, r2 = (4 * d4 - d2) / 3;
        D = r2; ld noise = 3e-14L * (1 + fabsl(L0)) / h * 8; tol = 4 * fabsl(r2 - r1) + noise + 1e-6L * fabsl(r2);
        // one-sided slopes must meet in the middle as h shrinks: no kink at or near the point
        ld s1 = (p1 - 2 * L0 + m1) / h, s2 = (p2 - 2 * L0 + m2) / (h / 2), s4 = (p4 - 2 * L0 + m4) / (h / 4);
        ld scale = fabsl(D) + 1e-3L * gmax + 1e-6L;
        if (fabsl(r2 - r1) > 1e-4L * scale || fabsl(d1 - d2) > 1e-2L * scale) return false;
        if (fabsl(s4) > 0.6L * fabsl(s2) + 30 * noise && fabsl(s4) > 1e-4L * scale) return false;
        (void)s1; return true;
    };
    int checked = 0, skipped = 0;
    std::vector<size_t> pickd; if (all.size() <= 24) for (size_t k = 0; k < all.size(); k++) pickd.push_back(k); else { // every tensor is sampled
        size_t at = 0; for (auto& f : *found) { size_t n = f.w->getShape().size(); for (int r = 0; r < 4 && r < (int)n; r++) pickd.push_back(at + (n <= 4 ? r : pbt::splitmix(st) % n)); at += n; } }
    for (size_t k : pickd) {
        ld D, tol; if (!deriv({{k, 1.0L}}, D, tol)) { skipped++; continue; }
        checked++; tol += 4e-16L * fabsl((ld)before[k]) / lr;
        PCHECK(fabsl(gr[k] - D) <= tol + 1e-8L * gmax, "training moved element " << all[k].i << " of parameter " << all[k].p << " (of shape " << str((*found)[all[k].p].grad.d) << ") by " << (double)(-lr * gr[k]) << " = -rate*" << (double)gr[k] << ", but the loss has derivative " << (double)D << " there (allowed error " << (double)tol << ") in " << str(s));
    }
    for (int rep = 0; rep < 2 && all.size() > 24; rep++) {
        std::vector<std::pair<size_t, ld>> dir; ld want = 0, n = 0; for (size_t k = 0; k < all.size(); k++) { ld v = gauss(st); dir.push_back({k, v}); n += v * v; } n = sqrtl(n); ld mag = 0; for (auto& q : dir) { q.second /= n; want += q.second * gr[q.first]; mag += fabsl(q.second * gr[q.first]); }
        ld D, tol; if (!deriv(dir, D, tol)) { skipped++; continue; } checked++;
        PCHECK(fabsl(want - D) <= tol + 1e-7L * mag + 1e-15L * n, "along a random direction the step predicts slope " << (double)want << " but the loss has slope " << (double)D << " (allowed error " << (double)tol << ") in " << str(s));
    }
    if (g2 > 0) { // a small enough step does not increase the loss
        bool ok = false; for (ld e = 1e-1L; e > 1e-10L && !ok; e /= 10) { for (size_t k = 0; k < all.size(); k++) val(all[k]) = (T)(before[k] - e * gr[k]); ok = L() <= L0 + 1e-12L * (1 + fabsl(L0)); }
        restore(); PCHECK(ok || skipped, "no step against the computed gradient, however small, keeps the loss from increasing in " << str(s));
    }
    for (auto& l : s.l) switch (l.k) { case L_CONV: g.label("with conv"); break; case L_BN: g.label("with batch norm"); break; case L_POOL: g.label("with pooling"); break; case L_DROP: g.label("with dropout"); break; case L_OWN: g.label("with own layer"); break; case L_ACT: g.label(actName[l.act]); break; default:; }
    if (skipped) g.label("some derivatives skipped at kinks");
    if (checked >= 2 && gmax > 0) g.nontrivial();
}
PBT_MAIN(property)
