// C33: training learns - exact descent path on realisable linear problems, separable classes told apart, and a small enough step lowers the loss of any smooth model
#include "model.hpp"

static std::vector<double> losses(const std::string& text, const char* what) {
    std::vector<double> r; std::istringstream is(text); std::string line;
    while (std::getline(is, line)) { size_t at = line.find("Loss"); if (at == std::string::npos) continue; at = line.find_first_of("-+.0123456789", at + 4); while (at != std::string::npos && (line[at] == '-' || line[at] == '+') && !(at + 1 < line.size() && (std::isdigit((unsigned char)line[at + 1]) || line[at + 1] == '.'))) at = line.find_first_of("-+.0123456789", at + 1); PCHECK(at != std::string::npos, what << " reported an epoch without a loss: '" << line << "'"); r.push_back(std::strtod(line.c_str() + at, nullptr)); }
    return r;
}
template <class T> static Tensor<T>* weightsOf(SmartDNN<T>& m, size_t k, Arr<T>& w, Arr<T>& b) { auto* f = dynamic_cast<FullyConnectedLayer<T>*>(m.getLayer(k)); PCHECK(f, "layer " << k << " is not the fully connected layer that was added"); w = snap(f->getWeights()); b = snap(f->getBiases()); return nullptr; }

// ---------------------------------------------------------------- linear relations
template <class T> static void linear(Gen& g) {
    g.label("linear regression"); int in = g.i(1, 4), out = g.i(1, 3), nb = g.i(1, 3); bool r1 = g.flip(20); uint64_t st = g.seed32(); uint32_t seed = g.seed32(); static const int eps[] = {8, 30, 90, 300, 700}; int E = eps[g.pick({20, 30, 25, 15, 10})];
    std::vector<int> B; size_t rows = 0; for (int i = 0; i < nb; i++) { B.push_back(r1 ? 1 : g.i(1, 6)); rows += B.back(); }
    std::vector<std::vector<T>> X(nb), Y(nb); std::vector<ld> Ws(in * out), bs(out); for (auto& w : Ws) w = gauss(st) * 2; for (auto& b : bs) b = gauss(st);
    ld worst = 0; std::vector<Tensor<T>> xt, yt;
    for (int k = 0; k < nb; k++) {
        ld s2 = 0; for (int r = 0; r < B[k]; r++) { ld q = 1; std::vector<T> x; for (int i = 0; i < in; i++) { x.push_back((T)gauss(st)); q += (ld)x.back() * x.back(); } s2 += q; for (int j = 0; j < out; j++) { ld y = bs[j]; for (int i = 0; i < in; i++) y += x[i] * Ws[i * out + j]; Y[k].push_back((T)y); } X[k].insert(X[k].end(), x.begin(), x.end()); }
        worst = std::max(worst, 2 * s2 / ((ld)B[k] * out)); Arr<T> a{r1 ? Dims{in} : Dims{B[k], in}, X[k]}, b{r1 ? Dims{out} : Dims{B[k], out}, Y[k]}; xt.push_back(mk(a)); yt.push_back(mk(b)); }
    static const double cs[] = {1.0, 0.5, 0.2}, ms[] = {0.0, 0.5, 0.9}; double m = ms[g.pick({60, 20, 20})]; bool nest = m > 0 && g.flip(30); T lr = (T)(cs[g.draw(3)] / worst * (1 - m) * (nest ? 0.5 : 1)); SGDOptions<T> so; so.learningRate = lr; so.momentum = (T)m; so.nesterov = nest;
    int split = g.flip(40) ? g.i(1, E - 1) : E;
    NOTE(g, "FC(" << in << "," << out << ") on " << rows << " rows in " << nb << " batches" << (r1 ? " (rank 1)" : "") << ", rate " << lr << ", momentum " << m << (nest ? " nesterov" : "") << ", " << E << " epochs");
    RandomEngine::setSeed(seed); SmartDNN<T> model; model.addLayer(FullyConnectedLayer<T>(in, out)); model.compile(MSELoss<T>(), SGDOptimizer<T>(so)); Arr<T> w0, b0; weightsOf(model, 0, w0, b0);
    // the same descent in extended precision
    std::vector<ld> W(w0.v.begin(), w0.v.end()), b(b0.v.begin(), b0.v.end()), vW(W.size(), 0), vb(b.size(), 0), want; ld top = 1; for (ld x : W) top = std::max(top, fabsl(x)); for (ld x : Ws) top = std::max(top, fabsl(x)); for (ld x : bs) top = std::max(top, fabsl(x)); ld ymax = 1, xmax = 1; for (auto& v : Y) for (T y : v) ymax = std::max(ymax, fabsl((ld)y)); for (auto& v : X) for (T x : v) xmax = std::max(xmax, fabsl((ld)x));
    for (int e = 0; e < E; e++) { ld tot = 0; for (int k = 0; k < nb; k++) {
        std::vector<ld> gW(W.size(), 0), gb(b.size(), 0); ld N = (ld)B[k] * out, L = 0;
        for (int r = 0; r < B[k]; r++) for (int j = 0; j < out; j++) { ld p = b[j]; for (int i = 0; i < in; i++) p += X[k][r * in + i] * W[i * out + j]; ld d = p - Y[k][r * out + j]; L += d * d / N; gb[j] += 2 * d / N; for (int i = 0; i < in; i++) gW[i * out + j] += 2 * d / N * X[k][r * in + i]; }
        tot += L; auto step = [&](ld& w, ld& v, ld gr) { if (m > 0) { v = (ld)(T)m * v + gr; gr = nest ? gr + (ld)(T)m * v : v; } w -= (ld)lr * gr; top = std::max(top, fabsl(w)); }; for (size_t i = 0; i < W.size(); i++) step(W[i], vW[i], gW[i]); for (size_t j = 0; j < b.size(); j++) step(b[j], vb[j], gb[j]); }
        want.push_back(tot / nb); }
    Capture cap; model.train(xt, yt, split); if (split < E) model.train(xt, yt, E - split); std::vector<double> got = losses(cap.finish(), "training"); PCHECK((int)got.size() == E, E << " epochs reported " << got.size() << " losses");
    // rounding: each step perturbs the weights by a few ulps of the largest term; the descent does not amplify it by more than the number of steps
    ld ulp = epsOf<T>() * (top + ymax) * xmax * (in + 4) * 8 / (1 - m), wtol = ulp * ((ld)E * nb / 4 + 8); ld ymag = (ymax + top * xmax * (in + 1));
    for (int e = 0; e < E; e++) { ld dw = ulp * ((ld)(e + 1) * nb / 4 + 8) * xmax * (in + 1), tol = 2 * sqrtl(want[e]) * dw * sqrtl(out) * 2 + dw * dw * 4 + 1e-5L * want[e] + epsOf<T>() * 16 * want[e] + 1e-12L + epsOf<T>() * epsOf<T>() * ymag * ymag * 64;
        PCHECK(fabsl(got[e] - want[e]) <= tol, "epoch " << e << " of " << E << " reports a loss of " << got[e] << ", descent on the same data gives " << (double)want[e] << " (allowed error " << (double)tol << ")"); }
    Arr<T> w1, b1; weightsOf(model, 0, w1, b1);
    for (size_t i = 0; i < W.size(); i++) PCHECK(fabsl(w1.v[i] - W[i]) <= wtol, "after " << E << " epochs weight " << i << " is " << w1.v[i] << ", descent gives " << (double)W[i] << " (allowed error " << (double)wtol << ")");
    for (size_t j = 0; j < b.size(); j++) PCHECK(fabsl(b1.v[j] - b[j]) <= wtol, "after " << E << " epochs bias " << j << " is " << b1.v[j] << ", descent gives " << (double)b[j] << " (allowed error " << (double)wtol << ")");
    if (m == 0 && nb == 1) for (int e = 1; e < E; e++) PCHECK(got[e] <= got[e - 1] * (1 + 2e-5) + (double)(4 * wtol * wtol) + 1e-11, "the loss rose from " << got[e - 1] << " to " << got[e] << " in epoch " << e << " of a convex problem with a small rate");
    if (E >= 90) g.label("long run"); if (want.back() < want[0] / 10) { g.label("learnt"); } if (rows > 1) g.nontrivial();
}
// ---------------------------------------------------------------- separable classes
template <class T> static void classes(Gen& g) {
    g.label("classification"); int K = g.i(2, 4), in = g.i(2, 4), per = g.i(1, 5), nb = g.i(1, 2), opt = g.i(0, 2), E = opt == 0 ? 400 : 300; uint64_t st = g.seed32(); uint32_t seed = g.seed32(); bool single = g.flip(50);
    if (single) nb = 1; bool sig = g.flip(25); // one sigmoid output per class with squared error instead of softmax with cross-entropy
    std::vector<std::vector<ld>> C; for (int k = 0; k < K; k++) { std::vector<ld> c; for (int i = 0; i < in; i++) c.push_back(0); ld ang = 6.283185307179586L * k / K; c[0] = 3 * cosl(ang); c[1] = 3 * sinl(ang); C.push_back(c); }
    std::vector<Tensor<T>> xt, yt; std::vector<std::vector<int>> lab; ld worst = 0;
    for (int q = 0; q < nb; q++) { int B = K * per; Arr<T> x{{B, in}, {}}, y{{B, K}, {}}; std::vector<int> l; ld s2 = 0; for (int r = 0; r < B; r++) { int k = r % K; l.push_back(k); ld e = 1; for (int i = 0; i < in; i++) { ld u = ((ld)(pbt::splitmix(st) % 2001) / 1000 - 1) * 0.4L; x.v.push_back((T)(C[k][i] + u)); e += (C[k][i] + u) * (C[k][i] + u); } s2 += e; for (int j = 0; j < K; j++) y.v.push_back(j == k); } xt.push_back(mk(x)); yt.push_back(mk(y)); lab.push_back(l); worst = std::max(worst, s2 / (2 * B)); }
    AnyOpt<T> o; o.k = opt; o.s.learningRate = (T)(1 / worst); o.s.momentum = 0; o.r.learningRate = T(0.02); o.a.learningRate = T(0.05); if (opt == 1 && g.flip(30)) o.r.centered = true;
    static const char* on[] = {"SGD", "RMSProp", "Adam"}; NOTE(g, K << " separable classes in " << in << " dimensions, " << per << " each, " << nb << " batches, " << on[opt] << (sig ? " sigmoid and squared error" : " softmax and cross-entropy")); g.label(on[opt]);
    RandomEngine::setSeed(seed); SmartDNN<T> m; m.addLayer(FullyConnectedLayer<T>(in, K)); if (sig) m.addLayer(ActivationLayer<T>(Sigmoid<T>())); else m.addLayer(ActivationLayer<T>(Softmax<T>())); compileWith(m, !sig, o);
    Capture cap; m.train(xt, yt, E); std::vector<double> L = losses(cap.finish(), "training"); PCHECK((int)L.size() == E, E << " epochs reported " << L.size() << " losses");
    if (opt == 0 && nb == 1 && !sig) for (int e = 1; e < E; e++) PCHECK(L[e] <= L[e - 1] * (1 + 1e-4) + 1e-6, "the loss rose from " << L[e - 1] << " to " << L[e] << " in epoch " << e << " of a convex problem with a small rate");
    PCHECK(L.back() < L[0] || L[0] < 1e-3, "the loss went from " << L[0] << " to " << L.back() << " in " << E << " epochs over separable classes");
    if (!(sig && opt == 0)) PCHECK(L.back() < 0.35, "after " << E << " epochs over separable classes the loss is still " << L.back() << " (initially " << L[0] << ")");
    m.evalMode(); if (!(sig && opt == 0)) for (int q = 0; q < nb; q++) { Arr<T> p = snap(m.predict(xt[q])); for (size_t r = 0; r < lab[q].size(); r++) { int best = 0; for (int j = 1; j < K; j++) if (p.v[r * K + j] > p.v[r * K + best]) best = j; PCHECK(best == lab[q][r], "after " << E << " epochs (loss " << L.back() << ") sample " << r << " of class " << lab[q][r] << " is taken for class " << best); } }
    g.nontrivial();
}
// ---------------------------------------------------------------- any smooth model
typedef double D;
static void descent(Gen& g) {
    g.label("descent of any smooth model"); bool ce = g.flip(40); StackOpts so; so.drop = false; Stack s = genStack(g, ce ? 1 : 0, so); bool hasP = false; std::vector<LDesc> keep;
    for (auto& l : s.l) { if (l.k == L_POOL && (l.kh != 1 || l.s != 1 || l.p)) { g.label("not smooth, skipped"); return; } if (l.k == L_ACT && (l.act == A_RELU || l.act == A_LEAKY)) l.act = l.act == A_RELU ? A_TANH : A_SWISH; hasP |= l.k == L_FC || l.k == L_CONV || l.k == L_BN; }
    if (!hasP) { g.label("no parameters, skipped"); return; }
    int batch = s.rank1 ? 1 : g.i(1, 4); uint32_t seed = g.seed32(); uint64_t st = g.seed32(); Arr<D> x{withBatch(s, batch), {}}, t{withBatch(s, batch, true), {}}; for (size_t i = 0; i < numel(x.d); i++) x.v.push_back(gauss(st)); if (ce) for (int b = 0; b < batch; b++) { int k = (int)(pbt::splitmix(st) % s.out[0]); for (int j = 0; j < s.out[0]; j++) t.v.push_back(j == k); } else for (size_t i = 0; i < numel(t.d); i++) t.v.push_back(gauss(st));
    AnyOpt<D> o; o.k = g.pick({60, 20, 20}); if (o.k == 0 && g.flip(30)) { o.s.momentum = 0.9; } else o.s.momentum = 0; int E = o.k == 0 && o.s.momentum == 0 ? g.i(1, 6) : 1; static const char* on[] = {"SGD", "RMSProp", "Adam"}; NOTE(g, str(s) << " batch " << batch << (ce ? " cross-entropy " : " mse ") << on[o.k] << " for " << E << " epochs"); g.label(on[o.k]);
    Tensor<D> xt = mk(x), tt = mk(t); std::unique_ptr<Loss<D>> loss; if (ce) loss = std::make_unique<CategoricalCrossEntropyLoss<D>>(); else loss = std::make_unique<MSELoss<D>>();
    ld g2 = 0, gmax = 0, L0; { RandomEngine::setSeed(seed); SmartDNN<D> m; build(m, s); L0 = loss->compute(m.predict(xt), tt)[0]; if (ce) { Arr<D> p = snap(m.predict(xt)); for (D v : p.v) if (v < 1e-6 || v > 1 - 1e-6) { g.label("prediction at the clamp, skipped"); return; } } auto f = std::make_shared<std::vector<Found<D>>>(); if (ce) m.compile(CategoricalCrossEntropyLoss<D>(), SpyOpt<D>(f)); else m.compile(MSELoss<D>(), SpyOpt<D>(f)); Capture c; m.train({xt}, {tt}, 1); c.finish(); for (auto& q : *f) for (D v : q.grad.v) { g2 += (ld)v * v; gmax = std::max(gmax, fabsl((ld)v)); } }
    if (!std::isfinite((double)L0) || L0 > 1e6 || !(g2 > 1e-6L * (1 + L0)) || !(g2 < 1e14L)) { g.label("flat or out of range, skipped"); return; }
    std::string tried; bool ok = false; double lr = 0.25; if (o.k == 0) lr = 1 / (double)std::max<ld>(1, sqrtl(g2));
    for (int k = 0; k < 26 && !ok; k++, lr /= 4) {
        o.s.learningRate = o.r.learningRate = o.a.learningRate = lr; RandomEngine::setSeed(seed); SmartDNN<D> m; build(m, s); compileWith(m, ce, o); Capture c; ld prev = L0; bool down = true;
        for (int e = 0; e < E && down; e++) { m.train({xt}, {tt}, 1); ld L = loss->compute(m.predict(xt), tt)[0]; if (k < 12) { std::ostringstream q; q << " rate " << lr << ": " << (double)L; if (e == E - 1 || !(L < prev)) tried += q.str() + ";"; } if (!(L < prev)) down = false; prev = L; } c.finish(); ok = down; }
    PCHECK(ok, "no learning rate lowers the loss " << (double)L0 << " of " << str(s) << " with " << on[o.k] << " (gradient norm " << (double)sqrtl(g2) << "):" << tried);
    g.nontrivial();
}
template <class T> static void run(Gen& g) { switch (g.pick({50, 8, 42})) { case 0: linear<T>(g); break; case 1: classes<T>(g); break; default: descent(g); } }
TWO_TYPES(run)
