// C24: the order of events in train, the reported loss, and equivalence of one long and several short calls
#include "model.hpp"

static std::vector<double> lossLines(const std::string& text, int epochs, const char* what) {
    std::vector<double> r; std::istringstream is(text); std::string line;
    while (std::getline(is, line)) {
        size_t at = line.find("Loss"); PCHECK(at != std::string::npos && line.find("Epoch") != std::string::npos, what << " printed a line that is not an epoch report: '" << line << "'");
        at = line.find_first_of("0123456789-+.nNiI", at + 4); PCHECK(at != std::string::npos, "no loss in '" << line << "'");
        char* end; r.push_back(std::strtod(line.c_str() + at, &end)); PCHECK(!std::strchr(end, ','), "more than one loss in '" << line << "'");
    }
    PCHECK((int)r.size() == epochs, what << " of " << epochs << " epochs printed " << r.size() << " lines: '" << text << "'");
    return r;
}
static void checkPrinted(double shown, ld want, ld mag, ld n, ld E, int epoch) {
    ld tol = 1e-5L * fabsl(want) + (n + 4) * E * mag + 1e-30L;
    PCHECK(fabsl((ld)shown - want) <= tol, "epoch " << epoch << " reports the loss " << shown << ", the mean over its samples is " << (double)want);
}
// ---- everything our own: layers y = a*x + b + 1/(k+2), loss, optimizer; every call is logged
// own arithmetic kept out of line so that both sides round alike
template <class T> __attribute__((noinline)) T lin(T c, T v, T o) { return c * v + o; }
struct Ev { char what; int layer; std::vector<double> v; };
typedef std::shared_ptr<std::vector<Ev>> Trace;
template <class T> struct OL : Layer<T> {
    int k; Trace tr; T a; std::shared_ptr<std::vector<T>> as; Tensor<T> gp{Shape({1}), T(0)}, w{Shape({1}), T(0)}; bool hasParam;
    OL(int kk, Trace t, T aa, bool hp) : k(kk), tr(t), a(aa), hasParam(hp) { w[0] = aa; }
    static std::vector<double> vals(const Tensor<T>& t) { Arr<T> x = snap(t); return std::vector<double>(x.v.begin(), x.v.end()); }
    Tensor<T> forward(const Tensor<T>& x) override { tr->push_back({'F', k, vals(x)}); Tensor<T> y(x); T c = w[0], o = T(1) / T(k + 2); y.apply([=](T v) { return lin<T>(c, v, o); }); return y; }
    Tensor<T> backward(const Tensor<T>& g) override { tr->push_back({'B', k, vals(g)}); T s = 0; for (double v : vals(g)) s += (T)v; gp[0] = s; Tensor<T> y(g); T c = w[0]; y.apply([=](T v) { return c * v; }); return y; }
    void updateWeights(Optimizer<T>& o) override { tr->push_back({'U', k, {(double)w[0]}}); if (hasParam) o.optimize({std::ref(w)}, {std::ref(gp)}); }
};
template <class T> struct OLoss : Loss<T> {
    Trace tr; int odd; OLoss(Trace t, int o) : tr(t), odd(o) {}
    __attribute__((noinline)) static T val(const std::vector<double>& p, const std::vector<double>& t, int odd) { T s = 0; if (odd >= 2) { static const double c[] = {0, 0, 1e-30, 1e-7, 1, 1e20, -3}; return (T)c[odd - 2]; } for (size_t i = 0; i < p.size(); i++) s += odd == 1 ? (T)p[i] - (T)t[i] : std::fabs((T)p[i] - (T)t[i]); return s; }
    __attribute__((noinline)) static std::vector<double> grad(const std::vector<double>& p, const std::vector<double>& t, int odd) { std::vector<double> r; if (odd == 3) return std::vector<double>(p.size(), 0.0); for (size_t i = 0; i < p.size(); i++) r.push_back((T)((T)p[i] * T(0.25) - (T)t[i] * T(0.5))); return r; }
    Tensor<T> compute(const Tensor<T>& p, const Tensor<T>& t) override { auto a = OL<T>::vals(p), b = OL<T>::vals(t); std::vector<double> v = a; v.insert(v.end(), b.begin(), b.end()); tr->push_back({'L', -1, v}); return Tensor<T>(Shape({1}), val(a, b, odd)); }
    Tensor<T> gradient(const Tensor<T>& p, const Tensor<T>& t) override { auto a = OL<T>::vals(p), b = OL<T>::vals(t); std::vector<double> v = a; v.insert(v.end(), b.begin(), b.end()); tr->push_back({'G', -1, v}); Tensor<T> r(p); auto q = grad(a, b, odd); for (size_t i = 0; i < q.size(); i++) r[i] = (T)q[i]; return r; }
};
template <class T> struct OOpt : Optimizer<T> {
    Trace tr; T step; int calls = 0; OOpt(Trace t, T s) : tr(t), step(s) {}
    __attribute__((noinline)) static T upd(T w, T g, T step, int calls) { return w - step * g / (T(1) + std::fabs(g)) + T(0.001) * T(calls % 5); }
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& gr, T = T(-1)) override {
        PCHECK(w.size() == 1 && gr.size() == 1, "the optimizer was handed " << w.size() << " parameters by a layer with one"); calls++;
        tr->push_back({'O', -1, {(double)w[0].get()[0], (double)gr[0].get()[0]}}); w[0].get()[0] = upd(w[0].get()[0], gr[0].get()[0], step, calls);
    }
};
static std::string show(const Ev& e) { return std::string(1, e.what) + std::to_string(e.layer) + strv(e.v, 8); }
template <class T> static void own(Gen& g) {
    g.label("own layers, loss and optimizer");
    int n = g.flip(3) ? g.i(6, 120) : g.i(1, 5), samples = g.flip(4) ? g.i(6, 150) : g.i(1, 5); bool vast = false, endless = false; if (n < 6 && g.flip(1)) { g.label("many samples or epochs"); n = 1; int v = g.flip(10) ? g.i(65537, 67000) : g.i(200, 3000); if (g.flip(60)) { samples = v; vast = true; } else { endless = true; samples = 1; } } uint64_t st = g.seed32(); Trace tr = std::make_shared<std::vector<Ev>>(); SmartDNN<T> m; std::vector<T> w; std::vector<bool> hp;
    for (int k = 0; k < n; k++) { w.push_back((T)(0.5 + 0.25 * (pbt::splitmix(st) % 5))); hp.push_back(!g.flip(25)); m.addLayer(OL<T>(k, tr, w[k], hp[k])); }
    int odd = g.pick({40, 30, 30}); if (odd == 2) { odd = g.i(2, 8); g.label("constant loss"); } T step = T(0.0625); m.compile(OLoss<T>(tr, odd), OOpt<T>(tr, step));
    std::vector<Tensor<T>> X, Y; std::vector<std::vector<double>> xv, yv;
    for (int i = 0; i < samples; i++) { if (vast && i >= 8) { size_t c = pbt::splitmix(st) % 8; Tensor<T> a = X[c], b = Y[c]; auto p = xv[c], q = yv[c]; X.push_back(a); Y.push_back(b); xv.push_back(p); yv.push_back(q); continue; } Dims d = genDims(g, 1, 4, 12); if (vast) d = {(int)(1 + i % 3)}; Arr<T> x = genArr<T>(g, d, V_NORMAL), y = genArr<T>(g, d, V_NORMAL); if (i && g.flip(15)) { x = snap(X[i - 1]); y = snap(Y[i - 1]); if (g.flip(30)) y = x; } X.push_back(mk(x)); Y.push_back(mk(y)); xv.emplace_back(x.v.begin(), x.v.end()); yv.emplace_back(y.v.begin(), y.v.end()); }
    std::vector<int> calls; int nc = g.i(1, 3); if (vast || endless) { nc = 0; calls.push_back(vast ? 1 : g.flip(10) ? g.i(65537, 67000) : g.i(300, 3000)); } for (int c = 0; c < nc; c++) calls.push_back(g.flip(8) ? (g.flip(5) && samples < 6 ? g.i(40, 300) : g.i(4, 40)) : g.pick({10, 40, 30, 20}));
    NOTE(g, "own model of " << n << " layers, " << samples << " samples, calls of epochs " << str(Dims(calls.begin(), calls.end())));
    auto Xs = X, Ys = Y; size_t at = 0; int optCalls = 0;
    for (int ep : calls) {
        std::string out; { Capture c; m.train(X, Y, ep); out = c.finish(); }
        std::vector<double> shown = lossLines(out, ep, "train");
        auto next = [&](char w, int layer, const std::vector<double>* v, const std::string& what) {
            PCHECK(at < tr->size(), "train stopped before " << what); const Ev& e = (*tr)[at];
            PCHECK(e.what == w && e.layer == layer, "expected " << what << ", got event " << show(e));
            if (v) { PCHECK(e.v.size() == v->size() && std::equal(v->begin(), v->end(), e.v.begin(), [](double p, double q) { return p == q || (p != p && q != q); }), what << ": values " << strv(e.v, 8) << ", expected " << strv(*v, 8)); } at++;
        };
        for (int e = 0; e < ep; e++) {
            ld tot = 0, mag = 0;
            for (int s = 0; s < samples; s++) {
                std::string where = " (call epoch " + std::to_string(e) + ", sample " + std::to_string(s) + ")"; std::vector<double> cur = xv[s];
                for (int k = 0; k < n; k++) { next('F', k, &cur, "forward of layer " + std::to_string(k) + where); T o = T(1) / T(k + 2); for (auto& v : cur) v = lin<T>(w[k], (T)v, o); }
                std::vector<double> both = cur; both.insert(both.end(), yv[s].begin(), yv[s].end()); bool L = false, G = false; std::vector<double> gr; std::vector<T> gp(n); std::vector<int> done(n, 0); int below = n, left = n;
                // the loss may be measured at any time, layers are walked backwards once the gradient is known, and a layer may be updated as soon as its own backward is done
                while (at < tr->size() && (left || (*tr)[at].what == 'L')) {
                    char w2 = (*tr)[at].what;
                    if (w2 == 'L') { L = true; next('L', -1, &both, "loss of the prediction and the sample's target" + where); }
                    else if (w2 == 'G' && below == n) { G = true; next('G', -1, &both, "loss gradient at the prediction and the sample's target" + where); gr = OLoss<T>::grad(cur, yv[s], odd); }
                    else if (w2 == 'U' && (*tr)[at].layer >= below) { int q = (*tr)[at].layer; at++; left--; // every layer once, in any order
                        PCHECK(!done[q]++, "layer " << q << " was updated twice for one sample" << where);
                        if (hp[q]) { std::vector<double> wg{(double)w[q], (double)gp[q]}; next('O', -1, &wg, "optimizer called with weight and gradient of layer " + std::to_string(q) + where); w[q] = OOpt<T>::upd(w[q], gp[q], step, ++optCalls); } }
                    else { PCHECK(G, "the loss gradient was not asked for" << where << ", got event " << show((*tr)[at])); PCHECK(below > 0, "expected an update of every layer" << where << ", got " << show((*tr)[at])); --below;
                        next('B', below, &gr, "backward of layer " + std::to_string(below) + where); T q = 0; for (double v : gr) q += (T)v; gp[below] = q; for (auto& v : gr) v = w[below] * (T)v; }
                }
                PCHECK(!left, "train stopped before an update of every layer" << where); PCHECK(L, "the loss was not measured" << where);
                T lv = OLoss<T>::val(cur, yv[s], odd); tot += lv; mag += fabsl((ld)lv);
            }
            if (std::isfinite((double)mag) && mag < 1e30L) checkPrinted(shown[e], tot / samples, mag / samples, samples, epsOf<T>(), e); else g.label("diverged");
        }
        PCHECK(at == tr->size(), "train did something after its last update: " << show((*tr)[at]));
    }
    for (int i = 0; i < samples; i++) { checkBits(X[i], snap(Xs[i]), "training input"); checkBits(Y[i], snap(Ys[i]), "training target"); }
    if (n && calls.size() && samples > 1) g.nontrivial();
}
// ---- library layers: train against the same steps taken by hand, and one call against several
template <class T> static void lib(Gen& g) {
    g.label("library model"); bool ce = g.flip(40); Stack s = genStack(g, ce ? 1 : 0); AnyOpt<T> o; o.k = g.i(0, 2); o.s.nesterov = g.flip(30); o.r.momentum = g.flip(50) ? T(0.9) : T(0); o.r.centered = g.flip(30); o.a.decay = g.flip(30) ? T(0.1) : T(0); o.a.l2Strength = g.flip(20) ? T(0.01) : T(0);
    int samples = g.i(1, 4), ep = g.flip(12) ? g.i(6, 15) : g.i(1, 5); bool small = s.l.size() <= 4; for (auto& l : s.l) small = small && l.k != L_CONV; if (small && g.flip(4)) { ep = g.flip(25) ? g.i(201, 600) : g.i(40, 200); g.label("long library run"); } else if (small && g.flip(4)) { samples = g.i(9, 70); g.label("many samples"); } uint32_t seed = g.seed32(); uint64_t st = g.seed32();
    NOTE(g, "library model " << str(s) << (ce ? " cross-entropy" : " mse") << " optimizer " << o.k << " samples " << samples << " epochs " << ep);
    std::vector<Tensor<T>> X, Y;
    for (int i = 0; i < samples; i++) { int b = s.rank1 ? 1 : g.i(1, 3); Arr<T> x{withBatch(s, b), {}}, y{withBatch(s, b, true), {}}; for (size_t k = 0; k < numel(x.d); k++) x.v.push_back((T)gauss(st)); for (size_t k = 0; k < numel(y.d); k++) y.v.push_back(ce ? T((int)(k % s.out[0]) == (int)((i + k / s.out[0]) % s.out[0])) : (T)gauss(st)); X.push_back(mk(x)); Y.push_back(mk(y)); }
    auto params = [&](SmartDNN<T>& m) { std::vector<Arr<T>> r; for (size_t k = 0; k < s.l.size(); k++) { if (s.l[k].k == L_FC) { auto* f = dynamic_cast<FullyConnectedLayer<T>*>(m.getLayer(k)); PCHECK(f, "getLayer does not return the layer that was added"); r.push_back(snap(f->getWeights())); r.push_back(snap(f->getBiases())); } else if (s.l[k].k == L_CONV) { auto* f = dynamic_cast<Conv2DLayer<T>*>(m.getLayer(k)); PCHECK(f, "getLayer does not return the layer that was added"); r.push_back(snap(f->getWeights())); r.push_back(snap(f->getBiases())); } } return r; };
    auto finish = [&](SmartDNN<T>& m) { auto r = params(m); m.evalMode(); for (auto& x : X) r.push_back(snap(m.predict(x))); return r; };   // evaluation shows batch norm's state too
    auto same = [&](const std::vector<Arr<T>>& a, const std::vector<Arr<T>>& b, const std::string& what) { PCHECK(a.size() == b.size(), "harness error"); for (size_t k = 0; k < a.size(); k++) for (size_t i = 0; i < a[k].n(); i++) PCHECK(sameBits(a[k].v[i], b[k].v[i]) || (a[k].v[i] != a[k].v[i] && b[k].v[i] != b[k].v[i]), what << ": parameter or prediction " << k << " element " << i << " is " << b[k].v[i] << ", expected " << a[k].v[i] << " in " << str(s)); };
    // one call
    RandomEngine::setSeed(seed); SmartDNN<T> A; build(A, s); compileWith(A, ce, o); std::string out; { Capture c; A.train(X, Y, ep); out = c.finish(); } std::vector<double> la = lossLines(out, ep, "train"); auto fa = finish(A);
    // several calls with the same total
    RandomEngine::setSeed(seed); SmartDNN<T> B; build(B, s); compileWith(B, ce, o); std::vector<double> lb; int left = ep; std::string cuts; while (left) { int k = g.i(1, left); if (g.flip(10)) { Capture c; B.train(X, Y, 0); lossLines(c.finish(), 0, "train"); } Capture c; B.train(X, Y, k); auto l = lossLines(c.finish(), k, "train"); lb.insert(lb.end(), l.begin(), l.end()); left -= k; cuts += " " + std::to_string(k); }
    same(fa, finish(B), "training in calls of" + cuts + " epochs instead of one"); for (int e = 0; e < ep; e++) PCHECK(la[e] == lb[e] || (la[e] != la[e] && lb[e] != lb[e]), "the loss of epoch " << e << " is " << lb[e] << " when trained in calls of" << cuts << " epochs, " << la[e] << " in one call");
    // the same steps by hand on another model
    RandomEngine::setSeed(seed); SmartDNN<T> H; build(H, s); std::unique_ptr<Loss<T>> loss; if (ce) loss = std::make_unique<CategoricalCrossEntropyLoss<T>>(); else loss = std::make_unique<MSELoss<T>>();
    std::unique_ptr<Optimizer<T>> opt; if (o.k == 0) opt = std::make_unique<SGDOptimizer<T>>(o.s); else if (o.k == 1) opt = std::make_unique<RMSPropOptimizer<T>>(o.r); else opt = std::make_unique<AdamOptimizer<T>>(o.a);
    bool finite = true;
    for (int e = 0; e < ep; e++) {
        ld tot = 0, mag = 0;
        for (int i = 0; i < samples; i++) {
            Tensor<T> p = X[i]; for (size_t k = 0; k < s.l.size(); k++) p = H.getLayer(k)->forward(p);
            T lv = loss->compute(p, Y[i])[0]; tot += lv; mag += fabsl((ld)lv); Tensor<T> gr = loss->gradient(p, Y[i]);
            for (size_t k = s.l.size(); k-- > 0;) gr = H.getLayer(k)->backward(gr);
            for (size_t k = 0; k < s.l.size(); k++) H.getLayer(k)->updateWeights(*opt);
        }
        finite = finite && std::isfinite((double)tot); if (finite && mag / samples < 1e30) checkPrinted(la[e], tot / samples, mag / samples, samples, epsOf<T>(), e);
    }
    same(finish(H), fa, "train against the same forward, backward and update steps taken by hand");
    if (finite) g.nontrivial(); else g.label("diverged");
}
template <class T> static void run(Gen& g) { if (g.flip(45)) lib<T>(g); else own<T>(g); }
TWO_TYPES(run)
