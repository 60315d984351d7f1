// C31: copies and moves of layers and optimizers carry the whole state and are independent of their source
#include "model.hpp"

// ---------------------------------------------------------------- layers
template <class T> struct Ev { int op = 0; Arr<T> v; uint32_t seed = 0; bool on = false; };     // 0 forward, 1 backward, 2 update, 3 mode
template <class T> struct Res { bool threw = false; std::vector<Arr<T>> a; };
template <class T> struct StepOpt : Optimizer<T> { // w -= g/8, and reports both
    Res<T>* r = nullptr;
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& gr, T = T(-1)) override {
        for (size_t k = 0; k < w.size(); k++) { r->a.push_back(snap(w[k].get())); r->a.push_back(snap(gr[k].get())); PCHECK(w[k].get().getShape().size() == gr[k].get().getShape().size(), "gradient and parameter differ in size"); for (size_t i = 0; i < w[k].get().getShape().size(); i++) w[k].get()[i] -= gr[k].get()[i] / T(8); } }
};
template <class T> static Res<T> play(Layer<T>& l, const Ev<T>& e) {
    Res<T> r; RandomEngine::setSeed(e.seed);
    try { switch (e.op) { case 0: r.a.push_back(snap(l.forward(mk(e.v)))); break; case 1: r.a.push_back(snap(l.backward(mk(e.v)))); break; case 2: { StepOpt<T> o; o.r = &r; l.updateWeights(o); break; } default: l.setTrainingMode(e.on); } }
    catch (const pbt::Failure&) { throw; } catch (const std::exception&) { r.threw = true; r.a.clear(); }
    return r;
}
template <class T> static void agree(const Res<T>& got, const Res<T>& want, const std::string& what) {
    PCHECK(got.threw == want.threw, what << (got.threw ? " throws, the twin that was never copied does not" : " is accepted, the twin that was never copied throws")); PCHECK(got.a.size() == want.a.size(), what << " involves other parameters than its twin that was never copied");
    for (size_t k = 0; k < got.a.size(); k++) { PCHECK(got.a[k].d == want.a[k].d, what << ": shape " << str(got.a[k].d) << ", the twin that was never copied has " << str(want.a[k].d)); for (size_t i = 0; i < got.a[k].n(); i++) PCHECK(sameBits(got.a[k].v[i], want.a[k].v[i]) || (got.a[k].v[i] != got.a[k].v[i] && want.a[k].v[i] != want.a[k].v[i]), what << ": element " << i << " of result " << k << " is " << got.a[k].v[i] << ", the twin that was never copied has " << want.a[k].v[i]); }
}
template <class T> struct Kind { // draws events that mostly fit
    LDesc l; Dims in(Gen& g) const { switch (l.k) { case L_FC: return g.flip(30) ? Dims{l.a} : Dims{g.i(1, 4), l.a}; case L_CONV: { int h = l.dl * (l.kh - 1) + 1, w = l.dl * (l.kw - 1) + 1; return {g.i(1, 2), l.a, g.i(std::max(1, h - 2 * l.p), h + 2), g.i(std::max(1, w - 2 * l.p), w + 2)}; }
        case L_POOL: return {g.i(1, 2), g.i(1, 2), g.i(std::max(1, l.kh - 2 * l.p), 5), g.i(std::max(1, l.kh - 2 * l.p), 5)}; case L_BN: return g.flip(50) ? Dims{g.i(1, 4), l.a} : Dims{g.i(1, 3), l.a, g.i(1, 3), g.i(1, 3)}; case L_FLAT: return genDims(g, 2, 4, 40); case L_DROP: return genDims(g, 1, 4, 40); default: return genDims(g, l.act == A_SOFTMAX ? 2 : 1, 4, 40); } }
};
struct Track { Dims out; bool fwd = false; };
template <class T> static Ev<T> draw(Gen& g, const Kind<T>& k, const Track& t) {
    Ev<T> e; e.seed = g.seed32(); e.op = g.pick({45, 35, 14, 6}); if (e.op == 1 && !t.fwd) e.op = 0;
    if (e.op == 0) e.v = genArr<T>(g, k.in(g), g.flip(50) ? V_SMALLINT : V_NORMAL); else if (e.op == 1) e.v = genArr<T>(g, t.out, g.flip(50) ? V_SMALLINT : V_NORMAL); else if (e.op == 3) e.on = g.flip(60); return e;
}
static void desc(Gen& g, LDesc& l) {
    switch (l.k) { case L_FC: l.a = g.i(1, 4); l.b = g.i(1, 4); break; case L_CONV: l.a = g.i(1, 3); l.b = g.i(1, 3); l.kh = g.i(1, 3); l.kw = g.i(1, 3); l.s = g.i(1, 2); l.p = g.i(0, 1); l.dl = g.i(1, 2); break;
        case L_POOL: l.kh = g.i(1, 3); l.s = g.i(1, 3); l.p = l.kh > 1 ? g.i(0, 1) : 0; break; case L_BN: l.a = g.i(1, 4); break; case L_DROP: { static const double r[] = {0.5, 0.2, 0.75}; l.rate = r[g.draw(3)]; break; } case L_ACT: { static const double al[] = {0.1, 0.5, 0.01}; l.act = (int)g.draw(A_COUNT); l.alpha = al[g.draw(3)]; break; } default:; }
}
// L: the concrete layer class; make(desc) builds one
template <class T, class L, class Make> static void layerValues(Gen& g, Kind<T> kd, Make make) {
    uint32_t seed = g.seed32(); auto fresh = [&](const LDesc& d, uint32_t s) { RandomEngine::setSeed(s); return make(d); };
    struct Inst { std::unique_ptr<L> l; std::unique_ptr<Layer<T>> twin; Kind<T> k; std::vector<Ev<T>> hist; uint32_t seed; Track t; std::string name; bool alive = true; };
    std::vector<Inst> v; v.push_back({}); v[0].l = fresh(kd.l, seed); v[0].twin = fresh(kd.l, seed); v[0].k = kd; v[0].seed = seed; v[0].name = "the first";
    NOTE(g, str(kd.l)); int copies = 0, after = 0, steps = g.i(3, 14);
    auto one = [&](Inst& x) { Ev<T> e = draw<T>(g, x.k, x.t); static const char* on[] = {"forward", "backward", "update", "mode"}; NOTE(g, "  " << on[e.op] << (e.op < 2 ? str(e.v.d) : "") << " of " << x.name); Res<T> a = play<T>(*x.l, e), b = play<T>(*x.twin, e); agree(a, b, std::string(on[e.op]) + " of " + x.name + " layer " + str(x.k.l)); x.hist.push_back(e); if (e.op == 0 && !a.threw) { x.t.fwd = true; x.t.out = a.a[0].d; } if (copies) after++; };
    auto twinOf = [&](const Inst& x) { auto t = fresh(x.k.l, x.seed); for (auto& e : x.hist) play<T>(*t, e); return std::unique_ptr<Layer<T>>(std::move(t)); };
    for (int s = 0; s < steps; s++) {
        if (!g.flip(25) || v.size() > 4) { Inst& x = v[g.draw(v.size())]; if (x.alive) one(x); continue; }
        Inst& src = v[g.draw(v.size())]; if (!src.alive) continue; bool copyable = std::is_copy_constructible_v<L>; int how = copyable ? g.i(0, 4) : g.i(2, 3); copies++;
        Inst n; n.k = src.k; n.hist = src.hist; n.seed = src.seed; n.t = src.t; n.name = "copy " + std::to_string(v.size()) + " of"; n.twin = twinOf(src);
        if constexpr (std::is_copy_constructible_v<L>) {
            if (how == 0) { NOTE(g, "  copy"); n.l = std::make_unique<L>(*src.l); g.label("copy constructed"); v.push_back(std::move(n)); continue; }
            if (how == 1) { // over a layer with a configuration and a life of its own
                NOTE(g, "  copy over another"); Kind<T> other; other.l.k = kd.l.k; desc(g, other.l); n.l = fresh(other.l, g.seed32()); Track t; int pre = g.i(0, 3); for (int q = 0; q < pre; q++) { Ev<T> e = draw<T>(g, other, t); Res<T> r = play<T>(*n.l, e); if (e.op == 0 && !r.threw) { t.fwd = true; t.out = r.a[0].d; } } *n.l = *src.l; g.label("copy assigned"); v.push_back(std::move(n)); continue; }
            if (how == 4) { // through addLayer of a named layer: the model holds a copy
                NOTE(g, "  addLayer of the named layer"); SmartDNN<T> m; m.addLayer(*src.l); auto* p = dynamic_cast<L*>(m.getLayer(0)); PCHECK(p, "getLayer does not return the kind of layer that was added"); PCHECK(p != src.l.get(), "the model holds the caller's layer itself"); n.l = std::make_unique<L>(*p); g.label("copied by addLayer"); v.push_back(std::move(n)); continue; }
        }
        if (how == 2) { NOTE(g, "  move"); n.name = "layer moved from"; n.l = std::make_unique<L>(std::move(*src.l)); g.label("move constructed"); }
        else { NOTE(g, "  move over another"); n.name = "layer move-assigned from"; Kind<T> other; other.l.k = kd.l.k; desc(g, other.l); n.l = fresh(other.l, g.seed32()); *n.l = std::move(*src.l); g.label("move assigned"); }
        // the source may only be given a new value
        if constexpr (std::is_copy_constructible_v<L>) { if (g.flip(60)) { *src.l = *n.l; src.hist = n.hist; src.t = n.t; src.name = "reassigned " + src.name; } else src.alive = false; } else src.alive = false;
        v.push_back(std::move(n));
    }
    // everyone works on
    for (auto& x : v) if (x.alive) { x.hist.reserve(x.hist.size() + 4); for (int q = 0; q < 2; q++) one(x); Ev<T> f; f.op = 0; f.seed = 7; f.v = genArr<T>(g, x.k.in(g), V_SMALLINT); agree(play<T>(*x.l, f), play<T>(*x.twin, f), "a final forward of " + x.name + " layer " + str(x.k.l)); }
    if (copies && after) g.nontrivial();
}
template <class T> static void layers(Gen& g) {
    Kind<T> k; k.l.k = (LK)g.draw(7); desc(g, k.l); static const char* kn[] = {"fully connected", "convolution", "pooling", "batch norm", "dropout", "flatten", "activation layer"}; g.label(kn[k.l.k]);
    switch (k.l.k) {
        case L_FC: layerValues<T, FullyConnectedLayer<T>>(g, k, [](const LDesc& l) { return std::make_unique<FullyConnectedLayer<T>>(l.a, l.b); }); break;
        case L_CONV: layerValues<T, Conv2DLayer<T>>(g, k, [](const LDesc& l) { return std::make_unique<Conv2DLayer<T>>(l.a, l.b, l.kh, l.kw, l.s, l.p, l.dl); }); break;
        case L_POOL: layerValues<T, MaxPooling2DLayer<T>>(g, k, [](const LDesc& l) { return std::make_unique<MaxPooling2DLayer<T>>(l.kh, l.s, l.p); }); break;
        case L_BN: layerValues<T, BatchNormalizationLayer<T>>(g, k, [](const LDesc& l) { return std::make_unique<BatchNormalizationLayer<T>>(l.a); }); break;
        case L_DROP: layerValues<T, DropoutLayer<T>>(g, k, [](const LDesc& l) { return std::make_unique<DropoutLayer<T>>(T(l.rate)); }); break;
        case L_FLAT: layerValues<T, FlattenLayer<T>>(g, k, [](const LDesc&) { return std::make_unique<FlattenLayer<T>>(); }); break;
        default: layerValues<T, ActivationLayer<T>>(g, k, [](const LDesc& l) { bool nm = l.alpha == 0.5; // from a temporary or from a named activation
            switch (l.act) { case A_RELU: return std::make_unique<ActivationLayer<T>>(ReLU<T>()); case A_LEAKY: { LeakyReLU<T> a(T(l.alpha)); if (nm) return std::make_unique<ActivationLayer<T>>(a); return std::make_unique<ActivationLayer<T>>(LeakyReLU<T>(T(l.alpha))); }
                case A_SIGMOID: return std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); case A_TANH: return std::make_unique<ActivationLayer<T>>(Tanh<T>()); case A_SWISH: { Swish<T> a; if (nm) return std::make_unique<ActivationLayer<T>>(a); return std::make_unique<ActivationLayer<T>>(Swish<T>()); } case A_MISH: return std::make_unique<ActivationLayer<T>>(Mish<T>()); default: { Softmax<T> a; if (nm) return std::make_unique<ActivationLayer<T>>(a); return std::make_unique<ActivationLayer<T>>(Softmax<T>()); } } });
    }
}
// ---------------------------------------------------------------- optimizers
template <class T> struct OptDesc { int k; SGDOptions<T> s; RMSPropOptions<T> r; AdamOptions<T> a; };
template <class T> static OptDesc<T> optDesc(Gen& g, int k) {
    OptDesc<T> o; o.k = k; o.s.learningRate = o.r.learningRate = o.a.learningRate = g.flip(50) ? T(0.1) : T(0.01);
    o.s.momentum = g.flip(70) ? T(0.9) : T(0); o.s.nesterov = g.flip(40); o.s.dampening = g.flip(30) ? T(0.5) : T(0); o.s.weightDecay = g.flip(30) ? T(0.1) : T(0);
    o.r.momentum = g.flip(60) ? T(0.9) : T(0); o.r.centered = g.flip(50); o.r.weightDecay = g.flip(30) ? T(0.1) : T(0);
    o.a.decay = g.flip(30) ? T(0.1) : T(0); o.a.l1Strength = g.flip(30) ? T(0.01) : T(0); o.a.l2Strength = g.flip(30) ? T(0.02) : T(0); if (g.flip(30)) { o.a.beta1 = T(0.5); o.a.beta2 = T(0.75); } return o;
}
template <class T, class O, class Make> static void optValues(Gen& g, int kind, Make make) {
    int np = g.i(1, 3); std::vector<Arr<T>> init; for (int i = 0; i < np; i++) init.push_back(genArr<T>(g, genDims(g, 1, 3, 12), V_NORMAL));
    std::vector<std::unique_ptr<Tensor<T>>> W; for (auto& a : init) W.push_back(std::make_unique<Tensor<T>>(mk(a)));   // the parameters all live optimizers know
    struct Call { std::vector<int> sel; std::vector<Arr<T>> gr; T over; };
    // an optimizer with the weights it has produced, and a twin with parameters of its own
    struct Inst { std::unique_ptr<O> o, twin; std::vector<std::unique_ptr<Tensor<T>>> V; std::vector<Arr<T>> w; std::vector<Call> hist; OptDesc<T> d; std::string name; bool alive = true; };
    auto drive = [&](O& o, std::vector<std::unique_ptr<Tensor<T>>>& P, const Call& c) { std::vector<Tensor<T>> gt; for (auto& a : c.gr) gt.push_back(mk(a)); std::vector<std::reference_wrapper<Tensor<T>>> w, q; for (size_t j = 0; j < c.sel.size(); j++) { w.push_back(std::ref(*P[c.sel[j]])); q.push_back(std::ref(gt[j])); } if (c.over > 0) o.optimize(w, q, c.over); else o.optimize(w, q); };
    auto setAll = [&](std::vector<std::unique_ptr<Tensor<T>>>& P, const std::vector<Arr<T>>& w) { for (int i = 0; i < np; i++) { const Arr<T>& a = w[i]; for (size_t j = 0; j < a.n(); j++) (*P[i])[j] = a.v[j]; } };
    auto retwin = [&](Inst& n) { n.twin = make(n.d); n.V.clear(); for (auto& a : init) n.V.push_back(std::make_unique<Tensor<T>>(mk(a))); for (auto& c : n.hist) drive(*n.twin, n.V, c); };
    std::vector<Inst> v; v.emplace_back(); v[0].d = optDesc<T>(g, kind); v[0].o = make(v[0].d); v[0].w = init; v[0].name = "the first"; retwin(v[0]); static const char* on[] = {"SGD", "RMSProp", "Adam"}; NOTE(g, on[kind] << " over " << np << " parameters"); g.label(on[kind]);
    int copies = 0, after = 0, steps = g.i(4, 16);
    auto one = [&](Inst& x) {
        Call c; for (int i = 0; i < np; i++) if (g.flip(70)) c.sel.push_back(i); if (c.sel.empty()) c.sel.push_back(0); if (c.sel.size() > 1 && g.flip(30)) std::swap(c.sel[0], c.sel[1]); for (int i : c.sel) c.gr.push_back(genArr<T>(g, init[i].d, V_NORMAL)); c.over = g.flip(15) ? T(0.25) : T(-1);
        NOTE(g, "  optimize by " << x.name); setAll(W, x.w); drive(*x.o, W, c); drive(*x.twin, x.V, c); x.hist.push_back(c);
        for (int i = 0; i < np; i++) { x.w[i] = snap(*W[i]); Arr<T> t = snap(*x.V[i]); for (size_t j = 0; j < t.n(); j++) PCHECK(sameBits(x.w[i].v[j], t.v[j]) || (t.v[j] != t.v[j] && x.w[i].v[j] != x.w[i].v[j]), "after " << x.hist.size() << " updates " << x.name << " optimizer (" << on[kind] << ") has weight " << j << " of parameter " << i << " at " << x.w[i].v[j] << ", a twin with the same history that was never copied has " << t.v[j]); }
        if (copies) after++;
    };
    for (int s = 0; s < steps; s++) {
        if (!g.flip(25) || v.size() > 4) { Inst& x = v[g.draw(v.size())]; if (x.alive) one(x); continue; }
        size_t si = g.draw(v.size()); if (!v[si].alive) continue; copies++; Inst n; Inst& src = v[si]; n.d = src.d; n.w = src.w; n.hist = src.hist; retwin(n);
        switch (g.i(0, 3)) {
            case 0: NOTE(g, "  copy"); n.name = "a copied"; n.o = std::make_unique<O>(*src.o); g.label("copy constructed"); break;
            case 1: { NOTE(g, "  copy over another"); n.name = "a copy-assigned"; OptDesc<T> d = optDesc<T>(g, kind); n.o = make(d); setAll(W, init); if (g.flip(60)) { Call c; c.sel = {0}; c.gr = {genArr<T>(g, init[0].d, V_NORMAL)}; c.over = T(-1); drive(*n.o, W, c); } *n.o = *src.o; g.label("copy assigned"); break; }
            case 2: NOTE(g, "  move"); n.name = "a moved"; n.o = std::make_unique<O>(std::move(*src.o)); src.alive = false; g.label("move constructed"); break;
            default: { NOTE(g, "  move over another"); n.name = "a move-assigned"; n.o = make(optDesc<T>(g, kind)); *n.o = std::move(*src.o); src.alive = false; g.label("move assigned"); }
        }
        if (!src.alive && g.flip(50)) { *src.o = *n.o; src.alive = true; src.name = "a reassigned"; }
        v.push_back(std::move(n));
    }
    for (auto& x : v) if (x.alive) one(x);
    if (copies && after) g.nontrivial();
}
template <class T> static void optimizers(Gen& g) {
    switch (g.draw(3)) { case 0: optValues<T, SGDOptimizer<T>>(g, 0, [](const OptDesc<T>& d) { return std::make_unique<SGDOptimizer<T>>(d.s); }); break; case 1: optValues<T, RMSPropOptimizer<T>>(g, 1, [](const OptDesc<T>& d) { return std::make_unique<RMSPropOptimizer<T>>(d.r); }); break; default: optValues<T, AdamOptimizer<T>>(g, 2, [](const OptDesc<T>& d) { return std::make_unique<AdamOptimizer<T>>(d.a); }); }
}
// ---------------------------------------------------------------- models built from named layers, a named loss and a named optimizer
template <class T> static void models(Gen& g) {
    g.label("models from named parts"); int a = g.i(1, 3), b = g.i(1, 4), c = g.i(1, 3), n = g.i(1, 3), batch = g.i(2, 4), ep = g.i(1, 4); uint32_t seed = g.seed32(); bool bn = g.flip(50); uint64_t st = g.seed32(); int ok = g.i(0, 2); OptDesc<T> od = optDesc<T>(g, ok);
    NOTE(g, "two models from the same named FC(" << a << "," << b << ")" << (bn ? ", BN" : "") << ", FC(" << b << "," << c << ") and optimizer " << ok);
    std::vector<Tensor<T>> X, Y; for (int i = 0; i < n; i++) { Arr<T> x{{batch, a}, {}}, y{{batch, c}, {}}; for (int q = 0; q < batch * a; q++) x.v.push_back((T)gauss(st)); for (int q = 0; q < batch * c; q++) y.v.push_back((T)gauss(st)); X.push_back(mk(x)); Y.push_back(mk(y)); }
    auto go = [&](auto opt, auto fresh) {
        RandomEngine::setSeed(seed); FullyConnectedLayer<T> f1(a, b), f2(b, c); BatchNormalizationLayer<T> nb(b); MSELoss<T> loss; Arr<T> w1 = snap(f1.getWeights()), b1 = snap(f1.getBiases()), w2 = snap(f2.getWeights()), b2 = snap(f2.getBiases());
        auto build = [&](SmartDNN<T>& m) { m.addLayer(f1); if (bn) m.addLayer(nb); m.addLayer(f2); m.compile(loss, opt); };
        SmartDNN<T> A, B; build(A); auto outs = [&](SmartDNN<T>& m) { m.evalMode(); std::vector<Arr<T>> r; for (auto& x : X) r.push_back(snap(m.predict(x))); m.trainingMode(); return r; };
        auto train = [&](SmartDNN<T>& m, int e) { Capture q; m.train(X, Y, e); return q.finish(); };
        std::string ta = train(A, ep); auto oa = outs(A);
        checkBits(f1.getWeights(), w1, "weights of the caller's layer after a model trained its copy"); checkBits(f1.getBiases(), b1, "biases of the caller's layer"); checkBits(f2.getWeights(), w2, "weights of the caller's second layer"); checkBits(f2.getBiases(), b2, "biases of the caller's second layer");
        build(B); std::string tb = train(B, ep); auto ob = outs(B); PCHECK(ta == tb, "a second model built from the same named parts reports '" << tb << "' where the first reported '" << ta << "'");
        auto eq = [&](const std::vector<Arr<T>>& p, const std::vector<Arr<T>>& q, const char* what) { for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < p[i].n(); k++) PCHECK(sameBits(p[i].v[k], q[i].v[k]) || (p[i].v[k] != p[i].v[k] && q[i].v[k] != q[i].v[k]), what << ": output " << i << " element " << k << " is " << q[i].v[k] << ", expected " << p[i].v[k]); };
        eq(oa, ob, "a second model built from the same named parts"); eq(oa, outs(A), "the first model after the second one was trained");
        // the caller's optimizer has seen nothing
        auto twin = fresh(); Tensor<T> p = mk(w1), q = mk(w1), gr = mk(w1); for (int k = 0; k < 2; k++) { opt.optimize({std::ref(p)}, {std::ref(gr)}); twin.optimize({std::ref(q)}, {std::ref(gr)}); } Arr<T> pa = snap(p); checkBits(q, pa, "parameter updated by the caller's optimizer after models trained with copies of it, against a fresh one");
        // and using the caller's things does not reach into the models
        Tensor<T> t(Shape({a, b}), T(5)); f1.setWeights(t); f2.setBiases(Tensor<T>(Shape({1, c}), T(7))); eq(oa, outs(A), "a model after the caller's layers were changed");
    };
    if (ok == 0) go(SGDOptimizer<T>(od.s), [&] { return SGDOptimizer<T>(od.s); }); else if (ok == 1) go(RMSPropOptimizer<T>(od.r), [&] { return RMSPropOptimizer<T>(od.r); }); else go(AdamOptimizer<T>(od.a), [&] { return AdamOptimizer<T>(od.a); });
    g.nontrivial();
}
template <class T> static void run(Gen& g) { switch (g.pick({60, 28, 12})) { case 0: layers<T>(g); break; case 1: optimizers<T>(g); break; default: models<T>(g); } }
TWO_TYPES(run)
