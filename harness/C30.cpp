// C30: misuse ends in an exception, leaves parameters unchanged and the object usable (as a twin that was never misused)
#include "model.hpp"

template <class T> static std::unique_ptr<Layer<T>> make(const LDesc& l) {
    switch (l.k) {
        case L_FC: return std::make_unique<FullyConnectedLayer<T>>(l.a, l.b);
        case L_CONV: return std::make_unique<Conv2DLayer<T>>(l.a, l.b, l.kh, l.kw, l.s, l.p, l.dl);
        case L_POOL: return std::make_unique<MaxPooling2DLayer<T>>(l.kh, l.s, l.p);
        case L_BN: return std::make_unique<BatchNormalizationLayer<T>>(l.a);
        case L_DROP: return std::make_unique<DropoutLayer<T>>(T(l.rate));
        case L_FLAT: return std::make_unique<FlattenLayer<T>>();
        default: switch (l.act) {
            case A_RELU: return std::make_unique<ActivationLayer<T>>(ReLU<T>()); case A_LEAKY: return std::make_unique<ActivationLayer<T>>(LeakyReLU<T>(T(l.alpha)));
            case A_SIGMOID: return std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); case A_TANH: return std::make_unique<ActivationLayer<T>>(Tanh<T>());
            case A_SWISH: return std::make_unique<ActivationLayer<T>>(Swish<T>()); case A_MISH: return std::make_unique<ActivationLayer<T>>(Mish<T>()); default: return std::make_unique<ActivationLayer<T>>(Softmax<T>()); }
    }
}
template <class T> static void same(const Arr<T>& got, const Arr<T>& want, const std::string& what) {
    PCHECK(got.d == want.d, what << ": shape " << str(got.d) << ", expected " << str(want.d));
    for (size_t i = 0; i < want.n(); i++) PCHECK(sameBits(got.v[i], want.v[i]) || (got.v[i] != got.v[i] && want.v[i] != want.v[i]), what << ": element " << i << " is " << got.v[i] << ", expected " << want.v[i]);
}
static bool broadcastable(const Dims& a, const Dims& b) { for (size_t k = 1; k <= std::min(a.size(), b.size()); k++) { int x = a[a.size() - k], y = b[b.size() - k]; if (x != y && x != 1 && y != 1) return false; } return true; }
template <class T> static Arr<T> params(Layer<T>* l) { Arr<T> r{{1}, {}}; auto add = [&](const Tensor<T>& t) { auto a = snap(t); r.v.insert(r.v.end(), a.v.begin(), a.v.end()); }; if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(l)) { add(f->getWeights()); add(f->getBiases()); } else if (auto* c = dynamic_cast<Conv2DLayer<T>*>(l)) { add(c->getWeights()); add(c->getBiases()); } r.d[0] = (int)r.v.size(); return r; }
template <class T> struct StepOpt : Optimizer<T> { // w -= g/8
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& gr, T = T(-1)) override {
        for (size_t k = 0; k < w.size(); k++) { PCHECK(w[k].get().getShape().size() == gr[k].get().getShape().size(), "a layer recorded a gradient whose size is not its parameter's"); for (size_t i = 0; i < w[k].get().getShape().size(); i++) w[k].get()[i] -= gr[k].get()[i] / T(8); } }
};
// rejected: the call must end in a std::exception
template <class F> static void rejected(F&& f, const std::string& what) {
    bool threw = false; try { f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { threw = true; }
    PCHECK(threw, what << " was accepted, expected an exception");
}
template <class T> static Arr<T> vals(Gen& g, const Dims& d) { return genArr<T>(g, d, g.flip(50) ? V_SMALLINT : V_NORMAL); }
static Dims otherDims(Gen& g, const Dims& d) { // a shape near d but different
    Dims r = d; switch (g.draw(5)) { case 0: case 1: { int k = (int)g.draw(r.size()); r[k] += g.i(1, 2); break; } case 2: { int k = (int)g.draw(r.size()); if (r[k] > 1) r[k]--; else r[k]++; break; } case 3: r.insert(r.begin() + g.draw(r.size() + 1), g.i(1, 2)); break; default: if (r.size() > 1) { if (g.flip(50)) r.erase(r.begin()); else std::swap(r[0], r.back()); } else r[0]++; }
    return r;
}
template <class T> static void layers(Gen& g) {
    LDesc l; l.k = (LK)g.draw(7); uint32_t seed = g.seed32(); bool eval = false;
    switch (l.k) { case L_FC: l.a = g.i(1, 4); l.b = g.i(1, 4); break; case L_CONV: l.a = g.i(1, 3); l.b = g.i(1, 3); l.kh = g.i(1, 3); l.kw = g.i(1, 3); l.s = g.i(1, 2); l.p = g.i(0, 1); l.dl = g.i(1, 2); break;
        case L_POOL: l.kh = g.i(1, 3); l.s = g.i(1, 3); l.p = l.kh > 1 ? g.i(0, 1) : 0; break; case L_BN: l.a = g.i(1, 4); eval = g.flip(25); break; case L_DROP: l.rate = 0.5; eval = g.flip(25); break; case L_ACT: l.act = (int)g.draw(A_COUNT); break; default:; }
    RandomEngine::setSeed(seed); auto A = make<T>(l); RandomEngine::setSeed(seed); auto B = make<T>(l); if (eval) { A->setTrainingMode(false); B->setTrainingMode(false); }
    static const char* kn[] = {"fully connected", "convolution", "pooling", "batch norm", "dropout", "flatten", "activation layer"}; g.label(kn[l.k]); int steps = histLen(g, 2, 9), misuses = 0, good = 0; Dims in, out; bool fwd = false, bwd = false, hasParams = l.k == L_FC || l.k == L_CONV || l.k == L_BN; NOTE(g, str(l) << (eval ? " in evaluation mode" : ""));
    auto validIn = [&]() -> Dims { switch (l.k) { case L_FC: return g.flip(30) ? Dims{l.a} : Dims{g.i(1, 4), l.a}; case L_CONV: { int h = l.dl * (l.kh - 1) + 1, w = l.dl * (l.kw - 1) + 1; return {g.i(1, 2), l.a, g.i(std::max(1, h - 2 * l.p), h + 2), g.i(std::max(1, w - 2 * l.p), w + 2)}; }
        case L_POOL: return {g.i(1, 2), g.i(1, 2), g.i(std::max(1, l.kh - 2 * l.p), 5), g.i(std::max(1, l.kh - 2 * l.p), 5)}; case L_BN: return g.flip(50) ? Dims{g.i(1, 4), l.a} : Dims{g.i(1, 3), l.a, g.i(1, 3), g.i(1, 3)};
        case L_DROP: return genDims(g, 1, 4, 40); case L_FLAT: return genDims(g, 2, 4, 40); default: return genDims(g, l.act == A_SOFTMAX ? 2 : 1, 4, 40); } };
    StepOpt<T> opt; uint32_t es = g.seed32();
    auto doFwd = [&](const Dims& d) { Arr<T> x = vals<T>(g, d); RandomEngine::setSeed(++es); Arr<T> a = snap(A->forward(mk(x))); RandomEngine::setSeed(es); Arr<T> b = snap(B->forward(mk(x))); same(a, b, "forward of " + str(l) + " after a rejected call, against a layer never misused"); in = d; out = a.d; fwd = true; good++; };
    auto doBwd = [&] { Arr<T> q = vals<T>(g, out); same(snap(A->backward(mk(q))), snap(B->backward(mk(q))), "backward of " + str(l) + " after a rejected call, against a layer never misused"); bwd = true; good++; };
    auto doUpd = [&] { A->updateWeights(opt); B->updateWeights(opt); same(params(A.get()), params(B.get()), "parameters of " + str(l) + " after an update"); };
    bool canBwd = !(eval && (l.k == L_BN || l.k == L_DROP));
    for (int k = 0; k < steps; k++) {
        int what = g.pick({20, canBwd ? 20 : 0, 10, 50});
        if (what == 0) { Dims d = validIn(); NOTE(g, "  forward " << str(d)); doFwd(d); }
        else if (what == 1) { if (fwd) { NOTE(g, "  backward"); doBwd(); } }
        else if (what == 2) { if (bwd || !hasParams) { NOTE(g, "  update"); doUpd(); } }
        else {
            Arr<T> before = params(A.get()); std::string did; int m = (int)g.draw(3);
            if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(A.get()); f && g.flip(12)) {
                Dims d = g.flip(50) ? Dims{g.i(2, 3), l.b} : g.flip(50) ? Dims{l.b} : Dims{1, 1, l.b}; if (d.size() == 2 && g.flip(30)) d = {l.b + 1, 1}; did = "biases of shape " + str(d); NOTE(g, "  rejected " << did); rejected([&] { f->setBiases(mk(vals<T>(g, d))); }, did + " for " + str(l)); misuses++;
                same(params(A.get()), before, "parameters of " + str(l) + " after rejected " + did); continue;
            }
            if (m == 0) { // a rejected forward
                Dims d; switch (l.k) {
                    case L_FC: d = g.flip(50) ? Dims{l.a + g.i(1, 2)} : Dims{g.i(1, 3), l.a + g.i(1, 2)}; if (l.a > 1 && g.flip(50)) d.back() = l.a - 1; break;
                    case L_CONV: d = validIn(); switch (g.draw(3)) { case 0: d = genDims(g, 1, 6, 40); if (d.size() == 4) d.push_back(2); break; case 1: d[1] = l.a > 1 && g.flip(50) ? l.a - 1 : l.a + 1; break; default: { int q = g.flip(50) ? 2 : 3, need = l.dl * ((q == 2 ? l.kh : l.kw) - 1) + 1 - 2 * l.p - 1; if (need < 1) { d = {1, l.a + 1, 3, 3}; } else d[q] = g.i(1, need); } } break;
                    case L_POOL: d = validIn(); { int need = l.kh - 2 * l.p - 1; if (need >= 1 && g.flip(60)) { d[g.flip(50) ? 2 : 3] = g.i(1, need); break; } } d = genDims(g, 1, 6, 40); if (d.size() == 4) d.pop_back(); break;
                    case L_BN: { static const int r[] = {1, 3, 5}; int n = r[g.draw(3)]; d = genDims(g, n, n, 40); if (g.flip(50)) d[std::min(1, n - 1)] = l.a; break; }
                    case L_FLAT: d = {g.i(1, 12)}; break;
                    case L_ACT: if (l.act != A_SOFTMAX) continue; d = {g.i(1, 12)}; break;
                    default: continue; }
                did = "forward with an input of shape " + str(d); NOTE(g, "  rejected " << did); Arr<T> x = vals<T>(g, d); Tensor<T> X = mk(x); rejected([&] { A->forward(X); }, did + " to " + str(l)); checkBits(X, x, "the rejected input"); misuses++;
            } else if (m == 1) { // a rejected backward
                if (!canBwd) continue; Dims d;
                if (!fwd) { d = genDims(g, 1, 4, 40); if (g.flip(50)) { d = validIn(); } did = "backward before any forward"; }
                else { d = otherDims(g, out); if (g.flip(15)) d = genDims(g, 1, 5, 60);
                    if (d == out) continue; if (l.k == L_FC && d.size() == 1 && Dims{1, d[0]} == (out.size() == 1 ? Dims{1, out[0]} : out)) continue; if (l.k == L_FC && out.size() == 1 && d == Dims{1, out[0]}) continue;
                    if (l.k == L_FLAT && numel(d) == numel(out)) continue; if (l.k == L_ACT && l.act != A_SOFTMAX && broadcastable(d, out)) continue; did = "backward with a gradient of shape " + str(d) + " for an output of shape " + str(out); }
                NOTE(g, "  rejected " << did); Arr<T> q = vals<T>(g, d); Tensor<T> Q = mk(q); rejected([&] { A->backward(Q); }, did + " of " + str(l)); checkBits(Q, q, "the rejected gradient"); misuses++;
            } else { if (bwd || !hasParams) continue; did = "update before any backward"; NOTE(g, "  rejected " << did); rejected([&] { A->updateWeights(opt); }, did + " of " + str(l)); misuses++; }
            same(params(A.get()), before, "parameters of " + str(l) + " after rejected " + did);
        }
    }
    // and now normal use, whatever happened before
    NOTE(g, "  finally forward, backward, update"); if (canBwd && fwd && g.flip(50)) doBwd(); doFwd(validIn()); if (canBwd) { doBwd(); doUpd(); } doFwd(validIn());
    if (misuses) { g.nontrivial(); g.label(good > 4 ? "misuse within longer use" : "misuse"); }
}
template <class T> static void activations(Gen& g) {
    int k = (int)g.draw(A_COUNT); T al = T(0.1); auto a = mkAct<T>(k, al); g.label("activation objects"); g.nontrivial(); NOTE(g, actName[k] << " object");
    for (int r = 0; r < 3; r++) {
        Dims d = genDims(g, k == A_SOFTMAX ? 2 : 1, 4, 40), q = otherDims(g, d); Arr<T> x = vals<T>(g, d), gr = vals<T>(g, q); Tensor<T> X = mk(x), G = mk(gr);
        if (q != d && (k == A_SOFTMAX || !broadcastable(q, d))) rejected([&] { a->backward(X, G); }, std::string(actName[k]) + " backward with a gradient of shape " + str(q) + " for an input of shape " + str(d));
        if (k == A_SOFTMAX) { Tensor<T> v = mk(vals<T>(g, {g.i(1, 9)})); rejected([&] { a->forward(v); }, "softmax of a rank-1 tensor"); rejected([&] { a->backward(v, v); }, "softmax backward of a rank-1 tensor"); }
        checkBits(X, x, "the input of a rejected backward"); checkBits(G, gr, "the gradient of a rejected backward"); auto b = mkAct<T>(k, al); same(snap(a->forward(X)), snap(b->forward(X)), std::string(actName[k]) + " after a rejected call"); Tensor<T> ok = mk(vals<T>(g, d)); same(snap(a->backward(X, ok)), snap(b->backward(X, ok)), std::string(actName[k]) + " backward after a rejected call");
    }
}
template <class T> static void model(Gen& g) {
    g.label("model"); bool ce = g.flip(35); StackOpts so; so.own = false; Stack s = genStack(g, ce ? 1 : 0, so); AnyOpt<T> o; o.k = g.i(0, 2); uint32_t seed = g.seed32(), es = g.seed32(); uint64_t st = g.seed32(); bool hasP = false, bn = false; for (auto& l : s.l) { hasP |= l.k == L_FC || l.k == L_CONV || l.k == L_BN; bn |= l.k == L_BN; }
    RandomEngine::setSeed(seed); SmartDNN<T> A; build(A, s); RandomEngine::setSeed(seed); SmartDNN<T> B; build(B, s); bool compiled = false, passed = false, bwd = false; int misuses = 0; NOTE(g, "model " << str(s) << (ce ? " cross-entropy" : " mse") << " optimizer " << o.k);
    auto sample = [&](int b, bool out) { Arr<T> x{withBatch(s, b, out), {}}; size_t n = numel(x.d); for (size_t k = 0; k < n; k++) x.v.push_back(out && ce ? T((int)(k % s.out[0]) == (int)((k / s.out[0]) % s.out[0])) : (T)gauss(st)); return x; };
    auto all = [&](SmartDNN<T>& m) { Arr<T> r{{1}, {}}; for (size_t k = 0; k < s.l.size(); k++) { auto p = params(m.getLayer(k)); r.v.insert(r.v.end(), p.v.begin(), p.v.end()); } r.d[0] = (int)r.v.size(); return r; };
    auto data = [&](int n, std::vector<Tensor<T>>& X, std::vector<Tensor<T>>& Y) { for (int i = 0; i < n; i++) { int b = s.rank1 ? 1 : g.i(1, 3); X.push_back(mk(sample(b, false))); Y.push_back(mk(sample(b, true))); } };
    auto trainBoth = [&](int ep) { std::vector<Tensor<T>> X, Y; data(g.i(1, 3), X, Y); es++; std::string a, b; { RandomEngine::setSeed(es); Capture c; A.train(X, Y, ep); a = c.finish(); } { RandomEngine::setSeed(es); Capture c; B.train(X, Y, ep); b = c.finish(); } PCHECK(a == b, "train after rejected calls reports '" << a << "', a model never misused reports '" << b << "'"); same(all(A), all(B), "parameters trained after rejected calls, against a model never misused"); passed = true; if (ep > 0) bwd = true; };
    auto compile = [&] { compileWith(A, ce, o); compileWith(B, ce, o); compiled = true; };
    bool stats = true; // do both models hold the same running statistics?
    int steps = g.i(2, 8);
    for (int k = 0; k < steps; k++) {
        Arr<T> before = all(A); std::string did; std::vector<Tensor<T>> X, Y;
        auto bad = [&](auto&& f, const std::string& w) { NOTE(g, "  rejected " << w); did = w; { Capture c; rejected(f, w); } misuses++; };
        switch (g.draw(10)) {
            case 0: if (!compiled) { NOTE(g, "  compile"); compile(); } continue;
            case 1: if (compiled) { int ep = g.i(1, 2); NOTE(g, "  train " << ep << " epochs"); trainBoth(ep); } continue;
            case 2: if (!compiled) { data(g.i(1, 2), X, Y); bad([&] { A.train(X, Y, 1); }, "training an uncompiled model"); } else continue; break;
            case 3: { int n = g.i(0, 3); data(n, X, Y); if (g.flip(50) && n) X.pop_back(); else X.push_back(mk(sample(1, false))); if (g.flip(30)) std::swap(X, Y); bad([&] { A.train(X, Y, g.i(1, 2)); }, "training with " + std::to_string(X.size()) + " inputs and " + std::to_string(Y.size()) + " targets"); break; }
            case 4: bad([&] { A.train(X, Y, g.i(1, 3)); }, "training on no samples"); break;
            case 5: if (passed) continue; bad([&] { A.backward(mk(sample(1, true))); }, "backward of the model before any forward"); break;
            case 6: if (!compiled) { if (!hasP) continue; bad([&] { A.updateWeights(); }, "updateWeights of an uncompiled model"); } else { if (bwd || !hasP) continue; bad([&] { A.updateWeights(); }, "updateWeights before any backward"); } break;
            case 7: { if (!compiled) continue; data(1, X, Y); Dims d = snap(Y[0]).d; d.back() += g.i(1, 2); Y[0] = Tensor<T>(Shape(d), T(1)); bad([&] { A.train(X, Y, 1); }, "training with a target of shape " + str(d) + " for an output of shape " + str(withBatch(s, snap(X[0]).d[0], true))); passed = true; stats &= !bn; break; }
            case 8: { size_t n = s.l.size(), at = g.flip(60) ? n : g.flip(60) ? n + 1 + g.draw(40) : (size_t)-1 - g.draw(3); bad([&] { (void)A.getLayer(at); }, "getLayer(" + std::to_string(at) + ") of a model of " + std::to_string(n) + " layers"); for (size_t k = 0; k < n; k++) PCHECK(A.getLayer(k), "no layer " << k); break; }
            default: { Dims d = otherDims(g, withBatch(s, g.i(1, 2))); if (g.flip(30)) d = genDims(g, 1, 5, 40); did = "predict with an input of shape " + str(d); NOTE(g, "  " << did); try { A.predict(mk(vals<T>(g, d))); g.label("odd input accepted"); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { misuses++; } passed = true; stats &= !bn; }
        }
        same(all(A), before, "parameters after rejected " + did);
    }
    if (!compiled) { NOTE(g, "  compile"); compile(); }
    NOTE(g, "  finally train and predict"); trainBoth(g.i(1, 2)); if (stats) { A.evalMode(); B.evalMode(); } Tensor<T> x = mk(sample(2, false)); es++; RandomEngine::setSeed(es); Arr<T> a = snap(A.predict(x)); RandomEngine::setSeed(es); same(a, snap(B.predict(x)), "prediction after rejected calls, against a model never misused");
    if (misuses) g.nontrivial();
}
template <class T> static void run(Gen& g) { switch (g.pick({60, 10, 30})) { case 0: layers<T>(g); break; case 1: activations<T>(g); break; default: model<T>(g); } }
TWO_TYPES(run)
