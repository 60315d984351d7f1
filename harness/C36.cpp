// C36: when the memory for elements cannot be had, calls end in an exception, damage nothing and can be repeated
#include "alloc.hpp"
#include "C29gen.hpp"
#include "memfile.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include <dirent.h>

enum End { DONE, NOMEM };
// runs f with one failing request; memory may only be reported missing by an exception
template <class F> static End starved(F&& f, long at, bool persist) {
    mem::Arm a(at, persist);
    try { f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { return NOMEM; }
    return DONE;
}
template <class F> static long requests(F&& f) { mem::Arm a(-1); f(); return mem::seen; }
template <class F> static bool tryIt(F&& f) { try { f(); return true; } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { return false; } }
static int openFiles() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
// which requests to refuse: all of a few, some of many
static std::vector<long> points(Gen& g, long n) { std::vector<long> r; if (n <= 6) for (long k = 0; k < n; k++) r.push_back(k); else { r = {0, n - 1}; for (int k = 0; k < 4; k++) r.push_back((long)g.draw((uint64_t)n)); } return r; }
template <class T> static void same(const Arr<T>& got, const Arr<T>& want, const std::string& what) {
    PCHECK(got.d == want.d, what << ": shape " << str(got.d) << ", expected " << str(want.d));
    for (size_t i = 0; i < want.n(); i++) PCHECK(sameBits(got.v[i], want.v[i]) || (got.v[i] != got.v[i] && want.v[i] != want.v[i]), what << ": element " << i << " is " << got.v[i] << ", expected " << want.v[i]);
}
static Dims bigDims(Gen& g, int lo = 1, int hi = 4) { Dims d = genDims(g, lo, hi, 12); int n = g.i(130, 700); size_t k = g.draw(d.size()); d[k] = std::max(1, n / (int)(numel(d) / d[k])); return d; }

// ---- every operation on fresh objects: fails cleanly, nothing stays allocated, works again afterwards
static void operations(Gen& g) {
    g.label("operations"); OpIn o; bool e; double K; genOp(g, o, e, K, -1, 1100); std::string sh; for (auto& d : o.d) sh += str(d); bool persist = g.flip(40); NOTE(g, opName[o.op] << " variant " << o.sub << sh << (o.dbl ? " double" : " float") << (persist ? ", from one request on all fail" : ", one request fails"));
    OpOut want; performOp(o, want); long n = requests([&] { OpOut r; performOp(o, r); }); if (!n) { g.label("no large request"); return; }
    mem::tracking = false; long long bytes, blocks; { mem::Track t; OpOut r; performOp(o, r); } bytes = mem::bytes; blocks = mem::blocks;
    for (long at : points(g, n)) {
        bool threw; { mem::Track t; OpOut r; { mem::Arm a(at, persist); performOp(o, r); threw = r.threw; } if (!threw) PCHECK(r.d == want.d && r.v.size() == want.v.size(), opName[o.op] << " on " << sh << " gave other results when request " << at << " of " << n << " failed"); 
            if (!threw && !want.threw) for (size_t k = 0; k < r.v.size(); k++) for (size_t i = 0; i < r.v[k].size(); i++) PCHECK(sameBits(r.v[k][i], want.v[k][i]) || r.v[k][i] != r.v[k][i], opName[o.op] << " on " << sh << " silently gave another result when request " << at << " of " << n << " for memory failed"); }
        PCHECK(mem::bytes <= bytes && mem::blocks <= blocks, opName[o.op] << " on " << sh << " left " << mem::bytes - bytes << " bytes behind when request " << at << " of " << n << " failed");
        OpOut r; performOp(o, r); PCHECK(r.threw == want.threw && r.d == want.d && r.v == want.v, opName[o.op] << " on " << sh << " does not give the same results again after a failed attempt");
    }
    g.nontrivial();
}
// ---- tensors: operands keep their elements, the target has its old or its new value
template <class T> static void tensors(Gen& g) {
    g.label("tensors"); Dims d = bigDims(g); Arr<T> a = genArr<T>(g, d, V_NORMAL), b = genArr<T>(g, g.flip(60) ? d : bigDims(g), V_NORMAL); int steps = histLen(g, 1, 6); bool any = false;
    Tensor<T> x = mk(a), y = mk(b);
    for (int s = 0; s < steps; s++) {
        int what = (int)g.draw(15); bool persist = g.flip(40); NOTE(g, "operation " << what << " on " << str(a.d) << " and " << str(b.d) << "; "); Dims nd = bigDims(g); Arr<T> c = genArr<T>(g, nd, V_NORMAL); int ax = (int)g.draw(a.d.size()), ix = (int)g.draw(a.d[ax]);
        TensorData<T, CPUDevice> data = mk(c).getData(); std::vector<T> moved;
        auto act = [&](Tensor<T>& X, Tensor<T>& Y) { switch (what) {
            case 0: X = Y; break; case 1: { Tensor<T> t(Y); X = std::move(t); break; } case 2: X += Y; break; case 3: X -= Y; break; case 4: X *= Y; break; case 5: X /= Y; break; case 6: X = X + Y; break; case 7: X *= T(1.5); break; case 8: X.apply([](T v) { return v / T(2) + T(1); }); break;
            case 9: X = Tensor<T>(Shape(nd), c.v); break; case 10: X = X.slice(ax, ix); break; case 11: X.getData() = data; break; case 12: X = AdvancedTensorOperations<T>::transpose(X, 0, ax); break; case 13: X = Tensor<T>(data); break; default: X = -X; } };
        Tensor<T> x2 = mk(a), y2 = mk(b); bool ok = tryIt([&] { act(x2, y2); }); Arr<T> after = snap(x2); long n = requests([&] { Tensor<T> x3 = mk(a); Tensor<T> y3 = mk(b); mem::seen = 0; tryIt([&] { act(x3, y3); }); });
        for (long at : points(g, n)) {
            any = true; End end = starved([&] { act(x, y); }, at, persist); Arr<T> now = snap(x); checkBits(y, b, "the other operand after a failed operation");
            bool old = now.d == a.d && now.n() == a.n() && std::equal(now.v.begin(), now.v.end(), a.v.begin(), [](T p, T q) { return sameBits(p, q) || (p != p && q != q); }), fresh = ok && now.d == after.d && now.n() == after.n() && std::equal(now.v.begin(), now.v.end(), after.v.begin(), [](T p, T q) { return sameBits(p, q) || (p != p && q != q); });
            PCHECK(old || fresh, "operation " << what << " ran out of memory at request " << at << " of " << n << " and left its target neither as it was nor complete: shape " << str(now.d) << ", was " << str(a.d));
            PCHECK(end == NOMEM || fresh || !ok, "operation " << what << " did not report that request " << at << " of " << n << " failed"); if (fresh && !old) x = mk(a);
        }
        if (ok) { act(x, y); same(snap(x), after, "operation " + std::to_string(what) + " repeated after running out of memory"); a = after; if (a.n() < 128 || a.n() > 20000) { a = genArr<T>(g, d, V_NORMAL); x = mk(a); } for (T& v : a.v) if (!std::isfinite(v)) { v = T(1); } x = mk(a); }
    }
    if (any) g.nontrivial();
}
// ---- more elements than any memory holds
template <class T> static void huge(Gen& g) {
    g.label("unobtainable sizes"); static const std::vector<Dims> ds = {{65536, 65536}, {46341, 46341}, {100000, 100000}, {2147483647, 2}, {2147483647, 2147483647}, {1 << 20, 1 << 20, 1 << 20}, {3000, 3000, 3000}, {2, 2147483647, 1}, {1, 1 << 16, 1, 1 << 16}, {1 << 30, 1 << 30, 2}, {1 << 30, 1 << 30, 3, 1}, {2147483647, 5, 2147483647}};
    Dims d = ds[g.draw(ds.size())]; int what = (int)g.draw(14); int a = g.i(47000, 100000), b = g.i(47000, 100000); NOTE(g, "creation " << what << " of shape " << str(d) << " or size " << a << "x" << b); std::vector<T> some{T(1), T(2), T(3)}; Arr<T> col{{a, 1}, std::vector<T>(a, T(0.5))}, row{{1, b}, std::vector<T>(b, T(2))}; Tensor<T> c = mk(col), r = mk(row), keep = mk(col); std::vector<Tensor<T>> none;
    long long before; { mem::Track t; } before = mem::bytes; int at = -1;
    bool threw = pbt::throws([&] { mem::Track t; switch (what) {
        case 0: { Tensor<T> x{Shape(d)}; at = (int)x.getShape().size(); break; } case 1: { Tensor<T> x(Shape(d), T(2)); at = 1; break; } case 2: { Tensor<T> x(Shape(d), some); at = 1; break; } case 3: { Tensor<T> x = Tensor<T>::ones(Shape(d)); at = 1; break; } case 4: { Tensor<T> x = Tensor<T>::zeros(Shape(d)); at = 1; break; }
        case 5: { Tensor<T> x = Tensor<T>::rand(Shape(d)); at = 1; break; } case 6: { Tensor<T> x = Tensor<T>::randn(Shape(d), T(-1), T(1)); at = 1; break; } case 7: { Tensor<T> x = Tensor<T>::identity(a); at = 1; break; } case 8: { Tensor<T> x = c + r; at = 1; break; } case 9: { Tensor<T> x = AdvancedTensorOperations<T>::matmul(c, r); at = 1; break; }
        case 10: { FullyConnectedLayer<T> l(a, b); at = 1; break; } case 11: { SmartDNN<T> m; m.addLayer(FullyConnectedLayer<T>(a, b)); at = 1; break; } case 12: { keep = Tensor<T>(Shape(d), T(1)); at = 1; break; } default: { TensorData<T, CPUDevice> x{Shape(d)}; at = 1; } } });
    (void)at; PCHECK(threw, "creation " << what << " of " << str(d) << " or " << a << "x" << b << " elements was accepted"); PCHECK(mem::bytes <= before, "a rejected creation left " << mem::bytes - before << " bytes behind");
    checkBits(c, col, "operand of a rejected operation"); checkBits(r, row, "operand of a rejected operation"); checkBits(keep, col, "target of a rejected assignment"); g.nontrivial();
}
template <class T> struct EighthOpt : Optimizer<T> { // w -= g/8
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& gr, T = T(-1)) override { for (size_t k = 0; k < w.size(); k++) { PCHECK(w[k].get().getShape().size() == gr[k].get().getShape().size(), "a layer recorded a gradient whose size is not its parameter's"); for (size_t i = 0; i < w[k].get().getShape().size(); i++) w[k].get()[i] -= gr[k].get()[i] / T(8); } }
};
// ---- layers: a pass that ran out of memory can be repeated, and then all is as in a twin that never did
template <class T> static void layer(Gen& g) {
    LDesc l; l.k = (LK)g.draw(7); static const char* kn[] = {"fully connected", "convolution", "pooling", "batch norm", "dropout", "flatten", "activation layer"}; g.label(kn[l.k]);
    switch (l.k) { case L_FC: l.a = g.i(1, 24); l.b = g.i(1, 24); break; case L_CONV: l.a = g.i(1, 3); l.b = g.i(1, 3); l.kh = g.i(1, 3); l.kw = g.i(1, 3); l.s = g.i(1, 2); l.p = g.i(0, 1); l.dl = g.i(1, 2); break;
        case L_POOL: l.kh = g.i(1, 3); l.s = g.i(1, 2); l.p = l.kh > 1 ? g.i(0, 1) : 0; break; case L_BN: l.a = g.i(1, 5); break; case L_DROP: l.rate = 0.5; break; case L_ACT: l.act = (int)g.draw(A_COUNT); break; default:; }
    auto dims = [&]() -> Dims { switch (l.k) { case L_FC: return {g.i(1, 10) * std::max(1, 130 / std::max(l.a, l.b)) / 2 + 1, l.a}; case L_CONV: return {g.i(1, 2), l.a, l.dl * (l.kh - 1) + g.i(6, 12), l.dl * (l.kw - 1) + g.i(6, 12)}; case L_POOL: return {g.i(1, 2), g.i(1, 3), l.kh + g.i(6, 12), l.kh + g.i(6, 12)};
        case L_BN: return g.flip(50) ? Dims{g.i(20, 200), l.a} : Dims{g.i(1, 3), l.a, g.i(5, 9), g.i(5, 9)}; case L_ACT: if (l.act == A_SOFTMAX) return {g.i(2, 20), g.i(10, 40)}; return bigDims(g); case L_FLAT: return bigDims(g, 2, 4); default: return bigDims(g); } };
    uint32_t seed = g.seed32(), es = seed; NOTE(g, str(l)); RandomEngine::setSeed(seed); auto A = layerOf<T>(l); RandomEngine::setSeed(seed); auto B = layerOf<T>(l); EighthOpt<T> opt; bool params = l.k == L_FC || l.k == L_CONV || l.k == L_BN, any = false, fwd = false, bwd = false; int steps = histLen(g, 2, 8); Dims out, in;
    Tensor<T> lastGrad = mk(Arr<T>{{1}, {T(1)}});
    auto starve = [&](auto f, const std::string& what, bool poke) { // f on A
        auto C = [&] { RandomEngine::setSeed(es); f(*B); }; (void)C; long n = 3; std::vector<long> at; if (g.flip(70)) at.push_back((long)g.draw(n)); if (g.flip(30)) at.push_back((long)g.draw(12)); bool persist = g.flip(40);
        for (long k : at) { RandomEngine::setSeed(es); End e = starved([&] { f(*A); }, k, persist); if (e == NOMEM) { any = true; NOTE(g, what << " fails at request " << k << "; "); if (poke && g.flip(30)) { tryIt([&] { A->backward(lastGrad); }); g.label("backward after a failed forward"); } } }
    };
    for (int s = 0; s < steps; s++) {
        int what = s == 0 ? 0 : g.pick({45, 35, 20});
        if (what == 0) { in = dims(); Tensor<T> x = mk(genArr<T>(g, in, V_NORMAL)); Arr<T> keep = snap(x); ++es; NOTE(g, "forward " << str(in) << "; "); starve([&](Layer<T>& q) { q.forward(x); }, "forward", fwd); checkBits(x, keep, "the input of a failed forward");
            // a pass that was interrupted may have counted in the running statistics, so batch norm is only compared while training
            RandomEngine::setSeed(es); Arr<T> a = snap(A->forward(x)); RandomEngine::setSeed(es); Arr<T> b = snap(B->forward(x)); same(a, b, "forward of " + str(l) + " repeated after running out of memory, against a layer that never did"); out = b.d; fwd = true; bwd = false; lastGrad = mk(genArr<T>(g, out, V_NORMAL)); }
        else if (what == 1 && fwd) { Tensor<T> q = mk(genArr<T>(g, out, V_NORMAL)); Arr<T> keep = snap(q); NOTE(g, "backward; "); starve([&](Layer<T>& y) { y.backward(q); }, "backward", false); checkBits(q, keep, "the gradient of a failed backward"); same(snap(A->backward(q)), snap(B->backward(q)), "backward of " + str(l) + " repeated after running out of memory, against a layer that never did"); bwd = true; }
        else if (what == 2 && bwd && params) { A->updateWeights(opt); B->updateWeights(opt); NOTE(g, "update; ");
            if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(A.get())) { auto* h = dynamic_cast<FullyConnectedLayer<T>*>(B.get()); same(snap(f->getWeights()), snap(h->getWeights()), "weights after an update"); same(snap(f->getBiases()), snap(h->getBiases()), "biases after an update"); }
            if (auto* f = dynamic_cast<Conv2DLayer<T>*>(A.get())) { auto* h = dynamic_cast<Conv2DLayer<T>*>(B.get()); same(snap(f->getWeights()), snap(h->getWeights()), "weights after an update"); same(snap(f->getBiases()), snap(h->getBiases()), "biases after an update"); } }
    }
    if (any) g.nontrivial();
}
// ---- optimizers: an update that ran out of memory did not happen, and can be repeated
template <class T> static void optimizer(Gen& g) {
    g.label("optimizer"); int k = g.i(0, 2), n = g.i(1, 3), steps = histLen(g, 1, 10); bool any = false; SGDOptions<T> so; so.momentum = g.flip(60) ? T(0.9) : T(0); so.nesterov = g.flip(50); so.weightDecay = g.flip(50) ? T(0.01) : T(0); RMSPropOptions<T> ro; ro.momentum = g.flip(50) ? T(0.9) : T(0); ro.centered = g.flip(50); AdamOptions<T> ao; ao.decay = g.flip(50) ? T(0.1) : T(0);
    auto make = [&]() -> std::unique_ptr<Optimizer<T>> { if (k == 0) return std::make_unique<SGDOptimizer<T>>(so); if (k == 1) return std::make_unique<RMSPropOptimizer<T>>(ro); return std::make_unique<AdamOptimizer<T>>(ao); };
    auto A = make(), B = make(); std::vector<std::unique_ptr<Tensor<T>>> pa, pb; for (int i = 0; i < n; i++) { Arr<T> a = genArr<T>(g, bigDims(g, 1, 3), V_NORMAL); pa.push_back(std::make_unique<Tensor<T>>(mk(a))); pb.push_back(std::make_unique<Tensor<T>>(mk(a))); } NOTE(g, "optimizer " << k << " with " << n << " parameters; ");
    for (int s = 0; s < steps; s++) {
        int i = (int)g.draw(n); if (g.flip(8)) { Arr<T> a = genArr<T>(g, bigDims(g, 1, 3), V_NORMAL); *pa[i] = mk(a); *pb[i] = mk(a); NOTE(g, "parameter " << i << " becomes " << str(a.d) << "; "); } Arr<T> before = snap(*pa[i]); Tensor<T> q = mk(genArr<T>(g, before.d, V_NORMAL)); T lr = g.flip(20) ? T(0.125) : T(-1); int tries = g.pick({30, 50, 20});
        for (int r = 0; r < tries; r++) { long at = (long)g.draw(4); Arr<T> keep = snap(q); End e = starved([&] { A->optimize({std::ref(*pa[i])}, {std::ref(q)}, lr); }, at, g.flip(40)); checkBits(q, keep, "the gradient of a failed update");
            if (e == DONE) { B->optimize({std::ref(*pb[i])}, {std::ref(q)}, lr); before = snap(*pb[i]); } else { any = true; NOTE(g, "update of " << i << " fails at request " << at << "; "); } same(snap(*pa[i]), before, e == DONE ? "a parameter after its update" : "a parameter whose update ran out of memory"); }
        A->optimize({std::ref(*pa[i])}, {std::ref(q)}, lr); B->optimize({std::ref(*pb[i])}, {std::ref(q)}, lr);
        for (int j = 0; j < n; j++) same(snap(*pa[j]), snap(*pb[j]), "parameter " + std::to_string(j) + " of optimizer " + std::to_string(k) + " after an update repeated for lack of memory, against an optimizer that never lacked it");
    }
    if (any) g.nontrivial();
}
// ---- losses, predictions, training, data files
template <class T> static void model(Gen& g) {
    g.label("model"); StackOpts o; o.bn = false; o.maxConv = 3; o.maxDense = 3; Stack s = genStack(g, 0, o); if (s.rank1) s.rank1 = false; AnyOpt<T> ao; ao.k = (int)g.draw(3); ao.s.learningRate = T(0.001); ao.r.learningRate = T(0.0001); ao.a.learningRate = T(0.0001); bool any = false;
    SmartDNN<T> m; build(m, s); compileWith(m, false, ao); int b = std::max<int>(2, 150 / (int)std::max(numel(s.in), numel(s.out))) + g.i(0, 5); Tensor<T> x = mk(genArr<T>(g, withBatch(s, b), V_NORMAL)), y = mk(genArr<T>(g, withBatch(s, b, true), V_NORMAL)); NOTE(g, str(s) << ", batch of " << b << ", optimizer " << ao.k << "; ");
    int steps = histLen(g, 1, 5);
    for (int k = 0; k < steps; k++) {
        long at = (long)g.draw(g.flip(30) ? 400 : 30); bool persist = g.flip(40);
        switch (g.draw(4)) {
            case 0: { m.evalMode(); Arr<T> want = snap(m.predict(x)); Arr<T> xb = snap(x); End e = starved([&] { Tensor<T> r = m.predict(x); (void)r; }, at, persist); any = any || e == NOMEM; same(snap(m.predict(x)), want, "a prediction repeated after running out of memory"); checkBits(x, xb, "the input of a failed prediction"); m.trainingMode(); NOTE(g, "predict fails at " << at << "; "); break; }
            case 1: { m.evalMode(); std::vector<Tensor<T>> xs{x, y, x}; xs[1] = x; Arr<T> want = snap(m.predict(x)); End e = starved([&] { auto r = m.predict(xs); (void)r; }, at, persist); any = any || e == NOMEM; auto r = m.predict(xs); for (auto& q : r) same(snap(q), want, "predictions repeated after running out of memory"); m.trainingMode(); break; }
            case 2: { MSELoss<T> L; CategoricalCrossEntropyLoss<T> C; Tensor<T> p = mk(genArr<T>(g, {g.i(20, 60), g.i(3, 9)}, V_NORMAL)); Tensor<T> t = mk(genArr<T>(g, snap(p).d, V_NORMAL)); Loss<T>* loss = g.flip(50) ? (Loss<T>*)&L : (Loss<T>*)&C; Arr<T> gw = snap(loss->gradient(p, t)), cw = snap(loss->compute(p, t)), pb = snap(p); for (long q = 0; q < 4; q++) { End e = starved([&] { loss->compute(p, t); }, q, persist); End f = starved([&] { loss->gradient(p, t); }, q, persist); any = any || e == NOMEM || f == NOMEM; } checkBits(p, pb, "the prediction given to a loss"); same(snap(loss->gradient(p, t)), gw, "a loss gradient repeated after running out of memory"); same(snap(loss->compute(p, t)), cw, "a loss repeated after running out of memory"); break; }
            default: { // interrupted training: whatever was learnt so far stays a usable model
                Arr<T> xb = snap(x), yb = snap(y); { Capture c; End e = starved([&] { m.train({x}, {y}, 2); }, at, persist); c.finish(); any = any || e == NOMEM; } checkBits(x, xb, "the training input"); checkBits(y, yb, "the training target"); NOTE(g, "training fails at " << at << "; "); { Capture c; m.train({x}, {y}, 1); c.finish(); }
                m.evalMode(); Arr<T> p = snap(m.predict(x)); PCHECK(p.d == withBatch(s, b, true), "prediction of shape " << str(p.d) << " after an interrupted training"); m.trainingMode(); }
        }
    }
    if (any) g.nontrivial();
}
template <class T> static void loader(Gen& g) {
    g.label("loader"); int n = g.i(1, 30), rows = g.i(4, 12), cols = g.i(4, 12), bs = g.i(1, 32); uint64_t st = g.seed32(); std::string im = be(2051) + be(n) + be(rows) + be(cols), lb = be(2049) + be(n); for (int i = 0; i < n * rows * cols; i++) im += (char)pbt::splitmix(st); for (int i = 0; i < n; i++) lb += (char)(pbt::splitmix(st) % 10);
    MemFile fi(im), fl(lb); NOTE(g, n << " images of " << rows << "x" << cols << " in batches of " << bs); MNISTLoader<T> L(fi.path(), fl.path(), bs); auto want = L.loadData(); long reqs = requests([&] { L.loadData(); }); { mem::Track t; L.loadData(); } long long bytes = mem::bytes; int files = openFiles(); bool any = false;
    auto check = [&](std::pair<std::vector<Tensor<T>>, std::vector<Tensor<T>>>& got, const std::string& what) { PCHECK(got.first.size() == want.first.size() && got.second.size() == want.second.size(), what << " gives " << got.first.size() << " batches"); for (size_t i = 0; i < want.first.size(); i++) { same(snap(got.first[i]), snap(want.first[i]), what); same(snap(got.second[i]), snap(want.second[i]), what); } };
    for (long at : points(g, reqs)) { bool persist = g.flip(40); std::pair<std::vector<Tensor<T>>, std::vector<Tensor<T>>> got; End e; { mem::Track t; e = starved([&] { auto r = L.loadData(); mem::armed = false; mem::Track off(false); got = r; }, at, persist); } if (e == DONE) check(got, "data loaded although request " + std::to_string(at) + " for memory failed"); else any = true;
        PCHECK(mem::bytes <= bytes, "loading that ran out of memory at request " << at << " of " << reqs << " left " << mem::bytes - bytes << " bytes behind"); PCHECK(openFiles() <= files, "loading that ran out of memory left a file open"); }
    auto again = L.loadData(); check(again, "data loaded after running out of memory"); if (any) g.nontrivial();
}
template <class T> static void run(Gen& g) {
    switch (g.pick({25, 20, 5, 20, 14, 12, 4})) { case 0: return operations(g); case 1: return tensors<T>(g); case 2: return huge<T>(g); case 3: return layer<T>(g); case 4: return optimizer<T>(g); case 5: return model<T>(g); default: return loader<T>(g); }
}
TWO_TYPES(run)
