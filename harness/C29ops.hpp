// The operations compared by C29. Compiled twice: into the harness with the parallel directives on, and into c29ref.so with them off.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "model.hpp"

struct OpIn {
    int op = 0, sub = 0; std::vector<Dims> d; std::vector<std::vector<double>> v; std::vector<int> n; uint32_t seed = 1; Stack stack; bool dbl = false;
};
struct OpOut { bool threw = false; std::vector<Dims> d; std::vector<std::vector<double>> v; std::string text; };
enum { O_BINARY, O_SCALAR, O_APPLYPAIR, O_APPLY, O_TRANSPOSE, O_MATMUL, O_SUM, O_MEANVAR, O_RANDOM, O_ADAM, O_OPT, O_ACT, O_FC, O_CONV, O_POOL, O_BN, O_DROP, O_LOSS, O_MODEL, O_SLICE, O_RECIP, O_COUNT };

namespace {
template <class T> Tensor<T> in(const OpIn& o, int k) { std::vector<T> x(o.v[k].begin(), o.v[k].end()); return Tensor<T>(Shape(o.d[k]), (const std::vector<T>&)x); }
template <class T> void put(OpOut& r, const Tensor<T>& t) { r.d.push_back(t.getShape().getDimensions()); const T* p = t.getData().data(); r.v.emplace_back(p, p + t.getShape().size()); }
template <class T> struct Grab : Optimizer<T> { OpOut& r; explicit Grab(OpOut& x) : r(x) {} void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& g, T = T(-1)) override { for (auto& x : w) put<T>(r, x.get()); for (auto& x : g) put<T>(r, x.get()); } };
template <class T> void layerPass(const OpIn& o, OpOut& r, Layer<T>& l) {
    for (int rep = 0; rep < 2; rep++) { put<T>(r, l.forward(in<T>(o, 0))); put<T>(r, l.backward(in<T>(o, 1))); }
    Grab<T> g(r); l.updateWeights(g);
}
template <class T> void ops(const OpIn& o, OpOut& r) {
    typedef AdvancedTensorOperations<T> A; RandomEngine::setSeed(o.seed);
    switch (o.op) {
        case O_BINARY: { Tensor<T> a = in<T>(o, 0), b = in<T>(o, 1); switch (o.sub) { case 0: put<T>(r, a + b); a += b; break; case 1: put<T>(r, a - b); a -= b; break; case 2: put<T>(r, a * b); a *= b; break; default: put<T>(r, a / b); a /= b; } put<T>(r, a); break; }
        case O_SCALAR: { Tensor<T> a = in<T>(o, 0); T s = T(1.25); switch (o.sub) { case 0: put<T>(r, a + s); put<T>(r, s - a); break; case 1: put<T>(r, a * s); put<T>(r, s * a); break; case 2: put<T>(r, a / s); put<T>(r, s / a); break; default: put<T>(r, -a); put<T>(r, a - s); } a *= s; a += s; put<T>(r, a); break; }
        case O_APPLYPAIR: { Tensor<T> a = in<T>(o, 0), b = in<T>(o, 1); put<T>(r, A::applyPair(a, b, [](T x, T y) { return x * T(3) - y; })); break; }
        case O_APPLY: { Tensor<T> a = in<T>(o, 0); put<T>(r, A::apply(a, [](T x) { return x * x + T(1); })); a.apply([](T x) { return x / T(3); }); put<T>(r, a); put<T>(r, (a * a).sqrt()); break; }
        case O_TRANSPOSE: put<T>(r, A::transpose(in<T>(o, 0), o.n[0], o.n[1])); break;
        case O_MATMUL: put<T>(r, A::matmul(in<T>(o, 0), in<T>(o, 1))); break;
        case O_SUM: { Tensor<T> a = in<T>(o, 0); put<T>(r, A::sum(a)); put<T>(r, A::sum(a, (size_t)o.n[0])); std::vector<size_t> ax(o.n.begin(), o.n.end()); put<T>(r, A::sum(a, ax)); break; }
        case O_MEANVAR: { Tensor<T> a = in<T>(o, 0); std::vector<size_t> ax(o.n.begin(), o.n.end()); Tensor<T> m = A::mean(a, ax); put<T>(r, m); put<T>(r, A::variance(a, m, ax)); break; }
        case O_RANDOM: put<T>(r, Tensor<T>::rand(Shape(o.d[0]))); put<T>(r, Tensor<T>::randn(Shape(o.d[0]), T(-1), T(2))); put<T>(r, Tensor<T>::ones(Shape(o.d[0]))); put<T>(r, Tensor<T>(Shape(o.d[0]), T(2.5))); put<T>(r, Tensor<T>::rand(Shape({3}))); break;
        case O_ADAM: { AdamOptions<T> p; if (o.sub & 1) p.decay = T(0.1); if (o.sub & 2) p.l1Strength = T(0.01); if (o.sub & 4) p.l2Strength = T(0.02); AdamOptimizer<T> opt(p); Tensor<T> w = in<T>(o, 0), w2 = in<T>(o, 1), g = in<T>(o, 2), g2 = in<T>(o, 3); for (int k = 0; k < o.n[0]; k++) opt.optimize({std::ref(w), std::ref(w2)}, {std::ref(g), std::ref(g2)}); put<T>(r, w); put<T>(r, w2); put<T>(r, g); break; }
        case O_OPT: { Tensor<T> w = in<T>(o, 0), w2 = in<T>(o, 1), g = in<T>(o, 2), g2 = in<T>(o, 3); auto go = [&](auto& opt) { for (int k = 0; k < o.n[0]; k++) opt.optimize({std::ref(w), std::ref(w2)}, {std::ref(g), std::ref(g2)}); }; if (o.sub & 1) { RMSPropOptions<T> p; p.momentum = o.sub & 2 ? T(0.9) : T(0); p.centered = o.sub & 4; RMSPropOptimizer<T> q(p); go(q); } else { SGDOptions<T> p; p.nesterov = o.sub & 2; p.weightDecay = o.sub & 4 ? T(0.1) : T(0); SGDOptimizer<T> q(p); go(q); } put<T>(r, w); put<T>(r, w2); break; }
        case O_ACT: { auto a = mkAct<T>(o.sub, T(0.1)); put<T>(r, a->forward(in<T>(o, 0))); put<T>(r, a->backward(in<T>(o, 0), in<T>(o, 1))); break; }
        case O_FC: { FullyConnectedLayer<T> l(o.n[0], o.n[1]); l.setWeights(in<T>(o, 2)); l.setBiases(in<T>(o, 3)); layerPass<T>(o, r, l); break; }
        case O_CONV: { Conv2DLayer<T> l(o.n[0], o.n[1], o.n[2], o.n[3], o.n[4], o.n[5], o.n[6]); l.setWeights(in<T>(o, 2)); l.setBiases(in<T>(o, 3)); layerPass<T>(o, r, l); break; }
        case O_POOL: { MaxPooling2DLayer<T> l(o.n[0], o.n[1], o.n[2]); layerPass<T>(o, r, l); break; }
        case O_BN: { BatchNormalizationLayer<T> l(o.n[0]); layerPass<T>(o, r, l); l.setTrainingMode(false); put<T>(r, l.forward(in<T>(o, 0))); break; }
        case O_DROP: { DropoutLayer<T> l(T(0.5)); layerPass<T>(o, r, l); break; }
        case O_LOSS: { Tensor<T> p = in<T>(o, 0), t = in<T>(o, 1); MSELoss<T> m; put<T>(r, m.compute(p, t)); put<T>(r, m.gradient(p, t)); if (o.sub) { CategoricalCrossEntropyLoss<T> c; put<T>(r, c.compute(p, t)); put<T>(r, c.gradient(p, t)); } break; }
        case O_MODEL: { SmartDNN<T> m; build(m, o.stack); AnyOpt<T> ao; ao.k = o.sub; ao.s.learningRate = T(0.01); ao.r.learningRate = T(0.001); ao.a.learningRate = T(0.001); compileWith(m, false, ao); Capture c; m.train({in<T>(o, 0)}, {in<T>(o, 1)}, o.n[0]); c.finish();
            m.evalMode(); put<T>(r, m.predict(in<T>(o, 0))); break; }
        case O_SLICE: { put<T>(r, A::reshape(A::transpose(in<T>(o, 0), o.n[0], o.n[1]), Shape({(int)numel(o.d[0])}))); Tensor<T> a = in<T>(o, 0); put<T>(r, a.slice(o.n[2], o.n[3])); break; }
        default: put<T>(r, A::reciprocal(in<T>(o, 0)));
    }
}
inline void performOp(const OpIn& o, OpOut& r) {
    r = OpOut();
    try { if (o.dbl) ops<double>(o, r); else ops<float>(o, r); }
    catch (const pbt::Failure&) { throw; }
    catch (const std::exception& e) { r = OpOut(); r.threw = true; r.text = e.what(); }
}
}
