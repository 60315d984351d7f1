// Shared pieces for the layer harnesses: all layers, a recording optimizer, reference arrays in long double.
#pragma once
#include "act.hpp"
#include "smart_dnn/Layer.hpp"
#include "smart_dnn/Loss.hpp"
#include "smart_dnn/Optimizer.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"

// An optimizer of our own: records every parameter and gradient it is handed and then lets a callback change the parameter.
template <class T> struct RecOpt : Optimizer<T> {
    struct Seen { Tensor<T>* w; const Tensor<T>* gp; Arr<T> before, grad; };
    std::vector<Seen> seen; int calls = 0;
    std::function<void(Tensor<T>&, const Tensor<T>&, size_t)> act;
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& gr, T = T(-1)) override {
        calls++;
        PCHECK(w.size() == gr.size(), "a layer handed the optimizer " << w.size() << " parameters and " << gr.size() << " gradients");
        for (size_t i = 0; i < w.size(); i++) {
            seen.push_back({&w[i].get(), &gr[i].get(), snap(w[i].get()), snap(gr[i].get())});
            PCHECK(seen.back().before.n() == seen.back().grad.n(), "a layer handed the optimizer a parameter of shape " << str(seen.back().before.d) << " with a gradient of shape " << str(seen.back().grad.d));
            if (act) act(w[i].get(), gr[i].get(), seen.size() - 1);
        }
    }
};
// adds a constant to every element of every parameter
template <class T> struct AddOpt : Optimizer<T> {
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>&, T = T(-1)) override {
        for (auto& x : w) for (size_t i = 0; i < x.get().getShape().size(); i++) x.get().getData().data()[i] += T(1);
    }
};

// value of a sum together with the magnitude of its terms (for the rounding allowance)
struct LA { Dims d; std::vector<ld> v, m; LA() {} explicit LA(const Dims& dd) : d(dd), v(numel(dd), 0), m(numel(dd), 0) {}
    void add(size_t i, ld x) { v[i] += x; m[i] += fabsl(x); } };
template <class T> inline void checkNear(const Arr<T>& got, const LA& want, ld k, const std::string& what) {
    PCHECK(got.d == want.d, what << " has shape " << str(got.d) << ", expected " << str(want.d));
    for (size_t i = 0; i < want.v.size(); i++)
        PCHECK(close<T>(got.v[i], want.v[i], want.m[i], k), what << ": element " << str(unflat(want.d, i)) << " of " << str(want.d) << " is " << got.v[i] << ", expected " << (double)want.v[i] << " (magnitude of terms " << (double)want.m[i] << ")");
}
// the previous input with a few elements changed or exchanged: nothing may be concluded from its shape or from a sample of it
template <class T> inline Arr<T> perturbed(Gen& g, const Arr<T>& prev) {
    Arr<T> a = prev; int k = g.i(1, 3); g.label("input close to the previous one");
    for (int i = 0; i < k; i++) { size_t p = g.draw(a.n()); if (g.flip(50)) std::swap(a.v[p], a.v[g.draw(a.n())]); else a.v[p] = mkVal<T>(g.draw(4097), V_NORMAL); }
    return a;
}
// length of a history: now and then far longer than usual, for what only shows after many passes
inline int histLen(Gen& g, int lo, int hi, bool cheap = true) { if (!cheap || !g.flip(2)) return g.i(lo, hi); g.label("long history"); return g.flip(20) ? g.i(60, 300) : g.i(hi + 1, 60); }
// values whose products and sums stay far from overflow
inline VKind genMild(Gen& g) { switch (g.pick({35, 50, 15})) { case 0: return V_SMALLINT; case 1: return V_NORMAL; default: return V_WIDE; } }
