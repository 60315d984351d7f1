// Random layer stacks and models built from them.
#pragma once
#include "layers.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include "smart_dnn/SmartDNN.hpp"
#include "capture.hpp"

enum LK { L_FC, L_CONV, L_POOL, L_BN, L_DROP, L_FLAT, L_ACT, L_OWN };
struct LDesc { LK k; int a = 0, b = 0, kh = 1, kw = 1, s = 1, p = 0, dl = 1; double rate = 0; int act = 0; double alpha = 0.1; };

// a parameterless layer of our own: y = x*x/2 + x, so dy = (x+1) g
template <class T> struct OwnLayer : Layer<T> {
    std::optional<Tensor<T>> x;
    Tensor<T> forward(const Tensor<T>& in) override { x = in; Tensor<T> y(in); y.apply([](T v) { return v * v / T(2) + v; }); return y; }
    Tensor<T> backward(const Tensor<T>& g) override { Tensor<T> d(*x); d.apply([](T v) { return v + T(1); }); return d * g; }
};
template <class T> inline void addTo(SmartDNN<T>& m, const LDesc& l) {
    switch (l.k) {
        case L_FC: m.addLayer(FullyConnectedLayer<T>(l.a, l.b)); break;
        case L_CONV: m.addLayer(Conv2DLayer<T>(l.a, l.b, l.kh, l.kw, l.s, l.p, l.dl)); break;
        case L_POOL: m.addLayer(MaxPooling2DLayer<T>(l.kh, l.s, l.p)); break;
        case L_BN: m.addLayer(BatchNormalizationLayer<T>(l.a)); break;
        case L_DROP: m.addLayer(DropoutLayer<T>(T(l.rate))); break;
        case L_FLAT: m.addLayer(FlattenLayer<T>()); break;
        case L_OWN: m.addLayer(OwnLayer<T>()); break;
        default:
            switch (l.act) {
                case A_RELU: m.addLayer(ActivationLayer<T>(ReLU<T>())); break; case A_LEAKY: m.addLayer(ActivationLayer<T>(LeakyReLU<T>(T(l.alpha)))); break;
                case A_SIGMOID: m.addLayer(ActivationLayer<T>(Sigmoid<T>())); break; case A_TANH: m.addLayer(ActivationLayer<T>(Tanh<T>())); break;
                case A_SWISH: m.addLayer(ActivationLayer<T>(Swish<T>())); break; case A_MISH: m.addLayer(ActivationLayer<T>(Mish<T>())); break;
                default: m.addLayer(ActivationLayer<T>(Softmax<T>()));
            }
    }
}
template <class T> inline std::unique_ptr<Layer<T>> layerOf(const LDesc& l) {
    switch (l.k) {
        case L_FC: return std::make_unique<FullyConnectedLayer<T>>(l.a, l.b); case L_CONV: return std::make_unique<Conv2DLayer<T>>(l.a, l.b, l.kh, l.kw, l.s, l.p, l.dl); case L_POOL: return std::make_unique<MaxPooling2DLayer<T>>(l.kh, l.s, l.p);
        case L_BN: return std::make_unique<BatchNormalizationLayer<T>>(l.a); case L_DROP: return std::make_unique<DropoutLayer<T>>(T(l.rate)); case L_FLAT: return std::make_unique<FlattenLayer<T>>();
        default: switch (l.act) { case A_RELU: return std::make_unique<ActivationLayer<T>>(ReLU<T>()); case A_LEAKY: return std::make_unique<ActivationLayer<T>>(LeakyReLU<T>(T(l.alpha))); case A_SIGMOID: return std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); case A_TANH: return std::make_unique<ActivationLayer<T>>(Tanh<T>());
            case A_SWISH: return std::make_unique<ActivationLayer<T>>(Swish<T>()); case A_MISH: return std::make_unique<ActivationLayer<T>>(Mish<T>()); default: return std::make_unique<ActivationLayer<T>>(Softmax<T>()); }
    }
}
inline std::string str(const LDesc& l) {
    std::ostringstream o;
    switch (l.k) { case L_FC: o << "FC(" << l.a << "," << l.b << ")"; break; case L_CONV: o << "Conv(" << l.a << "," << l.b << "," << l.kh << "x" << l.kw << ",s" << l.s << ",p" << l.p << ",d" << l.dl << ")"; break;
        case L_POOL: o << "Pool(" << l.kh << ",s" << l.s << ",p" << l.p << ")"; break; case L_BN: o << "BN(" << l.a << ")"; break; case L_DROP: o << "Dropout(" << l.rate << ")"; break; case L_FLAT: o << "Flatten"; break; case L_OWN: o << "Own"; break; default: o << actName[l.act]; }
    return o.str();
}
struct Stack { std::vector<LDesc> l; Dims in, out; bool rank1 = false; };       // in/out without the batch dimension
inline std::string str(const Stack& s) { std::string o = (s.rank1 ? "rank-1 " : "") + str(s.in); for (auto& l : s.l) o += " " + str(l); return o; }

struct StackOpts { bool bn = true, drop = true, own = true, softmaxInside = true; int maxConv = 4, maxDense = 4; };
// final: 0 anything, 1 must end in values in (0,1) (softmax or sigmoid)
inline Stack genStack(Gen& g, int fin, StackOpts o = {}) {
    Stack s; Dims cur; bool image = g.flip(45);
    auto act = [&](bool soft) { LDesc l{L_ACT}; l.act = (int)g.draw(soft && o.softmaxInside ? A_COUNT : A_SOFTMAX); return l; };
    auto drop = [&] { LDesc l{L_DROP}; static const double r[] = {0.5, 0.2, 0.75, 0.1}; l.rate = r[g.draw(4)]; return l; };
    if (image) {
        g.label("image stack"); cur = {g.i(1, 2), g.i(2, 6), g.i(2, 6)}; s.in = cur; int n = g.i(1, o.maxConv);
        for (int k = 0; k < n; k++) switch (g.pick({40, 20, o.bn ? 12 : 0, o.drop ? 8 : 0, 20, o.own ? 5 : 0})) {
            case 0: { LDesc l{L_CONV}; l.a = cur[0]; l.b = g.i(1, 3); l.p = g.i(0, 1); l.s = g.i(1, 2); l.dl = g.pick({80, 20}) + 1; l.kh = g.i(1, 3); l.kw = g.i(1, 3);
                while (l.dl * (l.kh - 1) + 1 > cur[1] + 2 * l.p) l.kh--; while (l.dl * (l.kw - 1) + 1 > cur[2] + 2 * l.p) l.kw--;
                cur = {l.b, (cur[1] + 2 * l.p - l.dl * (l.kh - 1) - 1) / l.s + 1, (cur[2] + 2 * l.p - l.dl * (l.kw - 1) - 1) / l.s + 1}; s.l.push_back(l); break; }
            case 1: { LDesc l{L_POOL}; l.kh = g.i(1, 3); l.s = g.i(1, 2); l.p = l.kh > 1 ? g.i(0, 1) : 0; while (l.kh > std::min(cur[1], cur[2]) + 2 * l.p) l.kh--; if (l.p >= l.kh) l.p = 0;
                cur = {cur[0], (cur[1] + 2 * l.p - l.kh) / l.s + 1, (cur[2] + 2 * l.p - l.kh) / l.s + 1}; s.l.push_back(l); break; }
            case 2: { LDesc l{L_BN}; l.a = cur[0]; s.l.push_back(l); break; }
            case 3: s.l.push_back(drop()); break;
            case 4: s.l.push_back(act(true)); break;
            default: s.l.push_back(LDesc{L_OWN});
        }
        s.l.push_back(LDesc{L_FLAT}); cur = {(int)numel(cur)};
    } else { cur = {g.i(1, 6)}; s.in = cur; s.rank1 = fin == 0 && g.flip(20); }
    int n = g.i(image ? 0 : 1, o.maxDense);
    for (int k = 0; k < n; k++) switch (g.pick({50, o.bn && !s.rank1 ? 12 : 0, o.drop ? 8 : 0, 25, o.own ? 5 : 0})) {
        case 0: { LDesc l{L_FC}; l.a = cur[0]; l.b = g.i(1, 5); cur = {l.b}; s.l.push_back(l); break; }
        case 1: { LDesc l{L_BN}; l.a = cur[0]; s.l.push_back(l); break; }
        case 2: s.l.push_back(drop()); break;
        case 3: s.l.push_back(act(!s.rank1)); break;
        default: s.l.push_back(LDesc{L_OWN});
    }
    if (fin == 1) { LDesc l{L_ACT}; l.act = g.flip(65) ? A_SOFTMAX : A_SIGMOID; s.l.push_back(l); }
    s.out = cur; return s;
}
template <class T> inline void build(SmartDNN<T>& m, const Stack& s) { for (auto& l : s.l) addTo(m, l); }
inline Dims withBatch(const Stack& s, int b, bool out = false) { const Dims& d = out ? s.out : s.in; if (s.rank1) return d; Dims r{b}; r.insert(r.end(), d.begin(), d.end()); return r; }

// An optimizer that changes nothing and reports where the parameters live and what their gradients are.
template <class T> struct Found { Tensor<T>* w; Arr<T> grad; };
template <class T> struct SpyOpt : Optimizer<T> {
    std::shared_ptr<std::vector<Found<T>>> out; explicit SpyOpt(std::shared_ptr<std::vector<Found<T>>> o) : out(o) {}
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& gr, T = T(-1)) override {
        PCHECK(w.size() == gr.size(), "a layer handed the optimizer " << w.size() << " parameters and " << gr.size() << " gradients");
        for (size_t i = 0; i < w.size(); i++) out->push_back({&w[i].get(), snap(gr[i].get())});
    }
};
inline double gauss(uint64_t& st) { double u1 = ((pbt::splitmix(st) >> 11) + 1) * (1.0 / 9007199254740993.0), u2 = (pbt::splitmix(st) >> 11) * (1.0 / 9007199254740992.0); return std::sqrt(-2 * std::log(u1)) * std::cos(6.283185307179586 * u2); }
template <class T> struct AnyOpt { int k; SGDOptions<T> s; RMSPropOptions<T> r; AdamOptions<T> a; };
template <class T> inline void compileWith(SmartDNN<T>& m, bool ce, const AnyOpt<T>& o) {
    auto go = [&](auto&& opt) { if (ce) m.compile(CategoricalCrossEntropyLoss<T>(), opt); else m.compile(MSELoss<T>(), opt); };
    if (o.k == 0) go(SGDOptimizer<T>(o.s)); else if (o.k == 1) go(RMSPropOptimizer<T>(o.r)); else go(AdamOptimizer<T>(o.a));
}
