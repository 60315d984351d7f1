// C19: flatten and activation layers over reuse
#include "layers.hpp"

template <class T> struct Log { int fwd = 0, bwd = 0; Arr<T> x, bx, bg; };
// an activation of our own that records what the layer asks of it: f(x) = 3x-1 elementwise, "derivative" g*x
template <class T> struct OwnAct : Activation<T> {
    std::shared_ptr<Log<T>> log; explicit OwnAct(std::shared_ptr<Log<T>> l) : log(l) {}
    Tensor<T> forward(const Tensor<T>& x) const override { log->fwd++; log->x = snap(x); Tensor<T> y(x); y.apply([](T v) { return T(3) * v - T(1); }); return y; }
    Tensor<T> backward(const Tensor<T>& x, const Tensor<T>& gr) const override { log->bwd++; log->bx = snap(x); log->bg = snap(gr); return x * gr; }
};
template <class T> static std::unique_ptr<ActivationLayer<T>> mkLayer(int k, T al) {
    switch (k) {
        case A_RELU: return std::make_unique<ActivationLayer<T>>(ReLU<T>()); case A_LEAKY: return std::make_unique<ActivationLayer<T>>(LeakyReLU<T>(al));
        case A_SIGMOID: return std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); case A_TANH: return std::make_unique<ActivationLayer<T>>(Tanh<T>());
        case A_SWISH: return std::make_unique<ActivationLayer<T>>(Swish<T>()); case A_MISH: return std::make_unique<ActivationLayer<T>>(Mish<T>());
        default: return std::make_unique<ActivationLayer<T>>(Softmax<T>());
    }
}
template <class T> static void run(Gen& g) {
    int which = g.pick({35, 50, 15}), steps = histLen(g, 2, 10), fwd = 0, bwd = 0;
    bool have = false, soft = false; Arr<T> x; Dims last;
    auto dims = [&](int lo) { if (have && g.flip(45)) { Dims d = x.d; switch (g.i(0, 3)) { case 0: d[0] = g.i(1, 6); break; case 1: if ((int)d.size() > lo) d.pop_back(); break; case 2: if (d.size() < 6) d.push_back(g.i(1, 3)); break; default: std::reverse(d.begin() + 1, d.end()); } if (numel(d) < 3000) return d; } Dims d = genDimsBig(g, lo, 6, 150, 3, 3000, 20000); if (soft && numel(d) * d.back() > 300000 && !g.flip(3)) d.back() = 1 + d.back() % 60; /* softmax backward is quadratic in the features */ return d; };
    if (which == 0) {
        g.label("flatten"); FlattenLayer<T> F; Layer<T>& L = F; NOTE(g, "Flatten");
        for (int s = 0; s < steps; s++) {
            int op = g.pick({50, 38, 6, 6});
            if (op == 2) { L.setTrainingMode(g.flip(50)); continue; }
            if (op == 3) { Tensor<T> t{Shape({g.i(1, 9)}), T(2)}; mustThrow([&] { L.forward(t); }, "flattening a rank-1 tensor"); continue; }
            if (op == 0 || !have) {
                if (op == 1 && g.flip(30)) { Tensor<T> t{Shape({2, 3}), T(1)}; mustThrow([&] { L.backward(t); }, "flatten backward before forward"); }
                Dims d = genDimsBig(g, 2, 6, 150, 3, 3000, 20000); if (have && g.flip(40)) { d = last; int k = g.i(0, 2); if (k == 0) d[0] = g.i(1, 6); else if (k == 1) d.push_back(g.i(1, 3)); else std::reverse(d.begin() + 1, d.end()); if (d.size() > 6 || numel(d) > 6000) d = {g.i(1, 5), g.i(1, 9)}; }
                if (have && g.flip(25)) { x = perturbed(g, x); d = x.d; } else x = genArr<T>(g, d, genKind(g));
                last = d; have = true; fwd++; NOTE(g, " forward " << str(d));
                Tensor<T> xt = mk(x); prime<T>(g, {&xt}, [&] { (void)L.forward(xt); }); Tensor<T> y = L.forward(xt); checkBits(xt, x, "input of forward");
                Arr<T> want{{d[0], (int)(numel(d) / d[0])}, x.v}; checkBits(y, want, "flattened tensor");
            } else {
                Dims fd{last[0], (int)(numel(last) / last[0])}; Arr<T> go = genArr<T>(g, fd, genKind(g)); Tensor<T> got = mk(go); NOTE(g, " backward");
                prime<T>(g, {&got}, [&] { (void)L.backward(got); }); Tensor<T> gi = L.backward(got); checkBits(got, go, "gradient passed to backward"); bwd++;
                checkBits(gi, Arr<T>{last, go.v}, "gradient restored to the input's shape");
            }
        }
    } else {
        int k = which == 2 ? -1 : (int)g.draw(A_COUNT); T al = genAlpha<T>(g); soft = k == A_SOFTMAX; auto log = std::make_shared<Log<T>>();
        std::unique_ptr<ActivationLayer<T>> A = k < 0 ? std::make_unique<ActivationLayer<T>>(OwnAct<T>(log)) : mkLayer<T>(k, al); Layer<T>& L = *A;
        auto act = k < 0 ? nullptr : mkAct<T>(k, al); g.label(k < 0 ? "own activation" : actName[k]); NOTE(g, "ActivationLayer " << (k < 0 ? "own" : actName[k]));
        for (int s = 0; s < steps; s++) {
            int op = g.pick({50, 44, 6});
            if (op == 2) { L.setTrainingMode(g.flip(50)); continue; }
            if (op == 0 || !have) {
                if (!have && op == 1) { Tensor<T> t{Shape({2, 3}), T(1)}; mustThrow([&] { L.backward(t); }, "activation layer backward before forward"); }
                Dims d = dims(k == A_SOFTMAX ? 2 : 1); if (have && g.flip(25)) { x = perturbed(g, x); d = x.d; } else x = genArr<T>(g, d, g.flip(80) ? V_NORMAL : V_SMALLINT);
                    have = true; fwd++; NOTE(g, " forward " << str(d));
                Tensor<T> xt = mk(x); prime<T>(g, {&xt}, [&] { (void)L.forward(xt); }); Tensor<T> y = L.forward(xt); checkBits(xt, x, "input of forward");
                if (k < 0) { PCHECK(log->fwd > 0, "the layer did not ask its activation"); checkSame(log->x, x, "input handed to the activation"); Arr<T> w = x; for (auto& v : w.v) v = T(3) * v - T(1); checkSame(snap(y), w, "result of the activation"); }
                else checkSame(snap(y), snap(act->forward(mk(x))), "layer output against its activation's");
            } else {
                Arr<T> go = genArr<T>(g, x.d, g.flip(80) ? V_NORMAL : V_SMALLINT); Tensor<T> got = mk(go); NOTE(g, " backward"); bwd++;
                prime<T>(g, {&got}, [&] { (void)L.backward(got); }); Tensor<T> gi = L.backward(got); checkBits(got, go, "gradient passed to backward");
                if (k < 0) { checkSame(log->bx, x, "input handed to the activation's backward"); checkSame(log->bg, go, "gradient handed to the activation's backward"); Arr<T> w = x; for (size_t i = 0; i < w.n(); i++) w.v[i] = x.v[i] * go.v[i]; checkSame(snap(gi), w, "result of the activation's backward"); }
                else checkSame(snap(gi), snap(act->backward(mk(x), mk(go))), "layer gradient against its activation's at the latest input");
            }
        }
    }
    if (fwd >= 2 && bwd) g.nontrivial();
}
TWO_TYPES(run)
