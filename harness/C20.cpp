// C20: SGD
#include "opt.hpp"
template <class T> struct Model {
    SGDOptions<T> o; bool dflt;
    explicit Model(Gen& g) { dflt = g.flip(10); if (dflt) { o.learningRate = T(0.01); o.momentum = T(0.9); o.dampening = o.weightDecay = T(0); o.nesterov = false; g.label("default options"); if (g.flip(50)) { dflt = false; part = std::make_shared<SGDOptions<T>>(); part->learningRate = o.learningRate = T(0.05); } return; }
        o.learningRate = vary<T>(g, {0.01, 0.1, 1.0, 0.5, 0.001, 1e-5}, 20); o.momentum = vary<T>(g, {0.9, 0.0, 0.5, 0.99, 0.1, 0.9, 0.0, 0.5, 0.99, 1.0}, 1); o.dampening = vary<T>(g, {0.0, 0.1, 0.5, 0.9, 1.0}, 1);
        o.weightDecay = vary<T>(g, {0.0, 0.01, 0.1, 0.5, 1e-4, 1.0}, 3); o.nesterov = g.flip(40); }
    std::shared_ptr<SGDOptions<T>> part;   // options of which only the rate was set
    std::unique_ptr<Optimizer<T>> make() const { if (dflt) return std::make_unique<SGDOptimizer<T>>(); if (part) return std::make_unique<SGDOptimizer<T>>(*part); return std::make_unique<SGDOptimizer<T>>(o); }
    std::string describe() const { std::ostringstream s; s << "SGD lr " << o.learningRate << " momentum " << o.momentum << " dampening " << o.dampening << " decay " << o.weightDecay << (o.nesterov ? " nesterov" : ""); return s.str(); }
    ld step(El& e, ld w, ld gr, ld over, int, ld E, ld& tol) const {
        ld lr = over > 0 ? over : (ld)o.learningRate, mu = o.momentum, wd = o.weightDecay, q = gr + wd * w, eq = 2 * E * (fabsl(gr) + fabsl(wd * w)), up, eu;
        if (mu == 0) { up = q; eu = eq; }
        else {
            ld damp = 1 - (ld)o.dampening, v = mu * e.a + damp * q;
            e.ea = mu * e.ea + fabsl(damp) * eq + 3 * E * (fabsl(mu * e.a) + fabsl(damp * q)) + E * fabsl(q); e.a = v;
            if (o.nesterov) { up = q + mu * v; eu = eq + mu * e.ea + 3 * E * (fabsl(q) + fabsl(mu * v)); } else { up = v; eu = e.ea; }
        }
        tol = lr * eu + 3 * E * (fabsl(w) + fabsl(lr * up)); return w - lr * up;
    }
};
template <class T> static void run(Gen& g) { optHistory<T, Model>(g); }
TWO_TYPES(run)
