// C21: RMSProp
#include "opt.hpp"
template <class T> struct Model {
    RMSPropOptions<T> o; bool dflt;
    explicit Model(Gen& g) { dflt = g.flip(10); if (dflt) { o.learningRate = T(0.01); o.alpha = T(0.99); o.epsilon = T(1e-8); o.momentum = o.weightDecay = T(0); o.centered = false; g.label("default options"); if (g.flip(50)) { dflt = false; part = std::make_shared<RMSPropOptions<T>>(); part->learningRate = o.learningRate = T(0.05); } return; }
        o.learningRate = vary<T>(g, {0.01, 0.1, 1.0, 0.001, 1e-5}, 20); o.alpha = vary<T>(g, {0.99, 0.9, 0.5, 0.999, 0.0}, 1); o.epsilon = vary<T>(g, {1e-8, 1e-3, 1e-6, 1.0, 1e-10}, 1);
        o.momentum = vary<T>(g, {0.0, 0.9, 0.5, 0.99, 0.0, 0.9, 0.5, 1.0}, 1); o.centered = g.flip(45); o.weightDecay = vary<T>(g, {0.0, 0.01, 0.1, 0.5, 1.0}, 3);
        if (o.centered && o.alpha == T(0)) o.weightDecay = T(0); }   // zero variance by definition: the rule itself diverges exponentially under weight decay
    std::shared_ptr<RMSPropOptions<T>> part;   // options of which only the rate was set
    std::unique_ptr<Optimizer<T>> make() const { if (dflt) return std::make_unique<RMSPropOptimizer<T>>(); if (part) return std::make_unique<RMSPropOptimizer<T>>(*part); return std::make_unique<RMSPropOptimizer<T>>(o); }
    std::string describe() const { std::ostringstream s; s << "RMSProp lr " << o.learningRate << " alpha " << o.alpha << " epsilon " << o.epsilon << " momentum " << o.momentum << " decay " << o.weightDecay << (o.centered ? " centered" : ""); return s.str(); }
    // a: mean square, b: mean, c: velocity
    ld step(El& e, ld w, ld gr, ld over, int, ld E, ld& tol) const {
        ld lr = over > 0 ? over : (ld)o.learningRate, al = o.alpha, wd = o.weightDecay, q = gr + wd * w, eq = 2 * E * (fabsl(gr) + fabsl(wd * w)), be = 1 - al, mn = std::numeric_limits<T>::min();
        ld sq = al * e.a + be * q * q; e.ea = al * e.ea + be * 2 * fabsl(q) * eq + 4 * E * (e.a + be * q * q) + mn; e.a = sq;   // the average may be formed as a + (1-alpha)(x-a): rounding is relative to all of a
        ld var = sq, ev = e.ea;
        if (o.centered) {
            ld m = al * e.b + be * q; e.eb = al * e.eb + be * eq + 4 * E * (fabsl(e.b) + fabsl(be * q)) + mn; e.b = m;
            var = sq - m * m; ev = e.ea + 2 * fabsl(m) * e.eb + e.eb * e.eb + 3 * E * (sq + m * m); if (var < 0) var = 0;
        }
        ld eps = o.epsilon, c = q / sqrtl(var + eps);
        // the implementation's denominator lies between these, whatever rounding did to the variance
        ld hi = (fabsl(q) + eq) / sqrtl((std::max<ld>(0, var - ev) + eps) * (1 - 4 * E)), lo = std::max<ld>(0, fabsl(q) - eq) / sqrtl((var + ev + eps) * (1 + 4 * E));
        ld ec = std::max(hi - fabsl(c), fabsl(c) - lo) + 4 * E * fabsl(c), up = c, eu = ec, mu = o.momentum;
        if (mu > 0) { ld v = mu * e.c + c; e.ec = mu * e.ec + ec + 3 * E * (fabsl(mu * e.c) + fabsl(c)); e.c = v; up = v; eu = e.ec; }
        tol = lr * eu + 3 * E * (fabsl(w) + fabsl(lr * up)); return w - lr * up;
    }
};
template <class T> static void run(Gen& g) { optHistory<T, Model>(g); }
TWO_TYPES(run)
