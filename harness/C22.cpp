// C22: Adam
#include "opt.hpp"
template <class T> struct Model {
    AdamOptions<T> o; bool dflt;
    explicit Model(Gen& g) { dflt = g.flip(10); if (dflt) { o.learningRate = T(0.001); o.beta1 = T(0.9); o.beta2 = T(0.999); o.epsilon = T(1e-8); o.l1Strength = o.l2Strength = o.decay = T(0); o.batchSize = 1; g.label("default options"); if (g.flip(50)) { dflt = false; part = std::make_shared<AdamOptions<T>>(); part->learningRate = o.learningRate = T(0.05); } return; }
        o.learningRate = vary<T>(g, {0.001, 0.01, 0.1, 1.0, 1e-5}, 20); o.beta1 = vary<T>(g, {0.9, 0.5, 0.0, 0.99}, 1); o.beta2 = vary<T>(g, {0.999, 0.9, 0.5, 0.99, 0.0}, 1);
        o.epsilon = vary<T>(g, {1e-8, 1e-3, 1e-7, 0.1}, 1); o.l1Strength = vary<T>(g, {0.0, 0.0, 0.01, 0.1, 1.0}, 5); o.l2Strength = vary<T>(g, {0.0, 0.0, 0.01, 0.1, 1.0}, 5);
        o.decay = vary<T>(g, {0.0, 0.1, 0.001, 1.0}, 5); o.batchSize = g.flip(50) ? 1 : g.flip(5) ? g.i(65, 100000) : g.i(2, 64); }
    std::shared_ptr<AdamOptions<T>> part;   // options of which only the rate was set
    std::unique_ptr<Optimizer<T>> make() const { if (dflt) return std::make_unique<AdamOptimizer<T>>(); if (part) return std::make_unique<AdamOptimizer<T>>(*part); return std::make_unique<AdamOptimizer<T>>(o); }
    std::string describe() const { std::ostringstream s; s << "Adam lr " << o.learningRate << " beta " << o.beta1 << "," << o.beta2 << " epsilon " << o.epsilon << " l1 " << o.l1Strength << " l2 " << o.l2Strength << " decay " << o.decay << " batch " << o.batchSize; return s.str(); }
    // a: first moment, b: second moment
    ld step(El& e, ld w, ld gr, ld over, int t, ld E, ld& tol) const {
        ld lr = over > 0 ? over : (ld)o.learningRate / (1 + (ld)o.decay * t), b1 = o.beta1, b2 = o.beta2, q = gr / o.batchSize, eq = 2 * E * fabsl(q), mn = std::numeric_limits<T>::min();
        ld m = b1 * e.a + (1 - b1) * q; e.ea = b1 * e.ea + (1 - b1) * eq + 4 * E * (fabsl(e.a) + fabsl((1 - b1) * q)) + mn; e.a = m;
        ld v = b2 * e.b + (1 - b2) * q * q; e.eb = b2 * e.eb + (1 - b2) * 2 * fabsl(q) * eq + 4 * E * (e.b + (1 - b2) * q * q) + mn; e.b = v;   // the averages may be formed as a + (1-beta)(x-a): rounding is relative to all of a
        ld p1 = powl(b1, t), p2 = powl(b2, t), c1 = 1 - p1, c2 = 1 - p2;
        ld r1 = (t + 4) * E * p1 / c1 + 2 * E, r2 = (t + 4) * E * p2 / c2 + 2 * E;    // relative error admitted for the bias corrections
        ld mh = m / c1, emh = e.ea / c1 + fabsl(mh) * r1, vh = v / c2, evh = e.eb / c2 + vh * r2;
        ld den = sqrtl(vh) + (ld)o.epsilon, dlo = sqrtl(std::max<ld>(0, vh - evh)) + (ld)o.epsilon, dhi = sqrtl(vh + evh) + (ld)o.epsilon;
        ld c = mh / den, hi = (fabsl(mh) + emh) / dlo, lo = std::max<ld>(0, fabsl(mh) - emh) / dhi, up = lr * c, eu = lr * (std::max(hi - fabsl(c), fabsl(c) - lo) + 4 * E * fabsl(c)), mg = fabsl(up);
        if (fabsl(mh) < emh) eu = std::max(eu, lr * emh / dlo);
        ld l1 = o.l1Strength, l2 = o.l2Strength;
        if (l1 > 0) { ld x = lr * l1 * (w > 0 ? 1 : w < 0 ? -1 : 0); up += x; mg += fabsl(x); }
        if (l2 > 0) { ld x = lr * l2 * w; up += x; mg += fabsl(x); }
        ld el = 6 * E;                                                               // rounding of the decayed rate
        tol = eu + el * mg + 3 * E * fabsl(w); return w - up;
    }
};
template <class T> static void run(Gen& g) { optHistory<T, Model>(g); }
TWO_TYPES(run)
