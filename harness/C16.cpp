// C16: max pooling
#include "layers.hpp"

template <class T> static void run(Gen& g) {
    int ps = g.flip(3) ? g.i(6, 11) : g.pick({15, 40, 30, 10, 5}) + 1, form = g.pick({60, 20, 20});
    int st = form == 1 ? ps : g.flip(3) ? g.i(5, 12) : g.pick({35, 35, 20, 10}) + 1, pad = form ? 0 : (ps > 1 ? (int)g.draw(ps) : 0);
    auto L = form == 1 ? std::make_unique<MaxPooling2DLayer<T>>(ps) : form == 2 ? std::make_unique<MaxPooling2DLayer<T>>(ps, st) : std::make_unique<MaxPooling2DLayer<T>>(ps, st, pad);
    NOTE(g, "MaxPooling2D pool " << ps << " stride " << st << " padding " << pad);
    T inf = std::numeric_limits<T>::infinity();
    Arr<T> x; Dims yd; bool have = false; int steps = histLen(g, 1, 5), fwd = 0, bwd = 0;
    for (int s = 0; s < steps; s++) {
        int op = !have ? g.pick({92, 8}) == 1 ? 9 : 0 : g.i(0, 9);
        if (g.flip(6)) { L->setTrainingMode(g.flip(50)); NOTE(g, " mode"); g.label("mode switched"); } // makes no difference to this layer
        if (op <= 4) {
            Dims d{g.i(1, 3), g.i(1, 3), g.i(1, 8), g.i(1, 8)}; if (g.flip(3)) { d[g.i(0, 1)] = g.i(4, 70); g.label("many images"); }
            if (g.flip(70)) { d[2] = std::max(d[2], ps - 2 * pad); d[3] = std::max(d[3], ps - 2 * pad); }
            if (g.flip(3)) { d[g.i(2, 3)] = g.i(9, 40); if (g.flip(8)) d[g.i(2, 3)] = g.i(40, 150); g.label("large image"); }
            int cls = g.pick({25, 20, 15, 10, 10, 10, 10}); Arr<T> in;
            if (cls == 0) in = genArr<T>(g, d, V_NORMAL);
            else if (cls == 1) { in = genArr<T>(g, d, V_NORMAL); for (auto& v : in.v) v = -std::fabs(v) - T(0.5); g.label("all negative"); }
            else if (cls == 2) { in = genArr<T>(g, d, V_SMALLINT); g.label("ties"); }
            else if (cls == 3) { in = genArr<T>(g, d, V_WIDE); }
            else if (cls == 4) { in = genArr<T>(g, d, V_SPECIAL); for (auto& v : in.v) if (v == T(3)) v = inf; else if (v == T(-1)) v = -inf; g.label("infinities"); }
            else if (cls == 5) { T v = mkVal<T>(g.draw(17), V_SPECIAL); in = Arr<T>{d, std::vector<T>(numel(d), g.flip(30) ? -inf : v)}; g.label("constant image"); }
            else { in = Arr<T>{d, std::vector<T>(numel(d))}; uint64_t q = g.seed32(); for (auto& v : in.v) v = (pbt::splitmix(q) & 3) ? std::numeric_limits<T>::lowest() : mkVal<T>(pbt::splitmix(q), V_WIDE) - T(1e30); g.label("lowest values"); }
            if (have && g.flip(30)) { in = perturbed(g, x); d = in.d; }
            Tensor<T> xt = mk(in); NOTE(g, " forward " << str(in));
            int oh = (d[2] + 2 * pad - ps), ow = (d[3] + 2 * pad - ps);
            if (oh < 0 || ow < 0) { g.label("pool does not fit"); mustThrow([&] { L->forward(xt); }, "pool larger than the padded input " + str(d)); checkBits(xt, in, "input of a rejected forward"); have = false; continue; }
            oh = oh / st + 1; ow = ow / st + 1;
            prime<T>(g, {&xt}, [&] { (void)L->forward(xt); }); Arr<T> y = snap(L->forward(xt)); fwd++; have = true; x = in; yd = {d[0], d[1], oh, ow};
            checkBits(xt, in, "input of forward");
            PCHECK(y.d == yd, "pooling " << str(d) << " gives shape " << str(y.d) << ", expected " << str(yd));
            for (size_t i = 0; i < y.n(); i++) {
                Dims q = unflat(yd, i); bool any = false; T m = 0;
                for (int u = 0; u < ps; u++) for (int v = 0; v < ps; v++) { int a = q[2] * st - pad + u, b = q[3] * st - pad + v; if (a < 0 || b < 0 || a >= d[2] || b >= d[3]) continue; T e = in.at({q[0], q[1], a, b}); if (!any || e > m) m = e; any = true; }
                PCHECK(any, "harness error: empty window");
                PCHECK(y.v[i] == m, "output " << str(q) << " is " << y.v[i] << ", its window's maximum is " << m);
            }
        } else if (op <= 8 || !have) {
            if (!have) continue;
            // 0: reals; 1: powers of two that identify where each gradient went
            bool coded = numel(yd) <= 20 && g.flip(50); Arr<T> go = genArr<T>(g, yd, genMild(g));
            if (coded) { for (size_t i = 0; i < go.n(); i++) go.v[i] = (T)std::ldexp(1.0, (int)i); g.label("coded gradients"); }
            Tensor<T> got = mk(go); NOTE(g, " backward " << str(go)); prime<T>(g, {&got}, [&] { (void)L->backward(got); }); Arr<T> gi = snap(L->backward(got)); bwd++;
            checkBits(got, go, "gradient passed to backward"); PCHECK(gi.d == x.d, "input gradient has shape " << str(gi.d) << ", expected " << str(x.d));
            // each output's candidates: positions of its window holding the maximum
            std::vector<ld> base(x.n(), 0), mag(x.n(), 0); std::vector<std::vector<size_t>> cand(go.n()); bool ties = false;
            for (size_t i = 0; i < go.n(); i++) {
                Dims q = unflat(yd, i); bool any = false; T m = 0;
                for (int pass = 0; pass < 2; pass++) for (int u = 0; u < ps; u++) for (int v = 0; v < ps; v++) { int a = q[2] * st - pad + u, b = q[3] * st - pad + v; if (a < 0 || b < 0 || a >= x.d[2] || b >= x.d[3]) continue; size_t k = flat(x.d, {q[0], q[1], a, b}); if (!pass) { if (!any || x.v[k] > m) m = x.v[k]; any = true; } else if (x.v[k] == m) cand[i].push_back(k); }
                if (cand[i].size() == 1) { base[cand[i][0]] += go.v[i]; mag[cand[i][0]] += fabsl((ld)go.v[i]); } else { ties = true; for (size_t k : cand[i]) mag[k] += fabsl((ld)go.v[i]); }
            }
            if (!ties) { for (size_t k = 0; k < x.n(); k++) CLOSE(T, gi.v[k], base[k], mag[k], (ld)ps * ps + 2, "gradient at input " << str(unflat(x.d, k))); }
            else if (coded) { // decode which outputs each position received
                std::vector<int> owner(go.n(), -1);
                for (size_t k = 0; k < x.n(); k++) {
                    PCHECK(gi.v[k] >= 0 && gi.v[k] < (T)std::ldexp(1.0, (int)go.n()) && gi.v[k] == std::floor(gi.v[k]), "gradient at input " << str(unflat(x.d, k)) << " is " << gi.v[k] << ", not a sum of output gradients");
                    uint64_t b = (uint64_t)gi.v[k];
                    for (size_t i = 0; i < go.n(); i++) if (b >> i & 1) { PCHECK(owner[i] < 0, "the gradient of output " << i << " was put on two positions"); owner[i] = (int)k; PCHECK(std::find(cand[i].begin(), cand[i].end(), k) != cand[i].end(), "the gradient of output " << str(unflat(yd, i)) << " was put on input " << str(unflat(x.d, k)) << ", which does not hold its window's maximum"); }
                }
                for (size_t i = 0; i < go.n(); i++) PCHECK(owner[i] >= 0, "the gradient of output " << str(unflat(yd, i)) << " got lost");
            } else {
                ld tot = 0, totm = 0, sum = 0; for (T v : go.v) { tot += v; totm += fabsl((ld)v); } for (T v : gi.v) sum += v;
                PCHECK(fabsl(tot - sum) <= epsOf<T>() * (ld)(ps * ps + 4) * totm, "total gradient " << (double)sum << ", expected " << (double)tot);
                for (size_t k = 0; k < x.n(); k++) if (mag[k] == 0) PCHECK(gi.v[k] == T(0), "gradient " << gi.v[k] << " at input " << str(unflat(x.d, k)) << ", which is no window's maximum");
            }
        } else {
            g.label("wrong rank"); int r = g.pick({1, 1, 1, 1, 1}); static const int rk[] = {3, 2, 1, 5, 6}; Dims d(rk[r], 1); for (auto& v : d) v = g.i(1, 4);
            Tensor<T> t{Shape(d), T(1)}; mustThrow([&] { L->forward(t); }, "pooling a tensor of shape " + str(d));
            have = false;
        }
    }
    if (pad) g.label("padding"); if (st < ps) g.label("overlapping windows"); if (st > ps) g.label("gaps");
    if (fwd && bwd) g.nontrivial();
}
TWO_TYPES(run)
