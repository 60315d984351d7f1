// C14: fully connected layer
#include "layers.hpp"

template <class T> static void run(Gen& g) {
    int in = g.i(1, 6), out = g.i(1, 6);
    if (g.flip(6)) { (g.flip(50) ? in : out) = g.flip(4) ? g.i(140, 1600) : g.i(7, 140); g.label("wide layer"); if (g.flip(10)) { in = g.i(10, 90); out = g.i(10, 90); } }
    uint32_t seed = g.seed32(); RandomEngine::setSeed(seed);
    FullyConnectedLayer<T> L(in, out);
    NOTE(g, "FullyConnected(" << in << "," << out << ")");
    Arr<T> W = snap(L.getWeights()), B = snap(L.getBiases());
    PCHECK(W.d == (Dims{in, out}), "initial weights have shape " << str(W.d) << ", expected (" << in << "," << out << ")");
    PCHECK(B.d == (Dims{1, out}), "initial biases have shape " << str(B.d));
    Arr<T> x; bool have = false, haveG = false; Arr<T> gW, gB;
    int steps = histLen(g, 1, 8, in * out <= 60), fwd = 0, bwd = 0;
    for (int s = 0; s < steps; s++) {
        int op = (s == 0) ? g.i(0, 1) : g.i(0, 7);
        if (op == 0) { // new parameters
            W = genArr<T>(g, {in, out}, genMild(g)); L.setWeights(mk(W));
            if (g.flip(70)) { B = genArr<T>(g, {1, out}, genMild(g)); L.setBiases(mk(B)); }
            checkBits(L.getWeights(), W, "weights after setWeights"); checkBits(L.getBiases(), B, "biases after setBiases");
            NOTE(g, " set W " << strv(W.v) << " B " << strv(B.v));
        } else if (op <= 3 || !have) { // forward
            if (g.flip(6)) { L.setTrainingMode(g.flip(50)); NOTE(g, " mode"); g.label("mode switched"); } // makes no difference to this layer
            Dims d = g.flip(30) ? Dims{in} : Dims{g.flip(10) ? (g.flip(5) && in * out <= 400 ? g.i(70, 1100) : in * out > 1000 ? g.i(6, 20) : g.i(6, 70)) : g.i(1, 5), in};
            VKind k = genMild(g);
            if (have && g.flip(20)) { x = perturbed(g, x); d = x.d; } else x = genArr<T>(g, d, k);
            if (d.size() == 2 && d[0] > 1 && g.flip(20)) { // rows of very different magnitude must not disturb one another
                g.label("rows of different magnitude"); int r = g.i(0, d[0] - 1);
                for (int j = 0; j < in; j++) x.v[(size_t)r * in + j] *= T(1e12);
            }
            Tensor<T> xt = mk(x); prime<T>(g, {&xt}, [&] { (void)L.forward(xt); }); Tensor<T> yt = L.forward(xt);
            checkBits(xt, x, "input of forward"); checkBits(L.getWeights(), W, "weights during forward"); checkBits(L.getBiases(), B, "biases during forward");
            have = true; fwd++;
            int rows = d.size() == 1 ? 1 : d[0];
            LA ref(d.size() == 1 ? Dims{out} : Dims{rows, out});
            for (int r = 0; r < rows; r++) for (int o = 0; o < out; o++) {
                size_t at = (size_t)r * out + o;
                for (int j = 0; j < in; j++) ref.add(at, (ld)x.v[(size_t)r * in + j] * (ld)W.v[(size_t)j * out + o]);
                ref.add(at, (ld)B.v[o]);
            }
            NOTE(g, " forward " << str(x));
            checkNear(snap(yt), ref, in + 4, "forward output");
            if (rows > 1 && g.flip(30)) { // a row alone gives the same result as within the batch
                int r = g.i(0, rows - 1); FullyConnectedLayer<T> M(in, out); M.setWeights(mk(W)); M.setBiases(mk(B));
                Arr<T> one{{1, in}, std::vector<T>(x.v.begin() + (size_t)r * in, x.v.begin() + (size_t)(r + 1) * in)};
                Arr<T> y1 = snap(M.forward(mk(one))), y = snap(yt);
                for (int o = 0; o < out; o++) CLOSE(T, y1.v[o], (ld)y.v[(size_t)r * out + o], ref.m[(size_t)r * out + o], 2 * in + 8, "row " << r << " on its own, output " << o);
            }
        } else if (op <= 6) { // backward for the latest forward
            int rows = x.d.size() == 1 ? 1 : x.d[0];
            Dims gd = x.d.size() == 1 ? (g.flip(50) ? Dims{out} : Dims{1, out}) : Dims{rows, out};
            Arr<T> go = genArr<T>(g, gd, genMild(g)); Tensor<T> got = mk(go); NOTE(g, " backward " << str(go));
            prime<T>(g, {&got}, [&] { (void)L.backward(got); }); Arr<T> gi = snap(L.backward(got)); bwd++;
            checkBits(got, go, "gradient passed to backward"); checkBits(L.getWeights(), W, "weights during backward"); checkBits(L.getBiases(), B, "biases during backward");
            LA ri(x.d), rw({in, out}), rb({1, out});
            for (int r = 0; r < rows; r++) for (int o = 0; o < out; o++) {
                ld q = (ld)go.v[(size_t)r * out + o]; rb.add(o, q);
                for (int j = 0; j < in; j++) { ri.add((size_t)r * in + j, q * (ld)W.v[(size_t)j * out + o]); rw.add((size_t)j * out + o, q * (ld)x.v[(size_t)r * in + j]); }
            }
            checkNear(gi, ri, out + 4, "gradient with respect to the input");
            gW = snap(L.getWeightGradients()); gB = snap(L.getBiasGradients()); haveG = true;
            checkNear(gW, rw, rows + 4, "weight gradient"); checkNear(gB, rb, rows + 4, "bias gradient");
        } else if (haveG) { // update through
            if (g.flip(15)) { gW = genArr<T>(g, {in, out}, genMild(g)); L.setWeightGradient(mk(gW)); NOTE(g, " set weight gradient"); g.label("gradient set"); checkBits(L.getWeightGradients(), gW, "weight gradient after setWeightGradient"); checkBits(L.getBiasGradients(), gB, "bias gradient after setWeightGradient"); }
            if (g.flip(15)) { gB = genArr<T>(g, {1, out}, genMild(g)); L.setBiasGradient(mk(gB)); NOTE(g, " set bias gradient"); g.label("gradient set"); checkBits(L.getBiasGradients(), gB, "bias gradient after setBiasGradient"); checkBits(L.getWeightGradients(), gW, "weight gradient after setBiasGradient"); }
            // apply an optimizer of our own
            RecOpt<T> opt; T step = mkVal<T>(g.draw(4097), V_NORMAL); Arr<T> nW, nB;
            opt.act = [&](Tensor<T>& w, const Tensor<T>& gr, size_t n) { T* p = w.getData().data(); const T* q = gr.getData().data(); for (size_t i = 0; i < w.getShape().size(); i++) p[i] = p[i] * T(0.5) - step * q[i] + T(n == 0 ? 1 : 2); };
            Layer<T>& base = L; base.updateWeights(opt); NOTE(g, " update");
            PCHECK(opt.seen.size() == 2, "updateWeights handed the optimizer " << opt.seen.size() << " tensors, expected weights and biases");
            PCHECK(opt.seen[0].w != opt.seen[1].w, "updateWeights handed the optimizer the same tensor twice");
            // which of the two is the weight matrix: the one whose content it is (ambiguous only if equal)
            auto is = [&](size_t k, const Arr<T>& p, const Arr<T>& q) { const auto& s = opt.seen[k]; if (s.before.d != p.d || s.grad.n() != q.n()) return false; for (size_t i = 0; i < p.n(); i++) if (!sameBits(s.before.v[i], p.v[i]) || !sameBits(s.grad.v[i], q.v[i])) return false; return true; };
            bool straight = is(0, W, gW) && is(1, B, gB), swapped = is(1, W, gW) && is(0, B, gB);
            PCHECK(straight || swapped, "updateWeights did not hand the optimizer the weights and biases with the recorded gradients: first parameter " << str(opt.seen[0].before) << " with gradient " << str(opt.seen[0].grad) << ", second " << str(opt.seen[1].before) << " with " << str(opt.seen[1].grad));
            int wi = straight ? 0 : 1;
            auto upd = [&](Arr<T>& p, const Arr<T>& q, int n) { for (size_t i = 0; i < p.n(); i++) { volatile T h = p.v[i]; (void)h; } Arr<T> r = snap(n == wi ? L.getWeights() : L.getBiases()); PCHECK(r.d == p.d, "a parameter changed shape in updateWeights: " << str(r.d)); for (size_t i = 0; i < p.n(); i++) { ld e = (ld)p.v[i] * 0.5L - (ld)step * (ld)q.v[i] + (n == 0 ? 1 : 2); CLOSE(T, r.v[i], e, fabsl((ld)p.v[i]) + fabsl((ld)step * (ld)q.v[i]) + 2, 8, "parameter " << i << " after the optimizer changed it"); } p = r; };
            if (wi == 0) { upd(W, gW, 0); upd(B, gB, 1); } else { upd(W, gW, 1); upd(B, gB, 0); }
        }
    }
    g.label(fwd && bwd ? "forward and backward" : fwd ? "forward only" : "no forward");
    if (fwd + bwd >= 2 && bwd) g.nontrivial();
}
TWO_TYPES(run)
