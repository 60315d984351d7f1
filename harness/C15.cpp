// C15: 2-D convolution
#include "layers.hpp"

struct Cfg { int ic, oc, kh, kw, s, p, dl; bool square; };
template <class T> static std::unique_ptr<Conv2DLayer<T>> make(const Cfg& c) {
    if (c.square) return std::make_unique<Conv2DLayer<T>>(c.ic, c.oc, c.kh);
    return std::make_unique<Conv2DLayer<T>>(c.ic, c.oc, c.kh, c.kw, c.s, c.p, c.dl);
}
static int outSize(int in, int k, const Cfg& c) { int span = in + 2 * c.p - c.dl * (k - 1) - 1; return span < 0 ? 0 : span / c.s + 1; }
// visits every (output position, kernel tap) pair that hits a real input element
template <class F> static void taps(const Dims& x, const Cfg& c, int oh, int ow, F f) {
    for (int b = 0; b < x[0]; b++) for (int o = 0; o < c.oc; o++) for (int i = 0; i < oh; i++) for (int j = 0; j < ow; j++)
        for (int q = 0; q < c.ic; q++) for (int u = 0; u < c.kh; u++) for (int v = 0; v < c.kw; v++) {
            int ih = i * c.s + u * c.dl - c.p, iw = j * c.s + v * c.dl - c.p;
            if (ih < 0 || iw < 0 || ih >= x[2] || iw >= x[3]) continue;
            f((((size_t)b * c.oc + o) * oh + i) * ow + j, (((size_t)b * c.ic + q) * x[2] + ih) * x[3] + iw, (((size_t)o * c.ic + q) * c.kh + u) * c.kw + v, (size_t)o);
        }
}
template <class T> static void run(Gen& g) {
    Cfg c; c.ic = g.i(1, 3); c.oc = g.i(1, 3); if (g.flip(4)) { (g.flip(50) ? c.ic : c.oc) = g.i(4, 33); g.label("many channels"); } c.kh = g.pick({25, 30, 30, 10, 5}) + 1; if (g.flip(3)) c.kh = g.i(6, 12); c.square = g.flip(15);
    c.kw = c.square ? c.kh : g.flip(3) ? g.i(6, 12) : g.pick({25, 30, 30, 10, 5}) + 1;
    c.s = c.square ? 1 : g.pick({45, 35, 15, 5}) + 1; if (!c.square && g.flip(3)) c.s = g.i(5, 9); c.p = c.square ? 0 : g.pick({40, 30, 20, 7, 3}); c.dl = c.square ? 1 : g.pick({55, 30, 13, 2}) + 1;
    uint32_t seed = g.seed32(); RandomEngine::setSeed(seed);
    auto L = make<T>(c);
    NOTE(g, "Conv2D in " << c.ic << " out " << c.oc << " kernel " << c.kh << "x" << c.kw << " stride " << c.s << " padding " << c.p << " dilation " << c.dl);
    Arr<T> W = snap(L->getWeights()), B = snap(L->getBiases());
    PCHECK(W.d == (Dims{c.oc, c.ic, c.kh, c.kw}), "initial weights have shape " << str(W.d)); PCHECK(B.d == (Dims{c.oc, 1}), "initial biases have shape " << str(B.d));
    Arr<T> x, gW, gB; Dims yd; bool have = false, haveG = false; int steps = histLen(g, 1, 6, c.ic * c.oc * c.kh * c.kw <= 40), fwd = 0, bwd = 0; bool rejected = false;
    auto newParams = [&] { VKind k = genMild(g); W = genArr<T>(g, {c.oc, c.ic, c.kh, c.kw}, k); B = genArr<T>(g, {c.oc, 1}, genMild(g)); L->setWeights(mk(W)); L->setBiases(mk(B)); };
    if (g.flip(80)) newParams();
    for (int s = 0; s < steps; s++) {
        int op = (s == 0 || !have) ? 0 : g.i(0, 8);
        if (g.flip(6)) { L->setTrainingMode(g.flip(50)); NOTE(g, " mode"); g.label("mode switched"); } // makes no difference to this layer
        if (op <= 3) {
            bool small = c.ic * c.oc * c.kh * c.kw <= 40; Dims d{g.flip(2) && small ? g.i(4, 40) : g.pick({55, 30, 15}) + 1, c.ic, g.i(1, 8), g.i(1, 8)};
            if (g.flip(3)) { d[g.i(2, 3)] = g.i(9, 40); if (g.flip(8) && small) d[g.i(2, 3)] = g.i(40, 120); g.label("large image"); }
            if (g.flip(55)) { // lengthen until the kernel fits, mostly exactly or by a little
                int needH = c.dl * (c.kh - 1) + 1 - 2 * c.p, needW = c.dl * (c.kw - 1) + 1 - 2 * c.p;
                d[2] = std::max(d[2], needH); d[3] = std::max(d[3], needW);
            }
            bool again = have && g.flip(20); if (again) d = x.d;
            Arr<T> in = again ? perturbed(g, x) : genArr<T>(g, d, genMild(g)); Tensor<T> xt = mk(in); NOTE(g, " forward " << str(in));
            int oh = outSize(d[2], c.kh, c), ow = outSize(d[3], c.kw, c);
            if (oh < 1 || ow < 1) {
                g.label("kernel does not fit"); rejected = true;
                mustThrow([&] { L->forward(xt); }, "kernel larger than the padded input " + str(d));
                checkBits(xt, in, "input of a rejected forward"); checkBits(L->getWeights(), W, "weights after a rejected forward"); checkBits(L->getBiases(), B, "biases after a rejected forward");
                continue;
            }
            prime<T>(g, {&xt}, [&] { (void)L->forward(xt); }); Tensor<T> yt = L->forward(xt); fwd++; have = true; x = in; yd = {d[0], c.oc, oh, ow};
            checkBits(xt, in, "input of forward"); checkBits(L->getWeights(), W, "weights during forward"); checkBits(L->getBiases(), B, "biases during forward");
            LA ref(yd); taps(d, c, oh, ow, [&](size_t y, size_t i, size_t w, size_t) { ref.add(y, (ld)in.v[i] * (ld)W.v[w]); });
            for (size_t i = 0; i < ref.v.size(); i++) ref.add(i, (ld)B.v[(i / ((size_t)oh * ow)) % c.oc]);
            checkNear(snap(yt), ref, c.ic * c.kh * c.kw + 4, "convolution output");
            if (c.p) g.label("padding"); if (c.s > 1) g.label("stride"); if (c.dl > 1) g.label("dilation");
        } else if (op <= 6) {
            Arr<T> go = genArr<T>(g, yd, genMild(g)); Tensor<T> got = mk(go); NOTE(g, " backward " << str(go));
            prime<T>(g, {&got}, [&] { (void)L->backward(got); }); Arr<T> gi = snap(L->backward(got)); bwd++;
            checkBits(got, go, "gradient passed to backward"); checkBits(L->getWeights(), W, "weights during backward"); checkBits(L->getBiases(), B, "biases during backward");
            LA ri(x.d), rw(W.d), rb(B.d);
            taps(x.d, c, yd[2], yd[3], [&](size_t y, size_t i, size_t w, size_t) { ri.add(i, (ld)go.v[y] * (ld)W.v[w]); rw.add(w, (ld)go.v[y] * (ld)x.v[i]); });
            for (size_t i = 0; i < go.n(); i++) rb.add((i / ((size_t)yd[2] * yd[3])) % c.oc, go.v[i]);
            size_t pos = (size_t)yd[0] * yd[2] * yd[3];
            checkNear(gi, ri, (ld)c.oc * c.kh * c.kw + 4, "gradient with respect to the input");
            gW = snap(L->getWeightGradients()); gB = snap(L->getBiasGradients()); haveG = true;
            checkNear(gW, rw, (ld)pos + 4, "weight gradient"); checkNear(gB, rb, (ld)pos + 4, "bias gradient");
        } else if (op == 7) { newParams(); NOTE(g, " set W " << strv(W.v) << " B " << strv(B.v)); }
        else if (haveG) {
            RecOpt<T> opt; opt.act = [&](Tensor<T>& w, const Tensor<T>& gr, size_t) { for (size_t i = 0; i < w.getShape().size(); i++) w.getData().data()[i] = gr.getData().data()[i]; };
            Layer<T>& base = *L; base.updateWeights(opt); NOTE(g, " update");
            PCHECK(opt.seen.size() == 2, "updateWeights handed the optimizer " << opt.seen.size() << " tensors");
            auto same = [&](const Arr<T>& a, const Arr<T>& b) { if (a.n() != b.n()) return false; for (size_t i = 0; i < a.n(); i++) if (!sameBits(a.v[i], b.v[i])) return false; return true; };
            bool a = same(opt.seen[0].before, W) && same(opt.seen[0].grad, gW) && same(opt.seen[1].before, B) && same(opt.seen[1].grad, gB);
            bool b = same(opt.seen[1].before, W) && same(opt.seen[1].grad, gW) && same(opt.seen[0].before, B) && same(opt.seen[0].grad, gB);
            PCHECK(a || b, "updateWeights did not hand the optimizer the weights and biases with the recorded gradients");
            W.v = gW.v; B.v = gB.v; checkBits(L->getWeights(), W, "weights set by the optimizer"); checkBits(L->getBiases(), B, "biases set by the optimizer");
        }
    }
    if (rejected && !fwd) g.label("only rejected forwards");
    if (fwd && bwd) g.nontrivial();
}
TWO_TYPES(run)
