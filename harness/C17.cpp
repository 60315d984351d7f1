// C17: batch normalisation against a long double model with tracked error bounds
#include "layers.hpp"

struct Stat { ld mean = 0, var = 0, dm = 0, dv = 0; };      // statistics of one channel and bounds on their float error
template <class T> static void run(Gen& g) {
    const ld E = epsOf<T>();
    int C = g.flip(3) ? g.i(5, 140) : g.i(1, 4); bool dflt = g.flip(30);
    static const double epss[] = {1e-5, 1e-3, 0.1, 1e-8, 1.0}, moms[] = {0.9, 0.5, 0.0, 0.99, 0.1, 0.999, 1.0};
    T eps = dflt ? T(1e-5) : (T)epss[g.draw(5)], mom = dflt ? T(0.9) : (T)moms[g.draw(7)];
    auto L = dflt ? std::make_unique<BatchNormalizationLayer<T>>(C) : std::make_unique<BatchNormalizationLayer<T>>(C, eps, mom);
    NOTE(g, "BatchNormalization(" << C << ", " << eps << ", " << mom << ")");
    Arr<T> ga{{1, C}, std::vector<T>(C, T(1))}, be{{1, C}, std::vector<T>(C, T(0))};
    std::vector<ld> rm(C, 0), rv(C, 1), erm(C, 0), erv(C, 0);
    bool training = true, have = false, haveG = false; Arr<T> x; std::vector<Stat> st; std::vector<ld> wantG(C), wantB(C), tolG(C), tolB(C);
    int steps = histLen(g, 1, 12, C <= 6), trains = 0, bwd = 0, evals = 0;
    auto chan = [](const Dims& d, size_t i) { return d.size() == 2 ? (int)(i % d[1]) : (int)((i / ((size_t)d[2] * d[3])) % d[1]); };
    auto genInput = [&]() {
        if (have && g.flip(15)) return perturbed(g, x);
        Dims d = g.flip(50) ? Dims{g.i(1, 7), C} : Dims{g.i(1, 3), C, g.i(1, 4), g.i(1, 4)};
        if (g.flip(3)) { d[0] = g.flip(5) && C < 5 ? g.i(300, 3000) : C > 4 ? g.i(20, 60) : g.i(20, 300); g.label("large batch"); }
        Arr<T> a = genArr<T>(g, d, genMild(g));
        if (g.flip(20)) { T off = mkVal<T>(g.draw(17), V_SMALLINT) * T(4); for (auto& v : a.v) v += off; g.label("offset input"); }
        if (g.flip(8)) { int c = g.i(0, C - 1); for (size_t i = 0; i < a.n(); i++) if (chan(d, i) == c) a.v[i] = T(1.5); g.label("constant channel"); }
        return a;
    };
    for (int s = 0; s < steps; s++) {
        int op = g.pick({34, 26, 14, 10, 12, 4});
        if (op == 4) { training = !training; L->setTrainingMode(training); NOTE(g, (training ? " train-mode" : " eval-mode")); continue; }
        if (op == 5) {
            g.label("wrong rank"); static const int rk[] = {3, 1, 5}; Dims d(rk[g.draw(3)], 1); for (auto& v : d) v = g.i(1, 3); Tensor<T> t{Shape(d), T(1)};
            mustThrow([&] { L->forward(t); }, "batch normalisation of a tensor of shape " + str(d)); continue;
        }
        if (op == 0 || (op == 1 && !have)) {
            Arr<T> a = genInput(); Tensor<T> at = mk(a); NOTE(g, " forward " << str(a));
            Arr<T> y = snap(L->forward(at)); checkBits(at, a, "input of forward"); PCHECK(y.d == a.d, "output has shape " << str(y.d) << ", expected " << str(a.d));
            if (training) {
                trains++; x = a; have = true; st.assign(C, Stat()); std::vector<ld> n(C, 0), mx(C, 0), mad(C, 0);
                for (size_t i = 0; i < a.n(); i++) { int c = chan(a.d, i); st[c].mean += a.v[i]; mx[c] += fabsl((ld)a.v[i]); n[c]++; }
                for (int c = 0; c < C; c++) { st[c].mean /= n[c]; mx[c] /= n[c]; st[c].dm = (n[c] + 3) * E * mx[c]; }
                for (size_t i = 0; i < a.n(); i++) { int c = chan(a.d, i); ld d = a.v[i] - st[c].mean; st[c].var += d * d; mad[c] += fabsl(d); }
                for (int c = 0; c < C; c++) { st[c].var /= n[c]; mad[c] /= n[c]; ld dd = st[c].dm + 2 * E * (mx[c] * 0 + mad[c]); st[c].dv = (n[c] + 5) * E * st[c].var + 2 * mad[c] * dd + dd * dd; }
                for (size_t i = 0; i < a.n(); i++) {
                    int c = chan(a.d, i); ld d = a.v[i] - st[c].mean, vv = st[c].var + (ld)eps, sd = sqrtl(vv), gm = ga.v[c], bt = be.v[c];
                    if (st[c].dv > vv / 4) { PCHECK(std::isfinite((double)y.v[i]), "normalised output is " << y.v[i]); continue; }
                    ld want = gm * d / sd + bt, tol = 3 * fabsl(gm) * ((st[c].dm + E * fabsl(d)) / sd + fabsl(d) / sd * (st[c].dv / vv + 4 * E)) + 4 * E * (fabsl(want) + fabsl(bt) + fabsl(gm * d / sd)) + 8 * std::numeric_limits<T>::min();
                    PCHECK(fabsl((ld)y.v[i] - want) <= tol, "training output at " << str(unflat(a.d, i)) << " is " << y.v[i] << ", expected " << (double)want << " (allowed error " << (double)tol << ")");
                }
                for (int c = 0; c < C; c++) {
                    ld m = mom;
                    erm[c] = m * erm[c] + (1 - m) * st[c].dm + 4 * E * (fabsl(rm[c]) + fabsl((1 - m) * st[c].mean));   // the previous value in full: it may be updated by a difference
                    erv[c] = m * erv[c] + (1 - m) * st[c].dv + 4 * E * (rv[c] + (1 - m) * st[c].var);
                    rm[c] = m * rm[c] + (1 - m) * st[c].mean; rv[c] = m * rv[c] + (1 - m) * st[c].var;
                }
            } else {
                evals++;
                auto judge = [&](const Arr<T>& in, const Arr<T>& out, const char* w) {
                    PCHECK(out.d == in.d, w << " has shape " << str(out.d));
                    for (size_t i = 0; i < in.n(); i++) {
                        int c = chan(in.d, i); ld d = in.v[i] - rm[c], vv = rv[c] + (ld)eps, sd = sqrtl(vv), gm = ga.v[c], bt = be.v[c];
                        if (erv[c] > vv / 4) continue;
                        ld want = gm * d / sd + bt, tol = 3 * fabsl(gm) * ((erm[c] + 4 * E * (fabsl((ld)in.v[i]) + fabsl(rm[c]))) / sd + fabsl(d) / sd * (erv[c] / vv + 4 * E)) + 4 * E * (fabsl(want) + fabsl(bt) + fabsl(gm * d / sd)) + 8 * std::numeric_limits<T>::min();
                        PCHECK(fabsl((ld)out.v[i] - want) <= tol, w << " at " << str(unflat(in.d, i)) << " is " << out.v[i] << ", expected " << (double)want << " from running mean " << (double)rm[c] << " and variance " << (double)rv[c] << " (allowed error " << (double)tol << ")");
                    }
                };
                judge(a, y, "evaluation output");
                Arr<T> y2 = snap(L->forward(at)); for (size_t i = 0; i < y.n(); i++) PCHECK(sameBits(y.v[i], y2.v[i]), "evaluating the same input twice gives " << y.v[i] << " and then " << y2.v[i]);
                if (a.d[0] > 1) { // one sample alone, same result
                    int r = g.i(0, a.d[0] - 1); Dims d1 = a.d; d1[0] = 1; size_t k = numel(d1); Arr<T> one{d1, std::vector<T>(a.v.begin() + r * k, a.v.begin() + (r + 1) * k)};
                    judge(one, snap(L->forward(mk(one))), "evaluation output of one sample alone");
                }
            }
        } else if (op == 1 || op == 2) {
            if (!have) continue;
            // backward refers to the last training pass, whatever evaluation passes came since
            bool was = training; if (!training) { L->setTrainingMode(true); g.label("backward after evaluation"); }
            Arr<T> go = genArr<T>(g, x.d, g.flip(40) ? V_SMALLINT : V_NORMAL); Tensor<T> got = mk(go); NOTE(g, " backward " << str(go));
            Arr<T> dx = snap(L->backward(got)); bwd++; checkBits(got, go, "gradient passed to backward"); PCHECK(dx.d == x.d, "input gradient has shape " << str(dx.d) << ", expected " << str(x.d));
            if (!was) L->setTrainingMode(false);
            std::vector<ld> n(C, 0), sg(C, 0), sgx(C, 0), ag(C, 0), agx(C, 0), agd(C, 0); auto dxh = [&](int c, ld d) { ld vv = st[c].var + (ld)eps, sd = sqrtl(vv); return 2 * ((st[c].dm + E * fabsl(d)) / sd + fabsl(d) / sd * (st[c].dv / vv + 4 * E)); };
            for (size_t i = 0; i < x.n(); i++) { int c = chan(x.d, i); ld d = x.v[i] - st[c].mean, xh = d / sqrtl(st[c].var + (ld)eps), q = go.v[i]; n[c]++; sg[c] += q; sgx[c] += q * xh; ag[c] += fabsl(q); agx[c] += fabsl(q * xh); agd[c] += fabsl(q) * dxh(c, d); }
            for (size_t i = 0; i < x.n(); i++) {
                int c = chan(x.d, i); ld d = x.v[i] - st[c].mean, vv = st[c].var + (ld)eps, sd = sqrtl(vv), xh = d / sd, q = go.v[i], gm = ga.v[c];
                if (st[c].dv > vv / 4) { PCHECK(std::isfinite((double)dx.v[i]), "input gradient is " << dx.v[i]); continue; }
                ld want = gm / sd * (q - sg[c] / n[c] - xh * sgx[c] / n[c]);
                ld parts = fabsl(q) + ag[c] / n[c] + fabsl(xh) * agx[c] / n[c];
                ld tol = 3 * fabsl(gm) / sd * (((n[c] + 12) * E + st[c].dv / vv) * parts + dxh(c, d) * agx[c] / n[c] + fabsl(xh) * agd[c] / n[c]) + 8 * std::numeric_limits<T>::min();
                PCHECK(fabsl((ld)dx.v[i] - want) <= tol, "input gradient at " << str(unflat(x.d, i)) << " is " << dx.v[i] << ", expected " << (double)want << " (allowed error " << (double)tol << ")");
            }
            for (int c = 0; c < C; c++) { wantG[c] = sgx[c]; wantB[c] = sg[c]; tolG[c] = agd[c] * 1.5L + (n[c] + 6) * E * agx[c] + 8 * std::numeric_limits<T>::min(); tolB[c] = (n[c] + 4) * E * ag[c] + 8 * std::numeric_limits<T>::min(); if (st[c].dv > (st[c].var + (ld)eps) / 4) tolG[c] = INFINITY; }
            haveG = true;
        } else if (op == 3) {
            RecOpt<T> opt; Arr<T> nG = genArr<T>(g, {1, C}, V_NORMAL), nB = genArr<T>(g, {1, C}, V_NORMAL); int gi = -1;
            if (!haveG) { g.label("update before backward"); mustThrow([&] { L->updateWeights(opt); }, "updating before any backward pass"); continue; }
            NOTE(g, " update to gamma " << strv(nG.v) << " beta " << strv(nB.v));
            auto is = [&](const Arr<T>& a, const Arr<T>& b) { if (a.n() != b.n()) return false; for (size_t i = 0; i < a.n(); i++) if (!sameBits(a.v[i], b.v[i])) return false; return true; };
            auto near = [&](const Arr<T>& gr, const std::vector<ld>& w, const std::vector<ld>& t) { for (int c = 0; c < C; c++) if (!(fabsl((ld)gr.v[c] - w[c]) <= t[c])) return false; return true; };
            std::vector<Tensor<T>*> ps; opt.act = [&](Tensor<T>& w, const Tensor<T>&, size_t) { ps.push_back(&w); };
            L->updateWeights(opt);
            PCHECK(opt.seen.size() == 2 && ps[0] != ps[1], "updateWeights handed the optimizer " << opt.seen.size() << " parameters, expected gamma and beta");
            auto fits = [&](int a) { const auto& G = opt.seen[a]; const auto& B = opt.seen[1 - a]; return is(G.before, ga) && is(B.before, be) && near(G.grad, wantG, tolG) && near(B.grad, wantB, tolB); };
            if (fits(0)) gi = 0; else if (fits(1)) gi = 1;
            std::vector<double> wg(wantG.begin(), wantG.end()), wb(wantB.begin(), wantB.end());
            PCHECK(gi >= 0, "updateWeights did not hand the optimizer gamma " << str(ga) << " with gradient " << strv(wg) << " and beta " << str(be) << " with gradient " << strv(wb) << ": got " << str(opt.seen[0].before) << " with " << str(opt.seen[0].grad) << " and " << str(opt.seen[1].before) << " with " << str(opt.seen[1].grad));
            for (int c = 0; c < C; c++) { ps[gi]->getData().data()[c] = nG.v[c]; ps[1 - gi]->getData().data()[c] = nB.v[c]; }
            ga = nG; be = nB; g.label("updated");
            // backward below must use the gamma of the moment; a new training pass is not needed for that
        }
    }
    if (trains && evals) g.label("training and evaluation interleaved"); if (bwd) g.label("backward");
    if (trains && (evals || bwd)) g.nontrivial();
}
TWO_TYPES(run)
