// C25: evaluation-mode inference is deterministic, side-effect free and independent per sample
#include "model.hpp"

// our own layers: they only report the mode they were told
struct Mode { int calls = 0; bool last = true; };
template <class T> struct ModeLayer : Layer<T> {
    std::shared_ptr<Mode> m; explicit ModeLayer(std::shared_ptr<Mode> x) : m(x) {}
    Tensor<T> forward(const Tensor<T>& x) override { return x; }
    Tensor<T> backward(const Tensor<T>& g) override { return g; }
    void setTrainingMode(bool on) override { m->calls++; m->last = on; Layer<T>::setTrainingMode(on); }
};
template <class T> static void sameArr(const Arr<T>& got, const Arr<T>& want, const std::string& what) {
    PCHECK(got.d == want.d, what << ": shape " << str(got.d) << ", expected " << str(want.d));
    for (size_t i = 0; i < want.n(); i++) PCHECK(sameBits(got.v[i], want.v[i]) || (got.v[i] != got.v[i] && want.v[i] != want.v[i]), what << ": element " << i << " is " << got.v[i] << ", expected exactly " << want.v[i]);
}
template <class T> static Arr<T> rows(const Arr<T>& a, int from, int n) { size_t r = a.n() / a.d[0]; Arr<T> o{a.d, {}}; o.d[0] = n; o.v.assign(a.v.begin() + from * r, a.v.begin() + (from + n) * r); return o; }

template <class T> static void run(Gen& g) {
    bool ce = g.flip(30); Stack s = genStack(g, ce ? 1 : 0); uint32_t seed = g.seed32(); uint64_t st = g.seed32();
    // positions at which a mode-reporting layer is put in
    std::vector<int> spyAt; int ns = g.flip(4) ? g.i(20, 150) : g.i(0, 3); if (ns > 3) g.label("deep model"); for (int k = 0; k < ns; k++) spyAt.push_back(g.i(0, (int)s.l.size()));
    std::vector<std::shared_ptr<Mode>> modes;
    auto make = [&](SmartDNN<T>& m, bool spies, bool dropouts) {
        RandomEngine::setSeed(seed);
        for (size_t k = 0; k <= s.l.size(); k++) {
            if (spies) for (int p : spyAt) if (p == (int)k) { modes.push_back(std::make_shared<Mode>()); m.addLayer(ModeLayer<T>(modes.back())); }
            if (k < s.l.size() && (dropouts || s.l[k].k != L_DROP)) addTo(m, s.l[k]);
        }
        T rate = T(0.05); if (ce) m.compile(CategoricalCrossEntropyLoss<T>(), SGDOptimizer<T>(SGDOptions<T>{rate})); else m.compile(MSELoss<T>(), SGDOptimizer<T>(SGDOptions<T>{rate}));
    };
    auto sample = [&](int b, bool out) { Arr<T> x{withBatch(s, b, out), {}}; size_t n = numel(x.d); for (size_t k = 0; k < n; k++) x.v.push_back(out && ce ? T((int)(k % s.out[0]) == (int)((k / s.out[0] + pbt::splitmix(st)) % s.out[0])) : (T)gauss(st)); return x; };
    auto trainOn = [&](SmartDNN<T>& m, const std::vector<Tensor<T>>& X, const std::vector<Tensor<T>>& Y, int ep) { Capture c; m.train(X, Y, ep); c.finish(); };
    auto checkModes = [&](bool on, const std::vector<int>& before, const char* what) { for (size_t k = 0; k < modes.size(); k++) PCHECK(modes[k]->calls > before[k] && modes[k]->last == on, what << " did not reach every layer of the model (own layer " << k << " of " << modes.size() << " in " << str(s) << ")"); };
    auto counts = [&] { std::vector<int> r; for (auto& m : modes) r.push_back(m->calls); return r; };
    auto mode = [&](SmartDNN<T>& m, bool on) { auto b = counts(); if (on) m.trainingMode(); else m.evalMode(); checkModes(on, b, on ? "trainingMode()" : "evalMode()"); };

    SmartDNN<T> A; make(A, true, true); size_t total = s.l.size() + spyAt.size();
    std::vector<Tensor<T>> X, Y; int n = g.i(1, 3), ep = g.i(0, 3);
    for (int i = 0; i < n; i++) { int b = s.rank1 ? 1 : g.i(1, 4); X.push_back(mk(sample(b, false))); Y.push_back(mk(sample(b, true))); }
    NOTE(g, "model " << str(s) << (ce ? " cross-entropy" : " mse") << ", " << spyAt.size() << " own layers, " << n << " samples, " << ep << " epochs");

    // evaluation of the untrained model: dropout layers might as well not be there
    bool anyDrop = false; for (auto& l : s.l) anyDrop |= l.k == L_DROP;
    if (anyDrop) { SmartDNN<T> P; auto keep = modes; make(P, false, false); modes = keep; P.evalMode(); A.evalMode(); for (auto& x : X) sameArr(snap(A.predict(x)), snap(P.predict(x)), "evaluation-mode output with dropout layers, against the model without them"); mode(A, true); g.label("dropout"); }

    RandomEngine::setSeed(seed + 1); trainOn(A, X, Y, ep);
    bool trained = ep > 0;
    auto found = std::make_shared<std::vector<Found<T>>>(); std::vector<Arr<T>> before; SpyOpt<T> spy(found);
    if (trained) { for (size_t k = 0; k < total; k++) A.getLayer(k)->updateWeights(spy); for (auto& f : *found) before.push_back(snap(*f.w)); }

    // ---- evaluation
    mode(A, false); if (g.flip(20)) mode(A, false); if (g.flip(15)) { mode(A, true); mode(A, false); }
    std::vector<Arr<T>> in; std::vector<Tensor<T>> Q; int q = g.flip(6) ? g.flip(15) ? g.i(13, 300) : g.i(5, 12) : g.i(1, 4);
    for (int i = 0; i < q; i++) { in.push_back(sample(s.rank1 ? 1 : g.flip(8) ? g.i(6, 40) : g.i(1, 5), false)); if (g.flip(15)) for (auto& v : in[i].v) v *= T(50);
        if (i && g.flip(30)) { in[i] = in[g.draw(i)]; if (!g.flip(20)) { static const double df[] = {1, -1, 0.125, 1e-4, 100}; in[i].v[g.draw(in[i].n())] += (T)df[g.draw(5)]; } g.label("near-duplicate inputs"); }
        Q.push_back(mk(in[i])); }
    std::mt19937 eng = RandomEngine::getInstance();
    std::vector<Arr<T>> first; for (auto& x : Q) first.push_back(snap(A.predict(x)));
    for (int i = 0; i < q; i++) PCHECK(first[i].d == withBatch(s, in[i].d[0], true), "predict gave shape " << str(first[i].d) << " for an input of shape " << str(in[i].d) << " to " << str(s));
    int reps = g.i(1, 8); for (int r = 0; r < reps; r++) {
        if (g.flip(30)) { // an unrelated input in between
            Arr<T> o = sample(s.rank1 ? 1 : g.i(1, 6), false); if (g.flip(50)) for (auto& v : o.v) v = v * T(1000) + T(7); A.predict(mk(o));
        }
        int i = (int)g.draw(q); prime<T>(g, {&Q[i]}, [&] { A.predict(Q[i]); }); sameArr(snap(A.predict(Q[i])), first[i], "predicting the same input again in evaluation mode");
        checkBits(Q[i], in[i], "the input of predict");
    }
    prime<T>(g, {&Q[g.draw(q)]}, [&] { A.predict(Q); });
    auto vec = A.predict(Q); PCHECK(vec.size() == Q.size(), "predict of " << Q.size() << " inputs gave " << vec.size() << " outputs");
    for (int i = 0; i < q; i++) sameArr(snap(vec[i]), first[i], "the vector form of predict against predicting each input"); PCHECK(A.predict(std::vector<Tensor<T>>()).empty(), "predict of no inputs gave outputs");
    { auto rev = std::vector<Tensor<T>>(Q.rbegin(), Q.rend()); auto vr = A.predict(rev); PCHECK(vr.size() == Q.size(), "predict of " << Q.size() << " inputs gave " << vr.size() << " outputs"); for (int i = 0; i < q; i++) sameArr(snap(vr[q - 1 - i]), first[i], "the vector form of predict in reverse order"); }
    PCHECK(RandomEngine::getInstance() == eng, "predicting in evaluation mode drew random numbers");

    // ---- independence of the other rows
    if (!s.rank1) for (int i = 0; i < std::min(q, 12); i++) {
        int B = in[i].d[0], r = (int)g.draw(B); Arr<T> alone = rows(in[i], r, 1), want = rows(first[i], r, 1);
        bool fin = true; ld mag = 1; { Tensor<T> p = mk(alone); for (size_t k = 0; k < total; k++) { p = A.getLayer(k)->forward(p); for (T v : snap(p).v) { fin &= std::isfinite(v); mag = std::max(mag, fabsl((ld)v)); } } }
        if (!fin || mag > 1e15L) { g.label("diverged"); continue; }
        ld tol = (sizeof(T) == 4 ? 1e-4L : 1e-11L) * mag;
        auto near = [&](const Arr<T>& got, const std::string& what) { PCHECK(got.d == want.d, what << ": shape " << str(got.d) << ", expected " << str(want.d)); for (size_t k = 0; k < want.n(); k++) PCHECK(fabsl((ld)got.v[k] - (ld)want.v[k]) <= tol, what << ": element " << k << " is " << got.v[k] << ", with its original batch of " << B << " it is " << want.v[k] << " in " << str(s)); };
        near(snap(A.predict(mk(alone))), "output of a sample predicted alone");
        for (int rep = 0; rep < 2; rep++) { // the same sample in another batch, at another place, with quite other neighbours
            int B2 = g.flip(8) ? g.i(7, 40) : g.i(1, 6), at = (int)g.draw(B2); static const double big[] = {1, 1, 100, 1e6, -1e6, 0}; T f = (T)big[g.draw(6)]; Arr<T> o = sample(B2, false); size_t w = alone.n(); for (auto& v : o.v) v *= f; std::copy(alone.v.begin(), alone.v.end(), o.v.begin() + at * w);
            if (g.flip(20)) for (int b = 0; b < B2; b++) std::copy(alone.v.begin(), alone.v.end(), o.v.begin() + b * w);
            near(rows(snap(A.predict(mk(o))), at, 1), "output of a sample in another batch (place " + std::to_string(at) + " of " + std::to_string(B2) + ", neighbours scaled by " + std::to_string((double)f) + ")");
        }
        g.label("other batches");
    }
    if (trained) { found->clear(); for (size_t k = 0; k < total; k++) A.getLayer(k)->updateWeights(spy); PCHECK(found->size() == before.size(), "predicting changed the number of parameters"); for (size_t k = 0; k < before.size(); k++) checkBits(*(*found)[k].w, before[k], "a parameter, by predicting in evaluation mode,"); }
    for (int i = 0; i < q; i++) sameArr(snap(A.predict(Q[i])), first[i], "predicting the same input at the end");

    // ---- back to training mode: like a model that was never evaluated
    mode(A, true); SmartDNN<T> B; { auto keep = modes; make(B, true, true); modes = keep; } RandomEngine::setSeed(seed + 1); trainOn(B, X, Y, ep);
    RandomEngine::setSeed(seed + 2); Arr<T> ta = snap(A.predict(X[0])); trainOn(A, X, Y, 1); RandomEngine::setSeed(seed + 2); Arr<T> tb = snap(B.predict(X[0])); trainOn(B, X, Y, 1);
    sameArr(ta, tb, "training-mode output after a spell of evaluation, against a model never evaluated"); A.evalMode(); B.evalMode();
    for (int i = 0; i < q; i++) sameArr(snap(A.predict(Q[i])), snap(B.predict(Q[i])), "prediction after evaluation and further training, against a model only trained");
    if (s.l.size() > 1 && (trained || anyDrop)) g.nontrivial();
}
TWO_TYPES(run)
