// Histories of optimize() calls against a per-element long double model with tracked error bounds.
// A model M provides: M(Gen&) drawing the options, make<T>() building the optimizer, describe(), and
//   ld step(El&, ld w, ld grad, ld lr (override, or <=0), int t, ld E, ld& tol)  -> expected new weight and allowed error.
#pragma once
#include "common.hpp"
#include "smart_dnn/Optimizer.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include <deque>

struct El { ld a = 0, ea = 0, b = 0, eb = 0, c = 0, ec = 0; };
template <class T> inline T pickOf(Gen& g, std::initializer_list<double> l) { return (T)l.begin()[g.draw(l.size())]; }

// one of the usual values, now and then any other in (0, hi)
template <class T> inline T vary(Gen& g, std::initializer_list<double> l, double hi) { if (!g.flip(12)) return pickOf<T>(g, l); double x = hi * (1 + g.draw(4095)) / 4097.0; return (T)(g.flip(30) ? x * std::pow(10.0, -(double)g.i(1, 9)) : x); }

template <class T> static std::vector<T> genGrads(Gen& g, size_t n) {
    switch (g.pick({50, 20, 10, 10, 5, 5})) {
        case 0: return genVals<T>(g, n, V_NORMAL);
        case 1: return genVals<T>(g, n, V_SMALLINT);
        case 2: return genVals<T>(g, n, V_WIDE);
        case 3: { std::vector<T> v = genVals<T>(g, n, V_NORMAL); uint64_t s = g.seed32(); for (auto& x : v) if (pbt::splitmix(s) & 1) x = T(0); return v; }
        case 4: { std::vector<T> v = genVals<T>(g, n, V_NORMAL); for (auto& x : v) x *= T(1e-12); return v; }
        default: { std::vector<T> v = genVals<T>(g, n, V_NORMAL); for (auto& x : v) x *= T(1e14); return v; }
    }
}
template <class T, template <class> class M> static void optHistory(Gen& g) {
    const ld E = epsOf<T>();
    struct P { std::unique_ptr<Tensor<T>> t; Dims d; Arr<T> now; };
    struct St { std::vector<El> e; int t = 0; };
    int nOpt = g.pick({80, 20}) + 1, nPar = g.flip(3) ? g.i(5, 20) : g.i(1, 4); std::vector<M<T>> ms; std::vector<std::unique_ptr<Optimizer<T>>> os;
    for (int k = 0; k < nOpt; k++) { ms.emplace_back(g); os.push_back(ms.back().make()); NOTE(g, "optimizer " << k << ": " << ms.back().describe() << "; "); }
    std::vector<P> ps; std::vector<std::vector<St>> st(nOpt);
    bool longRun = g.flip(2), marathon = longRun && g.flip(1), bigT = !longRun && g.flip(3);
    if (marathon) nPar = 1;
    for (int i = 0; i < nPar; i++) {
        P p; p.d = marathon ? Dims{g.i(1, 2)} : i && g.flip(40) ? ps[0].d : genDims(g, 1, 4, longRun ? 4 : 24); if (bigT && i == 0) p.d = {g.flip(4) ? g.i(4000, 70000) : g.flip(10) ? g.i(1100, 5000) : g.i(900, 1100)};
        p.now = genArr<T>(g, p.d, g.pick({70, 20, 10}) == 0 ? V_NORMAL : V_SMALLINT); p.t = std::make_unique<Tensor<T>>(mk(p.now)); ps.push_back(std::move(p)); NOTE(g, str(ps.back().d) << " ");
        for (auto& s : st) { St x; x.e.resize(ps.back().now.n()); s.push_back(x); }
    }
    int steps = marathon ? g.flip(30) ? g.i(76000, 77000) : g.i(38000, 39000) : longRun ? g.i(300, 1500) : g.i(1, 16); if (marathon) g.label("tens of thousands of updates"); if (longRun) g.label("long history"); if (nOpt > 1) g.label("two optimizers"); if (bigT) g.label("large parameter");
    int updates = 0; std::set<int> touched; uint64_t ls = longRun ? g.seed32() : 0;
    for (int s = 0; s < steps; s++) {
        auto rnd = [&](uint64_t n) { return longRun ? pbt::splitmix(ls) % n : g.draw(n); };
        int op = (int)rnd(100); if (longRun && op < 0) op = 99;
        int k = nOpt > 1 ? (int)rnd(nOpt) : 0;
        auto refs = [&](std::vector<Tensor<T>*> v) { std::vector<std::reference_wrapper<Tensor<T>>> r; for (auto* x : v) r.push_back(std::ref(*x)); return r; };
        // ordered selection of parameters
        std::vector<int> sel; for (int i = 0; i < nPar; i++) sel.push_back(i);
        for (int i = nPar - 1; i > 0; i--) std::swap(sel[i], sel[rnd(i + 1)]);
        sel.resize(1 + rnd(nPar));
        if (op >= 94 && !longRun) { // mismatching request: rejected, nothing changes
            std::vector<Tensor<T>> gr; for (int i : sel) gr.push_back(Tensor<T>(Shape(ps[i].d), T(1)));
            bool extra = g.flip(50); std::vector<Tensor<T>*> ws, gs; for (size_t i = 0; i < sel.size(); i++) ws.push_back(ps[sel[i]].t.get());
            if (extra) { if (g.flip(50)) gr.push_back(Tensor<T>(Shape({2}), T(1))); else gr.pop_back(); g.label("count mismatch"); }
            else { size_t j = g.draw(sel.size()); Dims d = ps[sel[j]].d; size_t n = numel(d); int nn = n > 1 && g.flip(60) ? (int)n - 1 : (int)n + 1; gr[j] = Tensor<T>(Shape({nn}), T(1)); g.label("size mismatch"); }
            for (auto& x : gr) gs.push_back(&x);
            NOTE(g, "\n mismatching call"); auto wr = refs(ws), gg = refs(gs);
            mustThrow([&] { os[k]->optimize(wr, gg); }, extra ? "different numbers of parameters and gradients" : "a gradient of another size than its parameter");
            for (auto& p : ps) checkBits(*p.t, p.now, "parameter after a rejected call");
            continue;
        }
        if (op >= 88) { // someone else changes a parameter's value: its optimizer state stays
            int i = (int)rnd(nPar); Arr<T> a{ps[i].d, ps[i].now.v}; for (auto& v : a.v) v = mkVal<T>(rnd(4097), V_NORMAL);
            switch (rnd(3)) { case 0: { Tensor<T> x = mk(a); *ps[i].t = x; break; } case 1: *ps[i].t = mk(a); break; default: for (size_t j = 0; j < a.n(); j++) (*ps[i].t)[j] = a.v[j]; }
            ps[i].now = a; NOTE(g, "\n parameter " << i << " set to " << strv(a.v)); continue;
        }
        std::vector<Arr<T>> gv; std::vector<Tensor<T>> gt; std::vector<Tensor<T>*> ws, gs;
        for (int i : sel) {
            size_t n = ps[i].now.n(); std::vector<T> v;
            if (longRun) { v.resize(n); for (auto& x : v) x = mkVal<T>(pbt::splitmix(ls), V_NORMAL); } else v = genGrads<T>(g, n);
            Dims gd = ps[i].d; if (!longRun && g.flip(5)) { gd = {(int)n}; }      // same size, other shape
            gv.push_back({gd, v}); gt.push_back(mk(gv.back())); ws.push_back(ps[i].t.get());
        }
        for (auto& x : gt) gs.push_back(&x);
        // weights that have grown so far that the squares of their decayed gradients overflow are outside the property
        const T top = std::sqrt(std::numeric_limits<T>::max()) / T(16); bool huge = false; for (int i : sel) for (T v : ps[i].now.v) huge = huge || std::fabs(v) > top;
        if (huge) { g.label("weights left the range"); break; }
        T over = T(-1); bool dflt = false; switch (rnd(6)) { case 5: over = T((1 + (double)rnd(40)) / 64.0); if (!rnd(5)) over = over * (T)std::pow(10.0, (double)rnd(24) - 20); break; case 4: over = rnd(3) ? T(0) : T(-0.25); break; default: dflt = rnd(2); }   // nothing positive: no override
        if (!longRun || s < 3) { NOTE(g, "\n opt" << k << " lr-override " << over << " params"); for (size_t j = 0; j < sel.size(); j++) NOTE(g, " " << sel[j] << " grad " << strv(gv[j].v, 8)); }
        auto wr = refs(ws), gg = refs(gs);
        if (dflt) os[k]->optimize(wr, gg); else os[k]->optimize(wr, gg, over);
        for (size_t j = 0; j < sel.size(); j++) {
            int i = sel[j]; St& S = st[k][i]; S.t++; updates++; touched.insert(i);
            checkBits(gt[j], gv[j], "gradient passed to optimize");
            Arr<T> now = snap(*ps[i].t); PCHECK(now.d == ps[i].d, "parameter changed shape to " << str(now.d));
            for (size_t q = 0; q < now.n(); q++) {
                ld tol = 0, want = ms[k].step(S.e[q], ps[i].now.v[q], gv[j].v[q], over, S.t, E, tol); tol = 2 * tol + 64 * (ld)std::numeric_limits<T>::min();
                PCHECK(std::isfinite((double)now.v[q]), "weight " << q << " of parameter " << i << " became " << now.v[q] << " for the finite gradient " << gv[j].v[q] << " at its update " << S.t << " (" << ms[k].describe() << ")");
                PCHECK(fabsl((ld)now.v[q] - want) <= tol, "weight " << q << " of parameter " << i << " went from " << ps[i].now.v[q] << " to " << now.v[q] << " at its update " << S.t << " (gradient " << gv[j].v[q] << ", rate override " << over << "), expected " << (double)want << " (allowed error " << (double)tol << "; " << ms[k].describe() << ")");
            }
            ps[i].now = now;
        }
        for (int i = 0; i < nPar; i++) if (std::find(sel.begin(), sel.end(), i) == sel.end()) checkBits(*ps[i].t, ps[i].now, "parameter that was not part of the call");
    }
    if (!longRun && g.flip(3)) { // a parameter whose size changes under the optimizer must not make it read or write outside
        g.label("parameter resized"); int i = g.i(0, nPar - 1); Dims d = genDims(g, 1, 3, 40); *ps[i].t = Tensor<T>(Shape(d), T(1)); Tensor<T> gr(Shape(d), T(0.5));
        try { os[0]->optimize({std::ref(*ps[i].t)}, {std::ref(gr)}); } catch (const std::exception&) {}
        PCHECK(snap(*ps[i].t).d == d, "parameter changed shape");
    }
    if (updates >= 3) g.nontrivial();
    if (touched.size() > 1) g.label("several parameters");
}
