// C08: a slice view is exactly the strided window it describes
#include "common.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"

template <class T> static void body(Gen& g) {
    Dims d = genDims(g, 1, 5, 400); size_t r = d.size();
    if (g.flip(20)) d[g.draw(r)] = g.flip(3) ? g.i(40, 5000) : g.i(5, 40);
    if (numel(d) > 20000) return;
    Arr<T> a = iota<T>(d); sprinkle(g, a); Tensor<T> t = mk(a); const Tensor<T>& ct = t;
    std::vector<std::pair<int, int>> sl; std::vector<int> steps; std::vector<std::vector<int>> pos(r);
    bool badStep = false, empty = false, negative = false, clamped = false, strided = false, ended = false;
    for (size_t i = 0; i < r; i++) {
        int n = d[i], s, e, st;
        s = g.flip(60) ? (int)g.draw((uint64_t)n) : 0; int s0 = s;
        switch (g.pick({45, 25, 15, 15})) {
            case 0: e = s + 1 + (int)g.draw((uint64_t)(n - s)); break;
            case 1: e = n; break;
            case 2: { static const int far[] = {1, 2, 1000, 2147483647}; int x = far[g.draw(4)]; e = x == 2147483647 ? x : n + x; clamped = true; break; }
            default: e = g.i(-n - 3, n); break;
        }
        int e0 = e < 0 ? e + n : e; if (e0 > n) e0 = n;
        bool far = false;
        if (g.flip(3)) { static const int past[] = {0, 1, 7, 2000000000}; int k = past[g.draw(4)]; s = s0 = k == 2000000000 ? k : n + k; far = true; if (g.flip(50)) e = e0 = 2147483647; if (e0 > n) e0 = n; }
        else if (g.flip(3)) { s = -n - 1 - (int)g.draw(3); s0 = 0; far = true; negative = true; }
        if (!far && g.flip(20)) { s -= n; negative = true; }
        if (e < n && e > 0 && g.flip(20)) { e -= n; negative = true; }
        if (e < 0) negative = true;
        switch (g.pick({55, 30, 8, 4})) {
            case 0: st = 1; break;
            case 1: st = g.i(2, 5); break;
            case 2: { static const int big[] = {1000, 2147483647, 2147483646}; st = big[g.draw(3)]; break; }
            default: st = -(int)g.draw(3); badStep = true;
        }
        sl.push_back({s, e}); steps.push_back(st);
        if (st > 1) strided = true;
        if (e0 < n) ended = true;
        if (st > 0) for (long long q = s0; q < e0; q += st) pos[i].push_back((int)q);
        if (st > 0 && pos[i].empty()) empty = true;
    }
    NOTE(g, str(d) << " slices "); for (size_t i = 0; i < r; i++) NOTE(g, "[" << sl[i].first << "," << sl[i].second << "):" << steps[i] << " ");
    if (g.flip(6)) {
        g.label("wrong rank");
        auto s2 = sl; auto st2 = steps; int how = g.i(0, 3);
        if (how == 0) s2.push_back({0, 1}); else if (how == 1) st2.push_back(1); else if (how == 2) s2.pop_back(); else st2.pop_back();
        mustThrow([&] { SliceView<T> v(ct.getData(), s2, st2); }, "slice view of the wrong rank");
        return;
    }
    if (badStep || empty) {
        g.label(badStep ? "non-positive step" : "selects nothing");
        mustThrow([&] { SliceView<T> v(ct.getData(), sl, steps); }, badStep ? "slice view with a non-positive step" : "slice view selecting nothing");
        g.nontrivial();
        return;
    }
    Dims vd; for (auto& p : pos) vd.push_back((int)p.size());
    SliceView<T> v(ct.getData(), sl, steps);
    checkShape(v.shape(), vd, "slice view shape");
    size_t n = numel(vd), i = 0;
    auto src = [&](const Dims& ix) { Dims s(r); for (size_t k = 0; k < r; k++) s[k] = pos[k][(size_t)ix[k]]; return flat(d, s); };
    for (auto it = v.begin(); it != v.end(); ++it) {
        PCHECK(i < n, "iterating the view visits more than " << n << " elements");
        Dims ix = unflat(vd, i);
        PCHECK(*it == a.v[src(ix)], "iteration element " << str(ix) << " reads " << *it << ", expected " << a.v[src(ix)]);
        PCHECK(it.getCurrentIndices() == ix, "iterator position differs from " << str(ix));
        i++;
    }
    PCHECK(i == n, "iterating the view visits " << i << " of " << n << " elements");
    for (size_t k = 0; k < n; k++) { Dims ix = unflat(vd, k); PCHECK(v[ix] == a.v[src(ix)], "view index " << str(ix) << " reads " << v[ix] << ", expected " << a.v[src(ix)]); }
    int writes = g.i(1, 4);
    for (int w = 0; w < writes; w++) {
        Dims ix = unflat(vd, g.draw(n)); T val = T(-1 - w);
        v.set(ix, val); a.v[src(ix)] = val;
        checkBits(t, a, "underlying tensor after writing one view element");
        PCHECK(v[ix] == val, "view does not read back the written element");
    }
    size_t k = g.draw(a.n()); t[k] = T(-99); a.v[k] = T(-99);
    for (size_t q = 0; q < n; q++) { Dims ix = unflat(vd, q); PCHECK(v[ix] == a.v[src(ix)], "view is stale after the tensor changed"); }
    if (negative) g.label("negative bound"); if (clamped) g.label("clamped end"); if (strided) g.label("step above 1"); if (ended) g.label("end before the dimension");
    if (n > 1 && (negative || strided || ended || n < a.n())) g.nontrivial();
}
TWO_TYPES(body)
