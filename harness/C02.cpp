// C02: trailing-dimension broadcasting, for shapes and for broadcast views
#include "common.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"

// reference rule, written from the definition: pad with leading ones, compare position by position
static bool refBroadcast(Dims a, Dims b, Dims* out) {
    while (a.size() < b.size()) a.insert(a.begin(), 1);
    while (b.size() < a.size()) b.insert(b.begin(), 1);
    Dims r;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i] != b[i] && a[i] != 1 && b[i] != 1) return false;
        r.push_back(std::max(a[i], b[i]));
    }
    if (out) *out = r;
    return true;
}
// b derived from a so that broadcasting usually (not always) works
static Dims derive(Gen& g, const Dims& a) {
    Dims b = a;
    size_t cut = g.draw(b.size() + 1); if (cut >= b.size()) cut = 0;
    b.erase(b.begin(), b.begin() + cut);
    for (int& x : b) if (g.flip(30)) x = 1;
    if (g.flip(15)) { int k = g.i(1, 2); for (int j = 0; j < k; j++) b.insert(b.begin(), g.i(1, 3)); }
    if (g.flip(25)) b[g.draw(b.size())] = g.i(1, 5);
    return b;
}

template <class T> static void body(Gen& g) {
    Dims a = genDims(g, 1, 6, 200), b = g.flip(70) ? derive(g, a) : genDims(g, 1, 6, 200);
    if (g.flip(50)) std::swap(a, b);
    NOTE(g, "a=" << str(a) << " b=" << str(b) << " ");
    Shape A(a), B(b); Dims r; bool ok = refBroadcast(a, b, &r);
    PCHECK(ShapeOperations::areBroadcastable(A, B) == ok, "areBroadcastable(" << str(a) << "," << str(b) << ") is not " << ok);
    PCHECK(ShapeOperations::areBroadcastable(B, A) == ok, "areBroadcastable(" << str(b) << "," << str(a) << ") is not " << ok << " (asymmetric)");
    if (ok) {
        checkShape(ShapeOperations::broadcastShapes(A, B), r, "broadcast shape");
        checkShape(ShapeOperations::broadcastShapes(B, A), r, "broadcast shape (swapped)");
        g.label("broadcastable pair");
    } else {
        g.label("non-broadcastable pair");
        mustThrow([&] { ShapeOperations::broadcastShapes(A, B); }, "broadcastShapes of " + str(a) + " and " + str(b));
        mustThrow([&] { ShapeOperations::broadcastShapes(B, A); }, "broadcastShapes of " + str(b) + " and " + str(a));
    }
    checkShape(A, a, "argument shape"); checkShape(B, b, "argument shape");

    // view of a tensor of shape src onto target tgt
    Dims src = a, tgt;
    int how = g.pick({55, 45});
    if (how == 0 && ok) tgt = r; else tgt = b;
    if (how == 0 && ok && g.flip(40)) { int k = g.i(1, 2); for (int j = 0; j < k && numel(tgt) < 400; j++) tgt.insert(tgt.begin(), g.i(1, 3)); }
    if (g.flip(4)) { // large
        src = {g.i(1, 70), 1}; tgt = {src[0], g.i(1, 70)}; if (g.flip(50)) std::swap(src[0], src[1]), std::swap(tgt[0], tgt[1]);
    }
    if (numel(tgt) > 6000) return;
    // which pairs are specified: every aligned source dimension equals the target's or is 1; source dimensions beyond the target's rank
    // must not be larger than 1 (a leading 1 there is left unspecified)
    bool expands = true, unspecified = false;
    for (size_t k = 0; k < src.size(); k++) {
        int s = src[src.size() - 1 - k];
        if (k < tgt.size()) { int t = tgt[tgt.size() - 1 - k]; if (s != t && s != 1) expands = false; }
        else if (s != 1) expands = false;
        else unspecified = true;
    }
    NOTE(g, "view " << str(src) << " -> " << str(tgt));
    Arr<T> data = iota<T>(src); Tensor<T> t = mk(data);
    if (!expands) {
        g.label("view rejected");
        mustThrow([&] { BroadcastView<T, CPUDevice> v(t.getData(), Shape(tgt)); }, "broadcast view of " + str(src) + " onto " + str(tgt));
        g.nontrivial();
        return;
    }
    if (unspecified) return;
    const Tensor<T>& ct = t;
    BroadcastView<T, CPUDevice> v(ct.getData(), Shape(tgt));
    checkShape(v.shape(), tgt, "view shape");
    size_t n = numel(tgt), i = 0;
    auto want = [&](const Dims& ix) {
        Dims s(src.size());
        for (size_t k = 0; k < src.size(); k++) { size_t j = src.size() - 1 - k; s[j] = src[j] == 1 ? 0 : ix[tgt.size() - 1 - k]; }
        return data.at(s);
    };
    for (auto it = v.begin(); it != v.end(); ++it) {
        PCHECK(i < n, "iterating the view visits more than " << n << " elements");
        Dims ix = unflat(tgt, i);
        PCHECK(sameVal<T>(*it, want(ix)), "iteration: element " << str(ix) << " of view " << str(src) << "->" << str(tgt) << " reads " << *it << ", expected " << want(ix));
        i++;
    }
    PCHECK(i == n, "iterating the view visits " << i << " of " << n << " elements");
    for (size_t k = 0; k < n; k++) {
        Dims ix = unflat(tgt, k);
        PCHECK(sameVal<T>(v[ix], want(ix)), "index " << str(ix) << " of view " << str(src) << "->" << str(tgt) << " reads " << v[ix] << ", expected " << want(ix));
    }
    auto e = v.end(); ++e; PCHECK(e == v.end(), "advancing past the end leaves the end");
    // the view reads through: it is not a copy
    if (data.n() > 0) {
        size_t k = g.draw(data.n()); t.getData()[k] = (T)-7; data.v[k] = (T)-7;
        size_t q = g.draw(n); Dims ix = unflat(tgt, q);
        PCHECK(sameVal<T>(v[ix], want(ix)), "view does not read the current source element at " << str(ix));
    }
    checkBits(t, data, "source tensor");
    if (src != tgt) { g.label("expanding view"); g.nontrivial(); }
}
TWO_TYPES(body)
