// C07: matrix multiplication for every rank pair
#include "common.hpp"

// product of (possibly batched) operands given accessors; result laid out as batch x m x n
template <class T> static void check(const Tensor<T>& got, const Dims& rd, size_t B, size_t m, size_t n, size_t k, const std::function<T(size_t, size_t, size_t)>& a,
                                     const std::function<T(size_t, size_t, size_t)>& b, bool exact, const std::string& what) {
    Arr<T> G = snap(got);
    PCHECK(G.d == rd, what << ": shape " << str(G.d) << ", expected " << str(rd));
    for (size_t q = 0; q < B; q++) for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) {
        ld s = 0, mag = 0;
        for (size_t p = 0; p < k; p++) { ld x = (ld)a(q, i, p) * (ld)b(q, p, j); s += x; mag += std::fabs(x); }
        T v = G.v[(q * m + i) * n + j];
        if (!std::isfinite(mag)) { PCHECK(sameNonFinite(v, s), what << ", element (" << q << "," << i << "," << j << ") is " << v << ", its sum of products is " << (double)s); continue; }
        CLOSE(T, v, s, mag, exact ? 0.5L : (ld)k + 4, what << ", element (" << q << "," << i << "," << j << ")");
    }
}
static int dimv(Gen& g, bool big) {
    if (big) { static const int v[] = {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 257}; return v[g.draw(12)]; }
    return g.pick({25, 60, 15}) == 0 ? 1 : g.i(2, 9);
}
template <class T> static void body(Gen& g) {
    using A = AdvancedTensorOperations<T>;
    int bigAt = g.flip(6) ? (int)g.draw(3) : -1;
    int m = dimv(g, bigAt == 0), n = dimv(g, bigAt == 1), k = dimv(g, bigAt == 2);
    if (bigAt == 2 && g.flip(30)) k = 1000 + (int)g.draw(1200);
    if (bigAt >= 0 && g.flip(8)) { g.label("all dimensions big"); m = g.i(20, 75); n = g.i(20, 75); k = g.i(20, 75); }          // a full block in every direction
    else if (bigAt >= 0 && g.flip(8)) { g.label("one very big dimension"); int v = g.i(300, 3000); (bigAt == 0 ? m : bigAt == 1 ? n : k) = v; }
    VKind kind = g.flip(55) ? V_SMALLINT : g.flip(85) ? V_NORMAL : V_WIDE; bool exact = kind == V_SMALLINT;
    int form = g.pick({10, 12, 12, 26, 12, 12, 16});
    Dims da, db, rd; Dims batch; size_t B = 1;
    switch (form) {
        case 0: if (bigAt >= 0 && g.flip(20)) k = g.i(2000, 70000); da = {k}; db = {k}; rd = {1}; m = n = 1; break;
        case 1: da = {k}; db = {k, n}; rd = {n}; m = 1; break;
        case 2: da = {m, k}; db = {k}; rd = {m}; n = 1; break;
        case 3: da = {m, k}; db = {k, n}; rd = {m, n}; break;
        case 4: { int q = g.flip(4) ? g.i(5, 70) : g.i(1, 4); B = (size_t)q; da = {m, k}; db = {q, k, n}; rd = {q, m, n}; break; }
        case 5: { int q = g.flip(4) ? g.i(5, 70) : g.i(1, 4); B = (size_t)q; da = {q, m, k}; db = {k, n}; rd = {q, m, n}; break; }
        default: {
            int nb = g.i(1, 3); if (g.flip(6)) { g.label("high rank"); nb = g.i(4, 10); m = std::min(m, 4); n = std::min(n, 4); k = std::min(k, 4); } for (int i = 0; i < nb; i++) { batch.push_back(nb > 3 ? B > 100 ? 1 : g.i(1, 3) : i == 0 && g.flip(4) ? g.i(4, 40) : g.i(1, 3)); B *= (size_t)batch.back(); }
            if (m > 20 && B * m * n * k > 60000) m = 20; if (n > 20 && B * m * n * k > 60000) n = 20; if (k > 64 && B * m * n * k > 60000) k = 64;
            da = db = rd = batch; da.push_back(m); da.push_back(k); db.push_back(k); db.push_back(n); rd.push_back(m); rd.push_back(n);
        }
    }
    if ((form == 4 || form == 5) && B * (size_t)m * n * k > 400000) { return; }
    Arr<T> a = genArr<T>(g, da, kind), b = genArr<T>(g, db, kind);
    bool spec = false; if (kind != V_WIDE) { if (g.flip(60)) spec = nonfinite(g, b); if (!spec || g.flip(30)) spec |= nonfinite(g, a); }
    Tensor<T> ta = mk(a), tb = mk(b);
    const Tensor<T>&ca = ta, &cb = tb;
    NOTE(g, str(a) << " x " << str(b));
    static const char* fn[] = {"1x1", "1x2", "2x1", "2x2", "2x3", "3x2", "batched NxN"};
    g.label(fn[form]);
    auto fa = [&](size_t q, size_t i, size_t p) -> T { size_t o = da.size() >= 3 ? q * (size_t)m * k : 0; return a.v[o + i * (size_t)k + p]; };
    auto fb = [&](size_t q, size_t p, size_t j) -> T { size_t o = db.size() >= 3 ? q * (size_t)k * n : 0; return b.v[o + p * (size_t)n + j]; };
    prime<T>(g, {&ta, &tb}, [&] { (void)A::matmul(ca, cb); });
    Tensor<T> r = A::matmul(ca, cb);
    check<T>(r, rd, B, (size_t)m, (size_t)n, (size_t)k, fa, fb, exact, std::string("product ") + str(da) + " x " + str(db));
    checkBits(ta, a, "left operand"); checkBits(tb, b, "right operand");
    if (form == 3 && kind != V_WIDE && !spec) {
        checkSame(snap(A::matmul(ca, Tensor<T>::identity(k))), a, "product with the identity");
        checkSame(snap(A::matmul(Tensor<T>::identity(m), ca)), a, "identity times a matrix");
        if (exact) checkSame(snap(A::transpose(r, 0, 1)), snap(A::matmul(A::transpose(cb, 0, 1), A::transpose(ca, 0, 1))), "(AB)^T against B^T A^T");
        // same tensor on both sides
        if (m == k) check<T>(A::matmul(ca, ca), {m, m}, 1, (size_t)m, (size_t)m, (size_t)m, fa, [&](size_t q, size_t p, size_t j) { return fa(q, p, j); }, exact, "A x A");
    }
    if (g.flip(25)) { // inner dimensions that disagree
        g.label("inner mismatch");
        Dims bad = db; size_t at = form == 0 || form == 2 ? 0 : form == 1 || form == 3 || form == 5 ? 0 : bad.size() - 2;
        bad[at] += g.flip(60) ? 1 : (bad[at] > 1 ? -1 : 2);
        Tensor<T> tx(Shape(bad), T(1));
        mustThrow([&] { A::matmul(ca, tx); }, "matmul of " + str(da) + " and " + str(bad));
        Dims bad2 = da; bad2.back() += 1; Tensor<T> ty(Shape(bad2), T(1));
        mustThrow([&] { A::matmul(ty, cb); }, "matmul of " + str(bad2) + " and " + str(db));
        checkBits(ta, a, "left operand after rejection");
    }
    if (g.flip(10)) { // unsupported rank pairs
        g.label("unsupported ranks");
        static const int pr[][2] = {{1, 3}, {3, 1}, {2, 4}, {4, 2}, {3, 4}, {4, 3}, {1, 4}, {4, 1}, {5, 3}, {2, 5}};
        const int* p = pr[g.draw(10)];
        int s = g.i(1, 3); Tensor<T> x(Shape(Dims((size_t)p[0], s)), T(1)), y(Shape(Dims((size_t)p[1], s)), T(1));
        mustThrow([&] { A::matmul(x, y); }, "matmul of ranks " + std::to_string(p[0]) + " and " + std::to_string(p[1]));
    }
    if (k > 1 && (m > 1 || n > 1 || form == 0)) g.nontrivial();
}
TWO_TYPES(body)
