// C05: element-wise arithmetic equals broadcasting scalar arithmetic
#include "common.hpp"

static bool refBroadcast(Dims a, Dims b, Dims* out) {
    while (a.size() < b.size()) a.insert(a.begin(), 1);
    while (b.size() < a.size()) b.insert(b.begin(), 1);
    out->clear();
    for (size_t i = 0; i < a.size(); i++) { if (a[i] != b[i] && a[i] != 1 && b[i] != 1) return false; out->push_back(std::max(a[i], b[i])); }
    return true;
}
template <class T> static const T& bget(const Arr<T>& a, const Dims& full, const Dims& ix) {
    size_t r = 0, off = full.size() - a.d.size();
    for (size_t k = 0; k < a.d.size(); k++) r = r * (size_t)a.d[k] + (size_t)(a.d[k] == 1 ? 0 : ix[k + off]);
    return a.v[r];
}
template <class T> static T sop(int o, T x, T y) { volatile T r = o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y; return r; }
static const char* opn[] = {"+", "-", "*", "/"};

template <class T> static Tensor<T> top(int o, const Tensor<T>& x, const Tensor<T>& y) { return o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y; }
template <class T> static void tip(int o, Tensor<T>& x, const Tensor<T>& y) { Tensor<T>* r; if (o == 0) r = &(x += y); else if (o == 1) r = &(x -= y); else if (o == 2) r = &(x *= y); else r = &(x /= y); PCHECK(r == &x, "in-place operator does not return its left operand"); }
template <class T> static Tensor<T> topS(int o, const Tensor<T>& x, T y) { return o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y; }
template <class T> static Tensor<T> stop(int o, T y, const Tensor<T>& x) { return o == 0 ? y + x : o == 1 ? y - x : o == 2 ? y * x : y / x; }
template <class T> static void tipS(int o, Tensor<T>& x, T y) { if (o == 0) x += y; else if (o == 1) x -= y; else if (o == 2) x *= y; else x /= y; }

static Dims derive(Gen& g, const Dims& a) {
    Dims b = a;
    if (g.flip(35)) return b;
    size_t cut = g.draw(b.size() + 1); if (cut >= b.size()) cut = 0;
    b.erase(b.begin(), b.begin() + cut);
    for (int& x : b) if (g.flip(35)) x = 1;
    if (g.flip(12)) b[g.draw(b.size())] = g.i(2, 5);
    if (g.flip(8)) b.insert(b.begin(), g.i(1, 3));
    return b;
}

template <class T> static void body(Gen& g) {
    int which = g.pick({35, 25, 20, 8, 12});
    if (which <= 1) { // tensor op tensor
        Dims da = genDimsBig(g, 1, 5, 250, 4, 5000, 100000), db = derive(g, da);
        VKind k = genKind(g);
        Arr<T> a = genArr<T>(g, da, k), b = genArr<T>(g, db, g.flip(70) ? k : genKind(g)); sprinkle(g, a, true); sprinkle(g, b, true);
        if (which == 0 && g.flip(40)) std::swap(a, b);
        int o = g.i(0, 3);
        NOTE(g, str(a) << " " << opn[o] << (which ? "= " : " ") << str(b));
        Tensor<T> ta = mk(a), tb = mk(b);
        Dims r; bool ok = refBroadcast(a.d, b.d, &r);
        if (which == 0) {
            g.label("tensor op tensor");
            if (!ok) { g.label("rejected"); mustThrow([&] { top(o, ta, tb); }, "combining shapes " + str(a.d) + " and " + str(b.d)); }
            else {
                Arr<T> want{r, {}}; for (size_t i = 0; i < numel(r); i++) { Dims ix = unflat(r, i); want.v.push_back(sop(o, bget(a, r, ix), bget(b, r, ix))); }
                prime<T>(g, {&ta, &tb}, [&] { (void)top(o, (const Tensor<T>&)ta, (const Tensor<T>&)tb); });
                checkSame(snap(top(o, (const Tensor<T>&)ta, (const Tensor<T>&)tb)), want, opn[o]);
                if (a.d != b.d) g.label("broadcasting");
                if (numel(r) > 1) g.nontrivial();
            }
            checkBits(ta, a, "left operand"); checkBits(tb, b, "right operand");
        } else {
            g.label("tensor op= tensor");
            bool self = g.flip(15);
            if (self) {
                g.label("x op= x");
                Arr<T> want = a; for (T& x : want.v) x = sop(o, x, x);
                tip(o, ta, (const Tensor<T>&)ta);
                checkSame(snap(ta), want, "x op= x"); g.nontrivial(); return;
            }
            if (ok && r != a.d && numel(r) == a.n()) return;                // only leading ones differ: unspecified
            if (ok && r == a.d) {
                Arr<T> want{r, {}}; for (size_t i = 0; i < numel(r); i++) { Dims ix = unflat(r, i); want.v.push_back(sop(o, bget(a, r, ix), bget(b, r, ix))); }
                tip(o, ta, (const Tensor<T>&)tb);
                checkSame(snap(ta), want, "in-place operator");
                if (a.d != b.d) g.label("broadcasting");
                if (numel(r) > 1) g.nontrivial();
            } else {
                g.label("rejected");
                mustThrow([&] { tip(o, ta, (const Tensor<T>&)tb); }, "in-place " + str(a.d) + " with " + str(b.d));
                checkBits(ta, a, "left operand of a rejected in-place operation");
            }
            checkBits(tb, b, "right operand");
        }
    } else if (which == 2) { // scalar forms
        g.label("scalar");
        Arr<T> a = genArr<T>(g, genDimsBig(g, 1, 5, 250, 4, 20000, 100000), genKind(g));
        T s = mkVal<T>(g.draw(1ull << 32), genKind(g));
        if (g.flip(10)) s = T(0);
        sprinkle(g, a, true); if (g.flip(2)) s = g.flip(50) ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
        int o = g.i(0, 3);
        NOTE(g, str(a) << " " << opn[o] << " scalar " << s);
        Tensor<T> t = mk(a); const Tensor<T>& ct = t;
        if (o == 3 && s == T(0)) {
            g.label("division by scalar zero");
            mustThrow([&] { topS(o, ct, s); }, "tensor / 0");
            mustThrow([&] { tipS(o, t, s); }, "tensor /= 0");
            checkBits(t, a, "tensor after rejected division");
        } else {
            Arr<T> want = a; for (T& x : want.v) x = sop(o, x, s);
            prime<T>(g, {&t}, [&] { (void)topS(o, ct, s); (void)stop(o, s, ct); });
            checkSame(snap(topS(o, ct, s)), want, "tensor op scalar"); checkBits(t, a, "operand");
            Tensor<T> u = mk(a); tipS(o, u, s); checkSame(snap(u), want, "tensor op= scalar");
        }
        Arr<T> want = a; for (T& x : want.v) x = sop(o, s, x);
        checkSame(snap(stop(o, s, ct)), want, "scalar op tensor"); checkBits(t, a, "operand");
        if (a.n() > 1) g.nontrivial();
    } else if (which == 3) { // unary
        g.label("unary");
        Arr<T> a = genArr<T>(g, genDimsBig(g, 1, 5, 250, 4, 20000, 100000), genKind(g));
        sprinkle(g, a); NOTE(g, str(a));
        Tensor<T> t = mk(a); const Tensor<T>& ct = t;
        Arr<T> w = a; for (T& x : w.v) x = -x;
        checkSame(snap(-ct), w, "unary minus");
        w = a; for (T& x : w.v) x = std::sqrt(x);
        checkSame(snap(ct.sqrt()), w, "sqrt"); checkBits(t, a, "operand");
        Tensor<T> u = mk(a); TensorOperations<T, CPUDevice>::sqrtInPlace(u.getData()); checkSame(snap(u), w, "in-place sqrt");
        T e = T(1e-12); bool custom = g.flip(40); if (custom) { static const double es[] = {1e-3, 0.5, 2.0, 1e-8}; e = T(es[g.draw(4)]); }
        w = a; for (T& x : w.v) x = std::fabs(x) > e ? T(1) / x : T(1) / e;
        checkSame(snap(custom ? AdvancedTensorOperations<T>::reciprocal(ct, e) : AdvancedTensorOperations<T>::reciprocal(ct)), w, "reciprocal"); checkBits(t, a, "operand");
        if (a.n() > 1) g.nontrivial();
    } else { // apply, applyPair
        g.label("apply");
        Arr<T> a = genArr<T>(g, genDimsBig(g, 1, 5, 250, 4, 20000, 100000), V_NORMAL), b = genArr<T>(g, a.d, V_NORMAL);
        NOTE(g, str(a) << " " << str(b));
        T c = T(g.i(1, 5));
        auto f = [c](T x) -> T { volatile T r = x * c; r = r + T(1); return r; };
        auto f2 = [c](T x, T y) -> T { volatile T r = x * y; r = r - c * x; return r; };
        Tensor<T> ta = mk(a), tb = mk(b); const Tensor<T>&ca = ta, &cb = tb;
        Arr<T> w = a; for (T& x : w.v) x = f(x);
        checkSame(snap(AdvancedTensorOperations<T>::apply(ca, f)), w, "apply"); checkBits(ta, a, "operand");
        Tensor<T> u = mk(a); u.apply(f); checkSame(snap(u), w, "in-place apply");
        w = a; for (size_t i = 0; i < w.n(); i++) w.v[i] = f2(a.v[i], b.v[i]);
        auto P = [&](const Tensor<T>& x, const Tensor<T>& y) { return AdvancedTensorOperations<T>::applyPair(x, y, f2); };
        Arr<T> got = snap(P(ca, cb));
        PCHECK(got.d == w.d, "applyPair shape");
        for (size_t i = 0; i < w.n(); i++) PCHECK(std::fabs((double)got.v[i] - (double)w.v[i]) <= 8 * (double)epsOf<T>() * (1 + std::fabs((double)w.v[i])) * 32, "applyPair element " << i << " is " << got.v[i] << ", expected " << w.v[i]);
        w = a; for (size_t i = 0; i < w.n(); i++) w.v[i] = f2(a.v[i], a.v[i]);
        (void)P(ca, ca); checkBits(ta, a, "operand"); checkBits(tb, b, "operand");
        Dims d2 = a.d; int how = g.i(0, 2);
        if (how == 0) d2.push_back(1); else if (how == 1) d2[g.draw(d2.size())] += 1; else std::reverse(d2.begin(), d2.end());
        if (d2 != a.d) { Tensor<T> o(Shape(d2), T(1)); mustThrow([&] { P(ca, o); }, "applyPair on shapes " + str(a.d) + " and " + str(d2)); mustThrow([&] { P(o, ca); }, "applyPair on shapes " + str(d2) + " and " + str(a.d)); }
        if (a.n() > 1) g.nontrivial();
    }
}
TWO_TYPES(body)
