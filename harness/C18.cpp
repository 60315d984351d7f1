// C18: dropout
#include "layers.hpp"

// number of successes of a Bernoulli-like count judged at more than nine standard deviations
static void judge(ld count, ld n, ld p, ld var, const std::string& what) {
    ld dev = fabsl(count - n * p), lim = 9 * sqrtl(var) + 12;
    PCHECK(dev <= lim, what << ": " << (double)(count / n) << " of " << (double)n << ", expected " << (double)p << " (deviation " << (double)dev << " in counts, limit " << (double)lim << ")");
}
static void judge1(ld count, ld n, ld p, const std::string& what) { judge(count, n, p, n * p * (1 - p), what); }
static void judge2(ld count, ld n, ld p, const std::string& what) { judge(count, n, p * p, n * (p * p * (1 - p * p) + 2 * p * p * p * (1 - p)), what); }

template <class T> static T genRate(Gen& g) { static const double r[] = {0.5, 0.1, 0.2, 0.25, 0.75, 0.9, 0.0, 0.3, 0.05, 0.99, 0.01, 0.6, 0.8}; if (g.flip(25)) return (T)(g.i(0, 980) / 1000.0); return (T)r[g.draw(13)]; }
template <class T> static std::vector<T> genNonzero(Gen& g, size_t n) { std::vector<T> v = genVals<T>(g, n, g.flip(70) ? V_NORMAL : V_WIDE); for (auto& x : v) if (x == T(0)) x = T(1.25); return v; }
// reads the choice off an output; in and out hold no zero input
template <class T> static std::vector<char> decode(const Arr<T>& in, const Arr<T>& out, T rate, const char* what) {
    PCHECK(in.d == out.d, what << " has shape " << str(out.d) << ", expected " << str(in.d));
    std::vector<char> keep(in.n()); ld f = 1 / (1 - (ld)rate);
    for (size_t i = 0; i < in.n(); i++) {
        if (in.v[i] != T(0) && out.v[i] == T(0)) { keep[i] = 0; continue; }
        keep[i] = 1; ld w = f * (ld)in.v[i];
        // 1-rate is rounded once in T, the quotient and product once each
        PCHECK(fabsl((ld)out.v[i] - w) <= 4 * epsOf<T>() * fabsl(w) + epsOf<T>() * fabsl(w) * f, what << ": element " << i << " of value " << in.v[i] << " became " << out.v[i] << ", neither 0 nor " << (double)w << " (rate " << rate << ")");
    }
    return keep;
}
template <class T> static void run(Gen& g) {
    T rate = genRate<T>(g); uint32_t seed = g.seed32(); RandomEngine::setSeed(seed); DropoutLayer<T> L(rate); ld p = rate;
    NOTE(g, "Dropout " << rate << " seed " << seed);
    switch (g.pick({80, 10, 10})) {
        case 0: {
            g.label("history"); bool training = true; bool have = false; Arr<T> x; std::vector<char> keep; int n = histLen(g, 1, 10), did = 0;
            for (int s = 0; s < n; s++) {
                int op = g.pick({35, 30, 15, 10, 10});
                if (op == 2) { training = !training; static_cast<Layer<T>&>(L).setTrainingMode(training); NOTE(g, (training ? " train-mode" : " eval-mode")); }
                else if (op == 0) {
                    Dims d = genDims(g, 1, 5, 200); Arr<T> a{d, genNonzero<T>(g, numel(d))}; Tensor<T> at = mk(a); NOTE(g, " forward " << str(d)); if (training && g.flip(15)) { uint64_t es = g.seed32(); NOTE(g, " extreme engine outputs " << es); extremeEngine(es); g.label("extreme engine outputs"); }
                    Arr<T> y = snap(L.forward(at)); checkBits(at, a, "input of forward"); did++;
                    if (!training) { g.label("evaluation"); checkBits(mk(y), a, "evaluation output against its input"); }
                    else {
                        keep = decode(a, y, rate, "training output"); x = a; have = true;
                        if (rate == T(0)) for (char k : keep) PCHECK(k, "an element was dropped at rate 0");
                    }
                } else if (op == 1) {
                    Dims d = training && have ? x.d : genDims(g, 1, 4, 60); Arr<T> a{d, genNonzero<T>(g, numel(d))}; Tensor<T> at = mk(a); NOTE(g, " backward " << str(d));
                    if (training && !have) { g.label("backward before forward"); mustThrow([&] { L.backward(at); }, "dropout backward before any training forward"); continue; }
                    Arr<T> y = snap(L.backward(at)); checkBits(at, a, "gradient passed to backward"); did++;
                    if (!training) checkBits(mk(y), a, "evaluation gradient against its argument");
                    else { g.label("backward"); auto k = decode(a, y, rate, "input gradient"); for (size_t i = 0; i < k.size(); i++) PCHECK(k[i] == keep[i], "element " << i << " of " << str(d) << " was " << (keep[i] ? "kept" : "dropped") << " in forward and " << (k[i] ? "kept" : "dropped") << " in backward"); }
                } else if (op == 3 && training && have) {
                    Dims d = x.d; switch (g.i(0, 3)) { case 0: d.push_back(1); break; case 1: d.insert(d.begin(), 1); break; case 2: d[g.draw(d.size())]++; break; default: if (d.size() > 1 && d[0] != d[1]) std::swap(d[0], d[1]); else d.push_back(2); }
                    NOTE(g, " wrong gradient " << str(d)); g.label("wrong gradient shape"); Tensor<T> t{Shape(d), T(1)};
                    mustThrow([&] { L.backward(t); }, "dropout gradient of shape " + str(d) + " after a forward of shape " + str(x.d));
                } else if (op == 4) { // zeros and infinities in the input
                    if (!training) continue;
                    Dims d = genDims(g, 1, 3, 40); Arr<T> a = genArr<T>(g, d, V_SMALLINT); NOTE(g, " forward " << str(a)); Arr<T> y = snap(L.forward(mk(a))); PCHECK(y.d == d, "output has shape " << str(y.d));
                    for (size_t i = 0; i < a.n(); i++) if (a.v[i] == T(0)) PCHECK(y.v[i] == T(0), "a zero element became " << y.v[i]);
                    keep = decode(a, y, rate, "training output"); Arr<T> one{d, std::vector<T>(a.n(), T(1))}; auto k = decode(one, snap(L.backward(mk(one))), rate, "input gradient");
                    for (size_t i = 0; i < a.n(); i++) if (a.v[i] != T(0)) PCHECK(k[i] == keep[i], "element " << i << " treated differently in forward and backward");
                    x = a; keep = k; have = true;
                }
            }
            if (did >= 2) g.nontrivial();
            break;
        }
        case 1: {
            g.label("one large tensor"); Dims d;
            switch (g.i(0, 4)) { case 0: d = {g.i(20000, 30000)}; break; case 1: d = {g.i(150, 220), g.i(140, 160)}; break; case 2: d = {g.i(20, 40), g.i(20, 40), g.i(40, 50)}; break; case 3: d = {g.i(8, 16), g.i(3, 8), 32, 32}; break; default: d = {1, g.i(20000, 30000), 1}; }
            size_t n = numel(d); NOTE(g, " large " << str(d)); Arr<T> one{d, std::vector<T>(n, T(1))}; Tensor<T> ot = mk(one);
            auto k1 = decode(one, snap(L.forward(ot)), rate, "training output"), k2 = decode(one, snap(L.forward(ot)), rate, "training output");
            auto kb = decode(one, snap(L.backward(ot)), rate, "input gradient"); PCHECK(kb == k2, "backward does not use the latest choice");
            auto freq = [&](const std::vector<char>& k, size_t from, size_t to, size_t step, const char* w) { ld c = 0, m = 0; for (size_t i = from; i < to; i += step) { c += !k[i]; m++; } judge1(c, m, p, std::string("fraction dropped, ") + w); };
            for (auto* k : {&k1, &k2}) { freq(*k, 0, n, 1, "all elements"); freq(*k, 0, n / 2, 1, "first half"); freq(*k, n / 2, n, 1, "second half"); freq(*k, n - n / 10, n, 1, "last tenth"); freq(*k, 0, n / 10, 1, "first tenth"); freq(*k, 0, n, 2, "even positions"); freq(*k, 1, n, 2, "odd positions"); freq(*k, 0, n, (size_t)d.back() == n ? 3 : d.back(), "one column"); }
            std::vector<size_t> lags{1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 128, 256, 1000, 1024, n / 2, n / 3}; if (d.back() > 1 && (size_t)d.back() < n) lags.push_back(d.back()); if (d.size() > 1 && numel(d) / d[0] < n) lags.push_back(numel(d) / d[0]);
            for (size_t lag : lags) { ld c = 0, m = 0; for (size_t i = 0; i + lag < n; i++) { c += !k1[i] && !k1[i + lag]; m++; } judge2(c, m, p, "fraction of element pairs " + std::to_string(lag) + " apart dropped together"); }
            { ld c = 0; for (size_t i = 0; i < n; i++) c += !k1[i] && !k2[i]; judge2(c, n, p, "fraction of elements dropped in both of two passes"); }
            g.nontrivial(); break;
        }
        default: {
            g.label("many passes over a small tensor"); Dims d = genDims(g, 1, 4, 12); size_t n = numel(d); const int R = 3000; NOTE(g, " small " << str(d) << " x" << R);
            Arr<T> one{d, std::vector<T>(n, T(1))}; Tensor<T> ot = mk(one); std::vector<std::vector<char>> ks;
            bool mix = g.flip(30);
            for (int r = 0; r < R; r++) {
                ks.push_back(decode(one, snap(L.forward(ot)), rate, "training output"));
                if (mix && r % 5 == 0) { (void)L.backward(ot); L.setTrainingMode(false); (void)L.forward(ot); L.setTrainingMode(true); }
            }
            for (size_t i = 0; i < n; i++) { ld c = 0, j = 0; for (int r = 0; r < R; r++) { c += !ks[r][i]; if (r) j += !ks[r][i] && !ks[r - 1][i]; } judge1(c, R, p, "fraction of passes dropping element " + std::to_string(i)); judge2(j, R - 1, p, "fraction of consecutive passes both dropping element " + std::to_string(i)); }
            for (size_t a = 0; a < n; a++) for (size_t b = 0; b < a; b++) { ld c = 0; for (int r = 0; r < R; r++) c += !ks[r][a] && !ks[r][b]; judge2(c, R, p, "fraction of passes dropping elements " + std::to_string(b) + " and " + std::to_string(a) + " together"); }
            if (rate > T(0)) g.nontrivial();
        }
    }
}
TWO_TYPES(run)
