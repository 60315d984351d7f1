// C09: factories and random generators
#include "common.hpp"

template <class T> static void mustBe(const Tensor<T>& t, const Dims& d, T v, const char* what) {
    Arr<T> w{d, std::vector<T>(numel(d), v)}; checkSame(snap(t), w, what);
}
template <class T> static void eye(const Tensor<T>& t, int n) {
    Arr<T> w{{n, n}, std::vector<T>((size_t)n * n, T(0))}; for (int i = 0; i < n; i++) w.v[(size_t)i * n + i] = T(1);
    checkSame(snap(t), w, "identity");
}
static float rangeVal(Gen& g) { switch (g.i(0, 3)) { case 0: return (float)g.i(-4, 4); case 1: return (float)(g.i(-4000, 4000) / 1000.0); case 2: return (float)(g.i(-100, 100) * 1e-3); default: return (float)(g.i(-9, 9) * 1e4); } }

// one request to the random machinery; appends what came out
template <class T> struct Req { int kind; Dims d; T lo, hi; float n; };
template <class T> static Req<T> genReq(Gen& g) {
    Req<T> r; r.kind = g.i(0, 8); r.d = genDims(g, 1, 4, 80);
    double a = rangeVal(g), b = rangeVal(g); if (g.flip(50)) { a /= 3; b /= 7; }
    if (a > b) std::swap(a, b); if (a == b) b = a + 0.7;
    if (g.flip(40)) { a = -std::fabs(a) - 0.1; b = std::fabs(b) + 0.1; }
    r.lo = (T)a; r.hi = (T)b; if (!(r.lo < r.hi)) r.hi = r.lo + T(1) + std::fabs(r.lo);
    r.n = (float)g.i(1, 300); return r;
}
template <class T> static void serve(const Req<T>& r, std::vector<double>& out, bool check) {
    auto tens = [&](const Tensor<T>& t, const Dims& d, T lo, T hi, const char* w) {
        Arr<T> a = snap(t); if (check) PCHECK(a.d == d, w << " has shape " << str(a.d) << ", expected " << str(d));
        for (T x : a.v) { if (check) PCHECK(x >= lo && x <= hi, w << " returned " << std::setprecision(17) << x << " outside [" << lo << "," << hi << "]"); out.push_back((double)x); }
    };
    auto sc = [&](float x, float lo, float hi, const char* w) { if (check) PCHECK(x >= lo && x <= hi, w << " returned " << std::setprecision(9) << x << " outside [" << lo << "," << hi << "]"); out.push_back(x); };
    float inf = std::numeric_limits<float>::infinity();
    int sz = (int)numel(r.d);
    switch (r.kind) {
        case 0: tens(Tensor<T>::rand(Shape(r.d)), r.d, T(0), T(1), "rand"); break;
        case 1: tens(Tensor<T>::randn(Shape(r.d), r.lo, r.hi), r.d, r.lo, r.hi, "randn"); break;
        case 2: tens(Tensor<T>::rand(sz), {sz}, T(0), T(1), "rand(size)"); break;
        case 3: tens(Tensor<T>::randn(sz, r.lo, r.hi), {sz}, r.lo, r.hi, "randn(size)"); break;
        case 4: sc(RandomEngine::getRand(), 0, 1, "getRand"); break;
        case 5: { float a = (float)r.lo, b = (float)r.hi; if (a < b) sc(RandomEngine::getRandRange(a, b), a, b, "getRandRange"); break; }
        case 6: sc(RandomEngine::getXavierInit(r.n), -inf, inf, "getXavierInit"); break;
        case 7: sc(RandomEngine::getHeInit(r.n), -inf, inf, "getHeInit"); break;
        default: { float a = (float)r.lo, b = (float)r.hi; if (a < b) sc(RandomEngine::getHeRandRange(r.n, a, b), a, b, "getHeRandRange"); break; }
    }
}
template <class T> static void body(Gen& g) {
    switch (g.pick({30, 40, 20, 10})) {
        case 0: {
            g.label("constant factories");
            Dims d = genDimsBig(g, 1, 6, 300, 5, 5000, 70001); int n = g.flip(90) ? g.i(1, 40) : g.i(41, 300);
            NOTE(g, str(d) << " n=" << n);
            mustBe(Tensor<T>::ones(Shape(d)), d, T(1), "ones"); mustBe(Tensor<T>::zeros(Shape(d)), d, T(0), "zeros");
            mustBe(Tensor<T>::ones(n), {n}, T(1), "ones(size)"); mustBe(Tensor<T>::zeros(n), {n}, T(0), "zeros(size)");
            int m = g.pick({70, 26, 4}); m = m == 0 ? std::min(n, 30) : m == 1 ? std::min(n, 120) : g.flip(50) ? g.i(60, 300) : g.i(200, 700); eye(Tensor<T>::identity(m), m); if (m > 100) g.label("large identity");
            T v = mkVal<T>(g.draw(1ull << 32), V_WIDE); if (g.flip(20)) v = T(0.1);
            mustBe(Tensor<T>(Shape(d), v), d, v, "filled tensor"); mustBe(Tensor<T>(Shape(d)), d, T(0), "default tensor");
            mustBe(Tensor<T>(TensorData<T, CPUDevice>(Shape(d))), d, T(0), "default tensor data"); mustBe(Tensor<T>(TensorData<T, CPUDevice>(Shape(d), v)), d, v, "filled tensor data");
            mustBe(Tensor<T>(TensorOperations<T, CPUDevice>::createFill(Shape(d), v)), d, v, "createFill");
            Tensor<T> f{Shape(d)}; f.getData().fill(v); mustBe(f, d, v, "fill");
            if (numel(d) > 1) g.nontrivial();
            break;
        }
        case 1: {
            g.label("seeded request sequence");
            uint32_t seed = g.seed32(); int k = g.i(1, 10);
            std::vector<Req<T>> rs; for (int i = 0; i < k; i++) rs.push_back(genReq<T>(g));
            std::ostringstream rt; for (auto& r : rs) rt << r.kind << str(r.d) << "[" << r.lo << "," << r.hi << "] ";
            NOTE(g, "seed " << seed << " requests " << rt.str());
            std::vector<double> a, b, c;
            RandomEngine::setSeed(seed); for (auto& r : rs) serve(r, a, true);
            RandomEngine::setSeed(seed);
            for (auto& r : rs) { // work that asks for no randomness must not consume any
                (void)Tensor<T>::ones(Shape(r.d)); Tensor<T> z = Tensor<T>::zeros(Shape(r.d)); z += T(1); (void)(z * z);
                serve(r, b, false);
            }
            PCHECK(a.size() == b.size(), "the same requests after the same seed gave " << a.size() << " and then " << b.size() << " numbers");
            for (size_t i = 0; i < a.size(); i++) PCHECK(sameBits(a[i], b[i]), "number " << i << " of the same requests after the same seed is " << a[i] << " and then " << b[i]);
            if (g.flip(15)) { g.label("extreme engine outputs"); uint64_t es = g.seed32(); NOTE(g, " extreme engine outputs " << es); extremeEngine(es); std::vector<double> x; for (auto& r : rs) serve(r, x, true); for (double v : x) PCHECK(std::isfinite(v), "a random number is " << v); RandomEngine::setSeed(seed); }
            // a prefix of the requests yields a prefix of the numbers
            size_t cut = g.draw(rs.size()); RandomEngine::setSeed(seed); for (size_t i = 0; i < cut; i++) serve(rs[i], c, false);
            for (size_t i = 0; i < c.size(); i++) PCHECK(sameBits(a[i], c[i]), "number " << i << " depends on later requests");
            if (a.size() > 1) g.nontrivial();
            break;
        }
        case 2: {
            g.label("variation");
            Dims d = genDims(g, 1, 3, 60); d[g.draw(d.size())] += 70;
            uint32_t seed = g.seed32(); RandomEngine::setSeed(seed);
            double a = -std::fabs(rangeVal(g)), b = std::fabs(rangeVal(g)); if (a == b) b = 1;
            bool plain = g.flip(40); if (plain) { a = 0; b = 1; }
            NOTE(g, "seed " << seed << " " << str(d) << " in [" << a << "," << b << "]");
            auto make = [&] { return plain ? Tensor<T>::rand(Shape(d)) : Tensor<T>::randn(Shape(d), (T)a, (T)b); };
            Arr<T> x = snap(make()), y = snap(make());
            bool same = true, vary = false;
            for (size_t i = 0; i < x.n(); i++) { same &= x.v[i] == y.v[i]; vary |= x.v[i] != x.v[0]; }
            PCHECK(vary, "all " << x.n() << " elements of a random tensor of shape " << str(d) << " are " << x.v[0]);
            PCHECK(!same, "two random tensors of shape " << str(d) << " drawn one after the other are equal");
            RandomEngine::setSeed(seed + 1); Arr<T> z = snap(make()); bool eq = true; for (size_t i = 0; i < x.n(); i++) eq &= x.v[i] == z.v[i];
            PCHECK(!eq, "seeds " << seed << " and " << seed + 1 << " give the same random tensor");
            // no position is stuck: the last elements vary between calls as well
            bool tail = false; for (int rep = 0; rep < 60 && !tail; rep++) { Arr<T> w = snap(make()); tail = w.v.back() != x.v.back(); }
            PCHECK(tail, "the last element of a random tensor was the same in 61 calls");
            g.nontrivial(); break;
        }
        default: {
            g.label("generator statistics");
            const int N = 4000; int which = g.i(0, 4); float n = (float)g.i(1, 500); float lo = rangeVal(g), hi = lo + 0.5f + std::fabs(rangeVal(g));
            if (which == 1 && std::fabs(lo) > 50 * (hi - lo)) lo = hi - 1 - std::fabs(hi) / 50; // fine enough for the statistics not to see float rounding
            uint32_t seed = g.seed32(); RandomEngine::setSeed(seed);
            NOTE(g, "generator " << which << " seed " << seed << " n=" << n << " range " << lo << ".." << hi);
            double s = 0, q = 0; std::set<float> distinct;
            for (int i = 0; i < N; i++) {
                float x = which == 0 ? RandomEngine::getRand() : which == 1 ? (RandomEngine::getRandRange(lo, hi) - lo) / (hi - lo) : which == 2 ? RandomEngine::getXavierInit(n) * std::sqrt(n) : which == 3 ? RandomEngine::getHeInit(n) * std::sqrt(n / 2) : RandomEngine::getHeRandRange(n, -1e6f, 1e6f) * std::sqrt(n / 2);
                s += x; q += (double)x * x; distinct.insert(x);
            }
            double mean = s / N, var = q / N - mean * mean;
            static const char* nm[] = {"getRand", "getRandRange", "getXavierInit", "getHeInit", "getHeRandRange"};
            // bounds beyond 10 standard errors; float rounding of wide ranges adds a little
            if (which <= 1) { PCHECK(std::fabs(mean - 0.5) < 0.06, nm[which] << ": mean of " << N << " draws, scaled to [0,1], is " << mean); PCHECK(std::fabs(var - 1.0 / 12) < 0.02, nm[which] << ": variance of " << N << " draws, scaled to [0,1], is " << var); }
            else { PCHECK(std::fabs(mean) < 0.17, nm[which] << ": mean of " << N << " draws, in standard deviations, is " << mean); PCHECK(std::fabs(var - 1) < 0.27, nm[which] << ": variance of " << N << " draws, relative to the documented one, is " << var); }
            PCHECK(distinct.size() > 500, nm[which] << ": only " << distinct.size() << " distinct values in " << N << " draws");
            g.nontrivial(); break;
        }
    }
}
TWO_TYPES(body)
