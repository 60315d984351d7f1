// C34: what a newly built layer starts from: fresh, independent, He-scaled weights clamped to [0, 1], zero biases, neutral statistics
#include "model.hpp"

struct LSpec { bool conv; int a, b, kh, kw; };
template <class T> struct Params { Arr<T> w, b; };
// built directly, or added to a model and looked up there
template <class T> static Params<T> fresh(const LSpec& s, int how) {
    Params<T> p; int st = 1 + how % 2, pad = how % 3 % 2, dl = 1 + how % 5 % 2;
    if (how % 2 == 0) { if (s.conv) { Conv2DLayer<T> l(s.a, s.b, s.kh, s.kw, st, pad, dl); p.w = snap(l.getWeights()); p.b = snap(l.getBiases()); } else { FullyConnectedLayer<T> l(s.a, s.b); p.w = snap(l.getWeights()); p.b = snap(l.getBiases()); } }
    else { SmartDNN<T> m; m.addLayer(FlattenLayer<T>()); if (s.conv) m.addLayer(Conv2DLayer<T>(s.a, s.b, s.kh, s.kw, st, pad, dl)); else m.addLayer(FullyConnectedLayer<T>(s.a, s.b)); auto* l = m.getLayer(1);
        if (auto* c = dynamic_cast<Conv2DLayer<T>*>(l)) { p.w = snap(c->getWeights()); p.b = snap(c->getBiases()); } else if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(l)) { p.w = snap(f->getWeights()); p.b = snap(f->getBiases()); } else PFAIL("getLayer(1) is not the layer added second"); }
    Dims want = s.conv ? Dims{s.b, s.a, s.kh, s.kw} : Dims{s.a, s.b}; PCHECK(p.w.d == want, "a new layer has weights of shape " << str(p.w.d) << ", expected " << str(want)); PCHECK(p.b.n() == (size_t)s.b, "a new layer has " << p.b.n() << " biases for " << s.b << " outputs");
    for (size_t i = 0; i < p.w.n(); i++) PCHECK(p.w.v[i] >= T(0) && p.w.v[i] <= T(1), "weight " << i << " of a new layer of shape " << str(want) << " is " << p.w.v[i] << ", not in [0, 1]");
    for (size_t i = 0; i < p.b.n(); i++) PCHECK(p.b.v[i] == T(0), "bias " << i << " of a new layer of shape " << str(want) << " is " << p.b.v[i]);
    return p;
}
static std::string str(const LSpec& s) { std::ostringstream o; if (s.conv) o << "Conv(" << s.a << "," << s.b << "," << s.kh << "x" << s.kw << ")"; else o << "FC(" << s.a << "," << s.b << ")"; return o.str(); }
static LSpec small(Gen& g) { LSpec s; s.conv = g.flip(45); s.a = g.i(1, 5); s.b = g.i(1, 5); s.kh = s.conv ? g.i(1, 4) : 1; s.kw = s.conv ? g.i(1, 4) : 1; return s; }
// a weight as a uniform number: its place in the normal distribution of standard deviation sqrt(2/n); the mass of clamped values is spread with numbers of our own
static double place(double x, double n, uint64_t& st) { double s = std::sqrt(2 / n), u = (pbt::splitmix(st) >> 11) * (1.0 / 9007199254740992.0); if (x <= 0) return u / 2; double top = 0.5 * std::erfc(-1 / s / std::sqrt(2.0)); if (x >= 1) return top + u * (1 - top); return 0.5 * std::erfc(-x / s / std::sqrt(2.0)); }
template <class T> static std::vector<double> places(const Arr<T>& w, uint64_t& st) { std::vector<double> r; for (T v : w.v) r.push_back(place((double)v, (double)w.n(), st)); return r; }
// statistics of independent uniform numbers, nine standard errors wide
static void uniform(const std::vector<double>& x, const std::string& what) {
    double n = x.size(); if (n < 30) return; double m = 0, v = 0; for (double q : x) m += q; m /= n; for (double q : x) v += (q - 0.5) * (q - 0.5); v /= n;
    double sm = std::sqrt(1.0 / 12 / n), sv = std::sqrt(1.0 / 180 / n);
    PCHECK(std::fabs(m - 0.5) <= 9 * sm, what << " have mean " << m << " over " << n << " (nine standard errors are " << 9 * sm << ")"); PCHECK(std::fabs(v - 1.0 / 12) <= 9 * sv + 4 / n, what << " have variance " << v << " over " << n << ", expected " << 1.0 / 12);
    if (n >= 200) { int bins = n >= 2000 ? 16 : 4; std::vector<int> c(bins, 0); for (double q : x) c[std::min(bins - 1, (int)(q * bins))]++; double e = n / bins, s = std::sqrt(e * (1 - 1.0 / bins)); for (int k = 0; k < bins; k++) PCHECK(std::fabs(c[k] - e) <= 9 * s + 2, what << ": " << c[k] << " of " << n << " fall into bin " << k << " of " << bins << ", expected " << e); }
}
static void corr(const std::vector<double>& x, const std::vector<double>& y, const std::string& what) { double n = x.size(), s = 0; if (n < 30) return; for (size_t i = 0; i < x.size(); i++) s += (x[i] - 0.5) * (y[i] - 0.5); s /= n; double se = 1.0 / 12 / std::sqrt(n); PCHECK(std::fabs(s) <= 9 * se, what << " are correlated: " << s * 12 << " over " << n << " pairs (nine standard errors are " << 9 * se * 12 << ")"); }

template <class T> static void sequence(Gen& g) { // several layers one after the other, other objects in between
    g.label("sequence of layers"); RandomEngine::setSeed(g.seed32()); int n = g.i(2, 8); std::vector<Params<T>> all; std::string note; std::vector<LSpec> sp; bool alike = g.flip(60);
    for (int k = 0; k < n; k++) { LSpec s = k && alike ? sp[0] : small(g); sp.push_back(s); int how = g.i(0, 29); note += str(s) + " "; if (g.flip(25)) { BatchNormalizationLayer<T> b(3); DropoutLayer<T> d(T(0.5)); Tensor<T> z(Shape({5})); } all.push_back(fresh<T>(s, how)); }
    NOTE(g, note); bool varied = false;
    for (int k = 0; k < n; k++) { size_t m = all[k].w.n(); if (m >= 50) { bool same = true; for (T v : all[k].w.v) if (v != all[k].w.v[0]) same = false; PCHECK(!same, "all " << m << " weights of a new " << str(sp[k]) << " are " << all[k].w.v[0]); }
 varied |= m > 1;
        for (int q = 0; q < k; q++) { size_t c = std::min(m, all[q].w.n()), in1 = 0, in2 = 0; bool eq = true, rev = true; for (size_t i = 0; i < c; i++) { T x = all[k].w.v[i], y = all[k].w.v[m - 1 - i]; if (all[q].w.v[i] != x) eq = false; if (all[q].w.v[all[q].w.n() - 1 - i] != y) rev = false; in1 += x > T(0) && x < T(1); in2 += y > T(0) && y < T(1); } PCHECK(!(eq && in1 >= 2) && !(rev && in2 >= 2), "layer " << k << " (" << str(sp[k]) << ") starts with the weights of layer " << q << " (" << str(sp[q]) << ")"); } }
    // no number is used twice: among few draws of 24 bits two equal ones are rare, more are not credible
    std::map<T, int> seen; int dup = 0; size_t tot = 0; for (auto& p : all) for (T v : p.w.v) if (v > T(0) && v < T(1)) { tot++; if (seen[v]++) dup++; } PCHECK(dup <= 2 + (int)(tot * tot / 2000000), dup << " of " << tot << " initial weights are repeated");
    if (varied) g.nontrivial();
}
template <class T> static void large(Gen& g) {
    g.label("large layer"); RandomEngine::setSeed(g.seed32()); LSpec s; s.conv = g.flip(50); if (s.conv) { s.a = g.i(2, 24); s.b = g.i(2, 24); s.kh = g.i(1, 5); s.kw = g.i(1, 5); } else { s.a = g.i(20, 260); s.b = g.i(10, 130); s.kh = s.kw = 1; }
    NOTE(g, "large " << str(s)); Params<T> p = fresh<T>(s, g.i(0, 29)); uint64_t own = g.seed32(); std::vector<double> x = places(p.w, own); size_t n = x.size(); uniform(x, "weights of a new " + str(s));
    for (size_t dim = 0; dim < p.w.d.size(); dim++) { int D = p.w.d[dim]; if (D < 2) continue; std::vector<std::vector<double>> part(D); for (size_t i = 0; i < n; i++) part[unflat(p.w.d, i)[dim]].push_back(x[i]); for (int q = 0; q < D; q++) uniform(part[q], "weights of a new " + str(s) + " at index " + std::to_string(q) + " of dimension " + std::to_string(dim)); for (int q = 1; q < D; q++) corr(part[q - 1], part[q], "weights of a new " + str(s) + " at neighbouring indices of dimension " + std::to_string(dim)); corr(part[0], part[D - 1], "weights of a new " + str(s) + " at the first and last index of dimension " + std::to_string(dim)); }
    std::set<size_t> lags{1, 2, 3, 4, 7, 8, 16, 31, 32, 64, 100, 128, 256, 500, 512, 624, 1000, 1024}; for (int d : p.w.d) { lags.insert(d); lags.insert(2 * d); } lags.insert(n / 2); lags.insert((n + 1) / 2);
    for (size_t L : lags) if (L && L + 50 < n) corr(std::vector<double>(x.begin(), x.end() - L), std::vector<double>(x.begin() + L, x.end()), "weights of a new " + str(s) + " " + std::to_string(L) + " apart");
    if (!s.conv && s.a == s.b) { std::vector<double> u, v; for (int i = 0; i < s.a; i++) for (int j = 0; j < i; j++) { u.push_back(x[i * s.a + j]); v.push_back(x[j * s.a + i]); } corr(u, v, "transposed weights of a new layer"); }
    if (n > 30) g.nontrivial();
}
template <class T> static void many(Gen& g) { // the same small layer many times: every position has the whole distribution, no two positions go together
    g.label("many small layers"); RandomEngine::setSeed(g.seed32()); LSpec s = small(g); while ((size_t)s.a * s.b * s.kh * s.kw > 24) { if (s.b > 1) s.b--; else if (s.a > 1) s.a--; else if (s.kh > 1) s.kh--; else s.kw--; } int R = 500, how = g.i(0, 29); NOTE(g, R << " times " << str(s)); std::vector<std::vector<double>> at;
    uint64_t own = g.seed32(); for (int r = 0; r < R; r++) { Params<T> p = fresh<T>(s, how); std::vector<double> x = places(p.w, own); if (at.empty()) at.resize(x.size()); for (size_t i = 0; i < x.size(); i++) at[i].push_back(x[i]); }
    for (size_t i = 0; i < at.size(); i++) { uniform(at[i], "weight " + std::to_string(i) + " of new " + str(s) + " layers"); corr(std::vector<double>(at[i].begin() + 1, at[i].end()), std::vector<double>(at[i].begin(), at[i].end() - 1), "weight " + std::to_string(i) + " of consecutive new " + str(s) + " layers"); for (size_t j = 0; j < i; j++) corr(at[i], at[j], "weights " + std::to_string(j) + " and " + std::to_string(i) + " of new " + str(s) + " layers"); }
    g.nontrivial();
}
template <class T> static void batchNorm(Gen& g) {
    g.label("batch norm"); int f = g.i(1, 40); bool four = g.flip(50); bool low = g.flip(30), set = g.flip(40); BatchNormalizationLayer<T> l(f); NOTE(g, "new BN(" << f << ")" << (four ? " on images" : ""));
    // in evaluation before any training it only divides by sqrt(1 + epsilon)
    Dims d = four ? Dims{g.i(1, 3), f, g.i(1, 3), g.i(1, 3)} : Dims{g.i(1, 4), f}; Arr<T> x = genArr<T>(g, d, low ? V_WIDE : V_NORMAL); l.setTrainingMode(false); Arr<T> y = snap(l.forward(mk(x))); PCHECK(y.d == d, "shape " << str(y.d));
    for (size_t i = 0; i < x.n(); i++) { ld e = x.v[i] / sqrtl(1 + 1e-5L); PCHECK(fabsl(y.v[i] - e) <= 16 * epsOf<T>() * fabsl(e) + 1e-30L, "an untrained batch norm turns " << x.v[i] << " into " << y.v[i] << " in evaluation, expected " << (double)e); }
    // gamma and beta as handed to an optimizer after one step
    l.setTrainingMode(true); Dims t = set ? Dims{4, f} : Dims{2, f, 2, 2}; Arr<T> in = genArr<T>(g, t, V_NORMAL); l.forward(mk(in)); l.backward(mk(in)); RecOpt<T> o; l.updateWeights(o); PCHECK(o.seen.size() == 2, "batch norm hands " << o.seen.size() << " parameters to the optimizer");
    int ones = 0, zeros = 0; for (auto& s : o.seen) { PCHECK(s.before.n() == (size_t)f, "a parameter of a new batch norm for " << f << " features has " << s.before.n() << " elements"); bool a = true, b = true; for (T v : s.before.v) { if (v != T(1)) a = false; if (v != T(0)) b = false; } ones += a; zeros += b; } PCHECK(ones == 1 && zeros == 1, "a new batch norm does not start with gamma one and beta zero");
    g.nontrivial();
}
template <class T> static void run(Gen& g) { switch (g.pick({70, 6, 2, 22})) { case 0: sequence<T>(g); break; case 1: large<T>(g); break; case 2: many<T>(g); break; default: batchNorm<T>(g); } }
TWO_TYPES(run)
