// Shared generators, reference containers and comparisons for the SmartDNN property harnesses.
#pragma once
#include "pbt.hpp"
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"

using namespace smart_dnn;
using pbt::Gen;
typedef long double ld;
typedef std::vector<int> Dims;

// ---------------------------------------------------------------- dims
inline size_t numel(const Dims& d) { size_t n = 1; for (int x : d) n *= (size_t)x; return n; }
inline std::vector<size_t> stridesOf(const Dims& d) {
    std::vector<size_t> s(d.size(), 1);
    for (int i = (int)d.size() - 2; i >= 0; --i) s[i] = s[i + 1] * (size_t)d[i + 1];
    return s;
}
inline Dims unflat(const Dims& d, size_t i) {
    Dims r(d.size(), 0);
    for (int k = (int)d.size() - 1; k >= 0; --k) { r[k] = (int)(i % (size_t)d[k]); i /= (size_t)d[k]; }
    return r;
}
inline size_t flat(const Dims& d, const Dims& ix) { size_t r = 0; for (size_t k = 0; k < d.size(); k++) r = r * (size_t)d[k] + (size_t)ix[k]; return r; }
inline std::string str(const Dims& d) { std::ostringstream o; o << "("; for (size_t i = 0; i < d.size(); i++) o << (i ? "," : "") << d[i]; o << ")"; return o.str(); }
template <class V> inline std::string strv(const V& v, size_t lim = 24) {
    std::ostringstream o; o << std::setprecision(9) << "["; size_t n = 0;
    for (auto x : v) { if (n) o << ","; if (n++ >= lim) { o << "..."; break; } o << x; }
    o << "]"; return o.str();
}

// dims with rank in [lo,hi]; product at most maxN
inline Dims genDims(Gen& g, int lo, int hi, size_t maxN = 400) {
    int r = g.i(lo, hi); Dims d; size_t n = 1;
    if (hi >= 4 && lo < hi && g.flip(1)) { r = g.flip(75) ? g.i(hi + 1, 12) : g.i(13, 40); g.label("high rank"); }
    for (int i = 0; i < r; i++) {
        int x;
        if (r > 6 && g.flip(60)) { d.push_back(1); continue; }
        switch (g.pick({30, 55, 15})) {
            case 0: x = 1; break;
            case 1: x = g.i(2, 4); break;
            default: x = g.i(5, 12); break;
        }
        if (n * (size_t)x > maxN) x = 1;
        d.push_back(x); n *= (size_t)x;
    }
    return d;
}
// now and then a tensor big enough to cross block / threshold sizes
inline Dims genDimsBig(Gen& g, int lo, int hi, size_t maxN, int bigPercent, size_t bigN, size_t hugeN = 0) {
    Dims d = genDims(g, lo, hi, maxN);
    if (g.flip(bigPercent)) {
        if (d.size() > 1 && g.flip(15)) { // two long dimensions at once
            static const int lengths[] = {32, 33, 48, 63, 64, 65, 66, 70, 96, 100, 128, 130};
            size_t x = g.draw(d.size()), y = g.draw(d.size() - 1); if (y >= x) y++;
            for (size_t i = 0; i < d.size(); i++) d[i] = i == x || i == y ? (g.flip(75) ? lengths[g.draw(12)] : g.i(17, 131)) : d[i] > 1 && numel(d) < 60 ? 2 : 1;
            g.label("two long dimensions");
            return d;
        }
        bool huge = hugeN && g.flip(4); if (huge) bigN = hugeN;
        size_t n = numel(d); int k = (int)g.draw(d.size());
        size_t rest = n / (size_t)d[k]; size_t room = bigN / (rest ? rest : 1);
        if (room > 1) {
            static const int hot[] = {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 16385};
            static const int top[] = {5000, 8192, 10000, 10001, 16384, 16385, 20000, 32768, 50000, 65535, 65536, 65537, 70000, 100000};
            int v = huge ? (g.flip(70) ? top[g.draw(14)] : g.i(3000, 100000)) : g.flip(60) ? hot[g.draw(sizeof(hot) / sizeof(hot[0]))] : g.i(13, 3000);
            d[k] = (int)std::min<size_t>((size_t)v, room);
            g.label(huge ? "huge tensor" : "big tensor");
        }
    }
    return d;
}

// ---------------------------------------------------------------- values
enum VKind { V_SMALLINT, V_NORMAL, V_WIDE, V_SPECIAL };
template <class T> inline T mkVal(uint64_t r, VKind k) {
    // r: 64 random bits (or a small tape value); zigzag so that 0 is simplest
    auto zig = [](uint64_t x) { return (double)((x & 1) ? -(int64_t)((x + 1) / 2) : (int64_t)(x / 2)); };
    switch (k) {
        case V_SMALLINT: return (T)zig(r % 17);
        case V_NORMAL: return (T)(zig(r % 4097) / 512.0);                       // [-4,4]
        case V_WIDE: { double m = 1.0 + (double)((r >> 8) % 4096) / 4096.0; int e = (int)((r >> 20) % 41) - 20; return (T)(((r & 1) ? -1 : 1) * std::ldexp(m, e)); }
        default: {
            static const double sp[] = {0.0, 1.0, -1.0, -0.0, 0.5, -0.5, 1e-3, -1e-3, 1e4, -1e4, 1e-20, -1e-20, 1e15, -1e15, 3.0, 1e-38, -1e-38};
            return (T)sp[r % (sizeof(sp) / sizeof(sp[0]))];
        }
    }
}
template <class T> inline std::vector<T> genVals(Gen& g, size_t n, VKind k) {
    std::vector<T> v(n);
    uint64_t range = k == V_SMALLINT ? 17 : k == V_NORMAL ? 4097 : k == V_SPECIAL ? 17 : (1ull << 32);
    if (n <= 48) for (auto& x : v) x = mkVal<T>(g.draw(range), k);
    else { uint64_t s = g.seed32(); for (auto& x : v) x = mkVal<T>(pbt::splitmix(s), k); }
    return v;
}
inline VKind genKind(Gen& g) { switch (g.pick({25, 50, 15, 10})) { case 0: return V_SMALLINT; case 1: return V_NORMAL; case 2: return V_WIDE; default: return V_SPECIAL; } }

// ---------------------------------------------------------------- reference array
template <class T> struct Arr {
    Dims d; std::vector<T> v;
    size_t n() const { return v.size(); }
    T& at(const Dims& ix) { return v[flat(d, ix)]; }
    const T& at(const Dims& ix) const { return v[flat(d, ix)]; }
};
// Now and then uses the very same tensor objects with slightly other elements first, then puts the real ones back in place:
// nothing a call computes may be remembered by the tensor's identity, address or shape.
template <class T, class F> inline void prime(Gen& g, std::initializer_list<Tensor<T>*> ts, F f) {
    if (!g.flip(12)) return;
    g.label("same tensor, other elements before"); struct Old { T* p; T v; }; std::vector<Old> old; size_t which = g.draw(ts.size()); bool both = g.flip(30);
    for (size_t k = 0; k < ts.size(); k++) if (both || k == which) { Tensor<T>& t = **(ts.begin() + k); int n = g.i(1, 3); for (int i = 0; i < n; i++) { T* p = t.getData().data() + g.draw(t.getShape().size()); old.push_back({p, *p}); T v = (T)(0.0625 + g.i(0, 14) / 16.0); *p = *p == v ? v / 2 : v; } }
    f(); for (size_t i = old.size(); i > 0; i--) *old[i - 1].p = old[i - 1].v;
}
// now and then gives the elements a structure that shortcuts like to look for; values stay within the kind's range
template <class T> inline void pattern(Gen& g, Arr<T>& a) {
    if (a.n() < 2 || !g.flip(6)) return;
    size_t n = a.n(), c = (size_t)a.d.back(), r = a.d.size() > 1 ? (size_t)a.d[a.d.size() - 2] : 1, mat = r * c;
    auto each = [&](auto f) { for (size_t i = 0; i < n; i++) { size_t q = i % mat; f(a.v[i], q / c, q % c); } };
    bool unit = g.flip(60);
    switch (g.i(0, 12)) {
        case 0: { uint64_t s = g.seed32(); for (T& x : a.v) if (pbt::splitmix(s) % 5) x = T(0); g.label("mostly zeros"); break; }
        case 1: { T x = a.v[0]; for (T& y : a.v) y = x; g.label("constant elements"); break; }
        case 2: { T x = (T)g.i(0, 1); for (T& y : a.v) y = x; g.label("all zeros or ones"); break; }
        case 3: { each([&](T& x, size_t i, size_t j) { if (i != j) x = T(0); else if (unit) x = T(1); }); g.label("diagonal"); break; }
        case 4: { each([&](T& x, size_t i, size_t j) { if (i > j) x = T(0); else if (i == j && unit) x = T(1); }); g.label("upper triangular"); break; }
        case 5: { each([&](T& x, size_t i, size_t j) { if (i < j) x = T(0); else if (i == j && unit) x = T(1); }); g.label("lower triangular"); break; }
        case 6: { if (unit) each([&](T& x, size_t i, size_t j) { if (i == j) x = T(1); }); else if (r == c) for (size_t b = 0; b < n; b += mat) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < i; j++) a.v[b + i * c + j] = a.v[b + j * c + i]; g.label("unit diagonal or symmetric"); break; }
        case 7: { size_t s = g.draw(c); each([&](T& x, size_t i, size_t j) { x = (i + s) % c == j ? T(1) : T(0); }); g.label("one-hot rows"); break; }
        case 8: { for (size_t i = c; i < n; i++) a.v[i] = a.v[i % c]; g.label("equal rows"); break; }
        case 9: { for (size_t i = 0; i < n; i++) a.v[i] = a.v[i - i % c]; g.label("equal columns"); break; }
        case 10: { size_t k = g.draw(r), l = g.draw(c); each([&](T& x, size_t i, size_t j) { if (unit ? i == k : j == l) x = T(0); }); g.label("a zero row or column"); break; }
        case 11: { std::sort(a.v.begin(), a.v.end()); if (unit) std::reverse(a.v.begin(), a.v.end()); g.label("sorted elements"); break; }
        default: { for (T& x : a.v) if (x < T(0)) x = -x; g.label("no negative elements"); break; }
    }
}
template <class T> inline Arr<T> genArr(Gen& g, const Dims& d, VKind k) { Arr<T> a{d, genVals<T>(g, numel(d), k)}; pattern(g, a); return a; }
// now and then puts infinities, the largest, smallest and negative zero values among the elements (and NaN if asked)
template <class T> inline void sprinkle(Gen& g, Arr<T>& a, bool nan = false) {
    if (!g.flip(6)) return;
    typedef std::numeric_limits<T> L; const T sp[] = {T(-0.0), L::max(), L::lowest(), L::min(), L::denorm_min(), -L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN()};
    g.label("extreme values"); int k = g.i(1, 4); for (int i = 0; i < k; i++) a.v[g.draw(a.n())] = sp[g.draw(nan ? 9 : 8)];
}
// now and then puts a few infinities or NaNs among the elements; says whether it did
template <class T> inline bool nonfinite(Gen& g, Arr<T>& a, int percent = 4) {
    if (!g.flip(percent)) return false;
    const T inf = std::numeric_limits<T>::infinity(), sp[] = {inf, -inf, std::numeric_limits<T>::quiet_NaN()};
    int k = g.i(1, 3); for (int i = 0; i < k; i++) a.v[g.draw(a.n())] = sp[g.draw(3)];
    g.label("non-finite elements"); return true;
}
// a and b are both NaN, or the same infinity
template <class T> inline bool sameNonFinite(T got, ld want) { return std::isnan(want) ? std::isnan(got) : std::isinf(got) && (got > 0) == (want > 0); }
template <class T> inline Tensor<T> mk(const Arr<T>& a) { return Tensor<T>(Shape(a.d), (const std::vector<T>&)a.v); }
template <class T> inline Tensor<T> mk(const Dims& d, const std::vector<T>& v) { return Tensor<T>(Shape(d), (const std::vector<T>&)v); }
template <class T> inline Arr<T> iota(const Dims& d, int from = 1) { Arr<T> a{d, {}}; size_t n = numel(d); a.v.resize(n); for (size_t i = 0; i < n; i++) a.v[i] = (T)(from + (int)i); return a; }
template <class T> inline std::string str(const Arr<T>& a) { return str(a.d) + strv(a.v); }

// shape invariants every live shape must satisfy
inline void checkShape(const Shape& s, const Dims& d, const char* what) {
    PCHECK(s.getDimensions() == d, what << ": dimensions " << str(s.getDimensions()) << ", expected " << str(d));
    PCHECK(s.rank() == d.size(), what << ": rank " << s.rank() << " of " << str(d));
    PCHECK(s.size() == numel(d), what << ": size " << s.size() << " of " << str(d));
    PCHECK(s.getStride() == stridesOf(d), what << ": strides " << strv(s.getStride()) << " of " << str(d));
    for (size_t i = 0; i < d.size(); i++) PCHECK(s[i] == d[i], what << ": operator[] disagrees with dimensions at " << i);
}
template <class T> inline Arr<T> snap(const Tensor<T>& t) {
    Arr<T> a; a.d = t.getShape().getDimensions();
    checkShape(t.getShape(), a.d, "tensor shape");
    PCHECK(!a.d.empty(), "tensor has an empty shape");
    size_t n = t.getShape().size();
    PCHECK(t.getData().size() == n, "tensor data size " << t.getData().size() << " but shape size " << n);
    PCHECK(t.getData().data() != nullptr, "tensor of shape " << str(a.d) << " has no data");
    a.v.assign(t.getData().data(), t.getData().data() + n);
    return a;
}
template <class T> inline bool sameBits(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> inline bool sameVal(T a, T b) { return a == b || (a != a && b != b); }
template <class T> inline void checkSame(const Arr<T>& got, const Arr<T>& want, const char* what) {
    PCHECK(got.d == want.d, what << ": shape " << str(got.d) << ", expected " << str(want.d));
    for (size_t i = 0; i < want.v.size(); i++)
        PCHECK(sameVal(got.v[i], want.v[i]), what << ": element " << str(unflat(want.d, i)) << " of " << str(want.d) << " is " << got.v[i] << ", expected " << want.v[i]);
}
template <class T> inline void checkBits(const Tensor<T>& t, const Arr<T>& want, const char* what) {
    Arr<T> got = snap(t);
    PCHECK(got.d == want.d, what << ": shape " << str(got.d) << ", expected " << str(want.d));
    for (size_t i = 0; i < want.v.size(); i++)
        PCHECK(sameBits(got.v[i], want.v[i]), what << ": element " << i << " changed from " << want.v[i] << " to " << got.v[i]);
}
template <class T> inline ld epsOf() { return (ld)std::numeric_limits<T>::epsilon(); }
// |got - ref| within k*eps*mag (mag: sum of magnitudes of the terms that formed ref), plus an underflow allowance
template <class T> inline bool close(T got, ld ref, ld mag, ld k) {
    if (!(mag < (ld)std::numeric_limits<T>::max() * 0.125L)) return true; // partial sums may overflow in some order: no claim
    if (got != got) return false;
    if (std::isinf((ld)got)) return std::fabs(ref) + k * epsOf<T>() * mag >= (ld)std::numeric_limits<T>::max() * 0.99L && ((ref > 0) == (got > 0));
    return std::fabs((ld)got - ref) <= k * epsOf<T>() * mag + 64 * (ld)std::numeric_limits<T>::min();
}
#define CLOSE(T, got, ref, mag, k, what)                                                                              \
    PCHECK(close<T>((got), (ref), (mag), (k)), what << ": got " << (got) << ", expected " << (double)(ref)              \
                                                    << " (magnitude of terms " << (double)(mag) << ")")

template <class F> inline void mustThrow(F&& f, const std::string& what) { PCHECK(pbt::throws(f), what << ": accepted, expected an exception"); }

template <class T> const char* tname();
template <> inline const char* tname<float>() { return "float"; }
template <> inline const char* tname<double>() { return "double"; }

// dispatch one property body over both element types
#define TWO_TYPES(fn)                                             \
    static void property(Gen& g) {                                \
        if (g.flip(40)) { g.label("double"); fn<double>(g); }     \
        else { g.label("float"); fn<float>(g); }                  \
    }                                                             \
    PBT_MAIN(property)
// sets the shared random engine so that its next 624 outputs are extreme ones mixed with ordinary ones
inline void extremeEngine(uint64_t s) {
    auto state = [](uint32_t y) { y ^= y >> 18; y ^= (y << 15) & 0xefc60000u; uint32_t t = y; for (int i = 0; i < 5; i++) t = y ^ ((t << 7) & 0x9d2c5680u); y = t; for (int i = 0; i < 3; i++) t = y ^ (t >> 11); return t; };
    static const uint32_t ex[] = {0, 0xffffffffu, 0xfffffffeu, 1, 0x80000000u, 0x7fffffffu, 0xffffff00u, 0xffffff7fu};
    std::ostringstream o; for (int i = 0; i < 624; i++) { uint64_t r = pbt::splitmix(s); o << state(r % 4 ? (uint32_t)(r >> 32) : r % 8 ? ex[(r >> 8) % 8] : ex[(r >> 8) % 2]) << ' '; } o << 0;
    std::istringstream is(o.str()); is >> RandomEngine::getInstance();
}
