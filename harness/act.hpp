// Reference definitions of the activation functions in long double.
#pragma once
#include "common.hpp"
#include "smart_dnn/Activation.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/Softmax.hpp"

enum { A_RELU, A_LEAKY, A_SIGMOID, A_TANH, A_SWISH, A_MISH, A_SOFTMAX, A_COUNT };
static const char* actName[] = {"ReLU", "LeakyReLU", "Sigmoid", "Tanh", "Swish", "Mish", "Softmax"};
template <class T> inline std::unique_ptr<Activation<T>> mkAct(int k, T alpha) {
    switch (k) {
        case A_RELU: return std::make_unique<ReLU<T>>();
        case A_LEAKY: return std::make_unique<LeakyReLU<T>>(alpha);
        case A_SIGMOID: return std::make_unique<Sigmoid<T>>();
        case A_TANH: return std::make_unique<Tanh<T>>();
        case A_SWISH: return std::make_unique<Swish<T>>();
        case A_MISH: return std::make_unique<Mish<T>>();
        default: return std::make_unique<Softmax<T>>();
    }
}
inline ld lsig(ld x) { return x >= 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x)); }
inline ld lsoftplus(ld x) { return x > 60 ? x : log1pl(expl(x)); }
inline ld lsech2(ld y) { ld e = expl(-2 * fabsl(y)); return 4 * e / ((1 + e) * (1 + e)); }
inline ld actRef(int k, ld alpha, ld x) {
    switch (k) {
        case A_RELU: return x > 0 ? x : 0;
        case A_LEAKY: return x > 0 ? x : alpha * x;
        case A_SIGMOID: return lsig(x);
        case A_TANH: return tanhl(x);
        case A_SWISH: return x * lsig(x);
        default: return x * tanhl(lsoftplus(x));
    }
}
inline ld actDer(int k, ld alpha, ld x) {
    switch (k) {
        case A_RELU: return x > 0 ? 1 : 0;
        case A_LEAKY: return x > 0 ? 1 : alpha;
        case A_SIGMOID: return lsig(x) * lsig(-x);
        case A_TANH: return lsech2(x);
        case A_SWISH: return lsig(x) + x * lsig(x) * lsig(-x);
        default: { ld s = lsoftplus(x); return tanhl(s) + x * lsech2(s) * lsig(x); }
    }
}
// error the element type admits in f(x) = r: relative to the result, except Mish (log(1+exp(x)) loses small exponentials); plus underflow of the exponential
template <class T> inline ld actTol(int k, ld x, ld r) {
    ld eps = epsOf<T>(), m = 16 * (ld)std::numeric_limits<T>::min(), ax = fabsl(x);
    if (k == A_MISH) return 8 * eps * (x >= 0 ? ax : std::min<ld>(ax, 45)) + m;
    return 16 * eps * fabsl(r) + (k == A_SWISH ? m * (1 + std::min<ld>(ax, 800)) : m);
}
// finite inputs of any magnitude
template <class T> inline T genX(uint64_t r) {
    static const double sp[] = {0.0, 1.0, -1.0, -0.0, 0.5, -0.5, 2, -2, 16, -16, 17.5, -17.5, 20, -20, 36.8, -36.8, 43.9, -43.9, 44.5, -44.5, 45, -45, 87, -87, 88.8, -88.8, 100, -100, 103.9, -103.9, 150, -150,
                                354, -354, 356, -356, 500, -500, 708, -708, 710, -710, 746, -746, 1000, -1000, 1e5, -1e5, 1e10, -1e10, 1e19, -1e19, 1e20, -1e20, 1e30, -1e30, 3.3e38, -3.3e38, 1e-3, -1e-3, 1e-8, -1e-8, 1e-20, -1e-20, 1e-38, -1e-38, 1e-44, -1e-44};
    const int ns = sizeof(sp) / sizeof(sp[0]);
    switch (r % 8) {
        case 0: case 1: case 2: return mkVal<T>(r >> 3, V_NORMAL);
        case 3: return mkVal<T>(r >> 3, V_SMALLINT);
        case 4: return (T)((double)(int64_t)((r >> 3) % 2000001) / 10000.0 - 100.0);
        case 5: return mkVal<T>(r >> 3, V_WIDE);
        case 6: return (T)sp[(r >> 3) % ns];
        default:
            if (sizeof(T) == 8 && (r >> 3) % 4 == 0) { static const double dp[] = {1e100, -1e100, 1e300, -1e300, 1.7e308, -1.7e308, 5e-324, -5e-324, 1e154, -1e154}; return (T)dp[(r >> 5) % 10]; }
            if ((r >> 3) % 4 == 1) return ((r >> 5) & 1) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
            return (T)(sp[(r >> 5) % ns] * (1 + (double)((r >> 12) % 100) / 1e4) > 3.3e38 ? 3.3e38 : sp[(r >> 5) % ns] * (std::fabs(sp[(r >> 5) % ns]) > 3e38 ? 1 : 1 + (double)((r >> 12) % 100) / 1e4));
    }
}
template <class T> inline std::vector<T> genXs(Gen& g, size_t n) {
    std::vector<T> v(n);
    if (n <= 24) for (auto& x : v) x = genX<T>(g.draw(1ull << 32));
    else { uint64_t s = g.seed32(); for (auto& x : v) x = genX<T>(pbt::splitmix(s)); }
    return v;
}
template <class T> inline T genAlpha(Gen& g) { static const double al[] = {0.01, 0.1, 0.5, 0.0, 1.0, 0.25, 2.0, 0.3, 1e-4}; return (T)al[g.draw(9)]; }
