// Generates the operations of C29ops.hpp with their operands.
#pragma once
#include "C29ops.hpp"
static const char* opName[] = {"binary operators", "scalar operators", "applyPair", "apply", "transpose", "matmul", "sum", "mean and variance", "random and constant tensors", "Adam", "SGD/RMSProp", "activation", "fully connected layer", "convolution layer", "pooling layer", "batch norm layer", "dropout layer", "losses", "model training", "transpose and slice", "reciprocal"};

static int anySize(Gen& g, int cap) { switch (g.pick({35, 25, 25, 15})) { case 0: return g.i(1, std::min(cap, 40)); case 1: return std::min(cap, g.i(60, 300)); case 2: { static const int hot[] = {999, 1000, 1001, 1002, 1024, 1025, 2047, 2049, 500, 512, 255, 257, 127, 129, 4095, 4097, 5000, 8192, 10000, 10001, 16384, 20000}; return std::min(cap, hot[g.draw(22)]); } default: return std::min(cap, g.flip(10) ? g.i(6000, 70000) : g.i(1003, 6000)); } }
static Dims anyDims(Gen& g, int lo, int hi, int cap) { Dims d = genDims(g, lo, hi, 60); int n = anySize(g, cap), k = (int)g.draw(d.size()); size_t rest = numel(d) / d[k]; d[k] = std::max<int>(1, n / (int)rest); return d; }

// exact: the result does not depend on the order of additions; K: bound for the number of roundings otherwise
static void genOp(Gen& g, OpIn& o, bool& exact, double& K, int op = -1, int cap = 0) {
    o.op = op < 0 ? (int)g.draw(O_COUNT) : op; o.seed = g.seed32(); o.dbl = g.flip(30); bool ints = g.flip(60); exact = true; K = 1; if (!cap) cap = g.flip(6) ? g.flip(30) ? 70001 : 20001 : 4097; uint64_t st = g.seed32();
    auto add = [&](const Dims& d, int kind = -1) { o.d.push_back(d); std::vector<double> v; size_t n = numel(d); for (size_t i = 0; i < n; i++) { uint64_t r = pbt::splitmix(st); double x; switch (kind) { case 1: x = 1 + (r % 7) / 4.0; break; case 2: x = (1 + r % 998) / 1000.0; break; case 3: x = (double)((int)(r % 2001) - 1000) / 250.0; break; default: x = ints ? (double)((int)(r % 9) - 4) : (double)((int)(r % 4097) - 2048) / 512.0 + (r >> 40) * 1e-12; } v.push_back(o.dbl ? x : (double)(float)x); } o.v.push_back(v); };
    switch (o.op) {
        case O_BINARY: { Dims a = anyDims(g, 1, 4, cap), b = a; if (g.flip(50)) { for (auto& x : b) if (g.flip(40)) x = 1; while (b.size() > 1 && g.flip(30)) b.erase(b.begin()); } if (g.flip(6)) b.back() += 2; add(a); add(b, 1); o.sub = g.i(0, 3); break; }
        case O_SCALAR: case O_APPLY: case O_RECIP: add(anyDims(g, 1, 4, cap), 1); o.sub = g.i(0, 3); break;
        case O_APPLYPAIR: { Dims a = anyDims(g, 1, 4, cap), b = a; if (g.flip(6)) b[0]++; add(a); add(b); break; }
        case O_TRANSPOSE: case O_SLICE: { Dims a = anyDims(g, 1, 5, cap); int r = (int)a.size(), k = g.i(0, r - 1); o.n = {g.i(0, r - 1), g.i(0, r - 1), k, g.i(0, a[k] - 1)}; if (g.flip(6)) o.n[g.draw(2)] = r + g.i(0, 1); add(a); break; }
        case O_MATMUL: { int m = g.flip(30) ? anySize(g, 200) : g.i(1, 12), k = g.flip(30) ? anySize(g, 1100) : g.i(1, 20), n = g.flip(30) ? anySize(g, 200) : g.i(1, 12); while ((long)m * k * n > 400000) { m = (m + 1) / 2; n = (n + 1) / 2; } int k2 = g.flip(8) ? k + 1 : k, b = g.i(1, 5), c = g.i(1, 3), form = (int)g.draw(7); for (long lim = cap < 2000 ? 60000 : 400000, bc = form < 4 ? 1 : form < 6 ? b : (long)b * c; (long)m * std::max(k, k2) * n * bc > lim && m * n > 1;) { m = (m + 1) / 2; n = (n + 1) / 2; } switch (form) { case 0: if (g.flip(40)) { int kk = anySize(g, 20001); k2 += kk - k; k = kk; } add({k}); add({k2}); break; case 1: if (g.flip(15)) { int kk = anySize(g, 10001); k2 += kk - k; k = kk; n = std::min(n, 8); } else if (g.flip(15)) { n = anySize(g, 10001); k2 += std::min(k, 8) - k; k = std::min(k, 8); } add({k}); add({k2, n}); break; case 2: if (g.flip(15)) { int kk = anySize(g, 10001); k2 += kk - k; k = kk; m = std::min(m, 8); } else if (g.flip(15)) { m = anySize(g, 10001); k2 += std::min(k, 8) - k; k = std::min(k, 8); } add({m, k}); add({k2}); break; case 3: add({m, k}); add({k2, n}); break; case 4: add({m, k}); add({b, k2, n}); break; case 5: add({b, m, k}); add({k2, n}); break; default: if (g.flip(50)) { add({b, m, k}); add({b, k2, n}); } else { add({c, b, m, k}); add({c, b, k2, n}); } } exact = ints; K = k; break; }
        case O_SUM: case O_MEANVAR: { Dims a = anyDims(g, 1, 4, cap); int r = (int)a.size(); for (int i = 0; i < r; i++) if (g.flip(45)) o.n.push_back(i); if (o.n.empty()) o.n.push_back(g.i(0, r - 1)); if (g.flip(6)) o.n.back() = r; add(a); exact = ints && o.op == O_SUM; K = numel(a); break; }
        case O_RANDOM: add(anyDims(g, 1, 3, cap)); break;
        case O_ADAM: case O_OPT: { bool small = cap < 1000; Dims a = anyDims(g, 1, 3, small ? cap : std::max(6000, cap)), b = anyDims(g, 1, 2, small ? cap : 2100); add(a); add(b); Dims ga = a; if (g.flip(6)) ga[0]++; add(ga); add(b); o.n = {g.i(1, 5)}; o.sub = g.i(0, 7); break; }
        case O_ACT: { o.sub = (int)g.draw(A_COUNT); Dims a = anyDims(g, o.sub == A_SOFTMAX && !g.flip(6) ? 2 : 1, 4, o.sub == A_SOFTMAX ? 600 : cap); add(a); add(a); exact = o.sub != A_SOFTMAX; K = 40; break; }
        case O_FC: { int b = g.i(1, 20), a = g.flip(30) ? anySize(g, 1100) : g.i(1, 20), c = g.flip(30) ? anySize(g, 300) : g.i(1, 12); while ((long)a * c > 60000) c = (c + 1) / 2; while ((long)a * b * c > 200000) b = (b + 1) / 2; o.n = {a, c}; add({b, a}); add({b, c}); add({a, c}); add({1, c}); exact = ints; K = std::max(a, std::max(b, c)); break; }
        case O_CONV: { int ci = g.i(1, 3), co = g.i(1, 3), kh = g.i(1, 3), kw = g.i(1, 3), s = g.i(1, 2), p = g.i(0, 1), dl = g.i(1, 2), h = g.i(5, 9), w = g.i(5, 9), b = g.flip(10) ? g.i(5, 20) : g.i(1, 4); if (g.flip(5)) ci = g.i(4, 8); if (g.flip(5)) co = g.i(4, 16); o.n = {ci, co, kh, kw, s, p, dl}; int oh = (h + 2 * p - dl * (kh - 1) - 1) / s + 1, ow = (w + 2 * p - dl * (kw - 1) - 1) / s + 1; add({b, ci, h, w}); add({b, co, oh, ow}); add({co, ci, kh, kw}); add({co, 1}); exact = ints; K = (double)b * oh * ow + 30; break; }
        case O_POOL: { int k = g.i(1, 3), s = g.i(1, 3), p = k > 1 ? g.i(0, 1) : 0, h = g.i(3, 12), w = g.i(3, 12), b = g.flip(10) ? g.i(5, 20) : g.i(1, 4), c = g.flip(8) ? g.i(4, 16) : g.i(1, 3); o.n = {k, s, p}; add({b, c, h, w}); add({b, c, (h + 2 * p - k) / s + 1, (w + 2 * p - k) / s + 1}); exact = ints; K = 9; break; }
        case O_BN: { int f = g.flip(10) ? anySize(g, 300) : g.i(1, 6); Dims a = g.flip(50) ? Dims{g.flip(30) ? anySize(g, 600) : g.i(2, 12), f} : Dims{g.i(1, 4), f, g.i(2, 6), g.i(2, 6)}; o.n = {f}; add(a, 3); add(a, 3); exact = false; K = 100.0 * numel(a); break; }
        case O_DROP: { Dims a = anyDims(g, 1, 4, cap); add(a); add(a); break; }
        case O_LOSS: { Dims a = g.flip(60) ? anyDims(g, 2, 2, 2100) : anyDims(g, 1, 4, cap); o.sub = a.size() == 2; add(a, 2); add(a, 2); exact = false; K = numel(a); break; }
        default: { StackOpts so; so.bn = false; o.stack = genStack(g, 0, so); int b = o.stack.rank1 ? 1 : g.i(1, 6); add(withBatch(o.stack, b), 3); add(withBatch(o.stack, b, true), 3); o.sub = g.flip(70) ? 0 : g.i(1, 2); o.n = {g.i(1, 2)}; exact = false; }
    }
}
