// C35: memory (every operator new) and open files depend on what is held, not on how often or with how many shapes things were done
#include "alloc.hpp"
#include "C29gen.hpp"
#include "memfile.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include <dirent.h>

struct Held { long long bytes, blocks; };
static Held held() { return {mem::bytes, mem::blocks}; }
static void notMore(const Held& now, const Held& ref, const std::string& what) {
    PCHECK(now.bytes <= ref.bytes && now.blocks <= ref.blocks, what << ": " << now.bytes << " bytes in " << now.blocks << " blocks are held, before it was " << ref.bytes << " bytes in " << ref.blocks << " blocks");
}
static int openFiles() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
template <class T> static Tensor<T> tensor(Gen& g, const Dims& d, VKind k = V_NORMAL) { return mk(genArr<T>(g, d, k)); }
template <class F> static bool tryIt(F&& f) { try { f(); return true; } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { return false; } }
static int roundsOf(Gen& g) { if (g.flip(4)) { g.label("many rounds"); return g.i(15, 200); } return g.i(4, 8); }

template <class T> struct EighthOpt : Optimizer<T> { // w -= g/8
    void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& w, const std::vector<std::reference_wrapper<Tensor<T>>>& gr, T = T(-1)) override { for (size_t k = 0; k < w.size(); k++) for (size_t i = 0; i < w[k].get().getShape().size(); i++) w[k].get()[i] -= gr[k].get()[i] / T(8); }
};
// about how many multiplications an operation takes
static double costOf(const OpIn& o) {
    double all = 0; for (auto& d : o.d) all += numel(d);
    switch (o.op) { case O_MATMUL: return (double)numel(o.d[0]) * (o.d[1].size() > 1 ? o.d[1].back() : 1) * (o.d[1].size() > 2 && o.d[0].size() < 3 ? o.d[1][0] : 1) * (o.d[0].size() > 2 || o.d[1].size() > 2 ? 40 : 3) + all;
        case O_FC: return 3.0 * numel(o.d[0]) * o.n[1] + all; case O_CONV: return 3.0 * numel(o.d[1]) * o.n[0] * o.n[2] * o.n[3] + all; case O_MODEL: return 200000; default: return 20 * all; }
}
// ---- every operation of the library on fresh objects, accepted or rejected: nothing is held afterwards
static void operations(Gen& g) {
    g.label("operations"); bool many = g.flip(35), crowd = many && g.flip(25); int kind = many ? (int)g.draw(O_COUNT) : -1; bool costly = kind == O_MATMUL || kind == O_FC || kind == O_CONV || kind == O_POOL || kind == O_BN || kind == O_MODEL || kind == O_ACT; int n = crowd ? costly ? g.i(20, 50) : g.i(100, 350) : many ? g.i(10, 30) : g.i(2, 6); std::vector<OpIn> ops; std::map<int, size_t> top; int rejected = 0; double cost = 0;
    for (int i = 0; i < n && cost < 3e6; i++) { ops.emplace_back(); OpIn& o = ops.back(); bool e; double k; genOp(g, o, e, k, kind, crowd ? 120 : many ? 400 : 1100); std::string sh; for (auto& d : o.d) sh += str(d); NOTE(g, opName[o.op] << " variant " << o.sub << sh << "; "); cost += costOf(o); }
    n = (int)ops.size(); Held before = held();
    for (int i = 0; i < n; i++) { mem::Track t; OpOut r; performOp(ops[i], r); rejected += r.threw; size_t s = 0; for (auto& d : ops[i].d) s += numel(d) * 8; for (auto& v : r.v) s += v.size() * 8; top[ops[i].op * 2 + ops[i].dbl] = std::max(top[ops[i].op * 2 + ops[i].dbl], s); }
    // buffers kept for the next call are allowed, one per kind of operation and as large as its largest call
    size_t room = 4096; for (auto& q : top) room += 3 * q.second; Held first = held();
    PCHECK(first.bytes - before.bytes <= (long long)room, "after " << n << " operations whose operands and results are gone " << first.bytes - before.bytes << " bytes are still held in " << first.blocks - before.blocks << " blocks");
    int again = std::min(roundsOf(g), std::max(2, (int)(1e7 / cost))); if (crowd) { again = 2; g.label("hundreds of shapes"); }
    for (int r = 0; r < again; r++) { for (auto& o : ops) { mem::Track t; OpOut x; performOp(o, x); } notMore(held(), first, "after the same " + std::to_string(n) + " operations, repeated " + std::to_string(r + 1) + " times"); }
    g.nontrivial(); if (rejected) g.label("rejected operations");
}
// ---- tensors: what is held is in proportion to the elements
template <class T> static void tensors(Gen& g) {
    g.label("tensors"); int n = g.i(1, 5), steps = histLen(g, 2, 20); std::vector<std::unique_ptr<Tensor<T>>> ts; std::vector<size_t> peak; Held zero = held();
    auto dims = [&] { return genDimsBig(g, 1, 4, 60, 15, 3000); };
    auto room = [&](size_t e) { return (long long)(2 * e * sizeof(T) + 800); };
    for (int i = 0; i < n; i++) { Arr<T> a = genArr<T>(g, dims(), V_SMALLINT); mem::Track t; ts.push_back(nullptr); ts[i] = std::make_unique<Tensor<T>>(mk(a)); }
    for (int s = 0; s < steps; s++) {
        int i = (int)g.draw(n), j = (int)g.draw(n); Arr<T> a = genArr<T>(g, dims(), V_SMALLINT); int what = (int)g.draw(9); NOTE(g, what << " on " << i << "," << j << " " << str(a.d) << "; ");
        { mem::Track t; Tensor<T>& x = *ts[i];
        switch (what) {
            case 0: { Tensor<T> y = mk(a); x = y; break; } case 1: x = mk(a); break; case 2: x = *ts[j]; break; case 3: if (i != j) x = std::move(*ts[j]); break;
            case 4: tryIt([&] { x = x + *ts[j]; }); break; case 5: tryIt([&] { x *= *ts[j]; }); break; case 6: tryIt([&] { x.reshape(a.d); }); break;
            case 7: { Tensor<T> y(std::move(x)); x = std::move(y); break; } default: tryIt([&] { x = x.slice((int)a.d.size() % 3, 0); }); } }
        size_t sum = 0; for (auto& q : ts) { sum += (size_t)room(q->getShape().size()) + 40 * q->getShape().rank(); PCHECK(q->getShape().size() >= 1, "a tensor without elements"); }
        Held h = held(); PCHECK(h.bytes - zero.bytes <= (long long)sum + 64, n << " tensors hold " << h.bytes - zero.bytes << " bytes in " << h.blocks - zero.blocks << " blocks, their elements need at most " << sum);
    }
    { mem::Track t; ts.clear(); ts.shrink_to_fit(); } notMore(held(), zero, "after the last tensor is gone"); if (steps >= 3) g.nontrivial();
}
// ---- a layer: bounded by its parameters and the last pass, whatever shapes went by
template <class T> static void layer(Gen& g) {
    LDesc l; l.k = (LK)g.draw(7); static const char* kn[] = {"fully connected", "convolution", "pooling", "batch norm", "dropout", "flatten", "activation layer"}; g.label(kn[l.k]);
    switch (l.k) { case L_FC: l.a = g.i(1, 12); l.b = g.i(1, 12); break; case L_CONV: l.a = g.i(1, 3); l.b = g.i(1, 3); l.kh = g.i(1, 3); l.kw = g.i(1, 3); l.s = g.i(1, 2); l.p = g.i(0, 1); l.dl = g.i(1, 2); break;
        case L_POOL: l.kh = g.i(1, 3); l.s = g.i(1, 3); l.p = l.kh > 1 ? g.i(0, 1) : 0; break; case L_BN: l.a = g.i(1, 5); break; case L_DROP: l.rate = 0.5; break; case L_ACT: l.act = (int)g.draw(A_COUNT); break; default:; }
    NOTE(g, str(l)); int kinds = g.flip(25) ? g.i(8, 30) : g.i(1, 5), steps = std::max(kinds, roundsOf(g)), every = g.i(1, 3); if (g.flip(60)) steps = std::max(steps, 3 * kinds * every); std::vector<Dims> shapes; int b0 = g.flip(50) ? 1 : g.i(1, 40), c0 = g.i(1, 6), h = 1 + l.dl * (l.kh - 1) + g.i(0, 4), w = 1 + l.dl * (l.kw - 1) + g.i(0, 4); if (l.k == L_POOL) { h = l.kh + g.i(0, 4); w = l.kh + g.i(0, 4); } bool four = g.flip(50);
    for (int k = 0; k < kinds; k++) switch (l.k) { case L_FC: shapes.push_back({b0 + k, l.a}); break; case L_CONV: shapes.push_back(g.flip(50) ? Dims{b0 % 4 + k, l.a, h, w} : Dims{b0 % 4 + 1, l.a, h + k % 3, w + k / 3}); break; case L_POOL: shapes.push_back({b0 % 4 + k + 1, c0, h, w}); if (shapes.back()[0] > 8) shapes.back() = {2, c0, h + k % 4, w + k / 4}; break;
        case L_BN: shapes.push_back(four ? Dims{b0 % 4 + k + 1, l.a, h, w} : Dims{b0 + k, l.a}); break; default: shapes.push_back(four ? Dims{b0 % 5 + k + 1, c0, 2, 3} : Dims{b0 + k, c0 + 3}); }
    for (auto& d : shapes) if (d[0] < 1) d[0] = 1;
    std::vector<Tensor<T>> xs, gs; std::vector<char> acts; for (auto& d : shapes) xs.push_back(tensor<T>(g, d)); { auto q = layerOf<T>(l); for (auto& x : xs) { Dims d = snap(q->forward(x)).d; gs.push_back(tensor<T>(g, d)); } }
    EighthOpt<T> opt; bool params = l.k == L_FC || l.k == L_CONV || l.k == L_BN; bool misuse = g.flip(30), modes = g.flip(30); Tensor<T> wrong = mk(Arr<T>{{7, 1, 1, 1, 1}, std::vector<T>(7, T(1))});
    auto step = [&](Layer<T>& q, int s) { int k = s % kinds; q.forward(xs[k]); if (s % every == 0) { q.backward(gs[k]); if (params) q.updateWeights(opt); } };
    Held zero = held(); long long top = 0, topBlocks = 0;
    for (int life = 0; life < 2; life++) {
        if (life == 0) for (int k = 0; k < kinds; k++) { { mem::Track t; auto q = layerOf<T>(l); for (int r = 0; r < every; r++) if ((k + r * kinds) % every == 0) { step(*q, k + r * kinds); break; } step(*q, k); top = std::max(top, held().bytes - zero.bytes); topBlocks = std::max(topBlocks, held().blocks - zero.blocks); q.reset(); } }
        else zero = held();
        std::unique_ptr<Layer<T>> q; { mem::Track t; q = layerOf<T>(l); } Held mark{0, 0};
        for (int s = 0; s < steps; s++) {
            { mem::Track t; step(*q, s);
              if (misuse && l.k != L_DROP && l.k != L_FLAT && l.k != L_ACT) tryIt([&] { q->forward(wrong); }); if (misuse) tryIt([&] { q->backward(wrong); });
              if (modes && (l.k == L_BN || l.k == L_DROP)) { q->setTrainingMode(false); q->forward(xs[s % kinds]); q->setTrainingMode(true); } }
            Held h2 = held(); PCHECK(h2.bytes - zero.bytes <= 2 * top + 1024 && h2.blocks - zero.blocks <= 2 * topBlocks + 16, str(l) << " holds " << h2.bytes - zero.bytes << " bytes in " << h2.blocks - zero.blocks << " blocks after " << s + 1 << " passes over " << std::min(s + 1, kinds) << " shapes; a layer that has seen only one of them holds at most " << top << " in " << topBlocks);
            // the same passes again and again: not a byte more
            int period = kinds * every; if (s == 2 * period - 1) mark = h2; else if (s > 2 * period && s % period == period - 1) notMore(h2, mark, str(l) + " after " + std::to_string(s + 1) + " passes");
        }
        { mem::Track t; q.reset(); } if (life) notMore(held(), zero, str(l) + " after its destruction");
    }
    g.nontrivial(); if (kinds > 5) g.label("many shapes"); if (misuse) g.label("misuse");
}
// ---- a model: nothing is left behind by an epoch, a prediction, a rejected call, a recompilation or its destruction
template <class T> static void model(Gen& g) {
    g.label("model"); StackOpts o; o.maxConv = 3; o.maxDense = 3; bool ce = g.flip(30); Stack s = genStack(g, ce ? 1 : 0, o); AnyOpt<T> ao; ao.k = (int)g.draw(3); ao.s.learningRate = T(0.001); ao.s.momentum = g.flip(50) ? T(0.9) : T(0); ao.r.learningRate = T(0.0001); ao.r.momentum = g.flip(50) ? T(0.5) : T(0); ao.r.centered = g.flip(50); ao.a.learningRate = T(0.0001);
    int n = g.i(1, 3), rounds = roundsOf(g); if (rounds > 60) rounds = 60; bool image = s.in.size() > 1; std::vector<Tensor<T>> X, Y; for (int i = 0; i < n; i++) { int b = g.i(1, 3); (void)image; X.push_back(tensor<T>(g, withBatch(s, b))); Arr<T> y = genArr<T>(g, withBatch(s, b, true), V_NORMAL); if (ce) for (size_t k = 0; k < y.n(); k++) y.v[k] = k % s.out.back() == 0 ? T(1) : T(0); Y.push_back(mk(y)); }
    Tensor<T> wrong = mk(Arr<T>{{2, 2, 2, 2, 2}, std::vector<T>(32, T(1))}); std::vector<Tensor<T>> fewer(X.begin(), X.end() - 1); NOTE(g, str(s) << " " << n << " batches, optimizer " << ao.k << ", " << rounds << " rounds; ");
    std::vector<int> acts; int na = g.i(1, 4); for (int k = 0; k < na; k++) { acts.push_back(g.pick({35, 15, 10, 10, 10, 10, 10})); NOTE(g, acts.back() << " "); } bool bnIn = false; for (auto& l : s.l) bnIn = bnIn || l.k == L_BN; for (int life = 0; life < 2; life++) {
        static Held zero; if (life) zero = held(); Held mark{0, 0}; std::unique_ptr<SmartDNN<T>> m; { mem::Track t; m = std::make_unique<SmartDNN<T>>(); build(*m, s); compileWith(*m, ce, ao); }
        for (int r = 0; r < rounds; r++) {
            Capture c; { mem::Track t;
            for (int a : acts) switch (a) {
                case 0: m->train(X, Y, 1 + r % 2); break; case 1: m->predict(X[0]); break; case 2: tryIt([&] { m->predict(wrong); }); m->predict(X[0]); break; case 3: tryIt([&] { m->train(fewer, Y, 1); }); tryIt([&] { m->train(X, Y, 0); }); tryIt([&] { m->getLayer(99); }); break;
                case 4: compileWith(*m, ce, ao); m->train(X, Y, 1); break; case 5: m->evalMode(); m->predict(X); m->trainingMode(); m->predict(X[n - 1]); break;
                default: m->trainingMode(); for (int i = 0; i < n; i++) { Tensor<T> y = m->predict(X[i]); m->backward(y); if (i % 2) m->backward(y); } } }
            c.finish(); Held h = held(); if (r == 1) mark = h; else if (r > 1) notMore(h, mark, "model " + str(s) + " after round " + std::to_string(r + 1) + " of the same calls, against two rounds");
        }
        { mem::Track t; m.reset(); } if (life) notMore(held(), zero, "model " + str(s) + " after its destruction");
    }
    g.nontrivial(); (void)bnIn;
}
// ---- an optimizer: its state follows the parameters, not the calls
template <class T> static void optimizer(Gen& g) {
    g.label("optimizer"); int k = g.i(0, 2), n = g.i(1, 4), rounds = roundsOf(g); std::vector<std::unique_ptr<Tensor<T>>> ps; for (int i = 0; i < n; i++) ps.push_back(std::make_unique<Tensor<T>>(tensor<T>(g, genDimsBig(g, 1, 3, 40, 10, 2000))));
    SGDOptions<T> so; so.momentum = g.flip(60) ? T(0.9) : T(0); so.nesterov = g.flip(50); so.weightDecay = g.flip(50) ? T(0.01) : T(0); RMSPropOptions<T> ro; ro.momentum = g.flip(50) ? T(0.9) : T(0); ro.centered = g.flip(50); AdamOptions<T> ao; ao.decay = g.flip(50) ? T(0.1) : T(0); ao.l1Strength = g.flip(30) ? T(0.01) : T(0); ao.l2Strength = g.flip(30) ? T(0.01) : T(0);
    bool each = g.flip(50), over = g.flip(50), resize = g.flip(20), mismatch = g.flip(30); Dims d1 = snap(*ps[0]).d, d2 = d1; d2[0]++; size_t total = 0; for (auto& p : ps) total += p->getShape().size() + 8; total += numel(d2); NOTE(g, "optimizer " << k << ", " << n << " parameters, " << rounds << " rounds" << (resize ? ", the first one resized" : ""));
    std::vector<std::unique_ptr<Tensor<T>>> keep; // gradients at new addresses all the time
    for (int life = 0; life < 2; life++) {
        static Held zero; if (life) zero = held(); Held mark{0, 0}; std::unique_ptr<Optimizer<T>> op; { mem::Track t; if (k == 0) op = std::make_unique<SGDOptimizer<T>>(so); else if (k == 1) op = std::make_unique<RMSPropOptimizer<T>>(ro); else op = std::make_unique<AdamOptimizer<T>>(ao); } Held start = held();
        for (int r = 0; r < rounds; r++) {
            if (resize) *ps[0] = Tensor<T>(Shape(r % 2 ? d2 : d1), T(1)); std::vector<std::reference_wrapper<Tensor<T>>> w, q; std::vector<Tensor<T>*> gr; for (auto& p : ps) { keep.push_back(std::make_unique<Tensor<T>>(p->getShape(), T(0.01) * T(r + 1))); w.push_back(std::ref(*p)); q.push_back(std::ref(*keep.back())); } if (keep.size() > 40) keep.erase(keep.begin(), keep.begin() + 17);
            { mem::Track t; T lr = over && r % 2 ? T(0.001) * T(r + 1) : T(-1);
              if (each) for (int i = 0; i < n; i++) op->optimize({w[i]}, {q[i]}, lr); else op->optimize(w, q, lr);
              if (mismatch) { tryIt([&] { op->optimize({w[0]}, {}); }); Tensor<T> bad(Shape({(int)w[0].get().getShape().size() + 1}), T(0)); tryIt([&] { op->optimize({w[0]}, {std::ref(bad)}); }); } }
            Held h = held(); if (resize ? r == 3 : r == 1) mark = h; else if (mark.bytes && (!resize || r % 2)) notMore(h, mark, "optimizer " + std::to_string(k) + " after round " + std::to_string(r + 1) + " over the same parameters");
            PCHECK(h.bytes - start.bytes <= (long long)(total * sizeof(T) * 4 + 1500 * n + 1024), "the state of optimizer " << k << " for " << total << " weights takes " << h.bytes - start.bytes << " bytes");
        }
        { mem::Track t; op.reset(); } if (life) notMore(held(), zero, "optimizer " + std::to_string(k) + " after its destruction");
    }
    g.nontrivial();
}
// ---- reading data: no memory and no open file is left, whether the files were accepted or rejected
template <class T> static void loader(Gen& g) {
    g.label("loader"); int n = g.i(1, 8), rows = g.i(1, 5), cols = g.i(1, 5), bs = g.i(1, 9), req = g.flip(50) ? -1 : g.i(0, n); uint64_t st = g.seed32(); std::string im = be(2051) + be(n) + be(rows) + be(cols), lb = be(2049) + be(n);
    for (int i = 0; i < n * rows * cols; i++) im += (char)pbt::splitmix(st); for (int i = 0; i < n; i++) lb += (char)(pbt::splitmix(st) % 10);
    int bad = g.i(0, 6); const char* what[] = {"whole files", "shortened images", "shortened labels", "a wrong magic number", "a label above nine", "a huge count", "a missing file"}; g.label(what[bad]);
    switch (bad) { case 1: im.resize(g.draw(im.size())); break; case 2: lb.resize(g.draw(lb.size())); break; case 3: (g.flip(50) ? im : lb)[3] ^= 1; break; case 4: lb[8 + g.draw(n)] = 77; break; case 5: (g.flip(50) ? im : lb).replace(4, 4, be(0x7fffffffu)); req = -1; break; default:; }
    MemFile fi(im), fl(lb); std::string ip = fi.path(), lp = bad == 6 ? "/nonexistent/labels" : fl.path(); NOTE(g, what[bad] << ": " << n << " images of " << rows << "x" << cols << ", batches of " << bs); bool ok = false, obj = g.flip(50); int rounds = std::min(roundsOf(g), 40); std::unique_ptr<MNISTLoader<T>> L;
    if (obj) { mem::Track t; L = std::make_unique<MNISTLoader<T>>(ip, lp, bs, req); }
    Held mark = held(); int files = openFiles();
    for (int r = 0; r < rounds; r++) {
        { mem::Track t; ok = tryIt([&] { if (obj) L->loadData(); else MNISTLoader<T>(ip, lp, bs, req).loadData(); }); }
        Held h = held(); if (r == 0) { PCHECK(h.bytes - mark.bytes <= 4096 + 24 * (long long)(im.size() + 10 * lb.size()), "after loading the data and giving it back " << h.bytes - mark.bytes << " bytes are held"); mark = h; } else notMore(h, mark, std::string("after loading ") + what[bad] + " " + std::to_string(r + 1) + " times");
        PCHECK(openFiles() <= files, "after loading " << what[bad] << " " << r + 1 << " times " << openFiles() << " files are open, before it was " << files);
    }
    { mem::Track t; L.reset(); } PCHECK(bad != 0 || ok || req > n, "whole files were rejected"); g.nontrivial();
}
template <class T> static void run(Gen& g) {
    switch (g.pick({25, 12, 25, 18, 12, 8})) { case 0: return operations(g); case 1: return tensors<T>(g); case 2: return layer<T>(g); case 3: return model<T>(g); case 4: return optimizer<T>(g); default: return loader<T>(g); }
}
TWO_TYPES(run)
