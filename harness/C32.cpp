// C32: objects of one thread are its own: distinct objects used by several threads, and constant ones shared by them, behave as in one thread
#include "model.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
#include <sys/mman.h>
#include <unistd.h>
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Debugging/Logger.hpp"
#ifdef _OPENMP
#error this harness looks at threads the caller starts
#endif

// what a thread's models print goes to that thread's own text
static thread_local std::string tlText;
struct TlBuf : std::streambuf { int_type overflow(int_type c) override { if (c != traits_type::eof()) tlText.push_back((char)c); return traits_type::not_eof(c); } std::streamsize xsputn(const char* s, std::streamsize n) override { tlText.append(s, (size_t)n); return n; } int sync() override { return 0; } };
struct CoutTo { TlBuf b; std::streambuf* old; CoutTo() : old(std::cout.rdbuf(&b)) {} ~CoutTo() { std::cout.rdbuf(old); } };

template <class T> struct Out { bool threw = false; std::vector<Dims> d; std::vector<std::vector<T>> v; std::string text; };
template <class T> static void put(Out<T>& r, const Tensor<T>& t) { r.d.push_back(t.getShape().getDimensions()); const T* p = t.getData().data(); r.v.emplace_back(p, p + t.getShape().size()); }

enum { K_TENSOR, K_ACT, K_LAYER, K_OPT, K_LOSS, K_MODEL, K_DATA, K_COUNT };
static const char* kn[] = {"tensors", "activation", "layer", "optimizer", "loss", "model", "data set"};
// one step of a thread
template <class T> struct Step { int op = 0; Arr<T> a, b; int n = 0; int sh1 = 0, sh2 = 0; };
struct MemFile { int fd; explicit MemFile(const std::string& b) { fd = memfd_create("mnist", MFD_CLOEXEC); if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) _exit(2); } ~MemFile() { close(fd); } MemFile(const MemFile&) = delete; std::string path() const { return "/proc/self/fd/" + std::to_string(fd); } };
// what is shared by all threads
template <class T> struct Shared { std::vector<Tensor<T>> t; std::unique_ptr<Activation<T>> act; };
// one thread: its objects and its steps
template <class T> struct Worker {
    int kind = 0; LDesc ld; int act = 0; AnyOpt<T> ao; Stack st; bool ce = false;
    std::vector<Step<T>> steps; std::vector<Out<T>> out;
    std::unique_ptr<Layer<T>> layer; std::unique_ptr<Optimizer<T>> opt; std::unique_ptr<Loss<T>> loss; std::unique_ptr<SmartDNN<T>> model; std::vector<std::unique_ptr<Tensor<T>>> own; std::unique_ptr<Activation<T>> myAct; std::unique_ptr<MemFile> im, lb;
    void release() { layer.reset(); opt.reset(); loss.reset(); model.reset(); own.clear(); myAct.reset(); im.reset(); lb.reset(); }
};
template <class T> static void readOp(const Step<T>& s, const Tensor<T>& a, const Tensor<T>& b, Out<T>& r) { // only constant operations on a and b
    typedef AdvancedTensorOperations<T> A; size_t rank = a.getShape().rank();
    switch (s.op) {
        case 0: put<T>(r, a + b); put<T>(r, b - a); break; case 1: put<T>(r, a * b); put<T>(r, a / b); break;
        case 2: put<T>(r, a + T(2)); put<T>(r, T(2) - a); put<T>(r, a * T(3)); put<T>(r, T(1) / a); put<T>(r, a / T(3)); put<T>(r, -a); break;
        case 3: put<T>(r, (a * a).sqrt()); put<T>(r, A::apply(a, [](T x) { return x * x + T(1); })); put<T>(r, A::reciprocal(a)); break;
        case 4: put<T>(r, A::transpose(a, (size_t)s.n % rank, rank - 1)); put<T>(r, A::reshape(a, Shape({(int)a.getShape().size()}))); put<T>(r, a.slice(0, 0)); break;
        case 5: put<T>(r, A::matmul(a, b)); break;
        case 6: put<T>(r, A::sum(a)); put<T>(r, A::sum(a, (size_t)s.n % rank)); put<T>(r, A::sum(a, std::vector<size_t>{(size_t)s.n % rank})); break;
        case 7: { std::vector<size_t> ax{(size_t)s.n % rank}; Tensor<T> m = A::mean(a, ax); put<T>(r, m); put<T>(r, A::variance(a, m, ax)); put<T>(r, A::mean(a)); break; }
        case 8: { r.text += a.toDataString() + a.toDetailedString() + (a == b ? "=" : "!"); r.text += a.getShape().toString(); break; }
        case 9: { Tensor<T> c(a), d(b); c += d; d = c; c *= T(2); put<T>(r, c); put<T>(r, d); Tensor<T> e(std::move(c)); put<T>(r, e); break; }
        case 10: { std::vector<T> x; std::vector<int> at(rank, 0); for (int k = 0; k < 4; k++) { for (size_t i = 0; i < rank; i++) at[i] = (k * 7 + s.n) % a.getShape()[(int)i]; x.push_back(a.at(at)); x.push_back(a[(size_t)(k * 5 + s.n) % a.getShape().size()]); } r.d.push_back({8}); r.v.push_back(x); break; }
        default: { std::vector<std::pair<int, int>> sl; for (int x : a.getShape().getDimensions()) sl.push_back({s.n % x, x}); SliceView<T> v(a.getData(), sl, std::vector<int>(rank, 1 + std::abs(s.sh2) % 2)); std::vector<T> x; Dims sd = v.shape().getDimensions(); for (size_t i = 0; i < numel(sd); i++) x.push_back(v[unflat(sd, i)]); r.d.push_back(sd); r.v.push_back(x); }
    }
}
template <class T> static void perform(Worker<T>& w, const Step<T>& s, const Shared<T>& sh, Out<T>& r) {
    tlText.clear();
    try {
        switch (w.kind) {
            case K_TENSOR: { const Tensor<T>& a = s.sh1 >= 0 ? sh.t[s.sh1] : *w.own[0]; const Tensor<T>& b = s.sh2 >= 0 ? sh.t[s.sh2] : *w.own[1]; readOp(s, a, b, r); if (s.sh1 < 0 && s.op < 3) { *w.own[0] += b; put<T>(r, *w.own[0]); *w.own[0] -= b; } break; }
            case K_ACT: { const Activation<T>& f = s.n ? *sh.act : *w.myAct; const Tensor<T>& x = s.sh1 >= 0 ? sh.t[s.sh1] : *w.own[0]; put<T>(r, f.forward(x)); put<T>(r, f.backward(x, x)); break; }
            case K_LAYER: if (s.op == 0) put<T>(r, w.layer->forward(mk(s.a))); else if (s.op == 1) put<T>(r, w.layer->backward(mk(s.a))); else if (s.op == 2) w.layer->updateWeights(*w.opt); else w.layer->setTrainingMode(s.n); break;
            case K_OPT: { Tensor<T> g0 = mk(s.a), g1 = mk(s.b); if (s.n) w.opt->optimize({std::ref(*w.own[0]), std::ref(*w.own[1])}, {std::ref(g0), std::ref(g1)}); else w.opt->optimize({std::ref(*w.own[1])}, {std::ref(g1)}, T(0.125)); put<T>(r, *w.own[0]); put<T>(r, *w.own[1]); break; }
            case K_LOSS: { const Tensor<T> p = s.sh1 >= 0 ? sh.t[s.sh1] : mk(s.a); Tensor<T> t = mk(s.b); put<T>(r, w.loss->compute(p, t)); put<T>(r, w.loss->gradient(p, t)); break; }
            case K_DATA: if (s.op == 0) { MNISTLoader<T> L(w.im->path(), w.lb->path(), s.sh1, s.n); auto p = L.loadData(); for (auto& t : p.first) put<T>(r, t); for (auto& t : p.second) put<T>(r, t); } else if (s.op == 1) { MNISTLoader<T> L("none", "none"); r.text += L.toAsciiArt(mk(s.a)); } else { Logger::log(Logger::Level::WARNING, std::string("worker ") + std::to_string(s.n)); Logger::log(Logger::Level::INFO, s.n); r.text += tlText; } break;
            default: if (s.op == 0) w.model->train({mk(s.a)}, {mk(s.b)}, 1); else { if (s.op == 2) w.model->trainingMode(); else w.model->evalMode(); put<T>(r, w.model->predict(mk(s.a))); w.model->trainingMode(); }
        }
    } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { r.threw = true; r.d.clear(); r.v.clear(); r.text = e.what(); }
    r.text += tlText;
}
template <class T> static std::unique_ptr<Optimizer<T>> mkOpt(const AnyOpt<T>& o) { if (o.k == 0) return std::make_unique<SGDOptimizer<T>>(o.s); if (o.k == 1) return std::make_unique<RMSPropOptimizer<T>>(o.r); return std::make_unique<AdamOptimizer<T>>(o.a); }
template <class T> static std::unique_ptr<Layer<T>> mkLayer(const LDesc& l) { // through a model, then out of it
    switch (l.k) { case L_FC: return std::make_unique<FullyConnectedLayer<T>>(l.a, l.b); case L_CONV: return std::make_unique<Conv2DLayer<T>>(l.a, l.b, l.kh, l.kw, l.s, l.p, l.dl); case L_POOL: return std::make_unique<MaxPooling2DLayer<T>>(l.kh, l.s, l.p); case L_BN: return std::make_unique<BatchNormalizationLayer<T>>(l.a); case L_FLAT: return std::make_unique<FlattenLayer<T>>();
        default: switch (l.act) { case A_RELU: return std::make_unique<ActivationLayer<T>>(ReLU<T>()); case A_LEAKY: return std::make_unique<ActivationLayer<T>>(LeakyReLU<T>(T(l.alpha))); case A_SIGMOID: return std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); case A_TANH: return std::make_unique<ActivationLayer<T>>(Tanh<T>()); case A_SWISH: return std::make_unique<ActivationLayer<T>>(Swish<T>()); case A_MISH: return std::make_unique<ActivationLayer<T>>(Mish<T>()); default: return std::make_unique<ActivationLayer<T>>(Softmax<T>()); } } }
template <class T> static std::unique_ptr<Layer<T>> copyLayer(const Layer<T>& l) {
    if (auto* p = dynamic_cast<const FullyConnectedLayer<T>*>(&l)) return std::make_unique<FullyConnectedLayer<T>>(*p); if (auto* p = dynamic_cast<const Conv2DLayer<T>*>(&l)) return std::make_unique<Conv2DLayer<T>>(*p); if (auto* p = dynamic_cast<const MaxPooling2DLayer<T>*>(&l)) return std::make_unique<MaxPooling2DLayer<T>>(*p);
    if (auto* p = dynamic_cast<const BatchNormalizationLayer<T>*>(&l)) return std::make_unique<BatchNormalizationLayer<T>>(*p); if (auto* p = dynamic_cast<const FlattenLayer<T>*>(&l)) return std::make_unique<FlattenLayer<T>>(*p); return nullptr; }
template <class T> static std::unique_ptr<Optimizer<T>> copyOpt(const Optimizer<T>& o) { if (auto* p = dynamic_cast<const SGDOptimizer<T>*>(&o)) return std::make_unique<SGDOptimizer<T>>(*p); if (auto* p = dynamic_cast<const RMSPropOptimizer<T>*>(&o)) return std::make_unique<RMSPropOptimizer<T>>(*p); return std::make_unique<AdamOptimizer<T>>(dynamic_cast<const AdamOptimizer<T>&>(o)); }

template <class T> static void run(Gen& g) {
    CoutTo sink; int nw = g.pick({50, 30, 20}) + 2; uint64_t st = g.seed32();
    auto arr = [&](const Dims& d, int kind = 0) { Arr<T> a{d, {}}; size_t n = numel(d); for (size_t i = 0; i < n; i++) { uint64_t r = pbt::splitmix(st); double x = kind == 1 ? (1 + r % 998) / 1000.0 : kind == 2 ? 1 + (r % 7) / 4.0 : (double)((int)(r % 2001) - 1000) / 250.0; a.v.push_back((T)x); } return a; };
    // shared constants: square matrices and a row, so that any two of them combine
    int q = g.i(1, 5); Shared<T> sh; std::vector<Arr<T>> shA; for (const Dims& d : {Dims{q, q}, Dims{q, q}, Dims{g.i(1, 3), q, q}}) { shA.push_back(arr(d, 2)); sh.t.push_back(mk(shA.back())); } int sact = (int)g.draw(A_COUNT); sh.act = mkAct<T>(sact, T(0.1));
    // a common ancestry: several threads may work on copies of one object that was already used
    bool same = g.flip(60); int kind0 = g.pick({18, 12, 26, 14, 8, 18, 4}); std::vector<Worker<T>> par(nw), ser(nw); bool copies = g.flip(50);
    std::string note; uint32_t lseed = g.seed32();
    for (int i = 0; i < nw; i++) {
        Worker<T>& w = par[i]; bool clone = i && same; if (clone) { w.kind = par[0].kind; w.ld = par[0].ld; w.act = par[0].act; w.ao = par[0].ao; w.st = par[0].st; w.ce = par[0].ce; } else {
            w.kind = i ? g.pick({18, 12, 26, 14, 8, 18, 4}) : kind0; w.act = (int)g.draw(A_COUNT); w.ce = g.flip(50); w.ao.k = g.i(0, 2); w.ao.s.learningRate = T(0.01); w.ao.s.momentum = g.flip(70) ? T(0.9) : T(0); w.ao.r.learningRate = T(0.001); w.ao.r.momentum = g.flip(50) ? T(0.9) : T(0); w.ao.r.centered = g.flip(50); w.ao.a.learningRate = T(0.001);
            LDesc& l = w.ld; static const LK ks[] = {L_FC, L_CONV, L_POOL, L_BN, L_FLAT, L_ACT}; l.k = ks[g.draw(6)]; l.a = g.i(1, 3); l.b = g.i(1, 3); l.act = w.act; if (l.k == L_CONV) { l.kh = g.i(1, 3); l.kw = g.i(1, 3); l.s = g.i(1, 2); l.p = g.i(0, 1); l.dl = g.i(1, 2); } if (l.k == L_POOL) { l.kh = g.i(1, 3); l.s = g.i(1, 2); l.p = l.kh > 1 ? g.i(0, 1) : 0; }
            if (w.kind == K_MODEL) { StackOpts so; so.drop = false; so.maxConv = 2; so.maxDense = 3; w.st = genStack(g, w.ce ? 1 : 0, so); } }
        // steps
        int ns = g.i(1, 5); bool fwd = false; Dims lin, lout; int bt = g.i(1, 3);
        auto inDims = [&] { const LDesc& l = w.ld; int h = g.i(5, 7); switch (l.k) { case L_FC: return Dims{g.i(1, 4), l.a}; case L_CONV: return Dims{g.i(1, 2), l.a, h, g.i(5, 7)}; case L_POOL: return Dims{g.i(1, 2), g.i(1, 2), h, g.i(3, 6)}; case L_BN: return g.flip(50) ? Dims{g.i(2, 4), l.a} : Dims{g.i(1, 2), l.a, 2, 2}; default: return genDims(g, 2, 3, 30); } };
        auto outDims = [&](const Dims& d) { const LDesc& l = w.ld; switch (l.k) { case L_FC: return Dims{d[0], l.b}; case L_CONV: return Dims{d[0], l.b, (d[2] + 2 * l.p - l.dl * (l.kh - 1) - 1) / l.s + 1, (d[3] + 2 * l.p - l.dl * (l.kw - 1) - 1) / l.s + 1}; case L_POOL: return Dims{d[0], d[1], (d[2] + 2 * l.p - l.kh) / l.s + 1, (d[3] + 2 * l.p - l.kh) / l.s + 1}; case L_FLAT: { int r = 1; for (size_t k = 1; k < d.size(); k++) r *= d[k]; return Dims{d[0], r}; } default: return d; } };
        bool bwd = false;
        for (int s = 0; s < ns; s++) { Step<T> x; switch (w.kind) {
            case K_TENSOR: x.op = g.i(0, 11); x.n = g.i(0, 3); x.sh1 = g.i(-1, 2); x.sh2 = x.sh1 < 0 ? g.i(-1, 1) : g.i(0, 2); break;
            case K_ACT: x.n = g.flip(50); x.sh1 = g.i(-1, 2); break;
            case K_LAYER: x.op = !fwd ? 0 : g.pick({35, 35, bwd ? 25 : 0, 5}); if (x.op == 0) { lin = inDims(); lout = outDims(lin); x.a = arr(lin); fwd = true; } else if (x.op == 1) { x.a = arr(lout); bwd = true; } else if (x.op == 3) { x.n = g.flip(50); } break;
            case K_OPT: x.a = arr({3, 2}); x.b = arr({4}); x.n = g.flip(60); break;
            case K_LOSS: x.sh1 = g.flip(50) ? g.i(0, 1) : -1; { Dims d = x.sh1 >= 0 ? Dims{q, q} : Dims{g.i(1, 4), g.i(1, 4)}; x.a = arr(d, 1); x.b = arr(d, 1); } break;
            case K_DATA: x.op = g.pick({60, 20, 20}); x.n = g.flip(70) ? g.i(1, 4) : -1; x.sh1 = g.i(1, 3); if (x.op == 1) { x.a = arr({28, 28}, 1); } break;
            default: x.op = g.pick({50, 40, 10}); { int b = w.st.rank1 ? 1 : bt + 1; x.a = arr(withBatch(w.st, b)); x.b = arr(withBatch(w.st, b, true), 1); } } w.steps.push_back(x); }
        note += std::string(i ? "; " : "") + kn[w.kind] + (w.kind == K_LAYER ? " " + str(w.ld) : w.kind == K_MODEL ? " " + str(w.st) : w.kind == K_ACT ? std::string(" ") + actName[w.act] : std::string()) + " x" + std::to_string(ns); g.label(kn[w.kind]);
    }
    // the objects, once for the threads and once for the same work done by one thread
    auto give = [&](std::vector<Worker<T>>& v) { RandomEngine::setSeed(lseed); uint64_t keep = st;
        for (int i = 0; i < nw; i++) { Worker<T>& w = v[i]; bool fromFirst = i && same && copies; uint64_t s2 = 77 + (fromFirst ? 0 : i);
            auto own = [&](const Dims& d, bool pos) { Arr<T> a{d, {}}; for (size_t k = 0; k < numel(d); k++) { uint64_t r = pbt::splitmix(s2); a.v.push_back((T)(pos ? 1 + (r % 9) / 4.0 : (double)((int)(r % 201) - 100) / 25.0)); } w.own.push_back(std::make_unique<Tensor<T>>(mk(a))); };
            switch (w.kind) {
                case K_TENSOR: case K_ACT: if (fromFirst) { for (auto& p : v[0].own) w.own.push_back(std::make_unique<Tensor<T>>(*p)); } else { own({q, q}, true); own({q, q}, true); } w.myAct = mkAct<T>(w.act, T(0.1)); break;
                case K_LAYER: if (fromFirst && v[0].layer) w.layer = copyLayer(*v[0].layer); if (!w.layer) w.layer = mkLayer<T>(w.ld); else g.label("copies of one object"); if (i == 0 && same && copies && !w.steps.empty()) { Out<T> r; perform(w, w.steps[0], sh, r); } w.opt = fromFirst ? copyOpt(*v[0].opt) : mkOpt(w.ao); break;
                case K_OPT: own({3, 2}, false); own({4}, false); if (fromFirst) { w.opt = copyOpt(*v[0].opt); g.label("copies of one object"); } else { w.opt = mkOpt(w.ao); if (copies) { Out<T> r; perform(w, w.steps[0], sh, r); } } break;
                case K_LOSS: if (w.ce) w.loss = std::make_unique<CategoricalCrossEntropyLoss<T>>(); else w.loss = std::make_unique<MSELoss<T>>(); break;
                case K_DATA: { auto be = [](uint32_t v) { return std::string{(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }; int n = 4, rr = 2 + i, cc = 3; std::string im = be(2051) + be(n) + be(rr) + be(cc), lb = be(2049) + be(n); for (int k = 0; k < n * rr * cc; k++) im.push_back((char)(pbt::splitmix(s2) % 256)); for (int k = 0; k < n; k++) lb.push_back((char)(pbt::splitmix(s2) % 10)); w.im = std::make_unique<MemFile>(im); w.lb = std::make_unique<MemFile>(lb); break; }
                default: w.model = std::make_unique<SmartDNN<T>>(); build(*w.model, w.st); compileWith(*w.model, w.ce, w.ao);
            } }
        st = keep; };
    for (int i = 0; i < nw; i++) { ser[i].kind = par[i].kind; ser[i].ld = par[i].ld; ser[i].act = par[i].act; ser[i].ao = par[i].ao; ser[i].st = par[i].st; ser[i].ce = par[i].ce; ser[i].steps = par[i].steps; }
    give(ser); for (int i = 0; i < nw; i++) for (auto& s : ser[i].steps) { Out<T> r; perform(ser[i], s, sh, r); ser[i].out.push_back(std::move(r)); } for (auto& w : ser) w.release();
    give(par); for (auto& w : par) w.out.resize(w.steps.size());
    // the schedule: either drawn, one step at a time, with no synchronisation between the threads but the turn itself, or everything at once
    bool turns = g.flip(75); std::vector<std::vector<int>> slot(nw); { std::vector<int> left; for (int i = 0; i < nw; i++) for (size_t k = 0; k < par[i].steps.size(); k++) left.push_back(i); int pos = 0; while (!left.empty()) { size_t k = g.draw(left.size()); slot[left[k]].push_back(pos++); left.erase(left.begin() + k); } }
    NOTE(g, nw << " threads" << (turns ? " taking turns: " : " at once: ") << note << (same && copies ? " (copies of the first)" : "")); g.label(turns ? "drawn schedule" : "at once");
    std::atomic<int> turn{0}, ready{0}; std::vector<std::thread> th;
    for (int i = 0; i < nw; i++) th.emplace_back([&, i] {
        Worker<T>& w = par[i]; ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nw) sched_yield();
        for (size_t k = 0; k < w.steps.size(); k++) { if (turns) while (turn.load(std::memory_order_relaxed) != slot[i][k]) sched_yield(); perform(w, w.steps[k], sh, w.out[k]); if (turns) turn.fetch_add(1, std::memory_order_relaxed); }
    });
    for (auto& t : th) t.join();
    for (int i = 0; i < nw; i++) for (size_t k = 0; k < par[i].steps.size(); k++) {
        const Out<T>&a = par[i].out[k], &b = ser[i].out[k]; std::string what = "step " + std::to_string(k) + " of thread " + std::to_string(i) + " (" + kn[par[i].kind] + ", operation " + std::to_string(par[i].steps[k].op) + ")";
        PCHECK(a.threw == b.threw, what << (a.threw ? " throws beside other threads: " : " is accepted beside other threads, alone it throws: ") << a.text << b.text); PCHECK(a.text == b.text, what << " prints '" << a.text << "' beside other threads, alone '" << b.text << "'"); PCHECK(a.d == b.d, what << " gives other shapes beside other threads");
        for (size_t j = 0; j < a.v.size(); j++) for (size_t e = 0; e < a.v[j].size(); e++) { T x = a.v[j][e], y = b.v[j][e]; PCHECK(sameBits(x, y) || (x != x && y != y), what << ": element " << e << " of result " << j << " is " << x << " beside other threads, alone " << y); }
    }
    for (size_t k = 0; k < sh.t.size(); k++) checkBits(sh.t[k], shA[k], "a shared constant tensor");
    size_t tot = 0; for (auto& w : par) tot += w.steps.size(); if (tot > (size_t)nw) g.nontrivial();
}
TWO_TYPES(run)
