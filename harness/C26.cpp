// C26: setting the seed makes building, training and predicting reproducible, whatever ran before
#include "model.hpp"
#include "rdev.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
#include <new>
#include <ctime>

// Fresh heap memory is filled with a pattern of our choosing, so that a value read before it is written differs between runs.
static unsigned char heapFill = 0;
static void* filled(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, heapFill, n); return p; }
void* operator new(size_t n) { return filled(n); }
void* operator new[](size_t n) { return filled(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
__attribute__((noinline)) static void dirtyStack(unsigned char c) { volatile unsigned char b[16384]; for (size_t i = 0; i < sizeof b; i++) b[i] = c; }

template <class T> struct Prog { uint32_t seed; Stack s; bool ce; AnyOpt<T> o; std::vector<Arr<T>> X, Y; int ep; Dims rnd; bool evalEnd; Dims dropDims; };
template <class T> static std::string perform(const Prog<T>& p, std::vector<Arr<T>>& res) {
    res.clear(); RandomEngine::setSeed(p.seed);
    if (p.rnd.size()) { res.push_back(snap(Tensor<T>::rand(Shape(p.rnd)))); res.push_back(snap(Tensor<T>::randn(Shape(p.rnd), T(-2), T(3)))); }
    SmartDNN<T> m; build(m, p.s); compileWith(m, p.ce, p.o);
    auto params = [&] { for (size_t k = 0; k < p.s.l.size(); k++) { if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(m.getLayer(k))) { res.push_back(snap(f->getWeights())); res.push_back(snap(f->getBiases())); } else if (auto* c = dynamic_cast<Conv2DLayer<T>*>(m.getLayer(k))) { res.push_back(snap(c->getWeights())); res.push_back(snap(c->getBiases())); } } };
    params(); std::vector<Tensor<T>> X, Y; for (auto& x : p.X) X.push_back(mk(x)); for (auto& y : p.Y) Y.push_back(mk(y));
    std::string out; { Capture c; m.train(X, Y, p.ep); out = c.finish(); }
    params(); for (auto& x : X) res.push_back(snap(m.predict(x)));                    // still in training mode: dropout is drawn
    if (p.evalEnd) { m.evalMode(); for (auto& x : X) res.push_back(snap(m.predict(x))); }
    res.push_back(snap(Tensor<T>::rand(Shape({3})))); return out;
}
template <class T> static Prog<T> genProg(Gen& g) {
    Prog<T> p; p.seed = g.seed32(); p.ce = g.flip(35); p.s = genStack(g, p.ce ? 1 : 0); p.o.k = g.i(0, 2);
    p.o.s.nesterov = g.flip(30); p.o.r.momentum = g.flip(50) ? T(0.9) : T(0); p.o.r.centered = g.flip(30); p.o.a.decay = g.flip(30) ? T(0.1) : T(0);
    int n = g.i(1, 3); uint64_t st = g.seed32();
    for (int i = 0; i < n; i++) { int b = p.s.rank1 ? 1 : g.i(1, 3); Arr<T> x{withBatch(p.s, b), {}}, y{withBatch(p.s, b, true), {}}; for (size_t k = 0; k < numel(x.d); k++) x.v.push_back((T)gauss(st)); for (size_t k = 0; k < numel(y.d); k++) y.v.push_back(p.ce ? T((int)(k % p.s.out[0]) == (int)((i + k / p.s.out[0]) % p.s.out[0])) : (T)gauss(st)); p.X.push_back(x); p.Y.push_back(y); }
    p.ep = g.i(0, 4); if (g.flip(50)) p.rnd = genDims(g, 1, 3, 60); p.evalEnd = g.flip(60); return p;
}
template <class T> static void otherWork(Gen& g) {
    int n = g.i(0, 4);
    for (int k = 0; k < n; k++) switch (g.draw(7)) {
        case 0: { int m = g.i(1, 7); for (int i = 0; i < m; i++) { RandomEngine::getRand(); if (i & 1) RandomEngine::getXavierInit(3.f); else RandomEngine::getHeInit(2.f); } break; }
        case 1: { Prog<T> q = genProg<T>(g); std::vector<Arr<T>> r; perform(q, r); break; }
        case 2: RandomEngine::setSeed(g.seed32()); Tensor<T>::randn(Shape({g.i(1, 9)}), T(0), T(1)); break;
        case 3: RandomEngine::getHeRandRange(5.f, -1.f, 1.f); RandomEngine::getRandRange(-1.f, 1.f); break;
        case 4: { DropoutLayer<T> d(T(0.5)); d.forward(Tensor<T>(Shape({g.i(1, 40)}), T(1))); break; }
        case 5: { // an optimizer used on other parameters
            Tensor<T> w(Shape({g.i(1, 5)}), T(1)), gr(w); switch (g.draw(3)) { case 0: { AdamOptimizer<T> a; a.optimize({std::ref(w)}, {std::ref(gr)}); break; } case 1: { RMSPropOptimizer<T> a; a.optimize({std::ref(w)}, {std::ref(gr)}); break; } default: { SGDOptimizer<T> a; a.optimize({std::ref(w)}, {std::ref(gr)}); } } break; }
        default: { std::vector<std::unique_ptr<char[]>> junk; int m = g.i(1, 20); for (int i = 0; i < m; i++) junk.emplace_back(new char[1 + i * 37]); srand(g.seed32()); rand(); }
    }
}
template <class T> static void run(Gen& g) {
    static unsigned char fills[] = {0x00, 0xff, 0x3f, 0x7f, 0xc1, 0x40, 0xa5};
    rdevState() = g.seed32(); Prog<T> p = genProg<T>(g); static const uint32_t hot[] = {0, 1, 42, 5489, 0xffffffffu, 0x80000000u}; if (g.flip(25)) p.seed = hot[g.draw(6)];
    NOTE(g, "seed " << p.seed << ", " << str(p.s) << (p.ce ? " cross-entropy" : " mse") << " optimizer " << p.o.k << ", " << p.X.size() << " samples, " << p.ep << " epochs" << (p.rnd.size() ? ", after rand and randn of " + str(p.rnd) : std::string()));
    std::vector<Arr<T>> first, again; uint64_t r0 = rdevCalls(); heapFill = fills[g.draw(7)]; std::string out = perform(p, first); int reps = g.i(1, 2);
    for (int k = 0; k < reps; k++) {
        heapFill = fills[g.draw(7)]; otherWork<T>(g); dirtyStack(heapFill); std::string o2 = perform(p, again);
        PCHECK(again.size() == first.size(), "harness error"); PCHECK(out == o2, "the same seed printed '" << o2 << "' instead of '" << out << "' for " << str(p.s));
        for (size_t i = 0; i < first.size(); i++) { PCHECK(first[i].d == again[i].d, "shape " << str(again[i].d) << " instead of " << str(first[i].d)); for (size_t e = 0; e < first[i].n(); e++) PCHECK(sameBits(first[i].v[e], again[i].v[e]) || (first[i].v[e] != first[i].v[e] && again[i].v[e] != again[i].v[e]), "with the same seed, value " << e << " of result " << i << " (random tensors, initial parameters, trained parameters, predictions) is " << again[i].v[e] << " instead of " << first[i].v[e] << " for " << str(p.s)); }
    }
    PCHECK(rdevCalls() == r0, "the library drew from std::random_device " << rdevCalls() - r0 << " times outside the sample generator");
    heapFill = 0;
    // ---- other seeds give other weights and dropout choices
    uint32_t s1 = p.seed, s2; switch (g.pick({30, 40, 30})) { case 0: s2 = s1 + 1; break; case 1: s2 = s1 ^ (1u << g.draw(32)); break; default: s2 = s1 ^ (1 + g.seed32() % 0xfffffffe); }
    auto differ = [&](auto&& f, const char* what) { RandomEngine::setSeed(s1); Arr<T> a = f(); RandomEngine::setSeed(s2); Arr<T> b = f(); PCHECK(a.d == b.d, what << ": shapes differ"); bool eq = true; for (size_t i = 0; i < a.n(); i++) eq &= a.v[i] == b.v[i]; PCHECK(!eq, what << " is the same under seeds " << s1 << " and " << s2); };
    int a = g.i(6, 12), b = g.i(6, 12);   // half the initial weights are clamped to 0: enough of them that a coincidence is out of the question
    differ([&] { return snap(FullyConnectedLayer<T>(a, b).getWeights()); }, "the initial weight of a fully connected layer");
    differ([&] { return snap(Conv2DLayer<T>(1 + a % 2, b, 2, 3, 1, 0, 1).getWeights()); }, "the initial weight of a convolution layer");
    differ([&] { DropoutLayer<T> d(T(0.5)); return snap(d.forward(Tensor<T>(Shape({250}), T(1)))); }, "the dropout choice over 250 elements");
    if (p.ep || p.rnd.size()) g.nontrivial();
}
TWO_TYPES(run)
