// C03: tensors are independent values over every history (stateful, pool of tensors against plain arrays)
#include "common.hpp"

template <class T> static void body(Gen& g) {
    struct Live { std::unique_ptr<Tensor<T>> t; Arr<T> m; };
    std::vector<Live> pool;
    bool moved = false, selfop = false; int mutated = 0;
    auto one = [&]() { Arr<T> a{{1}, {T(0)}}; return a; };
    auto dimsOf = [&]() { if (g.flip(1) && g.flip(25)) { g.label("large tensor"); return genDimsBig(g, 1, 3, 60, 100, 10000, 70001); } return genDims(g, 1, 4, 60); };
    auto idx = [&]() { return (size_t)g.draw(pool.size()); };
    auto checkAll = [&](const char* op) {
        for (size_t i = 0; i < pool.size(); i++) {
            Arr<T> got = snap(*pool[i].t);
            PCHECK(got.d == pool[i].m.d, "after " << op << ": tensor " << i << " has shape " << str(got.d) << ", expected " << str(pool[i].m.d));
            for (size_t k = 0; k < got.n(); k++) PCHECK(sameVal(got.v[k], pool[i].m.v[k]), "after " << op << ": tensor " << i << " element " << k << " is " << got.v[k] << ", expected " << pool[i].m.v[k]);
        }
        // distinct tensors own distinct storage
        for (size_t i = 0; i < pool.size(); i++) for (size_t j = 0; j < i; j++)
            PCHECK(pool[i].t->getData().data() != pool[j].t->getData().data(), "after " << op << ": two tensors share storage");
    };
    auto add = [&](Tensor<T>&& t, Arr<T> m) { pool.push_back(Live{std::make_unique<Tensor<T>>(std::move(t)), std::move(m)}); };
    int steps = g.i(1, 24);
    for (int s = 0; s < steps; s++) {
        if (pool.size() > 6) pool.erase(pool.begin() + idx());
        int op = pool.empty() ? g.i(0, 5) : g.i(0, 30);
        const char* name = "";
        switch (op) {
            case 0: { name = "construct from vector"; Arr<T> m = genArr<T>(g, dimsOf(), V_NORMAL); NOTE(g, name << str(m) << "; "); add(Tensor<T>(Shape(m.d), (const std::vector<T>&)m.v), m); break; }
            case 1: { name = "construct filled"; Arr<T> m; m.d = dimsOf(); T v = mkVal<T>(g.draw(4097), V_NORMAL); m.v.assign(numel(m.d), v); NOTE(g, name << str(m.d) << "; "); add(Tensor<T>(Shape(m.d), v), m); break; }
            case 2: { name = "construct zeroed"; Arr<T> m; m.d = dimsOf(); m.v.assign(numel(m.d), T(0)); NOTE(g, name << str(m.d) << "; "); add(Tensor<T>(Shape(m.d)), m); break; }
            case 3: { name = "construct from pointer"; Arr<T> m = genArr<T>(g, dimsOf(), V_NORMAL); const T* p = m.v.data(); NOTE(g, name << str(m) << "; "); add(Tensor<T>(Shape(m.d), p), m); break; }
            case 4: { name = "construct from moved vector"; Arr<T> m = genArr<T>(g, dimsOf(), V_NORMAL); std::vector<T> c = m.v; NOTE(g, name << str(m) << "; "); add(Tensor<T>(Shape(m.d), std::move(c)), m); break; }
            case 5: {
                name = "construct from wrong number of values";
                Arr<T> m = genArr<T>(g, dimsOf(), V_NORMAL);
                std::vector<T> c = m.v; int extra = g.i(1, 5); for (int k = 0; k < extra; k++) c.push_back(T(k));
                int form = g.i(0, 2);
                NOTE(g, name << str(m.d) << "+" << extra << " form " << form << "; ");
                g.label("too many values");
                mustThrow([&] {
                    if (form == 0) { Tensor<T> t(Shape(m.d), (const std::vector<T>&)c); }
                    else if (form == 1) { std::vector<T> cc = c; Tensor<T> t(Shape(m.d), std::move(cc)); }
                    else { Tensor<T> t(Shape({2}), {T(1), T(2), T(3)}); }
                }, "construction from more values than the shape " + str(m.d) + " holds");
                break;
            }
            case 6: case 7: { name = "copy construct"; size_t i = idx(); NOTE(g, name << " " << i << "; "); Arr<T> m = pool[i].m; add(Tensor<T>(*pool[i].t), m); break; }
            case 8: { name = "move construct"; size_t i = idx(); NOTE(g, name << " from " << i << "; "); Arr<T> m = pool[i].m; Tensor<T> t(std::move(*pool[i].t)); pool[i].m = one(); moved = true; add(std::move(t), m); break; }
            case 9: case 10: { name = "copy assign"; size_t i = idx(), j = idx(); NOTE(g, name << " " << i << " = " << j << "; "); if (i == j) selfop = true; *pool[i].t = *pool[j].t; Arr<T> m = pool[j].m; pool[i].m = m; break; }
            case 11: case 12: {
                name = "move assign"; size_t i = idx(), j = idx();
                if (i == j) { NOTE(g, "self-move " << i << "; "); Tensor<T>& self = *pool[i].t; *pool[i].t = std::move(self); selfop = true; g.label("self-move"); break; }
                NOTE(g, name << " " << i << " = move " << j << "; ");
                *pool[i].t = std::move(*pool[j].t); pool[i].m = pool[j].m; pool[j].m = one(); moved = true;
                break;
            }
            case 13: case 14: { name = "write element"; size_t i = idx(); size_t k = g.draw(pool[i].m.n()); T v = mkVal<T>(g.draw(4097), V_NORMAL); NOTE(g, name << " " << i << "[" << k << "]; ");
                int how = g.i(0, 2); if (how == 0) (*pool[i].t)[k] = v; else if (how == 1) pool[i].t->at(unflat(pool[i].m.d, k)) = v; else pool[i].t->getData()[k] = v;
                pool[i].m.v[k] = v; mutated++; break; }
            case 15: { name = "scalar in place"; size_t i = idx(); T v = T(g.i(1, 4)); int o = g.i(0, 3); NOTE(g, name << " " << i << " op" << o << " " << v << "; ");
                if (o == 0) *pool[i].t += v; else if (o == 1) *pool[i].t -= v; else if (o == 2) *pool[i].t *= v; else *pool[i].t /= v;
                for (T& x : pool[i].m.v) x = o == 0 ? x + v : o == 1 ? x - v : o == 2 ? x * v : x / v; mutated++; break; }
            case 16: case 17: { name = "tensor in place (same shape)"; size_t i = idx(), j = idx(); int o = g.i(0, 2);
                if (pool[i].m.d != pool[j].m.d) j = i;
                if (i == j) selfop = true;
                NOTE(g, name << " " << i << " op" << o << "= " << j << "; ");
                if (o == 0) *pool[i].t += *pool[j].t; else if (o == 1) *pool[i].t -= *pool[j].t; else *pool[i].t *= *pool[j].t;
                { std::vector<T> b = pool[j].m.v; for (size_t k = 0; k < b.size(); k++) { T& x = pool[i].m.v[k]; x = o == 0 ? x + b[k] : o == 1 ? x - b[k] : x * b[k]; } }
                for (T& x : pool[i].m.v) if (std::fabs((double)x) > 1e6) { *pool[i].t *= T(0); for (T& y : pool[i].m.v) y = y * T(0); break; }
                mutated++; break; }
            case 18: { name = "apply"; size_t i = idx(); T c = T(g.i(1, 3)); NOTE(g, name << " " << i << "; "); Tensor<T>& r = pool[i].t->apply([c](T x) { return x + c; }); PCHECK(&r == pool[i].t.get(), "apply returns another tensor"); for (T& x : pool[i].m.v) x = x + c; mutated++; break; }
            case 19: case 20: { name = "reshape"; size_t i = idx(); Arr<T>& m = pool[i].m; Dims d = m.d;
                int how = g.i(0, 3); if (how == 0) d = {(int)m.n()}; else if (how == 1) std::reverse(d.begin(), d.end()); else if (how == 2) d.insert(d.begin() + g.draw(d.size() + 1), 1); else d[g.draw(d.size())] += 1;
                NOTE(g, name << " " << i << " " << str(m.d) << "->" << str(d) << "; ");
                bool viaShape = g.flip(40);
                auto f = [&] { if (viaShape) pool[i].t->reshape(Shape(d)); else pool[i].t->reshape(d); };
                if (numel(d) == m.n()) { f(); m.d = d; mutated++; } else mustThrow(f, "reshape of " + str(m.d) + " to " + str(d));
                break; }
            case 21: { name = "fill"; size_t i = idx(); NOTE(g, name << " " << i << "; "); pool[i].t->getData().fill(T(3)); for (T& x : pool[i].m.v) x = T(3); mutated++; break; }
            case 22: { name = "out-of-place result"; size_t i = idx(), j = idx(); if (pool[i].m.d != pool[j].m.d) j = i; NOTE(g, name << " " << i << "+" << j << "; "); Arr<T> m = pool[i].m; for (size_t k = 0; k < m.n(); k++) m.v[k] = pool[i].m.v[k] + pool[j].m.v[k]; Tensor<T> r = *pool[i].t + *pool[j].t; add(std::move(r), m); break; }
            case 23: { name = "equality"; for (auto& a : pool) for (auto& b : pool) { bool eq = a.m.d == b.m.d; if (eq) for (size_t k = 0; k < a.m.n(); k++) eq = eq && a.m.v[k] == b.m.v[k];
                    PCHECK((*a.t == *b.t) == eq && (*a.t != *b.t) == !eq, "equality of " << str(a.m) << " and " << str(b.m) << " is not " << eq); }
                break; }
            case 24: { // near-equal: one element differs, at a drawn position
                name = "equality near miss"; size_t i = idx(); Tensor<T> c(*pool[i].t); size_t k = g.draw(pool[i].m.n()); c[k] = pool[i].m.v[k] + T(1);
                PCHECK(!(c == *pool[i].t) && c != *pool[i].t, "tensors differing at element " << k << " of " << str(pool[i].m.d) << " compare equal");
                Tensor<T> r(*pool[i].t); Dims d = pool[i].m.d; d.insert(d.begin(), 1); r.reshape(d); PCHECK(!(r == *pool[i].t), "tensors of different shape compare equal");
                break; }
            case 25: { name = "read"; size_t i = idx(); const Tensor<T>& t = *pool[i].t; (void)t.toDataString(); (void)t.toDetailedString(); (void)t.getShape().toString(); break; }
            case 26: { name = "TensorData copy"; size_t i = idx(); Arr<T> m = pool[i].m; TensorData<T, CPUDevice> d(pool[i].t->getData()); TensorData<T, CPUDevice> e(Shape({1})); e = d; d.fill(T(9)); NOTE(g, name << " " << i << "; "); add(Tensor<T>(e), m); break; }
            case 27: { name = "vector growth"; // relocation moves tensors
                NOTE(g, name << "; "); std::vector<Tensor<T>> v; std::vector<Arr<T>> ms; for (auto& p : pool) { v.push_back(*p.t); ms.push_back(p.m); } v.erase(v.begin() + g.draw(v.size()) ); (void)ms; break; }
            case 28: { name = "swap"; size_t i = idx(), j = idx(); if (i == j) break; NOTE(g, name << " " << i << " " << j << "; "); std::swap(*pool[i].t, *pool[j].t); std::swap(pool[i].m, pool[j].m); moved = true; break; }
            case 29: { name = "erase from vector"; // shifting by move assignment
                std::vector<Tensor<T>> v; std::vector<Arr<T>> ms; for (auto& p : pool) { v.push_back(*p.t); ms.push_back(p.m); }
                size_t k = g.draw(v.size()); NOTE(g, name << " " << k << "; "); v.erase(v.begin() + k); ms.erase(ms.begin() + k);
                for (size_t q = 0; q < v.size(); q++) checkSame(snap(v[q]), ms[q], "tensor in a vector after an erase");
                moved = true; break; }
            default: { name = "destroy"; NOTE(g, name << "; "); pool.erase(pool.begin() + idx()); break; }
        }
        checkAll(name);
    }
    if (moved) g.label("move in history");
    if (selfop) g.label("self operation");
    if (mutated >= 2 && steps >= 4) g.nontrivial();
}
TWO_TYPES(body)
