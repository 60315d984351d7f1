// C04: element addressing, reshape, transpose, slice
#include "common.hpp"

template <class T> static void body(Gen& g) {
    Dims d = genDimsBig(g, 1, 6, 300, 4, 4200, 70001);
    size_t n = numel(d), r = d.size();
    Arr<T> a = iota<T>(d); sprinkle(g, a); Tensor<T> t = mk(a); const Tensor<T>& ct = t;
    NOTE(g, str(d) << " ");
    bool nt = false;
    switch (g.i(0, 5)) {
        case 0: { // at, every valid index (sampled when large)
            g.label("at");
            size_t step = n > 400 ? n / 200 : 1;
            for (size_t i = 0; i < n; i += step) {
                Dims ix = unflat(d, i);
                PCHECK(ct.at(ix) == a.v[i] && t.at(ix) == a.v[i], "at" << str(ix) << " of " << str(d) << " reads " << ct.at(ix) << ", expected element " << a.v[i]);
                PCHECK(ct[i] == a.v[i] && &t.at(ix) == &t[i], "at" << str(ix) << " does not address flat element " << i);
                PCHECK(computeFlatIndex(t.getShape(), ix) == i, "flat index of " << str(ix) << " is not " << i);
            }
            size_t k = g.draw(n); t.at(unflat(d, k)) = T(-5); a.v[k] = T(-5);
            checkBits(t, a, "tensor after writing one element through at");
            nt = n > 1; break;
        }
        case 1: { // invalid indices
            g.label("invalid at");
            Dims ix = unflat(d, g.draw(n));
            int how = g.i(0, 3);
            if (how == 0) { size_t k = g.draw(r); ix[k] = d[k] + (int)g.draw(3); }
            else if (how == 1) { size_t k = g.draw(r); ix[k] = -1 - (int)g.draw(3); }
            else if (how == 2) { ix.push_back(0); if (g.flip(30)) ix.push_back(0); }
            else ix.erase(ix.begin() + g.draw(ix.size()));
            NOTE(g, "at" << str(ix));
            mustThrow([&] { T x = ct.at(ix); (void)x; }, "const at" + str(ix) + " of " + str(d));
            mustThrow([&] { T x = t.at(ix); (void)x; }, "at" + str(ix) + " of " + str(d));
            mustThrow([&] { computeFlatIndex(t.getShape(), ix); }, "flat index " + str(ix) + " of " + str(d));
            checkBits(t, a, "tensor after rejected access");
            nt = true; break;
        }
        case 2: { // reshape
            g.label("reshape");
            Dims nd;
            size_t left = n; while (left > 1 && nd.size() < 5) { std::vector<int> f; for (size_t k = 1; k <= left; k++) if (left % k == 0) f.push_back((int)k); int x = f[g.draw(f.size())]; nd.push_back(x); left /= (size_t)x; }
            if (left > 1 || nd.empty()) nd.push_back((int)left);
            if (g.flip(20)) nd.insert(nd.begin() + g.draw(nd.size() + 1), 1);
            bool bad = g.flip(25); if (bad) nd[g.draw(nd.size())] += 1;
            NOTE(g, "reshape to " << str(nd));
            Arr<T> want{nd, a.v};
            if (bad) {
                mustThrow([&] { AdvancedTensorOperations<T>::reshape(ct, Shape(nd)); }, "reshape of " + str(d) + " to " + str(nd));
                mustThrow([&] { t.reshape(nd); }, "in-place reshape of " + str(d) + " to " + str(nd));
                checkBits(t, a, "tensor after rejected reshape");
            } else {
                Tensor<T> o = AdvancedTensorOperations<T>::reshape(ct, Shape(nd));
                checkBits(o, want, "reshaped copy"); checkBits(t, a, "reshape argument");
                int how = g.i(0, 1); if (how == 0) t.reshape(nd); else t.reshape(Shape(nd));
                checkBits(t, want, "tensor reshaped in place");
                for (size_t i = 0; i < n; i += 1 + n / 50) PCHECK(t.at(unflat(nd, i)) == a.v[i], "element " << str(unflat(nd, i)) << " after reshape is not flat element " << i);
            }
            nt = nd != d; break;
        }
        case 3: case 4: { // transpose
            g.label("transpose");
            size_t x = g.draw(r), y = g.draw(r);
            NOTE(g, "transpose " << x << "," << y);
            Dims nd = d; std::swap(nd[x], nd[y]);
            Arr<T> want{nd, std::vector<T>(n)};
            for (size_t i = 0; i < n; i++) { Dims ix = unflat(d, i); std::swap(ix[x], ix[y]); want.at(ix) = a.v[i]; }
            Tensor<T> o = AdvancedTensorOperations<T>::transpose(ct, x, y);
            checkBits(o, want, "transposed tensor"); checkBits(t, a, "transpose argument");
            checkBits(AdvancedTensorOperations<T>::transpose(o, x, y), a, "double transpose");
            checkBits(AdvancedTensorOperations<T>::transpose(ct, y, x), want, "transpose with dimensions exchanged");
            size_t bad = r + g.draw(3); if (g.flip(20)) bad = (size_t)-1 - g.draw(2);
            mustThrow([&] { AdvancedTensorOperations<T>::transpose(ct, bad, y); }, "transpose of dimension " + std::to_string(bad) + " of " + str(d));
            mustThrow([&] { AdvancedTensorOperations<T>::transpose(ct, x, bad); }, "transpose of dimension " + std::to_string(bad) + " of " + str(d));
            nt = x != y && d[x] > 1; break;
        }
        default: { // slice
            g.label("slice");
            size_t x = g.draw(r); int i = (int)g.draw((uint64_t)d[x]);
            NOTE(g, "slice dim " << x << " at " << i);
            Dims nd = d; nd.erase(nd.begin() + x); if (nd.empty()) nd = {1};
            Arr<T> want{nd, {}};
            for (size_t k = 0; k < n; k++) if (unflat(d, k)[x] == i) want.v.push_back(a.v[k]);
            Tensor<T> o = ct.slice((int)x, i);
            checkBits(o, want, "slice"); checkBits(t, a, "sliced tensor");
            o[0] = T(-1); checkBits(t, a, "sliced tensor after writing to the slice");
            int badDim = g.flip(50) ? (int)r + (int)g.draw(3) : -1 - (int)g.draw(2);
            int badIx = g.flip(50) ? d[x] + (int)g.draw(3) : -1 - (int)g.draw(2);
            mustThrow([&] { ct.slice(badDim, 0); }, "slice of dimension " + std::to_string(badDim) + " of " + str(d));
            mustThrow([&] { ct.slice((int)x, badIx); }, "slice at " + std::to_string(badIx) + " of dimension " + std::to_string(x) + " of " + str(d));
            nt = d[x] > 1; break;
        }
    }
    if (nt) g.nontrivial();
}
TWO_TYPES(body)
