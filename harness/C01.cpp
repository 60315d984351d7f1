// C01: every shape is a valid, self-consistent row-major layout (stateful: pool of shapes against a model of dimension lists)
#include "common.hpp"

static bool validDims(const Dims& d) {
    if (d.empty()) return false;
    unsigned __int128 n = 1;
    for (int x : d) { if (x <= 0) return false; n *= (unsigned)x; if (n > (unsigned __int128)std::numeric_limits<size_t>::max()) return false; }
    return true;
}
// entry n-1: dimensions whose product is n + k*2^64, so that a wrapped product would be n
static const Dims wrapTo[] = {{998724481,1119412321,33},{1997448962,1119412321,33},{1056175639,998034439,35},{2147418113,1718039348,5},{823996703,1066043567,21},{2112351278,998034439,35},{81460271,1160294483,1171},{2147418113,1718039348,10},{405869537,910939,99787},{1647993406,1066043567,21},{1306668931,1979072203,107},{2147418113,1288529511,20},{1413269945,75230703,347},{2047860434,1589614079,17},{823996703,1066043567,63},{2147418113,1718039348,20},{1397808257,192655561,137},{811739074,910939,99787},{1833495009,1702626227,65},{1197225396,10827767,1423},{1174891961,19950191,787},{521090446,753197299,47},{1610256547,2082869015,11},{2147418113,1288529511,40},{823996703,1066043567,105},{159011706,203881753,569},{936700573,865640437,91},{999063388,1678548883,11},{1604214285,1277658633,9},{927430618,5607601,3547},{1233973929,1410288203,53},{1824726041,1263665316,8},{1083420001,523889281,65},{1580102845,1167439457,10},{1771401129,1542762353,27},{1843087909,103181524,97},{151227931,1497832601,1303},{1783671063,1723668343,6},{1413269945,225692109,347},{1197225396,21655534,1423}};
// dimensions whose product is within one factor of the largest size_t (2^64-1 = 3*5*17*257*641*65537*6700417), or just beyond
static Dims limitDims(Gen& g) {
    Dims f{3, 5, 17, 257, 641, 65537, 6700417}; int m = g.i(2, 5);
    while ((int)f.size() > m) { size_t i = g.draw(f.size()), j = g.draw(f.size()); if (i != j && (unsigned long long)f[i] * f[j] < 2147483648ull) { f[i] *= f[j]; f.erase(f.begin() + j); } else if (m < 4) m++; }
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[g.draw(i)]);
    if (g.flip(50)) { int& x = f[g.draw(f.size())]; x = g.flip(50) ? x - 1 : x < 2147483647 ? x + 1 : x; }
    if (g.flip(20)) f.insert(f.begin() + g.draw(f.size() + 1), g.flip(70) ? 1 : 2);
    return f;
}
static Shape fromList(const Dims& d) {
    switch (d.size()) { case 0: return Shape(std::initializer_list<int>{}); case 1: return Shape{d[0]}; case 2: return Shape{d[0], d[1]}; case 3: return Shape{d[0], d[1], d[2]}; case 4: return Shape{d[0], d[1], d[2], d[3]}; case 5: return Shape{d[0], d[1], d[2], d[3], d[4]}; default: return Shape(d); }
}
static Dims anyDims(Gen& g) {
    if (g.flip(6)) { g.label("element count near the limit"); return limitDims(g); }
    if (g.flip(2)) { g.label("element count wraps"); Dims d = wrapTo[g.draw(40)]; if (g.flip(50)) d.insert(d.begin(), 1); return d; }
    Dims d; int r = g.i(0, 6);
    int style = g.pick({50, 20, 20, 10});
    for (int i = 0; i < r; i++) {
        if (style == 0) d.push_back(g.i(1, 6));
        else if (style == 1) { static const int v[] = {1, 2, 65535, 65536, 46341, 1 << 20, 2147483647, 1 << 30, 3}; d.push_back(v[g.draw(9)]); }
        else if (style == 2) { static const int v[] = {1, 2, 3, 0, -1, 7, -2147483647 - 1, -5}; d.push_back(v[g.draw(8)]); }
        else d.push_back(1 + (int)g.draw(2147483647));
    }
    return d;
}
// a different dimension list with the same element count
static Dims refactor(Gen& g, const Dims& d) {
    Dims o; size_t n = 1;
    for (int x : d) n *= (size_t)x;
    if (n > 1000000) { o = d; std::reverse(o.begin(), o.end()); if (g.flip(50)) o.insert(o.begin() + g.draw(o.size() + 1), 1); return o; }
    while (n > 1 && o.size() < 5) {
        std::vector<int> divs; for (size_t k = 1; k <= n; k++) if (n % k == 0) divs.push_back((int)k);
        int f = divs[g.draw(divs.size())]; o.push_back(f); n /= (size_t)f;
        if (g.flip(25)) break;
    }
    if (n > 1 || o.empty()) o.push_back((int)n);
    return o;
}
struct Live { Shape s; Dims d; };

static void checkAll(const std::vector<std::unique_ptr<Live>>& p) {
    for (size_t i = 0; i < p.size(); i++) {
        const Shape& s = p[i]->s; const Dims& d = p[i]->d;
        checkShape(s, d, "live shape");
        Dims it(s.begin(), s.end()); PCHECK(it == d, "iteration over shape gives " << str(it) << " for " << str(d));
        std::ostringstream o; o << s;
        std::string want = "("; for (size_t k = 0; k < d.size(); k++) want += (k ? ", " : "") + std::to_string(d[k]); want += ")";
        PCHECK(s.toString() == want && o.str() == want, "text of " << want << " is " << s.toString());
        for (size_t j = 0; j < p.size(); j++) {
            bool eq = p[j]->d == d;
            PCHECK((s == p[j]->s) == eq && (s != p[j]->s) == !eq, "equality of " << str(d) << " and " << str(p[j]->d) << " is not " << eq);
        }
    }
}

static void property(Gen& g) {
    std::vector<std::unique_ptr<Live>> pool;
    int steps = g.i(1, 12); int rejected = 0, reshaped = 0;
    auto other = [&]() -> Live& { return *pool[g.draw(pool.size())]; };
    for (int st = 0; st < steps; st++) {
        int op = pool.empty() ? 0 : g.i(0, 9);
        switch (op) {
            case 0: case 1: {
                Dims d = anyDims(g);
                NOTE(g, "construct " << str(d) << "; ");
                if (!validDims(d)) {
                    rejected++;
                    mustThrow([&] { Shape s(d); (void)s; }, "constructing Shape" + str(d));
                    mustThrow([&] { Shape s(fromList(d)); (void)s; }, "constructing Shape" + str(d) + " from a list");
                } else {
                    Shape s(d);
                    checkShape(s, d, "constructed shape");
                    if (g.flip(30)) { Shape t(fromList(d)); checkShape(t, d, "shape from list"); }
                    pool.push_back(std::make_unique<Live>(Live{s, d}));
                }
                break;
            }
            case 2: { Live& a = other(); NOTE(g, "copy " << str(a.d) << "; "); Shape c(a.s); Dims d = a.d; pool.push_back(std::make_unique<Live>(Live{c, d})); break; }
            case 3: { Live& a = other(); NOTE(g, "move-construct from " << str(a.d) << " then reassign; "); Shape c(std::move(a.s)); checkShape(c, a.d, "move-constructed shape"); a.s = c; break; }
            case 4: { Live& a = other(); Live& b = other(); NOTE(g, "assign " << str(a.d) << " = " << str(b.d) << "; "); a.s = b.s; a.d = Dims(b.d); break; }
            case 5: {
                Live& a = other(); Live& b = other();
                NOTE(g, "move-assign " << str(a.d) << " = move(" << str(b.d) << ") then reassign; ");
                Dims bd = b.d;
                a.s = std::move(b.s); a.d = bd;
                if (&a != &b) { checkShape(a.s, bd, "move-assigned shape"); b.s = a.s; }
                break;
            }
            case 6: case 7: {
                Live& a = other();
                Dims d;
                if (numel(a.d) <= 40 && g.flip(25)) { d = wrapTo[numel(a.d) - 1]; if (g.flip(50)) d.insert(d.begin() + g.draw(d.size() + 1), 1); g.label("reshape whose count wraps to the right one"); }
                else switch (g.pick({50, 25, 25})) { case 0: d = refactor(g, a.d); break; case 1: d = anyDims(g); break; default: d = a.d; { int& x = d[g.draw(d.size())]; x = x == 2147483647 ? 1 : x + 1; } }
                NOTE(g, "reshape " << str(a.d) << " -> " << str(d) << "; ");
                bool ok = validDims(d) && numel(d) == numel(a.d);
                bool viaShape = validDims(d) && g.flip(40);
                auto doIt = [&] { if (viaShape) { Shape o(d); a.s.reshape(o); checkShape(o, d, "reshape argument"); } else a.s.reshape(d); };
                if (ok) { doIt(); a.d = d; reshaped++; }
                else { rejected++; mustThrow(doIt, "reshape of " + str(a.d) + " to " + str(d)); checkShape(a.s, a.d, "shape after rejected reshape"); }
                break;
            }
            case 8: {
                Live& a = other(); Live& b = other();
                Dims d = a.d; d.insert(d.end(), b.d.begin(), b.d.end());
                NOTE(g, "concat " << str(a.d) << str(b.d) << "; ");
                if (!validDims(d)) { rejected++; mustThrow([&] { ShapeOperations::concat(a.s, b.s); }, "concat " + str(d)); }
                else { Shape c = ShapeOperations::concat(a.s, b.s); checkShape(c, d, "concatenated shape"); pool.push_back(std::make_unique<Live>(Live{c, d})); }
                break;
            }
            default: { // reading through const does not change anything
                const Live& a = other(); (void)a.s.toString(); (void)a.s.size();
                if (pool.size() > 2) { NOTE(g, "destroy; "); pool.erase(pool.begin() + g.draw(pool.size())); }
                break;
            }
        }
        checkAll(pool);
    }
    if (rejected) g.label("rejected operation");
    if (reshaped) g.label("successful reshape");
    if (steps >= 3 && pool.size() >= 2) g.nontrivial();
}
PBT_MAIN(property)
