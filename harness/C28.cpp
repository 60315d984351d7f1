// C28: sample datasets
#include "common.hpp"
#include "rdev.hpp"
#include <climits>
#include "smart_dnn/Datasets/SampleGenerator.hpp"

static void near9(ld got, ld want, ld sd, const std::string& what) { PCHECK(fabsl(got - want) <= 9 * sd, what << " is " << (double)got << ", expected " << (double)want << " within nine standard errors of " << (double)sd); }
struct Set { std::vector<float> x, y; };
static Set collect(const std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>>& r, int n, int b, bool batched) {
    size_t want = batched ? ((size_t)n + (size_t)b - 1) / (size_t)b : (size_t)n; Set s;
    PCHECK(r.first.size() == want && r.second.size() == want, n << " samples" << (batched ? " in batches of " + std::to_string(b) : "") << " came as " << r.first.size() << " inputs and " << r.second.size() << " targets, expected " << want);
    for (size_t k = 0; k < want; k++) {
        Dims d = batched ? Dims{std::min<int>(b, n - (int)((long)k * b)), 1} : Dims{1}; Arr<float> x = snap(r.first[k]), y = snap(r.second[k]);
        PCHECK(x.d == d && y.d == d, "entry " << k << " of " << want << " has input shape " << str(x.d) << " and target shape " << str(y.d) << ", expected " << str(d));
        s.x.insert(s.x.end(), x.v.begin(), x.v.end()); s.y.insert(s.y.end(), y.v.begin(), y.v.end());
    }
    PCHECK(s.x.size() == (size_t)n, "harness error"); return s;
}
static void property(Gen& g) {
    bool batched = g.flip(55), stat = g.flip(12); int n = stat ? g.i(3000, 9000) : g.pick({5, 60, 25, 10}); if (!stat) n = n == 0 ? 0 : n == 1 ? g.i(1, 12) : n == 2 ? g.i(13, 130) : g.i(131, 700);
    int b = g.flip(20) ? n + g.i(-1, 3) : g.flip(20) ? g.i(1, 2000) : g.i(1, 20); if (b < 1) b = 1; if (g.flip(4)) { static const int bigB[] = {2147483647, 2147483646, 1 << 30, 65536, 1000000}; b = bigB[g.draw(5)]; }
    static const float ns[] = {0.f, 1.f, 0.1f, 5.f, 100.f, 0.01f, 0.5f, 20.f, 1e-3f}; float noise = ns[g.draw(9)]; bool dflt = noise == 1.f && g.flip(50);
    rdevState() = g.seed32() * 7919 + 1; RandomEngine::setSeed(g.seed32());
    NOTE(g, n << " samples" << (batched ? " in batches of " + std::to_string(b) : "") << " noise " << noise);
    auto gen = [&] { return batched ? dflt ? generateBatchedLinearDataset(n, b) : generateBatchedLinearDataset(n, b, noise) : dflt ? generateLinearDataset(n) : generateLinearDataset(n, noise); };
    if (g.flip(4)) { int bad = -(int)g.i(0, 9); if (g.flip(20)) bad = INT_MIN; mustThrow([&] { generateBatchedLinearDataset(std::max(n, 1), bad, noise); }, "batch size " + std::to_string(bad)); }
    Set s = collect(gen(), n, b, batched), s2 = collect(gen(), n, b, batched);
    for (Set* q : {&s, &s2}) for (int i = 0; i < n; i++) {
        float x = q->x[i], y = q->y[i]; PCHECK(x >= 0.f && x <= 100.f, "input " << i << " is " << x); ld r = (ld)y - (2 * (ld)x + 3), round = 4 * epsOf<float>() * (fabsl((ld)y) + 2 * x + 3);
        // nine standard deviations: once in 10^19 samples
        PCHECK(fabsl(r) <= round + 9 * (ld)noise, "target of input " << x << " is " << y << ", off 2x+3 by " << (double)r << " with noise " << noise);
    }
    if (n >= 12) {
        auto distinct = [](const std::vector<float>& v) { return std::set<float>(v.begin(), v.end()).size(); };
        PCHECK(distinct(s.x) >= (size_t)n - 2 - n / 100, "only " << distinct(s.x) << " distinct inputs among " << n);
        std::set<float> a(s.x.begin(), s.x.end()); size_t rep = 0; for (float x : s2.x) rep += a.count(x); PCHECK(rep <= 4 + (size_t)n / 50, rep << " of " << n << " inputs of a second dataset repeat the first's");
        if (noise >= 0.1f) { std::vector<float> r; for (int i = 0; i < n; i++) r.push_back(s.y[i] - 2 * s.x[i] - 3); PCHECK(distinct(r) >= (size_t)n / 2, "only " << distinct(r) << " distinct noise values among " << n); }
    }
    if (stat) {
        g.label("statistics"); ld N = n, mx = 0, mr = 0; for (int i = 0; i < n; i++) mx += s.x[i]; mx /= N; near9(mx, 50, 28.87L / sqrtl(N), "mean input");
        std::vector<int> bin(20, 0); for (float x : s.x) bin[std::min(19, (int)(x / 5))]++; for (int k = 0; k < 20; k++) near9(bin[k], N / 20, sqrtl(N * 0.05L * 0.95L), "number of inputs in [" + std::to_string(5 * k) + "," + std::to_string(5 * k + 5) + ")");
        // the ends of the range are reached: a gap of 40/N at either end has probability e^-40
        PCHECK(*std::min_element(s.x.begin(), s.x.end()) <= 4000.f / n, "no input below " << *std::min_element(s.x.begin(), s.x.end()) << " among " << n); PCHECK(*std::max_element(s.x.begin(), s.x.end()) >= 100 - 4000.f / n, "no input above " << *std::max_element(s.x.begin(), s.x.end()) << " among " << n);
        ld ax = 0; for (int i = 1; i < n; i++) ax += (s.x[i] - 50) * (s.x[i - 1] - 50) / 833.3L; near9(ax / (N - 1), 0, 1 / sqrtl(N - 1), "correlation of consecutive inputs");
        if (noise >= 0.01f) {
            std::vector<ld> r; for (int i = 0; i < n; i++) r.push_back(((ld)s.y[i] - 2 * (ld)s.x[i] - 3) / noise); ld q = 0, c = 0, a = 0, fl = 1e-5L / noise; for (ld v : r) { mr += v; q += v * v; } mr /= N; q = q / N - mr * mr;
            near9(mr, 0, 1 / sqrtl(N) + fl / 9, "mean noise, in standard deviations"); near9(q, 1, sqrtl(2 / N) + fl, "noise variance, relative to the requested one");
            for (int i = 0; i < n; i++) c += r[i] * (s.x[i] - 50) / 28.87L; near9(c / N, 0, 1 / sqrtl(N) + fl, "correlation of noise and input"); for (int i = 1; i < n; i++) a += r[i] * r[i - 1]; near9(a / (N - 1), 0, 1 / sqrtl(N - 1) + fl, "correlation of consecutive noise values");
            int in1 = 0; for (ld v : r) in1 += fabsl(v) < 1; near9(in1 / N, 0.6827L, 0.4655L / sqrtl(N) + fl, "fraction of noise within one standard deviation");
        }
    }
    if (noise == 0.f) g.label("no noise"); if (batched && n % b) g.label("smaller last batch");
    if (n > 1) g.nontrivial();
}
PBT_MAIN(property)
