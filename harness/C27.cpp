// C27: MNIST loader on generated, truncated, corrupted and random files (held in memory, reached through /proc/self/fd)
#include "common.hpp"
#include "memfile.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"

static uint32_t rd(const std::string& s, size_t at) { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (unsigned char)s[at + i]; return v; }
enum { OK, BAD, EITHER };
// what the two files' bytes mean for a request of n samples (-1: all)
struct Want { int verdict = OK; size_t images = 0, labels = 0; int rows = 0, cols = 0; };
static Want judge(const std::string& im, const std::string& lb, int n) {
    Want w; auto bad = [&] { w.verdict = BAD; return w; };
    if (im.size() < 16 || lb.size() < 8) return bad();
    if (rd(im, 0) != 2051 || rd(lb, 0) != 2049) return bad();
    int ni = (int)rd(im, 4), r = (int)rd(im, 8), c = (int)rd(im, 12), nl = (int)rd(lb, 4);
    if (ni < 0 || nl < 0 || r <= 0 || c <= 0) return bad();
    if (n > ni || n > nl) return bad();
    w.images = n < 0 ? ni : n; w.labels = n < 0 ? nl : n; w.rows = r; w.cols = c;
    if ((im.size() - 16) / ((size_t)r * c) < w.images || lb.size() - 8 < w.labels) return bad();     // truncated within what is asked for
    for (size_t i = 0; i < w.labels; i++) if ((unsigned char)lb[8 + i] > 9) return bad();
    // shortened or extended files whose requested part is whole, and files that disagree on the count, may be accepted or rejected
    if (im.size() - 16 != (size_t)ni * r * c || lb.size() - 8 != (size_t)nl || (n < 0 && ni != nl)) w.verdict = EITHER;
    if (w.images == 0 || w.labels == 0) w.verdict = EITHER;
    for (size_t i = w.labels; i < (size_t)nl && 8 + i < lb.size(); i++) if ((unsigned char)lb[8 + i] > 9) w.verdict = EITHER;   // beyond what is asked for
    return w;
}
template <class T> static void checkResult(const std::pair<std::vector<Tensor<T>>, std::vector<Tensor<T>>>& out, const std::string& im, const std::string& lb, const Want& w, int bs) {
    auto batches = [&](size_t n) { return (n + bs - 1) / bs; };
    PCHECK(out.first.size() == batches(w.images), w.images << " images in batches of " << bs << " came as " << out.first.size() << " batches");
    PCHECK(out.second.size() == batches(w.labels), w.labels << " labels in batches of " << bs << " came as " << out.second.size() << " batches");
    size_t px = (size_t)w.rows * w.cols;
    for (size_t b = 0; b < out.first.size(); b++) {
        int k = (int)std::min<size_t>(bs, w.images - b * bs); Arr<T> a = snap(out.first[b]); PCHECK(a.d == (Dims{k, 1, w.rows, w.cols}), "image batch " << b << " has shape " << str(a.d) << ", expected " << str(Dims{k, 1, w.rows, w.cols}));
        for (size_t i = 0; i < a.n(); i++) { unsigned char byte = im[16 + (size_t)b * bs * px + i]; ld e = byte / 255.0L; PCHECK(fabsl((ld)a.v[i] - e) <= 2 * epsOf<T>() * e, "pixel " << i << " of image batch " << b << " is " << a.v[i] << ", its byte is " << (int)byte); }
    }
    for (size_t b = 0; b < out.second.size(); b++) {
        int k = (int)std::min<size_t>(bs, w.labels - b * bs); Arr<T> a = snap(out.second[b]); PCHECK(a.d == (Dims{k, 10}), "label batch " << b << " has shape " << str(a.d) << ", expected (" << k << ",10)");
        for (int i = 0; i < k; i++) for (int j = 0; j < 10; j++) { T e = (int)(unsigned char)lb[8 + b * bs + i] == j ? T(1) : T(0); PCHECK(a.v[(size_t)i * 10 + j] == e, "label " << b * bs + i << " (digit " << (int)lb[8 + b * bs + i] << ") has " << a.v[(size_t)i * 10 + j] << " at class " << j); }
    }
}
template <class T> static void ascii(Gen& g) {
    g.label("rendering"); MNISTLoader<T> L("none", "none"); int form = g.i(0, 2); Dims d = form == 0 ? Dims{28, 28} : form == 1 ? Dims{1, 28, 28} : Dims{g.i(1, 3), 1, 28, 28};
    Arr<T> a{d, std::vector<T>(numel(d))}; uint64_t st = g.seed32(); int cls = g.i(0, 3);
    for (size_t i = 0; i < a.n(); i++) { unsigned byte = cls == 0 ? pbt::splitmix(st) % 256 : cls == 1 ? (pbt::splitmix(st) % 2) * 255 : cls == 2 ? (i % 256) : (pbt::splitmix(st) % 16 ? 0 : 1 + pbt::splitmix(st) % 255); a.v[i] = byte / T(255); }
    NOTE(g, "rendering of an image of shape " << str(d) << " class " << cls);
    auto render = [&](const Arr<T>& x) {
        std::string s = L.toAsciiArt(mk(x)); std::vector<std::string> lines; std::istringstream is(s); std::string l; while (std::getline(is, l)) lines.push_back(l);
        PCHECK(lines.size() == 28, "rendering has " << lines.size() << " lines"); for (auto& q : lines) PCHECK(q.size() == 28, "rendering has a line of " << q.size() << " characters"); return lines;
    };
    auto out = render(a);
    // the meaning of each character, learnt from an image that shows every level (the first 256 pixels hold bytes 0..255)
    Arr<T> ramp{{28, 28}, std::vector<T>(784, T(0))}; for (int i = 0; i < 256; i++) ramp.v[i] = i / T(255); auto r = render(ramp); std::vector<char> lev(256); for (int i = 0; i < 256; i++) lev[i] = r[i / 28][i % 28];
    for (int i = 0; i < 256; i++) PCHECK(std::isprint((unsigned char)lev[i]), "brightness " << i << " renders as the unprintable character " << (int)(unsigned char)lev[i]);
    PCHECK(lev[0] != lev[255], "black and white render alike"); std::set<char> seen{lev[0]};
    for (int i = 1; i < 256; i++) if (lev[i] != lev[i - 1]) PCHECK(seen.insert(lev[i]).second, "brightness levels are not in order: character '" << lev[i] << "' comes back at byte " << i);
    for (int i = 256; i < 784; i++) PCHECK(r[i / 28][i % 28] == lev[0], "a black pixel renders as '" << r[i / 28][i % 28] << "'");
    PCHECK(seen.size() >= 4, "only " << seen.size() << " brightness levels");
    static const std::string ink = " .,:;-~=+*xo#%$@"; auto amount = [&](char c) { size_t p = ink.find(c); return p == std::string::npos ? -1 : (int)p; };
    if (amount(lev[0]) >= 0 && amount(lev[255]) >= 0) PCHECK(amount(lev[0]) < amount(lev[255]), "black renders as '" << lev[0] << "' and white as '" << lev[255] << "', brighter to darker");
    for (int i = 0; i < 28; i++) for (int j = 0; j < 28; j++) { int byte = (int)std::lround((double)a.v[(size_t)i * 28 + j] * 255); PCHECK(out[i][j] == lev[byte], "pixel (" << i << "," << j << ") of brightness " << byte << " renders as '" << out[i][j] << "', that brightness is '" << lev[byte] << "'"); }
    g.nontrivial();
}
template <class T> static void run(Gen& g) {
    int kind = g.pick({38, 44, 8, 10}); if (kind == 3) return ascii<T>(g);
    std::string im, lb; int n = g.flip(5) ? 0 : g.i(1, 12), rows = g.i(1, 6), cols = g.i(1, 6), bs = g.i(1, 14), req = -1; if (g.flip(10)) rows = cols = 28; if (g.flip(3)) { n = g.i(100, 300); bs = g.i(1, 310); if (g.flip(4)) { static const int big[] = {32767, 32768, 65535, 65536, 65537, 70000, 10000, 60000}; n = big[g.draw(8)]; rows = 1; cols = g.i(1, 2); bs = g.flip(50) ? g.i(100, 5000) : n - 1 + g.i(0, 2); g.label("many samples"); } } else if (g.flip(2)) { (g.flip(50) ? rows : cols) = g.i(100, 600); n = g.i(1, 4); g.label("large images"); }
    uint64_t st = g.seed32(); im = be(2051) + be(n) + be(rows) + be(cols); lb = be(2049) + be(n);
    for (size_t i = 0; i < (size_t)n * rows * cols; i++) im += (char)pbt::splitmix(st); for (int i = 0; i < n; i++) lb += (char)(pbt::splitmix(st) % 10);
    if (g.flip(50)) req = g.i(0, n);
    if (g.flip(3)) bs = g.flip(50) ? 2147483647 : 1 << 30;
    std::string ip, lp; const char* what = "well-formed files"; bool swapped = false, missingI = false, missingL = false;
    if (kind == 1) switch (g.i(0, 9)) {
        case 0: { what = "truncated images"; size_t one = (size_t)rows * cols; if (g.flip(40)) im.resize(im.size() - std::min<size_t>(im.size() - 1, 1 + g.draw(3))); else if (n > 1 && g.flip(40)) im.resize(im.size() - one * (1 + g.draw(n - 1))); else im.resize(g.draw(im.size())); break; }
        case 1: { what = "truncated labels"; if (g.flip(40)) lb.resize(lb.size() - 1); else lb.resize(g.draw(lb.size())); break; }
        case 2: { what = "wrong magic number"; std::string& f = g.flip(50) ? im : lb; int b = g.i(0, 31); f[b / 8] ^= (char)(1 << (b % 8)); break; }
        case 3: { what = "swapped files"; swapped = true; break; }
        case 4: { what = "label above nine"; if (!n) { n = 1; im = be(2051) + be(1) + be(rows) + be(cols) + std::string((size_t)rows * cols, 7); lb = be(2049) + be(1) + "x"; } lb[8 + g.draw(n)] = (char)g.i(10, 255); if (g.flip(70)) req = -1; break; }
        case 5: { what = "more samples requested than present"; req = n + g.i(1, 9); if (g.flip(20)) req = 2147483647; break; }
        case 6: { what = "missing file"; (g.flip(50) ? missingI : missingL) = true; break; }
        case 7: { what = "corrupt header field"; int f = g.i(1, 3); static const uint32_t hv[] = {0, 0x80000000u, 0xffffffffu, 0x7fffffffu, 65536, 46341, 256, 0xfffffff0u}; uint32_t v = g.flip(60) ? hv[g.draw(8)] : (uint32_t)g.i(0, 40); im.replace(f * 4, 4, be(v)); break; }
        case 8: { what = "corrupt label count"; uint32_t v = g.flip(40) ? 0xffffffffu : (uint32_t)g.i(0, 40); lb.replace(4, 4, be(v)); break; }
        default: { what = "other lengths"; if (g.flip(50)) im += std::string(g.i(1, 30), 'a'); else lb += std::string(g.i(1, 9), '\3'); break; }
    } else if (kind == 2) { // arbitrary bytes
        what = "random bytes"; std::string& f = g.flip(50) ? im : lb; int k = g.i(1, 6); for (int i = 0; i < k && !f.empty(); i++) f[g.draw(std::min<size_t>(f.size(), 40))] = (char)g.draw(256); if (g.flip(30)) f.resize(g.draw(f.size() + 1));
    }
    g.label(what); if (swapped) std::swap(im, lb);
    MemFile fi(im), fl(lb); ip = missingI ? (g.flip(50) ? "/nonexistent/images" : "") : fi.path(); lp = missingL ? "/nonexistent/labels" : fl.path();
    NOTE(g, what << ": " << n << " samples of " << rows << "x" << cols << ", image file of " << im.size() << " and label file of " << lb.size() << " bytes, batches of " << bs << ", requested " << req);
    Want w = judge(im, lb, req); if (missingI || missingL) w.verdict = BAD;
    if (w.verdict == OK && g.flip(2)) { int bad = -(int)g.i(0, 5); mustThrow([&] { MNISTLoader<T>(ip, lp, bad, req).loadData(); }, "batch size " + std::to_string(bad)); }
    MNISTLoader<T> L(ip, lp, bs, req); std::pair<std::vector<Tensor<T>>, std::vector<Tensor<T>>> out; std::string err;
    bool thrown = pbt::throws([&] { out = L.loadData(); }, &err);
    if (w.verdict == BAD) PCHECK(thrown, what << " (" << im.size() << " image bytes, " << lb.size() << " label bytes, batches of " << bs << ", requested " << req << ") were accepted, giving " << out.first.size() << " and " << out.second.size() << " batches");
    if (w.verdict == OK) PCHECK(!thrown, what << " were rejected: " << err);
    if (!thrown) {
        checkResult(out, im, lb, w, bs);
        if (g.flip(20)) checkResult(L.loadData(), im, lb, w, bs);      // loading again starts over
        if (req == -1 && bs == 1 && g.flip(30)) { MNISTLoader<T> D(ip, lp); checkResult(D.loadData(), im, lb, w, 1); }
    }
    if (w.verdict == BAD || n > 1) g.nontrivial();
}
TWO_TYPES(run)
