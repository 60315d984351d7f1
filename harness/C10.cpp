// C10: text output and logging
#include "common.hpp"
#include "smart_dnn/Debugging/Logger.hpp"
#include "capture.hpp"

// numbers in s, separated by anything that cannot be part of a number
static std::vector<double> numbers(const std::string& s) {
    std::vector<double> r; const char* p = s.c_str();
    while (*p) { char* e; double x = std::strtod(p, &e); if (e == p) { p++; continue; } r.push_back(x); p = e; }
    return r;
}
template <class T> static void match(const std::string& text, const std::vector<T>& v, size_t n, const char* what) {
    std::vector<double> x = numbers(text);
    PCHECK(x.size() == n, what << " shows " << x.size() << " elements, expected " << n << ": " << text);
    for (size_t i = 0; i < n; i++) {
        double w = (double)v[i];
        PCHECK((std::isnan(w) && std::isnan(x[i])) || x[i] == w || std::fabs(x[i] - w) <= 6e-6 * std::fabs(w), what << " shows element " << i << " as " << x[i] << ", it is " << std::setprecision(9) << w);
    }
}
template <class T> static void body(Gen& g) {
    if (g.flip(30)) {
        g.label("logging");
        int lv = g.i(0, 2); Logger::Level L = lv == 0 ? Logger::Level::INFO : lv == 1 ? Logger::Level::WARNING : Logger::Level::ERROR;
        static const char* names[] = {"INFO", "WARNING", "ERROR"};
        std::string msg; int how = g.i(0, 4), n = g.flip(4) ? g.i(31, 6000) : g.i(0, 30); for (int i = 0; i < n; i++) msg += (char)g.i(32, 126);
        if (how < 2 && n && g.flip(15)) { static const char odd[] = {0, 1, 9, 13, 27, 127, (char)200, (char)255}; for (int k = g.i(1, 3); k > 0; k--) msg[g.draw(n)] = odd[g.draw(8)]; g.label("control bytes in the message"); }
        int num = g.i(-1000, 1000); Shape sh(genDims(g, 1, 4, 100)); int calls = g.i(1, 3);
        NOTE(g, names[lv] << " '" << msg << "' form " << how << " x" << calls);
        std::string text; std::string want = msg;
        { Capture c;
          for (int k = 0; k < calls; k++) switch (how) {
              case 0: Logger::log(L, msg); break;
              case 1: if (lv == 0) LOG_INFO(msg); else if (lv == 1) LOG_WARNING(msg); else LOG_ERROR(msg); break;
              case 2: Logger::log(L, num); want = std::to_string(num); break;
              case 3: Logger::log(L, msg.c_str()); break;
              default: Logger::log(L, sh); want = sh.toString(); break;
          }
          text = c.finish(); }
#ifdef ENABLE_LOGGING
        PCHECK((int)std::count(text.begin(), text.end(), '\n') == calls && !text.empty() && text.back() == '\n', calls << " log call(s) wrote: '" << text << "'");
        std::istringstream in(text); std::string line;
        while (std::getline(in, line)) {
            PCHECK(line.find(want) != std::string::npos, "logged line '" << line << "' does not contain the message '" << want << "'");
            std::string rest = line; size_t p = rest.rfind(want); if (!want.empty()) rest.erase(p, want.size());
            for (int k = 0; k < 3; k++) PCHECK((rest.find(names[k]) != std::string::npos) == (k == lv), "logged line '" << line << "' at level " << names[lv] << (k == lv ? " does not name it" : " names another level"));
        }
#else
        PCHECK(text.empty(), "with logging compiled out a log call wrote '" << text << "'");
#endif
        g.nontrivial(); return;
    }
    Dims d = genDimsBig(g, 1, 6, 60, 4, 3000, 20000); if (g.flip(25)) d = {g.i(8, 13)};
    if (g.flip(10)) d = {1, g.i(9, 12), 1};
    VKind k = genKind(g); Arr<T> a = genArr<T>(g, d, k);
    if (g.flip(10)) a.v[g.draw(a.n())] = g.flip(50) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
    if (g.flip(5)) a.v[g.draw(a.n())] = std::numeric_limits<T>::quiet_NaN();
    if (g.flip(10)) a.v[g.draw(a.n())] = std::numeric_limits<T>::max();
    Tensor<T> t = mk(a); const Tensor<T>& ct = t; size_t n = a.n();
    NOTE(g, str(a));
    Capture quiet;
    std::string s = ct.toDataString(), s2 = ct.getData().toDataString();
    PCHECK(!s.empty() && s.front() == '[' && s.back() == ']' && std::count(s.begin(), s.end(), '[') == 1 && std::count(s.begin(), s.end(), ']') == 1, "data text is not one bracketed list: " << s.substr(0, 200));
    match(s, a.v, n, "data text"); PCHECK(s == s2, "tensor and tensor data render differently");
    PCHECK((size_t)std::count(s.begin(), s.end(), ',') == n - 1, "data text of " << n << " elements has " << std::count(s.begin(), s.end(), ',') << " separators");
    // shape text
    std::string sh = ct.getShape().toString(); std::ostringstream os; os << ct.getShape();
    std::vector<double> sd = numbers(sh); PCHECK(sd.size() == d.size() && std::equal(d.begin(), d.end(), sd.begin()), "shape text of " << str(d) << " is " << sh);
    PCHECK(os.str() == sh, "streamed shape '" << os.str() << "' differs from '" << sh << "'");
    // detailed text
    for (int which = 0; which < 2; which++) {
        std::string det = which ? ct.getData().toString() : ct.toDetailedString();
        PCHECK(det.find(sh) != std::string::npos, "detailed text does not show the shape " << sh << ": " << det);
        size_t b = det.rfind('['), e = det.rfind(']'); PCHECK(b != std::string::npos && e != std::string::npos && b < e, "detailed text shows no bracketed list: " << det);
        std::string in = det.substr(b + 1, e - b - 1); bool dots = det.find("...") != std::string::npos;
        PCHECK(dots == (n > 10), "detailed text of " << n << " elements " << (dots ? "marks" : "does not mark") << " truncation: " << det);
        size_t dp = in.find("..."); if (dp != std::string::npos) in = in.substr(0, dp);
        match(in, a.v, std::min<size_t>(n, 10), "detailed text");
    }
    if (g.flip(30)) { // views name the shapes they connect
        Dims bd = d; bd.insert(bd.begin(), 2); BroadcastView<T, CPUDevice> v(ct.getData(), Shape(bd));
        PCHECK(v.toString().find(Shape(bd).toString()) != std::string::npos, "broadcast view text does not show its shape: " << v.toString());
    }
    checkBits(t, a, "rendered tensor");
    quiet.finish(); PCHECK(quiet.text.empty(), "rendering wrote to standard output: " << quiet.text);
    PCHECK(ct.toDataString() == s, "rendering twice gives different text");
    if (n > 10) g.label("truncated"); if (n > 1) g.nontrivial();
}
TWO_TYPES(body)
