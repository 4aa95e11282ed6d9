// Driver for the plots. The plotting program is played by this process: popen() is replaced, so what is
// written to it can be read here. Runs in a scratch directory, without privileges.
#include <algorithm>
#include <cctype>
#include <fstream>
#include <grp.h>
#include <set>
#include <stdio_ext.h>
#include <sys/stat.h>
#include "vt.hpp"
#include "ds.hpp"
#include "../src/gnuplot_i.cpp"
#include <ufjfmltk/Visualize.hpp>

using namespace vt;
namespace F = std::filesystem;
using Vis = mltk::visualize::Visualization<double>;
using Strs = std::vector<std::string>;

// words of operations and replies: "~" is the empty string and "+" a space
static std::string dec(std::string w) {
    if (w == "~") return "";
    std::replace(w.begin(), w.end(), '+', ' ');
    return w;
}
static std::string enc(std::string w) {
    if (w.empty()) return "~";
    std::replace(w.begin(), w.end(), ' ', '+');
    return w;
}
static std::string trim(const std::string &s) {
    size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static Strs split(const std::string &s, const std::string &seps) {
    Strs out(1);
    char q = 0;
    int depth = 0;
    for (char c: s) {
        if (q) { if (c == q) q = 0; }
        else if (c == '\'' || c == '"') q = c;
        else if (c == '(' || c == '[') depth++;
        else if (c == ')' || c == ']') depth--;
        if (!q && depth <= 0 && seps.find(c) != std::string::npos) out.emplace_back();
        else out.back() += c;
    }
    return out;
}
static std::string bare(const std::string &s) {
    std::string t = trim(s);
    return t.size() > 1 && (t[0] == '\'' || t[0] == '"') && t.back() == t[0] ? t.substr(1, t.size() - 2) : t;
}
// values of arithmetic in x and y
struct Expr {
    const char *p;
    double x, y;
    bool bad = false;
    void ws() { while (*p == ' ') p++; }
    double atom() {
        ws();
        if (*p == '-') { p++; return -atom(); }
        if (*p == '+') { p++; return atom(); }
        if (*p == '(') { p++; double v = sum(); ws(); if (*p == ')') p++; else bad = true; return v; }
        if (*p == 'x') { p++; return x; }
        if (*p == 'y') { p++; return y; }
        char *e;
        double v = std::strtod(p, &e);
        if (e == p) { bad = true; return 0; }
        p = e;
        return v;
    }
    double product() {
        double v = atom();
        for (ws(); *p == '*' || *p == '/'; ws()) { char c = *p++; double w = atom(); v = c == '*' ? v * w : v / w; }
        return v;
    }
    double sum() {
        double v = product();
        for (ws(); *p == '+' || *p == '-'; ws()) { char c = *p++; double w = product(); v = c == '+' ? v + w : v - w; }
        return v;
    }
};
static double value(const std::string &e, double x, double y, bool &bad) {
    Expr ex{e.c_str(), x, y};
    double v = ex.sum();
    ex.ws();
    bad = bad || ex.bad || *ex.p;
    return v;
}
static std::string fixes(const std::vector<double> &v, double scale) { return arr(v, [scale](double d) { return std::to_string(fix(d, scale)); }); }

static std::string series(const std::string &text, bool splot) {
    std::string t = trim(text);
    bool file = !t.empty() && (t[0] == '\'' || t[0] == '"');
    std::string name;
    if (file) {
        size_t e = t.find(t[0], 1);
        if (e == std::string::npos) e = t.size();
        name = t.substr(1, e - 1);
        t = e < t.size() ? t.substr(e + 1) : "";
    } else {
        size_t e = t.find(' ');
        name = t.substr(0, e);
        t = e == std::string::npos ? "" : t.substr(e);
    }
    std::string title = "auto", style = file ? "points" : "lines", use;
    Strs words;
    for (auto &w: split(t, " ")) if (!trim(w).empty()) words.push_back(trim(w));
    for (size_t i = 0; i < words.size(); i++) {
        if (words[i] == "notitle") title = "";
        else if (words[i] == "title" && i + 1 < words.size()) title = bare(words[++i]);
        else if (words[i] == "using" && i + 1 < words.size()) use = words[++i];
        else if (words[i] == "with" && i + 1 < words.size()) style = words[++i];
    }
    std::string rows = "[";
    bool missing = false, first = true;
    if (file) {
        std::ifstream f(name);
        missing = !f.is_open();
        std::string line;
        while (std::getline(f, line)) {
            if (trim(line).empty()) continue;
            std::istringstream ss(line);
            std::vector<double> cols, row;
            std::string w;
            while (ss >> w) { char *e; double d = std::strtod(w.c_str(), &e); cols.push_back(*e ? NAN : d); }
            Strs u = use.empty() ? (splot ? Strs{"1", "2", "3"} : Strs{"1", "2"}) : split(use, ":");
            for (auto &c: u) {
                bool bad = false;
                double v;
                if (c[0] == '(') v = value(c, 0, 0, bad);
                else { size_t k = std::strtoul(c.c_str(), nullptr, 10); bad = k < 1 || k > cols.size(); v = bad ? 0 : cols[k - 1]; }
                row.push_back(bad ? NAN : v);
            }
            rows += (first ? "" : ",") + fixes(row, 100);
            first = false;
        }
    }
    std::string id;
    for (char c: name) if (c != ' ') id += c;
    return J().b("file", file).str("n", file ? "" : id).str("title", enc(title)).str("style", style).b("missing", missing).raw("rows", rows + "]").end();
}
static std::string statement(int session, const std::string &text) {
    std::string t = trim(text), w = t.substr(0, t.find(' ')), rest = t.size() > w.size() ? trim(t.substr(w.size())) : "";
    std::string k = "other", n, v, x;
    std::vector<double> r;
    std::string ser = "[]";
    double scale = 100;
    size_t eq = t.find('=');
    if (w == "reset" || w == "set" || w == "unset") {
        k = w;
        n = rest.substr(0, rest.find(' '));
        v = rest.size() > n.size() ? trim(rest.substr(n.size())) : "";
        if (!v.empty() && v[0] == '[') {
            size_t c = v.find(':');
            bool bad = c == std::string::npos || v.back() != ']';
            if (!bad) { r.push_back(value(v.substr(1, c - 1), 0, 0, bad)); r.push_back(value(v.substr(c + 1, v.size() - c - 2), 0, 0, bad)); }
            if (bad) r = {NAN, NAN};
            v = "";
        }
        v = bare(v);
        if (n == "output" && v.rfind('.') != std::string::npos) x = v.substr(v.rfind('.') + 1);
    } else if (w == "plot" || w == "splot") {
        k = w;
        Strs parts;
        for (auto &p: split(rest, ",")) if (!trim(p).empty()) parts.push_back(p);
        ser = arr(parts, [&](const std::string &p) { return series(p, k == "splot"); });
    } else if (eq != std::string::npos && t.find('(') != std::string::npos && t.find('(') < eq) {
        k = "fun";
        for (char c: t.substr(0, eq)) if (c != ' ') n += c;
        std::string e = t.substr(eq + 1);
        bool bad = false;
        double c = value(e, 0, 0, bad), a = value(e, 1, 0, bad) - c, b = value(e, 0, 1, bad) - c;
        if (std::fabs(value(e, 2, 3, bad) - (2 * a + 3 * b + c)) > 1e-6) bad = true;
        r = bad ? std::vector<double>{NAN, NAN, NAN} : std::vector<double>{a, b, c};
        scale = 1000;
    } else v = t;
    return J().i("s", session).str("k", k).str("n", n).str("v", enc(v)).str("x", x).raw("r", fixes(r, scale)).raw("series", ser).end();
}

// ------------------------------------------------------------ the plotting program
struct Session { int id = 0; bool late = false; std::string text, rest; };
static std::map<FILE *, Session *> g_open;
static Strs g_sent;
static int g_sessions = 0;
static bool g_late = false;

static void obey(Session &s, const std::string &line) {
    for (auto &t: split(line, ";\n")) if (!trim(t).empty()) g_sent.push_back(statement(s.id, t));
}
static ssize_t heard(void *c, const char *b, size_t n) {
    auto &s = *(Session *) c;
    s.text.append(b, n);
    if (s.late) return (ssize_t) n;
    for (size_t e; (e = s.text.find('\n')) != std::string::npos;) {
        std::string l = s.text.substr(0, e);
        s.text.erase(0, e + 1);
        obey(s, l);
    }
    return (ssize_t) n;
}
extern "C" FILE *popen(const char *, const char *) {
    auto *s = new Session;
    s->id = ++g_sessions;
    s->late = g_late;
    cookie_io_functions_t f{nullptr, heard, nullptr, nullptr};
    FILE *o = fopencookie(s, "w", f);
    g_open[o] = s;
    return o;
}
extern "C" int pclose(FILE *o) {
    auto it = g_open.find(o);
    if (it == g_open.end()) return -1;
    Session *s = it->second;
    g_open.erase(it);
    fclose(o);
    obey(*s, s->text);
    delete s;
    return 0;
}

// ------------------------------------------------------------ the scenario
static std::string g_base, g_dir;
static std::map<long, std::unique_ptr<mltk::Data<double>>> g_data;
struct Shown { std::unique_ptr<Vis> vis; bool late = false; std::set<std::string> folders; };
static std::map<long, Shown> g_vis;
static std::set<std::string> g_mine;

static std::set<std::string> here() {
    std::set<std::string> s;
    for (auto &e: F::directory_iterator(g_dir)) s.insert(e.path().filename().string());
    return s;
}
static long number(const std::string &f) { return f.rfind("plottemp", 0) == 0 && f.find('_') == std::string::npos ? std::strtol(f.c_str() + 8, nullptr, 10) : -1; }

struct Quiet {
    std::ostringstream out;
    std::streambuf *old;
    Quiet() : old(std::cout.rdbuf(out.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};
// what a learner would be given and asked
struct Asked {
    std::vector<double> f;
    std::string given = "[]";
    int trained = 0;
    template <class D> void setSamples(const D &d) {
        given = "[";
        for (size_t i = 0; i < d.size(); i++) {
            const auto &p = *d[i];
            given += (i ? "," : "") + std::string("{\"x\":") + fixes(std::vector<double>(p.begin(), p.end()), 100) + ",\"y\":" + std::to_string(fix(p.Y(), 100)) + ",\"id\":" + std::to_string(p.Id()) + "}";
        }
        given += "]";
    }
    bool train() { trained++; return true; }
    double evaluate(const mltk::Point<double> &p, bool = false) { return p.size() != 2 ? NAN : f[0] * p[0] + f[1] * p[1] + f[2] >= 0 ? 2 : -1; }
};

static void reset() {
    Quiet q;
    g_late = false;
    g_vis.clear();
    g_data.clear();
    g_mine.clear();
    g_sent.clear();
    if (!g_dir.empty()) { if (chdir(g_base.c_str())) _exit(90); F::remove_all(g_dir); }
    std::string t = g_base + "/plot-XXXXXX";
    if (!mkdtemp(t.data()) || chdir(t.c_str())) _exit(91);
    g_dir = t;
    g_sessions = 0;
}
static std::string op(const std::string &name, In &in) {
    Quiet quiet;
    auto before = here();
    g_sent.clear();
    J j;
    if (name == "data") {
        long d = in.i(), kind = in.i();
        std::string dn = dec(in.word()), names = dec(in.word());
        auto ids = in.list<int>();
        auto ys = in.list<double>();
        auto xs = in.list<double>();
        for (auto &v: xs) v /= 100;
        if (kind) for (auto &v: ys) v /= 100;
        auto data = std::make_unique<mltk::Data<double>>();
        data->setType(kind ? "Regression" : "Classification");
        size_t dim = xs.size() / ids.size();
        for (size_t i = 0; i < ids.size(); i++)
            data->insertPoint(point<mltk::Point<double>>(std::vector<double>(xs.begin() + i * dim, xs.begin() + (i + 1) * dim), ys[i], ids[i]), true);
        data->setName(dn);
        if (!names.empty()) data->setClassesNames(split(names, "|"));
        j.raw("classes", ints(data->classes())).raw("cn", arr(data->classesNames(), [](const std::string &n) { return quote(enc(n)); }));
        g_data[d] = std::move(data);
        return j.end();
    }
    if (name == "mine") {
        // folders of the user that have the names the next plots would choose
        long top = -1;
        for (auto &f: before) top = std::max(top, number(f));
        for (long k = 1; k <= 3; k++) {
            std::string f = "plottemp" + std::to_string(top + k);
            F::create_directory(f);
            std::ofstream(f + "/mine.plt") << "1 2 3 4\n";
            g_mine.insert(f);
        }
        return j.end();
    }
    long p = in.i();
    if (name == "open") {
        long d = in.i(), shared = in.i(), keep = in.i();
        auto &s = g_vis[p];
        s.late = in.i();
        g_late = s.late;
        s.vis = d < 0 ? std::make_unique<Vis>((bool) shared, (bool) keep) : std::make_unique<Vis>(*g_data[d], (bool) shared, (bool) keep);
    } else if (name == "sample") { g_late = g_vis[p].late; g_vis[p].vis->setSample(*g_data[in.i()]); }
    else if (name == "term") g_vis[p].vis->setTerminal(dec(in.word()));
    else if (name == "close") g_vis[p].vis.reset();
    else if (name == "plot") {
        auto &v = *g_vis[p].vis;
        g_late = g_vis[p].late;
        std::string kind = in.word();
        int x = (int) in.i(), y = (int) in.i(), z = (int) in.i();
        bool save = in.i();
        double scale = in.d() / 10;
        std::string title = dec(in.word()), fmt = dec(in.word()), xl = dec(in.word()), yl = dec(in.word()), zl = dec(in.word());
        auto cents = [&in] { auto v = in.list<double>(); for (auto &e: v) e /= 100; return v; };
        mltk::Solution s;
        s.w = cents();
        s.bias = in.d() / 100;
        s.margin = in.d() / 100;
        s.norm = in.d() / 100;
        auto c1 = cents(), c2 = cents(), c3 = cents();
        mltk::Point<double> v1(c1), v2(c2), v3(c3);
        long grid = in.i(), trained = in.i();
        Asked learner;
        learner.f = in.list<double>();
        std::string r;
        if (kind == "1r") r = v.plot1DRegresion(x, save, scale, title, fmt, xl, yl);
        else if (kind == "1rh") r = v.plot1DRegresionHyperplane(x, s, save, scale, title, fmt, xl, yl);
        else if (kind == "2") r = v.plot2D(x, y, save, scale, title, fmt, xl, yl);
        else if (kind == "2v") r = v.plot2D(v1, v2, save, scale, title, fmt, xl, yl);
        else if (kind == "2h") r = v.plot2DwithHyperplane(x, y, s, save, scale, title, fmt, xl, yl);
        else if (kind == "2r") r = v.plot2DRegresion(x, y, save, scale, title, fmt, xl, yl, zl);
        else if (kind == "2rh") r = v.plot2DRegresionHyperplane(x, y, s, save, scale, title, fmt, xl, yl, zl);
        else if (kind == "3") r = v.plot3D(x, y, z, save, scale, title, fmt, xl, yl, zl);
        else if (kind == "3v") r = v.plot3D(v1, v2, v3, save, scale, title, fmt, xl, yl, zl);
        else if (kind == "3h") r = v.plot3DwithHyperplane(x, y, z, s, save, scale, title, fmt, xl, yl, zl);
        else r = v.plotDecisionSurface2D(learner, x, y, (bool) trained, (size_t) grid, save, scale, title, fmt, xl, yl);
        Strs ret;
        for (auto &t: split(r, ";\n")) if (!trim(t).empty()) ret.push_back(statement(0, t));
        j.raw("ret", arr(ret, [](const std::string &t) { return t; })).raw("given", learner.given).i("ntrain", learner.trained);
    }
    auto after = here();
    auto &own = g_vis[p].folders;
    long saved = 0, lost = 0, left = 0, extra = 0;
    for (auto &f: after) if (!before.count(f)) {
        if (number(f) >= 0) own.insert(f);
        else if (f.find("_saved_") != std::string::npos) saved++;
        else if (f != "output") extra++;
    }
    for (auto &f: before) if (!after.count(f) && !own.count(f)) lost++;
    for (auto &f: g_mine) if (!F::exists(f + "/mine.plt")) lost++;
    if (name == "close") {
        for (auto &f: own) left += after.count(f);
        g_vis.erase(p);
    }
    j.raw("sent", arr(g_sent, [](const std::string &t) { return t; })).i("saved", saved).i("lost", lost).i("left", left).i("extra", extra);
    return j.end();
}

int main() {
    const char *base = getenv("VT_SCRATCH");
    if (!base || base[0] != '/') return 92;
    g_base = base;
    umask(022);
    // plots remove folders: only an unprivileged user's files are within reach
    if (geteuid() == 0 && (setgroups(0, nullptr) || setgid(65534) || setuid(65534))) return 93;
    if (geteuid() == 0 || getuid() == 0) return 94;
    std::string bin = g_base + "/bin";
    setenv("DISPLAY", ":99", 1);
    setenv("PATH", bin.c_str(), 1);
    return loop(reset, op);
}
