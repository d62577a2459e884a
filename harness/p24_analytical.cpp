// P24: user functions and their roots, analytical solutions, material properties.
#include "gen.hpp"
#include "CmnTypes.hpp"
#include "AnaFunction.hpp"
#include "AnaTemperature.hpp"
#include "AnaFlow.hpp"
#include "MatMaterial.hpp"
using namespace gen;
using namespace mon;
using namespace ENigMA::analytical;
using namespace ENigMA::material;
typedef double D;
typedef CAnaFunction<D> Fn;
typedef std::map<std::string, D> Env;
struct Node { // an expression: its text and its meaning
    std::string s;
    int prec; // 1 sum, 2 product, 3 power, 4 atom
    std::function<long double(const Env&)> f;
    std::set<std::string> vars;
};
static std::string wrap(const Node& n, int prec) { return n.prec >= prec ? n.s : "(" + n.s + ")"; }
static Node expr(Rng& R, int depth, const std::vector<std::string>& names)
{
    if (depth == 0 || R.flip(0.12)) {
        if (R.flip(0.65)) {
            std::string v = R.pick(names), t = v;
            if (R.flip(0.2)) for (char& c : t) c = toupper(c);
            return { t, 4, [v](const Env& e) { return (long double)e.at(v); }, { v } };
        }
        if (R.flip(0.15)) return { "pi", 4, [](const Env&) { return acosl(-1.0L); }, {} };
        std::string t = R.flip(0.4) ? fmt("%d", R.ri(0, 20)) : fmt("%.4f", R.uni(0, 9));
        double v = strtod(t.c_str(), 0);
        return { t, 4, [v](const Env&) { return (long double)v; }, {} };
    }
    Node a = expr(R, depth - 1, names);
    auto un = [&](const char* nm, std::function<long double(long double)> g) { auto f = a.f; return Node{ std::string(nm) + "(" + a.s + ")", 4, [f, g](const Env& e) { return g(f(e)); }, a.vars }; };
    int k = R.ri(0, 13);
    if (k == 0) return un("sin", [](long double x) { return sinl(x); });
    if (k == 1) return un("cos", [](long double x) { return cosl(x); });
    if (k == 2) return un("abs", [](long double x) { return fabsl(x); });
    if (k == 3) { Node b = un("abs", [](long double x) { return fabsl(x); }); auto f = b.f; return { "sqrt(1+" + b.s + ")", 4, [f](const Env& e) { return sqrtl(1 + f(e)); }, b.vars }; }
    if (k == 4) { auto f = a.f; return { "exp(-abs(" + a.s + ")/10)", 4, [f](const Env& e) { return expl(-fabsl(f(e)) / 10); }, a.vars }; }
    if (k == 5) { auto f = a.f; return { "(-(" + a.s + "))", 4, [f](const Env& e) { return -f(e); }, a.vars }; }
    if (k == 6) { int p = R.ri(2, 3); auto f = un("sin", [](long double x) { return sinl(x); }); auto g = f.f; return { f.s + fmt(R.flip() ? "^%d" : " ^ %d", p), 3, [g, p](const Env& e) { long double b = g(e); return p == 2 ? b * b : b * b * b; }, a.vars }; }
    Node b = expr(R, depth - 1, names);
    std::set<std::string> v = a.vars;
    v.insert(b.vars.begin(), b.vars.end());
    auto f = a.f, g = b.f;
    std::string sp = R.flip(0.3) ? " " : "";
    if (k == 7 || k == 8) return { wrap(a, 1) + sp + "+" + sp + wrap(b, 2), 1, [f, g](const Env& e) { return f(e) + g(e); }, v };
    if (k == 9) return { wrap(a, 1) + sp + "-" + sp + wrap(b, 2), 1, [f, g](const Env& e) { return f(e) - g(e); }, v };
    if (k == 10 || k == 11) return { wrap(a, 2) + sp + "*" + sp + wrap(b, 3), 2, [f, g](const Env& e) { return f(e) * g(e); }, v };
    if (k == 12) return { wrap(a, 2) + sp + "/" + sp + "(1+abs(" + b.s + "))", 2, [f, g](const Env& e) { return f(e) / (1 + fabsl(g(e))); }, v };
    return { fmt("max(") + a.s + "," + b.s + ")", 4, [f, g](const Env& e) { return std::max(f(e), g(e)); }, v };
}
static void match(double got, const Node& n, const Env& e, const char* key, const char* what)
{
    bool known = true;
    for (auto& v : n.vars) known = known && e.count(v);
    if (!known) { expect(std::isnan(got), (std::string(key) + ".undefined").c_str(), "%s with an undefined variable gave %g: %s", what, got, st().desc.c_str()); count("undefined"); return; }
    long double w = n.f(e);
    Env p = e; // sensitivity, to allow for rounding inside the expression
    long double tol = 1e-11L * (1 + fabsl(w));
    for (auto& q : p) { double was = q.second; q.second = was * (1 + 1e-13) + 1e-13; tol += 100 * fabsl(n.f(p) - w); q.second = was; }
    tol += 1e-10L * fabsl(w);
    expect(std::fabs((double)(got - w)) <= (double)tol, key, "%s gave %.12g instead of %.12g: %s", what, got, (double)w, st().desc.c_str());
    count("values"); nontrivial();
}
FAMILY(functions, 500, 30000)
{
    std::vector<std::string> names = { "x", "y", "t", "alpha", "k1" };
    std::map<std::string, std::unique_ptr<D>> store; // where the defined variables live
    struct Obj { Fn f; Node n; std::map<std::string, D*> def; bool constant; D c; };
    std::deque<D> cells;
    std::deque<Obj> o;
    auto cell = [&] { cells.push_back(R.uni(-3, 3)); return &cells.back(); };
    auto fresh = [&] { Node n = expr(R, R.ri(1, 4), names); return Obj{ R.flip() ? Fn(n.s) : Fn(), n, {}, false, 0 }; };
    o.push_back(fresh()); o.back().f.set(o.back().n.s);
    std::string log = o.back().n.s;
    sig(hashStr(log));
    auto env = [&](const Obj& b) { Env e; for (auto& d : b.def) e[d.first] = *d.second; return e; };
    int ops = R.ri(6, 30);
    for (int t = 0; t < ops; ++t) {
        Obj& b = o[R.ri(0, (int)o.size() - 1)];
        auto check = [&](double got, const Env& e, const char* what, const char* key) {
            describe(log + fmt(" => %s [%s]", what, b.constant ? "constant" : b.n.s.c_str()));
            if (b.constant) { expect(got == b.c, "constant", "%s of the constant %g gave %g: %s", what, b.c, got, st().desc.c_str()); count("constants"); }
            else match(got, b.n, e, key, what);
        };
        std::string v = R.pick(names), w = R.pick(names), V = v;
        if (R.flip(0.2)) for (char& c : V) c = toupper(c);
        int k = R.ri(0, 11);
        if (k <= 2) { D* c = cell(); b.f.defineVariable(V, *c); b.def[v] = c; log += ";define " + v; }
        else if (k == 3) { b.f.undefineVariable(V); b.def.erase(v); log += ";undefine " + v; }
        else if (k == 4 && R.flip(0.4)) { b.f.removeAllVariables(); b.def.clear(); log += ";clear"; }
        else if (k == 5) { if (R.flip(0.25)) { b.c = R.uni(-5, 5); b.f.set(b.c); b.constant = true; log += ";constant"; } else { b.n = expr(R, R.ri(1, 4), names); b.f.set(b.n.s); b.constant = false; log += ";set"; } }
        else if (k == 6) { for (auto& d : b.def) if (R.flip()) *d.second = R.uni(-3, 3); log += ";change"; }
        else if (k == 7 && o.size() < 4) { Obj q = b; o.push_back(q); log += ";copy"; }
        else if (k == 8) { D val = R.uni(-3, 3), keep = val; Env e = env(b); e[v] = val; double g = b.f.evaluate(V, val); check(g, e, "evaluate(name)", "evaluate1"); expect(val == keep, "argument", "argument changed: %s", st().desc.c_str()); log += ";e1 " + v; }
        else if (k == 9 && v != w) { D p = R.uni(-3, 3), q = R.uni(-3, 3); Env e = env(b); e[v] = p; e[w] = q; check(b.f.evaluate(V, p, w, q), e, "evaluate(name,name)", "evaluate2"); log += ";e2"; }
        else { check(b.f.evaluate(), env(b), "evaluate", "evaluate"); log += ";e"; }
        if (log.size() > 220) log = "..." + log.substr(log.size() - 180);
    }
    for (auto& b : o) { describe(log + " final"); if (b.constant) expect(b.f.evaluate() == b.c, "constant", "constant changed: %s", st().desc.c_str()); else match(b.f.evaluate(), b.n, env(b), "evaluate", "final evaluate"); }
}
FAMILY(roots, 300, 15000)
{
    int k = R.ri(0, 6);
    D p = R.uni(-3, 3), q = R.uni(0.2, 3);
    std::string s;
    std::function<double(double)> f;
    switch (k) {
    case 0: s = "q*(z-p)"; f = [&](double z) { return q * (z - p); }; break;
    case 1: s = "(z-p)^3+q*(z-p)"; f = [&](double z) { double d = z - p; return d * d * d + q * d; }; break;
    case 2: s = "sin(q*z)-p/4"; f = [&](double z) { return std::sin(q * z) - p / 4; }; break;
    case 3: s = "exp(z/3)-q"; f = [&](double z) { return std::exp(z / 3) - q; }; break;
    case 4: s = "(z-p)*(z-p-q)*(z+q)"; f = [&](double z) { return (z - p) * (z - p - q) * (z + q); }; break;
    case 5: s = "(z-p)^9"; f = [&](double z) { return std::pow(z - p, 9); }; break;
    default: s = "if(z<p,-q,1)"; f = [&](double z) { return z < p ? -q : 1; };
    }
    D a = R.uni(-6, 6), b = R.uni(-6, 6);
    int edge = R.ri(0, 9);
    if (edge == 0 && k != 2 && k != 3 && k != 6) a = p;
    if (edge == 1 && k != 2 && k != 3 && k != 6) b = p;
    if (R.flip(0.7) && a > b) std::swap(a, b);
    double tol = std::pow(10, R.uni(-11, -2));
    Fn F(s);
    F.defineVariable("p", p); F.defineVariable("q", q);
    describe(fmt("%s with p %.17g q %.17g in [%.17g,%.17g], tolerance %g", s.c_str(), p, q, a, b, tol));
    sig(k); sigd(a); sigd(b);
    double fa = f(a), fb = f(b);
    // the library evaluates the same expression; the ends decide whether there is anything to find
    D ta = a, tb = b;
    fa = F.evaluate("z", ta); fb = F.evaluate("z", tb);
    expect(std::fabs(fa - f(a)) <= 1e-9 * (1 + std::fabs(fa)) && std::fabs(fb - f(b)) <= 1e-9 * (1 + std::fabs(fb)), "root.value", "ends evaluate to %g %g instead of %g %g: %s", fa, fb, f(a), f(b), st().desc.c_str());
    int nmax = R.flip(0.8) ? 400 : R.ri(0, 8);
    double lo = std::min(a, b), hi = std::max(a, b);
    for (int m = 0; m < 3; ++m) {
        static const char* M[] = { "bisection", "brent", "root" };
        Integer it = -7;
        double x = m == 0 ? F.bisection("z", a, b, it, nmax, tol) : m == 1 ? F.brent("z", a, b, it, nmax, tol) : F.root("z", a, b, it, nmax, tol);
        std::string key = std::string("root.") + M[m];
        expect(it >= 0 && it <= nmax + 1, (key + ".iterations").c_str(), "%d iterations of at most %d: %s", it, nmax, st().desc.c_str());
        if (!expect(x >= lo && x <= hi, (key + ".bracket").c_str(), "%g is outside: %s", x, st().desc.c_str())) return;
        bool change = (fa < 0) != (fb < 0) || fa == 0 || fb == 0;
        if (!change) { count("no sign change"); continue; }
        nontrivial(); count("roots");
        double w = m == 1 ? tol : tol / 2;
        if (it > nmax) { if (m == 1) continue; w = std::fabs(b - a) * std::pow(0.5, nmax + 2); count("stopped early"); }
        w = w * (1 + 1e-9) + 4e-16 * (std::fabs(a) + std::fabs(b));
        double u = std::max(lo, x - w), v = std::min(hi, x + w), fu = F.evaluate("z", u), fv = F.evaluate("z", v), fx = F.evaluate("z", x);
        expect(fx == 0 || fu == 0 || fv == 0 || (fu < 0) != (fv < 0) || (fu < 0) != (fx < 0), key.c_str(), "%.17g is no root: f = %g, %g within the tolerance: %s", x, fu, fv, st().desc.c_str());
        D z = 1.25;
        F.defineVariable("z", z);
        expect(std::fabs(F.evaluate() - f(1.25)) <= 1e-9 * (1 + std::fabs(f(1.25))), (key + ".after").c_str(), "definitions did not survive the search: %s", st().desc.c_str());
        F.undefineVariable("z");
    }
}
// --- analytical temperatures ---
static double heat1(double x, double at) // independent of the series: images of the error function
{
    double s = 1;
    for (int n = 0; n < 60; ++n) s -= (n % 2 ? -1 : 1) * (std::erfc((2 * n + 1 - x) / (2 * std::sqrt(at))) + std::erfc((2 * n + 1 + x) / (2 * std::sqrt(at))));
    return s;
}
FAMILY(transient, 90, 2500)
{
    CAnaTemperature<D> a;
    double alpha = std::exp(R.uni(-3, 3)), at = std::exp(R.uni(-6.5, 0.5)), t = at / alpha, x = R.uni(0, 1), T = 7;
    describe(fmt("transient at %g %g %g", x, t, alpha));
    bool special = R.flip(0.4); // places where terms of the series vanish
    auto place = [&] { static const std::vector<double> N = { 3, 4, 5, 6, 7, 8, 9, 10, 12 }; double n = R.pick(N); return R.ri(0, (int)n) / n; };
    if (special) { x = place(); count("special places"); }
    describe(fmt("transient at %g %g %g", x, t, alpha));
    sigd(x); sigd(at);
    a.transientHeatConduction1D(x, t, alpha, T);
    expectNear(T, heat1(x, at), 2e-6, "transient.1d", st().desc.c_str());
    double y = R.uni(-0.5, 0.5), z = R.uni(-0.5, 0.5);
    if (special) { y = place() - 0.5; z = place() - 0.5; }
    x -= 0.5;
    double X = heat1(std::fabs(2 * x), 4 * at), Y = heat1(std::fabs(2 * y), 4 * at), Z = heat1(std::fabs(2 * z), 4 * at);
    a.transientHeatConduction2D(x, y, t, alpha, T);
    expectNear(T, X * Y, 2e-6, "transient.2d", st().desc.c_str());
    if (R.flip(0.2)) {
        a.transientHeatConduction3D(x, y, z, t, alpha, T);
        expectNear(T, X * Y * Z, 2e-6, "transient.3d", st().desc.c_str());
    }
    nontrivial();
    // the start: one inside, and the cooled sides
    a.transientHeatConduction1D(R.uni(0, 0.7), 0.0, alpha, T); expectNear(T, 1, 0.03, "initial.1d", st().desc.c_str());
    a.transientHeatConduction1D(1.0, t, alpha, T); expectNear(T, 0, 1e-9, "side.1d", st().desc.c_str());
    a.transientHeatConduction2D(R.uni(-0.3, 0.3), R.uni(-0.3, 0.3), 0.0, alpha, T); expectNear(T, 1, 0.06, "initial.2d", st().desc.c_str());
    a.transientHeatConduction2D(R.flip() ? 0.5 : -0.5, y, t, alpha, T); expectNear(T, 0, 1e-9, "side.2d", st().desc.c_str());
}
FAMILY(steady, 300, 20000)
{
    CAnaTemperature<D> a;
    double x = R.uni(0, 1), y = R.uni(0, 1), z = R.uni(0, 1), T = 7;
    const bool special = R.flip(0.3);
    describe(fmt("steady at %g %g %g", x, y, z));
    sigd(x); sigd(y);
    a.steadyStateHeatConduction1D(x, T);
    expect(T == x, "steady.1d", "%g at %g", T, x);
    auto sq = [&](double p, double q) { double v; a.steadyStateHeatConduction2D(p, q, v); return v; };
    auto cu = [&](double p, double q, double r) { double v; a.steadyStateHeatConduction3D(p, q, r, v); return v; };
    x = R.uni(0.12, 0.88); y = R.uni(0.12, 0.88); z = R.uni(0.2, 0.8);
    auto place = [&] { static const std::vector<double> P = { 0.2, 0.25, 1 / 3.0, 0.3, 0.4, 0.5, 0.6, 2 / 3.0, 0.7, 0.75, 0.8 }; return R.pick(P); };
    if (special) { x = place(); y = place(); z = place(); }
    // all sides hot together make a uniform field
    expectNear(sq(x, y) + sq(x, 1 - y) + sq(y, x) + sq(y, 1 - x), 1, 2e-3, "steady.2d.sum", st().desc.c_str());
    expect(sq(x, y) > 0 && sq(x, y) < 1, "steady.2d.bounds", "%g: %s", sq(x, y), st().desc.c_str());
    expectNear(sq(1 - x, y), sq(x, y), 1e-9, "steady.2d.mirror", st().desc.c_str());
    double h = 1e-3;
    expectNear((sq(x + h, y) + sq(x - h, y) + sq(x, y + h) + sq(x, y - h) - 4 * sq(x, y)) / (h * h), 0, 0.05, "steady.2d.laplace", st().desc.c_str());
    expectNear(sq(0, y), 0, 1e-9, "steady.2d.side", st().desc.c_str()); expectNear(sq(1, y), 0, 1e-9, "steady.2d.side", st().desc.c_str()); expectNear(sq(x, 0), 0, 1e-9, "steady.2d.side", st().desc.c_str());
    expectNear(sq(R.uni(0.3, 0.7), 1), 1, 0.03, "steady.2d.hot", st().desc.c_str());
    if (!special) { x = R.uni(0.2, 0.8); y = R.uni(0.2, 0.8); }
    auto unit = [&](double p, double q, double r) { return (cu(p, q, r) - 0.5 * cu(1 - p, q, r)) / 0.75; };
    expectNear(unit(x, y, z) + unit(1 - x, y, z) + unit(y, z, x) + unit(1 - y, z, x) + unit(z, x, y) + unit(1 - z, x, y), 1, 0.02, "steady.3d.sum", st().desc.c_str());
    expectNear(cu(x, z, y), cu(x, y, z), 1e-9, "steady.3d.swap", st().desc.c_str());
    expectNear(cu(x, 1 - y, z), cu(x, y, z), 1e-9, "steady.3d.mirror", st().desc.c_str());
    expectNear((cu(x + h, y, z) + cu(x - h, y, z) + cu(x, y + h, z) + cu(x, y - h, z) + cu(x, y, z + h) + cu(x, y, z - h) - 6 * cu(x, y, z)) / (h * h), 0, 0.5, "steady.3d.laplace", st().desc.c_str());
    expectNear(cu(x, 0, z), 0, 1e-9, "steady.3d.side", st().desc.c_str()); expectNear(cu(x, y, 1), 0, 1e-9, "steady.3d.side", st().desc.c_str());
    expectNear(cu(1, R.uni(0.35, 0.65), R.uni(0.35, 0.65)), 1, 0.15, "steady.3d.hot", st().desc.c_str()); expectNear(cu(0, R.uni(0.35, 0.65), R.uni(0.35, 0.65)), 0.5, 0.08, "steady.3d.warm", st().desc.c_str());
    nontrivial();
}
FAMILY(fin, 400, 30000)
{
    CAnaTemperature<D> a;
    double L = std::exp(R.uni(-2, 2)), mL = std::exp(R.uni(-4, 2.5)), Ta = R.uni(200, 900), Tb = R.uni(200, 900), Ti = R.uni(200, 900), k = std::exp(R.uni(-2, 5)), A = std::exp(R.uni(-8, 0)), P = std::exp(R.uni(-4, 1));
    double h = mL * mL / (L * L) * k * A / P, x = R.uni(0.05, 0.95) * L;
    describe(fmt("beam of %g, mL %g, ends %g %g, around %g", L, mL, Ta, Tb, Ti));
    sigd(L); sigd(mL);
    auto T = [&](double q) { double v; a.steadyStateHeatConduction1D(q, Ta, Tb, h, Ti, k, P, A, L, v); return v; };
    double m = mL / L, S = std::max({ std::fabs(Ta - Ti), std::fabs(Tb - Ti), 1.0 });
    expectNear(T(0), Ta, 1e-8 * 900, "fin.start", st().desc.c_str());
    expectNear(T(L), Tb, 1e-6 * 900, "fin.end", st().desc.c_str());
    double want = Ti + ((Ta - Ti) * std::sinh(m * (L - x)) + (Tb - Ti) * std::sinh(m * x)) / std::sinh(mL);
    expectNear(T(x), want, 1e-6 * 900 + 1e-9 * S, "fin.inside", st().desc.c_str());
    nontrivial();
}
FAMILY(radiation, 40, 2000)
{
    CAnaTemperature<D> a;
    double Tb = R.uni(300, 1500), h = std::exp(R.uni(0, 4)), e = R.uni(0.1, 1), k = std::exp(R.uni(0, 5)), r = std::exp(R.uni(-6, -2)), P = 2 * M_PI * r, A = M_PI * r * r;
    describe(fmt("radiating beam from %g, h %g, e %g, k %g, radius %g", Tb, h, e, k, r));
    sigd(Tb); sigd(h);
    double M = h * P / (k * A), G = P * e * 5.6704e-8 / (k * A), len = 1 / std::sqrt(M + G * Tb * Tb * Tb);
    auto T = [&](double q) { double v = 7; a.steadyStateHeatConvectionRadiation1D(q, Tb, h, e, k, P, A, v); return v; };
    expectNear(T(0), Tb, 1e-6 * Tb, "radiation.start", st().desc.c_str());
    double x = R.uni(0.05, 1.5) * len, d = 1e-2 * len, t0 = T(x - d), t1 = T(x), t2 = T(x + d), q = M * t1 + G * std::pow(t1, 4);
    expect(t0 > t1 && t1 > t2 && t2 > 0 && t0 <= Tb * (1 + 1e-9), "radiation.falls", "%g %g %g: %s", t0, t1, t2, st().desc.c_str());
    expectNear((t0 - 2 * t1 + t2) / (d * d), q, 2e-3 * q + 1e-4 * Tb / (len * len), "radiation.balance", st().desc.c_str());
    expectNear(T(x), t1, 0, "radiation.repeat", st().desc.c_str());
    nontrivial();
}
FAMILY(burgers, 200, 10000)
{
    CAnaFlow<D> a;
    double L = 2 * M_PI, mu = R.uni(0.05, 1), t = R.uni(0, 1), x = 4 * t + R.uni(0.2, 1) * L * R.uni(0, 1), u = 7;
    describe(fmt("burgers at %g, %g, viscosity %g", x, t, mu));
    sigd(x); sigd(t);
    auto U = [&](double p, double q) { // closed form, derivative taken by hand
        double w = 4 * mu * (q + 1), a1 = p - 4 * q, a2 = a1 - L, m = std::min(a1 * a1, a2 * a2), e1 = std::exp(-(a1 * a1 - m) / w), e2 = std::exp(-(a2 * a2 - m) / w);
        return 2 * mu * (2 * a1 / w * e1 + 2 * a2 / w * e2) / (e1 + e2) + 4;
    };
    a.viscousBurgersEquation(x, 1e-6, t, L, mu, u);
    expectNear(u, U(x, t), 1e-4 * 10, "burgers.value", st().desc.c_str());
    // and it solves u_t + u u_x = mu u_xx
    double d = 1e-3, w = 1e-6, uw, ue, ut, ub;
    (void)w;
    uw = U(x - d, t); ue = U(x + d, t); ut = U(x, t + d); ub = U(x, t - d);
    double c = U(x, t), res = (ut - ub) / (2 * d) + c * (ue - uw) / (2 * d) - mu * (ue - 2 * c + uw) / (d * d);
    expectNear(res, 0, 0.02 * (1 + std::fabs(c * (ue - uw) / (2 * d)) * 5), "burgers.oracle", st().desc.c_str());
    nontrivial();
}
FAMILY(material, 150, 8000)
{
    CMatMaterial<D> m;
    std::map<int, double> val;
    std::map<int, Node> fun;
    std::map<int, std::map<std::string, D*>> def;
    std::deque<D> cells;
    std::vector<std::string> names = { "t", "p" };
    int ops = R.ri(4, 20);
    uint64_t hs = 0;
    for (int i = 0; i < ops; ++i) {
        int p = R.ri(0, 5), k = R.ri(0, 4);
        EPropertyType e = (EPropertyType)p;
        describe(fmt("material: operation %d on property %d", k, p));
        if (k == 0) { val[p] = R.uni(-9, 9); m.addProperty(e, val[p]); hs = hs * 31 + p; }
        if (k == 1) { Node n = expr(R, 3, names); Fn f(n.s); if (R.flip(0.3)) { D other = 1; f.defineVariable("zz", other); f.removeAllVariables(); } m.addProperty(e, f); fun[p] = n; hs = hs * 31 + hashStr(n.s); }
        if (k == 2 && val.count(p)) { expect(m.propertyValue(e) == val[p], "material.value", "%g instead of %g", m.propertyValue(e), val[p]); nontrivial(); }
        if (k >= 3 && fun.count(p)) {
            D t = R.uni(-2, 2), q = R.uni(-2, 2);
            Env en = { { "t", t }, { "p", q } };
            st().desc += " " + fun[p].s;
            match(m.propertyValue(e, "t", t, "p", q), fun[p], en, "material.function", "propertyValue");
            if (!fun[p].vars.count("p")) match(m.propertyValue(e, "t", t), fun[p], en, "material.function", "propertyValue");
        }
        if (R.flip(0.1)) { CMatMaterial<D> c = m; m = c; }
    }
    for (auto& v : val) expect(m.propertyValue((EPropertyType)v.first) == v.second, "material.value", "property %d is %g instead of %g", v.first, m.propertyValue((EPropertyType)v.first), v.second);
    sig(hs);
}
