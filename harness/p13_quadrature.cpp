// P13: quadrature rules integrate polynomials of their degree exactly.
#include "gen.hpp"
#include "CmnTypes.hpp"
#include "GeoCoordinate.hpp"
#include "GeoTriangle.hpp"
#include "IntBeam.hpp"
#include "IntHexahedron.hpp"
#include "IntQuadrilateral.hpp"
#include "IntTriangle.hpp"
#include "IntTriangularPrism.hpp"
#include "BemTriangle.hpp"
using namespace gen;
using namespace mon;
using namespace ENigMA::integration;
using namespace ENigMA::geometry;

struct Pt { double x, y, z, w; };
struct Beam : CIntBeam<double> {
    std::vector<Pt> rule(int n)
    {
        m_integPoints = n; setGaussPoints();
        std::vector<Pt> p;
        for (int i = 0; i < (int)m_xi.size(); ++i) p.push_back({ m_xi[i], 0, 0, m_wxi[i] });
        return p;
    }
};
struct Quad : CIntQuadrilateral<double> {
    std::vector<Pt> rule(int n)
    {
        m_integPoints = n; setGaussPoints();
        std::vector<Pt> p;
        for (int i = 0; i < (int)m_xi.size(); ++i) p.push_back({ m_xi[i], m_eta[i], 0, m_wxi[i] * m_weta[i] });
        return p;
    }
};
struct Hexa : CIntHexahedron<double> {
    std::vector<Pt> rule(int n)
    {
        m_integPoints = n; setGaussPoints();
        std::vector<Pt> p;
        for (int i = 0; i < (int)m_xi.size(); ++i) p.push_back({ m_xi[i], m_eta[i], m_zeta[i], m_wxi[i] * m_weta[i] * m_wzeta[i] });
        return p;
    }
};
struct Prism : CIntTriangularPrism<double> {
    std::vector<Pt> rule(int n)
    {
        m_integPoints = n; setGaussPoints();
        std::vector<Pt> p;
        for (int i = 0; i < (int)m_xi.size(); ++i) p.push_back({ m_xi[i], m_eta[i], m_zeta[i], m_wxi[i] * m_weta[i] * m_wzeta[i] });
        return p;
    }
};
struct Tri : CIntTriangle<double> {
    bool sum1 = true;
    std::vector<Pt> rule(int n)
    {
        m_integPoints = n; setBarycentricGaussPoints();
        std::vector<Pt> p;
        for (int i = 0; i < (int)m_beta1.size(); ++i) {
            if (std::fabs(m_beta1[i] + m_beta2[i] + m_beta3[i] - 1) > 1e-12) sum1 = false;
            p.push_back({ m_beta1[i], m_beta2[i], m_beta3[i], m_wbeta[i] });
        }
        return p;
    }
};
enum Shape { BEAM, QUAD, HEXA, PRISM, TRI };
static const char* NAME[] = { "beam", "quadrilateral", "hexahedron", "prism", "triangle" };
struct Rule { Shape s; int n, deg, degZ; };
static const std::vector<Rule> RULES = {
    { BEAM, 1, 1, 0 }, { BEAM, 2, 3, 0 }, { BEAM, 3, 5, 0 }, { BEAM, 4, 7, 0 }, { BEAM, 6, 11, 0 },
    { QUAD, 1, 1, 0 }, { QUAD, 4, 3, 0 }, { QUAD, 8, 5, 0 },
    { HEXA, 1, 1, 0 }, { HEXA, 8, 3, 0 }, { HEXA, 27, 5, 0 },
    { PRISM, 1, 1, 1 }, { PRISM, 6, 2, 3 }, { PRISM, 9, 2, 5 },
    { TRI, 1, 1, 0 }, { TRI, 3, 2, 0 }, { TRI, 6, 4, 0 }, { TRI, 7, 5, 0 }, { TRI, 12, 6, 0 }, { TRI, 16, 8, 0 }, { TRI, 17, 8, 0 }, { TRI, 20, 9, 0 },
};
static double fact(int k) { double r = 1; for (int i = 2; i <= k; ++i) r *= i; return r; }
static double i1(int a) { return a % 2 ? 0 : 2.0 / (a + 1); }
// exact integral of x^a y^b z^c over the reference cell
static double exact(Shape s, int a, int b, int c)
{
    switch (s) {
    case BEAM: return i1(a);
    case QUAD: return i1(a) * i1(b);
    case HEXA: return i1(a) * i1(b) * i1(c);
    case PRISM: return fact(a) * fact(b) / fact(a + b + 2) * i1(c);
    default: return fact(a) * fact(b) * fact(c) / fact(a + b + c + 2);
    }
}
static std::vector<Pt> points(const Rule& r, bool& bary)
{
    bary = true;
    if (r.s == BEAM) return Beam().rule(r.n);
    if (r.s == QUAD) return Quad().rule(r.n);
    if (r.s == HEXA) return Hexa().rule(r.n);
    if (r.s == PRISM) return Prism().rule(r.n);
    Tri t;
    auto p = t.rule(r.n);
    bary = t.sum1;
    return p;
}
static bool inside(Shape s, const Pt& p)
{
    double e = 1e-12;
    auto in = [&](double v) { return std::fabs(v) <= 1 + e; };
    if (s == TRI) return p.x > -e && p.y > -e && p.z > -e;
    if (s == PRISM) return p.x > -e && p.y > -e && p.x + p.y < 1 + e && in(p.z);
    return in(p.x) && in(p.y) && in(p.z);
}
static std::vector<std::array<int, 3>> monomials(const Rule& r)
{
    std::vector<std::array<int, 3>> m;
    for (int a = 0; a <= r.deg; ++a)
        for (int b = 0; b <= (r.s == BEAM ? 0 : r.deg); ++b)
            for (int c = 0; c <= (r.s == PRISM ? r.degZ : r.s == TRI || r.s == HEXA ? r.deg : 0); ++c) {
                bool product = (r.s == HEXA) || (r.s == QUAD && r.n != 8); // tensor rules
                int t = a + b + (r.s == PRISM ? 0 : c);
                if (r.s == TRI && t != r.deg) continue; // homogeneous barycentric
                if (!product && t > r.deg) continue;
                m.push_back({ a, b, c });
            }
    return m;
}
static void check(const Rule& r)
{
    const std::string nm = fmt("%s.%d", NAME[r.s], r.n);
    describe(nm + "-point rule");
    sig(r.s * 100 + r.n);
    bool bary;
    auto p = points(r, bary);
    expect((int)p.size() == r.n, ("count." + nm).c_str(), "%zu points", p.size());
    expect(bary, ("bary." + nm).c_str(), "barycentric coordinates do not add up to one");
    bool in = true;
    double tot = 0;
    for (auto& q : p) { in = in && inside(r.s, q); tot += q.w; }
    expect(in, ("inside." + nm).c_str(), "a point lies outside the cell");
    double vol = r.s == TRI ? 0.5 : exact(r.s, 0, 0, 0);
    expectNear(tot, vol, 2e-9 * vol, ("weights." + nm).c_str(), "sum of weights");
    double worst = 0;
    std::array<int, 3> at{};
    for (auto& m : monomials(r)) {
        double s = 0;
        for (auto& q : p) s += q.w * std::pow(q.x, m[0]) * std::pow(q.y, m[1]) * std::pow(q.z, m[2]);
        double e = std::fabs(s - exact(r.s, m[0], m[1], m[2]));
        count("monomials");
        if (!(e <= worst)) { worst = e; at = m; }
    }
    expect(worst < 1e-8, ("exact." + nm).c_str(), "x^%d y^%d z^%d integrated with error %g", at[0], at[1], at[2], worst);
    nontrivial();
}
// Every rule, every monomial of its degree (deterministic).
FAMILY(rules, 22, 22) { check(RULES[st().index % RULES.size()]); }

// Random polynomials on random cells, rules taken from objects that were used before with other rules.
FAMILY(polynomials, 4000, 200000)
{
    std::vector<Rule> ok;
    for (auto& r : RULES) if (!(r.s == PRISM && r.n == 6)) ok.push_back(r);
    Rule r = R.pick(ok);
    bool bary;
    static Beam B; static Quad Q; static Hexa H; static Prism P; static Tri T;
    std::vector<Pt> p = r.s == BEAM ? B.rule(r.n) : r.s == QUAD ? Q.rule(r.n) : r.s == HEXA ? H.rule(r.n) : r.s == PRISM ? P.rule(r.n) : T.rule(r.n);
    (void)bary;
    sig(r.s * 100 + r.n);
    describe(fmt("%s %d points, random polynomial", NAME[r.s], r.n));
    double s = 0, want = 0, mag = 0;
    for (auto& m : monomials(r)) {
        double c = R.uni(-1, 1);
        double q = 0;
        for (auto& k : p) q += k.w * std::pow(k.x, m[0]) * std::pow(k.y, m[1]) * std::pow(k.z, m[2]);
        s += c * q; want += c * exact(r.s, m[0], m[1], m[2]); mag += std::fabs(c);
        sigd(c);
    }
    expectNear(s, want, 2e-8 * mag, "polynomial", "integral");
    nontrivial();
}

// The rule as the boundary elements use it: points on the triangle, weights adding up to half.
FAMILY(triangle, 4000, 200000)
{
    Rigid g = randomRigid(R, 3, true);
    V3 v[3];
    for (;;) {
        for (auto& q : v) q = inBox(R);
        V3 n = (v[1] - v[0]).cross(v[2] - v[0]);
        if (n.norm() > 0.05) break;
    }
    for (auto& q : v) q = g(q);
    ENigMA::bem::CBemTriangle<double> t;
    for (auto& q : v) { CGeoCoordinate<double> c(q.x, q.y, q.z); t.addVertex(c); }
    std::vector<CGeoCoordinate<double>> pts;
    std::vector<double> w;
    t.getIntegrationPoints(pts, w);
    sigd(v[0].x);
    describe("boundary element triangle");
    if (!expect(pts.size() == w.size() && !w.empty(), "bem.size", "%zu points, %zu weights", pts.size(), w.size())) return;
    // integrate (n.x)^k, k <= 4, against the exact moments of the triangle in barycentric form
    V3 d = unitVec(R);
    V3 o = (v[0] + v[1] + v[2]) * (1.0 / 3);
    double a0 = d.dot(v[0] - o), a1 = d.dot(v[1] - o), a2 = d.dot(v[2] - o), m = std::max({ std::fabs(a0), std::fabs(a1), std::fabs(a2), 1e-300 });
    for (int k = 0; k <= 6; ++k) {
        double want = 0, got = 0;
        for (int i = 0; i <= k; ++i) for (int j = 0; i + j <= k; ++j) {
            int l = k - i - j;
            want += fact(k) / (fact(i) * fact(j) * fact(l)) * std::pow(a0, i) * std::pow(a1, j) * std::pow(a2, l) * fact(i) * fact(j) * fact(l) / fact(k + 2);
        }
        for (size_t i = 0; i < pts.size(); ++i) got += w[i] * std::pow(d.dot(v3(pts[i]) - o), k);
        expectNear(got / std::pow(m, k), want / std::pow(m, k), 1e-8 * (1 + o.norm() / g.s * 1e-6), "bem.moment", fmt("moment %d", k).c_str());
    }
    V3 n = (v[1] - v[0]).cross(v[2] - v[0]).unit();
    double far = 0;
    for (auto& q : pts) far = std::max(far, std::fabs(n.dot(v3(q) - v[0])));
    expect(far < 1e-10 * (g.s + o.norm()), "bem.plane", "integration point %g off the plane", far);
    nontrivial();
}
