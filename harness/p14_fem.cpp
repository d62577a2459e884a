// P14: element matrices (diffusion, mass, convection, gradient, elasticity, sources) against variational identities.
#include "gen.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "CmnTypes.hpp"
#include "FemBeam.hpp"
#include "FemTriangle.hpp"
#include "FemQuadrilateral.hpp"
#include "FemTetrahedron.hpp"
#include "FemTriangularPrism.hpp"
#include "FemHexahedron.hpp"
#include "fem/thermal/FemLinearTemperatureBeam.hpp"
#include "fem/thermal/FemLinearTemperatureTriangle.hpp"
#include "fem/thermal/FemLinearTemperatureQuadrilateral.hpp"
#include "fem/thermal/FemLinearTemperatureTetrahedron.hpp"
#include "fem/thermal/FemLinearTemperatureTriangularPrism.hpp"
#include "fem/thermal/FemLinearTemperatureHexahedron.hpp"
#include "fem/flow/FemFlowTriangle.hpp"
#include "fem/flow/FemFlowTetrahedron.hpp"
#include "fem/structural/FemConstantStrainTriangle.hpp"
#include "fem/structural/FemConstantStrainTetrahedron.hpp"
using namespace gen;
using namespace mon;
using namespace ENigMA::fem;
using namespace ENigMA::fem::thermal;
using namespace ENigMA::fem::flow;
using namespace ENigMA::fem::structural;
using namespace ENigMA::geometry;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;

enum Kind { BEAM, TRI, QUAD, TET, PRISM, HEXA };
static const char* NAME[] = { "beam", "triangle", "quadrilateral", "tetrahedron", "prism", "hexahedron" };
static const int NN[] = { 2, 3, 4, 4, 6, 8 };

struct Cell {
    Kind k;
    std::vector<V3> v;
    bool affine = true;
    double measure = 0; // exact
};
static double det3(const V3& a, const V3& b, const V3& c) { return a.dot(b.cross(c)); }
// Independent integrals: fine tensor Gauss rule (5 points per direction) on the isoparametric map.
static const double G5[5] = { 0, 0.538469310105683091, -0.538469310105683091, 0.906179845938663993, -0.906179845938663993 };
static const double W5[5] = { 0.568888888888888889, 0.478628670499366468, 0.478628670499366468, 0.236926885056189088, 0.236926885056189088 };
static void hexShape(double x, double y, double z, double* N, V3* D)
{
    static const int S[8][3] = { { -1, -1, -1 }, { 1, -1, -1 }, { -1, 1, -1 }, { 1, 1, -1 }, { -1, -1, 1 }, { 1, -1, 1 }, { -1, 1, 1 }, { 1, 1, 1 } };
    for (int i = 0; i < 8; ++i) {
        double a = 1 + S[i][0] * x, b = 1 + S[i][1] * y, c = 1 + S[i][2] * z;
        N[i] = a * b * c / 8;
        D[i] = V3(S[i][0] * b * c, S[i][1] * a * c, S[i][2] * a * b) * 0.125;
    }
}
static double hexVolume(const std::vector<V3>& v)
{
    double V = 0, N[8];
    V3 D[8];
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 5; ++k) {
        hexShape(G5[i], G5[j], G5[k], N, D);
        V3 a, b, c;
        for (int q = 0; q < 8; ++q) { a = a + v[q] * D[q].x; b = b + v[q] * D[q].y; c = c + v[q] * D[q].z; }
        V += W5[i] * W5[j] * W5[k] * std::fabs(det3(a, b, c));
    }
    return V;
}
static Cell makeCell(Rng& R, Kind k, bool affineOnly = false)
{
    Cell c;
    c.k = k;
    double a = R.uni(0.4, 2), b = R.uni(0.4, 2), h = R.uni(0.4, 2);
    V3 e1(a, 0, 0), e2(b * R.uni(-0.5, 0.5), b, 0), e3(h * R.uni(-0.4, 0.4), h * R.uni(-0.4, 0.4), h), o;
    if (k == BEAM) { c.v = { o, V3(a, 0, 0) }; c.measure = a; }
    if (k == TRI) { c.v = { o, e1, e2 }; c.measure = 0.5 * e1.cross(e2).norm(); }
    if (k == TET) { c.v = { o, e2, e1, e3 }; c.measure = std::fabs(det3(e1, e2, e3)) / 6; }
    if (k == QUAD) {
        c.v = { o, e1, e1 + e2, e2 };
        if (!affineOnly && R.flip(0.6)) { c.affine = false; for (auto& p : c.v) { p.x += R.uni(-0.12, 0.12) * a; p.y += R.uni(-0.12, 0.12) * b; } }
        c.measure = 0.5 * ((c.v[2] - c.v[0]).cross(c.v[3] - c.v[1])).norm();
    }
    if (k == PRISM) { c.v = { o, e1, e2, e3, e1 + e3, e2 + e3 }; c.measure = std::fabs(det3(e1, e2, e3)) / 2; }
    if (k == HEXA) {
        c.v = { o, e1, e2, e1 + e2, e3, e1 + e3, e2 + e3, e1 + e2 + e3 };
        if (!affineOnly && R.flip(0.6)) { c.affine = false; for (auto& p : c.v) p = p + V3(a * R.uni(-0.1, 0.1), b * R.uni(-0.1, 0.1), h * R.uni(-0.1, 0.1)); }
        c.measure = hexVolume(c.v);
    }
    int fr = R.ri(0, 3);
    Rigid g = identity();
    if (fr == 1) { g.t = inBox(R, 5); g.t.z = 0; g.s = std::exp(R.uni(-2, 2)); }
    if (fr == 2) { g = rotation(V3(0, 0, 1), R.uni(0, 6.28)); g.t = V3(R.uni(-5, 5), R.uni(-5, 5), 0); g.s = std::exp(R.uni(-2, 2)); }
    if (fr == 3) g = randomRigid(R, 5, true);
    for (auto& p : c.v) p = g(p);
    int d = k == BEAM ? 1 : k <= QUAD ? 2 : 3;
    c.measure *= std::pow(g.s, d);
    if (k == TRI || k == QUAD) { int r = R.ri(0, (int)c.v.size() - 1); std::rotate(c.v.begin(), c.v.begin() + r, c.v.end()); if (R.flip(0.3)) std::reverse(c.v.begin(), c.v.end()); }
    if (k == TET && R.flip()) std::rotate(c.v.begin(), c.v.begin() + 1, c.v.begin() + 3 - 0), std::rotate(c.v.begin(), c.v.begin() + 1, c.v.begin() + 3);
    sig(k * 10 + fr); sigd(c.v[1].x); sigd(c.measure);
    describe(fmt("%s%s frame %d, measure %g", c.affine ? "affine " : "distorted ", NAME[k], fr, c.measure));
    return c;
}
struct Out { Mat K, M; };
// A beam with a cross section: the profile data are protected members set by derived elements.
template <class B> struct Profiled : B {
    void profile(double area, double perimeter) { this->m_sectionArea = area; this->m_perimeter = perimeter; }
};
template <class E> static void feed(E& e, const std::vector<V3>& v)
{
    for (auto& p : v) { CGeoCoordinate<double> c(p.x, p.y, p.z); e.addVertex(c); }
}
template <class E> static Out finish(E& e, double dt)
{
    e.setTransient(true);
    e.setDt(dt);
    e.update();
    Out a = { e.laplacian, e.ddt };
    e.update();
    expect(a.K == Mat(e.laplacian) && a.M == Mat(e.ddt), "repeat", "a second update() changes the matrices");
    return a;
}
static Out assemble(const Cell& c, double dt, double thick, double area = 1, double coef = 1)
{
    switch (c.k) {
    case BEAM: {
        Profiled<CFemBeam<double, 2, 1, 1>> e;
        CGeoCoordinate<double> p(c.v[0].x, c.v[0].y, c.v[0].z), q(c.v[1].x, c.v[1].y, c.v[1].z);
        e.profile(area, 4 * std::sqrt(area));
        e.setStartPoint(p); e.setEndPoint(q); e.calculateLength();
        e.setDiffusionCoefficient(thick / area); // the beam's analogue of a scaled operator
        Out o = finish(e, dt);
        return o;
    }
    case TRI: { CFemTriangle<double, 3, 1, 1> e; feed(e, c.v); e.setThickness(thick); e.calculateArea(); return finish(e, dt); }
    case QUAD: { CFemQuadrilateral<double, 4, 1, 1> e; feed(e, c.v); e.setThickness(thick); e.calculateArea(); return finish(e, dt); }
    case TET: { CFemTetrahedron<double, 4, 1, 1> e; feed(e, c.v); e.calculateVolume(); return finish(e, dt); }
    case PRISM: { CFemTriangularPrism<double, 6, 1, 1> e; feed(e, c.v); e.calculateVolume(); return finish(e, dt); }
    default: { CFemHexahedron<double, 8, 1, 1> e; feed(e, c.v); e.calculateVolume(); return finish(e, dt); }
    }
}
static V3 tangential(const Cell& c, const V3& g)
{
    if (c.k == BEAM) { V3 t = (c.v[1] - c.v[0]).unit(); return t * g.dot(t); }
    if (c.k == TRI || c.k == QUAD) { V3 n = (c.v[1] - c.v[0]).cross(c.v[2] - c.v[0]).unit(); return g - n * g.dot(n); }
    return g;
}
// Mass matrix of the affine cell as a tensor product of line and triangle mass matrices.
static Mat refMass(const Cell& c)
{
    static const double L[2][2] = { { 1. / 3, 1. / 6 }, { 1. / 6, 1. / 3 } };
    int n = NN[c.k];
    Mat M(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        double m = 0;
        auto T = [&](int a, int b) { return a == b ? 1. / 6 : 1. / 12; };
        if (c.k == BEAM) m = L[i][j];
        if (c.k == TRI) m = T(i, j);
        if (c.k == TET) m = i == j ? 0.1 : 0.05;
        if (c.k == QUAD) { int X[] = { 0, 1, 1, 0 }, Y[] = { 0, 0, 1, 1 }; m = L[X[i]][X[j]] * L[Y[i]][Y[j]]; }
        if (c.k == HEXA) m = L[i & 1][j & 1] * L[(i >> 1) & 1][(j >> 1) & 1] * L[i >> 2][j >> 2];
        if (c.k == PRISM) m = T(i % 3, j % 3) * L[i / 3][j / 3];
        M(i, j) = m * c.measure;
    }
    return M;
}
// Diffusion matrix of affine quadrilaterals and hexahedra from separately derived shape functions and a finer rule.
static Mat refStiff(const Cell& c)
{
    int n = NN[c.k];
    Mat K = Mat::Zero(n, n);
    if (c.k == HEXA) {
        double N[8];
        V3 D[8];
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 5; ++k) {
            hexShape(G5[i], G5[j], G5[k], N, D);
            V3 a, b, d;
            for (int q = 0; q < 8; ++q) { a = a + c.v[q] * D[q].x; b = b + c.v[q] * D[q].y; d = d + c.v[q] * D[q].z; }
            double J = det3(a, b, d);
            V3 g[8];
            for (int q = 0; q < 8; ++q) g[q] = (b.cross(d) * D[q].x + d.cross(a) * D[q].y + a.cross(b) * D[q].z) * (1 / J);
            for (int p = 0; p < 8; ++p) for (int q = 0; q < 8; ++q) K(p, q) += W5[i] * W5[j] * W5[k] * std::fabs(J) * g[p].dot(g[q]);
        }
    } else { // quadrilateral
        static const int S[4][2] = { { -1, -1 }, { 1, -1 }, { 1, 1 }, { -1, 1 } };
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) {
            V3 a, b;
            double dx[4], dy[4];
            for (int q = 0; q < 4; ++q) {
                dx[q] = S[q][0] * (1 + S[q][1] * G5[j]) / 4; dy[q] = S[q][1] * (1 + S[q][0] * G5[i]) / 4;
                a = a + c.v[q] * dx[q]; b = b + c.v[q] * dy[q];
            }
            V3 n3 = a.cross(b);
            double J = n3.norm();
            V3 n = n3 * (1 / J), ga = b.cross(n) * (1 / J), gb = n.cross(a) * (1 / J);
            V3 g[4];
            for (int q = 0; q < 4; ++q) g[q] = ga * dx[q] + gb * dy[q];
            for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) K(p, q) += W5[i] * W5[j] * J * g[p].dot(g[q]);
        }
    }
    return K;
}
static void checkMatrices(Rng& R, Kind k)
{
    Cell c = makeCell(R, k);
    const std::string nm = NAME[k];
    double dt = R.flip() ? 1.0 : std::exp(R.uni(-3, 3)), th = R.flip() ? 1.0 : R.uni(0.1, 4);
    bool hasT = k == BEAM || k == TRI || k == QUAD;
    double area = k == BEAM && R.flip() ? std::exp(R.uni(-3, 3)) : 1.0;
    Out o = assemble(c, dt, hasT ? th : 1.0, area);
    if (!hasT) th = 1;
    int n = NN[k];
    if (!expect(o.K.rows() == n && o.K.cols() == n && o.M.rows() == n && o.M.cols() == n, ("size." + nm).c_str(), "matrix size")) return;
    Mat K = -o.K, M = o.M * dt;
    double ks = K.cwiseAbs().maxCoeff(), ms = M.cwiseAbs().maxCoeff();
    expect(std::isfinite(ks) && std::isfinite(ms), ("finite." + nm).c_str(), "matrices are not finite");
    expect((K - K.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * ks, ("K.symmetric." + nm).c_str(), "diffusion matrix not symmetric | %s", st().desc.c_str());
    expect(K.rowwise().sum().cwiseAbs().maxCoeff() <= 1e-8 * ks, ("K.constant." + nm).c_str(), "a constant field has a flux | %s", st().desc.c_str());
    expect((M - M.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * ms, ("M.symmetric." + nm).c_str(), "mass matrix not symmetric");
    double total = M.sum();
    double thM = (k == BEAM) ? area : th; // the beam scales only diffusion
    if (k != PRISM) expectNear(total, c.measure * thM, 2e-8 * c.measure * thM, ("M.total." + nm).c_str(), "sum of the mass matrix");
    else { // see prismProbe: the rule of the prism scales everything by a constant
        double f = total / c.measure;
        expect(near(f, 0.75, 1e-7) || near(f, 1, 1e-7), "M.total.prism", "sum of the mass matrix is %g volumes", f);
        Vec rs = M.rowwise().sum();
        for (int i = 0; i < 3; ++i) expectNear(rs(i), rs(i + 3), 1e-8 * total, "M.layers.prism", "bottom and top nodes carry the same mass");
        expectNear(rs(1), rs(2), 1e-8 * total, "M.layers.prism", "second and third node carry the same mass");
    }
    // linear fields: energy = |tangential gradient|^2 * measure
    double S = k == PRISM ? total : c.measure * th;
    V3 o0 = c.v[0];
    for (int rep = 0; rep < 3; ++rep) {
        V3 g = inBox(R), gt = tangential(c, g);
        Vec u(n);
        for (int i = 0; i < n; ++i) u(i) = g.dot(c.v[i] - o0);
        expectNear(u.dot(K * u), gt.dot(gt) * S, 1e-7 * (g.dot(g)) * S, ("K.linear." + nm).c_str(), "energy of a linear field");
        if (k != PRISM) {
            // the flux functional of a linear field is its own gradient tested with any linear field
            V3 g2 = inBox(R), gt2 = tangential(c, g2);
            Vec w(n);
            for (int i = 0; i < n; ++i) w(i) = g2.dot(c.v[i] - o0);
            expectNear(w.dot(K * u), gt.dot(gt2) * S, 1e-7 * g.norm() * g2.norm() * S, ("K.pairing." + nm).c_str(), "energy pairing of two linear fields");
        }
        Vec r(n);
        for (int i = 0; i < n; ++i) r(i) = R.uni(-1, 1);
        expect(r.dot(K * r) >= -1e-9 * ks * n, ("K.psd." + nm).c_str(), "negative diffusion energy %g", r.dot(K * r));
        expect(r.dot(M * r) >= -1e-9 * ms * n, ("M.psd." + nm).c_str(), "negative mass");
    }
    if (c.affine && k != PRISM) {
        Mat ref = refMass(c) * thM;
        // for relabelled quadrilaterals the reference is the same: it depends on adjacency only
        expect((M - ref).cwiseAbs().maxCoeff() <= 1e-8 * ms, ("M.reference." + nm).c_str(), "mass matrix differs by %g of %g | %s", (M - ref).cwiseAbs().maxCoeff(), ms, st().desc.c_str());
    }
    if (c.affine && (k == QUAD || k == HEXA)) {
        Mat ref = refStiff(c) * th;
        expect((K - ref).cwiseAbs().maxCoeff() <= 1e-7 * ks, ("K.reference." + nm).c_str(), "diffusion matrix differs by %g of %g | %s", (K - ref).cwiseAbs().maxCoeff(), ks, st().desc.c_str());
    }
    nontrivial();
}
FAMILY(beam, 1500, 60000) { checkMatrices(R, BEAM); }
FAMILY(triangle, 2500, 100000) { checkMatrices(R, TRI); }
FAMILY(quadrilateral, 2500, 100000) { checkMatrices(R, QUAD); }
FAMILY(tetrahedron, 2500, 100000) { checkMatrices(R, TET); }
FAMILY(prism, 1500, 60000) { checkMatrices(R, PRISM); }
FAMILY(hexahedron, 2000, 60000) { checkMatrices(R, HEXA); }

// Known finding probe: unit prism.
FAMILY(prismProbe, 1, 1)
{
    Cell c;
    c.k = PRISM;
    c.v = { V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(1, 0, 1), V3(0, 1, 1) };
    Out o = assemble(c, 1, 1);
    describe("unit prism");
    expectNear(o.M.sum(), 0.5, 1e-8, "probe.prism.volume", "sum of the mass matrix");
    nontrivial();
}

// Sources and convection add what they promise to the right nodes.
template <class E> static void nodeEdge(Rng& R, Kind k, bool edges)
{
    E e;
    int n = NN[k];
    Vec want = Vec::Zero(n);
    double tot = 0;
    describe(std::string("sources of a ") + NAME[k]);
    int ops = R.ri(1, 6);
    for (int i = 0; i < ops; ++i) {
        double v = R.uni(-5, 5);
        int at = R.ri(0, n - 1);
        sig(at * 7 + i); sigd(v);
        if (edges && R.flip()) {
            if constexpr (!std::is_same<E, CFemBeam<double, 2, 1, 1>>::value) e.setSourceOnEdge(at, v);
            want(at) += v / 2; want((at + 1) % n) += v / 2;
        } else if (!edges && k != BEAM && R.flip()) {
            // the numbering of the edges of solids is not specified: the value is shared by two nodes
            Vec before = e.source;
            if constexpr (!std::is_same<E, CFemBeam<double, 2, 1, 1>>::value) e.setSourceOnEdge(at, v);
            Vec d = Vec(e.source) - before;
            int half = 0;
            for (int m = 0; m < n; ++m) half += std::fabs(d(m) - v / 2) < 1e-12;
            expect(half == 2, (std::string("source.edge.") + NAME[k]).c_str(), "%d nodes received half of the value", half);
            want += d;
        } else { e.setSourceOnNode(at, v); want(at) += v; }
        tot += v;
    }
    Vec s = e.source;
    expect(s.size() == n && (s - want).cwiseAbs().maxCoeff() < 1e-12, (std::string("source.") + NAME[k]).c_str(), "source vector differs");
    expectNear(s.sum(), tot, 1e-11, (std::string("source.total.") + NAME[k]).c_str());
    nontrivial();
}
FAMILY(sources, 1500, 60000)
{
    switch (R.ri(0, 5)) {
    case 0: nodeEdge<CFemBeam<double, 2, 1, 1>>(R, BEAM, false); break;
    case 1: nodeEdge<CFemTriangle<double, 3, 1, 1>>(R, TRI, true); break;
    case 2: nodeEdge<CFemQuadrilateral<double, 4, 1, 1>>(R, QUAD, true); break;
    case 3: nodeEdge<CFemTetrahedron<double, 4, 1, 1>>(R, TET, false); break;
    case 4: nodeEdge<CFemTriangularPrism<double, 6, 1, 1>>(R, PRISM, false); break;
    default: nodeEdge<CFemHexahedron<double, 8, 1, 1>>(R, HEXA, false); break;
    }
}
// Convection: a body at the ambient temperature is in equilibrium, the exchange totals h * edge area.
static void convection(const char* nm, const Mat& K0, const Mat& K1, const Vec& s0, const Vec& s1, const std::vector<int>& nodes, double hA, double Tinf)
{
    Mat H = K1 - K0;
    Vec q = s1 - s0;
    int n = (int)H.rows();
    std::string k = nm;
    double tot = std::fabs(hA);
    expect((H - H.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * tot, ("convection.symmetric." + k).c_str(), "exchange matrix not symmetric");
    expectNear(std::fabs(H.sum()), tot, 1e-9 * tot + 1e-12, ("convection.total." + k).c_str(), "total exchange coefficient");
    expectNear(std::fabs(q.sum()), tot * std::fabs(Tinf), 1e-9 * tot * (1 + std::fabs(Tinf)) + 1e-12, ("convection.heat." + k).c_str(), "total ambient heat");
    Vec r = H * Vec::Constant(n, Tinf) - q;
    expect(r.cwiseAbs().maxCoeff() <= 1e-9 * tot * (1 + std::fabs(Tinf)), ("convection.equilibrium." + k).c_str(), "a body at ambient temperature exchanges %g", r.cwiseAbs().maxCoeff());
    for (int i = 0; i < n; ++i)
        if (std::find(nodes.begin(), nodes.end(), i) == nodes.end()) expect(std::fabs(q(i)) < 1e-14 * (1 + tot) && H.row(i).cwiseAbs().maxCoeff() < 1e-12 * (1 + tot), ("convection.local." + k).c_str(), "node %d is not on the edge", i);
}
FAMILY(convection, 1500, 60000)
{
    Kind k = (Kind)R.ri(0, 2);
    Cell c = makeCell(R, k);
    double h = R.uni(0.1, 10), T = R.uni(-3, 3), e = R.uni(0.1, 1), teta = R.uni(0.5, 3) * 1e8, th = R.flip() ? 1.0 : R.uni(0.1, 3);
    bool rad = R.flip(0.4);
    const double sigma = 5.6704E-8;
    double hh = rad ? sigma * e * teta : h;
    describe(fmt("%s %s", rad ? "radiation" : "convection", st().desc.c_str()));
    sig(rad);
    if (k == BEAM) {
        Profiled<CFemLinearTemperatureBeam<double, 2, 1, 1>> b;
        CGeoCoordinate<double> p(c.v[0].x, c.v[0].y, c.v[0].z), q(c.v[1].x, c.v[1].y, c.v[1].z);
        double per = R.uni(0.1, 5);
        b.profile(R.uni(0.1, 3), per);
        expect(b.perimeter() == per, "beam.perimeter", "perimeter %g of %g", b.perimeter(), per);
        b.setStartPoint(p); b.setEndPoint(q); b.calculateLength(); b.update();
        Mat K0 = b.laplacian; Vec s0 = b.source;
        if (rad) b.setConvectionOnEdge(e, teta, T); else b.setConvectionOnEdge(h, T);
        convection("beam", K0, b.laplacian, s0, b.source, { 0, 1 }, hh * c.measure * per, T);
    } else if (k == TRI) {
        CFemLinearTemperatureTriangle<double, 3, 1, 1> b;
        feed(b, c.v); b.setThickness(th); b.calculateArea(); b.update();
        Mat K0 = b.laplacian; Vec s0 = b.source;
        int i = R.ri(0, 2);
        if (rad) b.setConvectionOnEdge(i, e, teta, T); else b.setConvectionOnEdge(i, h, T);
        convection("triangle", K0, b.laplacian, s0, b.source, { i, (i + 1) % 3 }, hh * th * (c.v[(i + 1) % 3] - c.v[i]).norm(), T);
    } else {
        CFemLinearTemperatureQuadrilateral<double, 4, 1, 1> b;
        feed(b, c.v); b.setThickness(th); b.calculateArea(); b.update();
        Mat K0 = b.laplacian; Vec s0 = b.source;
        int i = R.ri(0, 3);
        if (rad) b.setConvectionOnEdge(i, e, teta, T); else b.setConvectionOnEdge(i, h, T);
        convection("quadrilateral", K0, b.laplacian, s0, b.source, { i, (i + 1) % 4 }, hh * th * (c.v[(i + 1) % 4] - c.v[i]).norm(), T);
    }
    nontrivial();
}
// Known finding probe: convection must damp like conduction does.
FAMILY(convectionProbe, 1, 1)
{
    describe("unit elements, h = 1");
    CFemLinearTemperatureTriangle<double, 3, 1, 1> t;
    feed(t, { V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0) });
    t.calculateArea(); t.update();
    Mat K0 = t.laplacian;
    t.setConvectionOnEdge(0, 1.0, 1.0);
    Mat H = t.laplacian - K0;
    expect(H.trace() * K0.trace() > 0, "probe.convection.sign.triangle", "conduction %g, convection %g on the diagonal", K0.trace(), H.trace());
    CFemLinearTemperatureQuadrilateral<double, 4, 1, 1> q;
    feed(q, { V3(0, 0, 0), V3(1, 0, 0), V3(1, 1, 0), V3(0, 1, 0) });
    q.calculateArea(); q.update();
    K0 = q.laplacian;
    q.setConvectionOnEdge(0, 1.0, 1.0);
    H = q.laplacian - K0;
    expect(H.trace() * K0.trace() > 0, "probe.convection.sign.quadrilateral", "conduction %g, convection %g on the diagonal", K0.trace(), H.trace());
    CFemLinearTemperatureBeam<double, 2, 1, 1> b;
    CGeoCoordinate<double> p(0, 0, 0), r(1, 0, 0);
    b.setStartPoint(p); b.setEndPoint(r); b.calculateLength(); b.update();
    K0 = b.laplacian;
    b.setConvectionOnEdge(1.0, 1.0);
    H = b.laplacian - K0;
    expect(H.trace() * K0.trace() > 0, "probe.convection.sign.beam", "conduction %g, convection %g on the diagonal", K0.trace(), H.trace());
    nontrivial();
}
// Beam convection term: Galerkin upwinding-free advection of the coefficient.
FAMILY(beamAdvection, 500, 10000)
{
    Cell c = makeCell(R, BEAM);
    CFemBeam<double, 2, 1, 1> b;
    CGeoCoordinate<double> p(c.v[0].x, c.v[0].y, c.v[0].z), q(c.v[1].x, c.v[1].y, c.v[1].z);
    double a = R.uni(-5, 5), d = R.uni(0.1, 5);
    b.setStartPoint(p); b.setEndPoint(q); b.calculateLength();
    b.setConvectionCoefficient(a); b.setDiffusionCoefficient(d);
    b.update();
    double u0 = R.uni(-1, 1), u1 = R.uni(-1, 1);
    for (int i = 0; i < 2; ++i) expectNear(b.divergence(i, 0) * u0 + b.divergence(i, 1) * u1, a * (u1 - u0) / 2, 1e-12 * (1 + std::fabs(a)), "beam.advection");
    expectNear(b.laplacian(0, 0) * u0 + b.laplacian(0, 1) * u1, d * (u1 - u0) / c.measure, 1e-9 * d / c.measure, "beam.flux", "flux into the first node");
    nontrivial();
}
// Flow elements
static void flowCheck(const char* nm, const Mat& D, const Mat& C, const Mat& Ks, double dt)
{
    Mat want = C - dt * Ks;
    double s = want.cwiseAbs().maxCoeff() + C.cwiseAbs().maxCoeff() + dt * Ks.cwiseAbs().maxCoeff();
    expect(D.rows() == want.rows() && (D - want).cwiseAbs().maxCoeff() <= 1e-9 * s, (std::string("flow.convective.") + nm).c_str(), "convective matrix differs by %g of %g", D.rows() == want.rows() ? (D - want).cwiseAbs().maxCoeff() : -1, s);
}
FAMILY(flowTriangle, 2000, 80000)
{
    Cell c;
    double A = 0;
    while (A < 0.02) {
        c.v = { inBox(R), inBox(R), inBox(R) };
        for (auto& p : c.v) p.z = 0;
        A = 0.5 * (c.v[1] - c.v[0]).cross(c.v[2] - c.v[0]).z;
    }
    CFemFlowTriangle<double, 3, 1, 1> e;
    feed(e, c.v);
    e.calculateArea();
    double dt = std::exp(R.uni(-5, 0));
    e.setDt(dt);
    double u[3], v[3];
    for (int i = 0; i < 3; ++i) { u[i] = R.uni(-2, 2); v[i] = R.uni(-2, 2); sigd(u[i]); }
    describe("flow triangle");
    e.calculateTransientTerm();
    e.calculateDiffusiveTerm();
    e.calculateConvectiveTerm(u, v);
    Mat D = e.divergence;
    // gradients of the shape functions
    V3 g[3];
    for (int i = 0; i < 3; ++i) { V3 d = c.v[(i + 2) % 3] - c.v[(i + 1) % 3]; g[i] = V3(-d.y, d.x, 0) * (1 / (2 * A)); }
    double um = (u[0] + u[1] + u[2]) / 3, vm = (v[0] + v[1] + v[2]) / 3;
    Mat C(3, 3), Ks(3, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        // integral of N_i (u . grad N_j), u linear
        double ui = 0, vi = 0;
        for (int k = 0; k < 3; ++k) { double m = A * (i == k ? 1. / 6 : 1. / 12); ui += m * u[k]; vi += m * v[k]; }
        C(i, j) = ui * g[j].x + vi * g[j].y;
        Ks(i, j) = A * 0.5 * (um * g[i].x + vm * g[i].y) * (um * g[j].x + vm * g[j].y);
    }
    // the characteristic term carries the weight the element documents by construction (dt times a symmetric streamline diffusion)
    Mat S = (C - D) / dt;
    expect((S - S.transpose()).cwiseAbs().maxCoeff() <= 1e-8 * (S.cwiseAbs().maxCoeff() + C.cwiseAbs().maxCoeff() / dt * 1e-6), "flow.streamline.symmetric.triangle", "streamline term is not symmetric");
    flowCheck("triangle", D, C, Ks * 2, dt);
    V3 gr = inBox(R);
    for (int comp = 0; comp < 2; ++comp) {
        e.calculateGradientTerm(comp);
        Vec p(3);
        for (int i = 0; i < 3; ++i) p(i) = gr.dot(c.v[i]) + 0.7;
        Vec r = e.gradient * p;
        for (int i = 0; i < 3; ++i) expectNear(r(i), (comp ? gr.y : gr.x) * A / 3, 1e-11, "flow.gradient.triangle", "integral of N_i dp/dx");
    }
    expectNear(e.ddt.sum(), A / dt, 1e-9 * A / dt, "flow.mass.triangle");
    Vec lin(3);
    for (int i = 0; i < 3; ++i) lin(i) = gr.dot(c.v[i]);
    expectNear(-lin.dot(e.laplacian * lin), (gr.x * gr.x + gr.y * gr.y) * A, 1e-8 * A, "flow.diffusion.triangle");
    nontrivial();
}
FAMILY(flowTetrahedron, 2000, 80000)
{
    Cell c;
    double V = 0;
    while (V < 0.02) {
        c.v = { inBox(R), inBox(R), inBox(R), inBox(R) };
        V = -det3(c.v[1] - c.v[0], c.v[2] - c.v[0], c.v[3] - c.v[0]) / 6; // positive orientation of the library
    }
    CFemFlowTetrahedron<double, 4, 1, 1> e;
    feed(e, c.v);
    e.calculateVolume();
    double dt = std::exp(R.uni(-5, 0));
    e.setDt(dt);
    double u[4], v[4], w[4];
    for (int i = 0; i < 4; ++i) { u[i] = R.uni(-2, 2); v[i] = R.uni(-2, 2); w[i] = R.uni(-2, 2); sigd(u[i]); }
    describe("flow tetrahedron");
    e.calculateTransientTerm();
    e.calculateDiffusiveTerm();
    e.calculateConvectiveTerm(u, v, w);
    Mat D = e.divergence;
    V3 g[4];
    for (int i = 0; i < 4; ++i) {
        const V3 &a = c.v[(i + 1) % 4], &b = c.v[(i + 2) % 4], &d = c.v[(i + 3) % 4];
        V3 n = (b - a).cross(d - a);
        g[i] = n * (1 / n.dot(c.v[i] - a));
    }
    V3 m;
    for (int k = 0; k < 4; ++k) m = m + V3(u[k], v[k], w[k]) * 0.25;
    Mat C(4, 4), Ks(4, 4);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        V3 s;
        for (int k = 0; k < 4; ++k) s = s + V3(u[k], v[k], w[k]) * (V * (i == k ? 0.1 : 0.05));
        C(i, j) = s.dot(g[j]);
        Ks(i, j) = V * m.dot(g[i]) * m.dot(g[j]);
    }
    flowCheck("tetrahedron", D, C, Ks, dt);
    V3 gr = inBox(R);
    for (int comp = 0; comp < 3; ++comp) {
        e.calculateGradientTerm(comp);
        Vec p(4);
        for (int i = 0; i < 4; ++i) p(i) = gr.dot(c.v[i]) + 0.7;
        Vec r = e.gradient * p;
        double gc = comp == 0 ? gr.x : comp == 1 ? gr.y : gr.z;
        for (int i = 0; i < 4; ++i) expectNear(r(i), gc * V / 4, 1e-11, "flow.gradient.tetrahedron", "integral of N_i dp/dx");
    }
    expectNear(e.ddt.sum(), V / dt, 1e-9 * V / dt, "flow.mass.tetrahedron");
    nontrivial();
}
// Elasticity: symmetric, rigid motions cost nothing, constant strain costs eps.D.eps * measure.
template <class M> static void elastic(Rng& R, const char* nm, const M& Kf, const std::vector<V3>& v, int dim, double E, double nu, double vol)
{
    Mat K = Kf;
    int n = (int)v.size() * dim;
    std::string k = nm;
    if (!expect(K.rows() == n && K.cols() == n, ("elastic.size." + k).c_str(), "size %d", (int)K.rows())) return;
    double ks = K.cwiseAbs().maxCoeff();
    expect((K - K.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * ks, ("elastic.symmetric." + k).c_str(), "stiffness not symmetric by %g of %g", (K - K.transpose()).cwiseAbs().maxCoeff(), ks);
    double H[3][3];
    auto field = [&](const V3& t) {
        Vec u(n);
        for (size_t i = 0; i < v.size(); ++i) {
            double x[3] = { v[i].x, v[i].y, v[i].z }, tt[3] = { t.x, t.y, t.z };
            for (int a = 0; a < dim; ++a) { double s = tt[a]; for (int b = 0; b < dim; ++b) s += H[a][b] * x[b]; u(i * dim + a) = s; }
        }
        return u;
    };
    // rigid motion
    V3 w = inBox(R);
    double W[3][3] = { { 0, -w.z, w.y }, { w.z, 0, -w.x }, { -w.y, w.x, 0 } };
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H[a][b] = W[a][b];
    Vec r = field(inBox(R));
    expect((K * r).cwiseAbs().maxCoeff() <= 1e-8 * ks, ("elastic.rigid." + k).c_str(), "a rigid motion causes a force %g of %g", (K * r).cwiseAbs().maxCoeff(), ks);
    // constant strain
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H[a][b] = R.uni(-1, 1);
    Vec u = field(inBox(R));
    double en = 0;
    if (dim == 2) {
        double x = H[0][0], y = H[1][1], g = H[0][1] + H[1][0];
        en = E / (1 - nu * nu) * (x * x + y * y + 2 * nu * x * y + (1 - nu) / 2 * g * g);
    } else {
        double tr = H[0][0] + H[1][1] + H[2][2], lam = E * nu / ((1 + nu) * (1 - 2 * nu)), mu = E / (2 * (1 + nu)), ss = 0;
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double e = (H[a][b] + H[b][a]) / 2; ss += e * e; }
        en = lam * tr * tr + 2 * mu * ss;
    }
    expectNear(u.dot(K * u), en * vol, 1e-8 * ks * n, ("elastic.strain." + k).c_str(), "energy of a constant strain");
    nontrivial();
}
FAMILY(elasticity, 2000, 80000)
{
    double E = std::exp(R.uni(-2, 5)), nu = R.uni(0, 0.45);
    if (R.flip()) {
        std::vector<V3> v;
        double A = 0;
        while (std::fabs(A) < 0.02) { v = { inBox(R), inBox(R), inBox(R) }; for (auto& p : v) p.z = 0; A = 0.5 * (v[1] - v[0]).cross(v[2] - v[0]).z; }
        CFemConstantStrainTriangle<double, 3, 2, 1> e;
        feed(e, v);
        double th = R.uni(0.2, 3);
        e.setThickness(th); e.setElasticModulus(E); e.setCoeffPoisson(nu);
        e.calculateArea();
        e.update();
        describe("constant strain triangle"); sigd(A);
        expect(e.source.size() == 6, "elastic.source.triangle", "source of size %d for six unknowns", (int)e.source.size());
        elastic(R, "triangle", e.laplacian, v, 2, E, nu, std::fabs(A) * th);
    } else {
        std::vector<V3> v;
        double V = 0;
        while (std::fabs(V) < 0.02) { v = { inBox(R), inBox(R), inBox(R), inBox(R) }; V = det3(v[1] - v[0], v[2] - v[0], v[3] - v[0]) / 6; if (V > 0) V = 0; }
        CFemConstantStrainTetrahedron<double, 4, 3, 1> e;
        feed(e, v);
        e.setElasticModulus(E); e.setCoeffPoisson(nu);
        e.calculateVolume();
        e.update();
        describe("constant strain tetrahedron"); sigd(V);
        expect(e.source.size() == 12, "elastic.source.tetrahedron", "source of size %d", (int)e.source.size());
        elastic(R, "tetrahedron", e.laplacian, v, 3, E, nu, std::fabs(V));
    }
}
