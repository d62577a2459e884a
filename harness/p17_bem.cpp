// P17: boundary element coefficients against exact potentials.
#include "meshes.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "CmnTypes.hpp"
#include "BemTriangle.hpp"
#include "PdeEquation.hpp"
#include "PdeField.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::bem;
using namespace ENigMA::mesh;
using namespace ENigMA::pde;
using namespace ENigMA::geometry;
using namespace ENigMA::sle;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
static const double PI = 3.14159265358979323846;
struct T3 { V3 a, b, c; V3 cen() const { return (a + b + c) * (1. / 3); } V3 area() const { return (b - a).cross(c - a) * 0.5; } double size() const { return std::max({ (b - a).norm(), (c - b).norm(), (a - c).norm() }); } };
static CBemTriangle<D> mk(const T3& t)
{
    CBemTriangle<D> r;
    CGeoCoordinate<D> a(t.a.x, t.a.y, t.a.z), b(t.b.x, t.b.y, t.b.z), c(t.c.x, t.c.y, t.c.z);
    r.addVertex(a); r.addVertex(b); r.addVertex(c);
    return r;
}
// Signed solid angle of the triangle seen from o: integral of (x-o).n / |x-o|^3.
static double solidAngle(const T3& t, const V3& o)
{
    V3 a = t.a - o, b = t.b - o, c = t.c - o;
    double A = a.norm(), B = b.norm(), C = c.norm();
    return 2 * std::atan2(a.dot(b.cross(c)), A * B * C + a.dot(b) * C + b.dot(c) * A + c.dot(a) * B);
}
// Exact integral of 1/r over a flat triangle (Wilton et al.).
static double invR(const T3& t, const V3& o)
{
    V3 n = t.area().unit(), v[3] = { t.a, t.b, t.c };
    double d = (o - t.a).dot(n), s = 0;
    V3 p = o - n * d;
    for (int i = 0; i < 3; ++i) {
        V3 e = (v[(i + 1) % 3] - v[i]).unit(), m = e.cross(n); // outward in-plane normal
        double P = (v[i] - p).dot(m), lm = (v[i] - p).dot(e), lp = (v[(i + 1) % 3] - p).dot(e);
        double Rm = (v[i] - o).norm(), Rp = (v[(i + 1) % 3] - o).norm(), R02 = P * P + d * d;
        if (R02 > 1e-28) s += P * std::log((Rp + lp) / (Rm + lm));
        if (std::fabs(d) > 1e-14 && R02 > 1e-28) s -= std::fabs(d) * (std::atan2(P * lp, R02 + std::fabs(d) * Rp) - std::atan2(P * lm, R02 + std::fabs(d) * Rm));
    }
    return s;
}
static T3 goodTriangle(Rng& R)
{
    for (;;) {
        T3 t = { inBox(R), inBox(R), inBox(R) };
        if (t.area().norm() > 0.2 * t.size() * t.size() * 0.5 && t.size() > 0.2) return t;
    }
}
FAMILY(pair, 6000, 200000)
{
    T3 t = goodTriangle(R), q = goodTriangle(R);
    double far = R.flip(0.3) ? R.uni(0.7, 2) : R.uni(2, 30);
    V3 dir = unitVec(R);
    V3 want = q.cen() + dir * (far * q.size());
    V3 sh = want - t.cen();
    t.a = t.a + sh; t.b = t.b + sh; t.c = t.c + sh;
    Rigid g = randomRigid(R, 5, true);
    for (V3* p : { &t.a, &t.b, &t.c, &q.a, &q.b, &q.c }) *p = g(*p);
    CBemTriangle<D> x = mk(t), y = mk(q);
    int i = R.ri(0, 100), j = i + 1 + R.ri(0, 100);
    double h = 7, gg = 7;
    x.laplacianCoeff(i, j, y, h, gg);
    describe(fmt("distance %.3g sizes", far));
    sigd(h); sigd(gg);
    double om = -solidAngle(q, t.cen()) / (4 * PI), ir = invR(q, t.cen()) / (4 * PI);
    // smooth integrands: the 20 point rule converges quickly with distance
    double rel = far > 4 ? 1e-6 : far > 2 ? 2e-5 : far > 1.2 ? 2e-3 : 3e-2;
    double scale = q.area().norm() / std::pow(far * q.size(), 2) / (4 * PI);
    expectNear(h, om, rel * scale + 1e-13, "double-layer", "h against the exact solid angle");
    expectNear(gg, ir, rel * ir, "single-layer", "g against the exact potential");
    // orientation, vertex order, labels
    T3 f = { q.b, q.a, q.c }, s = { q.b, q.c, q.a };
    CBemTriangle<D> yf = mk(f), ys = mk(s), x2 = mk(t);
    double h2, g2;
    x2.laplacianCoeff(3, 9, yf, h2, g2);
    expectNear(h2, -h, rel * scale * 2 + 1e-13, "orientation.h", "reversed triangle");
    expectNear(g2, gg, 2 * rel * gg, "orientation.g", "reversed triangle");
    x2.laplacianCoeff(9, 3, ys, h2, g2);
    expectNear(h2, h, rel * scale * 2 + 1e-13, "start.h", "rotated vertices");
    expectNear(g2, gg, 2 * rel * gg, "start.g", "rotated vertices");
    // the same triangle objects asked again
    x.laplacianCoeff(i, j, y, h2, g2);
    expect(h2 == h && g2 == gg, "again", "second evaluation differs");
    nontrivial();
}
FAMILY(self, 4000, 150000)
{
    T3 t = goodTriangle(R);
    Rigid g = randomRigid(R, 5, true);
    t.a = g(t.a); t.b = g(t.b); t.c = g(t.c);
    CBemTriangle<D> x = mk(t), y = mk(t);
    double h = 7, gg = 7;
    int i = R.ri(0, 50);
    x.laplacianCoeff(i, i, y, h, gg);
    double want = invR(t, t.cen()) / (4 * PI);
    describe("self");
    sigd(gg);
    expectNear(h, 0, 1e-14, "self.h", "flat triangle sees itself under no angle");
    expectNear(gg, want, 1e-9 * want, "self.g", "potential of the triangle at its own centroid");
    nontrivial();
}
// Closed triangulated surfaces with outward normals.
static std::vector<T3> surface(Rng& R, std::string& nm, bool& box)
{
    std::vector<T3> s;
    box = R.flip();
    if (box) {
        int n = R.ri(2, 4);
        V3 e(R.uni(0.85, 1.2), R.uni(0.85, 1.2), R.uni(0.85, 1.2));
        for (int f = 0; f < 6; ++f) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            auto P = [&](int a, int b) {
                double u = double(i + a) / n, v = double(j + b) / n;
                double c[3] = { 0, 0, 0 };
                int ax = f / 2;
                c[ax] = f % 2; c[(ax + 1) % 3] = u; c[(ax + 2) % 3] = v;
                return V3(c[0] * e.x, c[1] * e.y, c[2] * e.z);
            };
            V3 a = P(0, 0), b = P(1, 0), c = P(1, 1), d = P(0, 1);
            if (f % 2 == 0) std::swap(b, d);
            s.push_back({ a, b, c });
            s.push_back({ a, c, d });
        }
        nm = fmt("box %d", n);
        return s;
    }
    double p = (1 + std::sqrt(5.)) / 2;
    std::vector<V3> v;
    for (int a : { -1, 1 }) for (int b : { -1, 1 }) { v.push_back(V3(0, a, b * p)); v.push_back(V3(a, b * p, 0)); v.push_back(V3(b * p, 0, a)); }
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) for (size_t k = j + 1; k < v.size(); ++k)
        if (std::fabs((v[i] - v[j]).norm() - 2) < 1e-6 && std::fabs((v[j] - v[k]).norm() - 2) < 1e-6 && std::fabs((v[i] - v[k]).norm() - 2) < 1e-6) {
            T3 t = { v[i], v[j], v[k] };
            if (t.area().dot(t.cen()) < 0) std::swap(t.b, t.c);
            s.push_back(t);
        }
    int lev = R.ri(0, 1);
    for (int l = 0; l < lev; ++l) {
        std::vector<T3> n;
        for (auto& t : s) {
            V3 ab = ((t.a + t.b) * 0.5).unit() * v[0].norm(), bc = ((t.b + t.c) * 0.5).unit() * v[0].norm(), ca = ((t.c + t.a) * 0.5).unit() * v[0].norm();
            n.push_back({ t.a, ab, ca }); n.push_back({ ab, t.b, bc }); n.push_back({ ca, bc, t.c }); n.push_back({ ab, bc, ca });
        }
        s = n;
    }
    V3 e(R.uni(0.85, 1.2), R.uni(0.85, 1.2), R.uni(0.85, 1.2));
    for (auto& t : s) for (V3* q : { &t.a, &t.b, &t.c }) *q = V3(q->x * e.x, q->y * e.y, q->z * e.z);
    nm = fmt("sphere %d", lev);
    return s;
}
FAMILY_CPU(assembled, 90, 2500, 60)
{
    std::string nm;
    bool box;
    std::vector<T3> s = surface(R, nm, box);
    Rigid g = randomRigid(R, 3);
    g.s = std::exp(R.uni(-1, 1));
    bool inward = R.flip(0.7);
    for (auto& t : s) { t = { g(t.a), g(t.b), g(t.c) }; if (inward) std::swap(t.b, t.c); }
    R.shuffle(s);
    int n = s.size();
    Mesh m;
    int spread = R.ri(1, 4);
    std::vector<int> ids(n * spread);
    std::iota(ids.begin(), ids.end(), 0);
    if (R.flip(0.7)) R.shuffle(ids);
    bool own = R.flip();
    std::map<std::array<long, 3>, int> at;
    int nid = R.ri(0, 7);
    for (int i = 0; i < n; ++i) {
        CMshElement<D> e(ET_TRIANGLE);
        for (V3* p : { &s[i].a, &s[i].b, &s[i].c }) {
            std::array<long, 3> k = { { std::lround(p->x * 1e7), std::lround(p->y * 1e7), std::lround(p->z * 1e7) } };
            if (own || !at.count(k)) { at[k] = nid; m.addNode(nid, as<CMshNode<D>>(*p)); nid += R.ri(1, 3); }
            e.addNodeId(at[k]);
        }
        m.addElement(ids[i], e);
    }
    CPdeField<D> T;
    T.setMesh(m);
    T.setDiscretMethod(DM_BEM);
    T.setDiscretOrder(DO_LINEAR);
    T.setDiscretLocation(DL_ELEMENT_CENTER);
    T.setSimulationType(ST_THERMAL);
    T.setNbDofs(1);
    T.init();
    T.u.setZero();
    describe(fmt("%s %d elements %s %s", nm.c_str(), n, inward ? "inward" : "outward", spread > 1 ? "sparse ids" : "dense ids"));
    sig(hashStr(nm)); sigd(g.s);
    Mat H = laplacian<D>(T).matrixA;
    if (!expect(H.rows() == n && H.allFinite(), "assembled.shape", "shape")) return;
    // constants: the double layer sums to the solid angle of a smooth point
    double sgn = inward ? 1 : -1, worst = 0;
    for (int i = 0; i < n; ++i) worst = std::max(worst, std::fabs((H.row(i).sum() + 0.5) - 0.5 * sgn));
    expect(worst <= 1e-2, "assembled.solid-angle", "a row of the double layer is off by %g | %s", worst, st().desc.c_str());
    // entries against the exact solid angles
    double we = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        double want = i == j ? -0.5 : -solidAngle(s[j], s[i].cen()) / (4 * PI);
        we = std::max(we, std::fabs(H(i, j) - want));
    }
    expect(we <= 1e-2, "assembled.entries", "entry of the double layer off by %g | %s", we, st().desc.c_str());
    // fixed values enter through the single layer
    Vec cst = Vec::Ones(n);
    double c0 = R.uni(-3, 3);
    std::vector<bool> fx(n);
    for (int i = 0; i < n; ++i) { fx[i] = R.flip(0.7); if (fx[i]) T.setFixedValue(i, c0 + (fx[i] ? R.uni(-1, 1) : 0)); }
    CSleSystem<D> A = laplacian<D>(T);
    Mat AM = A.matrixA;
    double wg = 0, gm = 0, wb = 0;
    Mat G = Mat::Zero(n, n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
        double got = -(AM(i, j) - H(i, j)) * s[j].area().norm();
        double want = fx[j] ? invR(s[j], s[i].cen()) / (4 * PI) : 0;
        G(i, j) = want;
        wg = std::max(wg, std::fabs(got - want)); gm = std::max(gm, want);
    }
    expect(wg <= 1e-2 * gm + 1e-12, "assembled.single-layer", "entry of the single layer off by %g of %g | %s", wg, gm, st().desc.c_str());
    Vec wantB = Vec::Zero(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (fx[j]) wantB(i) += (AM(i, j) - H(i, j)) * T.uFixed[j];
    for (int i = 0; i < n; ++i) wb = std::max(wb, std::fabs(A.vectorB(i) - wantB(i)));
    expect(wb <= 1e-10 * (1 + wantB.cwiseAbs().maxCoeff()), "assembled.rhs", "right hand side off by %g", wb);
    // same value fixed everywhere: that is the solution
    if (inward) {
        for (int i = 0; i < n; ++i) T.uFixed[i] = c0;
        CSleSystem<D> F = laplacian<D>(T);
        double res = (F.matrixA * (cst * c0) - F.vectorB).cwiseAbs().maxCoeff();
        expect(res <= 1e-2 * (1 + std::fabs(c0)), "assembled.equilibrium", "uniform boundary leaves residual %g", res);
        // discretised Green identity for a harmonic field: H u = G du/dn_inward
        V3 src = s[0].cen() + unitVec(R) * 0, cen;
        for (auto& t : s) cen = cen + t.cen() * (1.0 / n);
        src = cen + unitVec(R) * (6 * g.s);
        Vec u(n), q(n);
        Mat FM = F.matrixA;
        for (int i = 0; i < n; ++i) {
            V3 r = s[i].cen() - src;
            u(i) = g.s / r.norm();
            q(i) = (r * (-g.s / std::pow(r.norm(), 3))).dot(s[i].area().unit());
        }
        Vec left = H * u, right = Vec::Zero(n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) right(i) -= (FM(i, j) - H(i, j)) * s[j].area().norm() * q(j);
        double var = (u.array() - u.mean()).abs().maxCoeff();
        expect((left - right).cwiseAbs().maxCoeff() <= 0.25 * var, "assembled.green", "Green identity off by %g of %g | %s", (left - right).cwiseAbs().maxCoeff(), var, st().desc.c_str());
        count("green.permille", (long long)(1000 * (left - right).cwiseAbs().maxCoeff() / var));
        CPdeEquation<D> eq(F = 0);
        eq.solve(T);
        if (expect(T.u.size() == n && T.u.allFinite(), "assembled.solve", "no finite solution")) expect((T.u - cst * c0).cwiseAbs().maxCoeff() <= 0.02 * (1 + std::fabs(c0)), "assembled.solution", "uniform boundary gives a field off by %g", (T.u - cst * c0).cwiseAbs().maxCoeff());
    }
    nontrivial();
}
