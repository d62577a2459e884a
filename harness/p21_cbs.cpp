// P21: the finite element CBS flow solver (2-D triangles, 3-D tetrahedra), step by step.
#include "meshes.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "CmnTypes.hpp"
#include "MshBasicMesher.hpp"
#include "PdeEquation.hpp"
#include "PdeField.hpp"
#include "FemCbsSolver.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::pde;
using namespace ENigMA::fem;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef CPdeField<D> Field;
struct Solver { // one face for both dimensions
    int dim;
    std::unique_ptr<CFemCbsSolver<D, 2>> a;
    std::unique_ptr<CFemCbsSolver<D, 3>> b;
    Solver(int d, Mesh& m) : dim(d) { if (d == 2) a.reset(new CFemCbsSolver<D, 2>(m)); else b.reset(new CFemCbsSolver<D, 3>(m)); }
    Field& vel(int c) { if (dim == 2) return c ? a->v() : a->u(); return c == 0 ? b->u() : c == 1 ? b->v() : b->w(); }
    Field& p() { return dim == 2 ? a->p() : b->p(); }
    void gravity(const V3& g) { if (dim == 2) a->setGravity(g.x, g.y); else b->setGravity(g.x, g.y, g.z); }
    void material(double r, double m) { if (dim == 2) a->setMaterialProperties(r, m); else b->setMaterialProperties(r, m); }
    void iterate(double dt) { if (dim == 2) a->iterate(dt); else b->iterate(dt); }
};
static double comp(const V3& v, int c) { return c == 0 ? v.x : c == 1 ? v.y : v.z; }
struct Problem { // in terms of node identifiers
    int dim;
    Raw r;
    double rho, mu, U, h;
    V3 grav;
    std::vector<double> dts;
    std::map<int, V3> u0, wall; // wall: all components fixed
    std::map<int, int> slip; // one component fixed to zero
    std::map<int, double> p0, pfix;
};
static std::set<int> skin(const Raw& r)
{
    std::map<std::vector<int>, int> c;
    for (auto& e : r.els) for (auto f : facesOf(e.type, e.n)) { std::sort(f.begin(), f.end()); ++c[f]; }
    std::set<int> b;
    for (auto& x : c) if (x.second == 1) for (int n : x.first) b.insert(n);
    return b;
}
static Problem problem(Rng& R, int dim, bool still = false)
{
    Problem q;
    q.dim = dim;
    int nx = dim == 2 ? R.ri(1, 7) : R.ri(1, 3), ny = dim == 2 ? R.ri(1, 7) : R.ri(1, 3), nz = R.ri(1, 3);
    q.r = grid(dim == 2 ? ET_TRIANGLE : ET_TETRAHEDRON, nx, ny, nz);
    double h = 1.0 / std::max({ nx, ny, dim == 2 ? 1 : nz });
    if (R.flip(0.6)) distort(R, q.r, 0.2 * h);
    double s = R.flip(0.5) ? 1 : std::exp(R.uni(-2, 2));
    for (auto& n : q.r.nodes) n.second = n.second * s;
    q.h = h * s;
    q.U = R.flip(0.5) ? 1 : std::exp(R.uni(-2, 2));
    q.rho = R.flip(0.4) ? 1 : std::exp(R.uni(-2, 7));
    double Re = std::exp(R.uni(-2, 4)); // cell Reynolds number
    q.mu = q.rho * q.U * q.h / Re;
    double dt = R.uni(0.02, 0.3) * q.h / q.U;
    bool vary = R.flip(0.4);
    int steps = R.ri(1, 6);
    for (int i = 0; i < steps; ++i) q.dts.push_back(dt * (vary ? R.uni(0.3, 1) : 1));
    V3 gd = unitVec(R);
    if (dim == 2) gd.z = 0;
    if (!still && R.flip(0.6)) q.grav = gd * (q.U * q.U / q.h * R.uni(0.05, 1));
    auto bnd = skin(q.r);
    bool all = R.flip(0.5);
    double amp = still ? 0 : R.flip(0.4) ? 0 : q.U;
    for (auto& n : q.r.nodes) {
        V3 v = inBox(R, 1) * amp;
        if (dim == 2) v.z = 0;
        q.u0[n.first] = v;
        q.p0[n.first] = still ? 0 : R.uni(-1, 1) * q.rho * q.U * q.U;
    }
    V3 lid = inBox(R, 1) * (still ? 0 : q.U);
    if (dim == 2) lid.z = 0;
    for (int id : bnd) {
        double y = q.r.nodes[id].y;
        if (y > s * (1 - 1e-9)) q.wall[id] = lid;
        else if (all || R.flip(0.6)) q.wall[id] = V3();
        else if (R.flip(0.5)) q.slip[id] = R.ri(0, dim - 1);
    }
    std::vector<int> ids(bnd.begin(), bnd.end());
    int np = R.flip(0.5) ? 1 : R.ri(1, (int)ids.size());
    double pv = still ? 0 : R.uni(-1, 1) * q.rho * q.U * q.U;
    for (int i = 0; i < np; ++i) q.pfix[R.pick(ids)] = pv;
    sig(dim * 1000 + nx * 100 + ny * 10 + nz); sigd(q.mu); sigd(dt);
    return q;
}
static std::string text(const Problem& q)
{
    return fmt("%dD, %d elements, rho %g, mu %g, U %g, h %g, dt %g, gravity (%g,%g,%g), %d walls, %d pressures", q.dim, (int)q.r.els.size(), q.rho, q.mu, q.U, q.h, q.dts[0], q.grav.x, q.grav.y, q.grav.z, (int)q.wall.size(), (int)q.pfix.size());
}
struct Run { // the real solver and, for the oracle, the meaning of its indices
    Problem q;
    Mesh m;
    std::unique_ptr<Solver> s;
    std::vector<int> id; // by index
    std::map<int, int> ix;
    explicit Run(const Problem& p, bool set = true) : q(p)
    {
        fill(m, q.r);
        s.reset(new Solver(q.dim, m));
        for (int i = 0; i < m.nbNodes(); ++i) { id.push_back(m.nodeId(i)); ix[m.nodeId(i)] = i; }
        s->material(q.rho, q.mu);
        if (q.grav.norm() > 0 || set) s->gravity(q.grav);
        for (auto& w : q.wall) for (int c = 0; c < q.dim; ++c) s->vel(c).setFixedValue(ix[w.first], comp(w.second, c));
        for (auto& w : q.slip) s->vel(w.second).setFixedValue(ix[w.first], 0.0);
        for (auto& w : q.pfix) s->p().setFixedValue(ix[w.first], w.second);
        if (set) for (size_t i = 0; i < id.size(); ++i) {
            for (int c = 0; c < q.dim; ++c) s->vel(c).setValue(i, comp(q.u0[id[i]], c));
            s->p().setValue(i, q.p0[id[i]]);
        }
    }
    void disturb(Rng& R) // what a user may change between two steps
    {
        int what = R.ri(0, 3);
        if (what == 0) { q.grav = R.flip(0.3) ? V3() : V3(R.uni(-1, 1), R.flip() ? R.uni(-1, 1) : 0, q.dim == 3 && R.flip() ? R.uni(-1, 1) : 0) * (q.U * q.U / q.h); s->gravity(q.grav); count("gravity changed"); }
        if (what == 1) { q.rho *= R.uni(0.7, 1.4); q.mu *= R.uni(1, 1.4); s->material(q.rho, q.mu); count("material changed"); }
        if (what == 2) {
            for (auto& w : q.wall) { w.second = w.second * R.uni(-1, 1); for (int c = 0; c < q.dim; ++c) s->vel(c).setFixedValue(ix[w.first], comp(w.second, c)); }
            count("walls changed");
        }
        if (what == 3) { for (auto& w : q.pfix) { w.second += R.uni(-1, 1) * q.rho * q.U * q.U; s->p().setFixedValue(ix[w.first], w.second); } count("pressures changed"); }
    }
    std::vector<Vec> state() { std::vector<Vec> x; for (int c = 0; c < q.dim; ++c) x.push_back(s->vel(c).u); x.push_back(s->p().u); return x; }
};
// Element gradients and measure from the node positions alone.
struct Geo { std::vector<int> n; std::vector<V3> g; double A; };
static std::vector<Geo> geometry(Run& R)
{
    std::vector<Geo> out;
    for (auto& e : R.q.r.els) {
        Geo k;
        std::vector<V3> p;
        for (int n : e.n) { k.n.push_back(R.ix[n]); p.push_back(R.q.r.nodes[n]); }
        int d = R.q.dim;
        Mat X(d + 1, d + 1);
        for (int i = 0; i <= d; ++i) { X(i, 0) = 1; for (int c = 0; c < d; ++c) X(i, c + 1) = comp(p[i], c); }
        Mat I = X.inverse(); // columns: coefficients of the linear shape functions
        for (int i = 0; i <= d; ++i) k.g.push_back(V3(I(1, i), I(2, i), d == 3 ? I(3, i) : 0));
        k.A = std::fabs(X.determinant()) / (d == 2 ? 2 : 6);
        out.push_back(k);
    }
    return out;
}
static Vec solveFixed(const Mat& A, const Vec& b, const std::map<int, double>& fix)
{
    Mat B = A;
    Vec c = b;
    for (auto& f : fix) { B.row(f.first).setZero(); B(f.first, f.first) = 1; c(f.first) = f.second; }
    return B.partialPivLu().solve(c);
}
static bool step(Run& X, const std::vector<Geo>& geo, double dt)
{
    Problem& q = X.q;
    int d = q.dim, n = X.id.size();
    std::vector<Vec> o = X.state();
    Mat M = Mat::Zero(n, n), K = M, C = M;
    std::vector<Mat> G(d, M);
    for (auto& e : geo) {
        V3 us, ua;
        std::vector<V3> u;
        for (int i : e.n) { V3 v(o[0](i), o[1](i), d == 3 ? o[2](i) : 0); u.push_back(v); us = us + v; }
        ua = us * (1.0 / (d + 1));
        for (int i = 0; i <= d; ++i) for (int j = 0; j <= d; ++j) {
            M(e.n[i], e.n[j]) += e.A * (i == j ? 2.0 : 1.0) / ((d + 1) * (d + 2));
            K(e.n[i], e.n[j]) += e.A * e.g[i].dot(e.g[j]);
            C(e.n[i], e.n[j]) += e.A / ((d + 1) * (d + 2)) * (us + u[i]).dot(e.g[j]) - dt * e.A * ua.dot(e.g[i]) * ua.dot(e.g[j]);
            for (int c = 0; c < d; ++c) G[c](e.n[i], e.n[j]) += e.A / (d + 1) * comp(e.g[j], c);
        }
    }
    std::vector<std::map<int, double>> fix(d + 1);
    for (auto& w : q.wall) for (int c = 0; c < d; ++c) fix[c][X.ix[w.first]] = comp(w.second, c);
    for (auto& w : q.slip) fix[w.second][X.ix[w.first]] = 0;
    for (auto& w : q.pfix) fix[d][X.ix[w.first]] = w.second;
    std::vector<Vec> w(d + 1);
    Mat A = M / dt + q.mu / q.rho * K + C;
    double V = 0;
    for (int c = 0; c < d; ++c) {
        w[c] = solveFixed(A, M * o[c] / dt + M * Vec::Constant(n, comp(q.grav, c)), fix[c]);
        V = std::max(V, w[c].cwiseAbs().maxCoeff());
    }
    Vec div = Vec::Zero(n);
    for (int c = 0; c < d; ++c) div += G[c] * w[c];
    w[d] = solveFixed(-K, q.rho / dt * div, fix[d]);
    Vec star[3];
    for (int c = 0; c < d; ++c) {
        star[c] = w[c];
        w[c] = solveFixed(M, M * w[c] - dt / q.rho * (G[c] * w[d]), fix[c]);
        V = std::max(V, w[c].cwiseAbs().maxCoeff());
    }
    X.s->iterate(dt);
    std::vector<Vec> x = X.state();
    double P = std::max(w[d].cwiseAbs().maxCoeff(), 1e-6 * q.rho * q.U * q.h / dt);
    V = std::max(V, 1e-6 * q.U);
    if (!(V < 1e3 * q.U)) { count("runaway"); return false; }
    for (int c = 0; c <= d; ++c) {
        const char* nm = c == d ? "pressure" : "velocity";
        if (!expect(x[c].size() == n && x[c].allFinite(), (std::string("finite.") + nm).c_str(), "%s is not finite: %s", nm, st().desc.c_str())) return false;
        for (auto& f : fix[c]) expect(x[c](f.first) == f.second, (std::string("fixed.") + nm).c_str(), "node %d component %d has %g instead of the fixed %g: %s", X.id[f.first], c, x[c](f.first), f.second, st().desc.c_str());
        double e = (x[c] - w[c]).cwiseAbs().maxCoeff(), sc = c == d ? P : V;
        if (!expect(e <= 1e-5 * sc, (std::string("step.") + nm + (d == 2 ? ".2d" : ".3d")).c_str(), "%s component %d differs by %g of %g: %s", nm, c, e, sc, st().desc.c_str())) return false;
    }
    count("steps compared");
    return true;
}
static void steps(Rng& R, int dim)
{
    Problem q = problem(R, dim);
    if (R.flip(0.5)) renumber(R, q.r, 1), q = [&] { // identifiers changed: draw the data again for the new ones
        Problem t = q; auto bnd = skin(t.r);
        t.u0.clear(); t.p0.clear(); t.wall.clear(); t.slip.clear(); t.pfix.clear();
        for (auto& n : t.r.nodes) { V3 v = inBox(R, 1) * q.U; if (dim == 2) v.z = 0; t.u0[n.first] = v; t.p0[n.first] = R.uni(-1, 1) * q.rho * q.U * q.U; }
        for (int id : bnd) { if (R.flip(0.7)) t.wall[id] = R.flip() ? V3() : V3(R.uni(-1, 1), R.uni(-1, 1), dim == 2 ? 0 : R.uni(-1, 1)) * q.U; if (t.pfix.empty() || R.flip(0.3)) t.pfix[id] = R.uni(-1, 1) * q.rho * q.U * q.U; }
        return t; }();
    describe(text(q));
    Run X(q);
    auto geo = geometry(X);
    for (double dt : q.dts) {
        if (!step(X, geo, dt)) return;
        nontrivial();
        if (R.flip(0.3)) X.disturb(R);
    }
}
FAMILY(steps2d, 500, 30000) { steps(R, 2); }
FAMILY(steps3d, 250, 15000) { steps(R, 3); }
// Nothing drives the fluid: it stays exactly at rest, also when nothing but walls and material was ever set.
FAMILY(rest, 150, 8000)
{
    Problem q = problem(R, R.ri(2, 3), true);
    bool set = R.flip(0.5);
    describe(fmt("rest, values %s: ", set ? "set" : "left as constructed") + text(q));
    Run X(q, set);
    for (double dt : q.dts) {
        X.s->iterate(dt);
        auto x = X.state();
        for (int c = 0; c < (int)x.size(); ++c) for (int i = 0; i < x[c].size(); ++i)
            if (!expect(x[c](i) == 0, "rest", "component %d of node %d became %g: %s", c, X.id[i], x[c](i), st().desc.c_str())) return;
    }
    nontrivial(); count("rest steps", q.dts.size());
}
// A box with closed sides and an open level: the pressure is the weight of the fluid above, on any mesh.
FAMILY(hydrostatic, 60, 3000)
{
    int dim = R.ri(2, 3);
    Problem q = problem(R, dim, true);
    int nx = R.ri(1, 4), ny = dim == 2 ? R.ri(4, 20) : R.ri(3, 6), nz = R.ri(1, 3);
    q.r = grid(dim == 2 ? ET_TRIANGLE : ET_TETRAHEDRON, nx, ny, nz);
    double a = R.uni(0.3, 2), g = std::exp(R.uni(-2, 3));
    for (auto& n : q.r.nodes) { n.second.x *= R.flip(0) ? 1 : a; n.second = n.second * q.h; }
    q.wall.clear(); q.slip.clear(); q.pfix.clear(); q.u0.clear(); q.p0.clear();
    q.grav = V3(0, -g, 0);
    double H = q.h, dy = H / ny, dt = 0.1 * std::sqrt(dy / g);
    q.mu = q.rho * std::sqrt(g * dy) * dy * std::exp(R.uni(-4, 0));
    Run X(q);
    for (auto& n : q.r.nodes) {
        int i = X.ix[n.first];
        V3 p = n.second;
        bool top = p.y > H * (1 - 1e-9), bot = p.y < 1e-9 * H, sx = p.x < 1e-9 * H || p.x > a * H * (1 - 1e-9), sz = dim == 3 && (p.z > -1e-9 * H || p.z < -H * (1 - 1e-9));
        if (sx) X.s->vel(0).setFixedValue(i, 0.0);
        if (bot || top) X.s->vel(1).setFixedValue(i, 0.0);
        if (sz) X.s->vel(2).setFixedValue(i, 0.0);
        if (top) X.s->p().setFixedValue(i, 0.0);
    }
    describe(fmt("hydrostatic %dD, %d x %d x %d, depth %g, rho %g, g %g", dim, nx, ny, nz, H, q.rho, g));
    sig(dim * 1000 + nx * 100 + ny); sigd(g);
    X.s->iterate(dt);
    auto x = X.state();
    double P = q.rho * g * H;
    for (auto& n : q.r.nodes) {
        double p = x[dim](X.ix[n.first]), want = q.rho * g * (H - n.second.y);
        if (!expect(std::fabs(p - want) <= 1.0 * dy / H * P, "hydrostatic", "pressure at height %g is %g instead of %g: %s", n.second.y, p, want, st().desc.c_str())) return;
    }
    nontrivial();
}
// The same problem moved in the plane or in space, mirrored, in other units, with other identifiers, or solved again.
FAMILY(images, 250, 12000)
{
    int dim = R.ri(2, 3), how = R.ri(0, 4);
    Problem q = problem(R, dim);
    if (how != 0 && how != 3 && how != 4) q.slip.clear();
    Problem t = q;
    Rigid g = identity();
    double L = 1, T = 1, M = 1;
    if (how == 1) { g = dim == 2 ? rotation(V3(0, 0, 1), R.uni(0, 6.28)) : randomRigid(R, 0); g.t = inBox(R, 2) * q.h; if (dim == 2) g.t.z = 0; }
    if (how == 2) { int a = R.ri(0, dim - 1), b = (a + 1) % dim; if (R.flip()) g.m[a][a] = -1; else { g.m[a][a] = g.m[b][b] = 0; g.m[a][b] = g.m[b][a] = 1; } } // mirrored or axes swapped
    if (how == 2) for (auto& e : t.r.els) std::swap(e.n[0], e.n[1]);
    if (how == 3) { L = std::exp(R.uni(-2, 2)); T = std::exp(R.uni(-2, 2)); M = std::exp(R.uni(-2, 2)); g.s = L; }
    double vel = L / T, pr = M * vel * vel;
    move(t.r, g);
    for (auto& v : t.u0) v.second = g.rot(v.second) * vel;
    for (auto& v : t.wall) v.second = g.rot(v.second) * vel;
    for (auto& v : t.p0) v.second *= pr;
    for (auto& v : t.pfix) v.second *= pr;
    for (auto& v : t.dts) v *= T;
    t.rho *= M; t.mu *= M * L * L / T; t.grav = g.rot(t.grav) * (L / T / T); t.U *= vel; t.h *= L;
    if (how == 0) { R.shuffle(t.r.nodeOrder); R.shuffle(t.r.els); for (auto& e : t.r.els) { int k = R.ri(0, 2); std::rotate(e.n.begin(), e.n.begin() + k, e.n.begin() + 3); } }
    static const char* HOW[] = { "reordered", "moved", "mirrored", "rescaled", "repeated" };
    describe(std::string(HOW[how]) + " " + text(q));
    sig(how);
    Run X(q), Y(t);
    for (size_t k = 0; k < q.dts.size(); ++k) {
        X.s->iterate(q.dts[k]); Y.s->iterate(t.dts[k]);
        auto x = X.state(), y = Y.state();
        double V = 1e-6 * q.U, P = std::max(1e-6 * q.rho * q.U * q.h / q.dts[k], x[dim].cwiseAbs().maxCoeff());
        for (int c = 0; c < dim; ++c) V = std::max(V, x[c].cwiseAbs().maxCoeff());
        if (!(V < 100 * q.U)) { count("runaway"); return; }
        for (size_t i = 0; i < X.id.size(); ++i) {
            int j = Y.ix[X.id[i]];
            V3 a(x[0](i), x[1](i), dim == 3 ? x[2](i) : 0), b(y[0](j), y[1](j), dim == 3 ? y[2](j) : 0);
            double tol = how == 4 ? 0 : 1e-4;
            expect((b - g.rot(a) * vel).norm() <= tol * V * vel, how == 4 ? "repeat.velocity" : "image.velocity", "node %d differs from its image by %g of %g in step %d: %s", X.id[i], (b - g.rot(a) * vel).norm() / vel, V, (int)k, st().desc.c_str());
            expect(std::fabs(y[dim](j) - x[dim](i) * pr) <= tol * P * pr, how == 4 ? "repeat.pressure" : "image.pressure", "node %d pressure differs by %g of %g in step %d: %s", X.id[i], y[dim](j) / pr - x[dim](i), P, (int)k, st().desc.c_str());
        }
        nontrivial();
    }
}
