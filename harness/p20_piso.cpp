// P20: the PISO solver conserves mass, advances momentum as discretised, keeps rest and respects symmetry.
#include "fvmflow.hpp"
using namespace flow;
typedef CFvmPisoSolver<D> Piso;
enum Kind { WALL, INLET, PRESSURE, OUTLET };
struct Case {
    Box b; Geo g; Mesh m; Fvm f; std::vector<std::pair<int, int>> id;
    double rho, mu, dt, U; V3 grav;
    std::vector<Kind> kind; std::vector<V3> uf; std::vector<double> pf; // per geometric face (boundary only)
    std::unique_ptr<Piso> s;
};
static V3 U3(Piso& s, int id) { return V3(s.u(id), s.v(id), s.w(id)); }
static void openCase(Case& c)
{
    fill(c.m, c.b.r);
    double h = 1e300;
    c.g = geometry(c.b);
    for (auto& F : c.g.faces) h = std::min(h, std::sqrt(F.A.norm()));
    c.m.generateFaces(1e-6 * h);
    c.f.set(c.m);
    c.id = match(c.f, c.g, 1e-4 * h);
    for (auto& x : c.id) expect(x.first >= 0, "setup.face", "a cell face is missing from the finite volume mesh");
    c.s.reset(new Piso(c.f));
    c.s->setMaterialProperties(c.rho, c.mu);
    c.s->setGravity(c.grav.x, c.grav.y, c.grav.z);
}
static void impose(Case& c)
{
    // one call per face: the value of every boundary face is free
    for (size_t k = 0; k < c.g.faces.size(); ++k) {
        if (c.g.faces[k].nei >= 0) continue;
        std::vector<Integer> one{ (Integer)c.id[k].first };
        V3 u = c.uf[k];
        switch (c.kind[k]) {
        case WALL: c.s->setBoundaryVelocity(one, BT_WALL_NO_SLIP, u.x, u.y, u.z); break;
        case INLET: c.s->setBoundaryVelocity(one, BT_INLET_FLOW, u.x, u.y, u.z); break;
        case PRESSURE: c.s->setBoundaryPressure(one, BT_INLET_PRESSURE, c.pf[k]); break;
        case OUTLET: c.s->setBoundaryPressure(one, BT_OUTLET, 0); break;
        }
    }
}
struct Snap { std::vector<V3> u; std::vector<double> p, F; std::vector<V3> uf; std::vector<double> pf; };
static Snap snap(Case& c)
{
    Snap s;
    for (int id : c.g.ids) { s.u.push_back(U3(*c.s, id)); s.p.push_back(c.s->p(id)); }
    for (size_t k = 0; k < c.g.faces.size(); ++k) {
        int id = c.id[k].first;
        s.F.push_back(c.s->flux(id) * c.id[k].second);
        s.uf.push_back(V3(c.s->uf(id), c.s->vf(id), c.s->wf(id)));
        s.pf.push_back(c.s->pf(id));
    }
    return s;
}
static std::vector<V3> grad(const Case& c, const std::vector<double>& p, const std::vector<double>& pf)
{
    std::vector<V3> g(c.g.ids.size());
    for (size_t k = 0; k < c.g.faces.size(); ++k) {
        auto& F = c.g.faces[k];
        double v = F.nei >= 0 ? 0.5 * (p[F.own] + p[F.nei]) : pf[k];
        g[F.own] = g[F.own] + F.A * (v / c.g.vol[F.own]);
        if (F.nei >= 0) g[F.nei] = g[F.nei] - F.A * (v / c.g.vol[F.nei]);
    }
    return g;
}
static bool fixedPressure(const Case& c) { for (size_t k = 0; k < c.kind.size(); ++k) if (c.g.faces[k].nei < 0 && c.kind[k] >= PRESSURE) return true; return false; }
// One step of the discrete equations, solved densely.
static Snap reference(const Case& c, const Snap& o)
{
    int n = c.g.ids.size();
    auto& G = c.g;
    auto dist = [&](const Face& F) { return (F.c - G.cen[F.own]).norm() + (F.nei >= 0 ? (F.c - G.cen[F.nei]).norm() : 0); };
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n), b = Eigen::MatrixXd::Zero(n, 3), gp(n, 3);
    auto g0 = grad(c, o.p, o.pf);
    auto row = [](const V3& v) { return Eigen::RowVector3d(v.x, v.y, v.z); };
    for (int i = 0; i < n; ++i) { gp.row(i) = row(g0[i]); A(i, i) += c.rho / c.dt; b.row(i) += row(o.u[i]) * (c.rho / c.dt) + row(c.grav) * c.rho; }
    for (size_t k = 0; k < G.faces.size(); ++k) {
        auto& F = G.faces[k];
        double d = c.mu * F.A.norm() / dist(F), f = o.F[k];
        int P = F.own, N = F.nei;
        if (N >= 0) {
            A(P, P) += (0.5 * c.rho * f + d) / G.vol[P]; A(P, N) += (0.5 * c.rho * f - d) / G.vol[P];
            A(N, N) += (-0.5 * c.rho * f + d) / G.vol[N]; A(N, P) += (-0.5 * c.rho * f - d) / G.vol[N];
        } else { A(P, P) += d / G.vol[P]; b.row(P) += row(o.uf[k]) * ((d - c.rho * f) / G.vol[P]); }
    }
    Eigen::MatrixXd us = A.partialPivLu().solve(b - gp), H = b;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) H.row(i) -= A(i, j) * us.row(j);
    Eigen::MatrixXd B = Eigen::MatrixXd::Zero(n, n); Eigen::VectorXd r = Eigen::VectorXd::Zero(n);
    Snap s = o;
    std::vector<double> Kf(G.faces.size());
    for (size_t k = 0; k < G.faces.size(); ++k) {
        auto& F = G.faces[k];
        int P = F.own, N = F.nei;
        double ap = N >= 0 ? 0.5 * (A(P, P) + A(N, N)) : A(P, P), K = F.A.norm() / (ap * dist(F));
        Eigen::RowVector3d h = N >= 0 ? Eigen::RowVector3d(0.5 * (H.row(P) + H.row(N))) : Eigen::RowVector3d(H.row(P));
        double hf = h.dot(row(F.A)) / ap;
        Kf[k] = K;
        if (N >= 0) { B(P, P) -= K; B(P, N) += K; B(N, N) -= K; B(N, P) += K; r(P) += hf; r(N) -= hf; s.F[k] = hf; }
        else if (c.kind[k] == WALL) s.F[k] = 0;
        else if (c.kind[k] == INLET) { s.F[k] = o.uf[k].dot(F.A); r(P) += s.F[k]; }
        else {
            double v = c.kind[k] == PRESSURE ? c.pf[k] : 0;
            B(P, P) -= K; r(P) += hf - K * v; s.F[k] = hf; s.uf[k] = F.A * (hf / F.A.dot(F.A)); s.pf[k] = v;
        }
    }
    bool fixed = fixedPressure(c);
    Eigen::MatrixXd B1 = B;
    if (!fixed) B1.array() -= B.cwiseAbs().maxCoeff() / n; // pins the mean
    Eigen::VectorXd p = B1.partialPivLu().solve(r);
    if (!fixed) p.array() -= p.minCoeff();
    for (int i = 0; i < n; ++i) s.p[i] = p(i);
    for (size_t k = 0; k < G.faces.size(); ++k) {
        auto& F = G.faces[k];
        if (F.nei >= 0) s.F[k] -= Kf[k] * (p(F.nei) - p(F.own));
        else if (c.kind[k] == WALL || c.kind[k] == INLET) s.pf[k] = p(F.own);
        else s.F[k] -= Kf[k] * (s.pf[k] - p(F.own));
    }
    auto g1 = grad(c, s.p, s.pf);
    for (int i = 0; i < n; ++i) { double a = A(i, i); s.u[i] = V3((H(i, 0) - g1[i].x) / a, (H(i, 1) - g1[i].y) / a, (H(i, 2) - g1[i].z) / a); }
    return s;
}
static double flowScale(const Case& c, const Snap& s)
{
    double v = c.U;
    for (auto& x : s.u) v = std::max(v, x.norm());
    return v;
}
static void monitor(Case& c, const Snap& o, const Snap& s, bool deep)
{
    double V = flowScale(c, s), A = 0, P = 1e-100 + c.rho * c.U * c.U * 1e-6;
    for (auto& F : c.g.faces) A = std::max(A, F.A.norm());
    bool ok = true;
    for (auto& x : s.u) ok = ok && std::isfinite(x.norm());
    for (double x : s.p) { ok = ok && std::isfinite(x); P = std::max(P, std::fabs(x)); }
    if (!expect(ok, "finite", "not finite: %s", st().desc.c_str())) return;
    // mass
    std::vector<double> sum(c.g.ids.size());
    for (size_t k = 0; k < s.F.size(); ++k) { auto& F = c.g.faces[k]; sum[F.own] += s.F[k]; if (F.nei >= 0) sum[F.nei] -= s.F[k]; }
    D err = -1; c.s->checkMassConservation(err);
    double tot = 0;
    for (size_t i = 0; i < sum.size(); ++i) {
        expect(std::fabs(sum[i]) <= 1e-5 * V * A, "mass.cell", "cell %d gains %g (scale %g): %s", c.g.ids[i], sum[i], V * A, st().desc.c_str());
        expect(std::fabs(c.s->massError(c.g.ids[i]) - sum[i]) <= 1e-12 * V * A, "mass.reported", "cell error %g reported as %g", sum[i], c.s->massError(c.g.ids[i]));
        tot += std::fabs(sum[i]);
    }
    expectNear(err / (V * A), tot / sum.size() / (V * A), 1e-12, "mass.reported-total");
    // boundary values
    for (size_t k = 0; k < s.F.size(); ++k) {
        auto& F = c.g.faces[k];
        if (F.nei >= 0) continue;
        if (c.kind[k] == WALL) { expect(s.F[k] == 0, "wall.flux", "flow through a wall: %g", s.F[k]); expect((s.uf[k] - c.uf[k]).norm() == 0, "wall.velocity", "wall velocity changed"); }
        if (c.kind[k] == INLET) { expectNear(s.F[k] / (V * A), c.uf[k].dot(F.A) / (V * A), 1e-12, "inlet.flux", "inlet does not carry the flow imposed"); expect((s.uf[k] - c.uf[k]).norm() == 0, "inlet.velocity", "inlet velocity changed"); }
        if (c.kind[k] == PRESSURE) expectNear(s.pf[k], c.pf[k], 1e-12 * (1 + std::fabs(c.pf[k])), "pressure.imposed", "pressure of an inlet changed");
    }
    if (!fixedPressure(c)) { double mn = *std::min_element(s.p.begin(), s.p.end()); expect(std::fabs(mn) <= 1e-12 * P, "pressure.level", "lowest pressure %g", mn); }
    // residual: change over the step
    D ru, rv, rw, rp; c.s->residual(ru, rv, rw, rp);
    double e[4] = { 0, 0, 0, 0 };
    for (size_t i = 0; i < s.u.size(); ++i) { V3 d = s.u[i] - o.u[i]; e[0] += d.x * d.x; e[1] += d.y * d.y; e[2] += d.z * d.z; e[3] += (s.p[i] - o.p[i]) * (s.p[i] - o.p[i]); }
    expectNear(ru / (V * V), e[0] / (V * V), 1e-9, "residual.u"); expectNear(rv / (V * V), e[1] / (V * V), 1e-9, "residual.v"); expectNear(rw / (V * V), e[2] / (V * V), 1e-9, "residual.w");
    expectNear(rp / (P * P), e[3] / (P * P), 1e-9 * (1 + e[3] / (P * P)), "residual.p");
    if (!deep) return;
    Snap w = reference(c, o);
    double Pw = P;
    for (double x : w.p) Pw = std::max(Pw, std::fabs(x));
    for (size_t i = 0; i < s.u.size(); ++i) {
        expect((s.u[i] - w.u[i]).norm() <= 1e-5 * V, "step.velocity", "cell %d velocity (%g %g %g), the discrete equations give (%g %g %g): %s", c.g.ids[i], s.u[i].x, s.u[i].y, s.u[i].z, w.u[i].x, w.u[i].y, w.u[i].z, st().desc.c_str());
        expect(std::fabs(s.p[i] - w.p[i]) <= 1e-5 * Pw, "step.pressure", "cell %d pressure %g, the discrete equations give %g: %s", c.g.ids[i], s.p[i], w.p[i], st().desc.c_str());
    }
    for (size_t k = 0; k < s.F.size(); ++k) expect(std::fabs(s.F[k] - w.F[k]) <= 1e-5 * V * A, "step.flux", "face flux %g, the discrete equations give %g: %s", s.F[k], w.F[k], st().desc.c_str());
    count("steps compared with the discrete equations");
    // gradients of the solution
    for (int q = 0; q < 4; ++q) {
        std::vector<double> v, vf;
        for (size_t i = 0; i < s.u.size(); ++i) v.push_back(q == 0 ? s.u[i].x : q == 1 ? s.u[i].y : q == 2 ? s.u[i].z : s.p[i]);
        for (size_t k = 0; k < s.F.size(); ++k) vf.push_back(q == 0 ? s.uf[k].x : q == 1 ? s.uf[k].y : q == 2 ? s.uf[k].z : s.pf[k]);
        auto g = grad(c, v, vf);
        double sc = 1e-300;
        for (auto& x : g) sc = std::max(sc, x.norm());
        for (size_t i = 0; i < g.size(); ++i) {
            int id = c.g.ids[i];
            V3 l = v3(q == 0 ? c.s->gradu(id) : q == 1 ? c.s->gradv(id) : q == 2 ? c.s->gradw(id) : c.s->gradp(id));
            double mag = 0; for (double x : v) mag = std::max(mag, std::fabs(x)); for (double x : vf) mag = std::max(mag, std::fabs(x));
            expect((l - g[i]).norm() <= 1e-9 * sc + 1e-12 * mag * A / c.g.vol[i], "gradient", "component %d off by %g", q, (l - g[i]).norm());
        }
    }
}
struct Setup { int type, n[3]; bool graded; double rho, mu, dt, U; V3 grav; int open; V3 wall[6]; double pin; int inlet, outlet; };
static Setup setup(Rng& R, int nmax, bool channels)
{
    Setup s;
    s.type = R.pick(std::vector<int>{ ET_HEXAHEDRON, ET_HEXAHEDRON, ET_TRIANGULAR_PRISM, ET_TETRAHEDRON });
    int m = s.type == ET_TETRAHEDRON ? std::max(1, nmax - 2) : nmax;
    for (int d = 0; d < 3; ++d) s.n[d] = R.ri(1, m);
    if (R.flip(0.4)) s.n[R.ri(0, 2)] = 1;
    if (s.n[0] * s.n[1] * s.n[2] < 2) s.n[0] = 2;
    s.graded = R.flip();
    s.rho = std::exp(R.uni(-2, 2)); s.U = std::exp(R.uni(-1, 1));
    double h = 1.0 / std::max({ s.n[0], s.n[1], s.n[2] });
    s.mu = s.rho * s.U * h / R.pick(std::vector<double>{ 0.1, 1, 3 });
    s.dt = h / s.U * R.pick(std::vector<double>{ 0.05, 0.3, 1 });
    s.grav = R.flip(0.3) ? inBox(R, 1) * (s.U * s.U) : V3();
    s.open = channels ? R.ri(1, 3) : 0; // 1 inlet+outlet, 2 pressure inlet + outlet, 3 inlet + pressure outlet
    for (int w = 0; w < 6; ++w) { s.wall[w] = R.flip(0.6) ? V3() : inBox(R, s.U); if (w / 2 == 0) s.wall[w].x = 0; if (w / 2 == 1) s.wall[w].y = 0; if (w / 2 == 2) s.wall[w].z = 0; }
    if (!s.open) s.wall[R.ri(0, 1) * 2 + 1].z = s.U;
    s.pin = s.rho * s.U * s.U * R.uni(0.2, 2) * (R.flip(0.2) ? -1 : 1);
    s.inlet = R.ri(0, 5); s.outlet = R.flip(0.7) ? s.inlet ^ 1 : (s.inlet + R.ri(1, 5)) % 6;
    return s;
}
static void dress(Case& c, const Setup& s, const Rigid& g)
{
    c.rho = s.rho; c.mu = s.mu; c.dt = s.dt; c.U = s.U; c.grav = g.rot(s.grav);
    openCase(c);
    c.kind.assign(c.g.faces.size(), WALL); c.uf.assign(c.g.faces.size(), V3()); c.pf.assign(c.g.faces.size(), 0);
    for (size_t k = 0; k < c.g.faces.size(); ++k) {
        auto& F = c.g.faces[k];
        if (F.nei >= 0) continue;
        c.uf[k] = g.rot(s.wall[F.wall]);
        if (s.open && F.wall == s.inlet) {
            if (s.open == 2) { c.kind[k] = PRESSURE; c.pf[k] = s.pin; c.uf[k] = V3(); }
            else { c.kind[k] = INLET; c.uf[k] = F.A.unit() * -s.U + g.rot(s.wall[F.wall]) * 0.3; }
        }
        if (s.open && F.wall == s.outlet) { c.kind[k] = s.open == 3 ? PRESSURE : OUTLET; c.pf[k] = s.open == 3 ? s.pin : 0; c.uf[k] = V3(); }
    }
    impose(c);
}
static std::string text(const Setup& s) { return fmt("type %d %dx%dx%d rho %.3g mu %.3g dt %.3g U %.3g open %d (in %d out %d) gravity %.3g", s.type, s.n[0], s.n[1], s.n[2], s.rho, s.mu, s.dt, s.U, s.open, s.inlet, s.outlet, s.grav.norm()); }
static void march(Rng& R, bool channels)
{
    Setup s = setup(R, 4, channels);
    Case c;
    c.b = box(R, s.type, s.n[0], s.n[1], s.n[2], s.graded);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 2);
    move(c.b.r, g);
    int spread = R.flip(0.6) ? R.pick(std::vector<int>{ 1, 3, 1000 }) : 0;
    if (spread) renumberBox(R, c.b, spread);
    dress(c, s, g);
    int steps = R.ri(1, 12);
    describe(text(s) + fmt(" spread %d, %d steps", spread, steps));
    sig(s.type * 1000 + s.n[0] * 100 + s.n[1] * 10 + s.n[2]); sigd(s.mu);
    Snap o = snap(c);
    struct { std::vector<Kind> kind; std::vector<V3> uf; std::vector<double> pf; } start = { c.kind, c.uf, c.pf };
    for (int k = 0; k < steps; ++k) {
        if (R.flip(0.1)) { c.dt = s.dt * R.uni(0.3, 1); count("time step changed"); }
        if (R.flip(0.1)) { // walls may change speed between steps
            V3 extra = g.rot(V3(0, 0, s.U * R.uni(-1, 1)));
            for (size_t q = 0; q < c.g.faces.size(); ++q) if (c.g.faces[q].nei < 0 && c.kind[q] == WALL && c.g.faces[q].wall < 4) c.uf[q] = c.uf[q] + extra;
            impose(c);
            o = snap(c);
            count("walls changed");
        }
        if (R.flip(0.05)) { // another fluid, another pull
            c.rho = s.rho * R.uni(0.7, 1.4); c.mu = s.mu * R.uni(1, 1.5);
            c.s->setMaterialProperties(c.rho, c.mu);
            count("materials changed");
        }
        if (R.flip(0.05)) {
            c.grav = R.flip(0.4) ? V3() : inBox(R, 1) * (s.U * s.U);
            if (R.flip(0.3)) c.grav = V3(c.grav.x, 0, 0);
            c.s->setGravity(c.grav.x, c.grav.y, c.grav.z);
            count("gravity changed");
        }
        if (s.open && R.flip(0.2)) { // openings are shut, opened again or driven differently
            int what = R.ri(0, 2);
            double by = R.uni(0.3, 1);
            for (size_t q = 0; q < c.g.faces.size(); ++q) {
                if (c.g.faces[q].nei >= 0 || start.kind[q] == WALL) continue;
                if (what == 0) { c.kind[q] = WALL; c.uf[q] = V3(); }
                else {
                    c.kind[q] = start.kind[q];
                    c.uf[q] = start.kind[q] == INLET ? start.uf[q] * by : o.uf[q];
                    c.pf[q] = start.kind[q] == PRESSURE ? start.pf[q] * by : 0;
                }
            }
            impose(c);
            o = snap(c);
            count(what == 0 ? "openings shut" : "openings driven");
        }
        c.s->iterate(c.dt);
        Snap n = snap(c);
        if (flowScale(c, n) > 20 * s.U) { count("runaway"); break; } // beyond the stable step; a NaN is judged
        monitor(c, o, n, true);
        o = n;
        count("steps");
    }
    nontrivial();
}
FAMILY(cavity, 700, 25000) { march(R, false); }
FAMILY(channel, 500, 15000) { march(R, true); }
FAMILY(rest, 150, 5000)
{
    Setup s = setup(R, 4, R.flip(0.4));
    for (auto& w : s.wall) w = V3();
    s.grav = V3(); s.pin = 0; if (s.open == 1 || s.open == 3) s.open = 2;
    Case c;
    c.b = box(R, s.type, s.n[0], s.n[1], s.n[2], s.graded);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 2);
    move(c.b.r, g);
    if (R.flip()) renumberBox(R, c.b, 3);
    dress(c, s, g);
    describe("at rest: " + text(s));
    for (int k = 0; k < 5; ++k) {
        c.s->iterate(c.dt);
        Snap n = snap(c);
        for (auto& u : n.u) expect(u.norm() == 0, "rest.velocity", "still fluid moves at %g: %s", u.norm(), st().desc.c_str());
        for (double f : n.F) expect(f == 0, "rest.flux", "still fluid flows: %g", f);
        for (double p : n.p) expect(p == 0, "rest.pressure", "still fluid has pressure %g", p);
    }
    nontrivial();
}
// Fluid under gravity in a closed box: the pressure of the first step is hydrostatic and nothing crosses any face.
FAMILY(hydrostatic, 200, 5000)
{
    Setup s = setup(R, 5, false);
    s.type = ET_HEXAHEDRON;
    for (auto& w : s.wall) w = V3();
    V3 G = inBox(R, 10);
    s.grav = G; s.mu = 1e-12 * s.rho;
    Case c;
    c.b = box(R, s.type, s.n[0], s.n[1], s.n[2], s.graded);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 2);
    move(c.b.r, g);
    if (R.flip()) renumberBox(R, c.b, 3);
    dress(c, s, g);
    describe("hydrostatic: " + text(s));
    c.s->iterate(c.dt);
    Snap n = snap(c);
    double sc = s.rho * G.norm();
    for (size_t k = 0; k < n.F.size(); ++k) expect(std::fabs(n.F[k]) <= 1e-7 * G.norm() * c.dt, "hydrostatic.flux", "flow %g in a closed still box", n.F[k]);
    for (size_t i = 0; i < n.p.size(); ++i) expect(std::fabs((n.p[i] - n.p[0]) - s.rho * c.grav.dot(c.g.cen[i] - c.g.cen[0])) <= 1e-8 * sc, "hydrostatic.pressure", "pressure difference %g, weight of the column %g", n.p[i] - n.p[0], s.rho * c.grav.dot(c.g.cen[i] - c.g.cen[0]));
    nontrivial();
}
// Two images of the same problem: rigidly moved, mirrored, renumbered, or with other units.
FAMILY(image, 350, 10000)
{
    Setup s = setup(R, 4, R.flip(0.3));
    uint64_t gs = R.next();
    Case a, b;
    { Rng q(gs); a.b = box(q, s.type, s.n[0], s.n[1], s.n[2], s.graded); }
    { Rng q(gs); b.b = box(q, s.type, s.n[0], s.n[1], s.n[2], s.graded); }
    dress(a, s, identity());
    int how = R.ri(0, 3);
    Rigid g = identity();
    double L = 1, T = 1, M = 1; // units of length, time, density
    if (how == 1) { g = randomRigid(R, 2); }
    if (how == 2) { L = std::exp(R.uni(-2, 2)); T = std::exp(R.uni(-2, 2)); M = std::exp(R.uni(-2, 2)); g.s = L; }
    if (how == 3) { // mirror in x: elements keep their orientation by swapping node order
        g.m[0][0] = -1;
        for (auto& e : b.b.r.els) {
            auto& n = e.n;
            if (e.type == ET_TETRAHEDRON) std::swap(n[0], n[1]);
            else if (e.type == ET_TRIANGULAR_PRISM) { std::swap(n[0], n[1]); std::swap(n[3], n[4]); }
            else { std::swap(n[0], n[1]); std::swap(n[3], n[2]); std::swap(n[4], n[5]); std::swap(n[7], n[6]); }
        }
    }
    move(b.b.r, g);
    if (how == 0 || R.flip(0.3)) renumberBox(R, b.b, R.pick(std::vector<int>{ 1, 3, 1000 }));
    Setup t = s;
    double vel = L / T;
    t.rho = s.rho * M; t.mu = s.mu * M * L * L / T; t.dt = s.dt * T; t.U = s.U * vel; t.grav = s.grav * (L / T / T); t.pin = s.pin * M * vel * vel;
    for (int w = 0; w < 6; ++w) t.wall[w] = s.wall[w] * vel;
    dress(b, t, g);
    describe(fmt("%s image of %s", how == 0 ? "renumbered" : how == 1 ? "moved" : how == 2 ? "rescaled" : "mirrored", text(s).c_str()));
    sig(how * 10000 + s.type * 1000 + s.n[0] * 100 + s.n[1] * 10 + s.n[2]); sigd(s.mu);
    int steps = R.ri(1, 8);
    for (int k = 0; k < steps; ++k) {
        Snap o = snap(a), q = snap(b);
        a.s->iterate(a.dt); b.s->iterate(b.dt);
        Snap x = snap(a), y = snap(b);
        if (flowScale(a, x) > 20 * s.U || flowScale(b, y) > 20 * t.U) { count("runaway"); return; }
        monitor(a, o, x, true); monitor(b, q, y, true);
    }
    Snap x = snap(a), y = snap(b);
    double V = flowScale(a, x), P = 1e-6 * s.rho * s.U * s.U;
    for (double p : x.p) P = std::max(P, std::fabs(p));
    // match cells by centre
    double h = 1e300;
    for (double v : a.g.vol) h = std::min(h, std::cbrt(v));
    for (size_t i = 0; i < x.u.size(); ++i) {
        V3 want = g(a.g.cen[i]);
        size_t j = 0;
        while (j < y.u.size() && (b.g.cen[j] - want).norm() > 1e-6 * h * L) ++j;
        if (!expect(j < y.u.size(), "image.cell", "cell lost")) return;
        expect((y.u[j] - g.rot(x.u[i]) * vel).norm() <= 1e-4 * V * vel, "image.velocity", "cell %d differs from its image by %g of %g: %s", a.g.ids[i], (y.u[j] - g.rot(x.u[i]) * vel).norm() / vel, V, st().desc.c_str());
        expect(std::fabs(y.p[j] - x.p[i] * M * vel * vel) <= 1e-4 * P * M * vel * vel, "image.pressure", "cell %d pressure differs from its image by %g of %g: %s", a.g.ids[i], y.p[j] / (M * vel * vel) - x.p[i], P, st().desc.c_str());
    }
    nontrivial();
}
// March to a steady state: the momentum of every cell balances.
FAMILY_CPU(steady, 24, 1500, 120)
{
    Setup s = setup(R, 4, R.flip(0.4));
    s.type = ET_HEXAHEDRON;
    s.mu = s.rho * s.U / std::max({ s.n[0], s.n[1], s.n[2] });
    s.dt = 1.0 / std::max({ s.n[0], s.n[1], s.n[2] }) / s.U * 0.5;
    s.grav = V3();
    Case c;
    c.b = box(R, s.type, s.n[0], s.n[1], s.n[2], s.graded);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 2);
    move(c.b.r, g);
    dress(c, s, g);
    describe("steady: " + text(s));
    sig(s.n[0] * 100 + s.n[1] * 10 + s.n[2]); sigd(s.mu);
    double V = s.U, res = 1;
    int k = 0;
    for (; k < 1500 && res > 1e-10; ++k) {
        c.s->iterate(c.dt);
        D ru, rv, rw, rp; c.s->residual(ru, rv, rw, rp);
        res = std::sqrt(ru + rv + rw) / V;
    }
    Snap x = snap(c);
    V = flowScale(c, x);
    if (res > 1e-10 || !(V < 50 * s.U)) { count("not steady"); return; }
    count("steady states"); nontrivial();
    auto gp = grad(c, x.p, x.pf);
    std::vector<V3> m(x.u.size());
    double sc = 0;
    for (size_t k2 = 0; k2 < c.g.faces.size(); ++k2) {
        auto& F = c.g.faces[k2];
        double d = (F.c - c.g.cen[F.own]).norm() + (F.nei >= 0 ? (F.c - c.g.cen[F.nei]).norm() : 0), K = s.mu * F.A.norm() / d;
        V3 q = F.nei >= 0 ? (x.u[F.own] + x.u[F.nei]) * (0.5 * s.rho * x.F[k2]) - (x.u[F.nei] - x.u[F.own]) * K : x.uf[k2] * (s.rho * x.F[k2]) - (x.uf[k2] - x.u[F.own]) * K;
        sc = std::max(sc, std::max(q.norm(), K * V));
        m[F.own] = m[F.own] + q;
        if (F.nei >= 0) m[F.nei] = m[F.nei] - q;
    }
    for (size_t i = 0; i < m.size(); ++i) {
        V3 r = m[i] + gp[i] * c.g.vol[i];
        expect(r.norm() <= 1e-6 * sc, "steady.momentum", "cell %d: momentum is out of balance by %g of %g: %s", c.g.ids[i], r.norm(), sc, st().desc.c_str());
    }
}
