// P19: the temperature and volume-of-fluid solvers march the discrete scalar equations, stay bounded, keep uniform states and balance what crosses the faces.
#include "fvmflow.hpp"
#include "FvmVofSolver.hpp"
using namespace flow;
enum Kind { WALL, INLET, OUTLET };
struct Temp : CFvmTemperatureSolver<D> {
    using CFvmTemperatureSolver<D>::CFvmTemperatureSolver;
    void start(int id, double T) { this->m_T[id] = T; } // the class has no call for initial temperatures
    void material(int id, double k, double c, double rho) { this->m_thcond[id] = k; this->m_spheat[id] = c; this->m_dens[id] = rho; }
    static constexpr double wallConductivity = 1; // not settable
};
// Hooked state of the volume-of-fluid solver: every solution of the transport equation is recorded with the data it was solved from.
struct Vof : CFvmVofSolver<D> {
    using CFvmVofSolver<D>::CFvmVofSolver;
    struct Solve { std::map<Integer, D> beta, before, s0, after; };
    std::vector<Solve> log, corrections; // a correction: weights before and after, fractions it was made from
    double density(int id) { return this->m_dens.at(id); }
    double viscosity(int id) { return this->m_visc.at(id); }
    void correctBeta(double dt, const D tol) override
    {
        Solve q; q.before = this->m_betaf; q.s0 = this->m_s0; q.after = this->m_s;
        CFvmVofSolver<D>::correctBeta(dt, tol);
        q.beta = this->m_betaf;
        corrections.push_back(q);
    }
    void calculateGammaField() override
    {
        Solve q; q.beta = this->m_betaf; q.before = this->m_s; q.s0 = this->m_s0;
        CFvmVofSolver<D>::calculateGammaField();
        q.after = this->m_s;
        log.push_back(q);
    }
};
template <class S> struct Case {
    Box b; Geo g; Mesh m; Fvm f; std::vector<std::pair<int, int>> id; std::unique_ptr<S> s;
    std::vector<Kind> kind; std::vector<V3> uf; std::vector<double> val; // per boundary face
};
struct Setup { int type, n[3]; bool graded; double rho, mu, dt, U; bool open, still; V3 wall[6]; int inlet, outlet; };
static Setup setup(Rng& R, int nmax)
{
    Setup s;
    s.type = R.pick(std::vector<int>{ ET_HEXAHEDRON, ET_HEXAHEDRON, ET_TRIANGULAR_PRISM, ET_TETRAHEDRON });
    int m = s.type == ET_TETRAHEDRON ? std::max(1, nmax - 2) : nmax;
    for (int d = 0; d < 3; ++d) s.n[d] = R.ri(1, m);
    if (R.flip(0.4)) s.n[R.ri(0, 2)] = 1;
    if (s.n[0] * s.n[1] * s.n[2] < 2) s.n[0] = 2;
    s.graded = R.flip();
    s.rho = std::exp(R.uni(-2, 2)); s.U = std::exp(R.uni(-1, 1));
    double h = 1.0 / std::max({ s.n[0], s.n[1], s.n[2] });
    s.mu = s.rho * s.U * h / R.pick(std::vector<double>{ 0.1, 1 });
    s.dt = h / s.U * R.pick(std::vector<double>{ 0.05, 0.3, 1 });
    s.open = R.flip(); s.still = !s.open && R.flip(0.3);
    for (int w = 0; w < 6; ++w) { s.wall[w] = R.flip(0.6) ? V3() : inBox(R, s.U); if (w / 2 == 0) s.wall[w].x = 0; if (w / 2 == 1) s.wall[w].y = 0; if (w / 2 == 2) s.wall[w].z = 0; if (s.still) s.wall[w] = V3(); }
    s.inlet = R.ri(0, 5); s.outlet = s.inlet ^ 1;
    return s;
}
static std::string text(const Setup& s) { return fmt("type %d %dx%dx%d rho %.3g mu %.3g dt %.3g U %.3g %s", s.type, s.n[0], s.n[1], s.n[2], s.rho, s.mu, s.dt, s.U, s.open ? "channel" : s.still ? "still" : "cavity"); }
template <class S> static void openCase(Case<S>& c)
{
    fill(c.m, c.b.r);
    double h = 1e300;
    c.g = geometry(c.b);
    for (auto& F : c.g.faces) h = std::min(h, std::sqrt(F.A.norm()));
    c.m.generateFaces(1e-6 * h);
    c.f.set(c.m);
    c.id = match(c.f, c.g, 1e-4 * h);
    for (auto& x : c.id) expect(x.first >= 0, "setup.face", "a cell face is missing from the finite volume mesh");
    c.s.reset(new S(c.f));
    c.val.assign(c.g.faces.size(), 0);
}
static void scalarOf(Temp& s, const std::vector<Integer>& one, EBoundaryType t, double v) { s.setBoundaryTemperature(one, t, v); }
static void scalarOf(Vof& s, const std::vector<Integer>& one, EBoundaryType t, double v) { if (one[0] % 2) s.setBoundaryGamma(one, t, v); else s.setBoundaryGamma(one[0], t, v); }
template <class S> static void impose(Case<S>& c)
{
    for (size_t k = 0; k < c.g.faces.size(); ++k) {
        if (c.g.faces[k].nei >= 0) continue;
        std::vector<Integer> one{ (Integer)c.id[k].first };
        V3 u = c.uf[k];
        EBoundaryType t = c.kind[k] == WALL ? BT_WALL_NO_SLIP : c.kind[k] == INLET ? BT_INLET_FLOW : BT_OUTLET;
        // either setter gives the face its kind, the last one counts
        bool first = one[0] % 3 == 0;
        if (first) scalarOf(*c.s, one, one[0] % 2 ? t : BT_WALL_NO_SLIP, c.val[k]);
        EBoundaryType v = first ? t : t == BT_OUTLET ? BT_INLET_PRESSURE : BT_OUTLET;
        if (c.kind[k] == OUTLET) c.s->setBoundaryPressure(one, v, 0); else c.s->setBoundaryVelocity(one, v, u.x, u.y, u.z);
        if (!first) scalarOf(*c.s, one, t, c.val[k]);
    }
}
template <class S> static void dress(Case<S>& c, const Setup& s, const Rigid& g)
{
    c.kind.assign(c.g.faces.size(), WALL); c.uf.assign(c.g.faces.size(), V3());
    for (size_t k = 0; k < c.g.faces.size(); ++k) {
        auto& F = c.g.faces[k];
        if (F.nei >= 0) continue;
        c.uf[k] = g.rot(s.wall[F.wall]);
        if (s.open && F.wall == s.inlet) { c.kind[k] = INLET; c.uf[k] = F.A.unit() * -s.U; }
        if (s.open && F.wall == s.outlet) { c.kind[k] = OUTLET; c.uf[k] = V3(); }
    }
    impose(c);
}
template <class S> static std::vector<double> fluxes(Case<S>& c) { std::vector<double> f; for (size_t k = 0; k < c.id.size(); ++k) f.push_back(c.s->flux(c.id[k].first) * c.id[k].second); return f; }
static double dist(const Geo& G, const Face& F) { return (F.c - G.cen[F.own]).norm() + (F.nei >= 0 ? (F.c - G.cen[F.nei]).norm() : 0); }
template <class S> static double speed(Case<S>& c) { double v = 0; for (int id : c.g.ids) v = std::max(v, V3(c.s->u(id), c.s->v(id), c.s->w(id)).norm()); return v; }
// ---------------------------------------------------------------- temperature
struct Mat { std::vector<double> k, c, rho; };
static Eigen::VectorXd heatStep(const Case<Temp>& c, const Mat& m, const std::vector<double>& T0, const std::vector<double>& fl, double dt)
{
    int n = T0.size();
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n); Eigen::VectorXd b = Eigen::VectorXd::Zero(n);
    for (int i = 0; i < n; ++i) { double q = m.rho[i] * m.c[i] * c.g.vol[i] / dt; A(i, i) += q; b(i) += q * T0[i]; }
    for (size_t f = 0; f < c.g.faces.size(); ++f) {
        auto& F = c.g.faces[f];
        int P = F.own, N = F.nei;
        double K = F.A.norm() / dist(c.g, F);
        if (N >= 0) {
            K *= 0.5 * (m.k[P] + m.k[N]);
            double rc = 0.25 * (m.rho[P] + m.rho[N]) * (m.c[P] + m.c[N]) * fl[f];
            A(P, P) += K; A(N, N) += K; A(P, N) -= K; A(N, P) -= K;
            int up = fl[f] > 0 ? P : N;
            A(P, up) += rc; A(N, up) -= rc;
        } else {
            K *= 0.5 * (m.k[P] + Temp::wallConductivity);
            double rc = m.rho[P] * m.c[P] * fl[f];
            A(P, P) += K; b(P) += K * c.val[f];
            if (fl[f] > 0) A(P, P) += rc; else b(P) -= rc * c.val[f];
        }
    }
    return A.partialPivLu().solve(b);
}
static std::vector<double> temps(Case<Temp>& c) { std::vector<double> t; for (int id : c.g.ids) t.push_back(c.s->T(id)); return t; }
static void materials(Rng& R, Case<Temp>& c, const Setup& s, Mat& m, bool varied)
{
    double k = std::exp(R.uni(-3, 3)), cp = std::exp(R.uni(-2, 2));
    c.s->setMaterialProperties(s.rho, s.mu, k, cp);
    for (int id : c.g.ids) {
        double f[2] = { 1, 1 };
        if (varied) for (double& x : f) x = std::exp(R.uni(-1, 1));
        m.k.push_back(k * f[0]); m.c.push_back(cp * f[1]); m.rho.push_back(s.rho);
        if (varied) c.s->material(id, m.k.back(), m.c.back(), s.rho);
    }
}
static void heatMonitor(Case<Temp>& c, const Mat& m, const std::vector<double>& T0, const std::vector<double>& T, double dt, bool uniformMat)
{
    auto fl = fluxes(c);
    double lo = 1e300, hi = -1e300, sc = 0;
    for (double t : T0) { lo = std::min(lo, t); hi = std::max(hi, t); }
    for (size_t f = 0; f < fl.size(); ++f) if (c.g.faces[f].nei < 0) { lo = std::min(lo, c.val[f]); hi = std::max(hi, c.val[f]); expect(c.s->Tf(c.id[f].first) == c.val[f], "T.boundary", "boundary temperature %g imposed %g", (double)c.s->Tf(c.id[f].first), c.val[f]); }
    sc = std::max({ std::fabs(lo), std::fabs(hi), 1e-300 });
    auto w = heatStep(c, m, T0, fl, dt);
    for (size_t i = 0; i < T.size(); ++i) {
        expect(std::fabs(T[i] - w(i)) <= 1e-7 * sc, "T.step", "cell %d temperature %.10g, the discrete equation gives %.10g: %s", c.g.ids[i], T[i], w(i), st().desc.c_str());
        if (uniformMat) expect(T[i] >= lo - 1e-5 * sc && T[i] <= hi + 1e-5 * sc, "T.bounds", "cell %d temperature %.10g outside [%.10g, %.10g]: %s", c.g.ids[i], T[i], lo, hi, st().desc.c_str());
    }
    // heat: what the cells gained is what came through the walls
    double gain = 0, in = 0, mag = 0;
    for (size_t i = 0; i < T.size(); ++i) { double q = m.rho[i] * m.c[i] * c.g.vol[i] / dt; gain += q * (T[i] - T0[i]); mag += q * sc; }
    for (size_t f = 0; f < fl.size(); ++f) {
        auto& F = c.g.faces[f];
        if (F.nei >= 0) continue;
        double K = F.A.norm() / dist(c.g, F) * 0.5 * (m.k[F.own] + Temp::wallConductivity), rc = m.rho[F.own] * m.c[F.own] * fl[f];
        in += K * (c.val[f] - T[F.own]) - rc * (fl[f] > 0 ? T[F.own] : c.val[f]);
        mag += (K + std::fabs(rc)) * sc;
    }
    expect(std::fabs(gain - in) <= 1e-7 * mag, "T.heat", "cells gained %g, walls and openings gave %g (scale %g): %s", gain, in, mag, st().desc.c_str());
    // reported residual and gradient
    D r[5] = { 1e40, 1e40, 1e40, 1e40, 1e40 }; c.s->residual(r[0], r[1], r[2], r[3], r[4]);
    for (D x : r) expect(x >= 0 && x < 1e39, "residual", "residual %g: %s", (double)x, st().desc.c_str());
    double e = 0; for (size_t i = 0; i < T.size(); ++i) e += (T[i] - T0[i]) * (T[i] - T0[i]);
    expectNear(r[4] / (sc * sc), e / (sc * sc), 1e-9, "T.residual");
    std::vector<V3> g(T.size());
    for (size_t f = 0; f < fl.size(); ++f) {
        auto& F = c.g.faces[f];
        double v = F.nei >= 0 ? 0.5 * (T[F.own] + T[F.nei]) : c.val[f];
        g[F.own] = g[F.own] + F.A * (v / c.g.vol[F.own]);
        if (F.nei >= 0) g[F.nei] = g[F.nei] - F.A * (v / c.g.vol[F.nei]);
    }
    for (size_t i = 0; i < T.size(); ++i) {
        double A = 0; for (int f : c.g.of[i]) A += c.g.faces[f].A.norm();
        expect((v3(c.s->gradT(c.g.ids[i])) - g[i]).norm() <= 1e-9 * sc * A / c.g.vol[i], "T.gradient", "gradient off by %g", (v3(c.s->gradT(c.g.ids[i])) - g[i]).norm());
    }
    count("temperature steps compared");
}
FAMILY(heat, 700, 20000)
{
    Setup s = setup(R, 4);
    Case<Temp> c;
    c.b = box(R, s.type, s.n[0], s.n[1], s.n[2], s.graded);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 2);
    move(c.b.r, g);
    if (R.flip(0.6)) renumberBox(R, c.b, R.pick(std::vector<int>{ 1, 3, 1000 }));
    openCase(c);
    bool varied = R.flip(0.4);
    Mat m; materials(R, c, s, m, varied);
    int mode = R.ri(0, 2); // 0 anything, 1 uniform and matching, 2 hot cell
    double base = R.uni(-50, 50);
    for (size_t k = 0; k < c.val.size(); ++k) c.val[k] = mode == 0 ? R.uni(-100, 100) : base;
    for (size_t i = 0; i < c.g.ids.size(); ++i) c.s->start(c.g.ids[i], mode == 0 ? R.uni(-100, 100) : mode == 2 && i == 0 ? base + 80 : base);
    dress(c, s, g);
    int steps = R.ri(1, 8);
    describe(fmt("temperature %s, %s materials, start %s, %d steps", text(s).c_str(), varied ? "varied" : "uniform", mode == 0 ? "anything" : mode == 1 ? "uniform" : "hot cell", steps));
    sig(mode * 100000 + s.type * 1000 + s.n[0] * 100 + s.n[1] * 10 + s.n[2]); sigd(s.mu);
    for (int k = 0; k < steps; ++k) {
        double dt = R.flip(0.2) ? s.dt * R.uni(0.1, 1) : s.dt;
        if (R.flip(0.15) && mode == 0) { for (size_t q = 0; q < c.val.size(); ++q) c.val[q] = R.uni(-100, 100); impose(c); count("wall temperatures changed"); }
        if (R.flip(0.1)) { m = Mat(); materials(R, c, s, m, varied); count("materials changed"); }
        auto T0 = temps(c);
        c.s->iterate(dt);
        auto T = temps(c);
        if (speed(c) > 20 * s.U) { count("runaway"); return; }
        heatMonitor(c, m, T0, T, dt, !varied);
        if (mode == 1 && !varied) for (double t : T) expect(std::fabs(t - base) <= 1e-4 * std::fabs(base), "T.uniform", "uniform temperature %g became %g: %s", base, t, st().desc.c_str());
        if (mode == 1 && s.still) for (double t : T) expect(std::fabs(t - base) <= 1e-12 * std::fabs(base), "T.uniform-still", "uniform temperature %g became %g: %s", base, t, st().desc.c_str());
    }
    nontrivial();
}
// Long marches of still material: the steady profile between two walls is the resistance network's.
FAMILY(profile, 60, 2000)
{
    Setup s = setup(R, 4);
    s.type = ET_HEXAHEDRON; s.open = false; s.still = true; s.n[0] = R.ri(2, 8); s.n[1] = s.n[2] = 1;
    for (auto& w : s.wall) w = V3();
    Case<Temp> c;
    c.b = box(R, s.type, s.n[0], 1, 1, s.graded);
    Rigid g = randomRigid(R, 2);
    move(c.b.r, g);
    openCase(c);
    Mat m; materials(R, c, s, m, true);
    for (size_t k = 0; k < c.val.size(); ++k) { auto& F = c.g.faces[k]; if (F.nei < 0) c.val[k] = F.wall == 0 ? 0 : F.wall == 1 ? 100 : 50; }
    for (int id : c.g.ids) c.s->start(id, 50);
    dress(c, s, g);
    describe("profile: " + text(s)); sigd(s.mu); sig(s.n[0]);
    // either long marches, or no time step at all: the steady equation
    if (R.flip(0.4)) { c.s->iterate(0); count("steady solves"); }
    else for (int k = 0; k < 6; ++k) c.s->iterate(1e7 * m.rho[0] * m.c[0]);
    auto T = temps(c);
    for (size_t i = 0; i < T.size(); ++i) {
        double q = 0, mag = 0;
        for (int f : c.g.of[i]) {
            auto& F = c.g.faces[f];
            int o = F.own == (int)i ? F.nei : F.own;
            double K = F.A.norm() / dist(c.g, F) * 0.5 * (m.k[i] + (o >= 0 ? m.k[o] : 1));
            double v = K * ((o >= 0 ? T[o] : c.val[f]) - T[i]);
            q += v; mag += K * 100;
        }
        expect(std::fabs(q) <= 1e-6 * mag, "T.steady", "cell %d is out of balance by %g of %g: %s", c.g.ids[i], q, mag, st().desc.c_str());
    }
    nontrivial();
}
// ------------------------------------------------------------ volume of fluid
struct Fluids { double r0, m0, r1, m1; };
static std::vector<double> fractions(Case<Vof>& c) { std::vector<double> t; for (int id : c.g.ids) t.push_back(c.s->s(id)); return t; }
static void vofMonitor(Case<Vof>& c, const Fluids& q, const std::vector<double>& s0, const std::vector<double>& s1, double dt)
{
    auto fl = fluxes(c);
    double V = 0;
    for (size_t i = 0; i < s1.size(); ++i) {
        int id = c.g.ids[i];
        expect(s1[i] >= 0 && s1[i] <= 1, "s.bounds", "fraction %.17g of cell %d: %s", s1[i], id, st().desc.c_str());
        // properties used for this step are those of the mixture it started from
        expectNear(c.s->density(id) / (q.r0 + q.r1), (q.r0 * (1 - s0[i]) + q.r1 * s0[i]) / (q.r0 + q.r1), 1e-12, "s.density", "mixture density");
        expectNear(c.s->viscosity(id) / (q.m0 + q.m1), (q.m0 * (1 - s0[i]) + q.m1 * s0[i]) / (q.m0 + q.m1), 1e-12, "s.viscosity", "mixture viscosity");
        V = std::max(V, c.g.vol[i]);
    }
    // every transport solution: weights in [0,1] and the discrete balance of every cell
    expect(!c.s->log.empty(), "s.solved", "no transport equation was solved");
    for (auto& L : c.s->log) {
        for (auto& b : L.beta) expect(b.second >= 0 && b.second <= 1, "s.weight", "interpolation weight %g", (double)b.second);
        int n = s1.size();
        Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n); Eigen::VectorXd b = Eigen::VectorXd::Zero(n);
        for (int i = 0; i < n; ++i) { int id = c.g.ids[i]; A(i, i) += c.g.vol[i] / dt; b(i) += c.g.vol[i] / dt * L.s0.at(id); expect(std::fabs(L.s0.at(id) - s0[i]) == 0, "s.previous", "previous fraction lost"); }
        for (size_t f = 0; f < fl.size(); ++f) {
            auto& F = c.g.faces[f];
            int P = F.own, N = F.nei;
            if (N < 0) { b(P) -= fl[f] * c.val[f]; continue; }
            // the value a face carries is the same seen from both cells
            int D1 = fl[f] > 0 ? P : N, A1 = fl[f] > 0 ? N : P;
            double w = L.beta.at(c.id[f].first), vb = (1 - w) * L.before.at(c.g.ids[D1]) + w * L.before.at(c.g.ids[A1]);
            for (int k = 0; k < 2; ++k) { int C = k ? N : P; double sg = k ? -fl[f] : fl[f]; A(C, D1) += 0.5 * sg * (1 - w); A(C, A1) += 0.5 * sg * w; b(C) -= 0.5 * sg * vb; }
        }
        Eigen::PartialPivLU<Eigen::MatrixXd> lu(A);
        Eigen::VectorXd x = lu.solve(b);
        if (!(lu.rcond() > 1e-6)) { count("ill-conditioned transport"); continue; }
        for (int i = 0; i < n; ++i) { double wnt = x(i); expect(std::fabs(L.after.at(c.g.ids[i]) - wnt) <= 1e-8 * (1 + x.cwiseAbs().maxCoeff()) , "s.step", "cell %d fraction %.10g, the transport equation gives %.10g: %s", c.g.ids[i], (double)L.after.at(c.g.ids[i]), wnt, st().desc.c_str()); }
        count("transport solutions compared");
    }
    // corrections of the weights: where the donor left [0,1], by what brings it back, and nowhere else
    for (auto& L : c.s->corrections) for (size_t f = 0; f < fl.size(); ++f) {
        auto& F = c.g.faces[f];
        if (F.nei < 0) continue;
        int id = c.id[f].first, D = fl[f] > 0 ? F.own : F.nei, A = fl[f] > 0 ? F.nei : F.own;
        double b0 = L.before.at(id), b1 = L.beta.at(id), C = std::min(std::fabs(fl[f]) * dt / c.g.vol[D], 1.0);
        double sd = L.after.at(c.g.ids[D]), E = sd < 0 ? -sd : sd - 1;
        double ds = 0.5 * (L.s0.at(c.g.ids[A]) + L.after.at(c.g.ids[A]) - L.s0.at(c.g.ids[D]) - sd) * (sd < 0 ? 1 : -1);
        expect(b1 <= b0 && b1 >= 0, "s.correction.range", "weight %g corrected to %g", b0, b1);
        if (sd >= 0 && sd <= 1) { expect(b1 == b0, "s.correction.none", "weight %g of a sound donor corrected to %g: %s", b0, b1, st().desc.c_str()); continue; }
        if (b0 < 0.0101 || E < 1e-12 || C < 1e-10 || std::fabs(ds - E) < 1e-9) continue; // not corrected, or lost in rounding
        double want = ds > E ? std::max(0.0, b0 - E * (2 + C - 2 * C * b0) / (2 * C * (ds - E))) : b0;
        expect(std::fabs(b1 - want) <= 1e-6, "s.correction", "weight %g of a donor at %g corrected to %g instead of %g: %s", b0, sd, b1, want, st().desc.c_str());
        count("weight corrections compared");
    }
    c.s->corrections.clear();
    for (size_t i = 0; i < s1.size(); ++i) expect(s1[i] == std::min(std::max((double)c.s->log.back().after.at(c.g.ids[i]), 0.0), 1.0), "s.last", "fraction is not the last solution");
    c.s->log.clear();
    D r[5] = { 1e40, 1e40, 1e40, 1e40, 1e40 }; c.s->residual(r[0], r[1], r[2], r[3], r[4]);
    for (D x : r) expect(x >= 0 && x < 1e39, "residual", "residual %g: %s", (double)x, st().desc.c_str());
    double e = 0; for (size_t i = 0; i < s1.size(); ++i) e += (s1[i] - s0[i]) * (s1[i] - s0[i]);
    expectNear(r[4], e, 1e-9, "s.residual");
}
static Fluids fluids(Rng& R, const Setup& s) { double a = R.flip(0.3) ? 1 : std::exp(R.uni(-1.5, 1.5)); return { s.rho, s.mu, s.rho * a, s.mu * a }; }
FAMILY(fraction, 600, 20000)
{
    Setup s = setup(R, 4);
    if (R.flip(0.25)) { s.n[0] = R.ri(4, 12); s.n[1] = s.n[2] = 1; }
    Case<Vof> c;
    c.b = box(R, s.type, s.n[0], s.n[1], s.n[2], s.graded);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 2);
    move(c.b.r, g);
    if (R.flip(0.6)) renumberBox(R, c.b, R.pick(std::vector<int>{ 1, 3, 1000 }));
    openCase(c);
    int mode = R.ri(0, 3); // 0 anything, 1 uniform, 2 layers, 3 zero or one
    double base = R.pick(std::vector<double>{ 0, 1, R.u() }), cut = R.uni(-1, 1);
    V3 dir = unitVec(R);
    for (size_t k = 0; k < c.val.size(); ++k) c.val[k] = mode == 1 ? base : mode == 0 ? R.u() : (R.flip() ? 1 : 0);
    for (size_t i = 0; i < c.g.ids.size(); ++i) {
        double v = mode == 1 ? base : mode == 0 ? R.u() : mode == 2 ? (dir.dot(c.g.cen[i] - g.t) > cut * 0.5 ? 1 : 0) : (R.flip() ? 1 : 0);
        c.s->setInitialGamma(c.g.ids[i], v);
    }
    Fluids q = fluids(R, s);
    c.s->setMaterialProperties(q.r0, q.m0, q.r1, q.m1);
    dress(c, s, g);
    for (size_t k = 0; k < c.val.size(); ++k) if (c.g.faces[k].nei < 0) expect(c.s->sf(c.id[k].first) == c.val[k], "s.boundary", "boundary fraction %g imposed %g", (double)c.s->sf(c.id[k].first), c.val[k]);
    int steps = R.ri(1, 8);
    describe(fmt("fraction %s, start %s, density ratio %.3g, %d steps", text(s).c_str(), mode == 0 ? "anything" : mode == 1 ? "uniform" : mode == 2 ? "layers" : "zero or one", q.r1 / q.r0, steps));
    sig(mode * 100000 + s.type * 1000 + s.n[0] * 100 + s.n[1] * 10 + s.n[2]); sigd(s.mu);
    for (int k = 0; k < steps; ++k) {
        double dt = R.flip(0.2) ? s.dt * R.uni(0.1, 1) : s.dt;
        if (R.flip(0.1)) { double a = R.uni(0.8, 1.2); q.r0 *= a; q.r1 *= a; q.m0 *= a; q.m1 *= a; c.s->setMaterialProperties(q.r0, q.m0, q.r1, q.m1); count("fluids changed"); }
        if (R.flip(0.1) && mode != 1) { for (double& v : c.val) v = R.u(); impose(c); count("boundary fractions changed"); }
        auto s0 = fractions(c);
        c.s->iterate(dt);
        auto s1 = fractions(c);
        if (!(speed(c) <= 20 * s.U)) { count("runaway"); return; }
        vofMonitor(c, q, s0, s1, dt);
        if (mode == 1) for (double v : s1) expect(std::fabs(v - base) <= 1e-4, "s.uniform", "uniform fraction %g became %g: %s", base, v, st().desc.c_str());
        if (s.still) for (size_t i = 0; i < s1.size(); ++i) expect(std::fabs(s1[i] - s0[i]) <= 1e-12, "s.still", "fraction of still fluid went from %g to %g: %s", s0[i], s1[i], st().desc.c_str());
        count("fraction steps");
    }
    nontrivial();
}
// Both solvers: the image of a problem has the image as solution.
FAMILY(image, 250, 8000)
{
    Setup s = setup(R, 4);
    bool heat = R.flip();
    uint64_t gs = R.next(), vs = R.next();
    int how = R.ri(0, 3);
    Rigid g = identity();
    double L = 1, T = 1, M = 1;
    if (how == 1) g = randomRigid(R, 2);
    if (how == 2) { L = std::exp(R.uni(-2, 2)); T = std::exp(R.uni(-2, 2)); M = std::exp(R.uni(-2, 2)); g.s = L; }
    if (how == 3) g.m[0][0] = -1;
    auto build = [&](auto& c, bool second) {
        Rng q(gs); c.b = box(q, s.type, s.n[0], s.n[1], s.n[2], s.graded);
        std::vector<V3> ref;
        if (second) {
            if (how == 3) for (auto& e : c.b.r.els) {
                auto& n = e.n;
                if (e.type == ET_TETRAHEDRON) std::swap(n[0], n[1]);
                else if (e.type == ET_TRIANGULAR_PRISM) { std::swap(n[0], n[1]); std::swap(n[3], n[4]); }
                else { std::swap(n[0], n[1]); std::swap(n[3], n[2]); std::swap(n[4], n[5]); std::swap(n[7], n[6]); }
            }
            move(c.b.r, g);
            if (how == 0) renumberBox(R, c.b, R.pick(std::vector<int>{ 1, 3, 1000 }));
        }
        openCase(c);
    };
    // values by wall and by place, so that both images get the same
    Rng vq(vs);
    double wv[6]; for (double& x : wv) x = vq.u();
    auto place = [&](const V3& p) { return 0.5 + 0.5 * std::sin(7 * p.x + 5 * p.y + 3 * p.z + wv[0]); };
    auto back = [&](const V3& p, bool second) { if (!second) return p; V3 d = (p - g.t) * (1 / g.s); return V3(g.m[0][0] * d.x + g.m[1][0] * d.y + g.m[2][0] * d.z, g.m[0][1] * d.x + g.m[1][1] * d.y + g.m[2][1] * d.z, g.m[0][2] * d.x + g.m[1][2] * d.y + g.m[2][2] * d.z); };
    Setup t = s;
    double vel = L / T;
    t.rho = s.rho * M; t.mu = s.mu * M * L * L / T; t.dt = s.dt * T; t.U = s.U * vel;
    for (int w = 0; w < 6; ++w) t.wall[w] = s.wall[w] * vel;
    describe(fmt("%s image of %s %s", how == 0 ? "renumbered" : how == 1 ? "moved" : how == 2 ? "rescaled" : "mirrored", heat ? "temperature" : "fraction", text(s).c_str()));
    sig(how * 10000 + s.type * 1000 + s.n[0] * 100 + s.n[1] * 10 + s.n[2] + heat * 100000); sigd(s.mu);
    auto compare = [&](auto& a, auto& b, const std::vector<double>& x, const std::vector<double>& y, double tol) {
        double h = 1e300;
        for (double v : a.g.vol) h = std::min(h, std::cbrt(v));
        for (size_t i = 0; i < x.size(); ++i) {
            V3 w = g(a.g.cen[i]);
            size_t j = 0;
            while (j < y.size() && (b.g.cen[j] - w).norm() > 1e-6 * h * L) ++j;
            if (!expect(j < y.size(), "image.cell", "cell lost")) return;
            expect(std::fabs(x[i] - y[j]) <= tol, heat ? "image.T" : "image.s", "cell %d has %.9g, its image %.9g: %s", a.g.ids[i], x[i], y[j], st().desc.c_str());
        }
        nontrivial();
    };
    int steps = R.ri(1, 5);
    if (heat) {
        Case<Temp> a, b;
        double k = std::exp(R.uni(-3, 3)), cp = std::exp(R.uni(-2, 2));
        build(a, false); build(b, true);
        // the walls' conductivity of 1 is not rescalable
        if (how == 2) { M = T * T * T / L; t.rho = s.rho * M; t.mu = s.mu * M * L * L / T; }
        a.s->setMaterialProperties(s.rho, s.mu, k, cp); b.s->setMaterialProperties(t.rho, t.mu, k, cp * (how == 2 ? T / (M * L * L) : 1));
        for (auto* c : { &a, &b }) {
            bool second = c == &b;
            for (size_t q = 0; q < c->val.size(); ++q) if (c->g.faces[q].nei < 0) c->val[q] = wv[c->g.faces[q].wall];
            for (size_t i = 0; i < c->g.ids.size(); ++i) c->s->start(c->g.ids[i], place(back(c->g.cen[i], second)));
            dress(*c, second ? t : s, second ? g : identity());
        }
        for (int k2 = 0; k2 < steps; ++k2) { a.s->iterate(s.dt); b.s->iterate(t.dt); if (speed(a) > 20 * s.U) { count("runaway"); return; } }
        compare(a, b, temps(a), temps(b), 1e-4);
    } else {
        Case<Vof> a, b;
        build(a, false); build(b, true);
        Fluids q = fluids(R, s);
        a.s->setMaterialProperties(q.r0, q.m0, q.r1, q.m1); b.s->setMaterialProperties(q.r0 * M, q.m0 * M * L * L / T, q.r1 * M, q.m1 * M * L * L / T);
        for (auto* c : { &a, &b }) {
            bool second = c == &b;
            for (size_t q2 = 0; q2 < c->val.size(); ++q2) if (c->g.faces[q2].nei < 0) c->val[q2] = wv[c->g.faces[q2].wall];
            for (size_t i = 0; i < c->g.ids.size(); ++i) c->s->setInitialGamma(c->g.ids[i], place(back(c->g.cen[i], second)));
            dress(*c, second ? t : s, second ? g : identity());
        }
        for (int k2 = 0; k2 < steps; ++k2) { a.s->iterate(s.dt); b.s->iterate(t.dt); if (speed(a) > 20 * s.U) { count("runaway"); return; } }
        compare(a, b, fractions(a), fractions(b), 1e-3);
    }
}
// A slab carried along a channel: nothing crosses the openings, so the amount stays and its centre moves with the flow.
FAMILY_CPU(slab, 40, 1500, 60)
{
    Setup s; s.type = ET_HEXAHEDRON; s.n[0] = R.ri(20, 60); s.n[1] = s.n[2] = 1; s.graded = false; s.rho = std::exp(R.uni(-2, 2)); s.U = std::exp(R.uni(-1, 1)); s.mu = 1e-8 * s.rho; s.open = true; s.still = false;
    bool back = R.flip();
    s.inlet = back ? 1 : 0; s.outlet = 1 - s.inlet;
    double h = 1.0 / s.n[0], Co = R.pick(std::vector<double>{ 0.05, 0.1, 0.25, 0.4 });
    s.dt = Co * h / s.U;
    for (int w = 0; w < 6; ++w) s.wall[w] = w < 2 ? V3() : V3(back ? -s.U : s.U, 0, 0);
    Case<Vof> c;
    c.b = box(R, s.type, s.n[0], 1, 1, false);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 2);
    move(c.b.r, g);
    if (R.flip()) renumberBox(R, c.b, 3);
    openCase(c);
    auto along = [&](int i) { V3 d = c.g.cen[i] - g.t; double x = d.dot(g.rot(V3(1, 0, 0))); return back ? 1 - x : x; };
    double a = R.uni(0.1, 0.2), w = R.uni(0.15, 0.3), dens = R.flip() ? 1 : std::exp(R.uni(-1, 1));
    bool inverse = R.flip(0.3);
    for (size_t i = 0; i < c.g.ids.size(); ++i) { double x = along(i); c.s->setInitialGamma(c.g.ids[i], (x > a && x < a + w) != inverse ? 1 : 0); }
    for (size_t k = 0; k < c.val.size(); ++k) c.val[k] = inverse ? 1 : 0;
    c.s->setMaterialProperties(s.rho, s.mu, s.rho * dens, s.mu * dens);
    dress(c, s, g);
    describe(fmt("slab of %.2f in a channel of %d cells, Courant %.2f, density ratio %.2f%s, %s", w, s.n[0], Co, dens, back ? ", backwards" : "", inverse ? "bubble" : "slug")); sigd(s.dt); sig(s.n[0]);
    auto measure = [&](double& amount, double& centre) { amount = centre = 0; auto f = fractions(c); for (size_t i = 0; i < f.size(); ++i) { double v = inverse ? 1 - f[i] : f[i]; amount += v; centre += v * along(i); } centre /= amount; };
    double a0, c0, a1, c1;
    measure(a0, c0);
    int steps = (int)(0.4 / (s.U * s.dt));
    for (int k = 0; k < steps; ++k) { c.s->iterate(s.dt); c.s->log.clear(); c.s->corrections.clear(); }
    measure(a1, c1);
    expect(std::fabs(a1 - a0) <= 1e-3 * a0, "s.amount", "amount %.6g became %.6g in %d steps: %s", a0, a1, steps, st().desc.c_str());
    expect(std::fabs(c1 - c0 - steps * s.dt * s.U) <= 0.01, "s.carried", "slab moved %g, the flow %g: %s", c1 - c0, steps * s.dt * s.U, st().desc.c_str());
    nontrivial();
}
