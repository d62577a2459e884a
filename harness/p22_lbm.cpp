// P22: the D2Q9 lattice Boltzmann solver against an independent model, through the velocities it reports.
#include "gen.hpp"
#include "CmnTypes.hpp"
#include "LbmLidDrivenSolver.hpp"
using namespace gen;
using namespace mon;
typedef ENigMA::lbm::CLbmLidDrivenSolver<double, 2, 9> Lbm;
// Populations are kept per velocity (dx,dy); every cell collides with conserved mass and momentum, then pushes to its neighbours.
struct Model {
    int nx, ny;
    struct Cell { double f[3][3], rho = 1, u = 0, v = 0; bool wall = false; };
    std::vector<Cell> c;
    double worst = 0; // change of mass and momentum in a collision
    Cell& at(int i, int j) { return c[i * (ny + 1) + j]; }
    static double eq(int a, int b, double rho, double u, double v)
    {
        double w = (a == 0 ? 2. / 3 : 1. / 6) * (b == 0 ? 2. / 3 : 1. / 6), eu = a * u + b * v;
        return w * rho * (1 + 3 * eu + 4.5 * eu * eu - 1.5 * (u * u + v * v));
    }
    Model(int x, int y) : nx(x), ny(y), c((x + 1) * (y + 1)) { reset(); }
    void reset() { for (auto& k : c) { k.rho = 1; k.u = k.v = 0; for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) k.f[a + 1][b + 1] = eq(a, b, 1, 0, 0); } }
    bool border(int i, int j) const { return i == 0 || j == 0 || i == nx || j == ny; }
    void evolve(double tau)
    {
        struct Post { double f[3][3]; };
        std::vector<Post> post(c.size()), in(c.size());
        for (size_t k = 0; k < c.size(); ++k) {
            double dm = 0, dx = 0, dy = 0;
            for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) {
                double f = c[k].f[a + 1][b + 1], g = c[k].wall ? f : f - (f - eq(a, b, c[k].rho, c[k].u, c[k].v)) / tau;
                post[k].f[a + 1][b + 1] = g; in[k].f[a + 1][b + 1] = 0;
                dm += g - f; dx += a * (g - f); dy += b * (g - f);
            }
            if (!c[k].wall) worst = std::max({ worst, std::fabs(dm), std::fabs(dx), std::fabs(dy) });
        }
        for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) {
            int p = i + a, q = j + b;
            if (p < 0 || q < 0 || p > nx || q > ny) continue;
            in[p * (ny + 1) + q].f[a + 1][b + 1] = post[i * (ny + 1) + j].f[a + 1][b + 1];
        }
        for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) {
            Cell& k = at(i, j);
            auto& g = in[i * (ny + 1) + j];
            if (k.wall) for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) k.f[a + 1][b + 1] = g.f[1 - a][1 - b]; // everything goes back where it came from
            else if (!border(i, j)) memcpy(k.f, g.f, sizeof k.f);
            if (border(i, j)) continue;
            double m = 0, x = 0, y = 0;
            for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) { double f = k.f[a + 1][b + 1]; m += f; x += a * f; y += b * f; }
            k.rho = m; k.u = x / m; k.v = y / m;
        }
        for (int i = 0; i <= nx; ++i) { // the lid: its own velocity, density and deviation of the row below
            Cell &k = at(i, ny), &l = at(i, ny - 1);
            if (k.wall) continue;
            k.rho = l.rho;
            for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b)
                k.f[a + 1][b + 1] = eq(a, b, k.rho, k.u, k.v) + (l.wall ? 0 : l.f[a + 1][b + 1] - eq(a, b, l.rho, l.u, l.v));
        }
    }
    double mass() { double s = 0; for (auto& k : c) for (auto& r : k.f) for (double f : r) s += f; return s; }
};
struct Pair {
    Lbm s;
    Model m;
    int nx, ny;
    Pair(int x, int y) : s(x, y, 1), m(x, y), nx(x), ny(y) { s.init(); }
    void wall(int i, int j, bool on) { s.setBoundary(i, j, on); m.at(i, j).wall = on; }
    void vel(int i, int j, double u, double v) { s.setVelocity(i, j, 0, u); s.setVelocity(i, j, 1, v); m.at(i, j).u = u; m.at(i, j).v = v; }
    void rho(int i, int j, double r) { s.setDensity(i, j, r); m.at(i, j).rho = r; }
    void box(bool lid) { for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) if (i == 0 || i == nx || j == 0 || (lid && j == ny)) wall(i, j, true); }
};
static bool compare(Pair& p, double U, int t)
{
    for (int i = 0; i <= p.nx; ++i) for (int j = 0; j <= p.ny; ++j) {
        auto& k = p.m.at(i, j);
        if (k.wall && !p.m.border(i, j)) continue; // what an obstacle reports inside is not a velocity of the fluid
        double u = p.s.getVelocity(i, j, 0), v = p.s.getVelocity(i, j, 1);
        const char* key = p.m.border(i, j) ? "border" : "velocity";
        if (!expect(std::fabs(u - k.u) <= 1e-9 * U + 1e-13 && std::fabs(v - k.v) <= 1e-9 * U + 1e-13, key, "velocity (%g,%g) at %d,%d after step %d instead of (%g,%g): %s", u, v, i, j, t, k.u, k.v, st().desc.c_str())) return false;
        if (!expect(p.s.getBoundary(i, j) == (k.wall ? 1 : 0), "boundary", "boundary flag at %d,%d changed: %s", i, j, st().desc.c_str())) return false;
    }
    return true;
}
FAMILY(model, 200, 12000)
{
    int nx = R.ri(2, 24), ny = R.ri(2, 24);
    if (R.flip(0.2)) ny = nx;
    double tau = 0.5 + std::exp(R.uni(-3, 1.5)), U = std::exp(R.uni(-6, -2));
    bool lid = R.flip(0.75), stir = R.flip(0.4), dens = R.flip(0.3);
    int obst = R.flip(0.5) ? 0 : R.ri(1, 5), runs = R.flip(0.2) ? 2 : 1, corners = R.ri(0, 2);
    describe(fmt("%d x %d, tau %g, U %g%s%s%s, %d obstacles, %d runs", nx, ny, tau, U, lid ? ", lid" : ", closed", stir ? ", stirred" : "", dens ? ", densities" : "", obst, runs));
    sig(nx * 100 + ny); sigd(tau); sigd(U);
    Pair p(nx, ny);
    for (int run = 0; run < runs; ++run) {
        if (run) { p.s.init(); p.m.reset(); }
        if (R.flip(0.9)) p.box(!lid);
        if (corners == 1) { p.wall(0, ny, false); p.wall(nx, ny, false); }
        for (int k = 0; k < obst; ++k) p.wall(R.ri(1, nx - 1), R.ri(1, ny - 1), true);
        bool even = R.flip();
        double lv = R.flip(0.3) ? R.uni(-0.3, 0.3) * U : 0;
        if (lid) for (int i = 0; i <= nx; ++i) p.vel(i, ny, even ? U : R.uni(-U, U), lv);
        if (stir) for (int i = 1; i < nx; ++i) for (int j = 1; j < ny; ++j) p.vel(i, j, R.uni(-U, U), R.uni(-U, U));
        if (dens) for (int i = 1; i < nx; ++i) for (int j = 1; j < ny; ++j) p.rho(i, j, 1 + R.uni(-U, U));
        int steps = R.ri(5, 60);
        for (int t = 0; t < steps; ++t) {
            if (R.flip(0.03)) p.vel(R.ri(1, nx - 1), R.ri(1, ny - 1), R.uni(-U, U), R.uni(-U, U));
            if (R.flip(0.02) && lid) for (int i = 0; i <= nx; ++i) p.vel(i, ny, -U, 0);
            p.s.evolve(tau); p.m.evolve(tau);
            double V = 0;
            for (auto& k : p.m.c) V = std::max(V, std::fabs(k.u) + std::fabs(k.v));
            if (!(V < 0.5)) { count("unstable"); return; }
            if (!compare(p, U, t)) return;
            nontrivial(); count("steps compared");
        }
    }
}
// Closed and set in motion once: the model the solver agrees with keeps its mass, and the motion dies out.
FAMILY(closed, 40, 2000)
{
    int nx = R.ri(3, 16), ny = R.ri(3, 16);
    double tau = R.uni(0.7, 2), U = 0.05;
    describe(fmt("closed %d x %d, tau %g", nx, ny, tau));
    sig(nx * 100 + ny); sigd(tau);
    Pair p(nx, ny);
    p.box(true);
    double w = R.uni(-1, 1);
    p.s.evolve(tau); p.m.evolve(tau);
    for (int i = 1; i < nx; ++i) for (int j = 1; j < ny; ++j) p.vel(i, j, U * w * std::sin(M_PI * i / nx) * std::cos(M_PI * j / ny), -U * w * std::cos(M_PI * i / nx) * std::sin(M_PI * j / ny));
    p.s.evolve(tau); p.m.evolve(tau);
    double m0 = p.m.mass(), e0 = 0, e1 = 0;
    auto energy = [&] { double e = 0; for (int i = 1; i < nx; ++i) for (int j = 1; j < ny; ++j) e += std::pow(p.s.getVelocity(i, j, 0), 2) + std::pow(p.s.getVelocity(i, j, 1), 2); return e; };
    e0 = energy();
    p.m.worst = 0;
    int steps = 40 * std::max(nx, ny);
    for (int t = 0; t < steps; ++t) { p.s.evolve(tau); p.m.evolve(tau); }
    if (!compare(p, U, steps)) return;
    e1 = energy();
    expect(p.m.worst < 1e-14 && std::fabs(p.m.mass() - m0) < 1e-9 * m0, "conserved", "mass of the model drifted from %.12g to %.12g: %s", m0, p.m.mass(), st().desc.c_str());
    expect(e1 <= e0 * 0.5 + 1e-26, "decay", "energy went from %g to %g in %d steps: %s", e0, e1, steps, st().desc.c_str());
    nontrivial();
}
FAMILY(rest, 60, 3000)
{
    int nx = R.ri(2, 30), ny = R.ri(2, 30);
    double tau = 0.5 + std::exp(R.uni(-4, 2));
    describe(fmt("rest %d x %d, tau %g", nx, ny, tau));
    sig(nx * 100 + ny); sigd(tau);
    Pair p(nx, ny);
    if (R.flip(0.8)) p.box(R.flip());
    for (int k = R.ri(0, 5); k > 0; --k) p.wall(R.ri(1, nx - 1), R.ri(1, ny - 1), true);
    for (int run = 0; run < 2; ++run) {
        for (int t = 0; t < 40; ++t) {
            p.s.evolve(tau);
            for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j)
                if (!expect(std::fabs(p.s.getVelocity(i, j, 0)) + std::fabs(p.s.getVelocity(i, j, 1)) <= 1e-13, "rest", "%d,%d moves with %g,%g in step %d: %s", i, j, p.s.getVelocity(i, j, 0), p.s.getVelocity(i, j, 1), t, st().desc.c_str())) return;
        }
        // disturb it, then start over: init() must leave nothing behind
        for (int i = 1; i < nx; ++i) for (int j = 1; j < ny; ++j) p.s.setVelocity(i, j, R.ri(0, 1), 0.05);
        for (int t = 0; t < 5; ++t) p.s.evolve(tau);
        p.s.init();
        count("restarts");
    }
    nontrivial();
}
// The lid driven the other way gives the mirrored flow; a closed square box can be turned; the same run twice is the same.
FAMILY(images, 60, 3000)
{
    int how = R.ri(0, 2), nx = R.ri(3, 20), ny = how == 1 ? nx : R.ri(3, 20);
    double tau = R.uni(0.6, 2), U = R.uni(0.01, 0.1);
    describe(fmt("%s %d x %d, tau %g, U %g", how == 0 ? "mirrored" : how == 1 ? "turned" : "repeated", nx, ny, tau, U));
    sig(nx * 100 + ny + how * 100000); sigd(tau);
    Pair a(nx, ny), b(nx, ny);
    a.box(how == 1); b.box(how == 1);
    auto img = [&](int i, int j, int& p, int& q) { if (how == 0) { p = nx - i; q = j; } else if (how == 1) { p = nx - j; q = i; } else { p = i; q = j; } };
    auto imv = [&](double u, double v, double& x, double& y) { if (how == 0) { x = -u; y = v; } else if (how == 1) { x = -v; y = u; } else { x = u; y = v; } };
    auto put = [&](int i, int j, double u, double v) { int p, q; double x, y; img(i, j, p, q); imv(u, v, x, y); a.vel(i, j, u, v); b.vel(p, q, x, y); };
    if (how != 1) for (int i = 0; i <= nx; ++i) put(i, ny, U * R.uni(0.5, 1), 0);
    for (int k = R.ri(0, 3); k > 0; --k) { int i = R.ri(1, nx - 1), j = R.ri(1, ny - 1), p, q; img(i, j, p, q); a.wall(i, j, true); b.wall(p, q, true); }
    for (int i = 1; i < nx; ++i) for (int j = 1; j < ny; ++j) put(i, j, R.uni(-U, U), R.uni(-U, U));
    for (int t = 0; t < 60; ++t) {
        a.s.evolve(tau); b.s.evolve(tau);
        for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) {
            int p, q; double x, y;
            img(i, j, p, q); imv(a.s.getVelocity(i, j, 0), a.s.getVelocity(i, j, 1), x, y);
            double e = std::fabs(b.s.getVelocity(p, q, 0) - x) + std::fabs(b.s.getVelocity(p, q, 1) - y);
            if (!(e < 1)) { count("unstable"); return; }
            if (!expect(e <= (how == 2 ? 0 : 1e-8 * U), "image", "%d,%d differs from its image by %g in step %d: %s", i, j, e, t, st().desc.c_str())) return;
        }
    }
    nontrivial();
}
// The steady cavity at Reynolds number 100: the recirculation of the literature (Ghia et al.: -0.2109) and no net flow through it.
FAMILY_CPU(cavity, 3, 40, 60)
{
    int n = R.ri(24, 36), dir = (R.flip() ? 1 : -1);
    double U = R.uni(0.06, 0.11), tau = 3 * U * n / 100 + 0.5;
    describe(fmt("cavity of %d at Re 100, U %g", n, dir * U));
    sig(n); sigd(U);
    Lbm s(n, n, 1);
    s.init();
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) if (i == 0 || i == n || j == 0) s.setBoundary(i, j, 1);
    for (int i = 0; i <= n; ++i) s.setVelocity(i, n, 0, dir * U);
    for (int t = 0; t < 25 * n / U; ++t) s.evolve(tau);
    double mn = 0, q = 0, a = 0;
    for (int j = 0; j <= n; ++j) { double u = dir * s.getVelocity(n / 2, j, 0) / U; mn = std::min(mn, u); q += u * (j == n ? 0.5 : 1); a += std::fabs(u); }
    expect(mn < -0.185 && mn > -0.225, "cavity.profile", "strongest back flow on the centre line is %g: %s", mn, st().desc.c_str());
    expect(std::fabs(q) <= 0.07 * a, "cavity.flux", "a net flow of %g of %g passes through the cavity: %s", q, a, st().desc.c_str());
    nontrivial();
}
