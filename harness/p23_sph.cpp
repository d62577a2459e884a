// P23: smoothing kernels and the particle solver built on them.
#include "meshes.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "CmnTypes.hpp"
#include "PdeEquation.hpp"
#include "PdeField.hpp"
#include "SphParticles.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::pde;
using namespace ENigMA::sph;
using ENigMA::geometry::CGeoVector;
using ENigMA::geometry::CGeoBoundingBox;
typedef CSphKernel<D> Kernel;
static const char* NAME[] = { "cubic", "gaussian", "quintic", "spiky", "convex" };
static const double REACH[] = { 2, 3, 2, 1, 2 };
static std::unique_ptr<Kernel> make(int k, int dim, bool late)
{
    int d = late ? dim % 3 + 1 : dim;
    std::unique_ptr<Kernel> p;
    switch (k) {
    case 0: p.reset(new CSphCubicSpline<D>(d)); break;
    case 1: p.reset(new CSphGaussian<D>(d)); break;
    case 2: p.reset(new CSphQuintic<D>(d)); break;
    case 3: p.reset(new CSphSpiky<D>(d)); break;
    default: p.reset(new CSphConvex<D>(d));
    }
    if (late) p->setDimension(dim);
    return p;
}
// The shapes of the kernels, before normalisation, as published.
static double shape(int k, double q)
{
    if (q > REACH[k]) return 0;
    switch (k) {
    case 0: return q < 1 ? 1 - 1.5 * q * q + 0.75 * q * q * q : 0.25 * std::pow(2 - q, 3);
    case 1: return std::exp(-q * q);
    case 2: return std::pow(1 - q / 2, 4) * (2 * q + 1);
    case 3: return std::pow(1 - q, 3);
    default: return std::pow(2 - q, 3) * (1 + q / 2);
    }
}
static double radial(int dim, double R, std::function<double(double)> f) // integral of f(r) over a ball of radius R
{
    static const double X[4] = { 0.183434642495649805, 0.525532409916328986, 0.796666477413626740, 0.960289856497536232 }, W[4] = { 0.362683783378361983, 0.313706645877887287, 0.222381034453374471, 0.101228536290376259 };
    double s = 0;
    int n = 24;
    for (int i = 0; i < n; ++i) for (int j = 0; j < 4; ++j) for (int g = -1; g <= 1; g += 2) {
        double r = R / n * (i + 0.5 + 0.5 * g * X[j]);
        s += W[j] * R / n / 2 * f(r) * (dim == 1 ? 2 : dim == 2 ? 2 * M_PI * r : 4 * M_PI * r * r);
    }
    return s;
}
static double norm_(int k, int dim)
{
    static double c[5][4];
    if (!c[k][dim]) {
        double m = 0; // exact normalisation over all space: the gaussian is cut at 3 but normalised as if it were not
        m = k == 1 ? std::pow(M_PI, dim / 2.0) : radial(dim, REACH[k], [&](double q) { return shape(k, q); });
        c[k][dim] = 1 / m;
    }
    return c[k][dim];
}
static V3 inDim(const V3& v, int dim) { return dim == 1 ? V3(v.x) : dim == 2 ? V3(v.x, v.y) : v; }
static V3 dirIn(Rng& R, int dim) { for (;;) { V3 v = inDim(unitVec(R), dim); if (v.norm() > 0.1) return v.unit(); } }
static V3 grad(Kernel& k, const V3& r, double h, double tol) { return v3(k.gradientW(as<CGeoVector<D>>(r), h, tol)); }
static double W(Kernel& k, const V3& r, double h) { return k.W(as<CGeoVector<D>>(r), h); }
static std::string K(const char* what, int k) { return std::string(what) + "." + NAME[k]; }
FAMILY(kernels, 1500, 90000)
{
    int k = R.ri(0, 4), dim = R.ri(1, 3);
    double h = R.flip(0.3) ? 1 : std::exp(R.uni(-4, 4));
    auto p = make(k, dim, R.flip(0.3));
    describe(fmt("%s, dimension %d, h %g", NAME[k], dim, h));
    sig(k * 10 + dim); sigd(h);
    double C = norm_(k, dim) / std::pow(h, dim), peak = C * shape(k, 0), reach = REACH[k] * h;
    double one = radial(dim, reach, [&](double r) { return W(*p, V3(r), h); });
    expect(std::fabs(one - 1) <= (k == 1 ? 1e-3 : 1e-9), K("unity", k).c_str(), "integral is %g: %s", one, st().desc.c_str());
    V3 zero = grad(*p, V3(), h, R.flip() ? 0.0 : 1e-6);
    expect(zero.norm() == 0, K("centre", k).c_str(), "gradient at the centre is (%g,%g,%g): %s", zero.x, zero.y, zero.z, st().desc.c_str());
    double last = 1e300;
    std::vector<double> qs;
    for (int i = 0; i < 12; ++i) qs.push_back(R.uni(0, REACH[k] * 1.15));
    qs.push_back(0); qs.push_back(std::min(1.0, REACH[k]) * (1 + (R.flip() ? 1e-9 : -1e-9))); qs.push_back(REACH[k] * (1 + 1e-9));
    std::sort(qs.begin(), qs.end());
    for (double q : qs) {
        V3 d = dirIn(R, dim), r = d * (q * h);
        double w = W(*p, r, h);
        expect(w >= 0 && w <= last * (1 + 1e-12), K("monotone", k).c_str(), "W is %g at q = %g, %g before: %s", w, q, last, st().desc.c_str());
        last = w;
        if (q > REACH[k]) { expect(w == 0 && grad(*p, r, h, 0).norm() == 0 && p->laplacianW(as<CGeoVector<D>>(r), h) == 0, K("support", k).c_str(), "not zero at q = %g: %s", q, st().desc.c_str()); continue; }
        expectNear(w, C * shape(k, q), 1e-9 * peak, K("value", k).c_str(), st().desc.c_str());
        expectNear(W(*p, d * (-q * h), h), w, 1e-12 * peak, K("even", k).c_str(), st().desc.c_str());
        if (dim > 1) expectNear(W(*p, dirIn(R, dim) * (q * h), h), w, 1e-9 * peak, K("radial", k).c_str(), st().desc.c_str());
        double e = 1e-5;
        if (q < 2 * e || q > REACH[k] - 2 * e) continue;
        V3 g = grad(*p, r, h, 0.0);
        double want = -C / h * (shape(k, q + e) - shape(k, q - e)) / (2 * e); // the gradient at the centre of the kernel points to the neighbour
        expect((g - d * want).norm() <= 1e-5 * peak / h, K("gradient", k).c_str(), "gradient (%g,%g,%g) instead of %g along (%g,%g,%g) at q = %g: %s", g.x, g.y, g.z, want, d.x, d.y, d.z, q, st().desc.c_str());
        V3 gm = grad(*p, d * (-q * h), h, 0.0);
        expect((g + gm).norm() <= 1e-12 * peak / h * (1 + want * h / peak), K("odd", k).c_str(), "gradient does not change sign with the direction: %s", st().desc.c_str());
        double tol = R.uni(0, 0.5);
        V3 gt = grad(*p, r, h, tol);
        if (q > tol) expect((gt - g).norm() <= 1e-12 * peak / h, K("tolerance", k).c_str(), "a tolerance of %g changes the gradient at q = %g: %s", tol, q, st().desc.c_str());
        else if (k != 1) expect(std::fabs(gt.dot(d) - q / tol * grad(*p, d * (tol * h), h, 0.0).dot(d)) <= 1e-9 * peak / h, K("softened", k).c_str(), "gradient %g at q = %g below the tolerance %g is not linear: %s", gt.dot(d), q, tol, st().desc.c_str());
        double L = p->laplacianW(as<CGeoVector<D>>(r), h);
        // the convex kernel uses sqrt((2-q)^3) for half of (2-q)^3 in this derivative only; an existing test holds it in place
        double wrong = k == 4 ? h * C * (-q * (std::pow(2 - q, 1.5) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) + dim * shape(k, q)) : 0;
        if (k == 4 && std::fabs(L - h * (dim * w + g.dot(r))) > 1e-9 * peak * h && std::fabs(L - wrong) <= 1e-9 * peak * h) {
            expect(false, "exchange.convex.sqrt", "laplacianW of the convex kernel is not h(dW + g.r): %s", st().desc.c_str());
            continue;
        }
        expect(L >= 0, K("exchange.sign", k).c_str(), "laplacianW is %g at q = %g: %s", L, q, st().desc.c_str());
        expectNear(p->laplacianW(as<CGeoVector<D>>(d * (-q * h)), h), L, 1e-12 * std::fabs(L), K("exchange.even", k).c_str(), st().desc.c_str());
        expect(std::fabs(L - h * (dim * w + g.dot(r))) <= 1e-9 * peak * h, K("exchange", k).c_str(), "laplacianW is %g, not h(dW + g.r) = %g at q = %g: %s", L, h * (dim * w + g.dot(r)), q, st().desc.c_str());
    }
    nontrivial();
    // other evaluations in between leave no trace
    double h2 = h * R.uni(0.5, 2), q = R.uni(0.05, 0.95);
    double a = W(*p, V3(q * h), h);
    W(*p, V3(q * h), h2); grad(*p, V3(q * h), h2, 0);
    expect(W(*p, V3(q * h), h) == a, K("stateless", k).c_str(), "value changed after other evaluations: %s", st().desc.c_str());
}
// Sums over a lattice: the kernel represents constants and linear fields, in every dimension and at every scale.
FAMILY(lattice, 120, 6000)
{
    int k = R.ri(0, 4), dim = R.ri(1, 3);
    double h = std::exp(R.uni(-3, 3)), dx = h * REACH[k] / (dim == 3 ? 7 : dim == 2 ? 12 : 30) * R.uni(0.9, 1.1);
    auto p = make(k, dim, false);
    describe(fmt("lattice %s, dimension %d, h %g, spacing %g", NAME[k], dim, h, dx));
    sig(k * 10 + dim); sigd(h);
    V3 off = inDim(V3(R.uni(0, 1), R.uni(0, 1), R.uni(0, 1)) * dx, dim), lin = inDim(inBox(R, 1), dim), sg;
    int n = (int)(REACH[k] * h / dx) + 2;
    double s = 0, V = std::pow(dx, dim), sv = 0;
    for (int i = -n; i <= n; ++i) for (int j = dim > 1 ? -n : 0; j <= (dim > 1 ? n : 0); ++j) for (int l = dim > 2 ? -n : 0; l <= (dim > 2 ? n : 0); ++l) {
        V3 r = V3(i, j, l) * dx + off;
        s += V * W(*p, r, h);
        sv += V * W(*p, r, h) * lin.dot(r);
        sg = sg + grad(*p, r, h, 1e-9) * (V * lin.dot(r));
        count("particles summed");
    }
    expect(std::fabs(s - 1) <= 0.03, K("sum.unity", k).c_str(), "sum of the kernel is %g: %s", s, st().desc.c_str());
    expect(std::fabs(sv) <= 0.03 * lin.norm() * h, K("sum.linear", k).c_str(), "a linear field is represented with error %g: %s", sv, st().desc.c_str());
    expect((sg - lin).norm() <= (k == 3 ? 0.12 : 0.05) * lin.norm(), K("sum.gradient", k).c_str(), "gradient of a linear field is off by %g of %g: %s", (sg - lin).norm(), lin.norm(), st().desc.c_str());
    nontrivial();
}
// Particles against the same sums done in full, step by step.
FAMILY(particles, 250, 12000)
{
    int k = R.ri(0, 4), dim = R.ri(1, 3), n = R.ri(2, 90);
    double L = R.flip(0.5) ? 1 : std::exp(R.uni(-2, 2)), h = L / std::pow(n, 1.0 / dim) * R.uni(0.4, 2), mass = std::exp(R.uni(-2, 2)), diff = std::exp(R.uni(-2, 1));
    bool cyclic = R.flip(0.4), same = R.flip(0.15);
    V3 vel = R.flip(0.4) ? V3() : inDim(inBox(R, 1), dim) * L, lo, hi = inDim(V3(L, L, L), dim);
    double dt = R.uni(0.01, 0.3);
    auto ker = make(k, dim, false), ref = make(k, dim, false);
    Mesh m;
    std::vector<int> ids;
    { std::set<int> u; int spread = R.pick(std::vector<int>{ 1, 3, 1000 }); while ((int)u.size() < n) u.insert(R.ri(0, spread * n)); ids.assign(u.begin(), u.end()); R.shuffle(ids); }
    for (int i = 0; i < n; ++i) m.addNode(ids[i], as<CMshNode<D>>(inDim(V3(R.uni(0, L), R.uni(0, L), R.uni(0, L)), dim)));
    CPdeField<D> T;
    T.setMesh(m); T.setDiscretMethod(DM_SPH); T.setDiscretOrder(DO_LINEAR); T.setDiscretLocation(DL_NODE); T.setSimulationType(ST_THERMAL); T.setNbDofs(1);
    T.u.resize(n);
    std::map<int, double> fix;
    double t0 = R.uni(-1, 1);
    for (int i = 0; i < n; ++i) { T.u(i) = same ? t0 : R.uni(-1, 1); if (!same && R.flip(0.15)) { fix[i] = R.uni(-1, 1); T.setFixedValue(i, fix[i]); } }
    CSphParticles<D> s(*ker);
    // the step is small enough for every update to be an average: estimated from the largest exchange
    auto pos = [&] { std::vector<V3> x; for (int i = 0; i < n; ++i) x.push_back(v3(T.mesh().node(T.mesh().nodeId(i)))); return x; };
    describe(fmt("%d particles, %s, dimension %d, L %g, h %g, mass %g, diffusion %g, dt %g%s%s", n, NAME[k], dim, L, h, mass, diff, dt, cyclic ? ", cyclic" : "", vel.norm() > 0 ? ", moving" : ""));
    sig(k * 1000 + n * 10 + dim); sigd(h);
    auto dens = [&](const std::vector<V3>& x) { std::vector<double> d(n, 0.0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d[i] += mass * W(*ref, x[j] - x[i], h); return d; };
    auto x0 = pos();
    auto d0 = dens(x0);
    double rate = 0;
    for (int i = 0; i < n; ++i) { double q = 0; for (int j = 0; j < n; ++j) q += mass / d0[j] * ref->laplacianW(as<CGeoVector<D>>(x0[j] - x0[i]), h); rate = std::max(rate, q); }
    diff = R.uni(0.05, 0.6) / (rate * dt + 1e-300);
    s.init(T, mass, diff, h, dt, cyclic);
    s.setBoundary(CGeoBoundingBox<D>(lo.x, lo.y, lo.z, hi.x, hi.y, hi.z));
    s.setInitialVelocity(T, as<CGeoVector<D>>(vel));
    int steps = R.ri(1, 5);
    for (int t = 0; t < steps; ++t) {
        auto x = pos();
        auto d = dens(x);
        Eigen::VectorXd u = T.u, w = u;
        s.solve(T);
        auto y = pos();
        for (int i = 0; i < n; ++i) {
            V3 want = x[i] + vel * dt;
            if (cyclic) {
                auto wrap = [&](double v, double a, double b) { return v > b ? v - (b - a) : v < a ? v + (b - a) : v; };
                want = V3(wrap(want.x, lo.x, hi.x), wrap(want.y, lo.y, hi.y), wrap(want.z, lo.z, hi.z));
            }
            V3 e = want - y[i];
            if (cyclic) for (double* c : { &e.x, &e.y, &e.z }) if (std::fabs(std::fabs(*c) - L) < 1e-9 * L) *c = 0; // on the border: either side
            expect(e.norm() <= 1e-9 * L, "moved", "particle %d is at (%g,%g,%g) instead of (%g,%g,%g): %s", T.mesh().nodeId(i), y[i].x, y[i].y, y[i].z, want.x, want.y, want.z, st().desc.c_str());
            expect(std::fabs(s.density(i) - d[i]) <= 1e-9 * d[i], "density", "density %g instead of %g: %s", s.density(i), d[i], st().desc.c_str());
        }
        double total = 0, was = 0, mn = u.minCoeff(), mx = u.maxCoeff(), load = 0;
        for (auto& f : fix) { mn = std::min(mn, f.second); mx = std::max(mx, f.second); }
        for (int i = 0; i < n; ++i) {
            if (fix.count(i)) { w(i) = fix[i]; continue; }
            double q = 0, a = 0;
            for (int j = 0; j < n; ++j) { double l = mass / d[j] * ref->laplacianW(as<CGeoVector<D>>(y[j] - y[i]), h); q += (u(j) - u(i)) * l; a += l; }
            w(i) += diff * dt * q; load = std::max(load, diff * dt * a);
        }
        for (int i = 0; i < n; ++i) {
            if (fix.count(i)) expect(T.u(i) == fix[i], "fixed", "fixed particle has %g instead of %g: %s", T.u(i), fix[i], st().desc.c_str());
            // a neighbour exactly at the end of the kernel may be counted or not
            expect(std::fabs(T.u(i) - w(i)) <= 1e-9, "diffusion", "value %g instead of %g (from %g) in step %d: %s", T.u(i), w(i), u(i), t, st().desc.c_str());
            if (load <= 1) expect(T.u(i) >= mn - 1e-9 && T.u(i) <= mx + 1e-9, "bounds", "value %g outside %g..%g: %s", T.u(i), mn, mx, st().desc.c_str());
            if (same) expect(std::fabs(T.u(i) - t0) <= 1e-12, "uniform", "a uniform value changed from %g to %g: %s", t0, T.u(i), st().desc.c_str());
            was += u(i) / d[i]; total += T.u(i) / d[i];
        }
        if (fix.empty()) expect(std::fabs(total - was) <= 1e-8 * n / *std::min_element(d.begin(), d.end()), "conserved", "the amount carried by the particles went from %g to %g: %s", was, total, st().desc.c_str());
        count("particle steps", n); nontrivial();
    }
}
// A row of particles carried around a cyclic box keeps its order and spacing.
FAMILY(carried, 40, 2000)
{
    int n = R.ri(5, 40), dim = R.ri(1, 3), ax = R.ri(0, dim - 1);
    double L = std::exp(R.uni(-1, 1)), dt = 0.1, v = R.uni(-2, 2) * L;
    describe(fmt("row of %d along %d, speed %g", n, ax, v));
    sig(n * 10 + ax); sigd(v);
    auto along = [&](double c) { return ax == 0 ? V3(c) : ax == 1 ? V3(0, c) : V3(0, 0, c); };
    Mesh m;
    for (int i = 0; i < n; ++i) m.addNode(i, as<CMshNode<D>>(along((i + 0.37) * L / n)));
    CPdeField<D> T;
    T.setMesh(m); T.setDiscretMethod(DM_SPH); T.setDiscretLocation(DL_NODE); T.setNbDofs(1);
    T.u.setZero(n);
    CSphSpiky<D> ker(dim);
    CSphParticles<D> s(ker);
    s.init(T, 1.0, 0.0, L / n, dt, true);
    V3 hi = inDim(V3(L, L, L), dim);
    s.setBoundary(CGeoBoundingBox<D>(0, 0, 0, hi.x, hi.y, hi.z));
    s.setInitialVelocity(T, as<CGeoVector<D>>(along(v)));
    for (int t = 0; t < 30; ++t) s.solve(T);
    std::vector<double> c;
    for (int i = 0; i < n; ++i) { V3 p = v3(T.mesh().node(i)); double q = ax == 0 ? p.x : ax == 1 ? p.y : p.z; expect(q >= -1e-9 * L && q <= L * (1 + 1e-9), "carried.inside", "particle left the box: %g: %s", q, st().desc.c_str()); c.push_back(q); }
    std::sort(c.begin(), c.end());
    for (int i = 1; i < n; ++i) if (!expect(std::fabs(c[i] - c[i - 1] - L / n) <= 1e-6 * L, "carried.spacing", "spacing is %g instead of %g: %s", c[i] - c[i - 1], L / n, st().desc.c_str())) return;
    nontrivial();
}
