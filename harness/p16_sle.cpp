// P16: linear systems, their solution and their algebra.
#include "gen.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "CmnTypes.hpp"
#include "SleSystem.hpp"
using namespace gen;
using namespace mon;
using namespace ENigMA::sle;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef CSleSystem<double> Sys;

static const char* TN[] = { "symmetric", "general", "dense" };
// Random well conditioned matrix of the kind the type announces.
static Mat matrix(Rng& R, int type, int n, bool& weak)
{
    Mat A = Mat::Zero(n, n);
    weak = false;
    double sc = std::exp(R.uni(-6, 6));
    if (type == 2) {
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = R.uni(-1, 1);
        for (int i = 0; i < n; ++i) A(i, (i * 7 + 3) % n == i ? i : (n - 1 - i)) += (R.flip() ? 1 : -1) * (1 + 0.8 * n);
        return A * sc;
    }
    int per = R.ri(1, 5);
    for (int i = 0; i < n; ++i) for (int k = 0; k < per; ++k) {
        int j = R.flip(0.4) ? (i + 1) % n : R.ri(0, n - 1);
        if (j == i) continue;
        double v = R.flip(0.7) ? -R.u() : R.uni(-1, 1);
        A(i, j) += v;
        if (type == 0) A(j, i) += v;
    }
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j) if (j != i) s += type == 0 ? std::fabs(A(i, j)) : std::max(std::fabs(A(i, j)), 0.0) + 0.0;
        A(i, i) = s * (1 + R.uni(0.05, 1)) + 0.1;
    }
    if (R.flip(0.3)) A = -A; // what a discrete laplacian looks like
    return A * sc;
}
static void store(Rng& R, Sys& s, const Mat& A, const Vec& b, int type)
{
    s.matrixType = (EMatrixType)type;
    s.matrixA.resize(A.rows(), A.cols());
    std::vector<std::pair<int, int>> e;
    for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) if (A(i, j) != 0) e.push_back({ i, j });
    R.shuffle(e);
    for (auto& p : e) s.matrixA.coeffRef(p.first, p.second) += A(p.first, p.second);
    if (R.flip()) s.matrixA.makeCompressed();
    s.vectorB = b;
}
static Vec rhs(Rng& R, int n)
{
    Vec b(n);
    double sc = std::exp(R.uni(-6, 6));
    for (int i = 0; i < n; ++i) b(i) = R.flip(0.2) ? 0 : sc * R.uni(-1, 1);
    return b;
}
static bool same(const Mat& A, const Mat& B, double tol = 1e-12) { return A.rows() == B.rows() && A.cols() == B.cols() && A.allFinite() && (A - B).norm() <= tol * (A.norm() + B.norm() + 1e-300); }
static void solved(Sys& s, const Mat& A, const Vec& b, const char* key)
{
    Vec x = s.solve();
    if (!expect(x.size() == b.size(), (std::string(key) + ".size").c_str(), "solution has %d entries of %d", (int)x.size(), (int)b.size())) return;
    Vec ref = A.fullPivLu().solve(b);
    double res = (A * x - b).norm();
    expect(x.allFinite() && res <= 1e-8 * (b.norm() + 1e-300), (std::string(key) + ".residual").c_str(), "residual %g of %g (n=%d) %s", res, b.norm(), (int)b.size(), st().desc.c_str());
    expect(x.allFinite() && (x - ref).norm() <= 1e-6 * (ref.norm() + 1e-300), (std::string(key) + ".solution").c_str(), "solution off by %g of %g %s", (x - ref).norm(), ref.norm(), st().desc.c_str());
    expect(same(s.matrixA, A) && same(s.vectorB, b), (std::string(key) + ".untouched").c_str(), "solve changed the system");
    Vec y = s.solve();
    expect(y.size() == x.size() && (y - x).norm() == 0, (std::string(key) + ".again").c_str(), "second solve differs");
}
FAMILY(solve, 3000, 120000)
{
    int type = R.ri(0, 2), n = R.flip(0.1) ? 1 : R.flip(0.1) ? R.ri(60, 150) : R.ri(2, 60);
    bool weak;
    Mat A = matrix(R, type, n, weak);
    Vec b = R.flip(0.03) ? Vec::Zero(n) : rhs(R, n);
    describe(fmt("%s n=%d scale %g", TN[type], n, A.norm()));
    sig(type); sig(n); sigd(A.sum());
    Sys s;
    store(R, s, A, b, type);
    solved(s, A, b, TN[type]);
    if (getenv("DBG")) std::cerr << A << "\nb=" << b.transpose() << "\n";
    // a copy is independent of the original
    Sys c(s);
    c.matrixA.coeffRef(0, 0) *= 2;
    c.vectorB(0) += 1;
    expect(same(s.matrixA, A) && same(s.vectorB, b), "copy", "changing a copy changed the system");
    count(std::string("solved.") + TN[type]);
    nontrivial();
}
// Gram-like stiff but benign systems: 1D, 2D laplacians, fixed by penalty.
FAMILY(laplace, 300, 8000)
{
    int nx = R.ri(2, 40), ny = R.flip() ? 1 : R.ri(2, 8), n = nx * ny;
    Mat A = Mat::Zero(n, n);
    double ax = std::exp(R.uni(-2, 2)), ay = std::exp(R.uni(-2, 2));
    auto link = [&](int i, int j, double v) { A(i, j) -= v; A(j, i) -= v; A(i, i) += v; A(j, j) += v; };
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        if (i + 1 < nx) link(j * nx + i, j * nx + i + 1, ax);
        if (j + 1 < ny) link(j * nx + i, j * nx + i + nx, ay);
    }
    for (int k = R.ri(1, 3); k > 0; --k) A(R.ri(0, n - 1), 0) += 0, A(0, 0) += R.uni(1, 100);
    A(n - 1, n - 1) += 1;
    if (R.flip()) A = -A;
    int type = R.ri(0, 2);
    Vec b = rhs(R, n);
    describe(fmt("laplacian %dx%d as %s", nx, ny, TN[type]));
    sig(nx); sig(ny); sigd(A.sum());
    Sys s;
    store(R, s, A, b, type);
    Vec x = s.solve();
    if (!expect(x.size() == n, "laplace.size", "size")) return;
    Vec ref = A.fullPivLu().solve(b);
    expect(x.allFinite() && (x - ref).norm() <= 1e-5 * (ref.norm() + 1e-300), "laplace.solution", "off by %g of %g %s", (x - ref).norm(), ref.norm(), st().desc.c_str());
    nontrivial();
}
// Random expressions over systems, mirrored with dense algebra.
FAMILY(algebra, 3000, 120000)
{
    int n = R.ri(1, 14);
    struct It { Sys s; Mat A; Vec b; int type = 0; };
    std::vector<It> pool;
    for (int k = 0; k < 3; ++k) {
        It t;
        t.type = R.ri(0, 2);
        bool weak;
        t.A = matrix(R, t.type, n, weak);
        t.A /= t.A.norm();
        t.b = rhs(R, n);
        t.b /= t.b.norm() + 1e-9;
        store(R, t.s, t.A, t.b, t.type);
        pool.push_back(t);
    }
    std::string ops;
    auto check = [&](It& t, const char* key) {
        expect(t.s.matrixA.rows() == n && t.s.matrixA.cols() == n && (Mat(t.s.matrixA) - t.A).norm() <= 1e-11 * (1 + t.A.norm()), (std::string(key) + ".matrix").c_str(), "matrix off by %g after %s", t.s.matrixA.rows() == n ? (Mat(t.s.matrixA) - t.A).norm() : -1, ops.c_str());
        expect(t.s.vectorB.size() == n && (t.s.vectorB - t.b).norm() <= 1e-11 * (1 + t.b.norm()), (std::string(key) + ".vector").c_str(), "vector off after %s", ops.c_str());
        int ty = (int)t.s.matrixType;
        // the announced kind selects the solver, so it has to hold for the combined matrix
        expect(ty >= 0 && ty <= 2, (std::string(key) + ".kind").c_str(), "kind %d after %s", ty, ops.c_str());
        if (ty == 0) expect((t.A - t.A.transpose()).norm() <= 1e-9 * t.A.norm(), (std::string(key) + ".symmetry").c_str(), "announced symmetric but is not, after %s", ops.c_str());
    };
    int steps = R.ri(1, 8);
    for (int k = 0; k < steps; ++k) {
        int i = R.ri(0, (int)pool.size() - 1), j = R.ri(0, (int)pool.size() - 1);
        It l = pool[i], r = pool[j], o;
        int op = R.ri(0, 7);
        const char* key = "";
        switch (op) {
        case 0: key = "sum"; o.s = l.s + r.s; o.A = l.A + r.A; o.b = l.b + r.b; break;
        case 1: key = "difference"; o.s = l.s - r.s; o.A = l.A - r.A; o.b = l.b - r.b; break;
        case 2: { key = "scale"; double a = R.uni(-3, 3); o.s = a * l.s; o.A = a * l.A; o.b = a * l.b; break; }
        case 3: {
            key = "rowscale";
            Vec v(n);
            for (int q = 0; q < n; ++q) v(q) = R.uni(-2, 2);
            o.s = v * l.s; o.A = v.asDiagonal() * l.A; o.b = v.asDiagonal() * l.b;
            break; }
        case 4: { key = "shiftback"; double a = R.uni(-3, 3); Sys u = l.s + a; Sys w = u - a; o.s = w; o.A = l.A; o.b = l.b;
            expect(same(u.matrixA, l.A + a * Mat::Identity(n, n), 1e-11), "shift.matrix", "system + scalar must shift the diagonal");
            break; }
        case 5: { key = "equal.scalar"; double a = R.uni(-3, 3); o = l; Sys& back = (o.s = a); expect(&back == &o.s, "equal.reference", "assignment returns another system"); o.A = l.A; o.b = l.b.array() + a; break; }
        case 6: { key = "equal.vector"; Vec v = rhs(R, n); v /= v.norm() + 1e-9; o = l; o.s = v; o.A = l.A; o.b = l.b + v; break; }
        default: { key = "shiftback"; double a = R.uni(-3, 3); Sys u = l.s - a; Sys w = u + a; o.s = w; o.A = l.A; o.b = l.b;
            expect(same(u.matrixA, l.A - a * Mat::Identity(n, n), 1e-11), "shift.matrix", "system - scalar must shift the diagonal");
            break; }
        }
        ops += std::string(ops.empty() ? "" : ",") + key;
        check(o, key);
        // operands as before
        if (!expect(same(pool[i].s.matrixA, pool[i].A, 1e-11) && same(pool[j].s.matrixA, pool[j].A, 1e-11) && (pool[i].s.vectorB - pool[i].b).norm() <= 1e-11 * (1 + pool[i].b.norm()), "operands", "operand changed by %s", ops.c_str())) return;
        if (o.A.norm() > 1e3 || o.A.norm() < 1e-3 || o.b.norm() > 1e3) continue;
        pool[R.ri(0, (int)pool.size() - 1)] = o;
        sig(op);
    }
    // whatever came out of the history can be solved when it is well conditioned
    for (auto& t : pool) {
        // iterative solvers: diagonal dominance guarantees convergence
        bool dom = true;
        for (int i = 0; i < n; ++i) dom &= std::fabs(t.A(i, i)) > 1.02 * (t.A.row(i).cwiseAbs().sum() - std::fabs(t.A(i, i)));
        double d0 = t.A(0, 0);
        for (int i = 0; i < n; ++i) dom &= t.A(i, i) * d0 > 0;
        if (!dom || t.b.norm() < 1e-6) continue;
        Vec x = t.s.solve(), ref = t.A.fullPivLu().solve(t.b);
        describe(fmt("kind %d n=%d after %s", (int)t.s.matrixType, n, ops.c_str()));
        expect(x.size() == n && x.allFinite() && (x - ref).norm() <= 1e-6 * ref.norm(), "combined.solution", "off by %g of %g %s", x.size() == n ? (x - ref).norm() : -1, ref.norm(), st().desc.c_str());
        count("combined.solved");
        nontrivial();
    }
    sigd(pool[0].A.sum());
}
