// P25: boolean operations on solids bounded by polygons.
#include "gen.hpp"
#include <cstring>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "CmnTypes.hpp"
#include "GeoPolygon.hpp"
#include "StlUtils.hpp"
#include "CsgBoolean.hpp"
#include "CsgCube.hpp"
#include "CsgSphere.hpp"
#include "CsgCylinder.hpp"
using namespace gen;
using namespace mon;
using namespace ENigMA::csg;
using namespace ENigMA::geometry;
typedef double D;
typedef CCsgBoolean<D> Csg;
typedef CGeoCoordinate<D> C;
typedef std::vector<V3> Poly;
typedef std::vector<Poly> Surf;

static Surf surfOf(Csg& c)
{
    Surf s;
    for (int i = 0; i < c.nbPolygons(); ++i) {
        Poly p;
        auto& l = c.polygons()[i].polyline();
        for (int k = 0; k < l.nbVertices(); ++k) p.push_back(v3(l.vertex(k)));
        if (p.size() > 1 && (p.back() - p.front()).norm() == 0) p.pop_back();
        s.push_back(p);
    }
    return s;
}
static V3 areaVec(const Poly& p)
{
    V3 a;
    for (size_t i = 1; i + 1 < p.size(); ++i) a = a + (p[i] - p[0]).cross(p[i + 1] - p[0]) * 0.5;
    return a;
}
static V3 totalArea(const Surf& s) { V3 a; for (auto& p : s) a = a + areaVec(p); return a; }
static double surface(const Surf& s) { double a = 0; for (auto& p : s) a += areaVec(p).norm(); return a; }
static double volume(const Surf& s)
{
    double v = 0;
    V3 o = s.empty() || s[0].empty() ? V3() : s[0][0];
    for (auto& p : s)
        for (size_t i = 1; i + 1 < p.size(); ++i) v += (p[0] - o).dot((p[i] - o).cross(p[i + 1] - o)) / 6;
    return v;
}
// How often the surface winds around a point.
static double winding(const Surf& s, const V3& q)
{
    double w = 0;
    for (auto& p : s)
        for (size_t i = 1; i + 1 < p.size(); ++i) {
            V3 a = p[0] - q, b = p[i] - q, c = p[i + 1] - q;
            double la = a.norm(), lb = b.norm(), lc = c.norm();
            w += 2 * std::atan2(a.dot(b.cross(c)), la * lb * lc + a.dot(b) * lc + b.dot(c) * la + c.dot(a) * lb);
        }
    return w / (4 * M_PI);
}
// A convex operand: the solid handed to the library and its half spaces.
struct Conv {
    Csg csg;
    std::vector<std::pair<V3, double>> planes;
    std::string what;
    double slack(const V3& q) const { double m = -1e300; for (auto& h : planes) m = std::max(m, h.first.dot(q) - h.second); return m; } // < 0 inside
};
static void planesFrom(Conv& c)
{
    Surf s = surfOf(c.csg);
    c.planes.clear();
    for (auto& p : s) {
        V3 n = areaVec(p).unit();
        c.planes.push_back({ n, n.dot(p[0]) });
    }
}
static Csg fromSurf(const Surf& s, double tol)
{
    std::vector<CGeoPolygon<D>> ps;
    for (auto& p : s) {
        CGeoPolygon<D> g;
        for (auto& v : p) { C w = as<C>(v); g.polyline().addVertex(w); }
        g.close();
        g.calculateNormal();
        ps.push_back(g);
    }
    return Csg(ps, tol);
}
static Surf boxSurf(const V3& lo, const V3& hi)
{
    V3 v[8];
    for (int i = 0; i < 8; ++i) v[i] = V3(i & 1 ? hi.x : lo.x, i & 2 ? hi.y : lo.y, i & 4 ? hi.z : lo.z);
    const int f[6][4] = { { 0, 4, 6, 2 }, { 1, 3, 7, 5 }, { 0, 1, 5, 4 }, { 2, 6, 7, 3 }, { 0, 2, 3, 1 }, { 4, 5, 7, 6 } };
    Surf s;
    for (auto& q : f) s.push_back({ v[q[0]], v[q[1]], v[q[2]], v[q[3]] });
    return s;
}
static Surf moved(const Surf& s, const Rigid& g) { Surf r = s; for (auto& p : r) for (auto& v : p) v = g(v); return r; }
static Conv randomConv(Rng& R, double tol, double reach = 1)
{
    Conv c;
    V3 o = inBox(R, reach);
    int k = R.ri(0, 3);
    if (k == 0) {
        V3 r(R.uni(.3, 1.2), R.uni(.3, 1.2), R.uni(.3, 1.2));
        c.csg = CCsgCube<D>::create(as<C>(o), as<CGeoVector<D>>(r));
        c.what = fmt("box(%.3f %.3f %.3f; %.3f %.3f %.3f)", o.x, o.y, o.z, r.x, r.y, r.z);
    } else if (k == 1) {
        C ce = as<C>(o);
        double r = R.uni(.4, 1.2);
        int ns = R.ri(3, 12), nt = R.ri(2, 7);
        c.csg = CCsgSphere<D>::create(ce, r, ns, nt);
        c.what = fmt("sphere(%.3f %.3f %.3f; %.3f; %d %d)", o.x, o.y, o.z, r, ns, nt);
    } else if (k == 2) {
        V3 ax = (R.flip(.3) ? (R.flip() ? V3(0, 1, 0) : V3(1, 0, 0)) : unitVec(R)) * R.uni(.3, 1.3);
        C a = as<C>(o - ax), b = as<C>(o + ax);
        double r = R.uni(.3, 1.1);
        int ns = R.ri(3, 14);
        c.csg = CCsgCylinder<D>::create(a, b, r, ns);
        c.what = fmt("cylinder(%.3f %.3f %.3f; %.3f %.3f %.3f; %.3f; %d)", o.x, o.y, o.z, ax.x, ax.y, ax.z, r, ns);
    } else {
        V3 r(R.uni(.3, 1.2), R.uni(.3, 1.2), R.uni(.3, 1.2));
        Rigid g = randomRigid(R);
        g.s = 1;
        g.t = o;
        c.csg = fromSurf(moved(boxSurf(r * -1, r), g), tol);
        c.what = fmt("turned box(%.3f %.3f %.3f; %.3f %.3f %.3f)", o.x, o.y, o.z, r.x, r.y, r.z);
    }
    c.csg.setTolerance(tol);
    planesFrom(c);
    return c;
}
static bool same(const Surf& a, const Surf& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].size() != b[i].size()) return false;
        for (size_t k = 0; k < a[i].size(); ++k)
            if (std::memcmp(&a[i][k], &b[i][k], sizeof(V3))) return false;
    }
    return true;
}
static Csg apply(int op, Csg& a, Csg& b) { return op == 0 ? a.add(b) : op == 1 ? a.subtract(b) : a.intersect(b); }
static bool logic(int op, bool a, bool b) { return op == 0 ? a || b : op == 1 ? a && !b : a && b; }
static const char* OPN[] = { "union", "difference", "intersection" };
static double pickTol(Rng& R) { const double t[] = { 0, 1e-14, 1e-12, 1e-10, 1e-8, 1e-6 }; return t[R.ri(0, 5)]; }
// Closed and oriented: the area vector vanishes, normals agree with the polygons.
static void closed(Csg& c, const char* key)
{
    Surf s = surfOf(c);
    expect(totalArea(s).norm() < 1e-5 * (1 + surface(s)), key, "area vector of %zu polygons is %g of area %g", s.size(), totalArea(s).norm(), surface(s));
    for (size_t i = 0; i < s.size(); ++i) {
        V3 a = areaVec(s[i]);
        if (a.norm() < 1e-7) continue;
        V3 n = v3(c.polygons()[i].normal());
        expect(n.dot(a.unit()) > 1 - 1e-6, "normal", "polygon %zu: normal %g %g %g against %g %g %g", i, n.x, n.y, n.z, a.unit().x, a.unit().y, a.unit().z);
    }
}
// Surfaces that only depend on the solid: results handed to and from facets are the same solid.
static void throughFacets(Csg& c)
{
    auto stl = c.toStl();
    Csg d(1e-9);
    d.fromSTL(stl);
    Surf s = surfOf(c), t = surfOf(d);
    expect(std::fabs(volume(s) - volume(t)) < 1e-6, "facets.volume", "volume %.12g as polygons, %.12g as facets", volume(s), volume(t));
    expect(std::fabs(surface(s) - surface(t)) < 1e-6, "facets.area", "area %.12g as polygons, %.12g as facets", surface(s), surface(t));
    expect(totalArea(t).norm() < 1e-5, "facets.closed", "area vector %g", totalArea(t).norm());
}

FAMILY(primitives, 300, 4000)
{
    V3 o = inBox(R, 3);
    int k = R.ri(0, 2);
    Csg c;
    double vol, area;
    std::vector<std::pair<V3, double>> none;
    if (k == 0) {
        V3 r(R.uni(.1, 2), R.uni(.1, 2), R.uni(.1, 2));
        c = CCsgCube<D>::create(as<C>(o), as<CGeoVector<D>>(r));
        vol = 8 * r.x * r.y * r.z;
        area = 8 * (r.x * r.y + r.y * r.z + r.z * r.x);
        describe(fmt("box of half sizes %g %g %g", r.x, r.y, r.z));
        Surf s = surfOf(c);
        expect(s.size() == 6, "box.count", "%zu polygons", s.size());
        for (auto& p : s) for (auto& v : p) {
            V3 d = v - o;
            expect(std::fabs(std::fabs(d.x) - r.x) < 1e-12 && std::fabs(std::fabs(d.y) - r.y) < 1e-12 && std::fabs(std::fabs(d.z) - r.z) < 1e-12, "box.vertex", "%g %g %g", d.x, d.y, d.z);
        }
    } else if (k == 1) {
        int ns = R.ri(3, 24), nt = R.ri(2, 16);
        double r = R.uni(.2, 3);
        C ce = as<C>(o);
        c = CCsgSphere<D>::create(ce, r, ns, nt);
        describe(fmt("sphere of radius %g, %d slices, %d stacks", r, ns, nt));
        Surf s = surfOf(c);
        expect((int)s.size() == ns * nt, "sphere.count", "%zu polygons", s.size());
        for (auto& p : s) for (auto& v : p) expect(std::fabs((v - o).norm() - r) < 1e-12 * (10 + r), "sphere.vertex", "at %g of radius %g", (v - o).norm(), r);
        // a pile of frusta with regular polygons as bases
        vol = area = 0;
        double A = .5 * ns * std::sin(2 * M_PI / ns), ap = std::cos(M_PI / ns);
        for (int j = 0; j < nt; ++j) {
            double p0 = M_PI * j / nt, p1 = M_PI * (j + 1) / nt, r0 = r * std::sin(p0), r1 = r * std::sin(p1), h = r * (std::cos(p0) - std::cos(p1));
            vol += A * h * (r0 * r0 + r0 * r1 + r1 * r1) / 3;
            area += ns * std::sin(M_PI / ns) * (r0 + r1) * std::hypot(h, ap * (r1 - r0));
        }
    } else {
        int ns = R.ri(3, 30);
        double r = R.uni(.1, 2);
        V3 ax = (R.flip(.3) ? (R.flip() ? V3(0, 1, 0) : R.flip() ? V3(0, 0, -1) : V3(1, 0, 0)) : unitVec(R)) * R.uni(.2, 3);
        C a = as<C>(o), b = as<C>(o + ax);
        c = CCsgCylinder<D>::create(a, b, r, ns);
        describe(fmt("cylinder of radius %g along %g %g %g, %d slices", r, ax.x, ax.y, ax.z, ns));
        Surf s = surfOf(c);
        expect((int)s.size() == 3 * ns, "cylinder.count", "%zu polygons", s.size());
        double h = ax.norm();
        for (auto& p : s) for (auto& v : p) {
            V3 d = v - o;
            double z = d.dot(ax) / h, rr = (d - ax * (z / h)).norm();
            expect((std::fabs(z) < 1e-11 || std::fabs(z - h) < 1e-11) && (rr < 1e-11 || std::fabs(rr - r) < 1e-11), "cylinder.vertex", "height %g of %g, radius %g of %g", z, h, rr, r);
        }
        double A = .5 * ns * std::sin(2 * M_PI / ns) * r * r;
        vol = A * h;
        area = 2 * A + 2 * ns * r * std::sin(M_PI / ns) * h;
    }
    Surf s = surfOf(c);
    expectNear(volume(s), vol, 1e-9 * (1 + vol), "primitive.volume");
    expectNear(surface(s), area, 1e-9 * (1 + area), "primitive.area");
    closed(c, "primitive.closed");
    throughFacets(c);
    sigd(vol);
    nontrivial();
}

FAMILY(pair, 260, 6000)
{
    double tol = pickTol(R);
    Conv A = randomConv(R, tol), B = randomConv(R, R.flip(.8) ? tol : 0);
    describe(fmt("%s and %s, tolerance %g", A.what.c_str(), B.what.c_str(), tol));
    Surf sa = surfOf(A.csg), sb = surfOf(B.csg);
    double va = volume(sa), vb = volume(sb);
    Csg u = A.csg.add(B.csg), d = A.csg.subtract(B.csg), e = B.csg.subtract(A.csg), x = A.csg.intersect(B.csg);
    expect(same(surfOf(A.csg), sa) && same(surfOf(B.csg), sb), "operands", "an operand changed");
    Csg* res[4] = { &u, &d, &e, &x };
    const char* nm[4] = { "union", "difference", "reverse", "intersection" };
    Surf sr[4];
    for (int k = 0; k < 4; ++k) {
        sr[k] = surfOf(*res[k]);
        closed(*res[k], fmt("closed.%s", nm[k]).c_str());
    }
    double vu = volume(sr[0]), vd = volume(sr[1]), ve = volume(sr[2]), vx = volume(sr[3]), T = 1e-5;
    count("overlap", vx > 1e-6);
    expectNear(vu + vx, va + vb, T, "volume.union");
    expectNear(vd + vx, va, T, "volume.difference");
    expectNear(ve + vx, vb, T, "volume.reverse");
    expect(vx > -T && vd > -T && ve > -T && vu > -T, "volume.sign", "%g %g %g %g", vu, vd, ve, vx);
    // every piece of the results lies on a surface of an operand; areas of operands reappear
    expectNear(surface(sr[0]) + surface(sr[3]), surface(sa) + surface(sb), 1e-4, "area.sum");
    expectNear(surface(sr[1]) + surface(sr[2]), surface(sa) + surface(sb), 1e-4, "area.differences");
    for (int k = 0; k < 4; ++k)
        for (auto& p : sr[k])
            for (auto& v : p) expect(std::min(std::fabs(A.slack(v)), std::fabs(B.slack(v))) < 1e-5, "onsurface", "%s: vertex %g and %g away", nm[k], A.slack(v), B.slack(v));
    int seen[4] = { 0, 0, 0, 0 };
    for (int t = 0; t < 60; ++t) {
        V3 q;
        if (t % 3 == 0) q = inBox(R, 2.2);
        else { // next to the surface of an operand
            const Surf& s = R.flip() ? sa : sb;
            const Poly& p = s[R.ri(0, (int)s.size() - 1)];
            V3 m;
            double w = 0;
            for (auto& v : p) { double f = R.uni(.05, 1); m = m + v * f; w += f; }
            q = m * (1 / w) + areaVec(p).unit() * (R.flip() ? R.uni(.004, .1) : -R.uni(.004, .1));
        }
        double fa = A.slack(q), fb = B.slack(q);
        if (std::fabs(fa) < 2e-3 || std::fabs(fb) < 2e-3) continue;
        bool ia = fa < 0, ib = fb < 0;
        bool want[4] = { ia || ib, ia && !ib, ib && !ia, ia && ib };
        for (int k = 0; k < 4; ++k) {
            double w = winding(sr[k], q);
            expect(std::fabs(w - want[k]) < 0.02, fmt("member.%s", nm[k]).c_str(), "point %g %g %g inside A %d inside B %d: the result winds %g times around it", q.x, q.y, q.z, ia, ib, w);
        }
        seen[ia * 2 + ib]++;
    }
    for (int k = 0; k < 4; ++k) count(fmt("points%d", k), seen[k]);
    // asking again gives the same answer
    if (R.flip(.3)) {
        Csg u2 = A.csg.add(B.csg), x2 = A.csg.intersect(B.csg), d2 = A.csg.subtract(B.csg);
        expect(same(surfOf(u2), sr[0]) && same(surfOf(x2), sr[3]) && same(surfOf(d2), sr[1]), "repeat", "a repeated operation gave another result");
    }
    throughFacets(*res[R.ri(0, 3)]);
    sigd(vx);
    sig((uint64_t)u.nbPolygons());
    if (vx > 1e-4 && vd > 1e-4) nontrivial();
}

// Boxes that share planes: the result against counting cells.
FAMILY(lattice, 260, 6000)
{
    const int N = 6;
    double tol = R.flip(.3) ? 0 : pickTol(R);
    bool turn = R.flip(.4);
    Rigid g = turn ? randomRigid(R) : identity();
    g.s = 1;
    if (turn && tol < 1e-12) tol = 1e-10; // planes shared up to rounding need a tolerance
    double h = R.flip() ? 1 : 0.25;
    auto box = [&](std::vector<char>& cells, std::string& w) {
        int lo[3], hi[3];
        for (int a = 0; a < 3; ++a) { lo[a] = R.ri(0, N - 1); hi[a] = R.ri(lo[a] + 1, N); }
        cells.assign(N * N * N, 0);
        for (int i = lo[0]; i < hi[0]; ++i) for (int j = lo[1]; j < hi[1]; ++j) for (int k = lo[2]; k < hi[2]; ++k) cells[(i * N + j) * N + k] = 1;
        V3 a(lo[0] * h, lo[1] * h, lo[2] * h), b(hi[0] * h, hi[1] * h, hi[2] * h);
        w += fmt("[%d%d%d-%d%d%d]", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
        if (!turn && R.flip()) {
            Csg c = CCsgCube<D>::create(as<C>((a + b) * .5), as<CGeoVector<D>>((b - a) * .5));
            c.setTolerance(tol);
            return c;
        }
        return fromSurf(moved(boxSurf(a, b), g), tol);
    };
    std::string w = fmt("tolerance %g: ", tol);
    std::vector<char> cells;
    Csg acc = box(cells, w);
    int n = R.ri(1, 4);
    for (int t = 0; t < n; ++t) {
        std::vector<char> other;
        int op = R.ri(0, 2);
        bool swap = R.flip(.25);
        w += fmt(" %s%s ", swap ? "reverse " : "", OPN[op]);
        Csg b = box(other, w);
        describe(w);
        Surf s0 = surfOf(acc), s1 = surfOf(b);
        Csg r = swap ? apply(op, b, acc) : apply(op, acc, b);
        expect(same(surfOf(acc), s0) && same(surfOf(b), s1), "lattice.operands", "an operand changed");
        for (size_t i = 0; i < cells.size(); ++i) cells[i] = swap ? logic(op, other[i], cells[i]) : logic(op, cells[i], other[i]);
        acc = r;
        long long vol = 0, area = 0;
        auto at = [&](int i, int j, int k) { return i < 0 || j < 0 || k < 0 || i >= N || j >= N || k >= N ? 0 : (int)cells[(i * N + j) * N + k]; };
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k)
            if (at(i, j, k)) {
                ++vol;
                area += !at(i - 1, j, k) + !at(i + 1, j, k) + !at(i, j - 1, k) + !at(i, j + 1, k) + !at(i, j, k - 1) + !at(i, j, k + 1);
            }
        Surf s = surfOf(acc);
        expectNear(volume(s), vol * h * h * h, 1e-4, fmt("lattice.volume.%s", OPN[op]).c_str());
        expectNear(surface(s), area * h * h, 1e-4, fmt("lattice.area.%s", OPN[op]).c_str());
        closed(acc, "lattice.closed");
        for (int m = 0; m < 30; ++m) {
            int i = R.ri(0, N - 1), j = R.ri(0, N - 1), k = R.ri(0, N - 1);
            V3 q = g(V3(i + R.uni(.1, .9), j + R.uni(.1, .9), k + R.uni(.1, .9)) * h);
            double wn = winding(s, q);
            expect(std::fabs(wn - at(i, j, k)) < 0.02, fmt("lattice.member.%s", OPN[op]).c_str(), "cell %d %d %d (%s) is wound %g times", i, j, k, at(i, j, k) ? "in" : "out", wn);
        }
        count("lattice.cells", vol);
        sig((uint64_t)vol);
        sig((uint64_t)area);
        if (vol) nontrivial();
    }
    throughFacets(acc);
}

struct Tree { int op = -1, leaf = 0; std::unique_ptr<Tree> l, r; };
FAMILY(expression, 90, 2500)
{
    double tol = pickTol(R);
    std::vector<Conv> leaves;
    int n = R.ri(3, 6);
    std::string w = fmt("tolerance %g:", tol);
    for (int i = 0; i < n; ++i) { leaves.push_back(randomConv(R, tol, .8)); w += " " + leaves.back().what; }
    std::function<std::unique_ptr<Tree>(int)> grow = [&](int depth) {
        std::unique_ptr<Tree> t(new Tree);
        if (depth == 0 || R.flip(.15)) { t->leaf = R.ri(0, n - 1); return t; }
        t->op = R.ri(0, 2);
        t->l = grow(depth - 1);
        t->r = grow(depth - 1 - R.ri(0, 1) > 0 ? depth - 2 : 0);
        return t;
    };
    auto tree = grow(R.ri(2, 3));
    std::function<std::string(Tree&)> show = [&](Tree& t) { return t.op < 0 ? fmt("%d", t.leaf) : "(" + show(*t.l) + " " + OPN[t.op][0] + " " + show(*t.r) + ")"; };
    describe(w + " " + show(*tree));
    // the same leaf twice in an expression shares its planes: that needs a tolerance
    std::function<void(Tree&, std::vector<int>&)> used = [&](Tree& t, std::vector<int>& c) { if (t.op < 0) c[t.leaf]++; else { used(*t.l, c); used(*t.r, c); } };
    std::vector<int> uses(n, 0);
    used(*tree, uses);
    bool shared = false;
    for (int u : uses) shared |= u > 1;
    if (shared && tol < 1e-10) { tol = 1e-9; for (auto& l : leaves) l.csg.setTolerance(tol); }
    std::function<Csg(Tree&)> eval = [&](Tree& t) {
        if (t.op < 0) return leaves[t.leaf].csg;
        Csg a = eval(*t.l), b = eval(*t.r);
        return apply(t.op, a, b);
    };
    std::function<bool(Tree&, const V3&)> member = [&](Tree& t, const V3& q) { return t.op < 0 ? leaves[t.leaf].slack(q) < 0 : logic(t.op, member(*t.l, q), member(*t.r, q)); };
    Csg r = eval(*tree);
    Surf s = surfOf(r);
    closed(r, "expression.closed");
    int in = 0, out = 0;
    for (int t = 0; t < 60; ++t) {
        V3 q = inBox(R, 1.8);
        bool near = false;
        for (auto& l : leaves) near |= std::fabs(l.slack(q)) < 5e-3;
        if (near) continue;
        bool m = member(*tree, q);
        double wn = winding(s, q);
        expect(std::fabs(wn - m) < 0.02, "expression.member", "point %g %g %g is %s and wound %g times", q.x, q.y, q.z, m ? "in" : "out", wn);
        (m ? in : out)++;
    }
    count("expression.in", in);
    count("expression.out", out);
    sigd(volume(s));
    if (in && out) nontrivial();
}

// Operands that are empty, equal, apart, nested or only touch.
FAMILY(special, 200, 3000)
{
    double tol = R.flip() ? 1e-9 : 1e-5;
    Conv A = randomConv(R, tol), B;
    Surf sa = surfOf(A.csg);
    double va = volume(sa), aa = surface(sa);
    int k = R.ri(0, 4);
    double want[3], back[3]; // volumes of A op B and B op A
    if (k == 0) {
        std::vector<CGeoPolygon<D>> none;
        if (R.flip()) { // an empty result rather than an empty list
            V3 far(10, 0, 0);
            Csg z = CCsgCube<D>::create(as<C>(far), CGeoVector<D>(1, 1, 1));
            z.setTolerance(tol);
            B.csg = z.intersect(A.csg);
        } else B.csg = Csg(none, tol);
        B.what = "nothing";
        want[0] = va; want[1] = va; want[2] = 0;
        back[0] = va; back[1] = 0; back[2] = 0;
    } else if (k == 1) {
        B = A;
        B.what = "itself";
        want[0] = back[0] = va; want[1] = back[1] = 0; want[2] = back[2] = va;
    } else {
        Surf sb = sa;
        double f = k == 3 ? R.uni(.2, .8) : 1;
        V3 c;
        int n = 0;
        for (auto& p : sa) for (auto& v : p) { c = c + v; ++n; }
        c = c * (1. / n);
        if (k == 2) { Rigid g = randomRigid(R); g.s = 1; g.t = V3(9, 1, -2); sb = moved(sb, g); }
        if (k == 3) for (auto& p : sb) for (auto& v : p) v = c + (v - c) * f;
        if (k == 4) { // turned over to the other side of one of its faces
            size_t i = R.ri(0, (int)sa.size() - 1);
            V3 nn = areaVec(sa[i]).unit();
            double d = nn.dot(sa[i][0]);
            for (auto& p : sb) {
                for (auto& v : p) v = v + nn * (2 * (d - nn.dot(v)));
                std::reverse(p.begin(), p.end());
            }
        }
        B.csg = fromSurf(sb, tol);
        B.what = k == 2 ? "a copy apart" : k == 3 ? "a smaller copy inside" : "a mirrored copy touching a face";
        double vb = va * f * f * f;
        bool inside = k == 3;
        want[0] = back[0] = inside ? va : 2 * va;
        want[1] = inside ? va - vb : va;
        back[1] = inside ? 0 : va;
        want[2] = back[2] = inside ? vb : 0;
    }
    describe(fmt("%s and %s, tolerance %g", A.what.c_str(), B.what.c_str(), tol));
    static const char* KN[] = { "nothing", "itself", "apart", "nested", "touching" };
    for (int op = 0; op < 3; ++op)
        for (int rev = 0; rev < 2; ++rev) {
            Csg r = rev ? apply(op, B.csg, A.csg) : apply(op, A.csg, B.csg);
            Surf s = surfOf(r);
            std::string key = fmt("special.%s.%s%s", KN[k], rev ? "reverse." : "", OPN[op]);
            expectNear(volume(s), rev ? back[op] : want[op], 2e-5 * (1 + va), key.c_str(), "volume");
            closed(r, (key + ".closed").c_str());
            if ((rev ? back[op] : want[op]) == 0) expect(surface(s) < 1e-4 * aa, (key + ".leftover").c_str(), "area %g left of nothing", surface(s));
            if (k == 1 && op != 1) expectNear(surface(s), aa, 1e-4 * (1 + aa), (key + ".area").c_str());
        }
    count(fmt("special%d", k));
    sigd(va);
    nontrivial();
}
