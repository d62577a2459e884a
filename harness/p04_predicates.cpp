// P04: intersection, containment and distance predicates against independent geometry.
#include "solids.hpp"
#include "GeoLine.hpp"
#include "GeoTriangle.hpp"
#include "GeoQuadrilateral.hpp"
#include "GeoTetrahedron.hpp"
#include "GeoSphere.hpp"
#include "GeoCircle.hpp"
using namespace solids;
using namespace mon;
using namespace ENigMA::geometry;
typedef CGeoLine<D> Ln;
typedef CGeoTriangle<D> Tr;
static Ln line(const V3& a, const V3& b) { return Ln(co(a), co(b)); }
static Tr tri(const V3& a, const V3& b, const V3& c)
{
    Tr t;
    t.addVertex(co(a)); t.addVertex(co(b)); t.addVertex(co(c));
    t.calculateNormal();
    return t;
}
static const char* tname(const CGeoIntersectionType& t)
{
    return t == IT_NONE ? "NONE" : t == IT_VERTEX ? "VERTEX" : t == IT_EDGE ? "EDGE" : t == IT_COINCIDENT ? "COINCIDENT" : t == IT_INTERNAL ? "INTERNAL" : t == IT_SWAP ? "SWAP" : "?";
}
static V3 frame(Rng& R, std::vector<V3>& v)
{
    Rigid g = R.flip(0.25) ? identity() : randomRigid(R, 4);
    if (R.flip(0.25)) g.t = inBox(R, 4);
    for (auto& p : v) p = g(p);
    return g.rot(V3(0, 0, 1));
}
static double tolOf(Rng& R) { return R.pick(std::vector<double>{ 1e-9, 1e-8, 1e-7, 1e-6 }); }
static double segDist(const V3& p, const V3& a, const V3& b, V3* q = nullptr)
{
    double t = (p - a).dot(b - a) / (b - a).dot(b - a);
    t = std::max(0.0, std::min(1.0, t));
    V3 c = a + (b - a) * t;
    if (q) *q = c;
    return (p - c).norm();
}
static double segSeg(const V3& a, const V3& b, const V3& c, const V3& d)
{
    // exact: interior-interior candidate plus the four end point candidates
    double m = std::min(std::min(segDist(a, c, d), segDist(b, c, d)), std::min(segDist(c, a, b), segDist(d, a, b)));
    V3 u = b - a, v = d - c, w = a - c;
    double A = u.dot(u), B = u.dot(v), C = v.dot(v), P = u.dot(w), Q = v.dot(w), den = A * C - B * B;
    if (den > 1e-14 * A * C) {
        double s = (B * Q - C * P) / den, t = (A * Q - B * P) / den;
        if (s >= 0 && s <= 1 && t >= 0 && t <= 1) m = std::min(m, (w + u * s - v * t).norm());
    }
    return m;
}
static double triDist(const V3& p, const V3& a, const V3& b, const V3& c)
{
    V3 n = (b - a).cross(c - a).unit();
    double h = (p - a).dot(n);
    V3 q = p - n * h;
    if ((b - a).cross(q - a).dot(n) >= 0 && (c - b).cross(q - b).dot(n) >= 0 && (a - c).cross(q - c).dot(n) >= 0) return std::fabs(h);
    return std::min(segDist(p, a, b), std::min(segDist(p, b, c), segDist(p, c, a)));
}

FAMILY(linePlane, 3000, 300000)
{
    V3 n = unitVec(R);
    double d = R.uni(-3, 3), tol = tolOf(R);
    V3 u = n.cross(unitVec(R)).unit(), w = n.cross(u);
    V3 base = n * d + u * R.uni(-3, 3) + w * R.uni(-3, 3);
    auto h = [&]() { return R.flip(0.2) ? 0.0 : (R.flip() ? 1 : -1) * R.uni(0.01, 2); };
    double ha = h(), hb = h();
    V3 a = base + n * ha, b = base + u * R.uni(-2, 2) + w * R.uni(0.1, 2) + n * hb;
    Ln l = line(a, b);
    Pn pl(No(n.x, n.y, n.z), d);
    Co p; CGeoIntersectionType t;
    bool got = l.intersects(pl, p, t, tol);
    describe(fmt("line-plane ha=%g hb=%g tol=%g", ha, hb, tol)); sigd(ha); sigd(hb);
    if (ha == 0 && hb == 0) { count("skip.in-plane"); return; }
    bool want = ha * hb <= 0;
    expect(got == want, "line-plane-answer", "got %d want %d | %s", got, want, st().desc.c_str());
    if (got && want) {
        expect(t == ((ha == 0 || hb == 0) ? IT_VERTEX : IT_INTERNAL), "line-plane-type", "%s | %s", tname(t), st().desc.c_str());
        double s = ha / (ha - hb);
        expectNear((v3(p) - (a + (b - a) * s)).norm(), 0, 1e-8, "line-plane-point");
        nontrivial();
    }
    Co q;
    V3 x = inBox(R, 4);
    expectNear(pl.distance(co(x)), std::fabs(x.dot(n) - d), 1e-12, "plane-distance");
    pl.distance(co(x), q);
    expectNear((v3(q) - (x - n * (x.dot(n) - d))).norm(), 0, 1e-12, "plane-projection");
    Pn inv = pl;
    inv.invert();
    expectNear(inv.distance(co(x)), std::fabs(x.dot(n) - d), 1e-12, "plane-inverted-distance");
    expectNear((v3(inv.normal()) + n).norm(), 0, 1e-12, "plane-inverted-normal");
}

static void lineCase(Rng& R, const V3& a, const V3& b, const V3& c, const V3& d, bool want, EIntersectionType wt, bool anyType, const V3& pt, double tol, const char* kind)
{
    for (int k = 0; k < 4; ++k) {
        V3 p[4] = { a, b, c, d };
        if (k & 1) std::swap(p[0], p[1]);
        if (k & 2) { std::swap(p[0], p[2]); std::swap(p[1], p[3]); }
        Ln l1 = line(p[0], p[1]), l2 = line(p[2], p[3]);
        Co q; CGeoIntersectionType t;
        bool got = l1.intersects(l2, q, t, tol);
        if (!expect(got == want, fmt("line-line-answer-%s", kind).c_str(), "got %d variant %d (%s) | %s", got, k, tname(t), st().desc.c_str())) return;
        if (!got) continue;
        if (!anyType) expect(t == wt, fmt("line-line-type-%s", kind).c_str(), "%s variant %d | %s", tname(t), k, st().desc.c_str());
        V3 x = v3(q);
        double off = std::max(segDist(x, a, b), segDist(x, c, d));
        expect(off < 1e-6, fmt("line-line-point-%s", kind).c_str(), "point off the lines by %g variant %d | %s", off, k, st().desc.c_str());
        (void)pt;
    }
}
FAMILY(lineLine, 3000, 300000)
{
    double tol = tolOf(R);
    int kind = R.ri(0, 7);
    V3 o;
    double ang = R.uni(0.3, 2.8), la = R.uni(0.3, 2), lb = R.uni(0.3, 2);
    V3 u(1, 0, 0), w(std::cos(ang), std::sin(ang), 0);
    auto in = [&]() { return R.uni(0.05, 0.95); };
    std::vector<V3> v(4);
    bool want = false, any = false;
    EIntersectionType wt = IT_NONE;
    static const char* names[] = { "crossing", "apart", "skew", "parallel", "shared-vertex", "coincident", "overlap", "tee" };
    double s = in(), t = in();
    if (kind == 1) { s = R.flip() ? -R.uni(0.05, 1) : 1 + R.uni(0.05, 1); }
    if (kind == 7) t = R.ri(0, 1);
    // lines through a common point at parameters s and t
    v[0] = o - u * (s * la); v[1] = v[0] + u * la;
    v[2] = o - w * (t * lb); v[3] = v[2] + w * lb;
    if (kind == 0 || kind == 7) { want = true; wt = IT_INTERNAL; }
    else if (kind == 2) { double z = R.uni(0.05, 1); v[2].z += z; v[3].z += z; }
    else if (kind == 3) { double y = R.uni(0.05, 1); v[2] = v[0] + V3(R.uni(-1, 1), y, 0); v[3] = v[2] + u * lb; }
    else if (kind == 4) { v[2] = v[R.ri(0, 1)]; v[3] = v[2] + w * lb; if (R.flip()) std::swap(v[2], v[3]); want = true; wt = IT_VERTEX; }
    else if (kind == 5) { v[2] = v[0]; v[3] = v[1]; want = true; wt = IT_COINCIDENT; }
    else if (kind == 6) { // collinear
        double f = R.uni(0.1, 0.9);
        if (R.flip()) { v[2] = v[0] + u * (la * f); v[3] = v[2] + u * lb; want = true; wt = IT_INTERNAL; if (std::fabs(f * la + lb - la) < 0.02) return; }
        else { v[2] = v[1] + u * (la * f); v[3] = v[2] + u * lb; }
    }
    frame(R, v);
    describe(fmt("line-line %s s=%g t=%g ang=%g la=%g lb=%g tol=%g", names[kind], s, t, ang, la, lb, tol));
    sig(kind); sigd(s); sigd(ang);
    lineCase(R, v[0], v[1], v[2], v[3], want, wt, any, o, tol, names[kind]);
    if (want) nontrivial();
}

FAMILY(lineContains, 1500, 150000)
{
    std::vector<V3> v = { V3(0, 0, 0), V3(R.uni(0.3, 3), 0, 0) };
    double f = R.pick(std::vector<double>{ 0.0, 1.0, R.uni(0.01, 0.99), R.uni(0.01, 0.99), -R.uni(0.01, 1), 1 + R.uni(0.01, 1) }), off = 0;
    double len = v[1].x;
    if (R.flip(0.4)) off = len * std::max(0.05, f) * R.uni(0.06, 1); // more than three degrees off the line
    v.push_back(V3(f * len, off, 0));
    if (f < 0 || f > 1) if (off == 0 && f < 0) {}
    frame(R, v);
    Ln l = line(v[0], v[1]);
    CGeoIntersectionType t;
    describe(fmt("line contains f=%g off=%g len=%g", f, off, len)); sigd(f); sigd(off);
    bool want = f >= 0 && f <= 1 && off == 0;
    double tol = 1e-7;
    if (f == 0 && off == 0) { count("skip.start-point"); return; } // direction of a zero vector: inside the 1 degree band or not is not defined
    bool got = l.contains(co(v[2]), t, tol);
    expect(got == want, "line-contains-answer", "got %d want %d | %s", got, want, st().desc.c_str());
    if (got && want) { expect(t == (f == 1 ? IT_VERTEX : IT_INTERNAL), "line-contains-type", "%s | %s", tname(t), st().desc.c_str()); nontrivial(); }
    Co q; double d = -1;
    V3 p = v[0] + inBox(R, 2), ref;
    expect(l.distance(co(p), q, d, 1e-12), "line-distance-answer", "%s", st().desc.c_str());
    double want2 = segDist(p, v[0], v[1], &ref);
    expectNear(d, want2, 1e-9, "line-distance-value");
    expectNear((v3(q) - ref).norm(), 0, 1e-8, "line-distance-point");
}

FAMILY(lineDistance, 2000, 200000)
{
    std::vector<V3> v = { inBox(R, 2), inBox(R, 2), inBox(R, 2), inBox(R, 2) };
    if (R.flip(0.3)) { V3 s = inBox(R, 5); v[2] = v[2] + s; v[3] = v[3] + s; }
    V3 u = v[1] - v[0], w = v[3] - v[2];
    if (u.norm() < 0.2 || w.norm() < 0.2 || u.cross(w).norm() < 0.05 * u.norm() * w.norm()) { count("skip.parallel"); return; }
    Ln a = line(v[0], v[1]), b = line(v[2], v[3]);
    Co p, q; double d = -1;
    describe("segment-segment distance"); sigd(v[0].x);
    bool ok = a.distance(b, p, q, d, 1e-12);
    expect(ok, "line-line-distance-answer", "no answer");
    if (!ok) return;
    double want = segSeg(v[0], v[1], v[2], v[3]);
    expectNear(d, want, 1e-8, "line-line-distance-value");
    expectNear((v3(p) - v3(q)).norm(), d, 1e-9, "line-line-distance-points");
    expect(segDist(v3(p), v[0], v[1]) < 1e-7 && segDist(v3(q), v[2], v[3]) < 1e-7, "line-line-distance-off-line", "points not on the segments");
    nontrivial();
}

static std::vector<V3> goodTriangle(Rng& R)
{
    return { V3(0, 0, 0), V3(R.uni(0.4, 2), 0, 0), V3(R.uni(-0.5, 1.5), R.uni(0.4, 2), 0) };
}
static void bary(const std::vector<V3>& t, const V3& p, double* l)
{
    V3 n = (t[1] - t[0]).cross(t[2] - t[0]);
    double A = n.dot(n);
    for (int i = 0; i < 3; ++i) l[i] = (t[(i + 2) % 3] - t[(i + 1) % 3]).cross(p - t[(i + 1) % 3]).dot(n) / A;
}
FAMILY(triangleContains, 2500, 250000)
{
    std::vector<V3> v = goodTriangle(R);
    double tol = tolOf(R), m = R.uni(0.002, 0.05);
    int kind = R.ri(0, 3);
    double l[3];
    V3 p;
    if (kind == 0) { double a = R.uni(m, 1 - 2 * m), b = R.uni(m, 1 - m - a); l[0] = a; l[1] = b; l[2] = 1 - a - b; }
    else if (kind == 1) { l[0] = -R.uni(m, 1); l[1] = R.uni(-1, 1.5); l[2] = 1 - l[0] - l[1]; int r = R.ri(0, 2); std::rotate(l, l + r, l + 3); }
    else if (kind == 2) { l[0] = 0; l[1] = R.uni(m, 1 - m); l[2] = 1 - l[1]; int r = R.ri(0, 2); std::rotate(l, l + r, l + 3); }
    else { l[0] = 1; l[1] = l[2] = 0; int r = R.ri(0, 2); std::rotate(l, l + r, l + 3); }
    p = v[0] * l[0] + v[1] * l[1] + v[2] * l[2];
    v.push_back(p);
    V3 n = frame(R, v);
    if (R.flip()) std::swap(v[1], v[2]);
    Tr t = tri(v[0], v[1], v[2]);
    CGeoIntersectionType it;
    describe(fmt("triangle contains kind=%d l=(%g %g %g) tol=%g", kind, l[0], l[1], l[2], tol)); sig(kind); sigd(l[0]); sigd(v[3].x);
    bool got = t.contains(co(v[3]), it, tol);
    expect(got == (kind != 1), "triangle-contains-answer", "got %d | %s", got, st().desc.c_str());
    if (got && kind == 3) expect(it == IT_VERTEX, "triangle-contains-vertex", "%s | %s", tname(it), st().desc.c_str());
    if (got && kind != 3) expect(it == (kind == 2 ? IT_EDGE : IT_INTERNAL) || (kind == 0 && m < 10 * tol), "triangle-contains-type", "%s | %s", tname(it), st().desc.c_str());
    if (kind != 1) nontrivial();
    V3 q = v[3] + n * R.uni(-2, 2);
    Co np; double d = -1;
    t.distance(co(q), np, d, tol);
    double want = triDist(q, v[0], v[1], v[2]);
    expectNear(d, want, 1e-6, kind == 1 ? "triangle-distance-outside" : "triangle-distance-inside");
    expectNear((v3(np) - q).norm(), d, 1e-9, "triangle-distance-point");
    // quadrilateral made of two triangles
    std::vector<V3> Q = { V3(0, 0, 0), V3(1, 0, 0), V3(R.uni(0.8, 1.4), R.uni(0.8, 1.4), 0), V3(0, 1, 0) };
    V3 x(R.uni(-0.5, 1.6), R.uni(-0.5, 1.6), 0);
    double mind = 1e300; bool in = true;
    for (int i = 0; i < 4; ++i) { double c = (Q[(i + 1) % 4] - Q[i]).cross(x - Q[i]).z; if (c < 0) in = false; mind = std::min(mind, segDist(x, Q[i], Q[(i + 1) % 4])); }
    if (mind > 0.01) {
        std::vector<V3> w = Q; w.push_back(x);
        frame(R, w);
        CGeoQuadrilateral<D> qd;
        for (int i = 0; i < 4; ++i) qd.addVertex(co(w[i]));
        expect(qd.contains(co(w[4]), it, tol) == in, "quad-contains-answer", "in=%d x=(%g %g)", in, x.x, x.y);
    }
}

FAMILY(triangleLine, 2500, 250000)
{
    std::vector<V3> v = goodTriangle(R);
    double tol = tolOf(R);
    V3 a = inBox(R, 2), b = inBox(R, 2);
    if (R.flip(0.5)) { // aim at the inside
        double p = R.uni(0.05, 0.6), q = R.uni(0.05, 0.3);
        V3 c = v[0] * p + v[1] * q + v[2] * (1 - p - q), dir = unitVec(R);
        if (std::fabs(dir.z) < 0.05) dir.z = 0.3;
        a = c - dir * R.uni(0.1, 2); b = c + dir * R.uni(-0.05, 2);
    }
    if (std::fabs(a.z - b.z) < 0.02 || std::fabs(a.z) < 1e-3 || std::fabs(b.z) < 1e-3) { count("skip.band"); return; }
    bool want = false;
    V3 pt;
    double s = a.z / (a.z - b.z), l[3];
    pt = a + (b - a) * s;
    bary(v, pt, l);
    double mn = std::min(l[0], std::min(l[1], l[2]));
    if (std::fabs(mn) < 1e-3) { count("skip.band"); return; }
    want = s > 0 && s < 1 && mn > 0;
    v.push_back(a); v.push_back(b); v.push_back(pt);
    frame(R, v);
    Tr t = tri(v[0], v[1], v[2]);
    Ln ln = line(v[3], v[4]);
    Co np; CGeoIntersectionType it;
    describe(fmt("triangle-line s=%g l=(%g %g %g) tol=%g", s, l[0], l[1], l[2], tol)); sigd(s); sigd(mn);
    bool got = t.intersects(ln, np, it, tol);
    expect(got == want, "triangle-line-answer", "got %d want %d | %s", got, want, st().desc.c_str());
    if (got && want) { expectNear((v3(np) - v[5]).norm(), 0, 1e-7, "triangle-line-point"); nontrivial(); }
}

// Do the triangles cross?  +1 yes, -1 no, 0 too close to call.
static int crossing(const std::vector<V3>& a, const std::vector<V3>& b)
{
    double margin = 1e300;
    bool yes = false;
    for (int side = 0; side < 2; ++side) {
        const std::vector<V3>&T = side ? b : a, &E = side ? a : b;
        V3 n = (T[1] - T[0]).cross(T[2] - T[0]).unit();
        for (int i = 0; i < 3; ++i) {
            double h0 = (E[i] - T[0]).dot(n), h1 = (E[(i + 1) % 3] - T[0]).dot(n);
            margin = std::min(margin, std::fabs(h0));
            if (h0 * h1 > 0) continue;
            double s = h0 / (h0 - h1), l[3];
            bary(T, E[i] + (E[(i + 1) % 3] - E[i]) * s, l);
            double mn = std::min(l[0], std::min(l[1], l[2]));
            margin = std::min(margin, std::fabs(mn));
            if (mn > 0) yes = true;
        }
    }
    if (margin < 2e-3) return 0;
    return yes ? 1 : -1;
}
static double overlap2D(const std::vector<V3>& a, const std::vector<V3>& b) // separating-axis depth in the xy plane: >0 overlapping
{
    double depth = 1e300;
    for (int side = 0; side < 2; ++side) {
        const std::vector<V3>&P = side ? b : a;
        for (int i = 0; i < 3; ++i) {
            V3 e = P[(i + 1) % 3] - P[i], n = V3(-e.y, e.x, 0).unit();
            double a0 = 1e300, a1 = -1e300, b0 = 1e300, b1 = -1e300;
            for (auto& p : a) a0 = std::min(a0, p.dot(n)), a1 = std::max(a1, p.dot(n));
            for (auto& p : b) b0 = std::min(b0, p.dot(n)), b1 = std::max(b1, p.dot(n));
            depth = std::min(depth, std::min(a1, b1) - std::max(a0, b0));
        }
    }
    return depth;
}
FAMILY(triangleTriangle, 3000, 300000)
{
    double tol = tolOf(R);
    int kind = R.ri(0, 6);
    static const char* names[] = { "general", "shared-vertex", "shared-edge", "coincident", "coplanar", "coplanar-apart", "coplanar-shared-edge" };
    std::vector<V3> a = goodTriangle(R), b(3);
    bool want = false;
    int wt = -1; // -1: not prescribed
    if (kind == 0) {
        V3 s = inBox(R, 1.2);
        for (auto& p : b) p = V3(0.5, 0.5, 0) + s + inBox(R, 1);
        V3 n = (b[1] - b[0]).cross(b[2] - b[0]);
        if (n.norm() < 0.1) { count("skip.degenerate"); return; }
        int c = crossing(a, b);
        if (!c) { count("skip.band"); return; }
        want = c > 0;
        wt = IT_INTERNAL;
    } else if (kind == 1) { // share one vertex, otherwise on one side of the plane
        int i = R.ri(0, 2);
        double sg = R.flip() ? 1 : -1;
        b[0] = a[i];
        b[1] = b[0] + V3(R.uni(-1, 1), R.uni(-1, 1), sg * R.uni(0.2, 1));
        b[2] = b[0] + V3(R.uni(-1, 1), R.uni(-1, 1), sg * R.uni(0.2, 1));
        if ((b[1] - b[0]).cross(b[2] - b[0]).norm() < 0.1) { count("skip.degenerate"); return; }
        want = true; wt = IT_VERTEX;
    } else if (kind == 2) {
        int i = R.ri(0, 2);
        b[0] = a[(i + 1) % 3]; b[1] = a[i];
        V3 m = (b[0] + b[1]) * 0.5;
        b[2] = m + V3(R.uni(-1, 1), R.uni(-1, 1), (R.flip() ? 1 : -1) * R.uni(0.2, 1));
        want = true; wt = IT_EDGE;
    } else if (kind == 3) { b = a; want = true; wt = IT_COINCIDENT; }
    else if (kind == 4 || kind == 5) {
        Rigid g = rotation(V3(0, 0, 1), R.uni(0, 6.28));
        std::vector<V3> q = goodTriangle(R);
        double sc = R.pick(std::vector<double>{ 1.0, 1.0, 0.1 });
        V3 s(R.uni(-1.5, 1.5), R.uni(-1.5, 1.5), 0);
        if (kind == 4) { double p = R.uni(0.2, 0.4), r = R.uni(0.2, 0.4); s = a[0] * p + a[1] * r + a[2] * (1 - p - r); }
        for (int i = 0; i < 3; ++i) b[i] = g.rot(q[i] - (q[0] + q[1] + q[2]) * (1 / 3.0)) * sc + s;
        double d = overlap2D(a, b);
        if (std::fabs(d) < 0.02) { count("skip.band"); return; }
        for (auto& p : a) for (int i = 0; i < 3; ++i) if (segDist(p, b[i], b[(i + 1) % 3]) < 0.005) { count("skip.band"); return; }
        for (auto& p : b) for (int i = 0; i < 3; ++i) if (segDist(p, a[i], a[(i + 1) % 3]) < 0.005) { count("skip.band"); return; }
        want = d > 0;
        wt = IT_INTERNAL;
    } else {
        // coplanar neighbours across a common edge: touching, not overlapping
        int i = R.ri(0, 2);
        b[0] = a[(i + 1) % 3]; b[1] = a[i];
        V3 e = b[1] - b[0], out = V3(-e.y, e.x, 0).unit();
        if (out.dot(a[(i + 2) % 3] - a[i]) > 0) out = out * -1;
        b[2] = (b[0] + b[1]) * 0.5 + e * R.uni(-0.3, 0.3) + out * R.uni(0.2, 1);
        want = true; wt = IT_EDGE;
    }
    std::vector<V3> v = a;
    v.insert(v.end(), b.begin(), b.end());
    frame(R, v);
    describe(fmt("triangle-triangle %s tol=%g", names[kind], tol));
    sig(kind); sigd(v[0].x); sigd(v[4].y);
    for (int k = 0; k < 4; ++k) {
        std::vector<V3> x(v.begin(), v.begin() + 3), y(v.begin() + 3, v.end());
        if (k & 1) std::swap(x, y);
        std::rotate(y.begin(), y.begin() + R.ri(0, 2), y.end());
        std::rotate(x.begin(), x.begin() + R.ri(0, 2), x.end());
        if (k & 2) std::swap(x[1], x[2]);
        Tr s = tri(x[0], x[1], x[2]), t = tri(y[0], y[1], y[2]);
        CGeoIntersectionType it;
        bool got = s.intersects(t, it, tol);
        if (!expect(got == want, fmt("triangle-triangle-answer-%s", names[kind]).c_str(), "got %d (%s) variant %d | %s", got, tname(it), k, st().desc.c_str())) return;
        if (got && wt >= 0) expect(it == (EIntersectionType)wt, fmt("triangle-triangle-type-%s", names[kind]).c_str(), "%s variant %d | %s", tname(it), k, st().desc.c_str());
    }
    if (want) nontrivial();
}

FAMILY(ball, 800, 80000)
{
    V3 c = inBox(R, 3), u = unitVec(R);
    double r = R.uni(0.1, 3), f = R.pick(std::vector<double>{ R.uni(0, 0.999), R.uni(1.001, 3), 1 - 1e-6, 1 + 1e-6 }), tol = R.pick(std::vector<double>{ 0, 1e-9, 0.01 * r });
    describe(fmt("ball r=%g f=%g tol=%g", r, f, tol)); sigd(f);
    bool want = f * r <= r + tol;
    if (std::fabs(f * r - r - tol) < 1e-8 * r) return;
    Co cc = co(c);
    CGeoSphere<D> s(cc, r);
    Co p = co(c + u * (f * r));
    expect(s.contains(p, tol) == want, "sphere-contains", "%s", st().desc.c_str());
    V3 w = V3(u.x, u.y, 0).unit();
    CGeoCircle<D> k(cc, r);
    Co q = co(c + w * (f * r));
    expect(k.contains(q, tol) == want, "circle-contains", "%s", st().desc.c_str());
    // sphere through four points, circle through three
    V3 a[4];
    for (auto& x : a) x = c + unitVec(R) * r;
    double det = (a[1] - a[0]).cross(a[2] - a[0]).dot(a[3] - a[0]);
    if (std::fabs(det) > 0.05 * r * r * r) {
        Co b0 = co(a[0]), b1 = co(a[1]), b2 = co(a[2]), b3 = co(a[3]);
        CGeoSphere<D> t(b0, b1, b2, b3);
        expect(t.contains(co(c + u * (r * (1 - 1e-6)))) && !t.contains(co(c + u * (r * (1 + 1e-6)))), "sphere4-contains", "%s", st().desc.c_str());
        expectNear((v3(t.center()) - c).norm(), 0, 1e-8 * (1 + r), "sphere4-centre");
    }
    nontrivial();
}

FAMILY(tetrahedron, 2500, 250000)
{
    std::vector<V3> v = { V3(0, 0, 0), V3(R.uni(0.4, 2), 0, 0), V3(R.uni(-0.5, 1.5), R.uni(0.4, 2), 0), V3(R.uni(-0.5, 1), R.uni(-0.5, 1), -R.uni(0.4, 2)) };
    double l[4], m = 0.01;
    bool in = R.flip();
    if (in) { double s = 0; for (auto& x : l) s += x = R.uni(m, 1); for (auto& x : l) x /= s; }
    else { l[0] = -R.uni(m, 1); l[1] = R.uni(-1, 1); l[2] = R.uni(-1, 1); l[3] = 1 - l[0] - l[1] - l[2]; int r = R.ri(0, 3); std::rotate(l, l + r, l + 4); }
    V3 p;
    for (int i = 0; i < 4; ++i) p = p + v[i] * l[i];
    v.push_back(p);
    Rigid g = randomRigid(R, 4);
    for (auto& x : v) x = g(x);
    int r = R.ri(0, 2);
    std::rotate(v.begin(), v.begin() + r, v.begin() + 3);
    CGeoTetrahedron<D> t;
    for (int i = 0; i < 4; ++i) t.addVertex(co(v[i]));
    describe(fmt("tetrahedron contains in=%d l=(%g %g %g %g)", in, l[0], l[1], l[2], l[3])); sigd(l[0]); sigd(l[3]);
    expect(t.contains(co(v[4]), 1e-9) == in, "tetrahedron-contains", "%s", st().desc.c_str());
    if (in) nontrivial();
}
