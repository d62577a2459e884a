// P05: vector algebra, coordinate systems, convex hulls and line chains.
#include "solids.hpp"
#include "GeoVector.hpp"
#include "GeoCoordinateSystem.hpp"
#include "GeoConvexHull.hpp"
#include "GeoLineList.hpp"
#include "GeoVertexList.hpp"
using namespace solids;
using namespace mon;
using namespace ENigMA::geometry;
typedef CGeoVector<D> Ve;
static Ve ve(const V3& v) { return Ve(v.x, v.y, v.z); }
static V3 anyVec(Rng& R)
{
    double s = std::exp(R.uni(-8, 8));
    V3 v = R.flip(0.2) ? V3(R.ri(-2, 2), R.ri(-2, 2), R.ri(-2, 2)) : inBox(R, 1);
    return v * s;
}

FAMILY(vectorAlgebra, 2500, 250000)
{
    V3 a = anyVec(R), b = anyVec(R), c = anyVec(R);
    Ve A = ve(a), B = ve(b), C = ve(c);
    double na = a.norm(), nb = b.norm(), nc = c.norm();
    describe(fmt("a=(%g %g %g) b=(%g %g %g)", a.x, a.y, a.z, b.x, b.y, b.z)); sigd(a.x); sigd(b.y);
    expectNear(A.dot(B), a.dot(b), 1e-12 * na * nb, "dot");
    expectNear((v3(Ve(A.cross(B))) - a.cross(b)).norm(), 0, 1e-12 * na * nb, "cross");
    expectNear((v3(Ve(A.cross(B))) + v3(Ve(B.cross(A)))).norm(), 0, 1e-12 * na * nb, "cross-antisymmetric");
    expectNear(Ve(A.cross(B)).dot(C), A.dot(Ve(B.cross(C))), 1e-12 * na * nb * nc, "triple-product");
    expectNear(A.norm(), na, 1e-12 * na, "norm");
    expectNear(A.norm(), std::sqrt(A.dot(A)), 1e-12 * na, "norm-dot");
    if (na > 1e-6 && nb > 1e-6) {
        double want = std::atan2(a.cross(b).norm(), a.dot(b));
        // acos loses half the digits near 0 and pi
        double tol = 1e-7;
        expectNear(A.angle(B), want, tol, "angle");
        expectNear(B.angle(A), want, tol, "angle-symmetric");
        Ve S = A * 3.5, T = A * -1.0;
        expectNear(S.angle(B), want, tol, "angle-scale");
        expectNear(T.angle(B), 3.14159265358979323846 - want, tol, "angle-supplement");
        expect(A.angle(A) < tol, "angle-self", "%g", A.angle(A));
        Ve N = A;
        N.normalize();
        expectNear(N.norm(), 1, 1e-12, "normalize");
        CGeoNormal<D> M(a.x, a.y, a.z);
        expectNear((v3(M) - a.unit()).norm(), 0, 1e-12, "normal-unit");
        nontrivial();
    }
    // in-plane rotation
    double t = R.uni(-10, 10), u = R.uni(-10, 10);
    auto rot = [](const V3& v, double w) { return V3(v.x * std::cos(w) - v.y * std::sin(w), v.x * std::sin(w) + v.y * std::cos(w), v.z); };
    Ve P = A;
    P.rotate(t);
    expectNear((v3(P) - rot(a, t)).norm(), 0, 1e-12 * (1 + na) * 10, "rotate");
    expectNear(P.norm(), na, 1e-12 * na, "rotate-length");
    Ve Q = P;
    Q.rotate(u);
    Ve W = A;
    W.rotate(t + u);
    expectNear((v3(Q) - v3(W)).norm(), 0, 1e-11 * (1 + na), "rotate-composes");
    Q.rotate(-t - u);
    expectNear((v3(Q) - a).norm(), 0, 1e-11 * (1 + na), "rotate-inverse");
}

FAMILY(transform, 1500, 150000)
{
    V3 r[3] = { anyVec(R), anyVec(R), anyVec(R) };
    if (R.flip()) { Rigid g = randomRigid(R); r[0] = V3(g.m[0][0], g.m[0][1], g.m[0][2]); r[1] = V3(g.m[1][0], g.m[1][1], g.m[1][2]); r[2] = V3(g.m[2][0], g.m[2][1], g.m[2][2]); }
    CGeoCoordinateSystem<D> cs;
    for (int i = 0; i < 3; ++i) cs.row(i) << r[i].x, r[i].y, r[i].z;
    V3 p = anyVec(R), q = anyVec(R);
    describe("coordinate system transform"); sigd(p.x); sigd(r[0].x);
    auto M = [&](const V3& v) { return V3(r[0].dot(v), r[1].dot(v), r[2].dot(v)); };
    double s = (r[0].norm() + r[1].norm() + r[2].norm());
    Co a = co(p), b = co(q), c = co(p + q * 2.0);
    a.transform(cs); b.transform(cs); c.transform(cs);
    expectNear((v3(a) - M(p)).norm(), 0, 1e-12 * s * p.norm(), "transform");
    expectNear((v3(c) - (v3(a) + v3(b) * 2.0)).norm(), 0, 1e-11 * s * (p.norm() + 2 * q.norm()), "transform-linear");
    CGeoCoordinateSystem<D> cs2 = cs * cs;
    Co d = co(p), e = co(p);
    d.transform(cs); d.transform(cs);
    e.transform(cs2);
    expectNear((v3(d) - v3(e)).norm(), 0, 1e-11 * s * s * p.norm(), "transform-composes");
    nontrivial();
}

FAMILY(convexHull, 1500, 150000)
{
    int n = R.ri(3, 30), kind = R.ri(0, 3);
    std::vector<V3> v;
    if (kind == 0) for (int i = 0; i < n; ++i) v.push_back(V3(R.uni(-1, 1), R.uni(-1, 1), 0));
    else if (kind == 1) for (int i = 0; i < n; ++i) v.push_back(V3(R.ri(0, 4), R.ri(0, 4), 0));
    else if (kind == 2) { double t = 0; for (int i = 0; i < n; ++i) { t = R.uni(0, 6.2831853); v.push_back(V3(std::cos(t), std::sin(t), 0)); } }
    else { for (int i = 0; i < n; ++i) v.push_back(V3(R.uni(-1, 1), R.uni(-0.05, 0.05), 0)); v[1] = v[0] + V3(0.1, 0, 0); v[2] = v[0] + V3(0.2, 0, 0); v.push_back(V3(0, 1, 0)); }
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 4, true);
    double best = 0;
    for (auto& a : v) for (auto& b : v) for (auto& c : v) best = std::max(best, (b - a).cross(c - a).norm());
    describe(fmt("hull of %d points kind %d", (int)v.size(), kind)); sig(kind); sigd(v[0].x + v.back().y);
    if (best < 1e-3) { count("skip.collinear"); return; }
    V3 nz = g.rot(V3(0, 0, 1));
    std::vector<Co> in;
    for (auto& p : v) { p = g(p); in.push_back(co(p)); }
    CGeoConvexHull<D> h;
    if (R.flip(0.3)) { std::vector<Co> other = { co(inBox(R)), co(inBox(R)), co(inBox(R)), co(inBox(R)) }; h.set(other); }
    h.set(in);
    int m = h.nbVertices();
    if (!expect(m >= 3, "hull-size", "%d vertices | %s", m, st().desc.c_str())) return;
    double sc = g.s, eps = 5e-8 * sc;
    std::vector<V3> H;
    for (int i = 0; i < m; ++i) H.push_back(v3(h.vertex(i)));
    for (auto& p : H) {
        bool found = false;
        for (auto& q : v) if ((p - q).norm() == 0) found = true;
        expect(found, "hull-vertex-given", "%s", st().desc.c_str());
    }
    double area = 0;
    for (int i = 1; i + 1 < m; ++i) area += (H[i] - H[0]).cross(H[i + 1] - H[0]).dot(nz) / 2;
    double sgn = area > 0 ? 1 : -1;
    for (int i = 0; i < m; ++i) {
        V3 e = H[(i + 1) % m] - H[i];
        // on lattices collinear hull points are ordered by rounding: the polygon may fold back along a side
        if (kind == 1 || e.norm() < 1e-9 * sc) continue;
        for (auto& p : v) {
            double dd = e.unit().cross(p - H[i]).dot(nz) * sgn;
            if (!expect(dd > -eps, "hull-contains", "point outside edge %d by %g | %s", i, -dd, st().desc.c_str())) return;
        }
    }
    // area by an independent hull (gift of the supporting directions)
    double ref = 0;
    {
        std::vector<std::pair<double, double>> P;
        V3 ex = g.rot(V3(1, 0, 0)), ey = g.rot(V3(0, 1, 0));
        for (auto& p : v) P.push_back({ p.dot(ex), p.dot(ey) });
        int s = 0, N = P.size();
        for (int i = 1; i < N; ++i) if (P[i] < P[s]) s = i;
        int c = s, guard = 0;
        std::vector<int> idx;
        do {
            idx.push_back(c);
            int nx = -1;
            for (int i = 0; i < N; ++i) {
                if (P[i] == P[c]) continue;
                if (nx < 0) { nx = i; continue; }
                double cr = (P[nx].first - P[c].first) * (P[i].second - P[c].second) - (P[nx].second - P[c].second) * (P[i].first - P[c].first);
                double d1 = std::hypot(P[nx].first - P[c].first, P[nx].second - P[c].second), d2 = std::hypot(P[i].first - P[c].first, P[i].second - P[c].second);
                if (cr < -1e-12 * d1 * d2 || (std::fabs(cr) <= 1e-12 * d1 * d2 && d2 > d1)) nx = i;
            }
            c = nx;
        } while (c != s && P[c] != P[s] && ++guard < 2 * N);
        for (size_t i = 0; i < idx.size(); ++i) {
            auto &a = P[idx[i]], &b = P[idx[(i + 1) % idx.size()]];
            ref += (a.first * b.second - a.second * b.first) / 2;
        }
        if (guard >= 2 * N) { count("skip.reference"); return; }
        for (auto& h : H) {
            double x = h.dot(ex), y = h.dot(ey), in = 1e300;
            for (size_t i = 0; i < idx.size(); ++i) {
                auto &a = P[idx[i]], &b = P[idx[(i + 1) % idx.size()]];
                double L = std::hypot(b.first - a.first, b.second - a.second);
                if (L > 0) in = std::min(in, std::fabs((b.first - a.first) * (y - a.second) - (b.second - a.second) * (x - a.first)) / L);
            }
            expect(in < 5e-8 * sc, "hull-vertex-extreme", "a hull vertex is %g inside | %s", in, st().desc.c_str());
        }
    }
    expectNear(std::fabs(area), std::fabs(ref), 1e-7 * (sc * sc + std::fabs(ref)), "hull-area");
    nontrivial();
}

FAMILY(lineChain, 1500, 150000)
{
    // a closed loop of distinct vertices, its lines shuffled and randomly inverted
    int n = R.ri(3, 25);
    Rigid g = randomRigid(R, 4);
    std::vector<V3> p;
    for (int i = 0; i < n; ++i) p.push_back(g(V3(std::cos(6.2831853 * i / n) * R.uni(0.5, 2), std::sin(6.2831853 * i / n) * R.uni(0.5, 2), R.uni(-0.3, 0.3))));
    std::vector<std::pair<int, int>> e;
    for (int i = 0; i < n; ++i) e.push_back({ i, (i + 1) % n });
    R.shuffle(e);
    CGeoLineList<D> l;
    double len = 0;
    for (auto& x : e) { if (R.flip()) std::swap(x.first, x.second); l.addLine(CGeoLine<D>(co(p[x.first]), co(p[x.second]))); len += (p[x.first] - p[x.second]).norm(); }
    describe(fmt("loop of %d lines", n)); sig(n); sigd(p[0].x); sig(e[0].first * 64 + e[1].first);
    l.sort(1e-9);
    expect(l.nbLines() == n, "chain-size", "%d", l.nbLines());
    std::set<std::pair<int, int>> seen;
    for (int i = 0; i < n; ++i) {
        expect((v3(l.line(i).endPoint()) - v3(l.line((i + 1) % n).startPoint())).norm() < 1e-8, "chain-linked", "line %d does not continue | %s", i, st().desc.c_str());
        expect((v3(l.line(i).startPoint()) + v3(l.line(i).vector()) - v3(l.line(i).endPoint())).norm() < 1e-12 * 100, "chain-line-vector", "%s", st().desc.c_str());
        int a = -1, b = -1;
        for (int k = 0; k < n; ++k) { if ((v3(l.line(i).startPoint()) - p[k]).norm() < 1e-8) a = k; if ((v3(l.line(i).endPoint()) - p[k]).norm() < 1e-8) b = k; }
        if (a > b) std::swap(a, b);
        seen.insert({ a, b });
    }
    expect((int)seen.size() == n && !seen.count({ -1, -1 }), "chain-lines-kept", "%d of %d lines | %s", (int)seen.size(), n, st().desc.c_str());
    l.calculateLength();
    expectNear(l.length(), len, 1e-9 * len, "chain-length");
    V3 far = inBox(R, 9);
    CGeoLineList<D> two = l;
    two.addLine(CGeoLine<D>(co(p[0]), co(far)));
    two.calculateLength();
    expectNear(two.length(), len + (far - p[0]).norm(), 1e-9 * (len + 20), "chain-length-grown");
    two.reset();
    two.calculateLength();
    expectNear(two.length(), 0, 0, "chain-length-reset");
    CGeoLineList<D> inv = l;
    inv.invert();
    for (int i = 0; i < n; ++i) {
        expectNear((v3(inv.line(i).startPoint()) - v3(l.line(n - 1 - i).endPoint())).norm(), 0, 1e-12 * 100, "chain-invert");
        expectNear((v3(inv.line(i).endPoint()) - v3(l.line(n - 1 - i).startPoint())).norm(), 0, 1e-12 * 100, "chain-invert");
    }
    nontrivial();
}

FAMILY(vertexList, 1000, 100000)
{
    // history of edits against std::vector
    CGeoVertexList<D> l;
    std::vector<V3> m;
    int ops = R.ri(5, 60);
    describe("vertex list history");
    for (int i = 0; i < ops; ++i) {
        int k = R.ri(0, 9);
        V3 p = V3(R.ri(0, 2), R.ri(0, 2), R.ri(0, 2));
        Co c = co(p);
        sig(k * 27 + p.x + 3 * p.y + 9 * p.z);
        if (k < 4) { l.addVertex(c); m.push_back(p); }
        else if (k == 4) { int at = R.ri(0, m.size()); l.insertVertex(at, c); m.insert(m.begin() + at, p); }
        else if (k == 5 && m.size()) { int at = R.ri(0, m.size() - 1); l.removeVertex(at); m.erase(m.begin() + at); }
        else if (k == 6 && m.size()) { int at = R.ri(0, 2 * m.size() - 1); l.setVertex(at, c); m[at % m.size()] = p; }
        else if (k == 7) { l.invert(); std::reverse(m.begin(), m.end()); }
        else if (k == 8) { l.removeDuplicates(); std::vector<V3> o; for (auto& q : m) if (o.empty() || (o.back() - q).norm() > 0) o.push_back(q); m = o; }
        else if (k == 9 && R.flip(0.2)) { l.reset(); m.clear(); }
        if (!expect(l.nbVertices() == (int)m.size(), "vertexlist-size", "%d want %d after op %d", l.nbVertices(), (int)m.size(), k)) return;
        for (size_t j = 0; j < m.size(); ++j) if (!expect((v3(l.vertex(j)) - m[j]).norm() == 0, "vertexlist-content", "index %d after op %d", (int)j, k)) return;
    }
    nontrivial();
}
FAMILY(removeCollinear, 800, 80000)
{
    // corners of a convex polygon plus points on its sides; only the corners turn
    int n = R.ri(3, 8);
    std::vector<V3> corner, all;
    for (int i = 0; i < n; ++i) corner.push_back(V3(std::cos(6.2831853 * i / n), std::sin(6.2831853 * i / n), 0));
    Rigid g = randomRigid(R, 3);
    for (int i = 0; i < n; ++i) {
        all.push_back(g(corner[i]));
        int k = i + 1 < n ? R.ri(0, 3) : 0;
        for (int j = 1; j <= k; ++j) all.push_back(g(corner[i] + (corner[(i + 1) % n] - corner[i]) * (j / (k + 1.0))));
    }
    CGeoVertexList<D> l;
    for (auto& p : all) l.addVertex(co(p));
    describe(fmt("%d corners, %d vertices", n, (int)all.size())); sig(n * 100 + all.size()); sigd(all[0].x);
    l.removeCollinear(1e-4);
    if (!expect(l.nbVertices() == n, "collinear-count", "%d want %d", l.nbVertices(), n)) return;
    for (int i = 0; i < n; ++i) expectNear((v3(l.vertex(i)) - g(corner[i])).norm(), 0, 1e-12 * 10, "collinear-corner");
    if ((int)all.size() > n) nontrivial();
    for (int k = 0; k < 3; ++k) {
        CGeoVertexList<D> s;
        for (int i = 0; i < k; ++i) s.addVertex(co(all[i]));
        s.removeCollinear(1e-4);
        expect(s.nbVertices() == k, "collinear-short", "%d want %d", s.nbVertices(), k);
    }
}
