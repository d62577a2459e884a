// P03: lengths, areas, volumes, normals, centroids: exact, frame independent, never stale.
#include "solids.hpp"
#include "GeoLine.hpp"
#include "GeoLineList.hpp"
#include "GeoTriangle.hpp"
#include "GeoQuadrilateral.hpp"
#include "GeoTetrahedron.hpp"
#include "GeoTriangularPrism.hpp"
#include "GeoHexahedron.hpp"
#include "GeoSphere.hpp"
#include "GeoCircle.hpp"
using namespace solids;
using namespace mon;
using namespace ENigMA::geometry;
static std::string at(const char* k, const char* s) { return std::string(k) + "-" + s; }
static void nearV(const V3& a, const V3& b, double tol, const std::string& key)
{
    double d = (a - b).norm();
    expect(std::isfinite(d) && d <= tol, key.c_str(), "got (%.15g %.15g %.15g) want (%.15g %.15g %.15g) tol %g | %s", a.x, a.y, a.z, b.x, b.y, b.z, tol, st().desc.c_str());
}
template <class B> static void boxIs(B& bb, const std::vector<V3>& v, double tol, const std::string& key)
{
    V3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
    for (auto& p : v) {
        lo = V3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z));
        hi = V3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z));
    }
    nearV(v3(bb.min()), lo, tol, key);
    nearV(v3(bb.max()), hi, tol, key);
}
struct Frame { Rigid g; double mag; };
static std::vector<V3> place(Rng& R, std::vector<V3> v, double& L, double& mag)
{
    Rigid g = R.flip(0.15) ? identity() : randomRigid(R, 0, true);
    V3 t = R.flip(0.3) ? V3() : inBox(R, 4) * g.s;
    L = mag = 0;
    for (auto& p : v) { p = g(p) + t; mag = std::max(mag, p.norm()); }
    for (auto& p : v) L = std::max(L, (p - v[0]).norm());
    mag += L;
    return v;
}

FAMILY(line, 2000, 200000)
{
    CGeoLine<D> l;
    V3 a, b;
    bool have = false;
    describe("line history");
    // history of setters and recalculations: every answer is that of the current end points
    for (int k = 0, n = R.ri(1, 8); k < n; ++k) {
        double s = std::exp(R.uni(-5, 5));
        int op = R.ri(0, 4);
        if (!have || op == 0) { a = inBox(R, s); b = inBox(R, s); l = CGeoLine<D>(co(a), co(b)); have = true; }
        else if (op == 1) { a = inBox(R, s); b = inBox(R, s); l.setStartPoint(co(a)); l.setEndPoint(co(b)); }
        else if (op == 2) { b = inBox(R, s); l.setEndPoint(co(b)); }
        else if (op == 3) { a = inBox(R, s); l.setStartPoint(co(a)); }
        else { l.invert(); std::swap(a, b); }
        sig(op); sigd(a.x);
        std::string o = op == 0 ? "ctor" : op == 1 ? "setBoth" : op == 2 ? "setEnd" : op == 3 ? "setStart" : "invert";
        double m = a.norm() + b.norm(), tol = 1e-12 * m;
        nearV(v3(l.startPoint()), a, tol, at("line-start", o.c_str()));
        nearV(v3(l.endPoint()), b, tol, at("line-end", o.c_str()));
        nearV(v3(l.vector()), b - a, tol, at("line-vector", o.c_str()));
        bool re = R.flip();
        l.calculateLength(re);
        expectNear(l.length(), (b - a).norm(), tol, at("line-length", o.c_str()).c_str());
        l.calculateBoundingBox(re);
        boxIs(l.boundingBox(), { a, b }, tol, at("line-box", o.c_str()));
        double f = R.u();
        nearV(v3(l.midPoint(f)), a + (b - a) * f, tol, at("line-midpoint", o.c_str()));
    }
    nontrivial();
}

FAMILY(triangle, 2500, 250000)
{
    CGeoTriangle<D> t;
    for (int k = 0, n = R.ri(1, 3); k < n; ++k) {
        double L, mag;
        std::vector<V3> v = place(R, { V3(0, 0, 0), V3(R.uni(0.2, 1), 0, 0), V3(R.uni(-1, 1), R.uni(0.1, 1), 0) }, L, mag);
        int r = R.ri(0, 2);
        std::rotate(v.begin(), v.begin() + r, v.end());
        bool swap = R.flip();
        if (swap) std::swap(v[1], v[2]);
        V3 A = (v[1] - v[0]).cross(v[2] - v[0]) * 0.5;
        t.reset();
        for (auto& p : v) t.addVertex(co(p));
        describe(fmt("triangle round %d L=%g mag=%g", k, L, mag));
        sigd(L); sig(r);
        double tol = 1e-11 * mag;
        t.calculateNormal(); t.calculateArea(); t.calculateCentroid(); t.calculateBoundingBox();
        expectNear(t.area(), A.norm(), tol * L * 4, "triangle-area");
        nearV(v3(t.normal()), A.unit(), 1e-10 * mag / L * L * L / A.norm(), "triangle-normal");
        nearV(v3(t.centroid()), (v[0] + v[1] + v[2]) * (1 / 3.0), tol, "triangle-centroid");
        boxIs(t.boundingBox(), v, tol, "triangle-box");
        CGeoPlane<D> pl = t.getPlane();
        for (auto& p : v) expectNear(pl.distance(co(p)), 0, 1e-9 * mag * L * L / A.norm(), "triangle-plane");
    }
    nontrivial();
}

FAMILY(quadrilateral, 2000, 200000)
{
    Loop l = convexLoop(R, 4);
    double L, mag;
    std::vector<V3> v = place(R, l, L, mag);
    CGeoQuadrilateral<D> q;
    if (R.flip()) { // left over from an earlier use
        for (int i = 0; i < 4; ++i) q.addVertex(co(inBox(R)));
        q.calculateArea(); q.calculateCentroid(); q.calculateBoundingBox();
        q.reset();
    }
    for (auto& p : v) q.addVertex(co(p));
    Loop w;
    for (auto& p : v) w.push_back(p);
    V3 A = w.areaVec();
    describe(fmt("quadrilateral L=%g mag=%g", L, mag));
    sigd(L);
    double tol = 1e-11 * mag;
    q.calculateNormal(); q.calculateArea(); q.calculateCentroid(); q.calculateBoundingBox();
    expectNear(q.area(), A.norm(), tol * L * 4, "quad-area");
    nearV(v3(q.normal()), A.unit(), 1e-9 * mag * L / A.norm(), "quad-normal");
    nearV(v3(q.centroid()), (v[0] + v[1] + v[2] + v[3]) * 0.25, tol, "quad-centroid");
    boxIs(q.boundingBox(), v, tol, "quad-box");
    std::vector<CGeoTriangle<D>> ts;
    q.decimate(ts);
    double s = 0;
    expect(ts.size() == 2, "quad-decimate-count", "%zu", ts.size());
    for (auto& t : ts) {
        t.calculateArea(true); t.calculateNormal(true);
        expect(v3(t.normal()).dot(A) > 0, "quad-decimate-orientation", "%s", st().desc.c_str());
        s += t.area();
    }
    expectNear(s, A.norm(), tol * L * 8, "quad-decimate-area");
    nontrivial();
}

static void checkPolygon(Rng& R, const Loop& l, bool convex, double L, double mag)
{
    PG g;
    if (R.flip()) { // an object that already measured something else
        Loop o = convexLoop(R, R.ri(3, 6));
        for (auto& p : o) p = p * 3.0;
        g = polygon(o);
        g.calculateArea(); g.calculateNormal(); g.calculateCentroid();
        if (R.flip()) g.reset();
        PL pl;
        for (auto& p : l) pl.addVertex(co(p));
        pl.close();
        g.setPolyline(pl);
    } else g = polygon(l);
    V3 A = l.areaVec();
    double tol = 1e-10 * mag;
    g.calculateNormal(); g.calculateArea(); g.calculateCentroid();
    const char* s = convex ? "convex" : "concave";
    expectNear(g.area(), A.norm(), tol * L * 10, at("polygon-area", s).c_str());
    nearV(v3(g.normal()), A.unit(), 1e-9 * mag * L / A.norm(), at("polygon-normal", s));
    expect(g.isClosed(), "polygon-closed", "%s", st().desc.c_str());
    V3 c;
    for (auto& p : l) c = c + p;
    nearV(v3(g.centroid()), c * (1.0 / l.size()), tol, at("polygon-centroid", s));
    std::vector<CGeoTriangle<D>> ts = g.triangulate();
    double sum = 0;
    expect(ts.size() == l.size() - 2, at("polygon-triangulate-count", s).c_str(), "%zu of %zu", ts.size(), l.size());
    for (auto& t : ts) {
        t.calculateArea(true);
        sum += t.area();
        if (t.area() > 1e-9 * A.norm()) { t.calculateNormal(true); expect(v3(t.normal()).dot(A) > 0, at("polygon-triangulate-orientation", s).c_str(), "%s", st().desc.c_str()); }
    }
    expectNear(sum, A.norm(), tol * L * 10, at("polygon-triangulate-area", s).c_str());
    PG inv = g;
    inv.invert();
    nearV(v3(inv.normal()), A.unit() * -1, 1e-9 * mag * L / A.norm(), "polygon-invert-normal");
    inv.calculateNormal(true); inv.calculateArea(true);
    nearV(v3(inv.normal()), A.unit() * -1, 1e-9 * mag * L / A.norm(), "polygon-invert-recalculated");
    expectNear(inv.area(), A.norm(), tol * L * 10, "polygon-invert-area");
    nontrivial();
}
FAMILY(polygon, 2500, 250000)
{
    Loop l;
    bool convex = R.flip(0.6);
    int n = R.ri(3, 9);
    if (convex) l = convexLoop(R, n);
    else { // star-shaped: positive area, arbitrary reflex corners
        n = R.ri(4, 10);
        for (int i = 0; i < n; ++i) {
            double a = 6.283185307179586 * (i + R.uni(-0.3, 0.3)) / n, r = R.uni(0.25, 1);
            l.push_back(V3(r * std::cos(a), r * std::sin(a), 0));
        }
    }
    double L, mag;
    std::vector<V3> v = place(R, l, L, mag);
    Loop w;
    for (auto& p : v) w.push_back(p);
    std::rotate(w.begin(), w.begin() + R.ri(0, n - 1), w.end());
    if (R.flip(0.3)) std::reverse(w.begin(), w.end());
    describe(fmt("polygon n=%d convex=%d L=%g mag=%g", n, convex, L, mag));
    sig(n); sigd(L);
    checkPolygon(R, w, convex, L, mag);
}

FAMILY(polyline, 1500, 150000)
{
    int n = R.ri(2, 12);
    double s = std::exp(R.uni(-4, 4));
    std::vector<V3> v;
    for (int i = 0; i < n; ++i) v.push_back(inBox(R, s));
    PL pl;
    if (R.flip()) { pl.addVertex(co(inBox(R))); pl.addVertex(co(inBox(R))); pl.calculateLength(); pl.reset(); }
    for (auto& p : v) pl.addVertex(co(p));
    describe(fmt("polyline n=%d", n)); sig(n); sigd(s);
    double len = 0;
    for (int i = 0; i + 1 < n; ++i) len += (v[i + 1] - v[i]).norm();
    pl.calculateLength();
    expectNear(pl.length(), len, 1e-11 * n * s, "polyline-length");
    expect(pl.nbLines() == n - 1, "polyline-nblines", "%d", (int)pl.nbLines());
    for (int i = 0; i + 1 < n; ++i) {
        CGeoLine<D> l = pl.line(i);
        nearV(v3(l.startPoint()), v[i], 0, "polyline-line-start");
        nearV(v3(l.endPoint()), v[i + 1], 0, "polyline-line-end");
    }
    expect(!pl.isClosed(), "polyline-open", "n=%d", n);
    if (n > 2) {
        pl.close();
        expect(pl.isClosed() && pl.nbVertices() == n + 1, "polyline-close", "n=%d nv=%d", n, (int)pl.nbVertices());
        pl.calculateLength(true);
        expectNear(pl.length(), len + (v[n - 1] - v[0]).norm(), 1e-11 * n * s, "polyline-closed-length");
        pl.close();
        expect(pl.nbVertices() == n + 1, "polyline-close-twice", "nv=%d", (int)pl.nbVertices());
        // sorted line list gives the same loop
        CGeoLineList<D> ll;
        std::vector<int> o(n);
        std::iota(o.begin(), o.end(), 0);
        R.shuffle(o);
        double tot = 0;
        for (int i : o) {
            CGeoLine<D> e(co(v[i]), co(v[(i + 1) % n]));
            if (R.flip()) e.invert();
            ll.addLine(e);
            tot += (v[(i + 1) % n] - v[i]).norm();
        }
        ll.calculateLength();
        expectNear(ll.length(), tot, 1e-11 * n * s, "linelist-length");
        PL q(ll, true, 1e-10 * s);
        q.close(1e-10 * s);
        q.calculateLength(true);
        expect(q.nbVertices() == n + 1, "linelist-loop-vertices", "n=%d got %d", n, (int)q.nbVertices());
        expectNear(q.length(), tot, 1e-9 * n * s, "linelist-loop-length");
    }
    PL inv = pl;
    inv.invert();
    inv.calculateLength(true); pl.calculateLength(true);
    expectNear(inv.length(), pl.length(), 1e-11 * n * s, "polyline-invert-length");
    nontrivial();
}

// Library orientation: vertex 3 (and 4..7) on the negative side of the first face's normal.
FAMILY(tetrahedron, 2000, 200000)
{
    CGeoTetrahedron<D> t;
    for (int k = 0, n = R.ri(1, 3); k < n; ++k) {
        double L, mag;
        std::vector<V3> v = place(R, { V3(0, 0, 0), V3(R.uni(0.3, 1), 0, 0), V3(R.uni(-1, 1), R.uni(0.2, 1), 0), V3(R.uni(-0.5, 1), R.uni(-0.5, 1), -R.uni(0.2, 1)) }, L, mag);
        std::vector<int> p = { 0, 1, 2, 3 };
        int par = 1;
        for (int i = 3; i > 0; --i) { int j = R.ri(0, i); if (i != j) { std::swap(p[i], p[j]); par = -par; } }
        std::vector<V3> w;
        for (int i : p) w.push_back(v[i]);
        double vol = -(v[1] - v[0]).cross(v[2] - v[0]).dot(v[3] - v[0]) / 6;
        t.reset();
        for (auto& q : w) t.addVertex(co(q));
        describe(fmt("tetrahedron round %d L=%g mag=%g parity=%d", k, L, mag, par));
        sigd(L); sig(par + 5);
        t.calculateVolume(); t.calculateSurfaceArea(); t.calculateBoundingBox(); t.calculateCentroid();
        double tol = 1e-10 * mag;
        expectNear(t.volume(), par * vol, tol * L * L, "tetrahedron-volume");
        auto ar = [&](int a, int b, int c) { return (v[b] - v[a]).cross(v[c] - v[a]).norm() * 0.5; };
        expectNear(t.surfaceArea(), ar(0, 1, 2) + ar(0, 1, 3) + ar(0, 2, 3) + ar(1, 2, 3), tol * L, "tetrahedron-surface");
        nearV(v3(t.centroid()), (v[0] + v[1] + v[2] + v[3]) * 0.25, tol, k ? "tetrahedron-centroid-after-reset" : "tetrahedron-centroid");
        boxIs(t.boundingBox(), v, tol, "tetrahedron-box");
        if (par > 0) {
            CGeoPolyhedron<D> ph(t);
            ph.calculateVolume(); ph.calculateSurfaceArea(); ph.calculateBoundingBox(); ph.calculateCentroid();
            expectNear(ph.volume(), vol, tol * L * L, "tetrahedron-polyhedron-volume");
            expectNear(ph.surfaceArea(), t.surfaceArea(), tol * L, "tetrahedron-polyhedron-surface");
            nearV(v3(ph.centroid()), (v[0] + v[1] + v[2] + v[3]) * 0.25, tol, "tetrahedron-polyhedron-centroid");
            boxIs(ph.boundingBox(), v, tol, "tetrahedron-polyhedron-box");
        }
    }
    nontrivial();
}

template <class S> static void prismLike(Rng& R, int n, const char* nm)
{
    S s;
    for (int k = 0, rounds = R.ri(1, 2); k < rounds; ++k) {
        // 0 parallelepiped-like, 1 frustum (planar faces, not an affine cube)
        bool frustum = R.flip();
        double f = frustum ? R.uni(0.3, 0.9) : 1;
        std::vector<V3> base = n == 3 ? std::vector<V3>{ V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0) } : std::vector<V3>{ V3(0, 0, 0), V3(1, 0, 0), V3(1, 1, 0), V3(0, 1, 0) }, v = base;
        V3 sh(R.uni(-0.3, 0.3), R.uni(-0.3, 0.3), -R.uni(0.4, 1.5));
        for (auto& p : base) v.push_back(p * f + sh);
        double a = R.uni(0.5, 1.5), b = R.uni(0.5, 1.5), c = R.uni(-0.4, 0.4);
        for (auto& p : v) p = V3(a * p.x + c * p.y, b * p.y, p.z);
        double L, mag;
        v = place(R, v, L, mag);
        int r = R.ri(0, n - 1);
        std::rotate(v.begin(), v.begin() + r, v.begin() + n);
        std::rotate(v.begin() + n, v.begin() + n + r, v.end());
        describe(fmt("%s frustum=%d round=%d L=%g mag=%g", nm, frustum, k, L, mag));
        sig(frustum); sigd(L);
        s.reset();
        expect(s.nbVertices() == 0, at(nm, "reset").c_str(), "nv=%d after reset", (int)s.nbVertices());
        if (s.nbVertices() != 0) return;
        for (auto& p : v) s.addVertex(co(p));
        Body body;
        Loop t, q;
        for (int i = 0; i < n; ++i) t.push_back(v[i]);
        for (int i = n - 1; i >= 0; --i) q.push_back(v[n + i]);
        body = { t, q };
        for (int i = 0; i < n; ++i) {
            int j = (i + 1) % n;
            Loop e;
            e.push_back(v[j]); e.push_back(v[i]); e.push_back(v[n + i]); e.push_back(v[n + j]);
            body.push_back(e);
        }
        double vol = volume(body), tol = 1e-10 * mag;
        s.calculateVolume();
        expectNear(s.volume(), vol, tol * L * L * 10, at(nm, frustum ? "volume-frustum" : "volume").c_str());
        CGeoPolyhedron<D> ph(s);
        ph.calculateVolume(); ph.calculateSurfaceArea(); ph.calculateBoundingBox(); ph.calculateCentroid();
        expectNear(ph.volume(), vol, tol * L * L * 10, at(nm, "polyhedron-volume").c_str());
        expectNear(ph.surfaceArea(), surface(body), tol * L * 10, at(nm, "polyhedron-surface").c_str());
        boxIs(ph.boundingBox(), v, tol, at(nm, "polyhedron-box"));
        if (!frustum) nearV(v3(ph.centroid()), centre(body), tol * 100, at(nm, "polyhedron-centroid"));
        std::string why;
        Body rb = bodyOf(ph);
        expect(closed(rb, tol * 100, why), at(nm, "polyhedron-closed").c_str(), "%s", st().desc.c_str());
    }
    nontrivial();
}
FAMILY(prism, 1200, 120000) { prismLike<CGeoTriangularPrism<D>>(R, 3, "prism"); }
FAMILY(hexahedron, 1200, 120000) { prismLike<CGeoHexahedron<D>>(R, 4, "hexahedron"); }
FAMILY(hexahedronDecimate, 1200, 120000)
{
    bool frustum = R.flip();
    double f = frustum ? R.uni(0.3, 0.9) : 1;
    std::vector<V3> base = { V3(0, 0, 0), V3(1, 0, 0), V3(1, 1, 0), V3(0, 1, 0) }, v = base;
    for (auto& p : base) v.push_back(p * f + V3(R.uni(-0.01, 0.01), 0, -1) * 1.0);
    if (!frustum) for (int i = 0; i < 4; ++i) v[4 + i] = base[i] + V3(0.2, -0.1, -1);
    else for (int i = 0; i < 4; ++i) v[4 + i] = base[i] * f + V3(0.1, 0.05, -1);
    double L, mag;
    v = place(R, v, L, mag);
    CGeoHexahedron<D> h;
    Body body;
    for (auto& p : v) h.addVertex(co(p));
    CGeoPolyhedron<D> ph(h);
    body = bodyOf(ph);
    std::vector<CGeoTetrahedron<D>> ts;
    h.decimate(ts);
    double s = 0, tol = 1e-10 * mag;
    describe(fmt("hexahedron decimate frustum=%d L=%g", frustum, L)); sigd(L); sig(frustum);
    for (auto& t : ts) { t.calculateVolume(true); expect(t.volume() > 0, "hexahedron-decimate-inverted", "%g %s", t.volume(), st().desc.c_str()); s += t.volume(); }
    expectNear(s, volume(body), tol * L * L * 10, "hexahedron-decimate-volume");
    nontrivial();
}

FAMILY(polyhedron, 1500, 150000)
{
    PH h;
    std::string how = "fresh";
    for (int k = 0, n = R.ri(1, 3); k < n; ++k) {
        int bk = R.ri(0, 6);
        Body b = randomBody(R, bk, R.flip() ? 0 : 3);
        double L = diam(b), mag = L, tol;
        for (auto& l : b) for (auto& p : l) mag = std::max(mag, p.norm());
        tol = 1e-10 * mag;
        if (k == 0) h = polyhedron(b);
        else if (R.flip()) { PH o = polyhedron(b); h.set(o); how = "set"; }
        else {
            h.reset();
            for (size_t i = 0; i < b.size(); ++i) { PG g = polygon(b[i]); h.addPolygon((int)i * 3 + 5, g); }
            how = "reset-add";
        }
        describe(fmt("polyhedron kind=%d %s L=%g mag=%g", bk, how.c_str(), L, mag));
        sig(bk); sigd(L);
        h.calculateVolume(); h.calculateSurfaceArea(); h.calculateCentroid(); h.calculateBoundingBox();
        expectNear(h.volume(), volume(b), tol * L * L * 20, at("polyhedron-volume", how.c_str()).c_str());
        expectNear(h.surfaceArea(), surface(b), tol * L * 20, at("polyhedron-surface", how.c_str()).c_str());
        boxIs(h.boundingBox(), distinctVertices(b), tol, at("polyhedron-box", how.c_str()));
        V3 c = v3(h.centroid());
        double out = -1e300;
        for (auto& l : b) out = std::max(out, (c - l[0]).dot(l.areaVec().unit()));
        expect(out < 0, at("polyhedron-centroid-outside", how.c_str()).c_str(), "%g %s", out, st().desc.c_str());
        if (bk == 0 || bk == 2) nearV(c, centre(b), tol * 100, at("polyhedron-centroid", how.c_str()));
        // covariance: moving the body moves the centroid, keeps the volume
        Rigid g = randomRigid(R, 3 * L, true);
        Body mv = b;
        for (auto& l : mv) for (auto& p : l) p = g(p);
        PH m = polyhedron(mv);
        m.calculateCentroid(); m.calculateVolume(); m.calculateSurfaceArea();
        nearV(v3(m.centroid()), g(c), 1e-9 * (mag * g.s + g.t.norm() + L * g.s), "polyhedron-centroid-covariant");
        double s3 = g.s * g.s * g.s, mm = mag * g.s + g.t.norm();
        expectNear(m.volume(), h.volume() * s3, 1e-9 * mm * L * L * g.s * g.s, "polyhedron-volume-covariant");
        expectNear(m.surfaceArea(), h.surfaceArea() * g.s * g.s, 1e-9 * mm * L * g.s, "polyhedron-surface-covariant");
    }
    nontrivial();
}

FAMILY(sphere, 800, 80000)
{
    double r = std::exp(R.uni(-3, 3));
    V3 c = inBox(R, 3 * r);
    V3 d[4] = { V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(-1, -1, -1).unit() };
    Rigid g = randomRigid(R, 0);
    Co p[4];
    for (int i = 0; i < 4; ++i) p[i] = co(c + g.rot((d[i] + inBox(R, 0.2)).unit()) * r);
    bool four = R.flip();
    CGeoSphere<D> s = four ? CGeoSphere<D>(p[0], p[1], p[2], p[3]) : CGeoSphere<D>(co(c), r);
    describe(fmt("sphere four=%d r=%g", four, r)); sig(four); sigd(r);
    double tol = 1e-8 * r;
    nearV(v3(s.center()), c, tol, "sphere-centre");
    expectNear(s.radius(), r, tol, "sphere-radius");
    s.calculateVolume(); s.calculateSurfaceArea(); s.calculateCentroid(); s.calculateBoundingBox();
    double pi = std::acos(-1.0);
    expectNear(s.volume(), 4 * pi / 3 * r * r * r, 1e-7 * r * r * r, "sphere-volume");
    expectNear(s.surfaceArea(), 4 * pi * r * r, 1e-7 * r * r, "sphere-surface");
    nearV(v3(s.centroid()), c, tol, "sphere-centroid");
    boxIs(s.boundingBox(), { c - V3(r, r, r), c + V3(r, r, r) }, tol, "sphere-box");
    for (int i = 0; i < 6; ++i) {
        double f = R.flip() ? R.uni(0, 0.999) : R.uni(1.001, 2);
        expect(s.contains(co(c + unitVec(R) * (f * r))) == (f < 1), "sphere-contains", "f=%g %s", f, st().desc.c_str());
    }
    nontrivial();
}
FAMILY(circle, 800, 80000)
{
    double r = std::exp(R.uni(-3, 3));
    V3 c = inBox(R, 3 * r);
    double a = R.flip(0.3) ? 1.5707963267948966 * R.ri(0, 3) : R.uni(0, 6.28), b = a + R.uni(0.3, 2.5), e = b + R.uni(0.3, 2.5);
    if (R.flip(0.2)) { b = a + 1.5707963267948966; e = a + 3.141592653589793; }
    if (R.flip(0.2)) { b = 3.141592653589793 - a; }
    if (std::fabs(std::remainder(b - a, 6.283185307179586)) < 0.2 || std::fabs(std::remainder(e - a, 6.283185307179586)) < 0.2 || std::fabs(std::remainder(e - b, 6.283185307179586)) < 0.2) { b = a + 2; e = a + 4; }
    auto on = [&](double t) { return co(c + V3(std::cos(t), std::sin(t), 0) * r); };
    bool three = R.flip(0.7);
    CGeoCircle<D> s = three ? CGeoCircle<D>(on(a), on(b), on(e)) : CGeoCircle<D>(co(c), r);
    describe(fmt("circle three=%d r=%g angles %g %g %g", three, r, a, b, e)); sig(three); sigd(a);
    double tol = 1e-7 * r;
    nearV(v3(s.center()), c, tol, "circle-centre");
    expectNear(s.radius(), r, tol, "circle-radius");
    s.calculateArea(); s.calculateCentroid(); s.calculateBoundingBox(); s.calculateNormal();
    double pi = std::acos(-1.0);
    expectNear(s.area(), pi * r * r, 1e-6 * r * r, "circle-area");
    nearV(v3(s.centroid()), c, tol, "circle-centroid");
    boxIs(s.boundingBox(), { c - V3(r, r, 0), c + V3(r, r, 0) }, tol, "circle-box");
    nearV(V3(0, 0, std::fabs(s.normal().z())), V3(0, 0, 1), 1e-9, "circle-normal");
    for (int i = 0; i < 6; ++i) {
        double f = R.flip() ? R.uni(0, 0.999) : R.uni(1.001, 2), t = R.uni(0, 6.28);
        expect(s.contains(co(c + V3(std::cos(t), std::sin(t), 0) * (f * r))) == (f < 1), "circle-contains", "f=%g %s", f, st().desc.c_str());
    }
    nontrivial();
}
