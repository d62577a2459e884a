// Random convex polygons and polyhedra with an independent measure of them.
#pragma once
#include "gen.hpp"
#include "GeoPolygon.hpp"
#include "GeoPolyhedron.hpp"
#include "GeoPlane.hpp"
namespace solids {
using namespace gen;
typedef double D;
typedef ENigMA::geometry::CGeoCoordinate<D> Co;
typedef ENigMA::geometry::CGeoVector<D> Ve;
typedef ENigMA::geometry::CGeoNormal<D> No;
typedef ENigMA::geometry::CGeoPolyline<D> PL;
typedef ENigMA::geometry::CGeoPolygon<D> PG;
typedef ENigMA::geometry::CGeoPolyhedron<D> PH;
typedef ENigMA::geometry::CGeoPlane<D> Pn;

inline Co co(const V3& v) { return Co(v.x, v.y, v.z); }
struct Loop : std::vector<V3> { // one planar loop, counter-clockwise seen from outside
    V3 areaVec() const
    {
        V3 a;
        for (size_t i = 0; i < size(); ++i) a = a + ((*this)[i] - (*this)[0]).cross((*this)[(i + 1) % size()] - (*this)[0]);
        return a * 0.5;
    }
    double area() const { return areaVec().norm(); }
};
typedef std::vector<Loop> Body;
inline double volume(const Body& b)
{
    double v = 0;
    if (b.empty()) return 0;
    V3 o = b[0][0];
    for (auto& l : b) v += (l[0] - o).dot(l.areaVec());
    return v / 3;
}
inline double surface(const Body& b)
{
    double s = 0;
    for (auto& l : b) s += l.area();
    return s;
}
inline V3 centre(const Body& b) // exact volume centroid
{
    V3 o = b[0][0], c;
    double vt = 0;
    for (auto& l : b)
        for (size_t i = 1; i + 1 < l.size(); ++i) {
            double v = (l[0] - o).dot((l[i] - o).cross(l[i + 1] - o)) / 6;
            c = c + (l[0] + l[i] + l[i + 1] + o - o * 4.0) * (v / 4);
            vt += v;
        }
    return o + c * (1 / vt);
}
inline double diam(const Body& b)
{
    double d = 0;
    for (auto& l : b) for (auto& p : l) d = std::max(d, (p - b[0][0]).norm());
    return d;
}
inline PG polygon(const Loop& l)
{
    PL pl;
    for (auto& p : l) pl.addVertex(co(p));
    pl.close();
    PG g;
    g.setPolyline(pl);
    return g;
}
inline PH polyhedron(const Body& b, const std::vector<int>* ids = nullptr)
{
    PH h;
    for (size_t i = 0; i < b.size(); ++i) { PG g = polygon(b[i]); h.addPolygon(ids ? (*ids)[i] : (int)i, g); }
    return h;
}
// What the library's object holds, read back vertex by vertex (closing vertex dropped).
inline Loop loopOf(PG& g)
{
    Loop l;
    for (int i = 0; i < g.polyline().nbVertices(); ++i) l.push_back(v3(g.polyline().vertex(i)));
    if (l.size() > 1 && (l.front() - l.back()).norm() == 0) l.pop_back();
    return l;
}
inline Body bodyOf(PH& h)
{
    Body b;
    for (int i = 0; i < h.nbPolygons(); ++i) b.push_back(loopOf(h.polygon(h.polygonId(i))));
    return b;
}
inline Loop convexLoop(Rng& R, int n)
{
    std::vector<double> a;
    for (;;) { // no gap above ~150 degrees or below a few degrees: keeps the loop round an interior point
        a.clear();
        for (int i = 0; i < n; ++i) a.push_back(R.uni(0, 6.283185307179586));
        std::sort(a.begin(), a.end());
        bool ok = true;
        for (int i = 0; i < n; ++i) {
            double g = i + 1 < n ? a[i + 1] - a[i] : a[0] + 6.283185307179586 - a[i];
            if (g > 2.6 || g < 0.12) ok = false;
        }
        if (ok) break;
    }
    double ex = R.uni(0.4, 1), rot = R.uni(0, 6.28);
    Loop l;
    for (double t : a) {
        double x = std::cos(t), y = ex * std::sin(t);
        l.push_back(V3(std::cos(rot) * x - std::sin(rot) * y, std::sin(rot) * x + std::cos(rot) * y, 0));
    }
    return l;
}
// kinds: 0 tetrahedron, 1 prism, 2 hexahedron (parallelepiped), 3 n-prism, 4 n-pyramid, 5 n-bipyramid, 6 n-frustum
inline Body unitBody(Rng& R, int kind)
{
    Body b;
    auto mapAll = [&](Body& x) {
        // random well-conditioned orientation-preserving shear/stretch
        double s[3] = { R.uni(0.6, 1.6), R.uni(0.6, 1.6), R.uni(0.6, 1.6) }, h = R.uni(-0.4, 0.4), k = R.uni(-0.4, 0.4), m = R.uni(-0.4, 0.4);
        for (auto& l : x) for (auto& p : l) p = V3(s[0] * p.x + h * p.y + k * p.z, s[1] * p.y + m * p.z, s[2] * p.z);
    };
    auto L = [](std::initializer_list<V3> v) { Loop l; for (auto& p : v) l.push_back(p); return l; };
    if (kind == 0) {
        V3 a(0, 0, 0), p(1, 0, 0), q(0, 1, 0), r(0, 0, 1);
        b = { L({ a, q, p }), L({ a, p, r }), L({ a, r, q }), L({ p, q, r }) };
    } else {
        int n = kind == 1 ? 3 : kind == 2 ? 4 : R.ri(3, 7);
        Loop base;
        if (kind == 1) base = L({ V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0) });
        else if (kind == 2) base = L({ V3(0, 0, 0), V3(1, 0, 0), V3(1, 1, 0), V3(0, 1, 0) });
        else base = convexLoop(R, n);
        double f = kind == 6 ? R.uni(0.3, 0.9) : 1;
        Loop top = base, bot = base;
        for (auto& p : top) p = V3(p.x * f, p.y * f, 1);
        std::reverse(bot.begin(), bot.end());
        if (kind == 4 || kind == 5) {
            V3 ap(R.uni(-0.05, 0.05), R.uni(-0.05, 0.05), 1), dn(R.uni(-0.05, 0.05), R.uni(-0.05, 0.05), -1);
            for (int i = 0; i < n; ++i) b.push_back(L({ base[i], base[(i + 1) % n], ap }));
            if (kind == 4) b.push_back(bot);
            else for (int i = 0; i < n; ++i) b.push_back(L({ base[(i + 1) % n], base[i], dn }));
        } else {
            b.push_back(bot);
            b.push_back(top);
            for (int i = 0; i < n; ++i) b.push_back(L({ base[i], base[(i + 1) % n], top[(i + 1) % n], top[i] }));
        }
    }
    mapAll(b);
    return b;
}
inline Body randomBody(Rng& R, int kind, double tmax = 5, bool scale = true)
{
    Body b = unitBody(R, kind);
    Rigid g = randomRigid(R, 0, scale);
    V3 t = inBox(R, tmax) * g.s;
    for (auto& l : b) for (auto& p : l) p = g(p) + t;
    // random starting vertex per face, random face order
    for (auto& l : b) std::rotate(l.begin(), l.begin() + R.ri(0, (int)l.size() - 1), l.end());
    R.shuffle(b);
    return b;
}
inline std::vector<V3> distinctVertices(const Body& b)
{
    std::vector<V3> v;
    double eps = 1e-9 * diam(b);
    for (auto& l : b)
        for (auto& p : l) {
            bool dup = false;
            for (auto& q : v) if ((p - q).norm() <= eps) dup = true;
            if (!dup) v.push_back(p);
        }
    return v;
}
// Every directed edge of the body has its reverse (within tol): closed and consistently oriented.
inline bool closed(const Body& b, double tol, std::string& why)
{
    struct E { V3 a, c; };
    std::vector<E> e;
    for (auto& l : b)
        for (size_t i = 0; i < l.size(); ++i) {
            V3 a = l[i], c = l[(i + 1) % l.size()];
            if ((a - c).norm() > 2 * tol) e.push_back({ a, c });
        }
    std::vector<char> used(e.size(), 0);
    for (size_t i = 0; i < e.size(); ++i) {
        if (used[i]) continue;
        bool f = false;
        for (size_t j = i + 1; j < e.size() && !f; ++j)
            if (!used[j] && (e[i].a - e[j].c).norm() <= tol && (e[i].c - e[j].a).norm() <= tol) used[i] = used[j] = 1, f = true;
        if (!f) { why = mon::fmt("edge (%g %g %g)-(%g %g %g) has no opposite", e[i].a.x, e[i].a.y, e[i].a.z, e[i].c.x, e[i].c.y, e[i].c.z); return false; }
    }
    return true;
}
}
