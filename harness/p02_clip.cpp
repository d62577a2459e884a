// P02: clipping by a plane conserves area and volume.
#include "solids.hpp"
using namespace solids;
using namespace mon;

// A plane n.x = d chosen relative to the given vertices.  kind: 0 generic, 1 through a vertex, 2 through an edge, 3 along a face, 4 misses, 5 through two vertices and generic, 6 axis aligned
static void choosePlane(Rng& R, const std::vector<V3>& v, const Body* b, int kind, V3& n, double& d)
{
    n = unitVec(R);
    if (kind == 6) { n = V3(0, 0, 0); (&n.x)[R.ri(0, 2)] = R.flip() ? 1 : -1; }
    if (kind == 2 || kind == 5) {
        V3 a = v[R.ri(0, (int)v.size() - 1)], c = a;
        while ((c - a).norm() == 0) c = v[R.ri(0, (int)v.size() - 1)];
        n = (c - a).cross(unitVec(R));
        if (n.norm() < 1e-6 * (c - a).norm()) n = (c - a).cross(V3(0.3, 0.5, 0.8));
        n = n.unit();
        d = n.dot(a);
        return;
    }
    if (kind == 3 && b) {
        const Loop& l = (*b)[R.ri(0, (int)b->size() - 1)];
        n = l.areaVec().unit() * (R.flip() ? 1 : -1);
        d = n.dot(l[0]);
        return;
    }
    double lo = 1e300, hi = -1e300;
    for (auto& p : v) lo = std::min(lo, n.dot(p)), hi = std::max(hi, n.dot(p));
    if (kind == 1) d = n.dot(v[R.ri(0, (int)v.size() - 1)]);
    else if (kind == 4) d = R.flip() ? hi + (hi - lo) * R.uni(0.01, 1) : lo - (hi - lo) * R.uni(0.01, 1);
    else d = lo + (hi - lo) * R.uni(0.02, 0.98);
}
static Pn plane(const V3& n, double d) { return Pn(No(n.x, n.y, n.z), d); }

FAMILY(polygon, 5000, 500000)
{
    int n = R.ri(3, 9);
    Loop l = convexLoop(R, n);
    Rigid g = randomRigid(R, 0, true);
    V3 t = inBox(R, 5) * g.s;
    if (R.flip(0.2)) { g = identity(); t = inBox(R, 3); }
    for (auto& p : l) p = g(p) + t;
    V3 pn; double pd;
    int kind = R.pick(std::vector<int>{ 0, 0, 0, 1, 2, 4, 5, 6 });
    choosePlane(R, l, nullptr, kind, pn, pd);
    V3 ln = l.areaVec().unit();
    if (ln.cross(pn).norm() < 1e-3) { count("skip.coplanar"); return; }
    double sz = 0;
    for (auto& p : l) sz = std::max(sz, (p - l[0]).norm());
    double mag = sz + std::fabs(l[0].x) + std::fabs(l[0].y) + std::fabs(l[0].z);
    double eps = 1e-9 * mag;
    double tol = R.flip() ? 0 : 1e-9 * sz;
    describe(fmt("n=%d kind=%d size=%g plane=(%g %g %g) d=%g tol=%g", n, kind, sz, pn.x, pn.y, pn.z, pd, tol));
    sig(n); sig(kind); sigd(pd);
    double A = l.area(), sum = 0;
    PG pg = polygon(l);
    int nonempty = 0;
    for (int side = 0; side < 2; ++side) {
        Pn pl = plane(pn * (side ? -1 : 1), pd * (side ? -1 : 1));
        PG c = pg.clip(pl, tol);
        Loop m = loopOf(c);
        if (m.size() < 3) { // nothing but a degenerate sliver may be left
            count("obs.empty-piece");
            continue;
        }
        ++nonempty;
        expect(c.polyline().isClosed(tol), "polygon-not-closed", "%s", st().desc.c_str());
        double worst = -1e300, off = 0;
        for (auto& p : m) {
            worst = std::max(worst, (p.dot(pn) - pd) * (side ? -1 : 1));
            off = std::max(off, std::fabs((p - l[0]).dot(ln)));
        }
        expect(worst <= eps, "polygon-vertex-on-cut-side", "by %g, %s", worst, st().desc.c_str());
        expect(off <= eps, "polygon-vertex-off-plane", "by %g, %s", off, st().desc.c_str());
        // inside the original
        double out = -1e300;
        for (size_t i = 0; i < l.size(); ++i) {
            V3 e = l[(i + 1) % l.size()] - l[i], in = ln.cross(e).unit();
            for (auto& p : m) out = std::max(out, -(p - l[i]).dot(in));
        }
        expect(out <= eps, "polygon-piece-outside-original", "by %g, %s", out, st().desc.c_str());
        double a = m.area();
        c.calculateArea(true);
        if (a > 1e-6 * A) expectNear(c.area(), a, 1e-7 * A, "polygon-piece-area");
        sum += a;
    }
    expectNear(sum, A, 1e-7 * A + eps * sz * 20, "polygon-area-not-conserved");
    if (nonempty == 2) nontrivial();
}

static void checkPiece(PH& h, const Body& orig, const V3& pn, double pd, double eps, const char* what, double& vol, double& surf)
{
    Body b = bodyOf(h);
    vol = surf = 0;
    if (b.empty()) { count("obs.empty-piece"); return; }
    std::string why;
    vol = volume(b);
    surf = surface(b);
    if (vol < 1e-9 * volume(orig)) { count("obs.sliver-piece"); return; }
    bool cl = closed(b, 20 * eps, why);
    expect(cl, fmt("%s-not-closed", what).c_str(), "%s | %s", why.c_str(), st().desc.c_str());
    double worst = -1e300, out = -1e300;
    for (auto& l : b) for (auto& p : l) {
        worst = std::max(worst, p.dot(pn) - pd);
        for (auto& o : orig) out = std::max(out, (p - o[0]).dot(o.areaVec().unit()));
    }
    expect(worst <= 10 * eps, fmt("%s-vertex-on-cut-side", what).c_str(), "by %g, %s", worst, st().desc.c_str());
    expect(out <= 10 * eps, fmt("%s-outside-original", what).c_str(), "by %g, %s", out, st().desc.c_str());
    h.calculateVolume(true);
    expectNear(h.volume(), vol, 1e-6 * volume(orig), fmt("%s-volume-wrong", what).c_str());
}

FAMILY(polyhedron, 4000, 400000)
{
    int bk = R.ri(0, 6);
    Body b = randomBody(R, bk, R.flip() ? 0 : 3);
    double sz = diam(b), mag = sz;
    for (auto& p : b[0]) mag = std::max(mag, p.norm());
    double eps = 1e-10 * mag, tol = 1e-8 * mag;
    int rounds = R.ri(1, 3);
    PH h = polyhedron(b);
    sig(bk); sigd(sz);
    for (int r = 0; r < rounds; ++r) {
        Body cur = bodyOf(h);
        double V = volume(cur), S = surface(cur);
        std::vector<V3> v = distinctVertices(cur);
        V3 pn; double pd;
        int kind = R.pick(std::vector<int>{ 0, 0, 0, 0, 1, 2, 3, 4, 5, 6 });
        choosePlane(R, v, &cur, kind, pn, pd);
        // planes that pass a vertex closer than the tolerance but not through it are inside the tolerance band: skip
        bool band = false;
        for (auto& p : v) { double q = std::fabs(p.dot(pn) - pd); if (q < 50 * tol) band = true; }
        bool special = kind == 1 || kind == 2 || kind == 3 || kind == 5;
        if (band && !special) { count("skip.band"); return; }
        if (special) { // the other vertices are on the plane to rounding, or clear of it
            bool mid = false;
            for (auto& p : v) { double q = std::fabs(p.dot(pn) - pd); if (q >= eps && q < 50 * tol) mid = true; }
            if (mid) { count("skip.band"); return; }
        }
        describe(fmt("body=%d round=%d kind=%d size=%g V=%g plane=(%g %g %g) d=%g tol=%g", bk, r, kind, sz, V, pn.x, pn.y, pn.z, pd, tol));
        sig(kind); sigd(pd);
        const char* tag = kind == 1 ? "vertex-cut" : kind == 3 ? "face-cut" : special ? "edge-cut" : "piece";
        double vol[2], surf[2], cap[2];
        PH piece[2];
        for (int side = 0; side < 2; ++side) {
            V3 n = pn * (side ? -1 : 1); double d = pd * (side ? -1 : 1);
            Pn pl = plane(n, d);
            PG np;
            int capId = 1000 + r;
            piece[side] = h.clip(np, capId, pl, tol);
            checkPiece(piece[side], cur, n, d, std::max(eps, tol), tag, vol[side], surf[side]);
            cap[side] = 0;
            if (piece[side].nbPolygons() > 0 && piece[side].containsPolygon(capId)) {
                Loop c = loopOf(piece[side].polygon(capId));
                cap[side] = c.area();
                if (cap[side] > 1e-6 * sz * sz) {
                    expect(c.areaVec().unit().dot(n) > 1 - 1e-5, fmt("%s-cap-orientation", tag).c_str(), "%s", st().desc.c_str());
                    expectNear(loopOf(np).area(), cap[side], 1e-9 * sz * sz, fmt("%s-cap-returned", tag).c_str());
                }
            }
        }
        expectNear(vol[0] + vol[1], V, 1e-6 * V, fmt("%s-volume-not-conserved", tag).c_str());
        bool sliver = std::min(vol[0], vol[1]) < 1e-9 * V;
        if (!sliver) expectNear(surf[0] + surf[1], S + cap[0] + cap[1], 1e-6 * S, fmt("%s-surface-not-conserved", tag).c_str());
        if (cap[0] > 0 && cap[1] > 0 && !sliver) { expectNear(cap[0], cap[1], 1e-6 * S, fmt("%s-caps-differ", tag).c_str()); nontrivial(); }
        h = vol[0] > vol[1] ? piece[0] : piece[1];
        if (std::max(vol[0], vol[1]) < 0.05 * V || special) break;
    }
}

FAMILY(fraction, 1500, 150000)
{
    int bk = R.ri(0, 6);
    Body b = randomBody(R, bk, R.flip() ? 0 : 2, R.flip());
    double sz = diam(b), mag = sz;
    for (auto& p : b[0]) mag = std::max(mag, p.norm());
    double V = volume(b);
    double req = R.pick(std::vector<double>{ R.uni(0.01, 0.99), R.uni(0.01, 0.99), R.uni(0.01, 0.99), 0.5, 0.0, 1.0, 0.02, 0.98 });
    V3 n = unitVec(R);
    if (R.flip(0.2)) n = V3(0, 0, R.flip() ? 1 : -1);
    double tol = 1e-9 * std::max(1.0, mag);
    PH h = polyhedron(b);
    // state left behind by earlier measurements must not matter
    if (R.flip()) { h.calculateVolume(); h.calculateCentroid(); }
    Pn pl = plane(n, R.uni(-3, 3));
    PG np;
    double act = -1;
    int it = -1;
    describe(fmt("body=%d req=%g V=%g size=%g n=(%g %g %g)", bk, req, V, sz, n.x, n.y, n.z));
    sig(bk); sigd(req); sigd(V);
    PH c = h.clip(np, 77, pl, req, act, it, 80, 1e-9, tol);
    Body cb = bodyOf(c);
    double f = cb.empty() ? 0 : volume(cb) / V;
    expect(it <= 80 && it >= 0, "fraction-iterations", "%d %s", it, st().desc.c_str());
    expectNear(f, req, 1e-5, "fraction-not-reached");
    expectNear(act, f, 1e-5, "fraction-reported-wrong");
    if (req > 0 && req < 1 && !cb.empty()) {
        double vol, surf;
        checkPiece(c, b, n, pl.d(), 100 * tol, "fraction", vol, surf);
        nontrivial();
    }
}

FAMILY(cut, 1000, 80000)
{
    int bk = R.ri(0, 6);
    Body b = randomBody(R, bk, 2);
    double sz = diam(b), mag = sz;
    for (auto& p : b[0]) mag = std::max(mag, p.norm());
    double V = volume(b), tol = 1e-8 * mag;
    V3 pn; double pd;
    std::vector<V3> v = distinctVertices(b);
    choosePlane(R, v, &b, 0, pn, pd);
    for (auto& p : v) if (std::fabs(p.dot(pn) - pd) < 50 * tol) { count("skip.band"); return; }
    PH h = polyhedron(b), other;
    PG np;
    bool frac = R.flip();
    double req = R.uni(0.05, 0.95), act = -1;
    int it = 0;
    Pn pl = plane(pn, pd);
    describe(fmt("body=%d frac=%d req=%g V=%g plane=(%g %g %g) d=%g", bk, frac, req, V, pn.x, pn.y, pn.z, pd));
    sig(bk); sigd(pd); sig(frac);
    PH kept = frac ? h.cut(other, np, 55, pl, req, act, it, 80, 1e-9, tol) : h.cut(other, np, 55, pl, tol);
    double v1, v2, s1, s2, d = frac ? pl.d() : pd;
    double slack = frac ? 2e-5 * sz + 100 * tol : tol;
    checkPiece(kept, b, pn, d, slack, "cut-kept", v1, s1);
    checkPiece(other, b, pn * -1, -d, slack, "cut-other", v2, s2);
    expectNear(v1 + v2, V, frac ? 1e-4 * V : 1e-6 * V, "cut-volume-not-conserved");
    if (frac) expectNear(v1 / V, req, 1e-5, "cut-fraction-not-reached");
    nontrivial();
}
