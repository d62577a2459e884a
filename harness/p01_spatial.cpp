// P01: spatial indices answer queries exactly like a linear scan.
#include "gen.hpp"
#include <limits>
#include "GeoHashGrid.hpp"
#include "GeoOctree.hpp"
#include "GeoRtree.hpp"
#include "GeoAdtree.hpp"
using namespace ENigMA::geometry;
using namespace gen;
typedef CGeoCoordinate<double> Co;
typedef CGeoBoundingBox<double> BB;

static std::vector<V3> cloud(Rng& R, int n, int kind, double scale, const V3& off)
{
    std::vector<V3> p;
    int ax = R.ri(0, 2);
    std::vector<V3> centres;
    for (int i = 0; i < 4; ++i) centres.push_back(inBox(R));
    for (int i = 0; i < n; ++i) {
        V3 v = inBox(R);
        switch (kind) {
        case 1: v = centres[R.ri(0, 3)] + inBox(R) * 0.01; break;                            // clusters
        case 2: (ax == 0 ? v.x : ax == 1 ? v.y : v.z) = 0; break;                             // plane
        case 3: v = ax == 0 ? V3(v.x, 0, 0) : ax == 1 ? V3(0, v.y, 0) : V3(0, 0, v.z); break; // line
        case 4: v = V3(R.ri(-4, 4), R.ri(-4, 4), R.ri(-4, 4)) * 0.25; break;                  // lattice, many duplicates
        case 5: v = centres[0]; break;                                                        // all coincident
        case 6: v = V3(v.x * 1000, v.y, v.z * 0.001); break;                                  // anisotropic
        case 7: v = (i % 3) ? v * 1e-7 : v; break;                                            // two scales
        }
        p.push_back(v * scale + off);
    }
    return p;
}

template <class Index>
static void pointIndex(Rng& R, const char* name, int nmax, bool big)
{
    Index g;
    int rounds = R.ri(1, 3);
    for (int r = 0; r < rounds; ++r) {
        std::vector<V3> pts;
        std::vector<int> ids;
        int kind = R.ri(0, 7), n = big ? R.ri(1200, nmax) : R.pick(std::vector<int>{ 1, 2, 3, 5, 17, 60, R.ri(1, nmax) });
        double scale = std::pow(10.0, R.ri(-3, 3));
        V3 off = R.flip(0.4) ? V3() : inBox(R) * (scale * (R.flip(0.3) ? 1e4 : 3));
        pts = cloud(R, n, kind, scale, off);
        int base = R.ri(-50, 1000), step = R.ri(1, 7);
        for (int i = 0; i < n; ++i) ids.push_back(base + step * i);
        R.shuffle(ids);
        for (int i = 0; i < n; ++i) g.addGeometricObject(ids[i], as<Co>(pts[i]));
        g.build();
        int phase = R.ri(0, 3);
        if (phase == 0) { g.build(); mon::count("rebuilds"); }         // rebuild unchanged
        if (phase == 1) {                                              // grow and rebuild
            std::vector<V3> more = cloud(R, R.ri(1, 40), R.ri(0, 7), scale, off);
            for (auto& v : more) {
                int id = 100000 + (int)pts.size();
                g.addGeometricObject(id, as<Co>(v));
                pts.push_back(v);
                ids.push_back(id);
            }
            g.build();
            mon::count("grow_rebuilds");
        }
        mon::describe(mon::fmt("%s kind=%d n=%d scale=%g off=(%g,%g,%g) round=%d", name, kind, (int)pts.size(), scale, off.x, off.y, off.z, r));
        mon::sig(kind * 7919 + n); mon::sigd(pts[0].x);
        int nq = big ? 40 : 25;
        for (int q = 0; q < nq; ++q) {
            V3 c = pts[R.next() % pts.size()];
            double tol = 0, ext = scale * (kind == 6 ? 1000 : 1);
            switch (R.ri(0, 6)) {
            case 0: break;                                                             // exact member, zero tolerance
            case 1: tol = ext * std::pow(10, R.uni(-6, 0)); c = c + unitVec(R) * (tol * R.uni(0, 1.5)); break;
            case 2: c = inBox(R) * ext + off; tol = ext * R.uni(0.01, 1); break;
            case 3: c = off + unitVec(R) * (ext * std::pow(10, R.uni(0.5, 8))); tol = ext * std::pow(10, R.uni(-3, 8)); break; // outside
            case 4: tol = ext * R.uni(0, 0.3); break;
            case 5: c = c + unitVec(R) * (ext * 1e-3); tol = 0; break;                 // near miss
            case 6: { V3 d = pts[R.next() % pts.size()]; c = (c + d) * 0.5; tol = (d - c).norm() * R.uni(0.8, 1.2); break; }
            }
            std::vector<int> got;
            g.find(got, as<Co>(c), tol);
            std::set<int> gs(got.begin(), got.end());
            mon::expect(gs.size() == got.size(), mon::fmt("%s.duplicate", name).c_str(), "%d ids, %d distinct | %s", (int)got.size(), (int)gs.size(), mon::st().desc.c_str());
            std::map<int, double> dist;
            long must = 0;
            for (size_t i = 0; i < pts.size(); ++i) {
                double d = (pts[i] - c).norm();
                dist[ids[i]] = d;
                double slack = 1e-9 * (tol + pts[i].norm() * 1e-4 + c.norm() * 1e-4);
                if (tol == 0 ? d == 0 : d < tol - slack) {
                    ++must;
                    if (!gs.count(ids[i])) mon::violation(mon::fmt("%s.missing", name), mon::fmt("id %d at distance %.17g not found with tol %.17g q=%d | %s", ids[i], d, tol, q, mon::st().desc.c_str()));
                }
            }
            mon::count("obs." + std::string(name) + ".missing", (long)pts.size());
            for (int id : gs) {
                bool ok = dist.count(id) && dist[id] <= tol * (1 + 1e-9) + 1e-9 * 1e-3 * (c.norm() + off.norm()) * (tol > 0);
                mon::expect(ok, mon::fmt("%s.spurious", name).c_str(), "id %d returned, distance %g tol %g | %s", id, dist.count(id) ? dist[id] : -1, tol, mon::st().desc.c_str());
            }
            if (must > 0 && must < (long)pts.size()) mon::nontrivial();
            mon::count("hits", must);
        }
        if (r + 1 < rounds) {
            g.reset();
            mon::count("resets");
            std::vector<int> got;
            g.find(got, as<Co>(pts[0]), scale);
            mon::expect(got.empty(), mon::fmt("%s.afterReset", name).c_str(), "%d ids after reset", (int)got.size());
        }
    }
}
FAMILY(hashgrid, 400, 6000) { pointIndex<CGeoHashGrid<double>>(R, "hashgrid", 400, false); }
FAMILY(octree, 300, 4000) { pointIndex<CGeoOctree<double>>(R, "octree", 400, false); }
FAMILY(octree_deep, 24, 300) { pointIndex<CGeoOctree<double>>(R, "octree", mon::thorough() ? 20000 : 9000, true); }
FAMILY(hashgrid_big, 16, 200) { pointIndex<CGeoHashGrid<double>>(R, "hashgrid", mon::thorough() ? 20000 : 6000, true); }

struct Box { V3 a, b; };
static Box rbox(Rng& R, double ext, double size)
{
    V3 c = inBox(R) * ext, h = V3(R.u(), R.u(), R.u()) * (size * ext);
    if (R.flip(0.25)) (R.flip() ? h.x : R.flip() ? h.y : h.z) = 0; // degenerate
    if (R.flip(0.1)) h = V3();
    if (R.flip(0.2)) { c = V3(std::floor(c.x / ext * 4), std::floor(c.y / ext * 4), std::floor(c.z / ext * 4)) * (ext / 4); h = V3(.25, .25, .25) * ext; } // touching lattice boxes
    return Box{ c - h, c + h };
}
static BB mk(const Box& b) { return BB(b.a.x, b.a.y, b.a.z, b.b.x, b.b.y, b.b.z); }
static bool overlap(const Box& a, const Box& b, double t)
{
    return a.a.x <= b.b.x + t && b.a.x - t <= a.b.x && a.a.y <= b.b.y + t && b.a.y - t <= a.b.y && a.a.z <= b.b.z + t && b.a.z - t <= a.b.z;
}
static void setup(CGeoRtree<double>&, const Box&) {}
static void setup(CGeoAdtree<double>& t, const Box& b) { BB bb = mk(b); t.set(bb); }
static void drop(CGeoRtree<double>& t, int id, const Box& b) { t.removeGeometricObject(id, mk(b)); }
static void drop(CGeoAdtree<double>& t, int id, const Box&) { t.removeGeometricObject(id); }

template <class Index>
static void boxIndex(Rng& R, const char* name, int nops)
{
    double ext = std::pow(10.0, R.ri(-3, 3));
    Index t;
    Box dom{ V3(-2, -2, -2) * ext, V3(2, 2, 2) * ext };
    setup(t, dom);
    std::map<int, Box> live;
    int next = R.ri(0, 500), removals = 0, queries = 0;
    double size = R.pick(std::vector<double>{ 0.01, 0.1, 0.5, 1 });
    mon::describe(mon::fmt("%s ops=%d ext=%g size=%g", name, nops, ext, size));
    double pRem = R.uni(0.1, 0.45);
    for (int op = 0; op < nops; ++op) {
        double u = R.u();
        if (u < 0.35 || live.empty()) {
            Box b = rbox(R, ext, size);
            if (!live.empty() && R.flip(0.1)) b = live.begin()->second; // identical boxes
            int id = next; next += R.ri(1, 5);
            t.addGeometricObject(id, mk(b));
            live[id] = b;
            mon::sigd(b.a.x);
        } else if (u < 0.35 + pRem * 0.65) {
            auto it = live.begin();
            std::advance(it, R.next() % live.size());
            drop(t, it->first, it->second);
            live.erase(it);
            ++removals;
        } else if (u < 0.995) {
            Box q = rbox(R, ext * R.pick(std::vector<double>{ 1, 1, 3 }), R.pick(std::vector<double>{ 0, 0.05, 0.5, 3 }));
            double tol = R.flip() ? 0 : ext * R.uni(0, 0.3);
            std::vector<int> got;
            if (R.flip(0.3)) got.push_back(-77); // stale content must not survive
            t.find(got, mk(q), tol);
            std::set<int> gs(got.begin(), got.end());
            mon::expect(gs.size() == got.size(), mon::fmt("%s.duplicate", name).c_str(), "duplicates | %s", mon::st().desc.c_str());
            int must = 0;
            double sl = tol > 0 ? 1e-9 * ext : 0;
            for (auto& kv : live) {
                if (overlap(kv.second, q, tol - sl)) {
                    ++must;
                    mon::expect(gs.count(kv.first), mon::fmt("%s.missing", name).c_str(), "box id %d not found, tol %g op=%d live=%d removals=%d | %s", kv.first, tol, op, (int)live.size(), removals, mon::st().desc.c_str());
                }
            }
            for (int id : gs) {
                auto it = live.find(id);
                mon::expect(it != live.end() && overlap(it->second, q, tol + sl), mon::fmt("%s.spurious", name).c_str(), "id %d returned (live=%d) op=%d | %s", id, (int)(it != live.end()), op, mon::st().desc.c_str());
            }
            if (must && must < (int)live.size()) mon::nontrivial();
            ++queries;
        } else {
            t.reset();
            live.clear();
            mon::count("resets");
        }
    }
    mon::count("box_removals", removals);
    mon::count("box_queries", queries);
}
FAMILY(rtree, 240, 3000) { boxIndex<CGeoRtree<double>>(R, "rtree", R.ri(20, 500)); }
FAMILY(adtree, 240, 3000) { boxIndex<CGeoAdtree<double>>(R, "adtree", R.ri(20, 500)); }

// The box predicates the indices and their clients rely on, against interval arithmetic.
FAMILY(boxes, 200, 2000)
{
    double ext = std::pow(10.0, R.ri(-3, 3));
    for (int k = 0; k < 40; ++k) {
        BB g;
        V3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
        int n = R.ri(1, 6);
        for (int i = 0; i < n; ++i) {
            V3 p = inBox(R) * ext;
            g.addCoordinate(as<Co>(p));
            lo = V3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z));
            hi = V3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z));
        }
        mon::expect((v3(g.min()) - lo).norm() == 0 && (v3(g.max()) - hi).norm() == 0, "box.hull", "bounding box is not the hull of its points");
        Box a{ lo, hi }, b = rbox(R, ext, 0.6);
        double tol = R.flip() ? 0 : ext * R.uni(0, 0.2);
        BB B = mk(b);
        double e = 1e-12 * ext;
        bool in = g.intersects(B, tol);
        if (overlap(a, b, tol - e) || (tol == 0 && overlap(a, b, 0))) mon::expect(in, "box.intersects", "overlapping boxes reported disjoint");
        else if (!overlap(a, b, tol + e)) mon::expect(!in, "box.intersects", "disjoint boxes reported overlapping");
        V3 p = inBox(R) * (ext * 1.2);
        bool sup = g.contains(as<Co>(p), tol);
        Box pb{ p, p };
        if (overlap(a, pb, tol - e)) mon::expect(sup, "box.containsPoint", "inside point rejected");
        else if (!overlap(a, pb, tol + e)) mon::expect(!sup, "box.containsPoint", "outside point accepted");
        bool cb = g.contains(B, tol);
        auto margin = std::min({ b.a.x - lo.x, b.a.y - lo.y, b.a.z - lo.z, hi.x - b.b.x, hi.y - b.b.y, hi.z - b.b.z }) + tol;
        if (margin > e) mon::expect(cb, "box.containsBox", "contained box rejected");
        if (margin < -e) mon::expect(!cb, "box.containsBox", "protruding box accepted");
        double gx = ext * R.u(), gy = ext * R.u(), gz = ext * R.u();
        BB h = g;
        h.grow(gx, gy, gz);
        mon::expect((v3(h.min()) - (lo - V3(gx, gy, gz))).norm() <= e && (v3(h.max()) - (hi + V3(gx, gy, gz))).norm() <= e, "box.grow3", "anisotropic grow");
        h = g; h.grow(gx);
        mon::expect((v3(h.min()) - (lo - V3(gx, gx, gx))).norm() <= e && (v3(h.max()) - (hi + V3(gx, gx, gx))).norm() <= e, "box.grow", "grow");
        h.shrink(gx);
        mon::expect((v3(h.min()) - lo).norm() <= e && (v3(h.max()) - hi).norm() <= e, "box.shrink", "shrink undoes grow");
        mon::sigd(p.x);
        mon::nontrivial();
    }
}
