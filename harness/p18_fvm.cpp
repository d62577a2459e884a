// P18: finite volume meshes are closed, paired and conservative; clipped control volumes keep the requested fraction.
#include "meshes.hpp"
#include "FvmMesh.hpp"
#include "FvmMeshSearch.hpp"
using namespace mon;
using namespace meshes;
using namespace ENigMA::mesh;
using namespace ENigMA::fvm;
using ENigMA::geometry::CGeoCoordinate;
using ENigMA::geometry::CGeoNormal;
typedef CFvmMesh<D> Fvm;
typedef CFvmControlVolume<D> CV;

static Raw body(Rng& R, int nmax)
{
    int kind = R.ri(0, 3); // tetra, prism, hexa, mixed columns of prisms and hexas
    int nx = R.ri(1, nmax), ny = R.ri(1, nmax), nz = R.ri(1, nmax);
    Raw r = grid(kind == 0 ? ET_TETRAHEDRON : kind == 1 ? ET_TRIANGULAR_PRISM : ET_HEXAHEDRON, nx, ny, nz);
    if (kind == 3) {
        std::vector<El> e;
        std::vector<int> split(nx * ny);
        for (int& s : split) s = R.ri(0, 1);
        int c = 0;
        for (auto& h : r.els) {
            auto& q = h.n;
            if (split[c++ % (nx * ny)]) {
                e.push_back({ (int)e.size(), ET_TRIANGULAR_PRISM, { q[0], q[1], q[2], q[4], q[5], q[6] } });
                e.push_back({ (int)e.size(), ET_TRIANGULAR_PRISM, { q[0], q[2], q[3], q[4], q[6], q[7] } });
            } else e.push_back({ (int)e.size(), ET_HEXAHEDRON, q });
        }
        r.els = e;
    }
    if (kind == 0) distort(R, r, 0.12 / nmax);
    else { // planar faces: the same plane distortion in every layer, arbitrary layer heights
        std::map<int, std::pair<double, double>> d;
        std::map<long long, double> hz;
        for (auto& n : r.nodes) {
            V3& p = n.second;
            int col = n.first % ((nx + 1) * (ny + 1));
            if (!d.count(col)) d[col] = { R.uni(-1, 1) * 0.15 / nx, R.uni(-1, 1) * 0.15 / ny };
            int lay = n.first / ((nx + 1) * (ny + 1));
            if (!hz.count(lay)) hz[lay] = R.uni(-0.2, 0.2) / nz;
            p.x += d[col].first; p.y += d[col].second; p.z += hz[lay];
        }
    }
    // affine stretch and shear keeps planes planar
    double sx = std::exp(R.uni(-1, 1)), sy = std::exp(R.uni(-1, 1)), sz = std::exp(R.uni(-1, 1)), sh = R.uni(-0.5, 0.5);
    for (auto& n : r.nodes) { V3& p = n.second; p = V3(p.x * sx + sh * p.z, p.y * sy, p.z * sz); }
    Rigid g = R.flip(0.2) ? identity() : randomRigid(R, 4, true);
    move(r, g);
    if (R.flip(0.7)) renumber(R, r, R.pick(std::vector<int>{ 1, 3, 1000 }));
    describe(fmt("%s %dx%dx%d, %d elements", kind == 0 ? "tetrahedra" : kind == 1 ? "prisms" : kind == 2 ? "hexahedra" : "mixed", nx, ny, nz, (int)r.els.size()));
    sig(kind * 1000 + nx * 100 + ny * 10 + nz); sigd(r.nodes.begin()->second.x);
    return r;
}
static std::vector<V3> pointsOf(const Raw& r, const std::vector<int>& n) { std::vector<V3> p; for (int i : n) p.push_back(r.nodes.at(i)); return p; }
static V3 meanOf(const std::vector<V3>& p) { V3 c; for (auto& x : p) c = c + x; return c * (1.0 / p.size()); }
template <class P> static std::vector<V3> verts(P& poly)
{
    std::vector<V3> v;
    int n = poly.polyline().nbVertices();
    for (int i = 0; i + 1 < n; ++i) v.push_back(v3(poly.polyline().vertex(i)));
    return v;
}
static std::string keyOf(std::vector<V3> p, double h)
{
    std::vector<std::string> k;
    for (auto& x : p) k.push_back(fmt("%lld,%lld,%lld", (long long)std::llround(x.x / h), (long long)std::llround(x.y / h), (long long)std::llround(x.z / h)));
    std::sort(k.begin(), k.end());
    std::string s;
    for (auto& x : k) s += x + ";";
    return s;
}
static double extent(const Raw& r)
{
    V3 a(1e300, 1e300, 1e300), b(-1e300, -1e300, -1e300);
    for (auto& n : r.nodes) { auto& p = n.second; a = V3(std::min(a.x, p.x), std::min(a.y, p.y), std::min(a.z, p.z)); b = V3(std::max(b.x, p.x), std::max(b.y, p.y), std::max(b.z, p.z)); }
    return (b - a).norm();
}
static double magnitude(const Raw& r) { double m = 0; for (auto& n : r.nodes) m = std::max(m, n.second.norm()); return m; }
struct Ref { std::map<std::set<int>, std::vector<int>> owners; std::map<int, El> el; };
static Ref refOf(const Raw& r)
{
    Ref f;
    for (auto& e : r.els) { f.el[e.id] = e; for (auto& q : facesOf(e.type, e.n)) f.owners[std::set<int>(q.begin(), q.end())].push_back(e.id); }
    return f;
}
static void checkMesh(Fvm& f, const Raw& r, const Ref& ref)
{
    double L = extent(r), rel = 1e-12 * (1 + magnitude(r) / L), h = 1e-7 * L;
    expect(f.nbControlVolumes() == (int)r.els.size(), "volumes.count", "%d control volumes for %d elements", (int)f.nbControlVolumes(), (int)r.els.size());
    expect(f.nbFaces() == (int)ref.owners.size(), "faces.count", "%d faces for %d distinct element faces", (int)f.nbFaces(), (int)ref.owners.size());
    std::map<std::string, std::vector<int>> want;
    for (auto& o : ref.owners) want[keyOf(pointsOf(r, std::vector<int>(o.first.begin(), o.first.end())), h)] = o.second;
    V3 flux; double div = 0;
    for (int i = 0; i < f.nbFaces(); ++i) {
        int id = f.faceId(i);
        expect(f.faceIndex(id) == i, "faces.index", "face %d at index %d reports index %d", id, i, (int)f.faceIndex(id));
        auto& F = f.face(id);
        auto p = verts(F);
        auto w = want.find(keyOf(p, h));
        if (!expect(w != want.end(), "faces.shape", "face %d is no face of any element", id)) continue;
        auto own = w->second;
        int a = F.controlVolumeId(), pair = own.size() == 2;
        expect(F.hasPair() == (pair == 1), "faces.pair", "face %d hasPair=%d but belongs to %d elements", id, (int)F.hasPair(), (int)own.size());
        expect(std::count(own.begin(), own.end(), a), "faces.owner", "face %d is owned by volume %d which does not contain it", id, a);
        if (pair) {
            int b = own[0] == a ? own[1] : own[0];
            expect(F.neighborId(a) == b && F.neighborId(b) == a && F.controlVolumeId(a) == a && F.controlVolumeId(b) == b, "faces.neighbour", "face %d between volumes %d and %d reports neighbours %d and %d", id, a, b, (int)F.neighborId(a), (int)F.neighborId(b));
        }
        V3 A = areaVector(p), out = meanOf(p) - meanOf(pointsOf(r, ref.el.at(a).n));
        expect(A.dot(out) > 0, "faces.outward", "face %d does not point out of its owner %d", id, a);
        F.calculateArea(true); F.calculateNormal(true);
        expectNear(F.area() / (L * L), A.norm() / (L * L), 10 * rel, "faces.area");
        if (!pair) { flux = flux + A; div += A.dot(meanOf(p) - r.nodes.begin()->second); }
        w->second.clear(); // a face may be used once
        w->second.push_back(-1); w->second.push_back(-1);
    }
    expect(flux.norm() <= 100 * rel * L * L, "boundary.closed", "boundary face vectors sum to %g", flux.norm() / L / L);
    double V = 0;
    for (auto& e : ref.el) V += solidVolume(e.second.type, pointsOf(r, e.second.n));
    expectNear(f.volume() / V, 1, 200 * rel * L * L * L / V, "volume.total");
    std::map<int, V3> seen; // face id -> area vector of the first side
    for (int i = 0; i < f.nbControlVolumes(); ++i) {
        int id = f.controlVolumeId(i);
        expect(f.controlVolumeIndex(id) == i, "volumes.index", "volume %d index %d", id, i);
        if (!expect(ref.el.count(id), "volumes.id", "control volume %d has no element", id)) continue;
        CV& c = f.controlVolume(id);
        auto& e = ref.el.at(id);
        auto fs = facesOf(e.type, e.n);
        expect(c.controlVolumeId() == id, "volumes.own-id", "%d vs %d", (int)c.controlVolumeId(), id);
        expect(c.nbFaces() == (int)fs.size(), "volumes.faces", "volume %d has %d faces, element %d", id, (int)c.nbFaces(), (int)fs.size());
        expect(!c.isClipped(), "volumes.clipped", "fresh volume is clipped");
        c.calculateVolume(); c.calculateCentroid(); c.calculateSurfaceArea(); c.calculateOriginalVolume();
        double v = solidVolume(e.type, pointsOf(r, e.n)), S = 0;
        V3 cen;
        for (auto& q : fs) { auto p = pointsOf(r, q); S += areaVector(p).norm(); cen = cen + meanOf(p); }
        cen = cen * (1.0 / fs.size());
        // convex planar faces except that facesOf may list a quadrilateral in order, so the triangle fan is exact
        expectNear(c.volume() / v, 1, 200 * rel * L * L * L / v, "volumes.volume", fmt("element type %d", e.type).c_str());
        expectNear(c.originalVolume() / v, 1, 200 * rel * L * L * L / v, "volumes.original-volume");
        expectNear(c.surfaceArea() / S, 1, 1e-9 + 100 * rel * L * L / S, "volumes.surface");
        expect((v3(c.centroid()) - cen).norm() < 100 * rel * L, "volumes.centroid", "off by %g", (v3(c.centroid()) - cen).norm() / L);
        V3 sum; std::set<int> ids;
        for (int k = 0; k < c.nbFaces(); ++k) {
            int fid = c.faceId(k);
            ids.insert(fid);
            expect(c.containsFace(fid), "volumes.contains", "face %d not contained", fid);
            auto& F = f.face(fid);
            expect(F.controlVolumeId(id) == id, "volumes.face-owner", "face %d does not know volume %d", fid, id);
            c.calculateFaceArea(fid); c.calculateFaceNormal(fid); c.calculateFaceCentroid(fid);
            V3 A = v3(c.faceNormal(fid)) * c.faceArea(fid), want = areaVector(verts(F)) * (F.controlVolumeId() == id ? 1.0 : -1.0);
            expect((A - want).norm() < 100 * rel * L * L, "volumes.face-vector", "face %d of volume %d is off by %g", fid, id, (A - want).norm() / L / L);
            V3 d = v3(c.faceDist(fid)), wd = meanOf(verts(F)) - cen;
            expect((d - wd).norm() < 100 * rel * L, "volumes.face-distance", "off by %g", (d - wd).norm() / L);
            expect(A.dot(d) > 0, "volumes.face-outward", "face %d points into volume %d", fid, id);
            sum = sum + A;
            if (seen.count(fid)) expect((seen[fid] + A).norm() < 100 * rel * L * L, "faces.opposite", "the two sides of face %d do not cancel", fid);
            seen[fid] = A;
        }
        expect(ids.size() == fs.size(), "volumes.distinct-faces", "%d distinct faces", (int)ids.size());
        expect(!c.containsFace(1 << 29), "volumes.contains", "contains a face it never got");
        expect(sum.norm() < 100 * rel * L * L, "volumes.closed", "face vectors of volume %d sum to %g", id, sum.norm() / L / L);
    }
    expect(f.mesh().nbElements() == (int)r.els.size() && f.mesh().nbNodes() == (int)r.nodes.size(), "mesh.kept", "source mesh not kept");
    count("volumes checked", r.els.size()); count("faces checked", ref.owners.size());
}
static void build(Mesh& m, const Raw& r)
{
    fill(m, r);
    m.generateFaces(1e-6 * extent(r));
}
FAMILY(mesh, 500, 30000)
{
    Raw r = body(R, 3);
    Ref ref = refOf(r);
    int how = R.ri(0, 3);
    Fvm f;
    if (how == 1) { Raw o = body(R, 2); Mesh mo; build(mo, o); f.set(mo); count("reused mesh object"); f.volume(); }
    {
        Mesh m; build(m, r);
        if (how == 2) { Fvm g(m); f = g; count("copied mesh"); }
        else f.set(m);
        if (how == 3) { f.set(m); count("set twice"); }
    }
    describe(fmt("%s, how %d", st().desc.c_str(), how));
    checkMesh(f, r, ref);
    if (r.els.size() > 1) nontrivial();
    int bad = 0;
    try { f.face(f.nextFaceId()); } catch (const std::out_of_range&) { ++bad; }
    try { f.controlVolume(f.nextControlVolumeId()); } catch (const std::out_of_range&) { ++bad; }
    expect(bad == 2, "next-id", "next face or volume id is already in use");
    f.reset();
    expect(f.nbFaces() == 0 && f.nbControlVolumes() == 0 && f.volume() == 0 && f.nextFaceId() == 0 && f.nextControlVolumeId() == 0, "reset", "mesh not empty after reset");
}
// Monitor a clipped control volume through its public interface.
static void checkPiece(CV& c, const V3& n, double req, double V, double L, double rel, bool fresh, const char* when)
{
    std::string w = when;
    c.calculateVolume(fresh); c.calculateSurfaceArea(fresh); c.calculateCentroid(fresh);
    expectNear(c.volume() / V, req, 2e-5, ("clip.volume-" + w).c_str(), fmt("requested fraction of the volume; recalculated=%d", (int)fresh).c_str());
    V3 sum, cen; double S = 0;
    for (int k = 0; k < c.nbFaces(); ++k) {
        int id = c.faceId(k);
        c.calculateFaceArea(id, fresh); c.calculateFaceNormal(id, fresh); c.calculateFaceCentroid(id, fresh);
        double a = c.faceArea(id);
        if (a > 1e-8 * L * L) expect(std::fabs(v3(c.faceNormal(id)).norm() - 1) < 1e-9, "clip.unit-normal", "%g", v3(c.faceNormal(id)).norm());
        sum = sum + v3(c.faceNormal(id)) * a; S += a;
    }
    expect(sum.norm() < 1e-5 * L * L, ("clip.closed-" + w).c_str(), "face vectors of the clipped volume sum to %g", sum.norm() / L / L);
    expectNear(c.surfaceArea() / (L * L), S / (L * L), 1e-6, ("clip.surface-" + w).c_str());
    (void)n; (void)rel;
}
FAMILY(clip, 1500, 100000)
{
    Raw r = body(R, 2);
    Mesh m; build(m, r);
    Fvm f(m);
    Ref ref = refOf(r);
    double Lb = extent(r), rel = 1e-12 * (1 + magnitude(r) / Lb);
    CV& c = f.controlVolume(f.controlVolumeId(R.ri(0, f.nbControlVolumes() - 1)));
    int id = c.controlVolumeId();
    auto pts = pointsOf(r, ref.el.at(id).n);
    double V = solidVolume(ref.el.at(id).type, pts), L = std::cbrt(V);
    // slivers make the fraction ill conditioned
    double diam = 0;
    for (auto& a : pts) for (auto& b : pts) diam = std::max(diam, (a - b).norm());
    if (diam > 6 * L) { count("sliver skipped"); return; }
    bool prior = R.flip();
    if (prior) { c.calculateVolume(); c.calculateCentroid(); c.calculateSurfaceArea(); if (R.flip()) f.volume(); }
    c.calculateOriginalVolume();
    int fid = f.nextFaceId();
    c.setClippedFaceId(fid);
    expect(c.clippedFaceId() == fid, "clip.face-id", "%d", (int)c.clippedFaceId());
    std::set<int> orig;
    for (int k = 0; k < c.nbFaces(); ++k) orig.insert(c.faceId(k));
    int rounds = R.ri(1, 4);
    V3 n0 = unitVec(R);
    for (int q = 0; q < rounds; ++q) {
        V3 n = R.flip(0.3) ? n0 : unitVec(R);
        if (R.flip(0.2)) { auto F = facesOf(ref.el.at(id).type, ref.el.at(id).n); auto p = pointsOf(r, F[R.ri(0, F.size() - 1)]); n = areaVector(p).unit() * (R.flip() ? 1 : -1); count("clip parallel to a face"); }
        double req = R.flip(0.1) ? (R.flip() ? 0 : 1) : R.uni(0.01, 0.99), act = -1;
        int it = -1;
        CGeoNormal<D> nn = as<CGeoNormal<D>>(n);
        Integer iters = 0;
        c.clip(nn, req, act, iters, 80, 1e-7, 1e-10 * L);
        it = iters;
        describe(fmt("clip %d of volume %d (type %d) by (%g %g %g) to %g: reported %g after %d iterations; properties read before: %d", q, id, ref.el.at(id).type, n.x, n.y, n.z, req, act, it, (int)prior));
        expect(c.isClipped(), "clip.flag", "not flagged");
        expectNear(act, req, 2e-5, "clip.reported-fraction");
        bool fresh = R.flip(0.4);
        checkPiece(c, n, req, V, L, rel, fresh, fresh ? "recalculated" : "read");
        c.calculateOriginalVolume(R.flip());
        expectNear(c.originalVolume() / V, 1, 1e-6, "clip.original-volume");
        // everything kept lies below the clip plane; the new face is that plane
        double top = -1e300, lo = 1e300;
        if (req > 0 && req < 1) {
            expect(c.containsFace(fid), "clip.new-face", "no face %d in the clipped volume", fid);
            auto p = verts(c.clippedFace());
            if (expect(p.size() >= 3, "clip.face-polygon", "%d vertices", (int)p.size())) {
                for (auto& x : p) { top = std::max(top, x.dot(n)); lo = std::min(lo, x.dot(n)); }
                expect(top - lo < 1e-8 * diam + 1e-13 * magnitude(r), "clip.face-plane", "clip face is %g out of plane", (top - lo) / diam);
                c.calculateFaceNormal(fid); c.calculateFaceArea(fid);
                expect(v3(c.faceNormal(fid)).dot(n) > 1 - 1e-6, "clip.face-normal", "clip face normal is not the clip direction: %g", v3(c.faceNormal(fid)).dot(n));
                double A = areaVector(p).norm();
                expectNear(c.faceArea(fid) / (L * L), A / (L * L), 1e-6, "clip.face-area");
                double wa = 0, wlo = 1e300, whi = -1e300;
                for (auto& x : pts) { wlo = std::min(wlo, x.dot(n)); whi = std::max(whi, x.dot(n)); }
                (void)wa;
                expect(top > wlo - 1e-9 * diam && top < whi + 1e-9 * diam, "clip.plane-inside", "plane outside the volume");
                // independent section-based volume: integrate the kept part by tetrahedra
                int kept = 0;
                for (int k = 0; k < c.nbFaces(); ++k) { int g = c.faceId(k); if (g != fid) { expect(orig.count(g), "clip.foreign-face", "face %d", g); ++kept; } }
                expect(kept >= 1, "clip.kept-faces", "no original face kept");
                // centroid on the kept side, all face centres too
                for (int k = 0; k < c.nbFaces(); ++k) {
                    int g = c.faceId(k);
                    c.calculateFaceCentroid(g);
                    V3 fc = v3(c.faceDist(g)) + v3(c.centroid());
                    expect(fc.dot(n) <= top + 1e-7 * diam, "clip.kept-side", "face %d is beyond the clip plane", g);
                    expect((fc - meanOf(pts)).norm() < diam, "clip.near", "face %d strays", g);
                }
            }
            count("fractions checked"); nontrivial();
        }
        if (R.flip(0.3)) {
            c.setClipped(false);
            expect(!c.isClipped() && c.nbFaces() == (int)orig.size(), "clip.restore", "%d faces after unclipping", (int)c.nbFaces());
            bool fr = R.flip(0.4);
            c.calculateVolume(fr); c.calculateSurfaceArea(fr); c.calculateCentroid(fr);
            expectNear(c.volume() / V, 1, 1e-6, "clip.restored-volume", fmt("recalculated=%d", (int)fr).c_str());
            V3 cen; auto fs = facesOf(ref.el.at(id).type, ref.el.at(id).n);
            double S = 0;
            for (auto& x : fs) { cen = cen + meanOf(pointsOf(r, x)); S += areaVector(pointsOf(r, x)).norm(); }
            expect((v3(c.centroid()) - cen * (1.0 / fs.size())).norm() < 1e-6 * diam, "clip.restored-centroid", "recalculated=%d", (int)fr);
            expectNear(c.surfaceArea() / S, 1, 1e-6, "clip.restored-surface");
            count("restored");
        }
    }
}
// One face clipped in each of two neighbours by the same plane: total body volume is conserved.
FAMILY(history, 1500, 100000)
{
    Fvm f;
    std::map<int, V3> F; std::vector<int> order, vorder;
    std::map<int, int> C;
    std::string log;
    int n = R.ri(3, 40), spread = R.pick(std::vector<int>{ 8, 40, 100000 });
    for (int k = 0; k < n; ++k) {
        int op = R.ri(0, 9), id = R.ri(0, spread);
        if (R.flip(0.3)) { id = f.nextFaceId(); expect(!F.count(id), "history.next-id", "%d", id); }
        auto tri = [&](const V3& p) { CFvmFace<D> t; for (int j = 0; j < 3; ++j) t.addNode(CFvmNode<D>(p.x + (j == 1), p.y + (j == 2), p.z)); t.close(); return t; };
        V3 p = inBox(R, 5);
        if (op <= 4) { if (F.count(id)) continue; log += fmt("+%d ", id); f.addFace(id, tri(p)); F[id] = p; order.push_back(id); }
        else if (op <= 6) { if (order.empty()) continue; id = R.pick(order); log += fmt("-%d ", id); f.removeFace(id); F.erase(id); order.erase(std::find(order.begin(), order.end(), id)); }
        else if (op == 7) { if (order.empty()) continue; id = R.pick(order); log += fmt("=%d ", id); f.setFace(id, tri(p)); F[id] = p; }
        else if (op == 8) { id = R.flip(0.3) ? (int)f.nextControlVolumeId() : id; if (C.count(id)) continue; CV v; v.setControlVolumeId(id); f.addControlVolume(id, v); C[id] = 1; vorder.push_back(id); log += fmt("v%d ", id); }
        else if (R.flip(0.1)) { f.reset(); F.clear(); order.clear(); C.clear(); vorder.clear(); log += "reset "; }
        expect(f.nbFaces() == (int)order.size() && f.nbControlVolumes() == (int)vorder.size(), "history.count", "%s", log.c_str());
    }
    describe(log); sig(hashStr(log)); count("operations", n); if (order.size()) nontrivial();
    for (size_t i = 0; i < order.size(); ++i) {
        expect(f.faceId(i) == order[i], "history.face-id", "index %d id %d want %d: %s", (int)i, (int)f.faceId(i), order[i], log.c_str());
        expect(f.faceIndex(order[i]) == (int)i, "history.face-index", "id %d index %d want %d: %s", order[i], (int)f.faceIndex(order[i]), (int)i, log.c_str());
        expect((verts(f.face(order[i]))[0] - F[order[i]]).norm() < 1e-12, "history.face", "%s", log.c_str());
    }
    for (size_t i = 0; i < vorder.size(); ++i) expect(f.controlVolumeId(i) == vorder[i] && f.controlVolumeIndex(vorder[i]) == (int)i && f.controlVolume(vorder[i]).controlVolumeId() == vorder[i], "history.volume", "%s", log.c_str());
    int nx = order.empty() ? 0 : *std::max_element(order.begin(), order.end()) + 1;
    expect(f.nextFaceId() == nx, "history.next-face", "%d want %d", (int)f.nextFaceId(), nx);
}
// Closest boundary faces are exactly the unpaired faces whose centroid is nearer than the distance.
FAMILY(search, 400, 30000)
{
    Raw r = body(R, 3);
    Mesh m; build(m, r);
    Fvm f(m);
    double L = extent(r);
    CFvmMeshSearch<D> s(f);
    s.build();
    int again = R.ri(0, 2);
    if (again == 1) s.build();
    if (again == 2) { s.set(f); s.build(); }
    std::map<int, V3> cen;
    for (int i = 0; i < f.nbFaces(); ++i) if (!f.face(f.faceId(i)).hasPair()) cen[f.faceId(i)] = meanOf(verts(f.face(f.faceId(i))));
    describe(fmt("%s; built again: %d", st().desc.c_str(), again));
    std::vector<Integer> got(3, -7);
    for (int q = 0; q < 12; ++q) {
        V3 p; double d = L * std::exp(R.uni(-4, 0.5));
        int k = R.ri(0, 2);
        auto it = cen.begin(); std::advance(it, R.ri(0, cen.size() - 1));
        if (k == 0) p = it->second + unitVec(R) * (d * R.uni(0, 2));
        else if (k == 1) p = it->second;
        else p = r.nodes.begin()->second + inBox(R, 2 * L);
        CGeoCoordinate<D> c = as<CGeoCoordinate<D>>(p);
        s.findClosestBoundaryFaces(c, d, got);
        std::set<int> g(got.begin(), got.end());
        expect(g.size() == got.size(), "search.twice", "%d answers, %d distinct; built again: %d", (int)got.size(), (int)g.size(), again);
        for (auto& e : cen) {
            double dd = (e.second - p).norm();
            if (std::fabs(dd - d) < 1e-9 * L) continue;
            expect(g.count(e.first) == (dd < d), dd < d ? "search.missing" : "search.extra", "face %d at %g of %g", e.first, dd, d);
        }
        for (int x : g) expect(cen.count(x), "search.inner", "face %d is not on the boundary", x);
        count("faces found", g.size()); if (g.size()) nontrivial();
    }
}
