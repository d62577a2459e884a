// P07: the mesh container against a map model, over histories of operations.
#include "gen.hpp"
#include "MshMesh.hpp"
using namespace gen;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::geometry;
typedef double D;
typedef CMshMesh<D> Mesh;

struct MF { std::vector<int> n; int type = 0, el = 0, pair = 0; bool has = false; };
struct ME { std::vector<int> n, f; int type = 0; double th = 1; };
struct Model {
    std::map<int, V3> nodes; std::map<int, MF> faces; std::map<int, ME> els;
    std::vector<int> no, fo, eo;
    double dx = 0, dy = 0, dz = 0;
    void clear() { *this = Model(); }
};
template <class M> static void del(M& m, std::vector<int>& o, int id) { m.erase(id); o.erase(std::find(o.begin(), o.end(), id)); }
template <class M, class T> static void put(M& m, std::vector<int>& o, int id, const T& t) { if (!m.count(id)) o.push_back(id); m[id] = t; }

static bool check(Mesh& m, const Model& r, const char* op)
{
    const Mesh& c = m;
    if (!expect(c.nbNodes() == (int)r.no.size() && c.nbFaces() == (int)r.fo.size() && c.nbElements() == (int)r.eo.size(), "counts", "after %s: %d/%d nodes %d/%d faces %d/%d elements", op,
            c.nbNodes(), (int)r.no.size(), c.nbFaces(), (int)r.fo.size(), c.nbElements(), (int)r.eo.size())) return false;
    bool ok = true;
    for (size_t i = 0; i < r.no.size() && ok; ++i) {
        int id = r.no[i];
        ok &= expect(c.nodeId(i) == id, "node-order", "after %s: index %d is %d want %d", op, (int)i, c.nodeId(i), id);
        ok &= expect(c.nodeIndex(id) == (int)i, "node-index", "after %s: id %d index %d want %d", op, id, c.nodeIndex(id), (int)i);
        const V3& p = r.nodes.at(id);
        ok &= expect((v3(c.node(id)) - p).norm() <= 1e-12 * (1 + p.norm()), "node-value", "after %s: id %d", op, id);
    }
    for (size_t i = 0; i < r.fo.size() && ok; ++i) {
        int id = r.fo[i];
        ok &= expect(c.faceId(i) == id && c.faceIndex(id) == (int)i, "face-index", "after %s: index %d is %d want %d", op, (int)i, c.faceId(i), id);
        const MF& f = r.faces.at(id);
        CMshFace<D> g = c.face(id);
        bool same = g.nbNodeIds() == (int)f.n.size() && (int)g.faceType() == f.type && g.hasPair() == f.has;
        for (size_t k = 0; same && k < f.n.size(); ++k) same = g.nodeId(k) == f.n[k];
        ok &= expect(same, "face-value", "after %s: face %d", op, id);
        ok &= expect(g.elementId() == f.el, "face-element", "after %s: face %d belongs to %d want %d", op, id, g.elementId(), f.el);
        if (f.has) ok &= expect(g.pairFaceId() == f.pair, "face-pair", "after %s: face %d paired with %d want %d", op, id, g.pairFaceId(), f.pair);
    }
    for (size_t i = 0; i < r.eo.size() && ok; ++i) {
        int id = r.eo[i];
        ok &= expect(c.elementId(i) == id && c.elementIndex(id) == (int)i, "element-index", "after %s: index %d is %d want %d", op, (int)i, c.elementId(i), id);
        const ME& e = r.els.at(id);
        const CMshElement<D>& g = c.element(id);
        bool same = g.nbNodeIds() == (int)e.n.size() && (int)g.elementType() == e.type && g.thickness() == e.th && g.nbFaceIds() == (int)e.f.size();
        for (size_t k = 0; same && k < e.n.size(); ++k) same = g.nodeId(k) == e.n[k];
        ok &= expect(same, "element-value", "after %s: element %d", op, id);
        for (size_t k = 0; same && k < e.f.size(); ++k) ok &= expect(g.faceId(k) == e.f[k], "element-face", "after %s: element %d face %d is %d want %d", op, id, (int)k, g.faceId(k), e.f[k]);
    }
    ok &= expect(c.dx() == r.dx && c.dy() == r.dy && c.dz() == r.dz, "spacing", "after %s: %g %g %g want %g %g %g", op, c.dx(), c.dy(), c.dz(), r.dx, r.dy, r.dz);
    ok &= expect(!r.nodes.count(c.nextNodeId()) && !r.faces.count(c.nextFaceId()) && !r.els.count(c.nextElementId()), "next-id", "after %s: next id in use", op);
    return ok;
}
static int nn(int type) { return type == ET_BEAM ? 2 : type == ET_TRIANGLE ? 3 : type == ET_QUADRILATERAL || type == ET_TETRAHEDRON ? 4 : type == ET_TRIANGULAR_PRISM ? 6 : 8; }

struct Pair { Mesh m; Model r; };
static int freshId(Rng& R, bool taken, int mode)
{
    (void)taken;
    return mode == 0 ? R.ri(0, 60) : mode == 1 ? R.ri(-20, 40) : R.ri(0, 2000000000);
}
static const char* step(Rng& R, Pair& p, int mode, std::string& log)
{
    Mesh& m = p.m; Model& r = p.r;
    int k = R.ri(0, 99);
    const char* op = "";
    auto anyNodes = [&](int c) { std::vector<int> v; for (int i = 0; i < c; ++i) v.push_back(R.pick(r.no)); return v; };
    if (k < 34 || r.no.size() < 2) {
        int id = R.flip(0.3) ? m.nextNodeId() : freshId(R, false, mode);
        if (id == 2147483647) return "none";
        op = r.nodes.count(id) ? "replaceNode" : "addNode";
        V3 v = inBox(R, 5);
        m.addNode(id, as<CMshNode<D>>(v)); put(r.nodes, r.no, id, v);
    } else if (k < 52) {
        int id = R.flip(0.3) ? m.nextElementId() : freshId(R, false, mode);
        ME e; e.type = R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON });
        e.n = anyNodes(nn(e.type));
        CMshElement<D> g((EElementType)e.type);
        if (R.flip(0.3)) { e.th = R.uni(0.1, 2); g.setThickness(e.th); }
        for (int n : e.n) g.addNodeId(n);
        if (r.fo.size() && R.flip(0.3)) { int f = R.pick(r.fo); e.f.push_back(f); g.addFaceId(f); }
        op = r.els.count(id) ? "replaceElement" : "addElement";
        m.addElement(id, g); put(r.els, r.eo, id, e);
    } else if (k < 62) {
        int id = R.flip(0.3) ? m.nextFaceId() : freshId(R, false, mode);
        MF f; f.type = R.pick(std::vector<int>{ FT_LINE, FT_TRIANGLE, FT_QUADRILATERAL });
        f.n = anyNodes(f.type == FT_LINE ? 2 : f.type == FT_TRIANGLE ? 3 : 4);
        CMshFace<D> g((EFaceType)f.type);
        for (int n : f.n) g.addNodeId(n);
        if (r.eo.size()) { f.el = R.pick(r.eo); g.setElementId(f.el); }
        if (r.fo.size() && R.flip(0.4)) { f.pair = R.pick(r.fo); f.has = true; g.setPairFaceId(f.pair); }
        op = r.faces.count(id) ? "replaceFace" : "addFace";
        m.addFace(id, g); put(r.faces, r.fo, id, f);
    } else if (k < 74) { // remove a node nobody uses
        std::set<int> used;
        for (auto& e : r.els) used.insert(e.second.n.begin(), e.second.n.end());
        for (auto& f : r.faces) used.insert(f.second.n.begin(), f.second.n.end());
        std::vector<int> freeN;
        for (int id : r.no) if (!used.count(id)) freeN.push_back(id);
        if (freeN.empty()) return "none";
        int id = R.pick(freeN);
        op = "removeNode"; m.removeNode(id); del(r.nodes, r.no, id);
    } else if (k < 81 && r.eo.size()) {
        int id = R.pick(r.eo);
        for (auto& f : r.faces) if (f.second.el == id) return "none";
        op = "removeElement"; m.removeElement(id); del(r.els, r.eo, id);
    } else if (k < 85 && r.fo.size()) {
        int id = R.pick(r.fo);
        for (auto& f : r.faces) if (f.second.has && f.second.pair == id) return "none";
        for (auto& e : r.els) for (int f : e.second.f) if (f == id) return "none";
        op = "removeFace"; m.removeFace(id); del(r.faces, r.fo, id);
    } else if (k < 87) { double s = R.uni(0.2, 2); op = "scale"; m.scale(s); for (auto& n : r.nodes) n.second = n.second * s; }
    else if (k < 89) { r.dx = R.uni(0, 1); r.dy = R.uni(0, 1); r.dz = R.uni(0, 1); op = "spacing"; m.setDx(r.dx); m.setDy(r.dy); m.setDz(r.dz); }
    else if (k < 91) {
        op = "removeDanglingNodes";
        std::set<int> used;
        for (auto& e : r.els) used.insert(e.second.n.begin(), e.second.n.end());
        for (auto& f : r.faces) used.insert(f.second.n.begin(), f.second.n.end());
        m.removeDanglingNodes();
        for (int id : std::vector<int>(r.no)) if (!used.count(id)) del(r.nodes, r.no, id);
    } else if (k < 93) {
        op = "invert"; m.invert();
        for (auto& e : r.els) { auto& n = e.second.n; int t = e.second.type; if (t == ET_BEAM) std::swap(n[0], n[1]); if (t == ET_TRIANGLE || t == ET_TETRAHEDRON) std::swap(n[1], n[2]); if (t == ET_QUADRILATERAL) std::swap(n[1], n[3]); }
    } else if (k < 95) {
        op = "removeInvalidElements";
        for (auto& e : r.els) if (std::set<int>(e.second.n.begin(), e.second.n.end()).size() != e.second.n.size()) for (auto& f : r.faces) if (f.second.el == e.first) return "none";
        m.removeInvalidElements();
        for (int id : std::vector<int>(r.eo)) { auto& n = r.els[id].n; if (std::set<int>(n.begin(), n.end()).size() != n.size()) del(r.els, r.eo, id); }
    } else if (k < 97) {
        // every reference must resolve for the new numbering to be defined
        for (auto& f : r.faces) if ((r.eo.size() && !r.els.count(f.second.el)) || (f.second.has && !r.faces.count(f.second.pair))) return "none";
        if (r.eo.empty()) for (auto& f : r.faces) if (f.second.el) return "none";
        op = "renumber"; m.renumber();
        std::map<int, int> N, F, E;
        for (size_t i = 0; i < r.no.size(); ++i) N[r.no[i]] = i;
        for (size_t i = 0; i < r.fo.size(); ++i) F[r.fo[i]] = i;
        for (size_t i = 0; i < r.eo.size(); ++i) E[r.eo[i]] = i;
        Model q; q.dx = r.dx; q.dy = r.dy; q.dz = r.dz;
        for (size_t i = 0; i < r.no.size(); ++i) put(q.nodes, q.no, (int)i, r.nodes[r.no[i]]);
        for (size_t i = 0; i < r.fo.size(); ++i) { MF f = r.faces[r.fo[i]]; for (int& n : f.n) n = N[n]; if (r.eo.size()) f.el = E[f.el]; if (f.has) f.pair = F[f.pair]; put(q.faces, q.fo, (int)i, f); }
        for (size_t i = 0; i < r.eo.size(); ++i) { ME e = r.els[r.eo[i]]; for (int& n : e.n) n = N[n]; for (int& f : e.f) f = F[f]; put(q.els, q.eo, (int)i, e); }
        r = q;
    } else if (k < 98 && R.flip(0.3)) { op = "reset"; m.reset(); r.clear(); }
    else { op = "removeUnknown"; int id = 2000000001; m.removeNode(id); m.removeFace(id); m.removeElement(id); }
    log += op; log += ' ';
    count(std::string("op.") + op);
    return op;
}

FAMILY(history, 700, 70000)
{
    Pair p;
    std::string log;
    int mode = R.ri(0, 2), ops = R.ri(10, 70);
    for (int i = 0; i < ops; ++i) {
        const char* op = step(R, p, mode, log);
        describe(fmt("id mode %d: ", mode) + log.substr(log.size() > 250 ? log.size() - 250 : 0));
        if (!check(p.m, p.r, op)) return;
    }
    sig(hashStr(log));
    if (p.r.no.size() && p.r.eo.size()) nontrivial();
}

FAMILY(copies, 400, 40000)
{
    Pair p;
    std::string log;
    int mode = R.ri(0, 2);
    for (int i = 0; i < 25; ++i) step(R, p, mode, log);
    describe("copy of: " + log.substr(0, 250)); sig(hashStr(log));
    Pair q{ p.m, p.r }; // copy constructed
    if (!check(q.m, q.r, "copy construction")) return;
    expect(q.m.nbBoundaryFaces() == p.m.nbBoundaryFaces(), "copy-boundary-count", "%d", q.m.nbBoundaryFaces());
    Pair s;
    for (int i = 0; i < 5; ++i) step(R, s, mode, log);
    s.m = p.m; s.r = p.r; // assigned over something else
    if (!check(s.m, s.r, "assignment")) return;
    for (int i = 0; i < 15; ++i) { const char* o = step(R, q, mode, log); if (!check(q.m, q.r, o)) return; }
    if (!check(p.m, p.r, "editing a copy")) return;
    for (int i = 0; i < 10; ++i) { const char* o = step(R, p, mode, log); if (!check(p.m, p.r, o)) return; }
    if (!check(q.m, q.r, "editing the original")) return;
    if (!check(s.m, s.r, "editing the original")) return;
    nontrivial();
}

FAMILY(addMesh, 400, 40000)
{
    Pair a, b;
    std::string log;
    int mode = R.ri(0, 1);
    for (int i = 0; i < 25; ++i) step(R, a, mode, log);
    for (int i = 0; i < 25; ++i) step(R, b, mode, log);
    describe("addMesh of: " + log.substr(0, 250)); sig(hashStr(log));
    for (auto& f : b.r.faces) if (!b.r.els.count(f.second.el) || (f.second.has && !b.r.faces.count(f.second.pair))) { count("skip.unresolved"); return; }
    a.m.addMesh(b.m);
    if (!check(b.m, b.r, "being added")) return;
    // same entities in order, under fresh identifiers, references following
    int n0 = a.r.no.size(), f0 = a.r.fo.size(), e0 = a.r.eo.size();
    if (!expect(a.m.nbNodes() == n0 + (int)b.r.no.size() && a.m.nbFaces() == f0 + (int)b.r.fo.size() && a.m.nbElements() == e0 + (int)b.r.eo.size(), "addmesh-counts", "%s", log.c_str())) return;
    std::map<int, int> N, F, E;
    for (size_t i = 0; i < b.r.no.size(); ++i) { N[b.r.no[i]] = a.m.nodeId(n0 + i); expect(!a.r.nodes.count(a.m.nodeId(n0 + i)), "addmesh-fresh", "node id reused"); }
    for (size_t i = 0; i < b.r.fo.size(); ++i) { F[b.r.fo[i]] = a.m.faceId(f0 + i); expect(!a.r.faces.count(a.m.faceId(f0 + i)), "addmesh-fresh", "face id reused"); }
    for (size_t i = 0; i < b.r.eo.size(); ++i) { E[b.r.eo[i]] = a.m.elementId(e0 + i); expect(!a.r.els.count(a.m.elementId(e0 + i)), "addmesh-fresh", "element id reused"); }
    for (int id : b.r.no) put(a.r.nodes, a.r.no, N[id], b.r.nodes[id]);
    for (int id : b.r.fo) { MF f = b.r.faces[id]; for (int& n : f.n) n = N[n]; f.el = E[f.el]; if (f.has) f.pair = F[f.pair]; put(a.r.faces, a.r.fo, F[id], f); }
    for (int id : b.r.eo) { ME e = b.r.els[id]; for (int& n : e.n) n = N[n]; for (int& f : e.f) f = F[f]; put(a.r.els, a.r.eo, E[id], e); }
    if (check(a.m, a.r, "addMesh")) nontrivial();
}

static double triQ(const V3& a, const V3& b, const V3& c)
{
    // twice the ratio of the radii of the inscribed and circumscribed circles
    double x = (b - c).norm(), y = (c - a).norm(), z = (a - b).norm(), s = (x + y + z) / 2, A = (b - a).cross(c - a).norm() / 2;
    return 2 * (A / s) / (x * y * z / (4 * A));
}
FAMILY(derived, 700, 70000)
{
    // centroids, boxes and qualities of meshes with sparse, unordered identifiers
    Mesh m;
    std::map<int, V3> nodes;
    int nnod = R.ri(8, 20);
    std::vector<int> ids;
    while ((int)ids.size() < nnod) {
        int id = R.ri(0, 500);
        if (nodes.count(id)) continue;
        V3 v = inBox(R, 3);
        nodes[id] = v; ids.push_back(id);
        m.addNode(id, as<CMshNode<D>>(v));
    }
    struct El { int id, type; std::vector<int> n; };
    std::vector<El> els;
    std::set<int> eids;
    for (int i = 0; i < 8; ++i) {
        El e; e.id = R.ri(0, 300);
        if (!eids.insert(e.id).second) continue;
        e.type = R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON });
        R.shuffle(ids);
        e.n.assign(ids.begin(), ids.begin() + nn(e.type));
        CMshElement<D> g((EElementType)e.type);
        for (int n : e.n) g.addNodeId(n);
        m.addElement(e.id, g);
        els.push_back(e);
    }
    if (R.flip(0.4) && els.size() > 2) { int k = R.ri(0, els.size() - 1); m.removeElement(els[k].id); els.erase(els.begin() + k); }
    describe(fmt("%d nodes %d elements", nnod, (int)els.size())); sigd(nodes.begin()->second.x); sig(els.size());
    m.calculateElementCentroid();
    V3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
    auto grow = [](V3& l, V3& h, const V3& p) { l = V3(std::min(l.x, p.x), std::min(l.y, p.y), std::min(l.z, p.z)); h = V3(std::max(h.x, p.x), std::max(h.y, p.y), std::max(h.z, p.z)); };
    for (auto& n : nodes) grow(lo, hi, n.second);
    expect((v3(m.boundingBox().min()) - lo).norm() == 0 && (v3(m.boundingBox().max()) - hi).norm() == 0, "mesh-box", "%s", st().desc.c_str());
    double mn = 1, mx = 0, sum = 0;
    for (auto& e : els) {
        V3 c, l(1e300, 1e300, 1e300), h(-1e300, -1e300, -1e300);
        std::vector<V3> p;
        for (int n : e.n) { c = c + nodes[n]; grow(l, h, nodes[n]); p.push_back(nodes[n]); }
        c = c * (1.0 / e.n.size());
        expectNear((v3(m.elementCentroid(e.id)) - c).norm(), 0, 1e-12 * 10, "element-centroid");
        expect((v3(m.boundingBox(e.id).min()) - l).norm() == 0 && (v3(m.boundingBox(e.id).max()) - h).norm() == 0, "element-box", "%s", st().desc.c_str());
        double q = 1;
        if (e.type == ET_TRIANGLE) q = triQ(p[0], p[1], p[2]);
        if (e.type == ET_TRIANGULAR_PRISM) q = 0.5 * (triQ(p[0], p[1], p[2]) + triQ(p[3], p[4], p[5]));
        if (e.type == ET_TETRAHEDRON) {
            double V = std::fabs((p[1] - p[0]).cross(p[2] - p[0]).dot(p[3] - p[0])) / 6, S = 0, L = 0;
            for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { L = std::max(L, (p[i] - p[j]).norm()); for (int k = j + 1; k < 4; ++k) S += (p[j] - p[i]).cross(p[k] - p[i]).norm() / 2; }
            q = 6 * std::sqrt(6.0) * V / (S * L);
        }
        if (!(e.type == ET_BEAM || e.type == ET_HEXAHEDRON)) {
            expectNear(m.quality(e.id), q, 1e-6, "element-quality");
            expect(m.quality(e.id) >= 0 && m.quality(e.id) <= 1 + 1e-9, "quality-range", "%g", m.quality(e.id));
        }
        mn = std::min(mn, q); mx = std::max(mx, q); sum += q;
    }
    double a, b, c;
    m.meshQuality(a, b, c);
    if (els.size()) { expectNear(a, mn, 1e-6, "quality-min"); expectNear(b, mx, 1e-6, "quality-max"); expectNear(c, sum / els.size(), 1e-6, "quality-average"); }
    nontrivial();
    // regular shapes have quality one in every position and scale; a square too
    Rigid g = randomRigid(R, 4, true);
    std::vector<std::pair<int, std::vector<V3>>> reg = {
        { ET_TRIANGLE, { V3(0, 0, 0), V3(1, 0, 0), V3(0.5, std::sqrt(0.75), 0) } },
        { ET_QUADRILATERAL, { V3(0, 0, 0), V3(1, 0, 0), V3(1, 1, 0), V3(0, 1, 0) } },
        { ET_TETRAHEDRON, { V3(1, 1, 1), V3(1, -1, -1), V3(-1, 1, -1), V3(-1, -1, 1) } } };
    for (auto& s : reg) {
        Mesh q;
        CMshElement<D> e((EElementType)s.first);
        for (size_t i = 0; i < s.second.size(); ++i) { q.addNode(i * 3, as<CMshNode<D>>(g(s.second[i]))); e.addNodeId(i * 3); }
        q.addElement(7, e);
        expectNear(q.quality(7), 1, 1e-7, "quality-regular");
    }
}
FAMILY(faceCentroid, 300, 30000)
{
    Mesh m;
    std::vector<int> ids;
    std::map<int, V3> nodes;
    for (int i = 0; i < 10; ++i) { int id = R.ri(0, 200); if (nodes.count(id)) continue; V3 v = inBox(R, 3); nodes[id] = v; ids.push_back(id); m.addNode(id, as<CMshNode<D>>(v)); }
    std::map<int, std::vector<int>> fs;
    if (ids.size() < 4) return;
    for (int i = 0; i < 8; ++i) {
        int id = R.ri(0, 99);
        if (fs.count(id)) continue;
        R.shuffle(ids);
        int k = R.ri(2, 4);
        CMshFace<D> f(k == 2 ? FT_LINE : k == 3 ? FT_TRIANGLE : FT_QUADRILATERAL);
        for (int j = 0; j < k; ++j) { f.addNodeId(ids[j]); fs[id].push_back(ids[j]); }
        m.addFace(id, f);
    }
    if (R.flip()) { int id = fs.begin()->first; m.removeFace(id); fs.erase(id); }
    std::map<int, std::vector<int>> es;
    for (int i = 0; i < 5; ++i) {
        int id = R.ri(0, 99);
        if (es.count(id)) continue;
        R.shuffle(ids);
        CMshElement<D> e(ET_TRIANGLE);
        for (int j = 0; j < 3; ++j) { e.addNodeId(ids[j]); es[id].push_back(ids[j]); }
        m.addElement(id, e);
    }
    // the centroids follow every change made between two calculations
    int rounds = R.ri(1, 3);
    for (int round = 0; round < rounds; ++round) {
        if (round) {
            int id = ids[R.ri(0, (int)ids.size() - 1)];
            V3 v = inBox(R, 3);
            nodes[id] = v;
            m.node(id) = as<CMshNode<D>>(v);
            if (fs.size() > 1 && R.flip()) { int f = fs.begin()->first; m.removeFace(f); fs.erase(f); }
            if (es.size() > 1 && R.flip()) { int e = es.begin()->first; m.removeElement(e); es.erase(e); }
        }
        m.calculateFaceCentroid();
        m.calculateElementCentroid();
        sigd(nodes.begin()->second.x); sig(fs.size());
        Mesh c(m);
        for (auto& f : fs) {
            V3 s;
            for (int n : f.second) s = s + nodes[n];
            expectNear((v3(m.faceCentroid(f.first)) - s * (1.0 / f.second.size())).norm(), 0, 1e-12 * 10, "face-centroid");
            expectNear((v3(c.faceCentroid(f.first)) - s * (1.0 / f.second.size())).norm(), 0, 1e-12 * 10, "copied-face-centroid");
        }
        for (auto& f : es) {
            V3 s;
            for (int n : f.second) s = s + nodes[n];
            expectNear((v3(m.elementCentroid(f.first)) - s * (1.0 / 3)).norm(), 0, 1e-12 * 10, "element-centroid-again");
        }
    }
    nontrivial();
}
