// P10: surface meshers. A mesh reported as successful must be a partition of the region, whose boundary is the given boundary.
#include "meshes.hpp"
#include "MshTriangleMesher.hpp"
#include "MshQuadrilateralMesher.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::geometry;
typedef SMshAdvancingFrontEdge<D> Edge;

struct Silence { // the meshers print to stdout
    std::ostringstream s;
    std::streambuf* b;
    Silence() : b(std::cout.rdbuf(s.rdbuf())) {}
    ~Silence() { std::cout.rdbuf(b); }
};
static double cross2(const V3& a, const V3& b) { return a.x * b.y - a.y * b.x; }
static double loopArea(const std::vector<V3>& p) { double a = 0; for (size_t i = 0; i < p.size(); ++i) a += cross2(p[i], p[(i + 1) % p.size()]) / 2; return a; }
static bool inLoop(const std::vector<V3>& p, const V3& q)
{
    bool in = false;
    for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++)
        if ((p[i].y > q.y) != (p[j].y > q.y) && q.x < (p[j].x - p[i].x) * (q.y - p[i].y) / (p[j].y - p[i].y) + p[i].x) in = !in;
    return in;
}
static double distSeg(const V3& a, const V3& b, const V3& q)
{
    V3 d = b - a;
    double t = std::max(0.0, std::min(1.0, (q - a).dot(d) / d.dot(d)));
    return (q - a - d * t).norm();
}
struct Region {
    std::vector<std::vector<V3>> loops; // first outer (counter-clockwise), then holes (clockwise)
    double area = 0, h = 0;             // h: requested mesh size
    std::vector<V3> inner;
    const char* kind = "";
    double clearance(const V3& q) const
    {
        double d = 1e300;
        for (auto& l : loops) for (size_t i = 0; i < l.size(); ++i) d = std::min(d, distSeg(l[i], l[(i + 1) % l.size()], q));
        return d;
    }
    bool contains(const V3& q) const { bool in = inLoop(loops[0], q); for (size_t i = 1; i < loops.size(); ++i) in = in && !inLoop(loops[i], q); return in; }
};
static void subdivide(Rng& R, std::vector<V3>& l, double h, double jitter)
{
    std::vector<V3> o;
    for (size_t i = 0; i < l.size(); ++i) {
        V3 a = l[i], b = l[(i + 1) % l.size()];
        int n = std::max(1, (int)std::floor((b - a).norm() / h + 0.5));
        for (int k = 0; k < n; ++k) {
            double t = (k + (k ? R.uni(-jitter, jitter) : 0)) / n;
            o.push_back(a * (1 - t) + b * t);
        }
    }
    l = o;
}
static Region region(Rng& R, bool holes, bool inner, double jitter)
{
    Region g;
    int kind = R.ri(0, 3);
    std::vector<V3> l;
    if (kind == 0) { double a = R.uni(0.6, 2), b = R.uni(0.6, 2); l = { V3(0, 0), V3(a, 0), V3(a, b), V3(0, b) }; g.kind = "rectangle"; }
    if (kind == 1) { int n = R.ri(3, 9); double r = R.uni(0.6, 1.2), p = R.uni(0, 6); for (int i = 0; i < n; ++i) l.push_back(V3(r * std::cos(p + 6.283185307179586 * i / n), r * std::sin(p + 6.283185307179586 * i / n))); g.kind = "regular polygon"; }
    if (kind == 2) { double a = R.uni(0.8, 1.6), b = R.uni(0.8, 1.6), c = R.uni(0.35, 0.65) * a, d = R.uni(0.35, 0.65) * b; l = { V3(0, 0), V3(a, 0), V3(a, d), V3(c, d), V3(c, b), V3(0, b) }; g.kind = "L"; }
    if (kind == 3) { int n = R.ri(5, 10); double p = R.uni(0, 6); for (int i = 0; i < n; ++i) { double r = R.uni(0.7, 1.2), t = p + 6.283185307179586 * (i + R.uni(-0.2, 0.2)) / n; l.push_back(V3(r * std::cos(t), r * std::sin(t))); } g.kind = "star-shaped polygon"; }
    double ang = R.flip(0.3) ? 0 : R.uni(0, 6.28), sc = R.flip(0.5) ? 1 : std::exp(R.uni(-2, 3));
    V3 sh = R.flip(0.4) ? V3() : V3(R.uni(-3, 3), R.uni(-3, 3));
    double A = std::fabs(loopArea(l));
    g.h = std::sqrt(A) / R.uni(2, 6);
    g.loops.push_back(l);
    if (holes) {
        int nh = R.ri(1, 2);
        for (int k = 0; k < nh; ++k) for (int tries = 0; tries < 40; ++tries) {
            V3 c(R.uni(-1.2, 2), R.uni(-1.2, 2));
            double r = R.uni(0.12, 0.3);
            if (!g.contains(c) || g.clearance(c) < r + 0.15) continue;
            std::vector<V3> q;
            int n = R.ri(3, 6);
            double p = R.uni(0, 6);
            for (int i = 0; i < n; ++i) q.push_back(c + V3(r * std::cos(p - 6.283185307179586 * i / n), r * std::sin(p - 6.283185307179586 * i / n)));
            g.loops.push_back(q);
            break;
        }
    }
    for (auto& q : g.loops) subdivide(R, q, g.h, jitter);
    if (inner) {
        int n = R.ri(1, 4);
        for (int tries = 0; tries < 60 && (int)g.inner.size() < n; ++tries) {
            V3 c(R.uni(-1.2, 2), R.uni(-1.2, 2));
            if (!g.contains(c) || g.clearance(c) < 0.3 * g.h) continue;
            bool far = true;
            for (auto& i : g.inner) far = far && (i - c).norm() > 0.4 * g.h;
            if (far) g.inner.push_back(c);
        }
    }
    double c = std::cos(ang), s = std::sin(ang);
    auto M = [&](V3& p) { p = V3(c * p.x - s * p.y, s * p.x + c * p.y) * sc + sh * sc; };
    for (auto& q : g.loops) for (auto& p : q) M(p);
    for (auto& p : g.inner) M(p);
    g.h *= sc;
    for (auto& q : g.loops) g.area += loopArea(q);
    return g;
}
static void edgeMesh(Rng& R, const Region& g, Mesh& m, bool dense, double tol)
{
    std::vector<std::pair<V3, std::pair<int, int>>> all;
    std::vector<V3> pts;
    std::vector<std::pair<int, int>> ed;
    for (auto& l : g.loops) { int b = pts.size(); for (size_t i = 0; i < l.size(); ++i) { pts.push_back(l[i]); ed.push_back({ b + (int)i, b + (int)((i + 1) % l.size()) }); } }
    std::vector<int> nid, eid;
    std::set<int> u;
    int spread = dense ? 1 : R.pick(std::vector<int>{ 2, 50 });
    while (u.size() < pts.size()) u.insert(R.ri(0, spread * (int)pts.size()));
    nid.assign(u.begin(), u.end());
    u.clear();
    while (u.size() < ed.size()) u.insert(R.ri(0, spread * (int)ed.size()));
    eid.assign(u.begin(), u.end());
    if (dense) { for (size_t i = 0; i < nid.size(); ++i) nid[i] = i; for (size_t i = 0; i < eid.size(); ++i) eid[i] = i; }
    else { R.shuffle(nid); R.shuffle(eid); }
    for (size_t i = 0; i < pts.size(); ++i) m.addNode(nid[i], as<CMshNode<D>>(pts[i]));
    for (size_t i = 0; i < ed.size(); ++i) {
        CMshElement<D> e(ET_BEAM);
        e.addNodeId(nid[ed[i].first]); e.addNodeId(nid[ed[i].second]);
        m.addElement(eid[i], e);
    }
    m.generateFaces(tol);
}
typedef std::pair<V3, V3> Seg;
static std::vector<Seg> segsOfLoops(const Region& g) { std::vector<Seg> s; for (auto& l : g.loops) for (size_t i = 0; i < l.size(); ++i) s.push_back({ l[i], l[(i + 1) % l.size()] }); return s; }
// The partition monitor. bnd: directed boundary segments the mesh must have (region on the left).
static bool checkPartition(Mesh& m, const std::vector<Seg>& bnd, double area, double h, double tol, const char* op, bool quads, bool tris = true)
{
    std::string ops = op;
    auto K = [&](const char* k) { return ops + "-" + k; };
    const char* d = st().desc.c_str();
    std::map<std::pair<int, int>, int> directed;
    double sum = 0;
    bool ok = true;
    for (int i = 0; i < m.nbElements(); ++i) {
        CMshElement<D>& e = m.element(m.elementId(i));
        size_t nn = e.nbNodeIds();
        if (!expect((tris && e.elementType() == ET_TRIANGLE && nn == 3) || (quads && e.elementType() == ET_QUADRILATERAL && nn == 4), K("type").c_str(), "element type %d with %d nodes | %s", (int)e.elementType(), (int)nn, d)) return false;
        std::vector<V3> p;
        for (size_t k = 0; k < nn; ++k) p.push_back(v3(m.node(e.nodeId(k))));
        double a = loopArea(p), mn = 1e300;
        for (size_t k = 0; k < nn; ++k) mn = std::min(mn, cross2(p[(k + 1) % nn] - p[k], p[(k + 2) % nn] - p[(k + 1) % nn]));
        ok = expect(nn == 3 ? a > 0 : mn > 0, K("orientation").c_str(), "element %d area %g (mesh size %g) | %s", i, a, h, d) && ok;
        sum += a;
        for (size_t k = 0; k < nn; ++k) directed[{ e.nodeId(k), e.nodeId((k + 1) % nn) }]++;
    }
    ok = expectNear(sum, area, 1e-9 * (area + h * h), K("area").c_str()) && ok;
    std::vector<Seg> outer;
    for (auto& e : directed) {
        ok = expect(e.second == 1, K("conforming").c_str(), "edge traversed %d times the same way | %s", e.second, d) && ok;
        if (!directed.count({ e.first.second, e.first.first })) outer.push_back({ v3(m.node(e.first.first)), v3(m.node(e.first.second)) });
    }
    ok = expect(outer.size() == bnd.size(), K("boundary-count").c_str(), "%d boundary edges want %d | %s", (int)outer.size(), (int)bnd.size(), d) && ok;
    std::vector<char> used(outer.size(), 0);
    for (auto& b : bnd) {
        bool hit = false;
        for (size_t i = 0; i < outer.size() && !hit; ++i) if (!used[i] && (outer[i].first - b.first).norm() <= 1e-12 * (h + b.first.norm()) && (outer[i].second - b.second).norm() <= 1e-12 * (h + b.first.norm())) used[i] = hit = true;
        ok = expect(hit, K("boundary-edge").c_str(), "boundary edge (%g %g)-(%g %g) missing | %s", b.first.x, b.first.y, b.second.x, b.second.y, d) && ok;
    }
    int nb = 0;
    std::map<int, int> usedNode;
    for (auto& e : directed) usedNode[e.first.first]++;
    (void)tol;
    // faces as the library generated them
    for (int i = 0; i < m.nbFaces(); ++i) nb += !m.face(m.faceId(i)).hasPair();
    ok = expect(m.nbFaces() == (int)directed.size() && nb == (int)outer.size(), K("faces").c_str(), "%d faces want %d, %d unpaired want %d | %s", m.nbFaces(), (int)directed.size(), nb, (int)outer.size(), d) && ok;
    count(ops + ".elements", m.nbElements());
    return ok;
}
static std::string text(const Region& g, int tris) { int n = 0; for (auto& l : g.loops) n += l.size(); return fmt("%s, %d boundary edges, %d holes, %d inner points, area %g, size %g (%d)", g.kind, n, (int)g.loops.size() - 1, (int)g.inner.size(), g.area, g.h, tris); }

template <class Mesher> static bool tryGenerate(Mesher& t, const Mesh& em, const Region& g, double h, double tol, int maxEl)
{
    Silence s;
    std::vector<CGeoCoordinate<D>> in;
    for (auto& p : g.inner) in.push_back(as<CGeoCoordinate<D>>(p));
    try { return t.generate(em, maxEl, in, h, 0.1 * h, 10 * h, tol); }
    catch (std::vector<Edge>&) { return false; }
    catch (const std::runtime_error&) { return false; }
}
template <class Mesher> static bool caseGenerate(Rng& R, Mesher& t, bool holes, bool inner, bool quads, const char* op, Region* out = nullptr)
{
    double jitter = R.flip(0.3) ? 0.15 : 0;
    Region g = region(R, holes, inner, jitter);
    double tol = 1e-5 * g.h;
    Mesh em;
    edgeMesh(R, g, em, R.flip(0.5), tol);
    describe(text(g, !quads));
    sig(g.loops[0].size()); sigd(g.loops[0][0].x + g.h);
    count(std::string(op) + ".attempts");
    // the last step of the quadrilateral mesher may add a concave quadrilateral as two triangles
    int maxEl = R.flip(0.1) ? (int)(g.area / (g.h * g.h)) : 4000;
    bool ok = tryGenerate(t, em, g, g.h, tol, maxEl);
    // what the mesher has to cope with
    bool plain = jitter == 0 && g.loops.size() == 1 && g.inner.empty() && maxEl == 4000 && (std::string(g.kind) == "rectangle" || (!quads && std::string(g.kind) == "regular polygon"));
    if (plain) count(std::string(op) + ".plain");
    if (plain) expect(ok, (std::string(op) + "-refused").c_str(), "not meshed: %s", st().desc.c_str());
    if (!ok) { count(std::string(op) + ".refused"); return false; }
    count(std::string(op) + ".success");
    expect(t.mesh().nbElements() <= maxEl + quads, (std::string(op) + "-limit").c_str(), "%d elements, limit %d | %s", t.mesh().nbElements(), maxEl, st().desc.c_str());
    checkPartition(t.mesh(), segsOfLoops(g), g.area, g.h, tol, op, quads);
    for (auto& p : g.inner) {
        bool hit = false;
        for (int i = 0; i < t.mesh().nbNodes() && !hit; ++i) hit = (v3(t.mesh().node(t.mesh().nodeId(i))) - p).norm() <= 1e-12 * (g.h + p.norm());
        expect(hit, (std::string(op) + "-inner").c_str(), "inner point (%g %g) is not a node | %s", p.x, p.y, st().desc.c_str());
    }
    nontrivial();
    if (out) *out = g;
    return true;
}
FAMILY(tri, 220, 5000) { CMshTriangleMesher<D> t; caseGenerate(R, t, false, false, false, "tri"); }
FAMILY(triHoles, 120, 2500) { CMshTriangleMesher<D> t; caseGenerate(R, t, true, false, false, "triHoles"); }
FAMILY(triInner, 120, 2500) { CMshTriangleMesher<D> t; caseGenerate(R, t, R.flip(0.3), true, false, "triInner"); }
FAMILY(triReuse, 60, 1200)
{
    CMshTriangleMesher<D> t;
    int n = R.ri(2, 3);
    for (int i = 0; i < n; ++i) caseGenerate(R, t, R.flip(0.3), R.flip(), false, "triReuse");
}
FAMILY(quad, 200, 4000) { CMshQuadrilateralMesher<D> t; caseGenerate(R, t, false, false, true, "quad"); }
FAMILY(quadHoles, 60, 1200) { CMshQuadrilateralMesher<D> t; caseGenerate(R, t, true, R.flip(0.3), true, "quadHoles"); }
FAMILY(quadReuse, 40, 800)
{
    CMshQuadrilateralMesher<D> t;
    for (int i = 0; i < 2; ++i) caseGenerate(R, t, false, R.flip(), true, "quadReuse");
}
// splitting the boundary to the mesh size
FAMILY(edgeRemesh, 300, 6000)
{
    Region g = region(R, R.flip(), false, 0.1);
    Mesh em;
    double tol = 1e-5 * g.h;
    edgeMesh(R, g, em, R.flip(0.3), tol);
    double h = g.h * std::exp(R.uni(-2, 1));
    describe(text(g, 0) + fmt(" edges split to %g", h));
    sigd(h); sig(em.nbElements());
    // lengths within 1e-9 of a half-integer number of pieces are left open
    std::vector<Seg> want;
    for (auto& s : segsOfLoops(g)) {
        double q = (s.second - s.first).norm() / h + 0.5;
        if (std::fabs(q - std::floor(q + 0.5)) < 1e-9) return;
        int n = std::max(1, (int)std::floor(q));
        for (int k = 0; k < n; ++k) want.push_back({ s.first + (s.second - s.first) * (double(k) / n), s.first + (s.second - s.first) * (double(k + 1) / n) });
    }
    CMshTriangleMesher<D> t;
    expect(t.remesh(em, h, tol), "remesh-ok", "%s", st().desc.c_str());
    expect(em.nbElements() == (int)want.size(), "remesh-count", "%d edges want %d | %s", em.nbElements(), (int)want.size(), st().desc.c_str());
    std::vector<char> used(want.size(), 0);
    std::map<int, int> in, outd;
    for (int i = 0; i < em.nbElements(); ++i) {
        CMshElement<D> e = em.element(em.elementId(i));
        V3 a = v3(em.node(e.nodeId(0))), b = v3(em.node(e.nodeId(1)));
        bool hit = false;
        for (size_t k = 0; k < want.size() && !hit; ++k) if (!used[k] && (want[k].first - a).norm() <= 1e-9 * g.h && (want[k].second - b).norm() <= 1e-9 * g.h) used[k] = hit = true;
        expect(hit, "remesh-piece", "piece (%g %g)-(%g %g) | %s", a.x, a.y, b.x, b.y, st().desc.c_str());
        outd[e.nodeId(0)]++; in[e.nodeId(1)]++;
    }
    for (int i = 0; i < em.nbNodes(); ++i) expect(in[em.nodeId(i)] == 1 && outd[em.nodeId(i)] == 1, "remesh-chain", "node %d | %s", em.nodeId(i), st().desc.c_str());
    for (int i = 0; i < em.nbFaces(); ++i) {
        CMshFace<D> f = em.face(em.faceId(i));
        bool ok = f.hasPair() && em.face(f.pairFaceId()).pairFaceId() == em.faceId(i) && em.face(f.pairFaceId()).nodeId(0) == f.nodeId(0);
        expect(ok, "remesh-faces", "face %d | %s", em.faceId(i), st().desc.c_str());
    }
    expect(em.nbFaces() == 2 * em.nbElements() && em.nbNodes() == em.nbElements(), "remesh-closed", "%d faces %d nodes | %s", em.nbFaces(), em.nbNodes(), st().desc.c_str());
    if (want.size() > segsOfLoops(g).size()) nontrivial();
}
static double minQ(Mesh& m)
{
    double q = 1e300;
    for (int i = 0; i < m.nbElements(); ++i) {
        CMshElement<D>& e = m.element(m.elementId(i));
        CMshTriangle<D> t; // the library's own quality measure
        for (int k = 0; k < 3; ++k) t.addVertex(m.node(e.nodeId(k)));
        t.calculateQuality();
        q = std::min(q, t.quality());
    }
    return q;
}
static std::multiset<std::string> places(Mesh& m) { std::multiset<std::string> s; for (int i = 0; i < m.nbNodes(); ++i) { V3 p = v3(m.node(m.nodeId(i))); s.insert(fmt("%a %a", p.x, p.y)); } return s; }
static bool includes(const std::multiset<std::string>& a, const std::multiset<std::string>& b) { return std::includes(a.begin(), a.end(), b.begin(), b.end()); }
// The only inner node, if there is just one, and the mean of its neighbours along edges.
static int loneNode(Mesh& m, V3& was, V3& mean)
{
    std::map<int, std::set<int>> nb;
    std::map<std::pair<int, int>, int> directed;
    std::set<int> rim;
    for (int i = 0; i < m.nbElements(); ++i) { CMshElement<D>& e = m.element(m.elementId(i)); int n = e.nbNodeIds(); for (int k = 0; k < n; ++k) { int a = e.nodeId(k), b = e.nodeId((k + 1) % n); directed[{ a, b }]++; nb[a].insert(b); nb[b].insert(a); } }
    for (auto& d : directed) if (!directed.count({ d.first.second, d.first.first })) { rim.insert(d.first.first); rim.insert(d.first.second); }
    int id = -1, n = 0;
    for (auto& x : nb) if (!rim.count(x.first)) { id = x.first; ++n; }
    if (n != 1) return -1;
    was = v3(m.node(id));
    mean = V3(0, 0, 0);
    for (int x : nb[id]) mean = mean + v3(m.node(x)) * (1. / nb[id].size());
    return id;
}
// Relaxing moves it some way to that mean.
static void checkLone(Mesh& m, int id, const V3& was, const V3& mean, double h, const char* key)
{
    if (id < 0) return;
    V3 now = v3(m.node(id)), way = mean - was, step = now - was;
    double f = way.norm() > 1e-9 * h ? step.dot(way) / way.dot(way) : 0;
    expect((step - way * f).norm() < 1e-9 * h && f > -1e-9 && f < 1 + 1e-9, key, "the inner node moved by %g %g, its neighbours' mean is %g %g away | %s", step.x, step.y, way.x, way.y, st().desc.c_str());
}
// refining, flipping, relaxing and collapsing a valid triangulation
static void adapt(Rng& R, Mesh& m, const std::vector<Seg>& bnd, double area, double h, bool collapse)
{
    double tol = 1e-5 * h;
    CMshTriangleMesher<D> t;
    int ops = R.ri(2, 7);
    std::string hist;
    std::string base = st().desc;
    for (int k = 0; k < ops; ++k) {
        int op = R.ri(0, collapse ? 3 : 2);
        auto before = places(m);
        int ne = m.nbElements(), nn = m.nbNodes();
        bool ok = true;
        Silence s;
        if (op == 0) {
            double hh = h * R.uni(0.3, 1.2);
            hist += "R"; describe(base + " " + hist);
            if (m.nbElements() > 600) continue;
            ok = expect(t.remesh(m, hh, tol), "refine-ok", "%s", st().desc.c_str());
            expect(includes(places(m), before), "refine-nodes", "an old node is gone | %s", st().desc.c_str());
            expect(m.nbElements() - ne == 2 * (m.nbNodes() - nn), "refine-count", "%d new elements, %d new nodes | %s", m.nbElements() - ne, m.nbNodes() - nn, st().desc.c_str());
            ok = checkPartition(m, bnd, area, h, tol, "refine", false) && ok;
            if (m.nbNodes() > nn) nontrivial();
        } else if (op == 1) {
            hist += "F"; describe(base + " " + hist);
            double q = minQ(m);
            t.flipEdges(m, tol);
            expect(places(m) == before && m.nbElements() == ne, "flip-nodes", "nodes or element count changed | %s", st().desc.c_str());
            ok = checkPartition(m, bnd, area, h, tol, "flip", false);
            expect(minQ(m) >= q - 1e-12, "flip-quality", "worst quality from %g to %g | %s", q, minQ(m), st().desc.c_str());
            nontrivial();
        } else if (op == 2) {
            hist += "X"; describe(base + " " + hist);
            V3 was, mean;
            int lone = loneNode(m, was, mean);
            t.relaxNodes(m, tol);
            checkLone(m, lone, was, mean, h, "relax-mean");
            expect(m.nbNodes() == nn && m.nbElements() == ne, "relax-count", "%s", st().desc.c_str());
            ok = checkPartition(m, bnd, area, h, tol, "relax", false);
            nontrivial();
        } else {
            double c = h * R.uni(0.1, 1.2);
            hist += "C"; describe(base + " " + hist);
            t.collapseEdges(m, c, tol * 1e-3);
            expect(m.nbElements() <= ne && m.nbNodes() <= nn, "collapse-count", "%s", st().desc.c_str());
            expect(includes(before, places(m)), "collapse-nodes", "a new node position | %s", st().desc.c_str());
            ok = checkPartition(m, bnd, area, h, tol, "collapse", false);
            nontrivial();
        }
        if (!ok) return;
    }
}
static void gridMesh(Rng& R, Mesh& m, std::vector<Seg>& bnd, double& area, double& h)
{
    int nx = R.ri(1, 6), ny = R.ri(1, 6);
    Raw r = grid(ET_TRIANGLE, nx, ny, 0);
    double ax = R.uni(0.5, 2), ay = R.uni(0.5, 2), sc = std::exp(R.uni(-2, 2));
    distort(R, r, 0.25 / std::max(nx, ny));
    for (auto& n : r.nodes) n.second = V3(n.second.x * ax * sc, n.second.y * ay * sc + 0.2 * n.second.x, 0);
    if (R.flip(0.7)) renumber(R, r, R.pick(std::vector<int>{ 1, 3, 1000 }));
    fill(m, r);
    h = sc * std::sqrt(ax * ay / (nx * ny));
    m.generateFaces(1e-6 * h);
    area = 0;
    std::map<std::pair<int, int>, int> ed;
    for (auto& e : r.els) { std::vector<V3> p; for (int n : e.n) p.push_back(r.nodes[n]); area += loopArea(p); for (int k = 0; k < 3; ++k) ed[{ e.n[k], e.n[(k + 1) % 3] }]++; }
    for (auto& e : ed) if (!ed.count({ e.first.second, e.first.first })) bnd.push_back({ r.nodes[e.first.first], r.nodes[e.first.second] });
    describe(fmt("triangle grid %dx%d, %d elements, size %g", nx, ny, (int)r.els.size(), h));
    sig(nx * 10 + ny); sigd(ax + area);
}
FAMILY(adaptGrid, 300, 6000)
{
    Mesh m;
    std::vector<Seg> b;
    double a, h;
    gridMesh(R, m, b, a, h);
    adapt(R, m, b, a, h, false);
}
FAMILY(collapse, 150, 3000)
{
    Mesh m;
    std::vector<Seg> b;
    double a, h;
    gridMesh(R, m, b, a, h);
    adapt(R, m, b, a, h, true);
}
FAMILY(adaptGenerated, 60, 1200)
{
    CMshTriangleMesher<D> t;
    Region g;
    if (!caseGenerate(R, t, R.flip(), false, false, "adaptGenerated", &g)) return;
    Mesh m = t.mesh();
    adapt(R, m, segsOfLoops(g), g.area, g.h, false);
}
// grids of quadrilaterals, some of them cut into two triangles
static bool mixedMesh(Rng& R, Mesh& m, std::vector<Seg>& bnd, double& area, double& h)
{
    int nx = R.ri(1, 5), ny = R.ri(1, 5);
    Raw r = grid(ET_QUADRILATERAL, nx, ny, 0);
    double ax = R.uni(0.5, 2), ay = R.uni(0.5, 2), sc = std::exp(R.uni(-2, 2)), cut = R.pick(std::vector<double>{ 0, 0.2, 0.5, 0.9 });
    distort(R, r, R.uni(0, 0.35) / std::max(nx, ny));
    for (auto& n : r.nodes) n.second = V3(n.second.x * ax * sc, n.second.y * ay * sc + 0.2 * n.second.x, 0);
    auto els = r.els;
    r.els.clear();
    int tris = 0;
    for (auto e : els) {
        std::rotate(e.n.begin(), e.n.begin() + R.ri(0, 3), e.n.end());
        if (R.flip(cut)) {
            for (int t = 0; t < 2; ++t) { std::vector<int> n = { e.n[2 * t], e.n[2 * t + 1], e.n[(2 * t + 2) % 4] }; std::rotate(n.begin(), n.begin() + R.ri(0, 2), n.end()); r.els.push_back({ (int)r.els.size(), ET_TRIANGLE, n }); }
            tris += 2;
        } else r.els.push_back({ (int)r.els.size(), ET_QUADRILATERAL, e.n });
    }
    area = 0;
    std::map<std::pair<int, int>, int> ed;
    h = sc * std::sqrt(ax * ay / (nx * ny));
    for (auto& e : r.els) {
        std::vector<V3> p;
        size_t nn = e.n.size();
        for (int n : e.n) p.push_back(r.nodes[n]);
        for (size_t k = 0; k < nn; ++k) if (cross2(p[(k + 1) % nn] - p[k], p[(k + 2) % nn] - p[(k + 1) % nn]) < 0.02 * h * h) return false;
        area += loopArea(p);
        for (size_t k = 0; k < nn; ++k) ed[{ e.n[k], e.n[(k + 1) % nn] }]++;
    }
    if (R.flip(0.7)) {
        std::map<std::pair<int, int>, int> dummy;
        for (auto& e : ed) if (!ed.count({ e.first.second, e.first.first })) bnd.push_back({ r.nodes[e.first.first], r.nodes[e.first.second] });
        renumber(R, r, R.pick(std::vector<int>{ 1, 3, 1000 }));
    } else for (auto& e : ed) if (!ed.count({ e.first.second, e.first.first })) bnd.push_back({ r.nodes[e.first.first], r.nodes[e.first.second] });
    fill(m, r);
    m.generateFaces(1e-6 * h);
    describe(fmt("quadrilateral grid %dx%d, %d triangles, size %g", nx, ny, tris, h));
    sig(nx * 10 + ny); sigd(ax + area);
    return true;
}
static std::pair<int, int> kinds(Mesh& m) { std::pair<int, int> n; for (int i = 0; i < m.nbElements(); ++i) (m.element(m.elementId(i)).elementType() == ET_TRIANGLE ? n.first : n.second)++; return n; }
FAMILY(quadAdapt, 500, 10000)
{
    Mesh m;
    std::vector<Seg> b;
    double a, h;
    CMshQuadrilateralMesher<D> t;
    if (R.flip(0.2)) {
        Region g;
        if (!caseGenerate(R, t, R.flip(0.3), R.flip(0.3), true, "quadAdaptGenerated", &g)) return;
        m = t.mesh();
        b = segsOfLoops(g); a = g.area; h = g.h;
    } else if (!mixedMesh(R, m, b, a, h)) { count("quadAdapt.notConvex"); return; }
    double tol = 1e-5 * h;
    std::string base = st().desc, hist;
    for (int k = R.ri(1, 5); k > 0; --k) {
        auto before = places(m);
        auto was = kinds(m);
        Silence s;
        bool flip = R.flip();
        hist += flip ? "F" : "X"; describe(base + " " + hist);
        V3 at, mean;
        int lone = loneNode(m, at, mean);
        if (flip) t.flipEdges(m, tol * h); // a positive area
        else { t.relaxNodes(m, tol * h); checkLone(m, lone, at, mean, h, "quad-relax-mean"); }
        expect(kinds(m) == was && m.nbNodes() == (int)before.size(), "quad-adapt-count", "%d triangles and %d quadrilaterals from %d and %d | %s", kinds(m).first, kinds(m).second, was.first, was.second, st().desc.c_str());
        if (flip) expect(places(m) == before, "quad-flip-nodes", "nodes moved | %s", st().desc.c_str());
        else count(places(m) == before ? "quadRelax.still" : "quadRelax.moved");
        if (!checkPartition(m, b, a, h, tol, flip ? "quad-flip" : "quad-relax", true)) return;
        nontrivial();
    }
}
// edges declared fixed stay where they are while the triangles around them are improved
FAMILY(fixedEdges, 200, 4000)
{
    Mesh m;
    std::vector<Seg> b;
    double a, h;
    gridMesh(R, m, b, a, h);
    double tol = 1e-5 * h;
    std::set<std::pair<int, int>> inner;
    for (int i = 0; i < m.nbFaces(); ++i) { CMshFace<D> f = m.face(m.faceId(i)); if (f.hasPair()) inner.insert({ std::min(f.nodeId(0), f.nodeId(1)), std::max(f.nodeId(0), f.nodeId(1)) }); }
    Mesh em;
    std::vector<Seg> fixed;
    std::map<int, int> id;
    int n = R.ri(3, 50), ne = R.ri(0, 20);
    double part = R.uni(0.1, 0.7);
    for (auto& e : inner) {
        if (!R.flip(part)) continue;
        CMshElement<D> el(ET_BEAM);
        int q[2] = { e.first, e.second };
        if (R.flip()) std::swap(q[0], q[1]);
        for (int x : q) { if (!id.count(x)) { id[x] = n; em.addNode(n, m.node(x)); n += R.ri(1, 3); } el.addNodeId(id[x]); }
        em.addElement(ne, el);
        ne += R.ri(1, 3);
        fixed.push_back({ v3(m.node(e.first)), v3(m.node(e.second)) });
    }
    CMshTriangleMesher<D> t;
    std::string base = st().desc + fmt(", %zu fixed edges", fixed.size()), hist;
    for (int k = R.ri(1, 4); k > 0; --k) {
        Silence s;
        bool flip = R.flip(0.6);
        hist += flip ? "F" : "X"; describe(base + " " + hist);
        t.applyFixedBoundary(m, em, tol);
        if (flip) t.flipEdges(m, tol);
        else { t.relaxNodes(m, tol); m.generateFaces(1e-6 * h); }
        if (!checkPartition(m, b, a, h, tol, flip ? "fixed-flip" : "fixed-relax", false)) return;
        std::set<std::pair<std::string, std::string>> have;
        for (int i = 0; i < m.nbElements(); ++i) { CMshElement<D>& e = m.element(m.elementId(i)); for (int q = 0; q < 3; ++q) { V3 x = v3(m.node(e.nodeId(q))), y = v3(m.node(e.nodeId((q + 1) % 3))); have.insert({ fmt("%a %a", x.x, x.y), fmt("%a %a", y.x, y.y) }); } }
        for (auto& f : fixed) if (!expect(have.count({ fmt("%a %a", f.first.x, f.first.y), fmt("%a %a", f.second.x, f.second.y) }), "fixed-edge", "the fixed edge (%g %g)-(%g %g) is gone | %s", f.first.x, f.first.y, f.second.x, f.second.y, st().desc.c_str())) return;
        nontrivial();
    }
}
