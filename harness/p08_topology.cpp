// P08: faces, boundary, merging and queries against brute-force topology.
#include "meshes.hpp"
#include "MshMeshQuery.hpp"
#include "FvmMesh.hpp"
#include "FvmMeshSearch.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::geometry;
using ENigMA::fvm::CFvmMesh;
using ENigMA::fvm::CFvmMeshSearch;

static const char* tn[] = { "none", "beam", "triangle", "quadrilateral", "tetrahedron", "prism", "hexahedron" };
static Raw randomMesh(Rng& R, bool flatOk, int* ptype)
{
    std::vector<int> ts = { ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON };
    if (flatOk) { ts.push_back(ET_BEAM); ts.push_back(ET_TRIANGLE); ts.push_back(ET_QUADRILATERAL); }
    int t = R.pick(ts);
    int mx = 4;
    int nx = R.ri(1, mx), ny = R.ri(1, mx), nz = R.ri(1, mx);
    Raw r = grid(t, nx, ny, nz);
    distort(R, r, 0.05);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 5, true);
    move(r, g);
    if (R.flip(0.8)) renumber(R, r, R.pick(std::vector<int>{ 1, 3, 1000 }));
    describe(fmt("%s mesh %dx%dx%d, %d nodes %d elements, scale %g", t == ET_BEAM ? "beam" : t == ET_TRIANGLE ? "triangle" : t == ET_QUADRILATERAL ? "quad" : t == ET_TETRAHEDRON ? "tet" : t == ET_TRIANGULAR_PRISM ? "prism" : "hexa", nx, ny, nz, (int)r.nodes.size(), (int)r.els.size(), g.s));
    sig(t * 1000 + nx * 100 + ny * 10 + nz); sigd(r.nodes.begin()->second.x);
    if (ptype) *ptype = t;
    return r;
}
static std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
static double size(const Raw& r)
{
    double s = 1e300;
    for (auto& e : r.els) for (size_t i = 0; i < e.n.size(); ++i) for (size_t j = 0; j < i; ++j) s = std::min(s, (r.nodes.at(e.n[i]) - r.nodes.at(e.n[j])).norm());
    return s;
}

static bool checkFaces(Mesh& m, const Raw& r)
{
    std::map<std::vector<int>, int> uses;
    int total = 0;
    for (auto& e : r.els) for (auto& f : facesOf(e.type, e.n)) { uses[sorted(f)]++; ++total; }
    int boundary = 0;
    for (auto& u : uses) boundary += u.second == 1;
    if (!expect(m.nbFaces() == total, "face-count", "%d want %d | %s", m.nbFaces(), total, st().desc.c_str())) return false;
    expect(m.nbBoundaryFaces() == boundary, "boundary-count", "%d want %d | %s", m.nbBoundaryFaces(), boundary, st().desc.c_str());
    std::map<int, int> byId;
    for (size_t i = 0; i < r.els.size(); ++i) byId[r.els[i].id] = i;
    for (int i = 0; i < m.nbFaces(); ++i) {
        int id = m.faceId(i);
        CMshFace<D> f = m.face(id);
        std::vector<int> n;
        for (int k = 0; k < f.nbNodeIds(); ++k) n.push_back(f.nodeId(k));
        if (!expect(byId.count(f.elementId()), "face-owner", "face %d of unknown element %d", id, f.elementId())) return false;
        const El& e = r.els[byId[f.elementId()]];
        bool mine = false;
        for (auto& x : facesOf(e.type, e.n)) mine |= sorted(x) == sorted(n);
        expect(mine, "face-of-element", "face %d is not a face of element %d | %s", id, e.id, st().desc.c_str());
        bool listed = false;
        CMshElement<D>& g = m.element(e.id);
        for (int k = 0; k < g.nbFaceIds(); ++k) listed |= g.faceId(k) == id;
        expect(listed && g.nbFaceIds() == (int)facesOf(e.type, e.n).size(), "element-lists-face", "element %d has %d faces | %s", e.id, g.nbFaceIds(), st().desc.c_str());
        bool want = uses[sorted(n)] == 2;
        if (!expect(f.hasPair() == want, "face-paired", "face %d paired %d want %d | %s", id, f.hasPair(), want, st().desc.c_str())) return false;
        if (want) {
            CMshFace<D> p = m.face(f.pairFaceId());
            std::vector<int> k;
            for (int j = 0; j < p.nbNodeIds(); ++j) k.push_back(p.nodeId(j));
            expect(f.pairFaceId() != id && p.hasPair() && p.pairFaceId() == id && sorted(k) == sorted(n), "pair-symmetric", "face %d | %s", id, st().desc.c_str());
            expect(p.elementId() != f.elementId(), "pair-other-element", "face %d | %s", id, st().desc.c_str());
        }
    }
    return true;
}

FAMILY(faces, 400, 40000)
{
    Raw r = randomMesh(R, true, nullptr);
    Mesh m;
    fill(m, r);
    double h = size(r), tol = R.pick(std::vector<double>{ 0.0, 1e-6 * h, 0.01 * h });
    m.generateFaces(tol);
    if (!checkFaces(m, r)) return;
    m.generateFaces(tol); // again
    if (checkFaces(m, r)) nontrivial();
}

FAMILY(boundary, 400, 40000)
{
    int type;
    Raw r = randomMesh(R, true, &type);
    Mesh m;
    fill(m, r);
    double tol = R.pick(std::vector<double>{ 0.0, 1e-6 * size(r) });
    Mesh b = m.extractBoundary(tol);
    std::map<std::vector<int>, int> uses;
    for (auto& e : r.els) for (auto& f : facesOf(e.type, e.n)) uses[sorted(f)]++;
    std::set<std::vector<int>> want, got;
    for (auto& u : uses) if (u.second == 1) want.insert(u.first);
    std::map<std::pair<int, int>, int> edges;
    std::map<int, int> ends;
    double vol = 0;
    V3 o = r.nodes.begin()->second, area;
    for (int i = 0; i < b.nbElements(); ++i) {
        CMshElement<D>& e = b.element(b.elementId(i));
        std::vector<int> n;
        for (int k = 0; k < e.nbNodeIds(); ++k) n.push_back(e.nodeId(k));
        got.insert(sorted(n));
        if (r.dim == 1) continue;
        EElementType t = n.size() == 2 ? ET_BEAM : n.size() == 3 ? ET_TRIANGLE : ET_QUADRILATERAL;
        expect(e.elementType() == t, "boundary-type", "%d | %s", (int)e.elementType(), st().desc.c_str());
        std::vector<V3> p;
        for (int k : n) p.push_back(v3(b.node(k)));
        if (r.dim == 2) { ends[n[0]]++; ends[n[1]]--; area = area + (p[0] - o).cross(p[1] - o) * 0.5; continue; }
        V3 c;
        for (auto& q : p) c = c + q;
        c = c * (1.0 / p.size());
        for (size_t k = 0; k < n.size(); ++k) {
            int a = n[k], d = n[(k + 1) % n.size()];
            edges[{ a, d }]++; edges[{ d, a }]--;
            vol += tet6(o, p[k], p[(k + 1) % n.size()], c);
        }
    }
    expect(got == want && b.nbElements() == (int)want.size(), "boundary-elements", "%d elements want %d | %s", b.nbElements(), (int)want.size(), st().desc.c_str());
    for (auto& e : edges) if (!expect(e.second == 0, "boundary-closed", "edge used %d more times one way | %s", e.second, st().desc.c_str())) break;
    for (auto& e : ends) if (!expect(e.second == 0, "boundary-closed", "node entered and left unequally | %s")) break;
    double ref = 0;
    V3 refA;
    for (auto& e : r.els) {
        std::vector<V3> p;
        for (int n : e.n) p.push_back(r.nodes.at(n));
        if (r.dim == 3) ref += solidVolume(e.type, p);
        if (r.dim == 2) refA = refA + areaVector(p);
    }
    if (r.dim == 3) expectNear(vol, ref, 1e-9 * std::fabs(ref), "boundary-encloses");
    if (r.dim == 2) expectNear((area - refA).norm(), 0, 1e-9 * refA.norm(), "boundary-encloses");
    nontrivial();
}

FAMILY(merge, 400, 40000)
{
    int type;
    Raw r = randomMesh(R, true, &type);
    double h = size(r), tol = h * R.pick(std::vector<double>{ 1e-9, 1e-4, 0.02 });
    double jit = R.flip() ? 0 : tol * 0.2;
    // every element gets its own copies of its nodes
    Mesh m;
    std::vector<std::pair<int, int>> slots; // (element, local)
    for (size_t e = 0; e < r.els.size(); ++e) for (size_t k = 0; k < r.els[e].n.size(); ++k) slots.push_back({ (int)e, (int)k });
    std::vector<int> ids(slots.size());
    for (size_t i = 0; i < ids.size(); ++i) ids[i] = i * R.pick(std::vector<int>{ 1 });
    bool shuffled = R.flip(0.7);
    if (shuffled) { R.shuffle(ids); R.shuffle(slots); }
    std::map<std::pair<int, int>, int> nid;
    std::map<int, int> orig;
    for (size_t i = 0; i < slots.size(); ++i) {
        int o = r.els[slots[i].first].n[slots[i].second];
        V3 p = r.nodes.at(o);
        if (jit > 0) p = p + unitVec(R) * (jit * R.u());
        m.addNode(ids[i], as<CMshNode<D>>(p));
        nid[slots[i]] = ids[i];
        orig[ids[i]] = o;
    }
    for (size_t e = 0; e < r.els.size(); ++e) {
        CMshElement<D> g((EElementType)r.els[e].type);
        for (size_t k = 0; k < r.els[e].n.size(); ++k) g.addNodeId(nid[{ (int)e, (int)k }]);
        m.addElement(r.els[e].id, g);
    }
    std::set<int> used;
    for (auto& e : r.els) used.insert(e.n.begin(), e.n.end());
    bool faces = R.flip(0.4);
    if (faces) m.generateFaces(0);
    m.mergeNodes(tol);
    std::string d = st().desc + fmt(" tol=%g jitter=%g shuffled=%d", tol, jit, shuffled);
    describe(d);
    if (!expect(m.nbNodes() == (int)used.size(), "merge-node-count", "%d want %d | %s", m.nbNodes(), (int)used.size(), d.c_str())) return;
    expect(m.nbElements() == (int)r.els.size(), "merge-element-count", "%d want %d | %s", m.nbElements(), (int)r.els.size(), d.c_str());
    std::set<int> nodes;
    for (int i = 0; i < m.nbNodes(); ++i) { nodes.insert(m.nodeId(i)); if (!expect(m.nodeIndex(m.nodeId(i)) == i, "merge-node-index", "id %d | %s", m.nodeId(i), d.c_str())) return; }
    std::map<int, int> rep;
    for (auto& e : r.els) {
        CMshElement<D>& g = m.element(e.id);
        if (!expect(g.nbNodeIds() == (int)e.n.size(), "merge-element-size", "%s", d.c_str())) return;
        for (size_t k = 0; k < e.n.size(); ++k) {
            int id = g.nodeId(k);
            if (!expect(nodes.count(id), "merge-dangling", "element %d refers to removed node %d | %s", e.id, id, d.c_str())) return;
            if (!rep.count(e.n[k])) rep[e.n[k]] = id;
            expect(rep[e.n[k]] == id, "merge-same-node", "two nodes left at one place | %s", d.c_str());
            expect((v3(m.node(id)) - r.nodes.at(e.n[k])).norm() <= jit + 1e-14, "merge-geometry", "moved by %g | %s", (v3(m.node(id)) - r.nodes.at(e.n[k])).norm(), d.c_str());
        }
    }
    if (faces) for (int i = 0; i < m.nbFaces(); ++i) {
        CMshFace<D>& f = m.face(m.faceId(i));
        for (int k = 0; k < f.nbNodeIds(); ++k) expect(nodes.count(f.nodeId(k)), "merge-face-dangling", "%s", d.c_str());
    }
    // adding to the merged mesh continues the indexing
    int id = m.nextNodeId();
    m.addNode(id, CMshNode<D>(1, 2, 3));
    expect(m.nodeIndex(id) == m.nbNodes() - 1, "merge-then-add", "index %d of %d | %s", m.nodeIndex(id), m.nbNodes(), d.c_str());
    m.removeNode(id);
    m.generateFaces(0);
    Raw q = r;
    for (auto& e : q.els) for (int& n : e.n) n = rep[n];
    if (checkFaces(m, q)) nontrivial();
}

FAMILY(mergeCollapse, 300, 30000)
{
    // coincident nodes inside an element make it invalid: it goes away, the others stay
    int n = R.ri(2, 12);
    Mesh m;
    std::set<int> keep;
    int id = 0;
    for (int e = 0; e < n; ++e) {
        bool bad = R.flip(0.4);
        CMshElement<D> g(ET_TRIANGLE);
        V3 a = V3(e * 10, 0, 0), b = a + V3(1, 0, 0), c = bad ? (R.flip() ? a : b) : a + V3(0, 1, 0);
        for (auto& p : { a, b, c }) { m.addNode(id, as<CMshNode<D>>(p)); g.addNodeId(id); id++; }
        int eid = (e * 7) % 13;
        m.addElement(eid, g);
        if (!bad) keep.insert(eid);
    }
    describe(fmt("%d triangles, %d valid", n, (int)keep.size())); sig(n); for (int k : keep) sig(k);
    m.mergeNodes(1e-6);
    std::set<int> got;
    for (int i = 0; i < m.nbElements(); ++i) { got.insert(m.elementId(i)); expect(m.elementIndex(m.elementId(i)) == i, "collapse-index", "%s", st().desc.c_str()); }
    expect(got == keep, "collapse-removes", "%d left want %d", (int)got.size(), (int)keep.size());
    m.removeDanglingNodes();
    expect(m.nbNodes() == 3 * (int)keep.size(), "dangling-removed", "%d nodes for %d triangles", m.nbNodes(), (int)keep.size());
    for (int i = 0; i < m.nbNodes(); ++i) expect(m.nodeIndex(m.nodeId(i)) == i, "dangling-index", "%s", st().desc.c_str());
    if (keep.size() && (int)keep.size() < n) nontrivial();
}

FAMILY(query, 400, 40000)
{
    Raw r = randomMesh(R, true, nullptr);
    Mesh m;
    fill(m, r);
    CMshMeshQuery<D> q(m);
    std::vector<int> ids = r.nodeOrder;
    for (int t = 0; t < 12; ++t) {
        int a = R.pick(ids), b = R.pick(ids);
        if (R.flip()) { const El& e = R.pick(r.els); a = R.pick(e.n); b = R.pick(e.n); }
        std::vector<Integer> s1, s2;
        q.elementsSharingNode(a, s1);
        q.elementsSharingNodes(a, b, s2);
        std::vector<int> w1, w2;
        for (auto& e : r.els) {
            bool ha = std::count(e.n.begin(), e.n.end(), a), hb = std::count(e.n.begin(), e.n.end(), b);
            if (ha) w1.push_back(e.id);
            if (ha && hb) w2.push_back(e.id);
        }
        expect(sorted(s1) == sorted(w1), "query-node", "%d elements want %d | %s", (int)s1.size(), (int)w1.size(), st().desc.c_str());
        expect(sorted(s2) == sorted(w2), "query-nodes", "%d elements want %d | %s", (int)s2.size(), (int)w2.size(), st().desc.c_str());
        if (w2.size() > 1) nontrivial();
    }
}

FAMILY(search, 150, 15000)
{
    int type;
    Raw r = randomMesh(R, false, &type);
    Mesh m;
    fill(m, r);
    m.generateFaces(0);
    CFvmMesh<D> f(m);
    CFvmMeshSearch<D> s(f);
    s.build();
    std::map<std::vector<int>, int> uses;
    for (auto& e : r.els) for (auto& x : facesOf(e.type, e.n)) uses[sorted(x)]++;
    std::vector<V3> cs;
    for (auto& u : uses) if (u.second == 1) { V3 c; for (int n : u.first) c = c + r.nodes.at(n); cs.push_back(c * (1.0 / u.first.size())); }
    double h = size(r);
    for (int t = 0; t < 6; ++t) {
        V3 p = R.flip() ? R.pick(cs) : r.nodes.at(R.pick(r.nodeOrder));
        p = p + unitVec(R) * (h * R.uni(0, 0.6));
        double d = h * R.uni(0.1, 2);
        bool band = false;
        int want = 0;
        for (auto& c : cs) { double x = (c - p).norm(); if (std::fabs(x - d) < 1e-6 * h) band = true; want += x < d; }
        if (band) continue;
        CGeoCoordinate<D> c = as<CGeoCoordinate<D>>(p);
        std::vector<Integer> got;
        s.findClosestBoundaryFaces(c, d, got);
        bool ok = (int)std::set<int>(got.begin(), got.end()).size() == want && (int)got.size() == want;
        for (int id : got) { f.face(id).calculateCentroid(); ok &= !f.face(id).hasPair() && (v3(f.face(id).centroid()) - p).norm() < d * (1 + 1e-9); }
        expect(ok, "search-boundary", "%d faces want %d | %s", (int)got.size(), want, st().desc.c_str());
        if (want) nontrivial();
    }
}
