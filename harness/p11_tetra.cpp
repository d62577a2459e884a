// P11: tetrahedral meshes of closed surfaces: what success of the mesher promises, and what moving nodes and flipping edges must keep.
#include "mon.hpp"
#include "meshes.hpp"
#include "GeoHashGrid.hpp"
#include "MshTetrahedronMesher.hpp"
#include <array>
using namespace mon;
using namespace gen;
using namespace meshes;
using namespace ENigMA::geometry;
typedef ENigMA::mesh::CMshTetrahedronMesher<D> Mesher;
typedef ENigMA::mesh::SMshAdvancingFrontTriangle<D> FrontTri;
typedef std::array<int, 3> Tri;
struct Skin { std::vector<V3> P; std::vector<Tri> F; }; // triangles seen counter-clockwise from outside

static double volumeOf(const Skin& s) { double v = 0; for (auto& t : s.F) v += tet6(s.P[0], s.P[t[0]], s.P[t[1]], s.P[t[2]]); return v; } // points outward: positive
static bool closedManifold(const Skin& s)
{
    std::map<std::pair<int, int>, int> e;
    for (auto& t : s.F) for (int k = 0; k < 3; ++k) if (++e[{ t[k], t[(k + 1) % 3] }] > 1) return false;
    for (auto& x : e) if (!e.count({ x.first.second, x.first.first })) return false;
    return true;
}
// Union of unit cubes, each side cut into n*n squares of two triangles.
static Skin voxels(Rng& R, const std::set<std::array<int, 3>>& C, int n, int diagonals)
{
    Skin s;
    std::map<std::array<int, 3>, int> id;
    auto node = [&](std::array<int, 3> q) { auto r = id.insert({ q, (int)s.P.size() }); if (r.second) s.P.push_back(V3(double(q[0]) / n, double(q[1]) / n, double(q[2]) / n)); return r.first->second; };
    for (auto& c : C) for (int d = 0; d < 3; ++d) for (int side = 0; side < 2; ++side) {
        auto o = c; o[d] += side ? 1 : -1;
        if (C.count(o)) continue;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            auto at = [&](int a, int b) { std::array<int, 3> q = { c[0] * n, c[1] * n, c[2] * n }; q[d] += side * n; q[(d + 1) % 3] += i + a; q[(d + 2) % 3] += j + b; return node(q); };
            int q[4] = { at(0, 0), at(1, 0), at(1, 1), at(0, 1) };
            if (!side) std::swap(q[1], q[3]);
            bool f = diagonals == 0 ? false : diagonals == 1 ? (i + j) % 2 : R.flip();
            if (f) { s.F.push_back({ q[0], q[1], q[2] }); s.F.push_back({ q[0], q[2], q[3] }); }
            else { s.F.push_back({ q[1], q[2], q[3] }); s.F.push_back({ q[1], q[3], q[0] }); }
        }
    }
    return s;
}
static Skin ball(Rng& R, int level)
{
    Skin s;
    s.P = { V3(1, 0, 0), V3(-1, 0, 0), V3(0, 1, 0), V3(0, -1, 0), V3(0, 0, 1), V3(0, 0, -1) };
    s.F = { { 0, 2, 4 }, { 2, 1, 4 }, { 1, 3, 4 }, { 3, 0, 4 }, { 2, 0, 5 }, { 1, 2, 5 }, { 3, 1, 5 }, { 0, 3, 5 } };
    for (int l = 0; l < level; ++l) {
        std::map<std::pair<int, int>, int> m;
        auto mid = [&](int a, int b) { auto r = m.insert({ { std::min(a, b), std::max(a, b) }, (int)s.P.size() }); if (r.second) s.P.push_back((s.P[a] + s.P[b]).unit()); return r.first->second; };
        std::vector<Tri> F;
        for (auto& t : s.F) { int a = mid(t[0], t[1]), b = mid(t[1], t[2]), c = mid(t[2], t[0]); F.push_back({ t[0], a, c }); F.push_back({ a, t[1], b }); F.push_back({ c, b, t[2] }); F.push_back({ a, b, c }); }
        s.F = F;
    }
    (void)R;
    return s;
}
static void transform(Rng& R, Skin& s, double jitter)
{
    double sx = R.uni(.6, 1.5), sy = R.uni(.6, 1.5), sz = R.uni(.6, 1.5), sh = R.flip() ? R.uni(-.3, .3) : 0;
    Rigid g = R.flip(.3) ? identity() : randomRigid(R, 3);
    for (auto& p : s.P) { V3 q = p + inBox(R, jitter); q = V3(q.x * sx + sh * q.y, q.y * sy, q.z * sz); p = g(q); }
}
static double meanEdge(const Skin& s) { double l = 0; for (auto& t : s.F) for (int k = 0; k < 3; ++k) l += (s.P[t[k]] - s.P[t[(k + 1) % 3]]).norm(); return l / (3 * s.F.size()); }
static bool inside(const Skin& s, const V3& p, double& nearest) // winding number
{
    double w = 0;
    nearest = 1e300;
    for (auto& t : s.F) {
        V3 a = s.P[t[0]] - p, b = s.P[t[1]] - p, c = s.P[t[2]] - p;
        double n = a.dot(b.cross(c)), d = a.norm() * b.norm() * c.norm() + a.dot(b) * c.norm() + b.dot(c) * a.norm() + c.dot(a) * b.norm();
        w += 2 * std::atan2(n, d);
        nearest = std::min({ nearest, a.norm(), b.norm(), c.norm(), ((a + b + c) * (1. / 3)).norm() });
        V3 m = (b - a).cross(c - a).unit();
        double h = std::fabs(m.dot(a));
        V3 q = m * m.dot(a); // foot of p
        if ((b - a).cross(q - a).dot(m) > -1e-9 && (c - b).cross(q - b).dot(m) > -1e-9 && (a - c).cross(q - c).dot(m) > -1e-9) nearest = std::min(nearest, h);
        for (auto e : { std::make_pair(a, b), std::make_pair(b, c), std::make_pair(c, a) }) { V3 u = e.second - e.first; double x = std::max(0., std::min(1., -e.first.dot(u) / u.dot(u))); nearest = std::min(nearest, (e.first + u * x).norm()); }
    }
    return w > 2 * M_PI;
}
struct Where { double x, y, z; bool operator<(const Where& o) const { return std::tie(x, y, z) < std::tie(o.x, o.y, o.z); } };
static Where place(const V3& p) { return { p.x, p.y, p.z }; }

// The mesh is a partition of what the skin encloses.
static bool checkPartition(Mesh& m, const Skin& s, double vol, const std::string& k)
{
    auto key = [&](const char* w) { static std::string x; x = k + "." + w; return x.c_str(); };
    std::map<int, V3> at;
    for (int i = 0; i < m.nbNodes(); ++i) at[m.nodeId(i)] = v3(m.node(m.nodeId(i)));
    std::map<std::vector<int>, std::vector<std::array<int, 3>>> faces;
    double sum = 0;
    std::set<int> used;
    if (!expect(m.nbElements() > 0, key("empty"), "no elements: %s", st().desc.c_str())) return false;
    for (int i = 0; i < m.nbElements(); ++i) {
        int id = m.elementId(i);
        auto& e = m.element(id);
        if (!expect(e.elementType() == ENigMA::mesh::ET_TETRAHEDRON && e.nbNodeIds() == 4, key("type"), "element %d is no tetrahedron: %s", id, st().desc.c_str())) return false;
        std::vector<V3> p;
        int n[4];
        for (int j = 0; j < 4; ++j) {
            n[j] = e.nodeId(j);
            if (!expect(at.count(n[j]), key("node"), "element %d has the node %d, which is not there: %s", id, n[j], st().desc.c_str())) return false;
            p.push_back(at[n[j]]);
            used.insert(n[j]);
        }
        double v = solidVolume(ENigMA::mesh::ET_TETRAHEDRON, p);
        sum += v;
        if (!expect(v > 0, key("positive"), "element %d has the volume %g: %s", id, v, st().desc.c_str())) return false;
        static const int f[4][3] = { { 0, 1, 2 }, { 1, 0, 3 }, { 2, 1, 3 }, { 0, 2, 3 } }; // seen from outside
        for (auto& x : f) { std::vector<int> q = { n[x[0]], n[x[1]], n[x[2]] }; std::sort(q.begin(), q.end()); faces[q].push_back({ n[x[0]], n[x[1]], n[x[2]] }); }
    }
    bool ok = true;
    ok &= expect(used.size() == at.size(), key("dangling"), "%zu of %zu nodes are used: %s", used.size(), at.size(), st().desc.c_str());
    std::set<std::array<Where, 3>> outer;
    auto turn = [](std::array<Where, 3> t) { while (t[1] < t[0] || t[2] < t[0]) t = { t[1], t[2], t[0] }; return t; };
    for (auto& f : faces) {
        if (!expect(f.second.size() <= 2, key("conforming"), "%zu tetrahedra at a face: %s", f.second.size(), st().desc.c_str())) return false;
        if (f.second.size() == 2) {
            auto &a = f.second[0], &b = f.second[1];
            int r = 0; while (b[r] != a[0]) ++r;
            if (!expect(b[(r + 1) % 3] == a[2], key("sides"), "two tetrahedra on the same side of a face: %s", st().desc.c_str())) return false;
        } else outer.insert(turn({ place(at[f.second[0][0]]), place(at[f.second[0][1]]), place(at[f.second[0][2]]) }));
    }
    size_t match = 0;
    for (auto& t : s.F) match += outer.count(turn({ place(s.P[t[0]]), place(s.P[t[1]]), place(s.P[t[2]]) }));
    ok &= expect(outer.size() == s.F.size() && match == s.F.size(), key("surface"), "%zu outer faces, %zu of the %zu given ones: %s", outer.size(), match, s.F.size(), st().desc.c_str());
    ok &= expectNear(sum, vol, 1e-9 * (1 + vol), key("volume"), "sum of volumes");
    // faces as the library relates them
    int open = 0;
    for (int i = 0; i < m.nbFaces(); ++i) {
        auto& f = m.face(m.faceId(i));
        if (!f.hasPair()) { ++open; continue; }
        auto& g = m.face(f.pairFaceId());
        std::set<int> a, b;
        for (int j = 0; j < f.nbNodeIds(); ++j) a.insert(f.nodeId(j));
        for (int j = 0; j < g.nbNodeIds(); ++j) b.insert(g.nodeId(j));
        if (!expect(a == b && f.elementId() != g.elementId(), key("pairs"), "face %d is paired with another face: %s", m.faceId(i), st().desc.c_str())) return false;
    }
    ok &= expect(m.nbFaces() == 4 * m.nbElements() && open == (int)s.F.size(), key("faces"), "%d faces, %d without pair: %s", m.nbFaces(), open, st().desc.c_str());
    count("tetrahedra", m.nbElements());
    return ok;
}

static bool anySkin(Rng& R, Skin& s, std::string& w)
{
    int kind = R.ri(0, 5), n = R.ri(1, 2), diag = R.ri(0, 2);
    double jitter = R.flip(.3) ? 0 : R.uni(0, .08);
    std::set<std::array<int, 3>> C;
    if (kind == 0) { n = R.ri(1, 3); C = { { 0, 0, 0 } }; w = fmt("box %d", n); }
    else if (kind == 1) { for (int i = 0, k = R.ri(2, 3); i < k; ++i) C.insert({ i, 0, 0 }); w = "bar"; }
    else if (kind == 2) { C = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 } }; if (R.flip()) C.insert({ 0, 0, 1 }); w = "corner"; }
    else if (kind == 3) { if (R.flip(.4)) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != 1 || j != 1) C.insert({ i, j, 0 }); n = 1; w = "ring"; } else { C = { { 0, 0, 0 }, { 1, 0, 0 }, { 2, 0, 0 }, { 0, 1, 0 }, { 2, 1, 0 } }; n = 1; w = "U"; } }
    else if (kind == 4) { C = { { 0, 0, 0 } }; for (int t = 0; t < R.ri(2, 6); ++t) { auto it = C.begin(); std::advance(it, R.ri(0, (int)C.size() - 1)); auto c = *it; c[R.ri(0, 2)] += R.flip() ? 1 : -1; C.insert(c); } n = 1; w = fmt("%zu cubes", C.size()); }
    if (kind < 5) s = voxels(R, C, n, diag);
    else { int l = R.ri(0, 2); s = ball(R, l); jitter *= l == 2 ? .3 : 1; w = fmt("ball %d", l); }
    w += fmt(", cut %d, jitter %.2f", n, jitter / std::max(1, n));
    transform(R, s, jitter / std::max(1, n));
    return closedManifold(s);
}
static void put(Rng& R, const Skin& s, Mesh& m)
{
    std::vector<int> id(s.P.size()), eid(s.F.size()), no, eo;
    bool any = R.flip(.6);
    for (size_t i = 0; i < id.size(); ++i) { id[i] = (int)i; no.push_back((int)i); }
    for (size_t i = 0; i < eid.size(); ++i) { eid[i] = (int)i; eo.push_back((int)i); }
    if (any) { for (auto& i : id) i = i * 3 + 2; for (auto& i : eid) i = i * 2 + 5; R.shuffle(id); R.shuffle(eid); R.shuffle(no); R.shuffle(eo); }
    for (int i : no) m.addNode(id[i], as<CMshNode<D>>(s.P[i]));
    for (int i : eo) { CMshElement<D> e(ENigMA::mesh::ET_TRIANGLE); int r = R.ri(0, 2); for (int k = 0; k < 3; ++k) e.addNodeId(id[s.F[i][(k + r) % 3]]); m.addElement(eid[i], e); }
    m.generateFaces(1e-6);
}
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };

// Improvements keep the partition.
static void improve(Rng& R, Mesher& mesher, Mesh& m, const Skin& s, double vol, double tol)
{
    std::string ops;
    std::string base = st().desc;
    for (int t = R.ri(1, 6); t > 0; --t) {
        std::map<Where, int> skin;
        for (auto& p : s.P) skin[place(p)] = 1;
        int before = m.nbElements(), nodes = m.nbNodes(), op = R.ri(0, 2);
        if (op == 0) {
            double f = R.uni(.1, 1);
            ops += fmt(" relax(%.2f)", f);
            describe(base + ops);
            std::vector<int> inner;
            for (int i = 0; i < nodes; ++i) if (!skin.count(place(v3(m.node(m.nodeId(i)))))) inner.push_back(m.nodeId(i));
            V3 was, mid(0, 0, 0);
            if (inner.size() == 1) { // towards or away from the centroid of what surrounds it, or not at all
                double w = 0;
                was = v3(m.node(inner[0]));
                for (int i = 0; i < before; ++i) {
                    auto& e = m.element(m.elementId(i));
                    std::vector<V3> p;
                    bool in = false;
                    for (int j = 0; j < 4; ++j) { p.push_back(v3(m.node(e.nodeId(j)))); in = in || e.nodeId(j) == inner[0]; }
                    if (!in) continue;
                    double v = solidVolume(ENigMA::mesh::ET_TETRAHEDRON, p);
                    w += v;
                    mid = mid + (p[0] + p[1] + p[2] + p[3]) * (v / 4);
                }
                mid = mid * (1 / w);
            }
            mesher.relaxNodes(m, f, tol);
            if (inner.size() == 1) {
                V3 now = v3(m.node(inner[0])), step = (mid - was) * f;
                double off = std::min({ (now - was).norm(), (now - was - step).norm(), (now - was + step).norm() });
                expect(off < 1e-9 * (1 + was.norm()), "relax.step", "the inner node moved by %g %g %g, its centroid is %g %g %g away: %s", now.x - was.x, now.y - was.y, now.z - was.z, mid.x - was.x, mid.y - was.y, mid.z - was.z, st().desc.c_str());
                count((now - was).norm() > 0 ? "relax.moved" : "relax.stayed");
            }
        }
        else if (op == 1) { ops += " flip23"; describe(base + ops); mesher.flipEdges23(m, tol); count("flipped23", m.nbElements() - before); }
        else { ops += " flip32"; describe(base + ops); mesher.flipEdges32(m, tol); count("flipped32", before - m.nbElements()); }
        const char* name = op == 0 ? "relax" : op == 1 ? "flip23" : "flip32";
        if (op == 0) expect(m.nbElements() == before && m.nbNodes() == nodes, "relax.count", "%d elements and %d nodes instead of %d and %d", m.nbElements(), m.nbNodes(), before, nodes);
        if (!checkPartition(m, s, vol, name)) return;
        count(fmt("op.%s", name));
    }
}

FAMILY_CPU(generate, 160, 2500, 60)
{
    Skin s;
    std::string w;
    if (!anySkin(R, s, w)) { count("no manifold"); return; }
    double vol = volumeOf(s), h = meanEdge(s);
    expect(vol > 0, "self.volume", "skin inside out");
    Mesh surface;
    put(R, s, surface);
    std::vector<CGeoCoordinate<D>> points;
    std::vector<V3> inner;
    if (R.flip(.4)) {
        int want = R.ri(1, 4);
        V3 lo(1e300, 1e300, 1e300), hi = lo * -1;
        for (auto& p : s.P) { lo = V3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)); hi = V3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)); }
        for (int t = 0; t < 60 && (int)inner.size() < want; ++t) {
            V3 p(R.uni(lo.x, hi.x), R.uni(lo.y, hi.y), R.uni(lo.z, hi.z));
            double d;
            if (!inside(s, p, d) || d < .25 * h) continue;
            bool ok = true;
            for (auto& q : inner) ok = ok && (q - p).norm() > .4 * h;
            if (ok) { inner.push_back(p); points.push_back(as<CGeoCoordinate<D>>(p)); }
        }
    }
    double size = h * R.uni(.7, 1.6), tol = h * std::pow(10., R.uni(-6, -3));
    int most = 2500;
    describe(w + fmt(", %zu triangles, %zu inner points, size %.2f h, tolerance %.1e h", s.F.size(), inner.size(), size / h, tol / h));
    Mesher mesher;
    int runs = R.flip(.15) ? 2 : 1;
    bool done = false;
    for (int r = 0; r < runs; ++r) {
        done = false;
        Quiet q;
        try { done = mesher.generate(surface, most, points, size, size * R.uni(.05, .9), size * R.uni(1.1, 8), tol); }
        catch (std::vector<FrontTri>&) { count("refused.front"); }
        catch (const std::runtime_error& e) { count(fmt("refused.%s", e.what())); }
        count(done ? "meshed" : "refused");
        // what the mesher has to cope with
        if (inner.empty() && (w.find("box 1") == 0 || (w.find("ball 0") == 0 && w.find("jitter 0.00") != std::string::npos))) { count("plain"); expect(done, "generate.refused", "not meshed: %s", st().desc.c_str()); }
        if (!done) continue;
        Mesh& m = mesher.mesh();
        if (!checkPartition(m, s, vol, r ? "again" : "generate")) return;
        expect(m.nbElements() <= most, "generate.most", "%d elements, at most %d allowed", m.nbElements(), most);
        std::set<Where> at;
        for (int i = 0; i < m.nbNodes(); ++i) at.insert(place(v3(m.node(m.nodeId(i)))));
        for (auto& p : inner) expect(at.count(place(p)), "generate.inner", "inner point %g %g %g is no node: %s", p.x, p.y, p.z, st().desc.c_str());
        for (int i = 0; i < m.nbNodes(); ++i) expect(m.nodeId(i) == i, "generate.numbers", "node %d has the identifier %d", i, m.nodeId(i));
    }
    // the surface stays as it was
    expect(surface.nbElements() == (int)s.F.size() && surface.nbNodes() == (int)s.P.size(), "generate.input", "the surface mesh changed");
    if (!done) return;
    Mesh m = mesher.mesh();
    m.generateFaces(tol);
    improve(R, mesher, m, s, vol, tol);
    sig(hashStr(st().desc));
    nontrivial();
}

FAMILY(flips, 200, 4000)
{
    // meshes of the checks' own: a grid of tetrahedra with moved inner nodes
    int nx = R.ri(1, 3), ny = R.ri(1, 3), nz = R.ri(1, 3);
    Raw r = grid(ENigMA::mesh::ET_TETRAHEDRON, nx, ny, nz);
    for (auto& n : r.nodes) { V3& p = n.second; auto in = [](double v) { return v > 1e-9 && v < 1 - 1e-9; }; if (in(p.x) && in(p.y) && in(-p.z)) p = p + V3(R.uni(-.45, .45) / nx, R.uni(-.45, .45) / ny, R.uni(-.45, .45) / nz); }
    meshes::move(r, randomRigid(R, 2));
    if (R.flip(.6)) renumber(R, r, 3);
    for (auto& e : r.els) { std::vector<V3> p; for (int n : e.n) p.push_back(r.nodes[n]); if (solidVolume(e.type, p) <= 1e-6) { count("inside out"); return; } }
    for (auto& e : r.els) { int k = R.ri(0, 11); for (int i = 0; i < k; ++i) { int a = R.ri(0, 3), b = (a + 1) % 4, c = (a + 2) % 4; int x = e.n[a]; e.n[a] = e.n[b]; e.n[b] = e.n[c]; e.n[c] = x; } } // even turns
    Mesh m;
    fill(m, r);
    m.generateFaces(1e-9);
    // its own outer faces are the skin
    Skin s;
    std::map<int, int> at;
    std::map<std::vector<int>, std::vector<Tri>> faces;
    for (auto& e : r.els) { static const int f[4][3] = { { 0, 1, 2 }, { 1, 0, 3 }, { 2, 1, 3 }, { 0, 2, 3 } }; for (auto& x : f) { std::vector<int> q = { e.n[x[0]], e.n[x[1]], e.n[x[2]] }; std::sort(q.begin(), q.end()); faces[q].push_back({ e.n[x[0]], e.n[x[1]], e.n[x[2]] }); } }
    for (auto& f : faces) if (f.second.size() == 1) { Tri t; for (int k = 0; k < 3; ++k) { auto q = at.insert({ f.second[0][k], (int)s.P.size() }); if (q.second) s.P.push_back(r.nodes[f.second[0][k]]); t[k] = q.first->second; } s.F.push_back(t); }
    double vol = volumeOf(s);
    describe(fmt("grid %dx%dx%d:", nx, ny, nz));
    if (!checkPartition(m, s, vol, "self")) return;
    Mesher mesher;
    improve(R, mesher, m, s, vol, 1e-4);
    sig(hashStr(st().desc));
    nontrivial();
}
