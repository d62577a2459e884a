// P12: extrusion of surface meshes, layer by layer.
#include "meshes.hpp"
#include "MshExtrudedMesher.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::geometry;

static Raw surface(Rng& R, bool curved, double& area)
{
    int kind = R.ri(0, 2), nx = R.ri(1, 5), ny = R.ri(1, 5);
    Raw r = grid(kind == 0 ? ET_TRIANGLE : ET_QUADRILATERAL, nx, ny, 0);
    distort(R, r, 0.15 / std::max(nx, ny));
    if (kind == 2) { // mixed
        std::vector<El> e;
        for (auto& q : r.els) {
            if (R.flip()) { e.push_back({ (int)e.size(), ET_QUADRILATERAL, q.n }); continue; }
            int s = R.ri(0, 1);
            auto N = [&](int k) { return q.n[(k + s) % 4]; };
            e.push_back({ (int)e.size(), ET_TRIANGLE, { N(0), N(1), N(2) } });
            e.push_back({ (int)e.size(), ET_TRIANGLE, { N(0), N(2), N(3) } });
        }
        r.els = e;
    }
    for (auto& e : r.els) if (R.flip()) { int k = R.ri(1, (int)e.n.size() - 1); std::rotate(e.n.begin(), e.n.begin() + k, e.n.end()); }
    if (curved) for (auto& n : r.nodes) n.second.z += 0.1 * std::sin(2 * n.second.x) * std::cos(1.5 * n.second.y);
    Rigid g = R.flip(0.3) ? identity() : randomRigid(R, 5, true);
    move(r, g);
    if (R.flip(0.7)) renumber(R, r, R.pick(std::vector<int>{ 1, 3, 1000 }));
    area = 0;
    for (auto& e : r.els) { std::vector<V3> p; for (int n : e.n) p.push_back(r.nodes[n]); area += areaVector(p).norm(); }
    describe(fmt("%s%s %dx%d surface, %d elements, area %g", curved ? "curved " : "", kind == 0 ? "triangle" : kind == 1 ? "quadrilateral" : "mixed", nx, ny, (int)r.els.size(), area));
    sig(kind * 100 + nx * 10 + ny); sigd(r.nodes.begin()->second.x);
    return r;
}
static std::string key(const V3& p, double h) { return fmt("%lld,%lld,%lld", (long long)std::llround(p.x / h), (long long)std::llround(p.y / h), (long long)std::llround(p.z / h)); }

static void run(Rng& R, bool curved)
{
    double area;
    Raw r = surface(R, curved, area);
    double h = std::sqrt(area);
    int layers = R.ri(1, 4);
    std::vector<double> th;
    for (int i = 0; i < layers; ++i) th.push_back(curved ? 0.05 * h * R.uni(0.3, 1) : h * R.uni(0.05, 0.6));
    if (R.flip()) for (auto& t : th) t = th[0];
    Mesh sm;
    fill(sm, r);
    CMshExtrudedMesher<D> x;
    std::map<int, V3> pos = r.nodes, nrm;
    double off = 0;
    for (auto& p : pos) off = std::max(off, p.second.norm());
    for (int l = 0; l < layers; ++l) {
        // reference: every node moves against the mean unit normal of its elements
        for (auto& n : pos) {
            V3 s;
            for (auto& e : r.els) for (int q : e.n) if (q == n.first) {
                V3 a = pos[e.n[0]], b = pos[e.n[1]], c = pos[e.n[2]];
                s = s + (b - a).cross(c - a).unit();
                break;
            }
            nrm[n.first] = s.unit();
        }
        if (!expect(x.generate(sm, th[l], 1e-6 * h), "success", "%s", st().desc.c_str())) return;
        Mesh& m = x.mesh();
        const char* d = st().desc.c_str();
        int per = r.els.size(), want = per * (l + 1);
        if (!expect(m.nbElements() == want, "elements", "%d elements want %d | %s", m.nbElements(), want, d)) return;
        // the newest layer, element by element (matched by place)
        double tol = 1e-10 * (off + h);
        std::multiset<std::string> got, exp;
        double H = 1e-5 * h, vol = 0;
        for (auto& e : r.els) {
            std::string s = e.type == ET_TRIANGLE ? "p" : "h";
            V3 b, t;
            for (int n : e.n) { b = b + pos[n]; t = t + pos[n] - nrm[n] * th[l]; }
            exp.insert(s + std::to_string(e.n.size()));
            (void)b; (void)t;
        }
        std::vector<std::vector<V3>> newest;
        for (int i = want - per; i < want; ++i) {
            CMshElement<D> e = m.element(m.elementId(i));
            std::vector<V3> p;
            for (int k = 0; k < e.nbNodeIds(); ++k) p.push_back(v3(m.node(e.nodeId(k))));
            int half = p.size() / 2;
            bool okType = (e.elementType() == ET_TRIANGULAR_PRISM && p.size() == 6) || (e.elementType() == ET_HEXAHEDRON && p.size() == 8);
            if (!expect(okType, "element-type", "type %d with %d nodes | %s", (int)e.elementType(), (int)p.size(), d)) return;
            got.insert((half == 3 ? "p" : "h") + std::to_string(half));
            double v = solidVolume(e.elementType(), p);
            expect(v > 0, "orientation", "volume %g | %s", v, d);
            vol += v;
            newest.push_back(p);
        }
        expect(got == exp, "element-kinds", "%s", d);
        // each surface element is the base of exactly one solid whose top is the displaced element
        std::vector<char> used(newest.size(), 0);
        for (auto& e : r.els) {
            int hit = -1;
            for (size_t i = 0; i < newest.size() && hit < 0; ++i) {
                if (used[i] || newest[i].size() != 2 * e.n.size()) continue;
                size_t n = e.n.size();
                for (size_t s = 0; s < n; ++s) { // any starting vertex, either end first
                    bool ok = true;
                    for (size_t k = 0; k < n && ok; ++k) {
                        V3 b = newest[i][k], t = newest[i][n + k];
                        int id = e.n[(k + s) % n];
                        ok = (b - pos[id]).norm() <= tol && (t - (pos[id] - nrm[id] * th[l])).norm() <= tol;
                    }
                    if (ok) { hit = i; break; }
                }
            }
            if (!expect(hit >= 0, "extruded-once", "surface element %d has no solid over it in layer %d | %s", e.id, l, d)) return;
            used[hit] = 1;
        }
        if (!curved) expectNear(vol, area * th[l], 1e-9 * (area * th[l] + off * h * h), "volume");
        for (auto& n : pos) n.second = n.second - nrm[n.first] * th[l];
        for (auto& n : pos) expect((v3(sm.node(n.first)) - n.second).norm() <= tol, "surface-moved", "node %d | %s", n.first, d);
        expect(sm.nbElements() == per && sm.nbNodes() == (int)pos.size(), "surface-kept", "%s", d);
        (void)H;
    }
    // after merging, the layers form one conforming body
    Mesh m = x.mesh();
    m.mergeNodes(1e-5 * h);
    int nodes = (int)pos.size() * (layers + 1);
    expect(m.nbNodes() == nodes, "merged-nodes", "%d nodes want %d | %s", m.nbNodes(), nodes, st().desc.c_str());
    std::map<std::vector<int>, int> f;
    double vol = 0, outer = 0;
    for (int i = 0; i < m.nbElements(); ++i) {
        CMshElement<D> e = m.element(m.elementId(i));
        std::vector<int> n;
        std::vector<V3> p;
        for (int k = 0; k < e.nbNodeIds(); ++k) { n.push_back(e.nodeId(k)); p.push_back(v3(m.node(e.nodeId(k)))); }
        vol += solidVolume(e.elementType(), p);
        for (auto& q : facesOf(e.elementType(), n)) { std::sort(q.begin(), q.end()); f[q]++; }
    }
    int edges = 0, inner = 0;
    std::map<std::pair<int, int>, int> se;
    for (auto& e : r.els) for (size_t k = 0; k < e.n.size(); ++k) { int a = e.n[k], b = e.n[(k + 1) % e.n.size()]; se[{ std::min(a, b), std::max(a, b) }]++; }
    for (auto& e : se) if (e.second == 1) ++edges;
    for (auto& q : f) { expect(q.second <= 2, "conforming", "face shared by %d | %s", q.second, st().desc.c_str()); inner += q.second == 2; }
    int b = (int)f.size() - inner;
    int wantB = 2 * (int)r.els.size() + edges * layers;
    expect(b == wantB, "boundary-faces", "%d want %d | %s", b, wantB, st().desc.c_str());
    (void)outer;
    if (!curved) { double t = 0; for (double q : th) t += q; expectNear(vol, area * t, 1e-9 * (area * t + off * h * h), "total-volume"); }
    count("layers", layers); count("solids", m.nbElements());
    nontrivial();
}
FAMILY(planar, 700, 14000) { run(R, false); }
FAMILY(curved, 300, 6000) { run(R, true); }
