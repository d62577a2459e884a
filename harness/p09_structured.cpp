// P09: structured meshes must tile the block: exact lattice of nodes, conforming elements of one orientation, measures that add up.
#include "meshes.hpp"
#include "MshBasicMesher.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::geometry;

static V3 lerp3(const std::vector<V3>& c, double u, double v, double w)
{
    if (c.size() == 2) return c[0] * (1 - u) + c[1] * u;
    V3 b = c[0] * ((1 - u) * (1 - v)) + c[1] * (u * (1 - v)) + c[2] * (u * v) + c[3] * ((1 - u) * v);
    if (c.size() == 4) return b;
    V3 t = c[4] * ((1 - u) * (1 - v)) + c[5] * (u * (1 - v)) + c[6] * (u * v) + c[7] * ((1 - u) * v);
    return b * (1 - w) + t * w;
}
static double len(const V3& a) { return a.norm(); }
// Everything about the result is compared with the block given by its corners c (2, 4 or 8 of them).
static void checkMesh(Mesh& m, const std::vector<V3>& c, int nu, int nv, int nw, bool simplices, bool reverse)
{
    int dim = c.size() == 2 ? 1 : c.size() == 4 ? 2 : 3;
    const char* d = st().desc.c_str();
    int nn = (nu + 1) * (dim > 1 ? nv + 1 : 1) * (dim > 2 ? nw + 1 : 1);
    int ne = nu * (dim > 1 ? nv : 1) * (dim > 2 ? nw : 1) * (simplices ? (dim == 2 ? 2 : dim == 3 ? 6 : 1) : 1);
    expect(m.nbNodes() == nn, "nodes", "%d nodes want %d | %s", m.nbNodes(), nn, d);
    if (!expect(m.nbElements() == ne, "elements", "%d elements want %d | %s", m.nbElements(), ne, d)) return;
    double scale = 0;
    for (auto& p : c) for (auto& q : c) scale = std::max(scale, len(p - q));
    double off = scale;
    for (auto& p : c) off = std::max(off, len(p));
    double tol = 1e-12 * off;
    // nodes are exactly the lattice, each once
    std::vector<V3> want;
    for (int k = 0; k <= (dim > 2 ? nw : 0); ++k) for (int j = 0; j <= (dim > 1 ? nv : 0); ++j) for (int i = 0; i <= nu; ++i)
        want.push_back(lerp3(c, nu ? double(i) / nu : 0, nv && dim > 1 ? double(j) / nv : 0, nw && dim > 2 ? double(k) / nw : 0));
    std::map<int, int> seen; // node id -> lattice point
    std::vector<char> hit(want.size(), 0);
    for (int i = 0; i < m.nbNodes(); ++i) {
        int id = m.nodeId(i);
        V3 p = v3(m.node(id));
        int best = -1;
        for (size_t k = 0; k < want.size(); ++k) if (len(want[k] - p) <= tol && !hit[k]) { best = k; break; }
        if (!expect(best >= 0, "node-place", "node %d at (%g %g %g) is not a free lattice point | %s", id, p.x, p.y, p.z, d)) return;
        hit[best] = 1; seen[id] = best;
    }
    // elements: right kind, known nodes, one orientation, conforming
    int type = dim == 1 ? ET_BEAM : dim == 2 ? (simplices ? ET_TRIANGLE : ET_QUADRILATERAL) : simplices ? ET_TETRAHEDRON : ET_HEXAHEDRON;
    double total = 0;
    std::map<std::vector<int>, std::vector<int>> faces; // sorted nodes -> signs of the traversals
    V3 nrm;
    if (dim == 2) nrm = areaVector(c).unit();
    for (int i = 0; i < m.nbElements(); ++i) {
        CMshElement<D> e = m.element(m.elementId(i));
        if (!expect(e.elementType() == type, "element-type", "%d want %d", (int)e.elementType(), type)) return;
        std::vector<int> n;
        std::vector<V3> p;
        for (int k = 0; k < e.nbNodeIds(); ++k) {
            n.push_back(e.nodeId(k));
            if (!expect(seen.count(n.back()) == 1, "element-node", "unknown node %d | %s", n.back(), d)) return;
            p.push_back(want[seen[n.back()]]);
        }
        double v;
        if (dim == 1) v = (p[1] - p[0]).dot((c[1] - c[0]).unit());
        else if (dim == 2) v = areaVector(p).dot(nrm);
        else v = -solidVolume(type, p); // positive when vertex 3 (4..7) lies on the positive side
        if (reverse) v = -v;
        expect(v > 1e-9 * std::pow(scale, dim) / ne, "orientation", "element %d has measure %g | %s", i, v, d);
        total += v;
        for (auto& f : facesOf(type, n)) {
            std::vector<int> s(f);
            std::sort(s.begin(), s.end());
            int sg = 0;
            if (dim == 2) sg = f[0] < f[1] ? 1 : -1;
            faces[s].push_back(sg);
        }
    }
    double measure = dim == 1 ? len(c[1] - c[0]) : dim == 2 ? areaVector(c).norm() : std::fabs(solidVolume(ET_HEXAHEDRON, c));
    expectNear(total, measure, 1e-10 * std::pow(off, dim), "total-measure");
    double outer = 0, outerWant = 0;
    int nb = 0;
    std::vector<std::vector<int>> bf;
    for (auto& f : faces) {
        expect(f.second.size() <= 2, "conforming", "a face is shared by %d elements | %s", (int)f.second.size(), d);
        if (dim == 2 && f.second.size() == 2) expect(f.second[0] + f.second[1] == 0, "face-opposed", "two triangles traverse an edge the same way | %s", d);
        if (f.second.size() == 1) {
            ++nb;
            std::vector<V3> p;
            std::vector<int> o = f.first;
            for (int id : o) p.push_back(want[seen[id]]);
            if (dim == 2) outer += len(p[1] - p[0]);
            if (dim == 3) { // sorted order may cross a quadrilateral: area as half the largest cross product of the three pairings
                if (p.size() == 3) outer += areaVector(p).norm();
                else {
                    double a = 0;
                    int q[3][4] = { { 0, 1, 2, 3 }, { 0, 2, 1, 3 }, { 0, 1, 3, 2 } };
                    for (auto& x : q) a = std::max(a, areaVector({ p[x[0]], p[x[1]], p[x[2]], p[x[3]] }).norm());
                    outer += a;
                }
            }
        }
    }
    if (dim == 1) expect(nb == (nu ? 2 : 0), "boundary", "%d ends | %s", nb, d);
    if (dim == 2 && ne) { for (int i = 0; i < 4; ++i) outerWant += len(c[i] - c[(i + 1) % 4]); expectNear(outer, outerWant, 1e-10 * off, "boundary"); }
    if (dim == 3 && ne) { for (auto& f : facesOf(ET_HEXAHEDRON, { 0, 1, 2, 3, 4, 5, 6, 7 })) { std::vector<V3> p; for (int i : f) p.push_back(c[i]); outerWant += areaVector(p).norm(); } expectNear(outer, outerWant, 1e-10 * off * off, "boundary"); }
    count("elements", ne);
    // the library's own derived quantities of the mesh must agree
    if (ne && dim == 3) {
        m.generateFaces(1e-9 * scale);
        expect(m.nbBoundaryFaces() == nb, "library-boundary", "%d boundary faces want %d | %s", m.nbBoundaryFaces(), nb, d);
    }
    if (ne) nontrivial();
}
static int divs(Rng& R, int mx) { return R.flip(0.2) ? 1 : R.ri(1, mx); }

FAMILY(line, 400, 8000)
{
    Rigid g = R.flip(0.2) ? identity() : randomRigid(R, 20, true);
    std::vector<V3> c = { g(V3()), g(V3(R.uni(0.1, 5), 0, 0)) };
    int nu = divs(R, 60);
    describe(fmt("line of %d divisions, length %g", nu, len(c[1] - c[0])));
    sig(nu); sigd(c[1].x);
    CGeoLine<D> l(as<CGeoCoordinate<D>>(c[0]), as<CGeoCoordinate<D>>(c[1]));
    CMshBasicMesher<D> b;
    for (int rep = 0; rep < 1 + R.flip(0.3); ++rep) {
        expect(b.generate(l, nu), "success", "%s", st().desc.c_str());
        checkMesh(b.mesh(), c, nu, 0, 0, false, false);
        expectNear(b.mesh().dx(), len(c[1] - c[0]) / nu, 1e-12 * len(c[1] - c[0]), "dx");
    }
}
static std::vector<V3> quadCorners(Rng& R, bool affine, const Rigid& g)
{
    double a = R.uni(0.2, 3), b = R.uni(0.2, 3), s = R.uni(-0.4, 0.4);
    std::vector<V3> c = { V3(0, 0, 0), V3(a, 0, 0), V3(a + s * b, b, 0), V3(s * b, b, 0) };
    if (R.flip(0.3)) { c[2].x = c[1].x; c[3].x = 0; }
    if (!affine) for (auto& p : c) { p.x += R.uni(-0.15, 0.15) * a; p.y += R.uni(-0.15, 0.15) * b; }
    for (auto& p : c) p = g(p);
    return c;
}
FAMILY(quad, 900, 18000)
{
    Rigid g = R.flip(0.2) ? identity() : randomRigid(R, 20, true);
    bool affine = R.flip(0.5);
    std::vector<V3> c = quadCorners(R, affine, g);
    if (R.flip(0.3)) { std::swap(c[1], c[3]); }
    CMshBasicMesher<D> b;
    int reps = R.flip(0.3) ? 3 : 1;
    for (int rep = 0; rep < reps; ++rep) {
        int nu = divs(R, 14), nv = divs(R, 14);
        bool tri = R.flip();
        describe(fmt("%s %dx%d%s, scale %g, generation %d", affine ? "parallelogram" : "quadrilateral", nu, nv, tri ? " triangles" : "", g.s, rep));
        sig(nu * 100 + nv); sigd(c[1].x);
        CGeoQuadrilateral<D> q;
        for (auto& p : c) q.addVertex(as<CGeoCoordinate<D>>(p));
        expect(b.generate(q, nu, nv, tri), "success", "%s", st().desc.c_str());
        checkMesh(b.mesh(), c, nu, nv, 0, tri, false);
        expectNear(b.mesh().dx(), len(c[1] - c[0]) / nu, 1e-11 * len(c[1] - c[0]), "dx");
        expectNear(b.mesh().dy(), len(c[3] - c[0]) / nv, 1e-11 * len(c[3] - c[0]), "dy");
        for (auto& p : c) p = p + V3(1, 2, 3) * g.s;
    }
}
FAMILY(hexa, 500, 10000)
{
    Rigid g = R.flip(0.2) ? identity() : randomRigid(R, 20, true);
    bool affine = R.flip(0.6), flip = R.flip(0.4);
    double a = R.uni(0.3, 2), b = R.uni(0.3, 2), h = R.uni(0.3, 2), s1 = R.flip() ? 0 : R.uni(-0.3, 0.3), s2 = R.flip() ? 0 : R.uni(-0.3, 0.3), s3 = R.flip() ? 0 : R.uni(-0.3, 0.3);
    double t = affine ? 1 : R.uni(0.6, 1.3); // frustum
    std::vector<V3> c;
    for (int k = 0; k < 2; ++k) {
        double x[4] = { 0, 1, 1, 0 }, y[4] = { 0, 0, 1, 1 };
        for (int i = 0; i < 4; ++i) {
            double f = k ? t : 1;
            V3 p((x[i] - 0.5) * f * a, (y[i] - 0.5) * f * b, k * h);
            p = V3(p.x + s1 * p.y + s2 * p.z, p.y + s3 * p.z, flip ? -p.z : p.z);
            c.push_back(g(p));
        }
    }
    CMshBasicMesher<D> bm;
    int reps = R.flip(0.3) ? 2 : 1;
    for (int rep = 0; rep < reps; ++rep) {
        int nu = divs(R, 5), nv = divs(R, 5), nw = divs(R, 5);
        bool tet = R.flip();
        describe(fmt("%s %dx%dx%d%s%s, scale %g, generation %d", affine ? "parallelepiped" : "frustum", nu, nv, nw, tet ? " tetrahedra" : "", flip ? " downwards" : "", g.s, rep));
        sig(nu * 10000 + nv * 100 + nw); sigd(c[6].x);
        CGeoHexahedron<D> q;
        for (auto& p : c) q.addVertex(as<CGeoCoordinate<D>>(p));
        expect(bm.generate(q, nu, nv, nw, tet), "success", "%s", st().desc.c_str());
        checkMesh(bm.mesh(), c, nu, nv, nw, tet, flip);
        expectNear(bm.mesh().dx(), len(c[1] - c[0]) / nu, 1e-11 * len(c[1] - c[0]), "dx");
        expectNear(bm.mesh().dy(), len(c[3] - c[0]) / nv, 1e-11 * len(c[3] - c[0]), "dy");
        expectNear(bm.mesh().dz(), len(c[4] - c[0]) / nw, 1e-11 * len(c[4] - c[0]), "dz");
        for (auto& p : c) p = p + V3(1, 2, 3) * g.s;
    }
}
FAMILY(box, 300, 6000)
{
    double sc = std::exp(R.uni(-3, 3));
    V3 o = inBox(R, 10 * sc);
    int n[3] = { R.ri(1, 5), R.ri(1, 5), R.ri(1, 5) };
    double h = sc * R.uni(0.1, 1);
    V3 e(h * (n[0] + R.uni(0.01, 0.99)), h * (n[1] + R.uni(0.01, 0.99)), h * (n[2] + R.uni(0.01, 0.99)));
    bool tet = R.flip();
    CGeoBoundingBox<D> bb(o.x, o.y, o.z, o.x + e.x, o.y + e.y, o.z + e.z);
    describe(fmt("box %dx%dx%d cells of %g%s", n[0], n[1], n[2], h, tet ? " tetrahedra" : ""));
    sig(n[0] * 100 + n[1] * 10 + n[2]); sigd(h);
    CMshBasicMesher<D> bm;
    expect(bm.generate(bb, h, tet), "success", "%s", st().desc.c_str());
    std::vector<V3> c;
    for (int k = 0; k < 2; ++k) {
        double x[4] = { 0, 1, 1, 0 }, y[4] = { 0, 0, 1, 1 };
        for (int i = 0; i < 4; ++i) c.push_back(o + V3(x[i] * n[0] * h, y[i] * n[1] * h, k * n[2] * h));
    }
    checkMesh(bm.mesh(), c, n[0], n[1], n[2], tet, false);
    expectNear(bm.mesh().dx(), h, 1e-12 * h, "dx");
}
