// Independent conforming meshes and mesh monitors.
#pragma once
#include "gen.hpp"
#include "MshMesh.hpp"
namespace meshes {
using namespace gen;
using ENigMA::mesh::CMshElement;
using ENigMA::mesh::CMshFace;
using ENigMA::mesh::CMshMesh;
using ENigMA::mesh::CMshNode;
using ENigMA::mesh::EElementType;
typedef double D;
typedef CMshMesh<D> Mesh;
struct El { int id; int type; std::vector<int> n; };
struct Raw { // plain mesh with the identifiers it will get
    std::map<int, V3> nodes;
    std::vector<int> nodeOrder;
    std::vector<El> els;
    int dim = 3;
};
inline int id3(int i, int j, int k, int nx, int ny) { return (k * (ny + 1) + j) * (nx + 1) + i; }
// Library convention: vertices 4..7 (3..5, 3) lie on the negative side of the first face's normal, so that its faces point outwards.
inline Raw grid(int type, int nx, int ny, int nz)
{
    using namespace ENigMA::mesh;
    Raw r;
    bool flat = type == ET_TRIANGLE || type == ET_QUADRILATERAL, line = type == ET_BEAM;
    r.dim = line ? 1 : flat ? 2 : 3;
    if (line) ny = 0;
    if (flat || line) nz = 0;
    for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
        int id = id3(i, j, k, nx, ny);
        r.nodes[id] = V3(double(i) / nx, ny ? double(j) / ny : 0, nz ? -double(k) / nz : 0);
        r.nodeOrder.push_back(id);
    }
    auto add = [&](std::vector<int> n) { r.els.push_back({ (int)r.els.size(), type, n }); };
    for (int k = 0; k < std::max(1, nz); ++k) for (int j = 0; j < std::max(1, ny); ++j) for (int i = 0; i < nx; ++i) {
        auto N = [&](int a, int b, int c) { return id3(i + a, j + b, k + c, nx, ny); };
        if (line) { add({ N(0, 0, 0), N(1, 0, 0) }); continue; }
        int q[8] = { N(0, 0, 0), N(1, 0, 0), N(1, 1, 0), N(0, 1, 0), 0, 0, 0, 0 };
        if (!flat) { q[4] = N(0, 0, 1); q[5] = N(1, 0, 1); q[6] = N(1, 1, 1); q[7] = N(0, 1, 1); }
        switch (type) {
        case ET_TRIANGLE: add({ q[0], q[1], q[2] }); add({ q[0], q[2], q[3] }); break;
        case ET_QUADRILATERAL: add({ q[0], q[1], q[2], q[3] }); break;
        case ET_HEXAHEDRON: add({ q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7] }); break;
        case ET_TRIANGULAR_PRISM: add({ q[0], q[1], q[2], q[4], q[5], q[6] }); add({ q[0], q[2], q[3], q[4], q[6], q[7] }); break;
        case ET_TETRAHEDRON: { // six tetrahedra around the diagonal 0-6
            int t[6][2] = { { 1, 2 }, { 2, 3 }, { 3, 7 }, { 7, 4 }, { 4, 5 }, { 5, 1 } };
            for (auto& p : t) {
                // the fourth vertex must lie on the negative side of the first face
                V3 a = r.nodes[q[0]], b = r.nodes[q[p[0]]], c = r.nodes[q[p[1]]], d = r.nodes[q[6]];
                if ((b - a).cross(c - a).dot(d - a) < 0) add({ q[0], q[p[0]], q[p[1]], q[6] }); else add({ q[0], q[p[1]], q[p[0]], q[6] });
            }
            break; }
        }
    }
    return r;
}
// Perturb inner nodes a little, move the whole thing, give nodes and elements arbitrary identifiers in arbitrary order.
inline void distort(Rng& R, Raw& r, double amp)
{
    std::set<double> xs;
    for (auto& n : r.nodes) {
        V3& p = n.second;
        auto in = [](double v) { return v > 1e-9 && v < 1 - 1e-9; };
        double a = amp;
        if (in(p.x)) p.x += R.uni(-a, a);
        if (r.dim > 1 && in(p.y)) p.y += R.uni(-a, a);
        if (r.dim > 2 && in(-p.z)) p.z += R.uni(-a, a);
    }
}
inline void move(Raw& r, const Rigid& g) { for (auto& n : r.nodes) n.second = g(n.second); }
inline void renumber(Rng& R, Raw& r, int spread)
{
    std::vector<int> ids, eids;
    std::set<int> u;
    while (u.size() < r.nodes.size()) u.insert(R.ri(0, spread * (int)r.nodes.size()));
    ids.assign(u.begin(), u.end()); R.shuffle(ids);
    u.clear();
    while (u.size() < r.els.size()) u.insert(R.ri(0, spread * (int)r.els.size()));
    eids.assign(u.begin(), u.end()); R.shuffle(eids);
    std::map<int, int> m;
    std::map<int, V3> nn;
    size_t k = 0;
    for (auto& n : r.nodes) { m[n.first] = ids[k]; nn[ids[k]] = n.second; ++k; }
    r.nodes = nn;
    for (int& n : r.nodeOrder) n = m[n];
    R.shuffle(r.nodeOrder);
    for (size_t i = 0; i < r.els.size(); ++i) { r.els[i].id = eids[i]; for (int& n : r.els[i].n) n = m[n]; }
    R.shuffle(r.els);
}
inline void fill(Mesh& m, const Raw& r)
{
    for (int id : r.nodeOrder) m.addNode(id, as<CMshNode<D>>(r.nodes.at(id)));
    for (auto& e : r.els) {
        CMshElement<D> g((EElementType)e.type);
        for (int n : e.n) g.addNodeId(n);
        m.addElement(e.id, g);
    }
}
inline std::vector<std::vector<int>> facesOf(int type, const std::vector<int>& n)
{
    using namespace ENigMA::mesh;
    auto F = [&](std::vector<std::vector<int>> f) { for (auto& x : f) for (int& i : x) i = n[i]; return f; };
    switch (type) {
    case ET_BEAM: return F({ { 0 }, { 1 } });
    case ET_TRIANGLE: return F({ { 0, 1 }, { 1, 2 }, { 2, 0 } });
    case ET_QUADRILATERAL: return F({ { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } });
    case ET_TETRAHEDRON: return F({ { 0, 1, 2 }, { 0, 1, 3 }, { 1, 2, 3 }, { 2, 0, 3 } });
    case ET_TRIANGULAR_PRISM: return F({ { 0, 1, 2 }, { 3, 4, 5 }, { 0, 1, 4, 3 }, { 1, 2, 5, 4 }, { 2, 0, 3, 5 } });
    default: return F({ { 0, 1, 2, 3 }, { 4, 5, 6, 7 }, { 0, 1, 5, 4 }, { 1, 2, 6, 5 }, { 2, 3, 7, 6 }, { 3, 0, 4, 7 } });
    }
}
// Signed measure in the library's orientation (positive when vertex 3.. is on the negative side of the first face), by tetrahedra from the centroid to each face.
inline double tet6(const V3& a, const V3& b, const V3& c, const V3& d) { return (b - a).cross(c - a).dot(d - a) / 6; }
inline double solidVolume(int type, const std::vector<V3>& p)
{
    using namespace ENigMA::mesh;
    std::vector<int> n;
    for (size_t i = 0; i < p.size(); ++i) n.push_back(i);
    std::vector<std::vector<int>> f;
    if (type == ET_TETRAHEDRON) f = { { 0, 1, 2 }, { 1, 3, 2 }, { 0, 3, 1 }, { 0, 2, 3 } };
    if (type == ET_TRIANGULAR_PRISM) f = { { 0, 1, 2 }, { 5, 4, 3 }, { 1, 0, 3, 4 }, { 2, 1, 4, 5 }, { 0, 2, 5, 3 } };
    if (type == ET_HEXAHEDRON) f = { { 0, 1, 2, 3 }, { 7, 6, 5, 4 }, { 1, 0, 4, 5 }, { 2, 1, 5, 6 }, { 3, 2, 6, 7 }, { 0, 3, 7, 4 } };
    double v = 0;
    V3 o = p[0];
    for (auto& x : f) {
        V3 c;
        for (int i : x) c = c + p[i];
        c = c * (1.0 / x.size());
        for (size_t i = 0; i < x.size(); ++i) v += tet6(o, p[x[i]], p[x[(i + 1) % x.size()]], c);
    }
    return v;
}
inline V3 areaVector(const std::vector<V3>& p)
{
    V3 a;
    for (size_t i = 1; i + 1 < p.size(); ++i) a = a + (p[i] - p[0]).cross(p[i + 1] - p[0]) * 0.5;
    return a;
}
}
