// Shared by the finite volume flow harnesses: boxes of cells with known walls, and an independent reading of the geometry.
#pragma once
#include "meshes.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "GeoHashGrid.hpp"
#include "FvmMesh.hpp"
#include "FvmPisoSolver.hpp"
namespace flow {
using namespace mon;
using namespace meshes;
using namespace ENigMA::mesh;
using namespace ENigMA::fvm;
typedef CFvmMesh<D> Fvm;
struct Box { // cells of a box [0,a]x[0,b]x[-c,0] before the rigid motion g
    Raw r;
    std::map<int, V3> ref; // node positions before the motion, by node id
    int type, n[3];
    double size[3];
};
inline Box box(Rng& R, int type, int nx, int ny, int nz, bool graded)
{
    Box b;
    b.type = type; b.n[0] = nx; b.n[1] = ny; b.n[2] = nz;
    b.r = grid(type, nx, ny, nz);
    std::vector<double> w[3];
    for (int d = 0; d < 3; ++d) {
        w[d].push_back(0);
        for (int i = 0; i < b.n[d]; ++i) w[d].push_back(w[d].back() + (graded ? R.uni(0.6, 1.4) : 1.0) / std::max({ nx, ny, nz }));
        b.size[d] = w[d].back();
    }
    for (auto& q : b.r.nodes) {
        V3& p = q.second;
        p = V3(w[0][(int)std::lround(p.x * nx)], w[1][(int)std::lround(p.y * ny)], -w[2][(int)std::lround(-p.z * nz)]);
    }
    b.ref = b.r.nodes;
    return b;
}
// Geometry of the cells, computed from the nodes alone.
struct Face { V3 A, c; int own, nei; int wall; std::vector<int> nodes; }; // A points out of own
struct Geo {
    std::vector<int> ids; // element identifiers
    std::map<int, int> at;
    std::vector<double> vol;
    std::vector<V3> cen;
    std::vector<Face> faces;
    std::vector<std::vector<int>> of;
};
inline V3 mean(const std::vector<V3>& p) { V3 c; for (auto& x : p) c = c + x; return c * (1.0 / p.size()); }
// wallOf: which of the six box sides a set of reference points lies on, -1 for none
inline int wallOf(const Box& b, const std::vector<V3>& p)
{
    for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
        double v = s ? (d == 2 ? -b.size[2] : b.size[d]) : 0;
        bool on = true;
        for (auto& x : p) on = on && std::fabs((d == 0 ? x.x : d == 1 ? x.y : x.z) - v) < 1e-9;
        if (on) return 2 * d + s;
    }
    return -1;
}
inline Geo geometry(const Box& b)
{
    Geo g;
    std::map<std::set<int>, int> idx;
    for (auto& e : b.r.els) {
        int k = g.ids.size();
        g.at[e.id] = k; g.ids.push_back(e.id);
        std::vector<V3> p;
        for (int n : e.n) p.push_back(b.r.nodes.at(n));
        g.vol.push_back(std::fabs(solidVolume(e.type, p)));
        V3 cc; g.of.push_back({});
        auto fs = facesOf(e.type, e.n);
        V3 mid = mean(p);
        for (auto& f : fs) {
            std::vector<V3> q, rq;
            for (int n : f) { q.push_back(b.r.nodes.at(n)); rq.push_back(b.ref.at(n)); }
            std::set<int> s(f.begin(), f.end());
            cc = cc + mean(q);
            if (idx.count(s)) { g.faces[idx[s]].nei = k; g.of[k].push_back(idx[s]); continue; }
            Face F; F.A = areaVector(q); F.c = mean(q); F.own = k; F.nei = -1; F.wall = wallOf(b, rq); F.nodes = f;
            if (F.A.dot(F.c - mid) < 0) F.A = F.A * -1;
            idx[s] = g.faces.size(); g.of[k].push_back(idx[s]); g.faces.push_back(F);
        }
        g.cen.push_back(cc * (1.0 / fs.size()));
    }
    return g;
}
inline void renumberBox(Rng& R, Box& b, int spread)
{
    std::map<int, V3> pos = b.r.nodes, ref = b.ref;
    renumber(R, b.r, spread);
    // renumber keeps positions: match them back to the reference positions
    std::map<std::array<double, 3>, V3> m;
    for (auto& q : pos) m[{ q.second.x, q.second.y, q.second.z }] = ref[q.first];
    b.ref.clear();
    for (auto& q : b.r.nodes) b.ref[q.first] = m[{ q.second.x, q.second.y, q.second.z }];
}
// library face id of every geometric face, and whether the library's owner is ours
inline std::vector<std::pair<int, int>> match(Fvm& f, const Geo& g, double h)
{
    std::map<std::array<long long, 3>, int> m;
    auto key = [&](const V3& p) { return std::array<long long, 3>{ std::llround(p.x / h), std::llround(p.y / h), std::llround(p.z / h) }; };
    for (int i = 0; i < f.nbFaces(); ++i) {
        auto& F = f.face(f.faceId(i));
        F.calculateCentroid();
        V3 c = v3(F.centroid());
        for (int d = 0; d < 8; ++d) m[key(c + V3(d & 1 ? h * 0.5 : -h * 0.5, d & 2 ? h * 0.5 : -h * 0.5, d & 4 ? h * 0.5 : -h * 0.5))] = f.faceId(i);
    }
    std::vector<std::pair<int, int>> r;
    for (auto& F : g.faces) {
        int id = -1;
        for (int d = 0; d < 8 && id < 0; ++d) { auto it = m.find(key(F.c + V3(d & 1 ? h * 0.5 : -h * 0.5, d & 2 ? h * 0.5 : -h * 0.5, d & 4 ? h * 0.5 : -h * 0.5))); if (it != m.end()) id = it->second; }
        if (id < 0) { r.push_back({ -1, 0 }); continue; }
        r.push_back({ id, f.face(id).controlVolumeId() == g.ids[F.own] ? 1 : -1 });
    }
    return r;
}
}
