// P15: assembled finite difference, finite element and finite volume operators and the equations built from them.
#pragma once
#include "meshes.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "CmnTypes.hpp"
#include "MshBasicMesher.hpp"
#include "PdeEquation.hpp"
#include "PdeField.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::pde;
using namespace ENigMA::sle;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef CPdeField<D> Field;

static inline const char* NM(int t)
{
    switch (t) { case ET_BEAM: return "beam"; case ET_TRIANGLE: return "triangle"; case ET_QUADRILATERAL: return "quadrilateral"; case ET_TETRAHEDRON: return "tetrahedron"; case ET_TRIANGULAR_PRISM: return "prism"; default: return "hexahedron"; }
}
static inline double measure(const Raw& r)
{
    double s = 0;
    for (auto& e : r.els) {
        std::vector<V3> p;
        for (int n : e.n) p.push_back(r.nodes.at(n));
        s += e.type == ET_BEAM ? (p[1] - p[0]).norm() : r.dim == 2 ? areaVector(p).norm() : std::fabs(solidVolume(e.type, p));
    }
    return s;
}
static inline std::set<int> boundary(const Raw& r)
{
    std::map<std::vector<int>, int> c;
    for (auto& e : r.els) for (auto f : facesOf(e.type, e.n)) { std::sort(f.begin(), f.end()); ++c[f]; }
    std::set<int> b;
    for (auto& x : c) if (x.second == 1) for (int n : x.first) b.insert(n);
    return b;
}
static inline Field field(Mesh& m, EDiscretMethod meth, ESimulationType st, int dofs = 1)
{
    Field f;
    f.setMesh(m);
    f.setDiscretMethod(meth);
    f.setDiscretOrder(DO_LINEAR);
    f.setDiscretLocation(meth == DM_FVM ? DL_ELEMENT_CENTER : DL_NODE);
    f.setSimulationType(st);
    f.setNbDofs(dofs);
    f.init();
    f.u.setZero();
    return f;
}
struct Lin { V3 g; double c; double operator()(const V3& p) const { return g.dot(p) + c; } };
static inline Lin randomLin(Rng& R) { return { inBox(R, 2), R.uni(-2, 2) }; }
static inline Vec sample(const Mesh& m, const Lin& l)
{
    Vec u(m.nbNodes());
    for (int i = 0; i < m.nbNodes(); ++i) u(i) = l(v3(m.node(m.nodeId(i))));
    return u;
}
static inline Raw build(Rng& R, int type, double amp, bool rot, double& h)
{
    bool line = type == ET_BEAM, flat = type == ET_TRIANGLE || type == ET_QUADRILATERAL;
    int nx = line ? R.ri(2, 25) : flat ? R.ri(1, 6) : R.ri(1, 4), ny = flat ? R.ri(1, 6) : R.ri(1, 3), nz = R.ri(1, 3);
    Raw r = grid(type, nx, ny, nz);
    h = 1.0 / std::max(nx, line ? 1 : std::max(ny, flat ? 1 : nz));
    distort(R, r, amp * h);
    Rigid g = rot ? randomRigid(R, 2) : identity();
    g.s = std::exp(R.uni(-1, 1));
    if (!rot) { Rigid z = rotation(V3(0, 0, 1), R.uni(0, 6.28)); z.s = g.s; z.t = V3(R.uni(-2, 2), R.uni(-2, 2), 0); g = z; }
    move(r, g);
    h *= g.s;
    return r;
}
// The finite element hexahedron counts its corners row by row, meshes count them around (see known_findings.txt).
static inline Raw feOrder(Raw r)
{
    for (auto& e : r.els) if (e.type == ET_HEXAHEDRON) { std::swap(e.n[2], e.n[3]); std::swap(e.n[6], e.n[7]); }
    return r;
}
static inline std::string S(const char* a, int t) { return std::string(a) + "." + NM(t); }

