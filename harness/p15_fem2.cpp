#define MON_NO_MAIN
#include "p15_common.hpp"
// Elastic patch test: linear displacements on the boundary give the linear displacement inside.
FAMILY_CPU(elasticPatch, 300, 8000, 40)
{
    int type = R.flip() ? ET_TRIANGLE : ET_TETRAHEDRON;
    double h;
    Raw r = build(R, type, 0.2, type == ET_TETRAHEDRON, h);
    int dofs = type == ET_TRIANGLE ? 2 : 3;
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 5));
    Mesh m;
    fill(m, r);
    std::set<int> b = boundary(r);
    Field U = field(m, DM_FEM, ST_STRUCTURAL, dofs);
    ENigMA::material::CMatMaterial<D> mat;
    mat.addProperty(ENigMA::material::PT_ELASTIC_MODULUS, std::exp(R.uni(-2, 5)));
    mat.addProperty(ENigMA::material::PT_POISSON_COEFFICIENT, R.uni(0, 0.45));
    U.setMaterial(mat);
    Lin l[3] = { randomLin(R), randomLin(R), randomLin(R) };
    int n = m.nbNodes();
    describe(fmt("elastic %s nodes %d", NM(type), n));
    sig(type); sig(n); sigd(h);
    CSleSystem<D> K = laplacian<D>(U);
    Mat KM = K.matrixA;
    if (!expect(KM.rows() == n * dofs && KM.allFinite(), S("elastic.shape", type).c_str(), "shape")) return;
    double s = KM.cwiseAbs().maxCoeff();
    expect((KM - KM.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * s, S("elastic.symmetric", type).c_str(), "not symmetric");
    Vec u(n * dofs), rigid(n * dofs);
    V3 om = dofs == 2 ? V3(0, 0, R.uni(-1, 1)) : inBox(R), tr = inBox(R);
    for (int i = 0; i < n; ++i) {
        V3 p = v3(m.node(m.nodeId(i))), w = om.cross(p) + tr;
        double a[3] = { w.x, w.y, w.z };
        for (int d = 0; d < dofs; ++d) { u(i * dofs + d) = l[d](p); rigid(i * dofs + d) = a[d]; }
    }
    expect((KM * rigid).cwiseAbs().maxCoeff() <= 1e-9 * s * (1 + rigid.cwiseAbs().maxCoeff()), S("elastic.rigid", type).c_str(), "a rigid motion needs forces");
    bool inner = false;
    for (int i = 0; i < n; ++i) {
        if (b.count(m.nodeId(i))) for (int d = 0; d < dofs; ++d) U.setFixedValue(i, d, u(i * dofs + d));
        else inner = true;
    }
    if (!inner) { nontrivial(); return; }
    CPdeEquation<D> eq(K);
    eq.setElimination(U);
    eq.solve(U);
    expect(U.u.size() == n * dofs && U.u.allFinite() && (U.u - u).cwiseAbs().maxCoeff() <= 1e-6 * (1 + u.cwiseAbs().maxCoeff()), S("elastic.patch", type).c_str(), "patch test fails by %g", U.u.size() == u.size() ? (U.u - u).cwiseAbs().maxCoeff() : -1);
    nontrivial();
}
// Flow operators on whole meshes: constants convect nowhere, the weak gradient sums to the gradient of the body.
FAMILY_CPU(femFlow, 400, 10000, 40)
{
    int type = R.flip() ? ET_TRIANGLE : ET_TETRAHEDRON;
    double h;
    Raw r = build(R, type, 0.2, type == ET_TETRAHEDRON, h);
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 5));
    Mesh m;
    fill(m, r);
    int n = m.nbNodes();
    ENigMA::material::CMatMaterial<D> mat;
    mat.addProperty(ENigMA::material::PT_DENSITY, 1.0);
    mat.addProperty(ENigMA::material::PT_VISCOSITY, 0.1);
    Field F[3];
    for (auto& f : F) { f = field(m, DM_FEM, ST_FLOW); f.setMaterial(mat); }
    V3 c = inBox(R);
    for (int i = 0; i < n; ++i) { F[0].u(i) = c.x; F[1].u(i) = c.y; F[2].u(i) = c.z; }
    if (type == ET_TRIANGLE) c.z = 0;
    double dt = 0.01, meas = measure(r);
    describe(fmt("flow %s nodes %d", NM(type), n));
    sig(type); sig(n); sigd(h);
    CSleSystem<D> C = type == ET_TRIANGLE ? divergence<D>(F[0], F[1], dt) : divergence<D>(F[0], F[1], F[2], dt);
    Lin l = randomLin(R);
    Vec u = sample(m, l);
    Mat CM = C.matrixA;
    if (!expect(CM.rows() == n && CM.allFinite(), S("flow.shape", type).c_str(), "shape")) return;
    double s = CM.cwiseAbs().maxCoeff() + 1e-12;
    expect((CM * Vec::Ones(n)).cwiseAbs().maxCoeff() <= 1e-9 * s, S("flow.constant", type).c_str(), "a constant is convected");
    expectNear((CM * u).sum(), c.dot(l.g) * meas, 1e-9 * (1 + s) * (1 + u.cwiseAbs().maxCoeff()) * n, S("flow.convection", type).c_str(), "total of the convected linear field");
    double gg[3] = { l.g.x, l.g.y, l.g.z };
    for (int k = 0; k < (type == ET_TRIANGLE ? 2 : 3); ++k) {
        CSleSystem<D> G = gradient<D>(F[0], (EComponent)k);
        Mat GM = G.matrixA;
        double gs = GM.cwiseAbs().maxCoeff();
        expect((GM * Vec::Ones(n)).cwiseAbs().maxCoeff() <= 1e-9 * gs, S("flow.gradient.constant", type).c_str(), "constant has a gradient");
        Vec gu = GM * u;
        Mat MM = ddt<D>(F[0]).matrixA; // lumped capacity times the gradient
        Vec want = gg[k] * (MM * Vec::Ones(n));
        if (k == 0) { expectNear(MM.sum(), meas, 1e-9 * meas, S("flow.ddt.total", type).c_str(), "capacity"); Vec b = ddt<D>(F[0]).vectorB; expect((b - MM * F[0].u).norm() <= 1e-10 * (1 + meas), S("flow.ddt.rhs", type).c_str(), "right hand side"); }
        expect((gu - want).cwiseAbs().maxCoeff() <= 1e-9 * gs * (1 + u.cwiseAbs().maxCoeff()), S("flow.gradient.linear", type).c_str(), "gradient of a linear field off by %g", (gu - want).cwiseAbs().maxCoeff());
    }
    nontrivial();
}

//---------------------------------------------------------------- exchange with the surroundings and transport along lines
FAMILY(femExchange, 500, 20000)
{ // the thermal laplacian with heat exchange on element edges against the one without
    int type = R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE });
    double h;
    Raw r = build(R, type, 0.15, true, h);
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 5));
    Mesh m;
    fill(m, r);
    Field T = field(m, DM_FEM, ST_THERMAL), U = field(m, DM_FEM, ST_THERMAL);
    int n = m.nbNodes(), added = 0;
    CSleSystem<D> a = laplacian<D>(T);
    Mat want = Mat::Zero(n, n);
    Vec heat = Vec::Zero(n);
    bool one = R.flip(0.3); // one ambient temperature for the whole body
    double Tone = R.uni(-5, 5);
    for (auto& e : r.els) {
        int ne = type == ET_BEAM ? 1 : 3;
        for (int i = 0; i < ne; ++i) {
            if (R.flip(0.5)) continue;
            if (R.flip(0.15)) { // some other condition: no exchange
                CPdeBoundaryCondition<D> c(BT_GENERIC_FIXED_VALUE);
                c.addCondition(CT_HEAT_TRANSFER_COEFFICIENT, 3.0);
                c.addCondition(CT_HEAT_INFINITESIMAL_TEMPERATURE, 2.0);
                U.addBCElement(e.id, i, c);
                continue;
            }
            double k = std::exp(R.uni(-2, 2)), Ti = one ? Tone : R.uni(-5, 5);
            CPdeBoundaryCondition<D> c(BT_HEAT_CONVECTIVE);
            c.addCondition(CT_HEAT_TRANSFER_COEFFICIENT, k);
            c.addCondition(CT_HEAT_INFINITESIMAL_TEMPERATURE, Ti);
            U.addBCElement(e.id, i, c);
            int p = m.nodeIndex(e.n[i]), q = m.nodeIndex(e.n[(i + 1) % e.n.size()]);
            double L = (r.nodes.at(e.n[i]) - r.nodes.at(e.n[(i + 1) % e.n.size()])).norm();
            want(p, p) += k * L / 3; want(q, q) += k * L / 3; want(p, q) += k * L / 6; want(q, p) += k * L / 6;
            heat(p) += k * L * Ti / 2; heat(q) += k * L * Ti / 2;
            ++added;
        }
    }
    CSleSystem<D> b = laplacian<D>(U);
    describe(fmt("exchange %s nodes %d edges %d", NM(type), n, added));
    sig(type); sig(n); sigd(h); sig(added);
    Mat H = Mat(b.matrixA) - Mat(a.matrixA);
    Vec q = b.vectorB - a.vectorB;
    double s = Mat(a.matrixA).cwiseAbs().maxCoeff() + want.cwiseAbs().maxCoeff();
    double sg = H.trace() < 0 ? -1 : 1; // which sign is a known finding of P14
    expect((sg * H - want).cwiseAbs().maxCoeff() <= 1e-11 * s, S("fem.exchange.matrix", type).c_str(), "exchange matrix differs by %g | %s", (sg * H - want).cwiseAbs().maxCoeff(), ::mon::st().desc.c_str());
    expect((sg * q - heat).cwiseAbs().maxCoeff() <= 1e-11 * s * 10, S("fem.exchange.heat", type).c_str(), "ambient heat differs by %g", (sg * q - heat).cwiseAbs().maxCoeff());
    if (one) expect((H * Vec::Constant(n, Tone) - q).cwiseAbs().maxCoeff() <= 1e-10 * s * 10, S("fem.exchange.equilibrium", type).c_str(), "a body at ambient temperature exchanges heat");
    expect(a.vectorB.cwiseAbs().maxCoeff() == 0, S("fem.exchange.closed", type).c_str(), "heat enters without exchange");
    if (added) nontrivial();
}
FAMILY(femTransport, 400, 20000)
{ // first derivative along a line: exact for linear fields, constants are not transported
    double h;
    Raw r = build(R, ET_BEAM, 0.2, true, h);
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 5));
    Mesh m;
    fill(m, r);
    Field T = field(m, DM_FEM, R.flip() ? ST_GENERIC : ST_THERMAL);
    int n = m.nbNodes();
    CSleSystem<D> G = divergence<D>(T), M = ddt<D>(T);
    describe(fmt("transport nodes %d", n));
    sig(n); sigd(h);
    Mat A = G.matrixA;
    if (!expect(A.rows() == n && A.cols() == n && A.allFinite() && G.vectorB.size() == n, "fem.transport.shape", "shape")) return;
    expect((A * Vec::Ones(n)).cwiseAbs().maxCoeff() <= 1e-12 && G.vectorB.norm() == 0, "fem.transport.constant", "constants have a divergence");
    // integral of N_i du/ds over the elements, in their own direction
    Vec u(n), w = Vec::Zero(n);
    for (int i = 0; i < n; ++i) u(i) = R.uni(-1, 1);
    for (auto& e : r.els) {
        int p = m.nodeIndex(e.n[0]), q = m.nodeIndex(e.n[1]);
        for (int k : { p, q }) w(k) += 0.5 * (u(q) - u(p));
    }
    Vec Au = A * u;
    expect((Au - w).cwiseAbs().maxCoeff() <= 1e-12, "fem.transport.derivative", "differs from the weighted derivative by %g", (Au - w).cwiseAbs().maxCoeff());
    nontrivial();
}
