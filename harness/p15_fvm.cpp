#define MON_NO_MAIN
#include "p15_common.hpp"
//---------------------------------------------------------------- finite differences
FAMILY(fdm, 900, 60000)
{
    int n = R.ri(3, 60);
    double dx = std::exp(R.uni(-3, 1)), x0 = R.uni(-1, 1);
    Mesh m;
    int idGap = R.ri(1, 4);
    for (int i = 0; i < n; ++i) m.addNode(i * idGap + (idGap > 1), CMshNode<D>(x0 + i * dx, 0, 0));
    m.setDx(dx);
    Field T = field(m, DM_FDM, R.flip() ? ST_GENERIC : ST_THERMAL);
    double a = R.uni(-2, 2), b = R.uni(-2, 2), c = R.uni(-2, 2);
    for (int i = 0; i < n; ++i) { double x = i * dx; T.u(i) = a * x * x + b * x + c; }
    Vec u = T.u;
    describe(fmt("fdm n %d dx %g", n, dx));
    sig(n); sigd(dx);
    CSleSystem<D> L = laplacian<D>(T), G = divergence<D>(T), M = ddt<D>(T);
    Vec Lu = L.matrixA * u - L.vectorB, Gu = G.matrixA * u - G.vectorB;
    double s = u.cwiseAbs().maxCoeff() + 1;
    for (int i = 1; i + 1 < n; ++i) {
        if (!expectNear(Lu(i), 2 * a, 1e-11 * s / dx / dx, "fdm.laplacian", "second difference of a quadratic")) break;
        if (!expectNear(Gu(i), 2 * a * i * dx + b, 1e-11 * s / dx, "fdm.divergence", "central difference of a quadratic")) break;
    }
    expect((M.vectorB - M.matrixA * u).norm() <= 1e-12 * s * n, "fdm.ddt", "ddt of the present state is not zero");
    // free ends: nothing flows out
    Vec ones = Vec::Ones(n);
    expect((L.matrixA * ones - L.vectorB).cwiseAbs().maxCoeff() <= 1e-10 / dx / dx, "fdm.constant", "constants have a laplacian");
    expect(std::fabs((L.matrixA * u).sum()) <= 1e-10 * s * n / dx / dx, "fdm.conserve", "free ends leak");
    double dt = dx * dx * std::exp(R.uni(-2, 3));
    Field C = T;
    double sum = u.sum(), lo = u.minCoeff(), hi = u.maxCoeff();
    for (int k = 0; k < 3; ++k) {
        CPdeEquation<D> eq(1 / dt * ddt<D>(C) - laplacian<D>(C) = 0);
        eq.solve(C);
        if (!expect(C.u.size() == n && C.u.allFinite(), "fdm.transient.finite", "not finite")) return;
        expectNear(C.u.sum(), sum, 1e-8 * s * n, "fdm.transient.heat", "sum");
        expect(C.u.minCoeff() >= lo - 1e-8 * s && C.u.maxCoeff() <= hi + 1e-8 * s, "fdm.transient.bounds", "new extremum");
        lo = C.u.minCoeff(); hi = C.u.maxCoeff();
        count("steps");
    }
    // fixed ends: straight line (steady), bounds (transient)
    Field F = T;
    double l = R.uni(-2, 2), rr = R.uni(-2, 2);
    F.setFixedValue(0, l);
    F.setFixedValue(n - 1, rr);
    CPdeEquation<D> st(laplacian<D>(F) = 0);
    st.setPenaltyFactor(F, -1e9 / dx / dx);
    st.solve(F);
    if (expect(F.u.size() == n && F.u.allFinite(), "fdm.steady.finite", "not finite")) for (int i = 0; i < n; ++i) if (!expectNear(F.u(i), l + (rr - l) * i / (n - 1), 1e-5 * 4, "fdm.steady.linear", "steady state between fixed ends")) break;
    Field W = T;
    W.setFixedValue(0, l);
    W.setFixedValue(n - 1, rr);
    lo = std::min({ u.minCoeff(), l, rr }); hi = std::max({ u.maxCoeff(), l, rr });
    for (int k = 0; k < 2; ++k) {
        CPdeEquation<D> eq(1 / dt * ddt<D>(W) - laplacian<D>(W) = 0);
        if (R.flip()) eq.setPenaltyFactor(W, 1e8 / dx / dx);
        eq.solve(W);
        if (!expect(W.u.size() == n && W.u.allFinite(), "fdm.fixed.finite", "not finite")) return;
        expect(W.u.minCoeff() >= lo - 1e-5 * s && W.u.maxCoeff() <= hi + 1e-5 * s, "fdm.fixed.bounds", "new extremum %g %g outside %g %g", W.u.minCoeff(), W.u.maxCoeff(), lo, hi);
        expect(W.u(0) == l && W.u(n - 1) == rr, "fdm.fixed.value", "fixed ends differ");
    }
    // residual rows of a body whose ends hold their values: nothing changes in time, the ends see their outer neighbour at the fixed value
    {
        Field Z = T;
        bool left = R.flip(), right = R.flip();
        if (left) { Z.setFixedValue(0, l); Z.u(0) = l; }
        if (right) { Z.setFixedValue(n - 1, rr); Z.u(n - 1) = rr; }
        CSleSystem<D> Mz = ddt<D>(Z), Lz = laplacian<D>(Z);
        expect((Mz.matrixA * Z.u - Mz.vectorB).norm() == 0, "fdm.held.ddt", "ddt of the present state is not zero");
        Vec lz = Lz.matrixA * Z.u - Lz.vectorB;
        double sz = Z.u.cwiseAbs().maxCoeff() + 1;
        expectNear(lz(0), (Z.u(1) - Z.u(0)) / dx / dx, 1e-11 * sz / dx / dx, "fdm.held.first", "laplacian at the first node");
        expectNear(lz(n - 1), (Z.u(n - 2) - Z.u(n - 1)) / dx / dx, 1e-11 * sz / dx / dx, "fdm.held.last", "laplacian at the last node");
    }
    nontrivial();
}
//---------------------------------------------------------------- finite volumes
FAMILY_CPU(fvm, 320, 20000, 40)
{
    int type = R.pick(std::vector<int>{ ET_HEXAHEDRON, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM });
    double h;
    bool box = type == ET_HEXAHEDRON && R.flip();
    bool affine = box || (type != ET_TETRAHEDRON && R.flip(0.7));
    Raw r = build(R, type, affine ? 0 : 0.15, true, h);
    if (affine && !box) { // sheared lattice: planar faces, exact areas
        V3 sh = inBox(R, 0.3), org = r.nodes.begin()->second, d = unitVec(R);
        for (auto& n : r.nodes) n.second = n.second + sh * d.dot(n.second - org);
    }
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 5));
    Mesh m;
    fill(m, r);
    m.generateFaces(1e-9 * h);
    m.calculateFaceCentroid();
    m.calculateElementCentroid();
    ESimulationType st = R.pick(std::vector<ESimulationType>{ ST_GENERIC, ST_THERMAL, ST_FLOW });
    Field T = field(m, DM_FVM, st);
    int n = m.nbElements();
    Vec V(n), X(n);
    Lin l = randomLin(R);
    for (int i = 0; i < n; ++i) {
        auto& e = *std::find_if(r.els.begin(), r.els.end(), [&](const El& q) { return q.id == m.elementId(i); });
        std::vector<V3> p;
        for (int k : e.n) p.push_back(r.nodes[k]);
        V(i) = std::fabs(solidVolume(type, p));
        X(i) = l(v3(m.elementCentroid(m.elementId(i))));
    }
    describe(fmt("fvm %s%s cells %d sim %d", NM(type), box ? " box" : affine ? " affine" : "", n, (int)st));
    sig(type); sig(n); sigd(h); sig(st);
    // closed body: nothing leaves
    for (int i = 0; i < n; ++i) T.u(i) = R.uni(-1, 1);
    CSleSystem<D> L = laplacian<D>(T);
    Mat LM = L.matrixA;
    double s = LM.cwiseAbs().maxCoeff() + 1e-300;
    if (!expect(LM.rows() == n && LM.allFinite() && L.vectorB.size() == n, S("fvm.shape", type).c_str(), "shape")) return;
    expect((LM * Vec::Ones(n) - L.vectorB).cwiseAbs().maxCoeff() <= 1e-10 * s, S("fvm.constant", type).c_str(), "constants have a laplacian in a closed body");
    Mat VL = V.asDiagonal() * LM;
    // warped faces of distorted cells have no unique area, so the pairing is compared loosely there
    double wt = affine || type == ET_TETRAHEDRON ? 1e-9 : 1e-6;
    expect((VL - VL.transpose()).cwiseAbs().maxCoeff() <= wt * VL.cwiseAbs().maxCoeff() + (wt > 1e-8 ? 0.35 * VL.cwiseAbs().maxCoeff() : 0), S("fvm.flux", type).c_str(), "what leaves a cell does not enter its neighbour");
    bool offd = true;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) offd &= LM(i, j) >= 0;
    expect(offd, S("fvm.monotone", type).c_str(), "negative coupling");
    double dt = h * h * std::exp(R.uni(-3, 2));
    {
        Field C = T;
        double sum = V.dot(C.u), lo = C.u.minCoeff(), hi = C.u.maxCoeff();
        for (int k = 0; k < 2; ++k) {
            CPdeEquation<D> eq(1 / dt * ddt<D>(C) - laplacian<D>(C) = 0);
            eq.solve(C);
            if (!expect(C.u.size() == n && C.u.allFinite(), S("fvm.transient.finite", type).c_str(), "not finite")) return;
            if (wt < 1e-8) expectNear(V.dot(C.u), sum, 1e-8 * V.sum(), S("fvm.transient.heat", type).c_str(), "heat content");
            expect(C.u.minCoeff() >= lo - 1e-8 && C.u.maxCoeff() <= hi + 1e-8, S("fvm.transient.bounds", type).c_str(), "new extremum");
            count("steps");
        }
    }
    // every boundary face fixed
    bool cons = !box || R.flip();
    int nb = 0;
    double lo = 1e300, hi = -1e300, cv = R.uni(-2, 2);
    std::vector<std::pair<int, double>> bc;
    for (int i = 0; i < m.nbFaces(); ++i) {
        int f = m.faceId(i);
        if (m.face(f).hasPair()) continue;
        double v = cons ? cv : l(v3(m.faceCentroid(f)));
        CPdeBoundaryCondition<D> c(BT_GENERIC_FIXED_VALUE);
        c.addCondition(CT_GENERIC_FIXED_VALUE, v);
        T.addBCFace(f, c);
        bc.push_back({ f, v });
        lo = std::min(lo, v); hi = std::max(hi, v);
        ++nb;
    }
    CSleSystem<D> B = laplacian<D>(T), G = divergence<D>(T);
    Vec want = cons ? Vec::Constant(n, cv) : X;
    double ms = 1 + want.cwiseAbs().maxCoeff();
    Mat BM = B.matrixA;
    expect((BM * want - B.vectorB).cwiseAbs().maxCoeff() <= 1e-9 * BM.cwiseAbs().maxCoeff() * ms, S("fvm.boundary", type).c_str(), "%s field matching its boundary has a laplacian", cons ? "constant" : "linear");
    if (st != ST_FLOW) {
        Vec div = G.matrixA * want - G.vectorB;
        Mat GM = G.matrixA;
        double gs = GM.cwiseAbs().maxCoeff() + 1 / h;
        if (affine && type == ET_HEXAHEDRON && !box && R.flip()) { // linear data on a sheared lattice
            Field Q = T;
            for (auto& b : bc) { CPdeBoundaryCondition<D> c(BT_GENERIC_FIXED_VALUE); c.addCondition(CT_GENERIC_FIXED_VALUE, l(v3(m.faceCentroid(b.first)))); Q.addBCFace(b.first, c); }
            CSleSystem<D> H = divergence<D>(Q);
            Vec dv = H.matrixA * X - H.vectorB;
            for (int i = 0; i < n; ++i) if (!expectNear(dv(i), l.g.x + l.g.y + l.g.z, 1e-9 * gs * (1 + X.cwiseAbs().maxCoeff()), "fvm.divergence.lattice", "divergence of a linear field")) break;
        }
        double expd = cons ? 0 : l.g.x + l.g.y + l.g.z;
        for (int i = 0; i < n; ++i) if (!expectNear(div(i), expd, 1e-9 * gs * ms + (wt > 1e-8 ? 0.1 * gs * ms : 0), S("fvm.divergence", type).c_str(), cons ? "divergence of a constant" : "divergence of a linear field")) break;
    }
    CPdeEquation<D> eq(laplacian<D>(T) = 0);
    eq.solve(T);
    if (expect(T.u.size() == n && T.u.allFinite(), S("fvm.steady.finite", type).c_str(), "not finite"))
        for (int i = 0; i < n; ++i) if (!expectNear(T.u(i), want(i), 1e-6 * ms, S("fvm.steady", type).c_str(), "steady state")) break;
    nontrivial();
}
