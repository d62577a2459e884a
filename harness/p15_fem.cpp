#include "p15_common.hpp"
//---------------------------------------------------------------- finite elements
FAMILY_CPU(femMatrices, 800, 40000, 40)
{
    int type = R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON });
    bool prism = type == ET_TRIANGULAR_PRISM;
    double h;
    Raw r = build(R, type, prism ? 0 : 0.2, true, h);
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 6));
    Mesh m;
    fill(m, feOrder(r));
    ESimulationType st = R.flip() ? ST_GENERIC : ST_THERMAL;
    Field T = field(m, DM_FEM, st);
    describe(fmt("fem %s %d nodes %d elements sim %d", NM(type), m.nbNodes(), m.nbElements(), (int)st));
    sig(type); sig(m.nbNodes()); sigd(h);
    Mat L = laplacian<D>(T).matrixA;
    int n = m.nbNodes();
    double s = L.cwiseAbs().maxCoeff();
    if (!expect(L.rows() == n && L.cols() == n && L.allFinite(), S("fem.laplacian.shape", type).c_str(), "shape")) return;
    expect((L - L.transpose()).cwiseAbs().maxCoeff() <= 1e-10 * s, S("fem.laplacian.symmetric", type).c_str(), "not symmetric");
    expect((L * Vec::Ones(n)).cwiseAbs().maxCoeff() <= 1e-9 * s, S("fem.laplacian.constant", type).c_str(), "constants have a laplacian");
    Lin l = randomLin(R);
    Vec u = sample(m, l);
    if (type == ET_BEAM) { // only the component along the line counts
        V3 d = (v3(m.node(m.element(m.elementId(0)).nodeId(1))) - v3(m.node(m.element(m.elementId(0)).nodeId(0)))).unit();
        l.g = d * l.g.dot(d);
    } else if (r.dim == 2) {
        std::vector<V3> p;
        for (int k : r.els[0].n) p.push_back(r.nodes[k]);
        V3 nn = areaVector(p).unit();
        l.g = l.g - nn * l.g.dot(nn);
    }
    std::set<int> b = boundary(r);
    Vec Lu = L * u;
    double mag = s * (u.cwiseAbs().maxCoeff() + 1);
    for (int i = 0; i < n; ++i) if (!b.count(m.nodeId(i))) { expect(std::fabs(Lu(i)) <= 1e-9 * mag, S("fem.laplacian.linear", type).c_str(), "linear field has laplacian %g at an inner node | %s", Lu(i), ::mon::st().desc.c_str()); nontrivial(); }
    double meas = measure(r);
    if (!prism) expectNear(-u.dot(Lu), l.g.dot(l.g) * meas, 1e-8 * (meas * l.g.dot(l.g) + mag), S("fem.laplacian.energy", type).c_str(), "energy of a linear field");
    // time derivative
    for (int i = 0; i < n; ++i) T.u(i) = R.uni(-1, 1);
    CSleSystem<D> M = ddt<D>(T);
    Mat MM = M.matrixA;
    if (expect(MM.rows() == n && MM.allFinite() && M.vectorB.size() == n, S("fem.ddt.shape", type).c_str(), "shape")) {
        if (!prism) expectNear(MM.sum(), meas, 1e-9 * meas, S("fem.ddt.total", type).c_str(), "entries of the capacity matrix");
        expect((MM - MM.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * meas, S("fem.ddt.symmetric", type).c_str(), "capacity matrix not symmetric");
        bool pos = true;
        for (int i = 0; i < n; ++i) pos &= MM(i, i) > 0;
        expect(pos, S("fem.ddt.positive", type).c_str(), "a node has no capacity");
        expect((M.vectorB - MM * T.u).norm() <= 1e-10 * meas, S("fem.ddt.rhs", type).c_str(), "right hand side is not the capacity times the old state");
    }
    nontrivial();
}
FAMILY_CPU(femSolve, 600, 40000, 40)
{
    int type = R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON });
    double h;
    Raw r = build(R, type, type == ET_TRIANGULAR_PRISM ? 0 : 0.2, true, h);
    Raw q = r;
    std::vector<int> order = r.nodeOrder;
    if (R.flip(0.8)) { // the same body, numbered differently; remember who is who by position
        renumber(R, q, R.ri(1, 6));
    }
    Mesh m, w;
    fill(m, feOrder(r));
    fill(w, feOrder(q));
    std::set<int> b = boundary(r), bq = boundary(q);
    ESimulationType st = R.flip() ? ST_GENERIC : ST_THERMAL;
    Field T = field(m, DM_FEM, st), U = field(w, DM_FEM, st);
    Lin l = randomLin(R);
    bool linear = R.flip(0.6), elim = R.flip(0.6);
    double curv = linear ? 0 : R.uni(-2, 2);
    auto val = [&](const V3& p) { return l(p) + curv * std::sin(3 * p.x + p.y - 2 * p.z); };
    double mx = 0;
    for (int i = 0; i < m.nbNodes(); ++i) { V3 p = v3(m.node(m.nodeId(i))); if (b.count(m.nodeId(i))) { T.setFixedValue(i, val(p)); mx = std::max(mx, std::fabs(val(p))); } }
    for (int i = 0; i < w.nbNodes(); ++i) { V3 p = v3(w.node(w.nodeId(i))); if (bq.count(w.nodeId(i))) U.setFixedValue(i, val(p)); }
    int inner = m.nbNodes() - (int)b.size();
    describe(fmt("fem solve %s nodes %d inner %d %s %s sim %d", NM(type), m.nbNodes(), inner, elim ? "elimination" : "penalty", linear ? "linear" : "curved", (int)st));
    sig(type); sig(m.nbNodes()); sigd(h); sig(elim);
    double hs = 1;
    for (auto* F : { &T, &U }) {
        CSleSystem<D> lap = laplacian<D>(*F);
        if (!elim) hs = Mat(lap.matrixA).cwiseAbs().maxCoeff();
        CPdeEquation<D> eq(lap = 0);
        if (elim) eq.setElimination(*F); else eq.setPenaltyFactor(*F, -1e7 * hs);
        if (elim && inner == 0) return;
        eq.solve(*F);
        if (!expect(F->u.size() == m.nbNodes() && F->u.allFinite(), S("fem.solve.finite", type).c_str(), "no finite solution: %s", ::mon::st().desc.c_str())) return;
    }
    double tol = (elim ? 1e-7 : 1e-4) * (1 + mx);
    if (linear) for (int i = 0; i < m.nbNodes(); ++i) {
        V3 p = v3(m.node(m.nodeId(i)));
        if (!expectNear(T.u(i), l(p), tol, S("fem.solve.linear", type).c_str(), "linear boundary data must give the linear field")) break;
    }
    std::map<std::array<long, 3>, double> at;
    auto key = [](const V3& p) { return std::array<long, 3>{ { std::lround(p.x * 1e6), std::lround(p.y * 1e6), std::lround(p.z * 1e6) } }; };
    for (int i = 0; i < m.nbNodes(); ++i) at[key(v3(m.node(m.nodeId(i))))] = T.u(i);
    for (int i = 0; i < w.nbNodes(); ++i) {
        auto it = at.find(key(v3(w.node(w.nodeId(i)))));
        if (it == at.end()) continue;
        if (!expectNear(U.u(i), it->second, 2 * tol, S("fem.solve.renumber", type).c_str(), "solution depends on the numbering")) break;
        count("renumbered.compared");
    }
    if (inner) nontrivial();
}
// Implicit heat flow on a body without boundary values: heat is conserved, constants stay, the field flattens.
FAMILY_CPU(femTransient, 240, 12000, 40)
{
    int type = R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_HEXAHEDRON });
    double h;
    Raw r = build(R, type, 0.15, true, h);
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 5));
    Mesh m;
    fill(m, feOrder(r));
    ESimulationType st = R.flip() ? ST_GENERIC : ST_THERMAL;
    Field T = field(m, DM_FEM, st);
    int n = m.nbNodes();
    bool cons = R.flip(0.2);
    for (int i = 0; i < n; ++i) T.u(i) = cons ? 0.7 : R.uni(-1, 1);
    double dt = h * h * std::exp(R.uni(-2, 2));
    Mat M = ddt<D>(T).matrixA;
    double before = (M * T.u).sum(), var = T.u.dot(M * T.u);
    describe(fmt("fem transient %s nodes %d dt/h2 %g", NM(type), n, dt / h / h));
    sig(type); sigd(h); sigd(dt);
    for (int k = 0; k < 3; ++k) {
        CPdeEquation<D> eq(1 / dt * ddt<D>(T) - laplacian<D>(T) = 0);
        eq.solve(T);
        if (!expect(T.u.size() == n && T.u.allFinite(), S("fem.transient.finite", type).c_str(), "not finite")) return;
        double now = (M * T.u).sum(), v = T.u.dot(M * T.u), meas = measure(r);
        expectNear(now, before, 1e-8 * meas, S("fem.transient.heat", type).c_str(), "heat content");
        expect(v <= var + 1e-8 * meas, S("fem.transient.flatten", type).c_str(), "second moment grows from %g to %g", var, v);
        if (cons) expect((T.u.array() - 0.7).abs().maxCoeff() <= 1e-7, S("fem.transient.constant", type).c_str(), "constant field changed");
        var = v;
        count("steps");
    }
    nontrivial();
}
FAMILY(femPoint, 600, 20000)
{ // nodal sources: linear, additive and attached to the node, whatever its number
    int type = R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON });
    double h;
    Raw r = build(R, type, 0.1, true, h);
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 5));
    Mesh m;
    fill(m, feOrder(r));
    Field T = field(m, DM_FEM, ST_GENERIC);
    int n = m.nbNodes();
    double a = R.uni(-3, 3);
    Vec b1 = source<D>(T, 1.0), ba = source<D>(T, a);
    if (!expect(b1.size() == n && ba.size() == n, S("fem.source.size", type).c_str(), "size")) return;
    expect((ba - a * b1).norm() <= 1e-12 * (1 + b1.norm()), S("fem.source.linear", type).c_str(), "not proportional to the source");
    std::map<int, int> deg;
    for (auto& e : r.els) for (int k : e.n) ++deg[k];
    for (int i = 0; i < n; ++i) expectNear(b1(i), deg[m.nodeId(i)], 1e-9, S("fem.source.node", type).c_str(), "unit source on every node of every element");
    CSleSystem<D> sys = laplacian<D>(T);
    Vec b0 = sys.vectorB;
    CPdeEquation<D> eq(sys);
    int k = R.ri(0, n - 1), j = R.ri(0, n - 1);
    T.setSource(k, 2.5);
    T.setSource(j, 0, -1.5);
    Vec want = b0;
    if (j == k) want(k) += -1.5; else { want(k) += 2.5; want(j) -= 1.5; }
    eq.setSources(T);
    expect((eq.system().vectorB - want).norm() <= 1e-12, "sources", "point sources are not added to their rows");
    sig(type); sig(n); sigd(a);
    nontrivial();
}
FAMILY(femElimination, 160, 8000)
{ // point sources join the equation before or after the fixed values are taken out: the answer is the same
    int type = R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_HEXAHEDRON });
    double h;
    Raw r = build(R, type, 0.1, true, h);
    if (R.flip(0.7)) renumber(R, r, R.ri(1, 5));
    Mesh m;
    fill(m, feOrder(r));
    int n = m.nbNodes();
    Field F[3] = { field(m, DM_FEM, ST_GENERIC), field(m, DM_FEM, ST_GENERIC), field(m, DM_FEM, ST_GENERIC) };
    std::map<int, double> fix, src;
    for (int i = 0; i < n; ++i) if (R.flip(0.25)) fix[i] = R.uni(-3, 3);
    if (fix.empty()) fix[R.ri(0, n - 1)] = 1.5;
    for (int i = R.ri(1, 4); i > 0; --i) src[R.flip(0.2) ? fix.begin()->first : R.ri(0, n - 1)] = R.uni(-2, 2);
    for (auto& f : F) { for (auto& q : fix) f.setFixedValue(q.first, q.second); for (auto& q : src) f.setSource(q.first, q.second); }
    describe(fmt("%s nodes %d, %d fixed, %d sources", NM(type), n, (int)fix.size(), (int)src.size()));
    sig(type); sig(n); sig((long)fix.size()); sigd(h);
    if ((int)fix.size() == n) return;
    CSleSystem<D> sys = laplacian<D>(F[0]);
    Mat A(sys.matrixA); Vec b = sys.vectorB;
    for (auto& q : src) b(q.first) += q.second;
    for (auto& q : fix) { A.row(q.first).setZero(); A(q.first, q.first) = 1; b(q.first) = q.second; }
    Vec want = A.fullPivLu().solve(b);
    double S1 = 1 + want.cwiseAbs().maxCoeff();
    { CPdeEquation<D> eq(laplacian<D>(F[0])); eq.setSources(F[0]); eq.setElimination(F[0]); eq.solve(F[0]); }
    { CPdeEquation<D> eq(laplacian<D>(F[1])); eq.setElimination(F[1]); eq.setSources(F[1]); eq.solve(F[1]);
      if (!expect(eq.system().vectorB.size() == n - (int)fix.size(), "fem.elimination.size", "%d rows are left", (int)eq.system().vectorB.size())) return; }
    for (int i = 0; i < n; ++i) {
        if (!expectNear(F[0].u(i), want(i), 1e-7 * S1, "fem.elimination.sources", st().desc.c_str())) break;
        if (!expectNear(F[1].u(i), want(i), 1e-7 * S1, "fem.elimination.after", st().desc.c_str())) break;
    }
    count("eliminated"); nontrivial();
}
FAMILY(probeHexahedron, 1, 1)
{ // one distorted-free 2x2x2 grid of hexahedra, the library's own node order
    Raw r = grid(ET_HEXAHEDRON, 2, 2, 2);
    Mesh m;
    fill(m, r);
    std::set<int> b = boundary(r);
    Field T = field(m, DM_FEM, ST_GENERIC);
    Lin l = { V3(1, 2, 3), 0.5 };
    for (int i = 0; i < m.nbNodes(); ++i) if (b.count(m.nodeId(i))) T.setFixedValue(i, l(v3(m.node(m.nodeId(i)))));
    CSleSystem<D> L = laplacian<D>(T);
    Vec u = sample(m, l);
    double e = -u.dot(L.matrixA * u);
    expectNear(e, 14, 1e-9, "probe.hexahedron.energy", "energy of a linear field on the unit cube");
    expectNear((ddt<D>(T).matrixA * Vec::Ones(27)).sum(), 1, 1e-9, "probe.hexahedron.capacity", "capacity of the unit cube");
    CPdeEquation<D> eq(L = 0);
    eq.setElimination(T);
    eq.solve(T);
    for (int i = 0; i < 27; ++i) if (!expectNear(T.u(i), u(i), 1e-7, "probe.hexahedron.linear", "linear boundary data must give the linear field")) break;
    nontrivial();
}
