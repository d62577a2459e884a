// P27: files written by Gmsh, VTK, gnuplot and QuickMesh writers, read by independent parsers; Gmsh and QuickMesh files read back.
#include "mon.hpp"
#include "meshes.hpp"
#include "PdeField.hpp"
using namespace ENigMA::mesh; // the writers expect this
using namespace ENigMA::geometry;
#include "PosGmsh.hpp"
#include "PosVtk.hpp"
#include "PosGnuplot.hpp"
#include "PosQuickMesh.hpp"
#include <fstream>
#include <sstream>
using namespace mon;
using namespace gen;
using namespace meshes;
using namespace ENigMA::mesh;
using namespace ENigMA::pde;
using namespace ENigMA::post;
typedef CPdeField<D> Field;

static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1.2e-15 * std::fabs(b); }
static bool near(const V3& a, const V3& b) { return near(a.x, b.x) && near(a.y, b.y) && near(a.z, b.z); }

// Reads words and lines of a text file; every mistake is remembered.
struct Text {
    std::vector<std::string> L;
    size_t at = 0;
    std::string why;
    bool open(const std::string& name)
    {
        std::ifstream in(name, std::ios::binary);
        if (!in) { why = "no file"; return false; }
        std::string s;
        while (std::getline(in, s)) L.push_back(s);
        return true;
    }
    bool more() { return why.empty() && at < L.size(); }
    std::string line() { if (at >= L.size()) { if (why.empty()) why = "the file ends early"; return ""; } return L[at++]; }
    void is(const std::string& s) { std::string l = line(); if (why.empty() && l != s) why = fmt("line %zu is '%s' instead of '%s'", at, l.c_str(), s.c_str()); }
    std::vector<std::string> words() { std::istringstream in(line()); std::vector<std::string> w; std::string s; while (in >> s) w.push_back(s); return w; }
    double num(const std::string& s) { char* e; double v = strtod(s.c_str(), &e); if ((*e || s.empty()) && why.empty()) why = fmt("line %zu: '%s' is no number", at, s.c_str()); return v; }
    long whole(const std::string& s) { char* e; long v = strtol(s.c_str(), &e, 10); if ((*e || s.empty()) && why.empty()) why = fmt("line %zu: '%s' is no whole number", at, s.c_str()); return v; }
    std::vector<double> nums(size_t n) { auto w = words(); if (w.size() != n && why.empty()) why = fmt("line %zu has %zu words instead of %zu", at, w.size(), n); w.resize(n); std::vector<double> v; for (auto& s : w) v.push_back(num(s)); return v; }
    long count() { auto w = words(); if (w.size() != 1 && why.empty()) why = fmt("line %zu has %zu words instead of one", at, w.size()); w.resize(1); return whole(w[0]); }
};

static const int gmshType[] = { 0, 15, 1, 2, 3, 4, 6, 5 };   // by EElementType up to the hexahedron
static const int vtkType[] = { 0, 1, 3, 5, 9, 10, 13, 12 };
static const int nodesOf[] = { 0, 1, 2, 3, 4, 4, 6, 8 };

// One or several blocks of different elements with arbitrary numbers, points and lines among them.
static Raw anyMesh(Rng& R, std::string& w, bool tetra = false)
{
    Raw all;
    int blocks = tetra ? 1 : R.ri(1, 3), nextNode = 0, nextEl = 0;
    w = "";
    for (int b = 0; b < blocks; ++b) {
        int types[] = { ET_TETRAHEDRON, ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_HEXAHEDRON, ET_TRIANGULAR_PRISM };
        int type = tetra ? ET_TETRAHEDRON : types[R.ri(0, 5)];
        Raw r = grid(type, R.ri(1, 3), R.ri(1, 3), R.ri(1, 3));
        for (int n : r.nodeOrder) { V3 p = r.nodes[n]; all.nodes[nextNode + n] = V3(p.x + 2 * b, p.y, p.z); all.nodeOrder.push_back(nextNode + n); }
        for (auto& e : r.els) { El f = e; f.id = nextEl++; for (int& n : f.n) n += nextNode; all.els.push_back(f); }
        if (!tetra && R.flip(.4)) for (int k = R.ri(1, 3); k > 0; --k) all.els.push_back({ nextEl++, ET_NODE, { nextNode + R.ri(0, (int)r.nodeOrder.size() - 1) } });
        nextNode += (int)r.nodeOrder.size();
        w += fmt("%s%d", b ? "+" : "type ", type);
    }
    double scale = std::pow(10., R.uni(-6, 6));
    Rigid g = randomRigid(R);
    bool plain = R.flip(.2);
    for (auto& n : all.nodes) if (!plain) n.second = g(n.second + inBox(R, .1)) * scale;
    if (R.flip(.8)) { renumber(R, all, R.ri(1, 9)); w += ", any numbers"; }
    return all;
}
static void put(Rng& R, const Raw& r, Field& f, int dofs, bool centers, bool values)
{
    Mesh m;
    fill(m, r);
    f.setMesh(m);
    f.setNbDofs(dofs);
    f.setDiscretLocation(centers ? DL_ELEMENT_CENTER : DL_NODE);
    if (values) {
        f.u.resize((centers ? m.nbElements() : m.nbNodes()) * dofs);
        int kind = R.ri(0, 3);
        for (int i = 0; i < f.u.size(); ++i) f.u(i) = kind == 0 ? R.ri(-9, 9) : kind == 1 ? R.uni(-1, 1) : kind == 2 ? R.normal() * std::pow(10., R.uni(-200, 200)) : 1 + i * 1e-13;
    }
}
static std::vector<V3> points(Field& f) { std::vector<V3> p; for (int i = 0; i < f.mesh().nbNodes(); ++i) p.push_back(v3(f.mesh().node(f.mesh().nodeId(i)))); return p; }
static std::vector<int> members(Field& f, int i) { auto& e = f.mesh().element(f.mesh().elementId(i)); std::vector<int> n; for (int k = 0; k < e.nbNodeIds(); ++k) n.push_back(f.mesh().nodeIndex(e.nodeId(k))); return n; }
static int typeOf(Field& f, int i) { return f.mesh().element(f.mesh().elementId(i)).elementType(); }
static bool sameMesh(Field& a, Field& b, const char* key)
{
    if (!expect(a.mesh().nbNodes() == b.mesh().nbNodes(), key, "%d nodes instead of %d: %s", b.mesh().nbNodes(), a.mesh().nbNodes(), st().desc.c_str())) return false;
    if (!expect(a.mesh().nbElements() == b.mesh().nbElements(), key, "%d elements instead of %d: %s", b.mesh().nbElements(), a.mesh().nbElements(), st().desc.c_str())) return false;
    auto p = points(a), q = points(b);
    for (size_t i = 0; i < p.size(); ++i) if (!expect(near(q[i], p[i]), key, "node %zu at %.17g %.17g %.17g instead of %.17g %.17g %.17g", i, q[i].x, q[i].y, q[i].z, p[i].x, p[i].y, p[i].z)) return false;
    for (int i = 0; i < a.mesh().nbElements(); ++i) if (!expect(typeOf(a, i) == typeOf(b, i) && members(a, i) == members(b, i), key, "element %d is another one: %s", i, st().desc.c_str())) return false;
    return true;
}
template <class P, class... A> static void faults(P& pos, Field& f, const char* key, A... a)
{
    expect(!pos.save(f, scratch("no/such/place"), a...), key, "saved where nothing can be");
    static bool full = std::ifstream("/dev/full").good();
    if (full) { expect(!pos.save(f, "/dev/full", a...), key, "a full disk was not reported"); count("fault.full"); }
}

FAMILY(gmsh, 400, 8000)
{
    std::string w;
    Raw r = anyMesh(R, w);
    Field f;
    int dofs = R.ri(1, 3);
    bool centers = R.flip(), values = R.flip(.8);
    put(R, r, f, dofs, centers, values);
    describe(w + fmt(", %zu nodes, %zu elements, %d dofs at %s, %s", r.nodes.size(), r.els.size(), dofs, centers ? "centers" : "nodes", values ? "values" : "no values"));
    CPosGmsh<D> pos;
    std::string name = scratch("f.msh"), view = R.flip() ? "u" : R.flip() ? "heat flow" : "";
    if (!expect(pos.save(f, name, view), "gmsh.save", "could not be saved")) return;
    auto p = points(f);
    int nN = (int)p.size(), nE = f.mesh().nbElements();
    Text t;
    t.open(name);
    t.is("$MeshFormat");
    auto v = t.nums(3);
    if (t.why.empty() && (v[0] < 2 || v[0] >= 3 || v[1] != 0 || v[2] != 8)) t.why = "another format";
    t.is("$EndMeshFormat");
    t.is("$Nodes");
    expect(t.count() == nN || !t.why.empty(), "gmsh.nodes.count", "not %d nodes announced", nN);
    std::map<long, int> nodeOf, elOf;
    for (int i = 0; i < nN && t.why.empty(); ++i) {
        auto x = t.nums(4);
        if (!t.why.empty()) break;
        if (!expect(x[0] >= 1 && nodeOf.insert({ (long)x[0], i }).second, "gmsh.nodes.number", "node %d has the number %g", i, x[0])) return;
        if (!expect(near(V3(x[1], x[2], x[3]), p[i]), "gmsh.nodes.place", "node %d at %.17g %.17g %.17g instead of %.17g %.17g %.17g", i, x[1], x[2], x[3], p[i].x, p[i].y, p[i].z)) return;
    }
    t.is("$EndNodes");
    t.is("$Elements");
    expect(t.count() == nE || !t.why.empty(), "gmsh.elements.count", "not %d elements announced", nE);
    for (int i = 0; i < nE && t.why.empty(); ++i) {
        auto s = t.words();
        std::vector<long> x;
        for (auto& q : s) x.push_back(t.whole(q));
        int type = typeOf(f, i);
        if (!expect(x.size() >= 3 && (int)x.size() == 3 + x[2] + nodesOf[type], "gmsh.elements.words", "element %d has %zu words: %s", i, x.size(), st().desc.c_str())) return;
        if (!expect(x[0] >= 1 && elOf.insert({ x[0], i }).second, "gmsh.elements.number", "element %d has the number %ld", i, x[0])) return;
        if (!expect(x[1] == gmshType[type], "gmsh.elements.type", "element %d of type %d is written as %ld", i, type, x[1])) return;
        auto m = members(f, i);
        for (size_t k = 0; k < m.size(); ++k) { auto q = nodeOf.find(x[3 + x[2] + k]); if (!expect(q != nodeOf.end() && q->second == m[k], "gmsh.elements.nodes", "element %d node %zu: %s", i, k, st().desc.c_str())) return; }
    }
    t.is("$EndElements");
    if (values) {
        const char* W = centers ? "ElementData" : "NodeData";
        t.is(fmt("$%s", W));
        t.is("1");
        t.is("\"" + view + "\"");
        long nr = t.count(); for (long k = 0; k < nr; ++k) t.nums(1);
        long ni = t.count();
        if (t.why.empty() && ni < 3) t.why = "less than three integer tags";
        std::vector<long> tag; for (long k = 0; k < ni && t.why.empty(); ++k) tag.push_back(t.count());
        int n = centers ? nE : nN;
        if (t.why.empty()) expect(tag[1] == dofs && tag[2] == n, "gmsh.data.count", "%ld components of %ld values announced instead of %d of %d", tag[1], tag[2], dofs, n);
        std::set<long> seen;
        for (int i = 0; i < n && t.why.empty(); ++i) {
            auto x = t.nums(1 + dofs);
            if (!t.why.empty()) break;
            auto& of = centers ? elOf : nodeOf;
            auto q = of.find((long)x[0]);
            if (!expect(q != of.end() && seen.insert((long)x[0]).second, "gmsh.data.number", "value %d is given to %g: %s", i, x[0], st().desc.c_str())) return;
            for (int d = 0; d < dofs; ++d) if (!expect(near(x[1 + d], f.u(q->second * dofs + d)), "gmsh.data.value", "value of %g is %.17g instead of %.17g: %s", x[0], x[1 + d], f.u(q->second * dofs + d), st().desc.c_str())) return;
        }
        t.is(fmt("$End%s", W));
        count("gmsh.values", n * dofs);
    }
    if (t.why.empty() && t.at != t.L.size()) t.why = "lines are left over";
    if (!expect(t.why.empty(), "gmsh.syntax", "%s: %s", t.why.c_str(), st().desc.c_str())) return;
    Field back;
    if (R.flip(.3)) { Raw o = grid(ET_TRIANGLE, 2, 2, 0); Field g; put(R, o, back, 1, false, false); }
    if (!expect(pos.load(back, name), "gmsh.load", "could not be loaded: %s", st().desc.c_str())) return;
    if (!sameMesh(f, back, "gmsh.back")) return;
    if (R.flip(.1)) {
        faults(pos, f, "gmsh.fault", view);
        Field none;
        expect(!pos.load(none, scratch("missing.msh")), "gmsh.missing", "loaded what is not there");
    }
    sig(hashStr(st().desc));
    count("gmsh.nodes", nN); count("gmsh.elements", nE);
    nontrivial();
}

FAMILY(foreign, 300, 6000)
{
    // Gmsh files of others: numbers with gaps, tags, further sections and kinds of elements this library has not.
    std::string w;
    Raw r = anyMesh(R, w);
    Field f;
    put(R, r, f, 1, false, false);
    auto p = points(f);
    int nN = (int)p.size(), nE = f.mesh().nbElements();
    std::string nl = R.flip(.2) ? "\r\n" : "\n", text = "$MeshFormat" + nl + (R.flip() ? "2.2 0 8" : "2.1 0 8") + nl + "$EndMeshFormat" + nl;
    if (R.flip(.3)) text += "$Comments" + nl + "12 Elements of some kind" + nl + "$EndComments" + nl;
    if (R.flip(.3)) text += "$PhysicalNames" + nl + "2" + nl + "1 1 \"wall\"" + nl + "2 2 \"inside\"" + nl + "$EndPhysicalNames" + nl;
    int step = R.ri(1, 5), first = R.flip() ? 1 : R.ri(1, 1000);
    std::vector<int> num(nN), order(nN);
    for (int i = 0; i < nN; ++i) { num[i] = first + i * step; order[i] = i; }
    bool mixed = R.flip(.3);
    if (mixed) R.shuffle(order);
    text += "$Nodes" + nl + fmt("%d", nN) + nl;
    int style = R.ri(0, 2);
    for (int i : order) text += style == 0 ? fmt("%d %.16g %.16g %.16g", num[i], p[i].x, p[i].y, p[i].z) + nl : style == 1 ? fmt("%d  %.17e %.17e   %.17e", num[i], p[i].x, p[i].y, p[i].z) + nl : fmt(" %d\t%.17g\t%.17g\t%.17g ", num[i], p[i].x, p[i].y, p[i].z) + nl;
    text += "$EndNodes" + nl;
    std::string els;
    int id = R.ri(1, 50), others = 0, tags = R.ri(0, 4);
    std::vector<int> want;
    for (int i = 0; i < nE; ++i) {
        if (R.flip(.1)) { els += fmt("%d 8 2 1 1 %d %d %d", id, num[0], num[nN / 2], num[nN - 1]) + nl; id += R.ri(1, 3); ++others; }
        els += fmt("%d %d %d", id, gmshType[typeOf(f, i)], tags);
        for (int k = 0; k < tags; ++k) els += fmt(" %d", R.ri(0, 20));
        for (int n : members(f, i)) els += fmt(" %d", num[n]);
        els += nl;
        want.push_back(id - 1);
        id += R.ri(1, 3);
    }
    text += "$Elements" + nl + fmt("%d", nE + others) + nl + els + "$EndElements" + nl;
    if (R.flip(.3)) text += "$NodeData" + nl + "1" + nl + "\"u\"" + nl + "1" + nl + "0.0" + nl + "3" + nl + "0" + nl + "1" + nl + "1" + nl + fmt("%d 1.0", num[0]) + nl + "$EndNodeData" + nl;
    describe(w + fmt(", numbers %d + i * %d%s, %d tags, %d others", first, step, mixed ? " mixed" : "", tags, others));
    std::string name = scratch("o.msh");
    { std::ofstream o(name, std::ios::binary); o << text; }
    Field g;
    CPosGmsh<D> pos;
    if (!expect(pos.load(g, name), "foreign.load", "could not be loaded: %s", st().desc.c_str())) return;
    if (!expect(g.mesh().nbNodes() == nN && g.mesh().nbElements() == nE, "foreign.count", "%d nodes and %d elements instead of %d and %d: %s", g.mesh().nbNodes(), g.mesh().nbElements(), nN, nE, st().desc.c_str())) return;
    for (int i = 0; i < nN; ++i) {
        if (!expect(g.mesh().nodeId(i) == num[order[i]] - 1, "foreign.node.number", "node %d has identifier %d instead of %d", i, g.mesh().nodeId(i), num[order[i]] - 1)) return;
        if (!expect(near(v3(g.mesh().node(num[order[i]] - 1)), p[order[i]]), "foreign.node", "node %d is elsewhere", i)) return;
    }
    for (int i = 0; i < nE; ++i) {
        if (!expect(g.mesh().elementId(i) == want[i], "foreign.element.number", "element %d has identifier %d instead of %d", i, g.mesh().elementId(i), want[i])) return;
        auto& e = g.mesh().element(want[i]);
        auto m = members(f, i);
        bool ok = e.elementType() == typeOf(f, i) && e.nbNodeIds() == (int)m.size();
        for (size_t k = 0; ok && k < m.size(); ++k) ok = e.nodeId((int)k) == num[m[k]] - 1;
        if (!expect(ok, "foreign.element", "element %d is another one: %s", i, st().desc.c_str())) return;
    }
    count("foreign.others", others);
    sig(hashStr(text));
    nontrivial();
}

FAMILY(vtk, 350, 6000)
{
    std::string w;
    Raw r = anyMesh(R, w);
    Field f;
    int dofs = R.ri(1, 3);
    bool centers = R.flip(), values = R.flip(.8);
    put(R, r, f, dofs, centers, values);
    describe(w + fmt(", %zu nodes, %zu elements, %d dofs at %s, %s", r.nodes.size(), r.els.size(), dofs, centers ? "centers" : "nodes", values ? "values" : "no values"));
    CPosVtk<D> pos;
    std::string name = scratch("f.vtk");
    if (!expect(pos.save(f, name), "vtk.save", "could not be saved")) return;
    auto p = points(f);
    int nN = (int)p.size(), nE = f.mesh().nbElements();
    Text t;
    t.open(name);
    std::string l = t.line();
    if (l.compare(0, 22, "# vtk DataFile Version") != 0) t.why = "no VTK header";
    t.line();
    t.is("ASCII");
    t.is("DATASET UNSTRUCTURED_GRID");
    auto q = t.words(); q.resize(3);
    if (t.why.empty() && (q[0] != "POINTS" || t.whole(q[1]) != nN || (q[2] != "float" && q[2] != "double"))) t.why = "no POINTS line for all nodes";
    for (int i = 0; i < nN && t.why.empty(); ++i) {
        auto x = t.nums(3);
        if (t.why.empty() && !expect(near(V3(x[0], x[1], x[2]), p[i]), "vtk.points", "node %d at %.17g %.17g %.17g instead of %.17g %.17g %.17g", i, x[0], x[1], x[2], p[i].x, p[i].y, p[i].z)) return;
    }
    q = t.words(); q.resize(3);
    long total = t.why.empty() && q[0] == "CELLS" ? t.whole(q[2]) : -1, sum = 0;
    if (t.why.empty() && (q[0] != "CELLS" || t.whole(q[1]) != nE)) t.why = "no CELLS line for all elements";
    std::vector<std::vector<int>> cells;
    for (int i = 0; i < nE && t.why.empty(); ++i) {
        auto s = t.words();
        std::vector<int> c;
        for (auto& k : s) c.push_back((int)t.whole(k));
        sum += (long)c.size();
        int type = typeOf(f, i);
        auto m = members(f, i);
        if (!expect(!c.empty() && c[0] + 1 == (int)c.size() && c[0] == nodesOf[type], "vtk.cells.words", "element %d of type %d has %zu words: %s", i, type, c.size(), st().desc.c_str())) return;
        c.erase(c.begin());
        if (type == ET_TETRAHEDRON) {
            std::vector<int> a = c, b = m;
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            if (!expect(a == b, "vtk.cells.nodes", "element %d has other nodes: %s", i, st().desc.c_str())) return;
            // VTK's tetrahedra have their last vertex where the normal of the first three points, here it is on the other side
            double d = (p[c[1]] - p[c[0]]).cross(p[c[2]] - p[c[0]]).dot(p[c[3]] - p[c[0]]), e = (p[m[1]] - p[m[0]]).cross(p[m[2]] - p[m[0]]).dot(p[m[3]] - p[m[0]]);
            if (!expect(d * e < 0, "vtk.cells.side", "element %d is inside out: %s", i, st().desc.c_str())) return;
        } else if (!expect(c == m, "vtk.cells.nodes", "element %d has other nodes: %s", i, st().desc.c_str())) return;
    }
    if (t.why.empty()) expect(sum == total, "vtk.cells.size", "%ld numbers, %ld announced: %s", sum, total, st().desc.c_str());
    t.is(fmt("CELL_TYPES %d", nE));
    for (int i = 0; i < nE && t.why.empty(); ++i) { long c = t.count(); if (t.why.empty() && !expect(c == vtkType[typeOf(f, i)], "vtk.types", "element %d of type %d is written as %ld", i, typeOf(f, i), c)) return; }
    if (values) {
        int n = centers ? nE : nN;
        t.is(fmt("%s %d", centers ? "CELL_DATA" : "POINT_DATA", n));
        q = t.words();
        if (t.why.empty() && (q.size() < 3 || q[0] != "SCALARS" || (q.size() == 3 ? 1 : t.whole(q[3])) != dofs)) t.why = "no SCALARS line for all components";
        q = t.words(); q.resize(2);
        if (t.why.empty() && q[0] != "LOOKUP_TABLE") t.why = "no LOOKUP_TABLE line";
        for (int i = 0; i < n && t.why.empty(); ++i) {
            auto x = t.nums(dofs);
            for (int d = 0; d < dofs && t.why.empty(); ++d) if (!expect(near(x[d], f.u(i * dofs + d)), "vtk.values", "value %d is %.17g instead of %.17g: %s", i, x[d], f.u(i * dofs + d), st().desc.c_str())) return;
        }
        count("vtk.values", n * dofs);
    }
    if (t.why.empty() && t.at != t.L.size()) t.why = "lines are left over";
    if (!expect(t.why.empty(), "vtk.syntax", "%s: %s", t.why.c_str(), st().desc.c_str())) return;
    if (R.flip(.1)) faults(pos, f, "vtk.fault");
    sig(hashStr(st().desc));
    count("vtk.elements", nE);
    nontrivial();
}

FAMILY(gnuplot, 300, 5000)
{
    std::string w;
    Raw r = anyMesh(R, w);
    r.els.erase(std::remove_if(r.els.begin(), r.els.end(), [](const El& e) { return e.type == ET_NODE; }), r.els.end());
    Field f;
    int dofs = R.ri(1, 3);
    bool centers = R.flip();
    put(R, r, f, dofs, centers, true);
    if (centers) f.mesh().calculateElementCentroid();
    describe(w + fmt(", %zu nodes, %zu elements, %d dofs at %s", r.nodes.size(), r.els.size(), dofs, centers ? "centers" : "nodes"));
    CPosGnuplot<D> pos;
    std::string name = scratch("f.dat");
    if (!expect(pos.save(f, name), "gnuplot.save", "could not be saved")) return;
    auto p = points(f);
    int n = centers ? f.mesh().nbElements() : (int)p.size();
    Text t;
    t.open(name);
    while (t.more() && (t.L[t.at].empty() || t.L[t.at][0] == '#')) ++t.at;
    std::set<long> seen;
    for (int i = 0; i < n && t.why.empty(); ++i) {
        auto x = t.nums(4 + dofs);
        if (!t.why.empty()) break;
        V3 at;
        if (!centers) at = p[i];
        else {
            auto m = members(f, i);
            int type = typeOf(f, i);
            at = v3(f.mesh().elementCentroid(f.mesh().elementId(i)));
            if (type == ET_BEAM || type == ET_TRIANGLE || type == ET_TETRAHEDRON) { // known for sure
                V3 c;
                double size = 0;
                for (int k : m) { c = c + p[k]; size = std::max(size, p[k].norm()); }
                expect((c * (1. / m.size()) - at).norm() < 1e-12 * size, "gnuplot.center", "center of element %d: %s", i, st().desc.c_str());
            }
        }
        if (!expect(seen.insert((long)x[0]).second && x[0] == std::floor(x[0]), "gnuplot.number", "line %d has the number %g", i, x[0])) return;
        if (!expect(near(V3(x[1], x[2], x[3]), at), "gnuplot.place", "line %d is about %.17g %.17g %.17g instead of %.17g %.17g %.17g: %s", i, x[1], x[2], x[3], at.x, at.y, at.z, st().desc.c_str())) return;
        for (int d = 0; d < dofs; ++d) if (!expect(near(x[4 + d], f.u(i * dofs + d)), "gnuplot.value", "line %d has the value %.17g instead of %.17g: %s", i, x[4 + d], f.u(i * dofs + d), st().desc.c_str())) return;
    }
    if (t.why.empty() && t.at != t.L.size()) t.why = "lines are left over";
    if (!expect(t.why.empty(), "gnuplot.syntax", "%s: %s", t.why.c_str(), st().desc.c_str())) return;
    if (R.flip(.1)) faults(pos, f, "gnuplot.fault");
    sig(hashStr(st().desc));
    count("gnuplot.lines", n);
    nontrivial();
}

FAMILY(quickmesh, 250, 4000)
{
    std::string w;
    Raw r = anyMesh(R, w, true);
    Field f;
    put(R, r, f, 1, false, false);
    describe(w + fmt(", %zu nodes, %zu elements", r.nodes.size(), r.els.size()));
    CPosQuickMesh<D> pos;
    std::string name = scratch("f.qm");
    if (!expect(pos.save(f, name), "quickmesh.save", "could not be saved")) return;
    auto p = points(f);
    int nN = (int)p.size(), nE = f.mesh().nbElements();
    Text t;
    t.open(name);
    t.is(fmt("P %d", nN));
    t.is(fmt("T %d", nE));
    for (int i = 0; i < nN && t.why.empty(); ++i) {
        auto s = t.words(); s.resize(5);
        if (s[0] != "C" || t.whole(s[1]) != i + 1) { if (t.why.empty()) t.why = fmt("no line of node %d", i + 1); break; }
        if (!expect(near(V3(t.num(s[2]), t.num(s[3]), t.num(s[4])), p[i]), "quickmesh.place", "node %d is elsewhere", i)) return;
    }
    for (int i = 0; i < nE && t.why.empty(); ++i) {
        auto s = t.words(); s.resize(7);
        if (s[0] != "t" || t.whole(s[1]) != i + 1) { if (t.why.empty()) t.why = fmt("no line of element %d", i + 1); break; }
        auto m = members(f, i);
        for (int k = 0; k < 4; ++k) if (!expect(t.whole(s[2 + k]) == m[k] + 1, "quickmesh.nodes", "element %d has other nodes: %s", i, st().desc.c_str())) return;
    }
    if (t.why.empty() && t.at != t.L.size()) t.why = "lines are left over";
    if (!expect(t.why.empty(), "quickmesh.syntax", "%s: %s", t.why.c_str(), st().desc.c_str())) return;
    Field back;
    if (!expect(pos.load(back, name), "quickmesh.load", "could not be loaded: %s", st().desc.c_str())) return;
    sameMesh(f, back, "quickmesh.back");
    if (R.flip(.1)) {
        faults(pos, f, "quickmesh.fault");
        Field none;
        expect(!pos.load(none, scratch("missing.qm")), "quickmesh.missing", "loaded what is not there");
    }
    sig(hashStr(st().desc));
    count("quickmesh.nodes", nN); count("quickmesh.elements", nE);
    nontrivial();
}
