// P28: readers of STL, Gmsh and QuickMesh files on damaged bytes. Sanitizers watch memory, a CPU limit watches for hangs, the monitors walk all references of what was read.
#include "mon.hpp"
#include "meshes.hpp"
#include "PdeField.hpp"
using namespace ENigMA::mesh;
using namespace ENigMA::geometry;
#include "PosGmsh.hpp"
#include "PosQuickMesh.hpp"
#include "StlUtils.hpp"
#include <fstream>
#include <sstream>
#include <climits>
#include <sys/stat.h>
using namespace mon;
using namespace gen;
using namespace meshes;
using namespace ENigMA::pde;
using namespace ENigMA::post;
using namespace ENigMA::stl;
typedef CPdeField<D> Field;
typedef CStlUtils<D> Stl;

static std::string slurp(const std::string& n) { std::ifstream i(n, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& n, const std::string& s) { std::ofstream o(n, std::ios::binary); o << s; }

static std::string stlFile(Rng& R, bool ascii)
{
    Stl s;
    int n = R.ri(0, 12);
    for (int i = 0; i < n; ++i) {
        CStlFacet<D> f;
        for (int k = 0; k < 3; ++k) { auto p = as<CGeoCoordinate<D>>(inBox(R, 10)); f.addVertex(p); }
        f.calculateNormal();
        f.extra[0] = f.extra[1] = 0;
        s.stlFile().addFacet(i, f);
    }
    s.stlFile().stats.type = ascii ? FT_ASCII : FT_BINARY;
    std::string name = scratch("seed.stl");
    s.save(name);
    return slurp(name);
}
static std::string meshFile(Rng& R, bool quick)
{
    Raw r = grid(quick ? ET_TETRAHEDRON : R.pick(std::vector<int>{ ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON }), R.ri(1, 2), R.ri(1, 2), R.ri(1, 2));
    if (R.flip()) renumber(R, r, 3);
    Field f;
    Mesh m;
    fill(m, r);
    f.setMesh(m);
    f.setNbDofs(1);
    if (R.flip(.3)) { f.u.resize(m.nbNodes()); for (int i = 0; i < f.u.size(); ++i) f.u(i) = i; }
    std::string name = scratch("seed.msh");
    if (quick) { CPosQuickMesh<D> p; p.save(f, name); } else { CPosGmsh<D> p; p.save(f, name, "u"); }
    return slurp(name);
}
static const char* nasty[] = { "0", "-1", "1", "2147483647", "-2147483648", "2147483648", "4294967295", "99999999999999999999", "1e308", "1e999", "-1e999", "nan", "inf", "0x10", "1e-320", "", "-", ".", "+", "abc", "1.5", "15", "7", "6", "\"", "1 1 1 1", "\n", "$Nodes", "$Elements", "$EndNodes", "facet", "vertex", "endfacet", "solid", "C", "t" };
static std::string damage(Rng& R, std::string s, const std::string& other, std::string& how)
{
    int n = R.ri(1, 3);
    for (int i = 0; i < n; ++i) {
        int k = R.ri(0, 10);
        size_t a = s.empty() ? 0 : R.ri(0, (int)s.size() - 1), b = s.empty() ? 0 : R.ri(0, (int)s.size() - 1);
        if (a > b) std::swap(a, b);
        switch (k) {
        case 0: s.resize(a); how += fmt(" cut@%zu", a); break;
        case 1: if (!s.empty()) s[a] ^= 1 << R.ri(0, 7); how += fmt(" bit@%zu", a); break;
        case 2: for (int m = R.ri(1, 8); m > 0 && !s.empty(); --m) s[R.ri(0, (int)s.size() - 1)] = (char)R.ri(0, 255); how += " bytes"; break;
        case 3: s.erase(a, std::min<size_t>(b - a, R.ri(1, 60))); how += fmt(" gap@%zu", a); break;
        case 4: { std::string t = s.substr(a, std::min<size_t>(b - a, R.ri(1, 200))); s.insert(b, t); how += " twice"; break; }
        case 5: { std::string t; for (int m = R.ri(1, 60); m > 0; --m) t += (char)R.ri(0, 255); s.insert(a, t); how += " noise"; break; }
        case 6: case 7: case 8: { // replace a word
            std::vector<std::pair<size_t, size_t>> w;
            for (size_t p = 0; p < s.size();) { while (p < s.size() && isspace((unsigned char)s[p])) ++p; size_t q = p; while (q < s.size() && !isspace((unsigned char)s[q])) ++q; if (q > p) w.push_back({ p, q }); p = q; }
            if (w.empty()) break;
            auto x = R.flip(.4) ? w[R.ri(0, std::min<int>(11, (int)w.size() - 1))] : w[R.ri(0, (int)w.size() - 1)];
            const char* z = nasty[R.ri(0, (int)(sizeof nasty / sizeof *nasty) - 1)];
            s.replace(x.first, x.second - x.first, z);
            how += std::string(" word:") + (*z == '\n' ? "nl" : z);
            break; }
        case 9: { // exchange two lines
            std::vector<std::string> L;
            std::istringstream in(s);
            std::string l;
            while (std::getline(in, l)) L.push_back(l);
            if (L.size() < 2) break;
            if (R.flip()) std::swap(L[R.ri(0, (int)L.size() - 1)], L[R.ri(0, (int)L.size() - 1)]); else L.erase(L.begin() + R.ri(0, (int)L.size() - 1));
            s.clear();
            for (auto& x : L) s += x + "\n";
            how += " lines"; break; }
        default: s = R.flip() ? s + other : s.substr(0, a) + other.substr(std::min(other.size(), b)); how += " mixed";
        }
    }
    return s;
}
static std::string any(Rng& R, int kind)
{
    switch (kind) {
    case 0: return stlFile(R, true);
    case 1: return stlFile(R, false);
    case 2: return meshFile(R, false);
    case 3: return meshFile(R, true);
    default: { std::string s; for (int m = R.ri(0, 600); m > 0; --m) s += (char)(R.flip(.7) ? R.ri(32, 126) : R.ri(0, 255)); return s; }
    }
}
static std::string bytes(Rng& R, int kind)
{
    const char* names[] = { "ASCII STL", "binary STL", "Gmsh", "QuickMesh", "noise" };
    int k = R.flip(.85) ? kind : R.ri(0, 4);
    std::string how, s = any(R, k), o = any(R, R.flip(.7) ? kind : R.ri(0, 4));
    if (R.flip(.95)) s = damage(R, s, o, how);
    for (auto& c : how) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
    describe(fmt("%s:%s", names[k], how.c_str()));
    return s;
}

static void checkStl(Stl& s, size_t size)
{
    auto& f = s.stlFile();
    if (!expect(f.nbFacets() >= 0 && (size_t)f.nbFacets() <= size / 20 + 1, "stl.count", "%d facets in %zu bytes: %s", f.nbFacets(), size, st().desc.c_str())) return;
    std::set<int> ids;
    bool tame = true;
    for (int i = 0; i < f.nbFacets(); ++i) {
        int id = f.facetId(i);
        if (!expect(ids.insert(id).second, "stl.identifier", "identifier %d twice: %s", id, st().desc.c_str())) return;
        auto& x = f.facet(id);
        if (!expect(x.nbVertices() == 3, "stl.vertices", "facet %d has %d vertices: %s", id, x.nbVertices(), st().desc.c_str())) return;
        for (int k = 0; k < 3; ++k) for (double c : { x.vertex(k).x(), x.vertex(k).y(), x.vertex(k).z() }) tame = tame && std::fabs(c) < 1e6;
    }
    expect(std::memchr(f.stats.header, 0, sizeof f.stats.header), "stl.title", "the title has no end: %s", st().desc.c_str());
    if (tame && f.nbFacets() < 200) { // what was read can be used
        s.generateConnectivity(1e-6);
        for (int i = 0; i < f.nbFacets(); ++i) for (int k = 0; k < 3; ++k) {
            int n = f.facet(f.facetId(i)).edge(k).neighbor();
            if (!expect(n == -1 || ids.count(n), "stl.neighbour", "facet %d has the neighbour %d: %s", f.facetId(i), n, st().desc.c_str())) return;
        }
        s.checkEdges(.5);
        s.removeDuplicateFacets(1e-6);
        s.removeInvalidFacets(1e-6);
        count("stl.used");
    }
    std::string name = scratch("again.stl");
    expect(s.save(name), "stl.save", "what was read cannot be saved: %s", st().desc.c_str());
    Stl t;
    if (f.nbFacets() > 0 && expect(t.load(name), "stl.again", "what was saved cannot be read: %s", st().desc.c_str())) expect(t.stlFile().nbFacets() == f.nbFacets(), "stl.again.count", "%d facets instead of %d: %s", t.stlFile().nbFacets(), f.nbFacets(), st().desc.c_str());
}
static bool checkMesh(Mesh& m, size_t size)
{
    if (!expect((size_t)m.nbNodes() <= size / 7 + 1 && (size_t)m.nbElements() <= size / 5 + 1, "mesh.count", "%d nodes and %d elements in %zu bytes: %s", m.nbNodes(), m.nbElements(), size, st().desc.c_str())) return false;
    std::set<int> ids, eids;
    for (int i = 0; i < m.nbNodes(); ++i) {
        if (!expect(ids.insert(m.nodeId(i)).second && m.nodeIndex(m.nodeId(i)) == i, "mesh.node", "node %d: %s", i, st().desc.c_str())) return false;
        auto p = v3(m.node(m.nodeId(i)));
        if (!expect(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z), "mesh.finite", "node %d: %s", i, st().desc.c_str())) return false;
    }
    static const int nodesOf[] = { 0, 1, 2, 3, 4, 4, 6, 8 };
    for (int i = 0; i < m.nbElements(); ++i) {
        int id = m.elementId(i);
        if (!expect(eids.insert(id).second && m.elementIndex(id) == i, "mesh.element", "element %d: %s", i, st().desc.c_str())) return false;
        auto& e = m.element(id);
        if (!expect(e.elementType() >= ET_NODE && e.elementType() <= ET_HEXAHEDRON && e.nbNodeIds() == nodesOf[e.elementType()], "mesh.type", "element %d of type %d with %d nodes: %s", i, e.elementType(), e.nbNodeIds(), st().desc.c_str())) return false;
        for (int k = 0; k < e.nbNodeIds(); ++k) if (!expect(ids.count(e.nodeId(k)), "mesh.reference", "element %d has the node %d, which is not there: %s", i, e.nodeId(k), st().desc.c_str())) return false;
    }
    return true;
}
static int tally[2];
template <class F> static bool timed(F f, size_t size)
{
    double t0 = clock() / (double)CLOCKS_PER_SEC;
    bool r = f();
    double t = clock() / (double)CLOCKS_PER_SEC - t0;
    expect(t < 1 + size * 1e-5, "slow", "%g s for %zu bytes: %s", t, size, st().desc.c_str());
    ++tally[r];
    count(r ? "read" : "refused");
    return r;
}

FAMILY_CPU(stl, 2500, 60000, 5)
{
    std::string s = bytes(R, R.ri(0, 1)), name = scratch("h.stl");
    spit(name, s);
    Stl x;
    if (R.flip(.2)) { spit(scratch("first.stl"), stlFile(R, R.flip())); x.load(scratch("first.stl")); }
    bool ok = timed([&] { return x.load(name); }, s.size());
    if (ok) checkStl(x, s.size());
    if (!ok || R.flip(.1)) { // the object can be used again
        std::string g = stlFile(R, R.flip());
        spit(scratch("good.stl"), g);
        if (g.size() > 84 + 50 && expect(x.load(scratch("good.stl")), "stl.recover", "an intact file cannot be read after %s", st().desc.c_str())) checkStl(x, g.size());
    }
    sig(hashStr(s));
    nontrivial();
}
FAMILY_CPU(gmsh, 2500, 60000, 5)
{
    std::string s = bytes(R, 2), name = scratch("h.msh");
    spit(name, s);
    Field x;
    CPosGmsh<D> p;
    bool ok = timed([&] { return p.load(x, name); }, s.size());
    if (checkMesh(x.mesh(), s.size()) && ok) {
        std::string again = scratch("again.msh");
        expect(p.save(x, again, "u"), "gmsh.save", "what was read cannot be saved: %s", st().desc.c_str());
        Field y;
        if (expect(p.load(y, again), "gmsh.again", "what was saved cannot be read: %s", st().desc.c_str())) expect(y.mesh().nbNodes() == x.mesh().nbNodes() && y.mesh().nbElements() == x.mesh().nbElements(), "gmsh.again.count", "%s", st().desc.c_str());
    }
    if (!ok) {
        spit(scratch("good.msh"), meshFile(R, false));
        expect(p.load(x, scratch("good.msh")), "gmsh.recover", "an intact file cannot be read after %s", st().desc.c_str());
        checkMesh(x.mesh(), 1 << 20);
    }
    sig(hashStr(s));
    nontrivial();
}
FAMILY_CPU(quickmesh, 1200, 20000, 5)
{
    std::string s = bytes(R, 3), name = scratch("h.qm");
    spit(name, s);
    Field x;
    CPosQuickMesh<D> p;
    timed([&] { return p.load(x, name); }, s.size());
    checkMesh(x.mesh(), s.size());
    sig(hashStr(s));
    nontrivial();
}
FAMILY_CPU(places, 12, 40, 5)
{
    // what is no file, or empty
    std::string d = scratch("dir");
    mkdir(d.c_str(), 0700);
    spit(scratch("empty"), "");
    std::vector<std::string> names = { d, scratch("empty"), scratch("missing"), "/dev/null", "" };
    for (auto& n : names) {
        describe(n);
        Stl s;
        if (timed([&] { return s.load(n); }, 0)) checkStl(s, 0);
        Field f, g;
        CPosGmsh<D> p;
        timed([&] { return p.load(f, n); }, 0);
        checkMesh(f.mesh(), 0);
        CPosQuickMesh<D> q;
        timed([&] { return q.load(g, n); }, 0);
        checkMesh(g.mesh(), 0);
    }
    // long lines and long files
    int kind = R.ri(0, 3);
    std::string s = any(R, kind), nl;
    size_t at = R.ri(0, (int)s.size());
    s.insert(at, std::string(R.ri(1, 20) * 100000, R.pick(std::vector<char>{ ' ', '1', 'x', '\n', '\0', '-', '.' })));
    describe(fmt("kind %d, a long line at %zu", kind, at));
    spit(scratch("long"), s);
    Stl x;
    if (timed([&] { return x.load(scratch("long")); }, s.size())) checkStl(x, s.size());
    Field f, g;
    CPosGmsh<D> p;
    timed([&] { return p.load(f, scratch("long")); }, s.size());
    checkMesh(f.mesh(), s.size());
    CPosQuickMesh<D> q;
    timed([&] { return q.load(g, scratch("long")); }, s.size());
    checkMesh(g.mesh(), s.size());
    sig(hashStr(s));
    nontrivial();
}
