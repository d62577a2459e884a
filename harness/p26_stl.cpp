// P26: facets, their files and the operations that repair them.
#include "meshes.hpp"
#include <cstring>
#include <set>
#include <map>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "CmnTypes.hpp"
#include "MshBasicMesher.hpp"
#include "StlUtils.hpp"
using namespace meshes;
using namespace mon;
using namespace ENigMA::mesh;
using namespace ENigMA::stl;
using namespace ENigMA::geometry;
typedef CStlUtils<D> Stl;
typedef CStlFacet<D> Facet;
typedef CGeoCoordinate<D> C;
typedef std::array<int, 3> T3;
struct Surface { std::vector<V3> P; std::vector<T3> F; };

static int pointAt(std::map<std::array<long, 3>, int>& at, Surface& s, const V3& p)
{
    std::array<long, 3> k = { { std::lround(p.x * 1e6), std::lround(p.y * 1e6), std::lround(p.z * 1e6) } };
    auto r = at.insert({ k, (int)s.P.size() });
    if (r.second) s.P.push_back(p);
    return r.first->second;
}
// The skin of a box cut into triangles; points inside of its faces may be moved within them.
static Surface boxSkin(Rng& R, int nu, int nv, int nw, double jitter)
{
    Surface s;
    std::map<std::array<long, 3>, int> at;
    int n[3] = { nu, nv, nw };
    for (int ax = 0; ax < 3; ++ax)
        for (int side = 0; side < 2; ++side) {
            int u = (ax + 1) % 3, v = (ax + 2) % 3;
            auto point = [&](int i, int j) {
                double c[3];
                c[ax] = side;
                c[u] = double(i) / n[u];
                c[v] = double(j) / n[v];
                return pointAt(at, s, V3(c[0], c[1], c[2]));
            };
            for (int i = 0; i < n[u]; ++i)
                for (int j = 0; j < n[v]; ++j) {
                    int a = point(i, j), b = point(i + 1, j), c = point(i + 1, j + 1), d = point(i, j + 1);
                    if (!side) std::swap(b, d);
                    if (R.flip()) { s.F.push_back({ { a, b, c } }); s.F.push_back({ { a, c, d } }); }
                    else { s.F.push_back({ { a, b, d } }); s.F.push_back({ { b, c, d } }); }
                }
        }
    for (auto& p : s.P) {
        double* c[3] = { &p.x, &p.y, &p.z };
        int fixed = 0;
        for (int a = 0; a < 3; ++a) fixed += *c[a] == 0 || *c[a] == 1;
        if (fixed == 1)
            for (int a = 0; a < 3; ++a) if (*c[a] != 0 && *c[a] != 1) *c[a] += R.uni(-1, 1) * jitter / n[a];
    }
    return s;
}
static Surface ball(Rng& R, int n, double noise)
{
    Surface s = boxSkin(R, n, n, n, 0);
    for (auto& p : s.P) p = (p - V3(.5, .5, .5)).unit() * (1 + R.uni(-1, 1) * noise);
    return s;
}
static Surface sheet(Rng& R, int nu, int nv, double noise)
{
    Surface s;
    for (int j = 0; j <= nv; ++j) for (int i = 0; i <= nu; ++i) s.P.push_back(V3(double(i) / nu, double(j) / nv, R.uni(-1, 1) * noise));
    for (int j = 0; j < nv; ++j)
        for (int i = 0; i < nu; ++i) {
            int a = j * (nu + 1) + i, b = a + 1, d = a + nu + 1, c = d + 1;
            if (R.flip()) { s.F.push_back({ { a, b, c } }); s.F.push_back({ { a, c, d } }); }
            else { s.F.push_back({ { a, b, d } }); s.F.push_back({ { b, c, d } }); }
        }
    return s;
}
static Surface cone(int n)
{
    Surface s;
    s.P = { V3(0, 0, 1), V3(0, 0, 0) };
    for (int i = 0; i < n; ++i) s.P.push_back(V3(std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0));
    for (int i = 0; i < n; ++i) { int a = 2 + i, b = 2 + (i + 1) % n; s.F.push_back({ { 0, a, b } }); s.F.push_back({ { 1, b, a } }); }
    return s;
}
static Surface tetra() { Surface s; s.P = { V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1) }; s.F = { { { 0, 2, 1 } }, { { 0, 1, 3 } }, { { 1, 2, 3 } }, { { 0, 3, 2 } } }; return s; }
static void join(Surface& a, const Surface& b, const V3& t)
{
    int n = (int)a.P.size();
    for (auto& p : b.P) a.P.push_back(p + t);
    for (auto& f : b.F) a.F.push_back({ { f[0] + n, f[1] + n, f[2] + n } });
}
static Surface anySurface(Rng& R, std::string& w, bool& isClosed)
{
    Surface s;
    int k = R.ri(0, 5);
    isClosed = k != 2 && k != 3;
    if (k == 0) { int a = R.ri(1, 4), b = R.ri(1, 4), c = R.ri(1, 4); s = boxSkin(R, a, b, c, R.flip() ? .3 : 0); w = fmt("box %dx%dx%d", a, b, c); }
    else if (k == 1) { int n = R.ri(1, 5); s = ball(R, n, R.uni(0, .1)); w = fmt("ball %d", n); }
    else if (k == 2) { int a = R.ri(1, 6), b = R.ri(1, 6); s = sheet(R, a, b, R.flip() ? 0 : .1); w = fmt("sheet %dx%d", a, b); }
    else if (k == 3) { s.P = { V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0) }; s.F = { { { 0, 1, 2 } } }; w = "one facet"; }
    else if (k == 4) { s = tetra(); w = "tetrahedron"; }
    else { int n = R.ri(3, R.flip(.2) ? 140 : 12); s = cone(n); w = fmt("cone %d", n); }
    return s;
}
static void place(Surface& s, Rng& R, double scale, double shift)
{
    Rigid g = randomRigid(R);
    g.s = scale;
    g.t = inBox(R, shift);
    for (auto& p : s.P) p = g(p);
}
// A surface in the hands of the library: the facets with their identifiers, order and first vertices mixed.
struct Body {
    Surface s;
    Stl stl;
    std::vector<int> id; // of facet k of the surface
};
static void turnFacets(Surface& s, Rng& R) { for (auto& f : s.F) { int r = R.ri(0, 2); std::rotate(f.begin(), f.begin() + r, f.end()); } }
static std::vector<int> someIds(Rng& R, int n, bool dense)
{
    std::vector<int> id(n);
    for (int i = 0; i < n; ++i) id[i] = dense ? i : i * 3 + 7 + (i % 5 == 2);
    if (!dense || R.flip()) R.shuffle(id);
    return id;
}
static Facet facetOf(const Surface& s, const T3& f, double noise = 0, Rng* R = nullptr)
{
    Facet a;
    for (int i : f) { V3 p = s.P[i]; if (noise > 0) p = p + unitVec(*R) * (R->u() * noise); a.addVertex(as<C>(p)); }
    return a;
}
static void load(Body& b, Rng& R, bool dense, double noise = 0)
{
    b.stl.stlFile().reset();
    b.id = someIds(R, (int)b.s.F.size(), dense);
    std::vector<int> o(b.s.F.size());
    for (size_t i = 0; i < o.size(); ++i) o[i] = (int)i;
    R.shuffle(o);
    for (int k : o) { Facet f = facetOf(b.s, b.s.F[k], noise, &R); b.stl.addFacet(b.id[k], f); }
}
typedef std::vector<std::array<V3, 3>> Soup;
static Soup soupOf(Stl& s)
{
    Soup r;
    for (int i = 0; i < s.stlFile().nbFacets(); ++i) {
        Facet& f = s.stlFile().facet(s.stlFile().facetId(i));
        r.push_back({ { v3(f.vertex(0)), v3(f.vertex(1)), v3(f.vertex(2)) } });
    }
    return r;
}
static V3 areaOf(const std::array<V3, 3>& f) { return (f[1] - f[0]).cross(f[2] - f[0]) * .5; }
static double areaOf(const Soup& s) { double a = 0; for (auto& f : s) a += areaOf(f).norm(); return a; }
static V3 vectorOf(const Soup& s) { V3 a; for (auto& f : s) a = a + areaOf(f); return a; }
static double volumeOf(const Soup& s) { double v = 0; if (s.empty()) return 0; V3 o = s[0][0]; for (auto& f : s) v += (f[0] - o).dot((f[1] - o).cross(f[2] - o)) / 6; return v; }
// Neighbours a reader finds by looking at the vertices of all facets.
struct Links { std::map<std::pair<int, int>, std::pair<int, int>> of; bool manifold = true; };
static Links linksOf(Stl& s, double tol)
{
    Links L;
    std::vector<V3> P;
    auto index = [&](const V3& p) { for (size_t i = 0; i < P.size(); ++i) if ((P[i] - p).norm() <= tol) return (int)i; P.push_back(p); return (int)P.size() - 1; };
    std::map<std::pair<int, int>, std::vector<std::pair<int, int>>> edges;
    for (int i = 0; i < s.stlFile().nbFacets(); ++i) {
        int id = s.stlFile().facetId(i);
        Facet& f = s.stlFile().facet(id);
        int v[3];
        for (int k = 0; k < 3; ++k) v[k] = index(v3(f.vertex(k)));
        for (int k = 0; k < 3; ++k) edges[{ std::min(v[k], v[(k + 1) % 3]), std::max(v[k], v[(k + 1) % 3]) }].push_back({ id, k });
    }
    for (auto& e : edges) {
        if (e.second.size() > 2) L.manifold = false;
        if (e.second.size() == 2) { L.of[e.second[0]] = e.second[1]; L.of[e.second[1]] = e.second[0]; }
    }
    return L;
}
static bool checkLinks(Stl& s, double tol, const char* key)
{
    Links L = linksOf(s, tol);
    if (!L.manifold) { count("notmanifold"); return false; }
    for (int i = 0; i < s.stlFile().nbFacets(); ++i) {
        int id = s.stlFile().facetId(i);
        Facet& f = s.stlFile().facet(id);
        for (int k = 0; k < 3; ++k) {
            auto it = L.of.find({ id, k });
            int n = it == L.of.end() ? -1 : it->second.first, v = it == L.of.end() ? -1 : (it->second.second + 2) % 3;
            if (!expect(f.edge(k).neighbor() == n && (n < 0 || f.edge(k).whichVertexNot() == v), key, "facet %d edge %d: neighbour %d opposite %d, should be %d opposite %d: %s", id, k,
                    f.edge(k).neighbor(), f.edge(k).whichVertexNot(), n, v, st().desc.c_str()))
                return false;
            if (n >= 0) count("links");
        }
    }
    return true;
}
static int unlikeNeighbours(Stl& s)
{
    int bad = 0;
    for (int i = 0; i < s.stlFile().nbFacets(); ++i) {
        Facet& f = s.stlFile().facet(s.stlFile().facetId(i));
        for (int k = 0; k < 3; ++k) {
            int n = f.edge(k).neighbor();
            if (n < 0) continue;
            Facet& g = s.stlFile().facet(n);
            V3 a = v3(f.vertex(k)), b = v3(f.vertex((k + 1) % 3));
            double like = 1e300, unlike = 1e300;
            for (int m = 0; m < 3; ++m) {
                V3 c = v3(g.vertex(m)), d = v3(g.vertex((m + 1) % 3));
                like = std::min(like, (c - b).norm() + (d - a).norm());
                unlike = std::min(unlike, (c - a).norm() + (d - b).norm());
            }
            bad += unlike < like;
        }
    }
    return bad;
}
// The normals kept with the facets are those of their vertices, where they have been set at all.
static void checkNormals(Stl& s, const char* key)
{
    for (int i = 0; i < s.stlFile().nbFacets(); ++i) {
        Facet& f = s.stlFile().facet(s.stlFile().facetId(i));
        V3 n = v3(f.normal());
        V3 a = areaOf(std::array<V3, 3> { { v3(f.vertex(0)), v3(f.vertex(1)), v3(f.vertex(2)) } });
        if (n.norm() < .5 || a.norm() < 1e-9) continue;
        if (!expect(n.dot(a.unit()) > 1 - 1e-6, key, "facet %d keeps the normal %g %g %g, has %g %g %g: %s", s.stlFile().facetId(i), n.x, n.y, n.z, a.unit().x, a.unit().y, a.unit().z, st().desc.c_str())) return;
    }
}

FAMILY(container, 300, 6000)
{
    // Facets by identifier, in the order they came.
    CStlFile<D> f;
    std::vector<int> order;
    std::map<int, V3> model;
    int n = R.ri(3, 60);
    describe(fmt("%d operations", n));
    for (int i = 0; i < n; ++i) {
        int op = R.ri(0, 9), id = R.ri(0, 14);
        if (op < 6) {
            V3 p = inBox(R);
            Facet a;
            for (int k = 0; k < 3; ++k) { C c = as<C>(p); a.addVertex(c); }
            if (!model.count(id)) order.push_back(id);
            model[id] = p;
            f.addFacet(id, a);
        } else if (op < 9) {
            if (model.erase(id)) order.erase(std::find(order.begin(), order.end(), id));
            f.removeFacet(id);
        } else if (R.flip(.1)) { f.reset(); order.clear(); model.clear(); }
        if (!expect(f.nbFacets() == (int)order.size(), "container.count", "%d facets instead of %zu", f.nbFacets(), order.size())) return;
        for (size_t k = 0; k < order.size(); ++k) {
            if (!expect(f.facetId((int)k) == order[k], "container.order", "facet %zu is %d instead of %d", k, f.facetId((int)k), order[k])) return;
            expect((v3(f.facet(order[k]).vertex(2)) - model[order[k]]).norm() == 0, "container.facet", "facet %d is another one", order[k]);
        }
        int next = f.nextFacetId();
        expect(!model.count(next) && (model.empty() || next > model.rbegin()->first), "container.next", "next identifier %d", next);
    }
    sig((uint64_t)order.size());
    if (!order.empty()) nontrivial();
}

static std::vector<V3> numbersIn(const std::string& name, bool& ok, std::string& why)
{
    // An ASCII file as the format has it: normal, three vertices per facet.
    std::ifstream in(name);
    std::vector<V3> r;
    std::string w;
    ok = false;
    if (!(in >> w) || w != "solid") { why = "no solid"; return r; }
    std::getline(in, w);
    while (in >> w && w == "facet") {
        auto word = [&](const char* e) { if (!(in >> w) || w != e) { why = fmt("'%s' instead of '%s'", w.c_str(), e); return false; } return true; };
        auto three = [&]() { std::string a, b, c; in >> a >> b >> c; r.push_back(V3(strtod(a.c_str(), 0), strtod(b.c_str(), 0), strtod(c.c_str(), 0))); };
        if (!word("normal")) return r;
        three();
        if (!word("outer") || !word("loop")) return r;
        for (int k = 0; k < 3; ++k) { if (!word("vertex")) return r; three(); }
        if (!word("endloop") || !word("endfacet")) return r;
    }
    ok = w == "endsolid";
    why = w;
    return r;
}
static bool close9(double a, double b, bool ascii) { return ascii ? std::fabs(a - b) <= 6e-9 * std::fabs(b) + 1e-300 : a == (double)(float)b; }
static bool close9(const V3& a, const V3& b, bool ascii) { return close9(a.x, b.x, ascii) && close9(a.y, b.y, ascii) && close9(a.z, b.z, ascii); }
static void checkStats(Stl& s, const char* key)
{
    V3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
    for (auto& f : soupOf(s)) for (auto& p : f) { lo = V3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)); hi = V3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)); }
    auto& t = s.stlFile().stats;
    expect((v3(t.min) - lo).norm() == 0 && (v3(t.max) - hi).norm() == 0 && (v3(t.size) - (hi - lo)).norm() == 0, key, "extent %g %g %g to %g %g %g (size %g %g %g), should be %g %g %g to %g %g %g",
        t.min.x(), t.min.y(), t.min.z(), t.max.x(), t.max.y(), t.max.z(), t.size.x(), t.size.y(), t.size.z(), lo.x, lo.y, lo.z, hi.x, hi.y, hi.z);
}
FAMILY(files, 300, 6000)
{
    Body b;
    std::string w;
    bool cl;
    b.s = anySurface(R, w, cl);
    if (R.flip(.2)) { b.s.F.resize(R.ri(1, std::min(6, (int)b.s.F.size()))); w += " in part"; }
    double sc = std::pow(10, R.uni(-6, 6));
    place(b.s, R, sc, sc * R.uni(0, 3));
    turnFacets(b.s, R);
    load(b, R, R.flip());
    bool ascii = R.flip(), normals = R.flip(.7);
    describe(fmt("%s of size %g with %zu facets, %s, %s", w.c_str(), sc, b.s.F.size(), ascii ? "ascii" : "binary", normals ? "normals" : "no normals"));
    for (int i = 0; i < b.stl.stlFile().nbFacets(); ++i) {
        Facet& f = b.stl.stlFile().facet(b.stl.stlFile().facetId(i));
        if (normals) f.calculateNormal();
        if (R.flip(.3)) { f.extra[0] = (char)R.ri(-128, 127); f.extra[1] = (char)R.ri(-128, 127); }
    }
    b.stl.stlFile().stats.type = ascii ? FT_ASCII : FT_BINARY;
    Soup before = soupOf(b.stl);
    std::string name = scratch("f.stl");
    expect(b.stl.save(name), "files.save", "could not be saved");
    std::ifstream raw(name, std::ios::binary);
    std::string bytes((std::istreambuf_iterator<char>(raw)), std::istreambuf_iterator<char>());
    size_t n = before.size();
    // what the file says to a reader of the format
    if (ascii) {
        bool ok;
        std::string why;
        auto v = numbersIn(name, ok, why);
        if (!expect(ok && v.size() == 4 * n, "files.syntax", "%zu lines of numbers for %zu facets, ends with %s", v.size(), n, why.c_str())) return;
        for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k)
            if (!expect(close9(v[4 * i + 1 + k], before[i][k], true), "files.text", "facet %zu vertex %d", i, k)) return;
    } else {
        if (!expect(bytes.size() == 84 + 50 * n, "files.size", "%zu bytes for %zu facets", bytes.size(), n)) return;
        uint32_t c;
        memcpy(&c, &bytes[80], 4);
        expect(c == n, "files.header", "%u facets in the header, %zu in the file", c, n);
        for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) {
            float x[3];
            memcpy(x, &bytes[84 + 50 * i + 12 + 12 * k], 12);
            if (!expect(close9(V3(x[0], x[1], x[2]), before[i][k], false), "files.bytes", "facet %zu vertex %d", i, k)) return;
        }
    }
    Stl fresh;
    Stl& in = R.flip(.3) ? b.stl : fresh;
    std::vector<V3> nrm;
    std::vector<std::array<char, 2>> extra;
    for (int i = 0; i < b.stl.stlFile().nbFacets(); ++i) { Facet& f = b.stl.stlFile().facet(b.stl.stlFile().facetId(i)); nrm.push_back(v3(f.normal())); extra.push_back(f.extra); }
    if (R.flip()) in.stlFile().stats.type = ascii ? FT_BINARY : FT_ASCII; // what it was before does not matter
    if (!expect(in.load(name), "files.load", "could not be loaded")) return;
    if (!expect(in.stlFile().nbFacets() == (int)n, "files.count", "%d facets instead of %zu", in.stlFile().nbFacets(), n)) return;
    expect(in.stlFile().stats.type == (ascii ? FT_ASCII : FT_BINARY), "files.type", "read as the other kind");
    expect((size_t)in.stlFile().stats.fileSize == bytes.size(), "files.filesize", "%lld bytes instead of %zu", (long long)in.stlFile().stats.fileSize, bytes.size());
    expect(in.stlFile().fileName == name, "files.name", "%s", in.stlFile().fileName.c_str());
    expect(std::strlen(in.stlFile().stats.header) <= 80 && (!ascii || std::string(in.stlFile().stats.header) == "solid"), "files.title", "title '%s'", in.stlFile().stats.header);
    Soup after = soupOf(in);
    for (size_t i = 0; i < n; ++i) {
        if (!expect(in.stlFile().facetId((int)i) == (int)i, "files.order", "facet %zu has identifier %d", i, in.stlFile().facetId((int)i))) return;
        Facet& f = in.stlFile().facet((int)i);
        for (int k = 0; k < 3; ++k)
            if (!expect(close9(after[i][k], before[i][k], ascii), "files.vertex", "facet %zu vertex %d: %.10g %.10g %.10g instead of %.10g %.10g %.10g", i, k, after[i][k].x, after[i][k].y, after[i][k].z,
                    before[i][k].x, before[i][k].y, before[i][k].z)) return;
        expect(close9(v3(f.normal()), nrm[i], ascii), "files.normal", "facet %zu: %g %g %g", i, f.normal().x(), f.normal().y(), f.normal().z());
        if (!ascii) expect(f.extra == extra[i], "files.extra", "facet %zu", i);
    }
    checkStats(in, "files.stats");
    // once more changes nothing
    in.stlFile().stats.type = ascii ? FT_ASCII : FT_BINARY;
    std::string name2 = scratch("g.stl");
    in.save(name2);
    Stl again;
    again.load(name2);
    Soup twice = soupOf(again);
    bool same = twice.size() == after.size();
    for (size_t i = 0; same && i < n; ++i) for (int k = 0; k < 3; ++k) same = same && close9(twice[i][k], after[i][k], true) ;
    expect(same, "files.again", "a second round changes the facets");
    expect(!in.save(scratch("no/such/place.stl")), "files.nowhere", "saved where nothing can be");
    Stl none;
    expect(!none.load(scratch("missing.stl")) && none.stlFile().nbFacets() == 0, "files.missing", "loaded what is not there");
    sigd(sc);
    count(ascii ? "ascii" : "binary");
    count("facets", n);
    nontrivial();
}

FAMILY(foreign, 250, 4000)
{
    // ASCII files as other programs write them.
    int solids = R.ri(1, 5);
    std::string text, nl = R.flip(.3) ? "\r\n" : "\n", in = R.flip() ? "" : R.flip() ? "\t" : "   ";
    std::vector<std::array<V3, 3>> want;
    int style = R.ri(0, 3);
    auto num = [&](double& v) {
        char b[64];
        switch (style) {
        case 0: snprintf(b, sizeof b, "%.9e", v); break;
        case 1: snprintf(b, sizeof b, "%g", v); break;
        case 2: snprintf(b, sizeof b, "%+.12f", v); break;
        default: v = std::floor(v * 10); snprintf(b, sizeof b, "%d", (int)v);
        }
        v = strtod(b, 0);
        return std::string(b);
    };
    for (int s = 0; s < solids; ++s) {
        std::string name = R.flip(.3) ? "" : R.flip() ? " part" : " part made with some program on some day, exported to a format that others can read";
        text += "solid" + name + nl;
        int n = R.ri(1, 7);
        for (int i = 0; i < n; ++i) {
            if (R.flip(.1)) text += nl;
            std::array<V3, 3> f;
            double z = 0, o = 1;
            text += in + "facet normal " + num(z) + " " + num(z) + " " + num(o) + nl + in + in + "outer loop" + (R.flip(.1) ? "  " : "") + nl;
            for (int k = 0; k < 3; ++k) {
                f[k] = inBox(R, 50);
                text += in + in + in + "vertex " + num(f[k].x) + (R.flip() ? " " : "  ") + num(f[k].y) + " " + num(f[k].z) + nl;
            }
            text += in + in + "endloop" + nl + in + "endfacet" + nl;
            want.push_back(f);
        }
        text += "endsolid" + name + (s == solids - 1 && R.flip(.3) ? "" : nl);
    }
    describe(fmt("%d solids, %zu facets, numbers in style %d, indented by %zu", solids, want.size(), style, in.size()));
    std::string name = scratch("o.stl");
    { std::ofstream o(name, std::ios::binary); o << text; }
    Stl s;
    if (!expect(s.load(name), "foreign.load", "could not be loaded:\n%.400s", text.c_str())) return;
    Soup got = soupOf(s);
    if (!expect(got.size() == want.size(), "foreign.count", "%zu facets instead of %zu", got.size(), want.size())) return;
    for (size_t i = 0; i < want.size(); ++i) for (int k = 0; k < 3; ++k)
        if (!expect((got[i][k] - want[i][k]).norm() < 1e-12, "foreign.vertex", "facet %zu vertex %d", i, k)) return;
    checkStats(s, "foreign.stats");
    sig((uint64_t)text.size());
    nontrivial();
}

FAMILY(links, 260, 5000)
{
    Body b;
    std::string w;
    bool cl;
    b.s = anySurface(R, w, cl);
    if (R.flip(.3)) { // a second part, apart or crossing the first one at the middle of an edge
        Surface c = b.s;
        if (cl || R.flip()) join(b.s, c, V3(4, 0, 0));
        else {
            auto f = b.s.F[R.ri(0, (int)b.s.F.size() - 1)];
            V3 p = b.s.P[f[0]], q = b.s.P[f[1]], m = (p + q) * .5, d = (q - p).unit(), t = d.cross(std::fabs(d.x) < .5 ? V3(1, 0, 0) : V3(0, 1, 0)).unit(), u = d.cross(t);
            for (auto& x : c.P) { V3 r = x - m; x = m + t * r.dot(d) - d * r.dot(t) + u * r.dot(u); }
            join(b.s, c, V3());
            w += " crossed";
        }
        w += " twice";
    }
    double sc = std::pow(10, R.uni(-2, 2));
    place(b.s, R, sc, sc);
    turnFacets(b.s, R);
    if (R.flip(.3)) for (auto& f : b.s.F) if (R.flip()) std::swap(f[0], f[1]);
    double tol = R.flip() ? 1e-12 * sc : sc * std::pow(10, R.uni(-9, -5));
    double noise = R.flip() ? 0 : tol / 8;
    bool dense = R.flip();
    describe(fmt("%s of size %g, tolerance %g, noise %g, %s identifiers", w.c_str(), sc, tol, noise, dense ? "dense" : "any"));
    load(b, R, dense, noise);
    Soup before = soupOf(b.stl);
    b.stl.generateConnectivity(tol);
    Soup after = soupOf(b.stl);
    expect(before.size() == after.size() && areaOf(before) == areaOf(after), "links.changed", "the facets changed");
    checkLinks(b.stl, tol / 2, "links.neighbour");
    if (R.flip(.3)) { b.stl.generateConnectivity(tol); checkLinks(b.stl, tol / 2, "links.again"); }
    // outlines and free edges
    double angle = R.uni(.05, 1.2);
    b.stl.checkEdges(angle);
    for (int i = 0; i < b.stl.stlFile().nbFacets(); ++i) {
        int id = b.stl.stlFile().facetId(i);
        Facet& f = b.stl.stlFile().facet(id);
        V3 nf = areaOf(std::array<V3, 3> { { v3(f.vertex(0)), v3(f.vertex(1)), v3(f.vertex(2)) } }).unit();
        for (int k = 0; k < 3; ++k) {
            int n = f.edge(k).neighbor();
            expect(f.edge(k).naked() == (n < 0), "edges.naked", "facet %d edge %d", id, k);
            expect((v3(f.edge(k).startPoint()) - v3(f.vertex(k))).norm() == 0 && (v3(f.edge(k).endPoint()) - v3(f.vertex((k + 1) % 3))).norm() == 0, "edges.ends", "facet %d edge %d", id, k);
            if (n < 0) continue;
            Facet& g = b.stl.stlFile().facet(n);
            V3 ng = areaOf(std::array<V3, 3> { { v3(g.vertex(0)), v3(g.vertex(1)), v3(g.vertex(2)) } }).unit();
            double a = std::acos(std::max(-1., std::min(1., nf.dot(ng))));
            if (std::fabs(a - angle) > 1e-6) expect(f.edge(k).outline() == (a > angle), "edges.outline", "facet %d edge %d: angle %g, limit %g", id, k, a, angle);
        }
    }
    sig(hashStr(w));
    sigd(sc);
    nontrivial();
}

FAMILY(toMesh, 260, 5000)
{
    Body b;
    std::string w;
    bool cl;
    b.s = anySurface(R, w, cl);
    if (R.flip(.2)) { Surface c = b.s; join(b.s, c, V3(5, 0, 0)); w += " twice"; }
    place(b.s, R, 1, 1);
    turnFacets(b.s, R);
    bool dense = R.flip();
    load(b, R, dense);
    describe(fmt("%s, %s identifiers", w.c_str(), dense ? "dense" : "any"));
    b.stl.generateConnectivity(1e-12);
    CMshMesh<D> m = b.stl.mesh();
    expect(m.nbElements() == (int)b.s.F.size(), "mesh.elements", "%d elements of %zu facets", m.nbElements(), b.s.F.size());
    std::set<int> used;
    for (auto& f : b.s.F) for (int v : f) used.insert(v);
    expect(m.nbNodes() == (int)used.size(), "mesh.nodes", "%d nodes of %zu vertices: %s", m.nbNodes(), used.size(), st().desc.c_str());
    std::map<int, int> nodeOf;
    for (size_t k = 0; k < b.s.F.size(); ++k) {
        auto& e = m.element(b.id[k]);
        if (!expect(e.elementType() == ET_TRIANGLE && e.nbNodeIds() == 3, "mesh.type", "element %d", b.id[k])) return;
        for (int j = 0; j < 3; ++j) {
            int v = b.s.F[k][j], nid = e.nodeId(j);
            if (!expect((v3(m.node(nid)) - b.s.P[v]).norm() == 0, "mesh.node", "element %d node %d is elsewhere: %s", b.id[k], j, st().desc.c_str())) return;
            auto r = nodeOf.insert({ v, nid });
            expect(r.first->second == nid, "mesh.shared", "vertex %d has the nodes %d and %d: %s", v, r.first->second, nid, st().desc.c_str());
        }
    }
    // and back
    Stl back(m);
    Soup s0 = soupOf(b.stl), s1 = soupOf(back);
    bool same = s0.size() == s1.size();
    for (size_t i = 0; same && i < s0.size(); ++i) for (int k = 0; k < 3; ++k) same = same && (s0[i][k] - s1[i][k]).norm() == 0;
    expect(same, "mesh.back", "facets made of the mesh are not those it was made of");
    for (int i = 0; same && i < back.stlFile().nbFacets(); ++i) expect(back.stlFile().facetId(i) == b.stl.stlFile().facetId(i), "mesh.ids", "facet %d", i);
    checkStats(back, "mesh.stats");
    // joined with another surface
    Stl sum(m);
    int n0 = sum.stlFile().nbFacets();
    sum.add(back);
    expect(sum.stlFile().nbFacets() == 2 * n0, "mesh.sum", "%d facets of twice %d", sum.stlFile().nbFacets(), n0);
    checkStats(sum, "mesh.sumstats");
    sig(hashStr(w));
    count("meshnodes", used.size());
    nontrivial();
}

FAMILY(orientation, 260, 5000)
{
    Body b;
    std::string w;
    bool cl;
    b.s = anySurface(R, w, cl);
    place(b.s, R, 1, 2);
    turnFacets(b.s, R);
    double p = R.flip(.2) ? 0 : R.uni(.05, 1);
    for (auto& f : b.s.F) if (R.flip(p)) std::swap(f[1], f[2]);
    bool dense = R.flip();
    load(b, R, dense);
    bool normals = R.flip();
    for (int i = 0; normals && i < b.stl.stlFile().nbFacets(); ++i) b.stl.stlFile().facet(b.stl.stlFile().facetId(i)).calculateNormal();
    b.stl.generateConnectivity(1e-12);
    int before = unlikeNeighbours(b.stl);
    int mode = cl ? R.ri(0, 2) : 0;
    Soup s0 = soupOf(b.stl);
    int pivot = b.stl.stlFile().facetId(R.ri(0, b.stl.stlFile().nbFacets() - 1));
    std::array<V3, 3> pv = { { v3(b.stl.stlFile().facet(pivot).vertex(0)), v3(b.stl.stlFile().facet(pivot).vertex(1)), v3(b.stl.stlFile().facet(pivot).vertex(2)) } };
    describe(fmt("%s with %d unlike neighbours, %s, %s identifiers", w.c_str(), before, mode == 0 ? "like a facet" : mode == 1 ? "out" : "in", dense ? "dense" : "any"));
    if (mode == 0) b.stl.setOrientation(pivot, 1e-12);
    else b.stl.setOrientation(mode == 1, 1e-12);
    Soup s1 = soupOf(b.stl);
    if (!expect(s0.size() == s1.size(), "orientation.count", "%zu facets instead of %zu", s1.size(), s0.size())) return;
    for (size_t i = 0; i < s0.size(); ++i) { // every facet still has its vertices
        int hit = 0;
        for (auto& x : s0[i]) for (auto& y : s1[i]) hit += (x - y).norm() == 0;
        if (!expect(hit == 3, "orientation.vertices", "facet %zu has other vertices: %s", i, st().desc.c_str())) return;
    }
    expect(unlikeNeighbours(b.stl) == 0, "orientation.unlike", "%d unlike neighbours of %d left: %s", unlikeNeighbours(b.stl), before, st().desc.c_str());
    checkLinks(b.stl, 1e-12, "orientation.neighbour");
    if (mode == 0) {
        V3 a = areaOf(pv), c = areaOf(std::array<V3, 3> { { v3(b.stl.stlFile().facet(pivot).vertex(0)), v3(b.stl.stlFile().facet(pivot).vertex(1)), v3(b.stl.stlFile().facet(pivot).vertex(2)) } });
        expect((a - c).norm() < 1e-12, "orientation.pivot", "the facet to go by was turned over");
    } else {
        double v = volumeOf(s1);
        expect(mode == 1 ? v > 0 : v < 0, "orientation.side", "volume %g when pointing %s: %s", v, mode == 1 ? "out" : "in", st().desc.c_str());
    }
    if (normals) checkNormals(b.stl, "orientation.normal");
    sig(hashStr(w));
    sig((uint64_t)before);
    if (before) nontrivial();
}

FAMILY(removal, 260, 5000)
{
    Body b;
    std::string w;
    bool cl;
    b.s = anySurface(R, w, cl);
    place(b.s, R, 1, 2);
    turnFacets(b.s, R);
    size_t n0 = b.s.F.size();
    double tol = std::pow(10, R.uni(-10, -5));
    int dups = R.ri(0, 6), bad = R.ri(0, 4), lone = R.ri(0, 3);
    std::vector<T3> soup = b.s.F;
    for (int i = 0; i < dups; ++i) { T3 f = b.s.F[R.ri(0, (int)n0 - 1)]; R.shuffle(f); soup.push_back(f); }
    std::vector<int> kind(soup.size(), 0);
    for (int i = 0; i < bad; ++i) { T3 f = b.s.F[R.ri(0, (int)n0 - 1)]; f[R.ri(0, 1)] = f[2]; soup.push_back(f); kind.push_back(1); }
    for (int i = 0; i < lone; ++i) {
        int n = (int)b.s.P.size();
        V3 o = V3(30 + 5 * i, 0, 0);
        b.s.P.push_back(o); b.s.P.push_back(o + V3(1, 0, 0)); b.s.P.push_back(o + V3(0, 1, 0));
        soup.push_back({ { n, n + 1, n + 2 } });
        kind.push_back(2);
    }
    std::vector<int> o(soup.size());
    for (size_t i = 0; i < o.size(); ++i) o[i] = (int)i;
    R.shuffle(o);
    bool dense = R.flip();
    std::vector<int> id = someIds(R, (int)soup.size(), dense);
    double noise = R.flip() ? 0 : tol / 4;
    Stl s;
    std::vector<int> order;
    for (int k : o) {
        Facet f = facetOf(b.s, soup[k], noise, &R);
        if (R.flip()) { f.calculateArea(); f.calculateCentroid(); }
        s.addFacet(id[k], f);
        order.push_back(k);
    }
    describe(fmt("%s with %d duplicates, %d invalid and %d lone facets, tolerance %g, noise %g", w.c_str(), dups, bad, lone, tol, noise));
    // one of each set of equal facets stays, the first
    std::set<T3> seen;
    std::vector<int> want, kinds;
    for (int k : order) {
        T3 f = soup[k];
        std::sort(f.begin(), f.end());
        if (seen.insert(f).second) { want.push_back(id[k]); kinds.push_back(kind[k]); }
    }
    if (R.flip(.3)) { // all facets are gone over, whatever was found before
        for (int i = 0; i < s.stlFile().nbFacets(); ++i) s.stlFile().facet(s.stlFile().facetId(i)).calculateCentroid();
    }
    s.removeDuplicateFacets(tol);
    std::vector<int> got;
    for (int i = 0; i < s.stlFile().nbFacets(); ++i) got.push_back(s.stlFile().facetId(i));
    expect(got == want, "removal.duplicates", "%zu facets left of %zu, should be %zu", got.size(), soup.size(), want.size());
    if (got != want) return;
    // short edges and facets without any neighbour go
    bool edges = R.flip();
    if (edges) {
        s.generateConnectivity(tol);
        s.checkEdges(.5);
    }
    bool single = w == "one facet"; // that one has no neighbours either, unless the invalid ones lie along its edges
    s.removeInvalidFacets(tol);
    std::vector<int> rest;
    for (size_t i = 0; i < want.size(); ++i) if (kinds[i] == 0 || (kinds[i] == 2 && !edges)) rest.push_back(want[i]);
    got.clear();
    for (int i = 0; i < s.stlFile().nbFacets(); ++i) got.push_back(s.stlFile().facetId(i));
    if (!single) expect(got == rest, "removal.invalid", "%zu facets left, should be %zu: %s", got.size(), rest.size(), st().desc.c_str());
    sig(hashStr(w));
    sig((uint64_t)(dups * 100 + bad * 10 + lone));
    if (dups + bad + lone) nontrivial();
}

static double qualityOf(const std::array<V3, 3>& f)
{
    double a = (f[1] - f[0]).norm(), b = (f[2] - f[1]).norm(), c = (f[0] - f[2]).norm(), A = areaOf(f).norm();
    return a * b * c > 0 ? 16 * A * A / ((a + b + c) * a * b * c) : 0; // twice the ratio of the inner to the outer circle
}
FAMILY(quality, 300, 3000)
{
    std::array<V3, 3> f = { { inBox(R, 3), inBox(R, 3), inBox(R, 3) } };
    if (R.flip(.2)) f[2] = (f[0] + f[1]) * .5 + unitVec(R) * R.uni(1e-4, 1e-1);
    Facet a;
    for (auto& p : f) { C c = as<C>(p); a.addVertex(c); }
    int se, be;
    double dmin, dmax, q;
    Stl s;
    s.getFacetQuality(a, se, be, dmin, dmax, q);
    double d[3] = { (f[1] - f[0]).norm(), (f[2] - f[1]).norm(), (f[0] - f[2]).norm() };
    expectNear(q, qualityOf(f), 1e-6, "quality.value");
    expectNear(dmin, *std::min_element(d, d + 3), 1e-12, "quality.min");
    expectNear(dmax, *std::max_element(d, d + 3), 1e-12, "quality.max");
    expectNear(d[se], dmin, 1e-12, "quality.small");
    expectNear(d[be], dmax, 1e-12, "quality.big");
    sigd(q);
    nontrivial();
}

// Splitting, flipping, collapsing and moving vertices one after the other: a box stays that box.
static void invariants(Stl& s, const char* op, bool isClosed, bool flat, double area, double volume, const V3& av, double tol)
{
    Soup p = soupOf(s);
    std::string k = std::string("repair.") + op;
    if (isClosed) expect(vectorOf(p).norm() < 1e-9 * (1 + area), (k + ".closed").c_str(), "area vector %g: %s", vectorOf(p).norm(), st().desc.c_str());
    else expect((vectorOf(p) - av).norm() < 1e-9 * (1 + area), (k + ".rim").c_str(), "area vector of the rim moved by %g: %s", (vectorOf(p) - av).norm(), st().desc.c_str());
    if (flat) {
        expectNear(areaOf(p), area, tol * (1 + area), (k + ".area").c_str(), "area");
        if (isClosed) expectNear(volumeOf(p), volume, tol * (1 + volume), (k + ".volume").c_str(), "volume");
    }
}
FAMILY(repair, 300, 8000)
{
    Body b;
    std::string w;
    bool flat, cl;
    int k = R.ri(0, 3);
    double sx = R.uni(.5, 2), sy = R.uni(.5, 2), sz = R.uni(.5, 2);
    if (k == 0) { int a = R.ri(1, 4), c = R.ri(1, 4), d = R.ri(1, 4); b.s = boxSkin(R, a, c, d, R.uni(0, .22)); w = fmt("box %dx%dx%d", a, c, d); flat = cl = true; }
    else if (k == 1) { int n = R.ri(2, 6), m = R.ri(2, 6); b.s = sheet(R, n, m, 0); for (auto& p : b.s.P) if (p.x > 0 && p.x < 1 && p.y > 0 && p.y < 1) { p.x += R.uni(-.2, .2) / n; p.y += R.uni(-.2, .2) / m; } w = fmt("flat sheet %dx%d", n, m); flat = true; cl = false; }
    else if (k == 2) { int n = R.ri(2, 5); b.s = ball(R, n, R.uni(0, .1)); w = fmt("ball %d", n); flat = false; cl = true; }
    else { int n = R.ri(2, 6), m = R.ri(2, 6); b.s = sheet(R, n, m, .05); w = fmt("sheet %dx%d", n, m); flat = false; cl = false; }
    for (auto& p : b.s.P) p = V3(p.x * sx, p.y * sy, p.z * sz);
    place(b.s, R, 1, 1);
    turnFacets(b.s, R);
    bool dense = R.flip();
    load(b, R, dense);
    Stl& s = b.stl;
    double tol = 1e-9;
    s.generateConnectivity(tol);
    double sharp = 0.5;
    s.checkEdges(sharp);
    Soup start = soupOf(s);
    double area = areaOf(start), vol = volumeOf(start);
    V3 av = vectorOf(start);
    int n = R.ri(1, 5), changed = 0;
    std::string ops;
    for (int t = 0; t < n; ++t) {
        int op = R.ri(0, 3);
        Soup before = soupOf(s);
        if (before.size() > 1500) break;
        const char* name;
        if (op == 0) {
            name = "split";
            double big = 0;
            for (auto& f : before) for (int i = 0; i < 3; ++i) big = std::max(big, (f[i] - f[(i + 1) % 3]).norm());
            double size = big * R.uni(.35, 1.05), fq = R.flip() ? -1 : R.uni(0, .6);
            ops += fmt(" split(%.3f,%.2f)", size, fq);
            describe(w + (dense ? ", dense identifiers:" : ", any identifiers:") + ops);
            s.splitFacets(size, fq);
            Soup after = soupOf(s);
            // facets are taken once, and those of which another takes a part away later are taken again only next time
            size_t was = 0;
            for (int again = 0; again < 20 && fq < 0 && was != after.size() && after.size() < 3000; ++again) { was = after.size(); s.splitFacets(size, fq); after = soupOf(s); }
            if (fq < 0 && was == after.size()) for (size_t i = 0; i < after.size(); ++i) {
                double dm = 0;
                int at = 0;
                for (int j = 0; j < 3; ++j) { double d = (after[i][j] - after[i][(j + 1) % 3]).norm(); if (d > dm) { dm = d; at = j; } }
                Facet& f = s.stlFile().facet(s.stlFile().facetId((int)i));
                expect(dm <= size * (1 + 1e-9) || f.edge(at).neighbor() < 0 , "repair.split.size", "facet with an edge of %g is left when splitting above %g: %s", dm, size, st().desc.c_str());
            }
            invariants(s, name, cl, true, areaOf(before), volumeOf(before), av, 1e-9); // any surface
            if (!checkLinks(s, tol, "repair.split.neighbour")) return;
            // corners and outlines are where they were
            Soup& q = after;
            for (auto& f : before) for (auto& p : f) {
                bool found = false;
                for (auto& g : q) for (auto& r : g) found = found || (p - r).norm() == 0;
                if (!expect(found, "repair.split.vertex", "a vertex is gone: %s", st().desc.c_str())) return;
            }
            changed += after.size() != before.size();
        } else if (op == 1) {
            name = "flip";
            double angle = R.uni(.02, .3);
            ops += fmt(" flip(%.2f)", angle);
            describe(w + (dense ? ", dense identifiers:" : ", any identifiers:") + ops);
            double q0 = 1, q1 = 1;
            s.flipEdges(angle);
            Soup after = soupOf(s);
            expect(after.size() == before.size(), "repair.flip.count", "%zu facets of %zu", after.size(), before.size());
            for (auto& f : before) q0 = std::min(q0, qualityOf(f));
            for (auto& f : after) q1 = std::min(q1, qualityOf(f));
            expect(q1 >= q0 - 1e-9, "repair.flip.quality", "worst quality %g was %g: %s", q1, q0, st().desc.c_str());
            for (size_t i = 0; i < after.size(); ++i) changed += (after[i][0] - before[i][0]).norm() + (after[i][1] - before[i][1]).norm() + (after[i][2] - before[i][2]).norm() > 0;
        } else if (op == 2) {
            name = "relax";
            ops += " relax";
            describe(w + (dense ? ", dense identifiers:" : ", any identifiers:") + ops);
            s.checkEdges(sharp);
            // vertices on outlines and rims stay
            std::vector<V3> fixed;
            for (int i = 0; i < s.stlFile().nbFacets(); ++i) {
                Facet& f = s.stlFile().facet(s.stlFile().facetId(i));
                for (int j = 0; j < 3; ++j) if (f.edge(j).outline() || f.edge(j).naked()) { fixed.push_back(v3(f.vertex(j))); fixed.push_back(v3(f.vertex((j + 1) % 3))); }
            }
            s.relaxVertices();
            Soup after = soupOf(s);
            expect(after.size() == before.size(), "repair.relax.count", "%zu facets of %zu", after.size(), before.size());
            for (auto& p : fixed) {
                bool found = false;
                for (auto& g : after) for (auto& r : g) found = found || (p - r).norm() == 0;
                if (!expect(found, "repair.relax.fixed", "a vertex on an outline or rim moved: %s", st().desc.c_str())) return;
            }
            for (size_t i = 0; i < after.size(); ++i) for (int j = 0; j < 3; ++j) changed += (after[i][j] - before[i][j]).norm() > 0;
            if (!checkLinks(s, tol, "repair.relax.neighbour")) return;
        } else {
            name = "collapse";
            double q = R.uni(.2, 1), angle = flat ? R.uni(.005, .03) : R.uni(.01, .3); // a vertex of a box may leave its edge if no facet turns by more than that
            ops += fmt(" collapse(%.2f,%.2f)", q, angle);
            describe(w + (dense ? ", dense identifiers:" : ", any identifiers:") + ops);
            s.collapseEdges(q, angle);
            s.removeInvalidFacets(1e-7);
            changed += (int)before.size() - s.stlFile().nbFacets();
        }
        count(fmt("op.%s", name));
        if (op == 1 || op == 3) s.generateConnectivity(tol); // these leave the neighbours to be found again
        Links L = linksOf(s, tol);
        if (!expect(L.manifold, (std::string("repair.") + name + ".manifold").c_str(), "more than two facets at an edge: %s", st().desc.c_str())) return;
        if (cl) {
            int open = 0;
            for (int i = 0; i < s.stlFile().nbFacets(); ++i) for (int j = 0; j < 3; ++j) open += s.stlFile().facet(s.stlFile().facetId(i)).edge(j).neighbor() < 0;
            if (!expect(open == 0, (std::string("repair.") + name + ".hole").c_str(), "%d open edges in a closed surface: %s", open, st().desc.c_str())) return;
        }
        if (!expect(unlikeNeighbours(s) == 0, (std::string("repair.") + name + ".unlike").c_str(), "%d unlike neighbours: %s", unlikeNeighbours(s), st().desc.c_str())) return;
        invariants(s, name, cl, flat, area, vol, av, 1e-6);
        checkNormals(s, (std::string("repair.") + name + ".normal").c_str());
        if (op == 1 || op == 3) s.checkEdges(sharp);
    }
    sig(hashStr(w + ops));
    count("changes", changed);
    if (changed) nontrivial();
}
