// Monitoring runtime shared by every harness in /verif/harness.
//
// A harness registers *families* of cases.  Each case runs the real ENigMA code
// on an input derived from (seed, family, index) and feeds what it observed to
// monitors (oracles).  The log written here is the evidence: one B line when a
// case starts, V lines for violations, an E line when it ends, STAT lines for
// what the monitors counted.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <typeinfo>
#include <vector>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

namespace mon {

inline uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { return splitmix(s); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    int ri(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
    bool flip(double p = 0.5) { return u() < p; }
    double normal()
    {
        double a = u() + 1e-300, b = u();
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
    template <class C> typename C::value_type pick(const C& c) { return c[next() % c.size()]; }
    template <class C> void shuffle(C& c)
    {
        for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[next() % i]);
    }
};

struct State {
    FILE* log = nullptr;
    std::string family;
    long index = 0;
    bool thorough = false;
    uint64_t sig = 0;
    bool nontrivial = false;
    std::string desc;
    std::map<std::string, long long> stats;
    int vioInCase = 0;
    std::string tmpdir;
    bool verbose = false;
};
inline State& st() { static State s; return s; }

inline std::string fmt(const char* f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
// What the monitors saw: counted per run, reported in the evidence file.
inline void count(const std::string& k, long long n = 1) { st().stats[k] += n; }
// Distinctness signature of the case: mix in whatever characterises it.
inline void sig(uint64_t v) { st().sig = (st().sig ^ v) * 0x9e3779b97f4a7c15ull + (st().sig >> 29) + 1; }
inline void sigd(double d) { uint64_t u; memcpy(&u, &d, 8); sig(u); }
inline void nontrivial() { st().nontrivial = true; }
inline void describe(const std::string& s) { st().desc = s; }

inline void violation(const std::string& key, const std::string& detail)
{
    State& s = st();
    if (s.vioInCase++ > 20) return;
    std::string d = detail;
    for (char& c : d) if (c == '\n' || c == '\t') c = ' ';
    fprintf(s.log, "V\t%s\t%ld\t%s\t%s\n", s.family.c_str(), s.index, key.c_str(), d.c_str());
    fflush(s.log);
    if (s.verbose) fprintf(stderr, "V %s#%ld %s: %s\n", s.family.c_str(), s.index, key.c_str(), d.c_str());
}
// Monitor assertion: counts the observation, reports a violation when false.
inline bool expect(bool ok, const char* key, const char* f, ...)
{
    count(std::string("obs.") + key);
    if (!ok) {
        char b[1500];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        violation(key, b);
    }
    return ok;
}
inline bool finite(double v) { return std::isfinite(v); }
// |a-b| <= tol (absolute); NaN never matches.
inline bool near(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }
inline bool expectNear(double got, double want, double tol, const char* key, const char* what = "")
{
    return expect(near(got, want, tol), key, "%s got %.17g want %.17g tol %.3g | %s", what, got, want, tol, st().desc.c_str());
}

struct Family { std::string name; long quick, thorough; std::function<void(Rng&)> fn; double cpuLimit; };
inline std::vector<Family>& families() { static std::vector<Family> f; return f; }
struct Reg {
    Reg(const char* n, long q, long t, std::function<void(Rng&)> fn, double cpu = 20) { families().push_back({ n, q, t, fn, cpu }); }
};
#define FAMILY(name, quick, thorough) \
    static void fam_##name(mon::Rng& R); \
    static mon::Reg reg_##name(#name, quick, thorough, fam_##name); \
    static void fam_##name(mon::Rng& R)
#define FAMILY_CPU(name, quick, thorough, cpu) \
    static void fam_##name(mon::Rng& R); \
    static mon::Reg reg_##name(#name, quick, thorough, fam_##name, cpu); \
    static void fam_##name(mon::Rng& R)

inline void onTimer(int)
{
    static const char m[] = "MON-HANG: case exceeded its CPU budget\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(97);
}
inline void setCpuLimit(double s)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)s;
    it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
// Scratch directory of this worker (created by the driver).
inline std::string scratch(const std::string& n) { return st().tmpdir + "/" + n; }
inline bool thorough() { return st().thorough; }

inline int run(int argc, char** argv)
{
    // argv: list | run SEED TIER WORKER NWORKERS SKIPFILE LOG TMPDIR | one SEED TIER FAMILY INDEX LOG TMPDIR
    std::string mode = argc > 1 ? argv[1] : "";
    State& s = st();
    if (mode == "list") {
        for (auto& f : families()) printf("%s %ld %ld\n", f.name.c_str(), f.quick, f.thorough);
        return 0;
    }
    if (mode != "run" && mode != "one") return 3;
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    s.thorough = !strcmp(argv[3], "thorough");
    std::vector<std::pair<int, long>> todo;
    if (mode == "run") {
        long w = atol(argv[4]), n = atol(argv[5]), start = atol(argv[6]);
        s.log = fopen(argv[7], "a");
        s.tmpdir = argv[8];
        long g = 0, mine = 0;
        for (size_t f = 0; f < families().size(); ++f) {
            long c = s.thorough ? families()[f].thorough : families()[f].quick;
            for (long i = 0; i < c; ++i, ++g)
                if (g % n == w) { if (mine++ >= start) todo.push_back({ (int)f, i }); }
        }
    } else {
        s.log = fopen(argv[6], "a");
        s.tmpdir = argv[7];
        s.verbose = true;
        for (size_t f = 0; f < families().size(); ++f)
            if (families()[f].name == argv[4]) todo.push_back({ (int)f, atol(argv[5]) });
    }
    if (!s.log) return 3;
    signal(SIGVTALRM, onTimer);
    for (auto& t : todo) {
        Family& f = families()[t.first];
        s.family = f.name;
        s.index = t.second;
        s.sig = hashStr(f.name);
        s.nontrivial = false;
        s.desc.clear();
        s.vioInCase = 0;
        fprintf(s.log, "B\t%s\t%ld\n", f.name.c_str(), t.second);
        fflush(s.log);
        Rng R(hashStr(f.name) ^ (seed * 0x2545F4914F6CDD1Dull) ^ ((uint64_t)t.second * 0x9E3779B97F4A7C15ull));
        R.next();
        setCpuLimit(f.cpuLimit);
        try {
            f.fn(R);
        } catch (const std::exception& e) {
            violation(std::string("exception:") + f.name + ":" + e.what(), s.desc);
        } catch (...) {
            violation(std::string("exception:") + f.name + ":unknown", s.desc);
        }
        setCpuLimit(0);
        for (auto& kv : s.stats) fprintf(s.log, "S\t%s\t%lld\n", kv.first.c_str(), kv.second);
        s.stats.clear();
        std::string d = s.desc;
        for (char& c : d) if (c == '\n' || c == '\t') c = ' ';
        fprintf(s.log, "E\t%s\t%ld\t%016llx\t%d\t%s\n", f.name.c_str(), t.second, (unsigned long long)s.sig, s.nontrivial ? 1 : 0, (t.second < 3 ? d.substr(0, 300).c_str() : ""));
    }
    fprintf(s.log, "DONE\n");
    fclose(s.log);
    return 0;
}
}
#ifndef MON_NO_MAIN
int main(int argc, char** argv) { return mon::run(argc, argv); }
#endif
