// Input generators shared by the harnesses.
#pragma once
#include "mon.hpp"
#include <algorithm>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <queue>
#include <sstream>
#include <stack>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <array>
#include "TypeDef.hpp"
namespace gen {
using mon::Rng;
struct V3 {
    double x, y, z;
    V3(double a = 0, double b = 0, double c = 0) : x(a), y(b), z(c) {}
    V3 operator+(const V3& o) const { return V3(x + o.x, y + o.y, z + o.z); }
    V3 operator-(const V3& o) const { return V3(x - o.x, y - o.y, z - o.z); }
    V3 operator*(double s) const { return V3(x * s, y * s, z * s); }
    double dot(const V3& o) const { return x * o.x + y * o.y + z * o.z; }
    V3 cross(const V3& o) const { return V3(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
    double norm() const { return std::sqrt(dot(*this)); }
    V3 unit() const { double n = norm(); return V3(x / n, y / n, z / n); }
};
template <class C> V3 v3(const C& c) { return V3(c.x(), c.y(), c.z()); }
template <class C> C as(const V3& v) { return C(v.x, v.y, v.z); }
inline V3 unitVec(Rng& R)
{
    for (;;) {
        V3 v(R.normal(), R.normal(), R.normal());
        if (v.norm() > 1e-3) return v.unit();
    }
}
inline V3 inBox(Rng& R, double s = 1) { return V3(R.uni(-s, s), R.uni(-s, s), R.uni(-s, s)); }
// Rigid motion: rotation matrix + translation (+ uniform scale).
struct Rigid {
    double m[3][3];
    V3 t;
    double s = 1;
    V3 rot(const V3& v) const
    {
        return V3(m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z, m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z, m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z);
    }
    V3 operator()(const V3& v) const { return rot(v) * s + t; }
};
inline Rigid identity()
{
    Rigid r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = i == j;
    return r;
}
inline Rigid rotation(const V3& axis, double ang)
{
    Rigid r;
    V3 a = axis.unit();
    double c = std::cos(ang), s = std::sin(ang), k = 1 - c;
    double n[3] = { a.x, a.y, a.z };
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = n[i] * n[j] * k + (i == j ? c : 0);
    r.m[0][1] -= a.z * s; r.m[0][2] += a.y * s;
    r.m[1][0] += a.z * s; r.m[1][2] -= a.x * s;
    r.m[2][0] -= a.y * s; r.m[2][1] += a.x * s;
    return r;
}
inline Rigid randomRigid(Rng& R, double tmax = 5, bool scale = false)
{
    Rigid r = rotation(unitVec(R), R.uni(0, 6.283185307179586));
    r.t = inBox(R, tmax);
    if (scale) r.s = std::exp(R.uni(-3, 3));
    return r;
}
}
