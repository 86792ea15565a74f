// Independent elementary geometry (long double where it matters).
#pragma once
#include "gen.h"

namespace vh {
typedef long double LD;
struct LP {
    LD x, y, z;
};
inline LP lp(const P &p) { return {p.x, p.y, p.z}; }
inline LP operator-(LP a, LP b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline LP operator+(LP a, LP b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline LP operator*(LP a, LD s) { return {a.x * s, a.y * s, a.z * s}; }
inline LD dot(LP a, LP b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline LP cross(LP a, LP b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline LD len(LP a) { return sqrtl(dot(a, a)); }

inline LD segDist(LP p, LP a, LP b) {
    LP d = b - a;
    LD l = dot(d, d);
    LD t = l > 0 ? dot(p - a, d) / l : 0;
    t = std::max((LD)0, std::min((LD)1, t));
    return len(p - (a + d * t));
}
// distance of a point to a triangle by plane projection and edge tests
inline double triDist(const P &P0, const P &A, const P &B, const P &C) {
    LP p = lp(P0), a = lp(A), b = lp(B), c = lp(C);
    LP n = cross(b - a, c - a);
    LD nn = dot(n, n);
    LD best = std::min(segDist(p, a, b), std::min(segDist(p, b, c), segDist(p, c, a)));
    if (nn > 0) {
        LP q = p - n * (dot(p - a, n) / nn);
        bool in = dot(cross(b - a, q - a), n) >= 0 && dot(cross(c - b, q - b), n) >= 0 && dot(cross(a - c, q - c), n) >= 0;
        if (in) best = std::min(best, fabsl(dot(p - a, n)) / sqrtl(nn));
    }
    return (double)best;
}
inline double soupDist(const P &p, const Soup &s) {
    double d = INFINITY;
    for (auto &f : s.F) d = std::min(d, triDist(p, s.V[f[0]], s.V[f[1]], s.V[f[2]]));
    return d;
}
inline double extent(const Soup &s) {
    double m = 0;
    for (auto &p : s.V) m = std::max(m, std::max(std::fabs(p.x), std::max(std::fabs(p.y), std::fabs(p.z))));
    return m;
}
inline P randUnit(Rng &rng) {
    P p;
    do p = P(rng.normal(), rng.normal(), rng.normal());
    while (len(p) < 1e-3);
    return unit(p);
}
}  // namespace vh
