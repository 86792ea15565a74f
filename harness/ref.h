// Reference evaluation of mesh quantities on plain triangle lists.
#pragma once
#include <map>
#include "geo.h"
#include "topo.h"

namespace vh {

struct Ref {
    Soup s;
    std::vector<std::vector<uint32_t>> nb;            // neighbours
    std::vector<std::vector<size_t>> fs;              // incident triangles
    std::map<DE, std::vector<uint32_t>> opp;          // undirected edge -> opposite corners
    std::map<DE, std::vector<size_t>> ef;             // undirected edge -> triangles
    std::vector<bool> rim;                            // on the boundary

    explicit Ref(const Soup &in) : s(in), nb(in.V.size()), fs(in.V.size()), rim(in.V.size(), false) {
        for (size_t i = 0; i < s.F.size(); i++)
            for (int k = 0; k < 3; k++) {
                uint32_t a = s.F[i][(size_t)k], b = s.F[i][(size_t)(k + 1) % 3], c = s.F[i][(size_t)(k + 2) % 3];
                fs[a].push_back(i);
                opp[E(a, b)].push_back(c);
                ef[E(a, b)].push_back(i);
            }
        for (auto &e : opp) {
            nb[e.first.first].push_back(e.first.second);
            nb[e.first.second].push_back(e.first.first);
            if (e.second.size() == 1) rim[e.first.first] = rim[e.first.second] = true;
        }
    }
    static DE E(uint32_t a, uint32_t b) { return a < b ? DE(a, b) : DE(b, a); }
    LP p(uint32_t i) const { return lp(s.V[i]); }
    LP crossOf(size_t f) const { return cross(p(s.F[f][1]) - p(s.F[f][0]), p(s.F[f][2]) - p(s.F[f][0])); }
    LD area(size_t f) const { return len(crossOf(f)) / 2; }
    LP normal(size_t f) const { return crossOf(f) * (1 / len(crossOf(f))); }
    LP centroid(size_t f) const { return (p(s.F[f][0]) + p(s.F[f][1]) + p(s.F[f][2])) * ((LD)1 / 3); }
    LD angleAt(uint32_t b, uint32_t a, uint32_t c) const {
        LP u = p(a) - p(b), v = p(c) - p(b);
        return atan2l(len(cross(u, v)), dot(u, v));
    }
    LD cotAt(uint32_t b, uint32_t a, uint32_t c) const {
        LP u = p(a) - p(b), v = p(c) - p(b);
        return dot(u, v) / len(cross(u, v));
    }
    LD cotW(uint32_t a, uint32_t b) const {
        LD w = 0;
        for (uint32_t c : opp.at(E(a, b))) w += cotAt(c, a, b) / 2;
        return w;
    }
    // the other two corners of face f seen from v, in order
    std::pair<uint32_t, uint32_t> others(size_t f, uint32_t v) const {
        const Tri &t = s.F[f];
        int k = t[0] == v ? 0 : t[1] == v ? 1 : 2;
        return {t[(size_t)(k + 1) % 3], t[(size_t)(k + 2) % 3]};
    }
    LP vertexNormal(uint32_t v) const {  // sine over product of the edge lengths
        LP n{0, 0, 0};
        for (size_t f : fs[v]) {
            auto o = others(f, v);
            LP a = p(o.first) - p(v), b = p(o.second) - p(v);
            n = n + cross(a, b) * (1 / (dot(a, a) * dot(b, b)));
        }
        return n;
    }
    LD faceShare(size_t f, uint32_t v) const {
        auto o = others(f, v);
        const LD a0 = angleAt(v, o.first, o.second), a1 = angleAt(o.first, v, o.second), a2 = angleAt(o.second, v, o.first);
        const LD h = M_PIl / 2;
        if (a0 > h) return area(f) / 2;
        if (a1 > h || a2 > h) return area(f) / 4;
        LP e1 = p(o.first) - p(v), e2 = p(o.second) - p(v);
        return (dot(e1, e1) * cotAt(o.second, v, o.first) + dot(e2, e2) * cotAt(o.first, v, o.second)) / 8;
    }
    LD voronoi(uint32_t v) const {
        LD a = 0;
        for (size_t f : fs[v]) a += faceShare(f, v);
        return a;
    }
    LD defect(uint32_t v) const {
        LD a = 2 * M_PIl;
        for (size_t f : fs[v]) {
            auto o = others(f, v);
            a -= angleAt(v, o.first, o.second);
        }
        return a;
    }
    LP cotLaplace(uint32_t v) const {  // sum of (cot a + cot b)(pj - pi)
        LP l{0, 0, 0};
        for (uint32_t j : nb[v]) l = l + (p(j) - p(v)) * (2 * cotW(v, j));
        return l;
    }
    LD dihedralAt(DE e) const {  // interior angle of the two triangles
        const auto &o = opp.at(e);
        LP b = p(e.first), d = p(e.second) - b;
        LP h1 = p(o[0]) - b, h2 = p(o[1]) - b;
        h1 = h1 - d * (dot(h1, d) / dot(d, d));
        h2 = h2 - d * (dot(h2, d) / dot(d, d));
        return atan2l(len(cross(h1, h2)), dot(h1, h2));
    }
    LD meanEdgeLength() const {
        LD m = 0;
        for (auto &e : opp) m += len(p(e.first.first) - p(e.first.second));
        return m / (LD)opp.size();
    }
};

// one simultaneous step towards the weighted mean of the neighbours; false if ill-conditioned
inline bool refLaplaceStep(Soup &s, LD eps, bool cot, const std::vector<bool> &fixed) {
    Ref r(s);
    std::vector<P> out = s.V;
    for (uint32_t v = 0; v < s.V.size(); v++) {
        if (fixed[v] || r.rim[v]) continue;
        LP c{0, 0, 0};
        LD sum = 0, mag = 0;
        for (uint32_t j : r.nb[v]) {
            LD w = cot ? r.cotW(v, j) : 1;
            c = c + r.p(j) * w;
            sum += w;
            mag += fabsl(w);
        }
        if (!(fabsl(sum) > 0.02L * mag)) return false;
        LP q = r.p(v) + (c * (1 / sum) - r.p(v)) * eps;
        out[v] = P((double)q.x, (double)q.y, (double)q.z);
    }
    s.V = out;
    return true;
}

inline void refTaubin(Soup &s, LD shrink, LD inflate, int its, const std::vector<bool> &fixed) {
    for (int i = 0; i < its; i++) {
        refLaplaceStep(s, shrink, false, fixed);
        refLaplaceStep(s, -inflate, false, fixed);
    }
}

inline double maxDiff(const std::vector<P> &a, const std::vector<P> &b) {
    if (a.size() != b.size()) return INFINITY;
    double d = 0;
    for (size_t i = 0; i < a.size(); i++) {
        double x = len(a[i] - b[i]);
        if (!(x <= d)) d = x;  // NaN propagates
        if (std::isnan(x)) return INFINITY;
    }
    return d;
}
inline std::vector<P> positions(const Mesh &m) {
    std::vector<P> r;
    for (size_t i = 0; i < m.numVertices(); i++) r.push_back(toP(m.vertex((int)i)->pos()));
    return r;
}
// connectivity by numbers, with locks
inline bool sameConnectivity(const Snap &a, const Snap &b) {
    return a.tris == b.tris && a.holes == b.holes && a.pos.size() == b.pos.size();
}
inline std::vector<bool> lockSome(Mesh &m, Rng &rng, double p) {
    std::vector<bool> l(m.numVertices(), false);
    for (size_t i = 0; i < m.numVertices(); i++)
        if (rng.chance(p)) {
            m.vertex((int)i)->lock();
            l[i] = true;
        }
    return l;
}
inline void sameLocks(const Mesh &m, const std::vector<bool> &l, const char *key) {
    for (size_t i = 0; i < m.numVertices(); i++)
        VH_CHECK(m.vertex((int)i)->isLocked() == l[i], key, "lock of vertex %zu changed", i);
}
// fatter triangles and no folds: closed surface without tiny angles
inline Soup goodClosed(Rng &rng, int hint, double q = 0.02) {
    for (int i = 0; i < 40; i++) {
        Soup s = randomClosed(rng, hint);
        compact(s);
        if (rng.chance(0.6)) jitter(s, meanEdge(s) * rng.uni(0, 0.15), rng);
        shuffleSoup(s, rng);
        if (distinctPositions(s) && analyse(s).manifold && minQuality(s) > q) return s;
    }
    throw Skip();
}
inline Soup goodSurface(Rng &rng, int hint, double q = 0.02) {
    if (rng.chance(0.5)) return goodClosed(rng, hint, q);
    for (int i = 0; i < 40; i++) {
        Soup s = randomSurface(rng, hint);
        compact(s);
        if (rng.chance(0.6)) jitter(s, meanEdge(s) * rng.uni(0, 0.15), rng);
        shuffleSoup(s, rng);
        if (distinctPositions(s) && analyse(s).manifold && minQuality(s) > q) return s;
    }
    throw Skip();
}

// removes the triangles whose centre lies within r of c, and mostly the ears this leaves
inline bool cutHole(Soup &s, Rng &rng, double r, P c) {
    Soup t = s;
    t.F.clear();
    for (auto &f : s.F)
        if (len((s.V[f[0]] + s.V[f[1]] + s.V[f[2]]) / 3 - c) > r) t.F.push_back(f);
    if (t.F.size() == s.F.size()) return false;
    for (bool again = rng.chance(0.85); again;) {  // take off ears: triangles with two edges at the rim
        again = false;
        Ref ref(t);
        for (size_t i = 0; i < t.F.size(); i++) {
            int n = 0;
            for (size_t k = 0; k < 3; k++) n += ref.opp[Ref::E(t.F[i][k], t.F[i][(k + 1) % 3])].size() == 1;
            if (n >= 2) {
                t.F.erase(t.F.begin() + (long)i);
                again = true;
                break;
            }
        }
    }
    if (t.F.size() < 4) return false;
    compact(t);
    if (!analyse(t).manifold) return false;
    t.tag = s.tag;
    s = t;
    return true;
}

}  // namespace vh
