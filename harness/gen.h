// Triangle-soup generators and an index-level topology oracle.  Independent of
// the library under test (own vector type, own adjacency).
#pragma once
#include "vh.h"

namespace vh {

struct P {
    double x = 0, y = 0, z = 0;
    P() {}
    P(double a, double b, double c) : x(a), y(b), z(c) {}
    P operator+(const P &o) const { return {x + o.x, y + o.y, z + o.z}; }
    P operator-(const P &o) const { return {x - o.x, y - o.y, z - o.z}; }
    P operator*(double s) const { return {x * s, y * s, z * s}; }
    P operator/(double s) const { return {x / s, y / s, z / s}; }
    P &operator+=(const P &o) { return *this = *this + o; }
    bool operator==(const P &o) const { return x == o.x && y == o.y && z == o.z; }
    bool operator<(const P &o) const {
        if (x != o.x) return x < o.x;
        if (y != o.y) return y < o.y;
        return z < o.z;
    }
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline P operator*(double s, const P &p) { return p * s; }
inline double dot(const P &a, const P &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline P cross(const P &a, const P &b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double len(const P &a) { return std::sqrt(dot(a, a)); }
inline P unit(const P &a) { return a / len(a); }
inline bool finite(const P &a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }

typedef std::array<uint32_t, 3> Tri;

struct Soup {
    std::vector<P> V;
    std::vector<Tri> F;
    std::string tag;
    uint64_t hash() const {
        uint64_t h = mix(V.size(), F.size());
        for (auto &p : V) {
            uint64_t b[3];
            memcpy(b, &p, 24);
            h = mix(h, b[0] ^ mix(b[1], b[2]));
        }
        for (auto &f : F) h = mix(h, ((uint64_t)f[0] << 40) ^ ((uint64_t)f[1] << 20) ^ f[2]);
        return h;
    }
    uint64_t topoHash() const {
        uint64_t h = mix(V.size(), F.size());
        for (auto &f : F) h = mix(h, ((uint64_t)f[0] << 40) ^ ((uint64_t)f[1] << 20) ^ f[2]);
        return h;
    }
    std::vector<uint32_t> flat() const {
        std::vector<uint32_t> r;
        for (auto &f : F) r.insert(r.end(), f.begin(), f.end());
        return r;
    }
};

typedef std::pair<uint32_t, uint32_t> DE;  // directed edge

// ---------------------------------------------------------------- topology
struct Topo {
    bool manifold = false;      // oriented 2-manifold with boundary, simplicial
    std::string why;            // reason if not
    size_t V = 0, E = 0, F = 0; // used vertices, undirected edges, triangles
    size_t components = 0;
    std::vector<std::vector<uint32_t>> loops;  // boundary loops, orientation of the hole side
    std::vector<char> boundaryVertex;
    std::map<DE, int> edgeFace;
    long euler() const { return (long)V - (long)E + (long)F; }
};

inline Topo analyse(size_t nv, const std::vector<Tri> &F) {
    Topo t;
    t.F = F.size();
    t.boundaryVertex.assign(nv, 0);
    std::vector<int> deg(nv, 0);
    std::vector<std::vector<int>> vf(nv);
    bool ok = true;
    auto bad = [&](const char *w) {
        if (ok) t.why = w;
        ok = false;
    };
    for (size_t i = 0; i < F.size(); i++) {
        auto &f = F[i];
        if (f[0] >= nv || f[1] >= nv || f[2] >= nv) {
            bad("index out of range");
            return t;
        }
        if (f[0] == f[1] || f[1] == f[2] || f[2] == f[0]) {
            bad("degenerate triangle");
            return t;
        }
        for (int k = 0; k < 3; k++) {
            deg[f[k]]++;
            vf[f[k]].push_back((int)i);
            if (!t.edgeFace.insert({DE(f[k], f[(k + 1) % 3]), (int)i}).second) bad("directed edge used twice");
        }
    }
    for (size_t v = 0; v < nv; v++) t.V += deg[v] > 0;
    size_t inner = 0, bnd = 0;
    std::map<uint32_t, uint32_t> holeNext;
    for (auto &kv : t.edgeFace) {
        if (t.edgeFace.count(DE(kv.first.second, kv.first.first))) {
            inner++;
        } else {
            bnd++;
            // boundary directed edge a->b of a triangle; hole side runs b->a
            if (holeNext.count(kv.first.second)) bad("vertex with two boundary fans");
            holeNext[kv.first.second] = kv.first.first;
            t.boundaryVertex[kv.first.first] = t.boundaryVertex[kv.first.second] = 1;
        }
    }
    t.E = inner / 2 + bnd;
    // components
    {
        std::vector<int> uf(nv);
        for (size_t i = 0; i < nv; i++) uf[i] = (int)i;
        std::function<int(int)> fd = [&](int x) {
            while (uf[x] != x) x = uf[x] = uf[uf[x]];
            return x;
        };
        for (auto &f : F) {
            uf[fd(f[0])] = fd(f[1]);
            uf[fd(f[1])] = fd(f[2]);
        }
        for (size_t i = 0; i < nv; i++) t.components += deg[i] > 0 && fd((int)i) == (int)i;
    }
    if (!ok) return t;
    // single fan per vertex
    for (size_t v = 0; v < nv; v++) {
        if (vf[v].empty()) continue;
        std::map<uint32_t, uint32_t> nxt;  // within star: a -> b for face (v,a,b)
        std::set<uint32_t> targets;
        for (int fi : vf[v]) {
            auto &f = F[fi];
            int k = f[0] == v ? 0 : f[1] == v ? 1 : 2;
            nxt[f[(k + 1) % 3]] = f[(k + 2) % 3];
            targets.insert(f[(k + 2) % 3]);
        }
        uint32_t st = nxt.begin()->first;
        for (auto &kv : nxt)
            if (!targets.count(kv.first)) st = kv.first;
        size_t seen = 0;
        uint32_t c = st;
        while (nxt.count(c) && seen <= nxt.size()) {
            c = nxt[c];
            seen++;
            if (c == st) break;
        }
        if (seen != vf[v].size()) {
            bad("vertex with several fans");
            return t;
        }
    }
    // boundary loops
    std::set<uint32_t> done;
    for (auto &kv : holeNext) {
        if (done.count(kv.first)) continue;
        std::vector<uint32_t> loop;
        uint32_t c = kv.first;
        while (!done.count(c)) {
            done.insert(c);
            loop.push_back(c);
            c = holeNext[c];
        }
        t.loops.push_back(loop);
    }
    t.manifold = ok;
    return t;
}
inline Topo analyse(const Soup &s) { return analyse(s.V.size(), s.F); }

// remove unused vertices
inline void compact(Soup &s) {
    std::vector<int> id(s.V.size(), -1);
    std::vector<P> nv;
    for (auto &f : s.F)
        for (auto &i : f) {
            if (id[i] < 0) {
                id[i] = (int)nv.size();
                nv.push_back(s.V[i]);
            }
            i = (uint32_t)id[i];
        }
    s.V.swap(nv);
}

// ---------------------------------------------------------------- generators
inline Soup tetra() {
    Soup s;
    s.tag = "tetra";
    s.V = {{1, 1, 1}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}};
    s.F = {{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {1, 3, 2}};
    return s;
}
inline Soup octa() {
    Soup s;
    s.tag = "octa";
    s.V = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
    s.F = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
    return s;
}
inline Soup icosphere(int level) {
    Soup s;
    const double t = (1.0 + std::sqrt(5.0)) / 2.0;
    s.V = {{-1, t, 0}, {1, t, 0}, {-1, -t, 0}, {1, -t, 0}, {0, -1, t}, {0, 1, t},
           {0, -1, -t}, {0, 1, -t}, {t, 0, -1}, {t, 0, 1}, {-t, 0, -1}, {-t, 0, 1}};
    for (auto &p : s.V) p = unit(p);
    s.F = {{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4},
           {11, 10, 2}, {10, 7, 6}, {7, 1, 8}, {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8},
           {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}};
    for (int l = 0; l < level; l++) {
        std::map<DE, uint32_t> mid;
        std::vector<Tri> nf;
        auto m = [&](uint32_t a, uint32_t b) {
            DE k(std::min(a, b), std::max(a, b));
            auto it = mid.find(k);
            if (it != mid.end()) return it->second;
            s.V.push_back(unit((s.V[a] + s.V[b]) * 0.5));
            return mid[k] = (uint32_t)s.V.size() - 1;
        };
        for (auto &f : s.F) {
            uint32_t a = m(f[0], f[1]), b = m(f[1], f[2]), c = m(f[2], f[0]);
            nf.push_back({f[0], a, c});
            nf.push_back({f[1], b, a});
            nf.push_back({f[2], c, b});
            nf.push_back({a, b, c});
        }
        s.F.swap(nf);
    }
    s.tag = fmt("icosphere%d", level);
    return s;
}
// closed grid on a torus, m x n vertices (m,n >= 3)
inline Soup torus(int m, int n, double R = 3.0, double r = 1.0) {
    Soup s;
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) {
            double u = 2 * M_PI * i / m, v = 2 * M_PI * j / n;
            s.V.push_back({(R + r * cos(v)) * cos(u), (R + r * cos(v)) * sin(u), r * sin(v)});
        }
    auto id = [&](int i, int j) { return (uint32_t)(((i + m) % m) * n + (j + n) % n); };
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) {
            s.F.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
            s.F.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
        }
    s.tag = fmt("torus%dx%d", m, n);
    return s;
}
inline Soup gridPlane(int m, int n) {  // m x n vertices
    Soup s;
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) s.V.push_back({(double)i, (double)j, 0});
    auto id = [&](int i, int j) { return (uint32_t)(i * n + j); };
    for (int i = 0; i + 1 < m; i++)
        for (int j = 0; j + 1 < n; j++) {
            s.F.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
            s.F.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
        }
    s.tag = fmt("grid%dx%d", m, n);
    return s;
}
inline Soup disc(int n) {  // fan
    Soup s;
    s.V.push_back({0, 0, 0});
    for (int i = 0; i < n; i++) s.V.push_back({cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), 0});
    for (int i = 0; i < n; i++) s.F.push_back({0, (uint32_t)(1 + i), (uint32_t)(1 + (i + 1) % n)});
    s.tag = fmt("disc%d", n);
    return s;
}
inline Soup cylinder(int m, int n) {  // m around, n along; open at both ends
    Soup s;
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) s.V.push_back({cos(2 * M_PI * i / m), sin(2 * M_PI * i / m), 0.5 * j});
    auto id = [&](int i, int j) { return (uint32_t)(j * m + (i + m) % m); };
    for (int j = 0; j + 1 < n; j++)
        for (int i = 0; i < m; i++) {
            s.F.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
            s.F.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
        }
    s.tag = fmt("cylinder%dx%d", m, n);
    return s;
}
// closed cube surface with n x n quads a side
inline Soup cube(int n) {
    Soup s;
    std::map<std::array<int, 3>, uint32_t> id;
    auto v = [&](int x, int y, int z) {
        std::array<int, 3> k = {x, y, z};
        auto it = id.find(k);
        if (it != id.end()) return it->second;
        s.V.push_back({2.0 * x / n - 1, 2.0 * y / n - 1, 2.0 * z / n - 1});
        return id[k] = (uint32_t)s.V.size() - 1;
    };
    for (int axis = 0; axis < 3; axis++)
        for (int side = 0; side < 2; side++)
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++) {
                    auto q = [&](int a, int b) {
                        int c[3];
                        c[axis] = side * n;
                        c[(axis + 1) % 3] = a;
                        c[(axis + 2) % 3] = b;
                        return v(c[0], c[1], c[2]);
                    };
                    uint32_t a = q(i, j), b = q(i + 1, j), c = q(i + 1, j + 1), d = q(i, j + 1);
                    if (side) {
                        s.F.push_back({a, b, c});
                        s.F.push_back({a, c, d});
                    } else {
                        s.F.push_back({a, c, b});
                        s.F.push_back({a, d, c});
                    }
                }
    s.tag = fmt("cube%d", n);
    return s;
}
inline void append(Soup &a, const Soup &b, const P &shift) {
    uint32_t off = (uint32_t)a.V.size();
    for (auto &p : b.V) a.V.push_back(p + shift);
    for (auto &f : b.F) a.F.push_back({f[0] + off, f[1] + off, f[2] + off});
    a.tag += "+" + b.tag;
}
// join two surfaces by a triangular tube between one face of each
inline Soup tube(const Soup &a, const Soup &b, const P &shift, size_t fa, size_t fb) {
    Soup s = a;
    uint32_t off = (uint32_t)a.V.size();
    Tri ta = a.F[fa];
    Tri tb = b.F[fb];
    append(s, b, shift);
    for (auto &x : tb) x += off;
    std::vector<Tri> nf;
    for (size_t i = 0; i < s.F.size(); i++)
        if (i != fa && i != a.F.size() + fb) nf.push_back(s.F[i]);
    // hole of a runs ta[0]->ta[1]->ta[2] missing; new faces must supply those
    // directed edges. Pair ta = (0,1,2) with tb reversed.
    uint32_t A[3] = {ta[0], ta[1], ta[2]}, B[3] = {tb[0], tb[2], tb[1]};
    for (int k = 0; k < 3; k++) {
        int n = (k + 1) % 3;
        // quad A[k] -> A[n] -> B[n] -> B[k]
        nf.push_back({A[k], A[n], B[n]});
        nf.push_back({A[k], B[n], B[k]});
    }
    s.F.swap(nf);
    s.tag = "tube(" + a.tag + "," + b.tag + ")";
    return s;
}
inline Soup doubleTorus(int m, int n) {
    Soup t = torus(m, n);
    return tube(t, t, P(9, 0, 0), 0, t.F.size() / 2);
}

// index-level random edits used to diversify connectivity
inline bool soupFlip(Soup &s, Rng &rng) {
    Topo t;  // local lookup
    std::map<DE, int> ef;
    for (size_t i = 0; i < s.F.size(); i++)
        for (int k = 0; k < 3; k++) ef[DE(s.F[i][k], s.F[i][(k + 1) % 3])] = (int)i;
    for (int trial = 0; trial < 20; trial++) {
        int i = (int)rng.below(s.F.size());
        int k = (int)rng.below(3);
        uint32_t a = s.F[i][k], b = s.F[i][(k + 1) % 3], c = s.F[i][(k + 2) % 3];
        auto it = ef.find(DE(b, a));
        if (it == ef.end()) continue;
        int j = it->second;
        uint32_t d = 0;
        for (uint32_t x : s.F[j])
            if (x != a && x != b) d = x;
        if (c == d || ef.count(DE(c, d)) || ef.count(DE(d, c))) continue;
        s.F[i] = {a, d, c};
        s.F[j] = {b, c, d};
        return true;
    }
    return false;
}
inline void soupFlips(Soup &s, int n, Rng &rng) {
    std::map<DE, int> ef;
    for (size_t i = 0; i < s.F.size(); i++)
        for (int k = 0; k < 3; k++) ef[DE(s.F[i][k], s.F[i][(k + 1) % 3])] = (int)i;
    for (int q = 0; q < n; q++) {
        int i = (int)rng.below(s.F.size());
        int k = (int)rng.below(3);
        uint32_t a = s.F[i][k], b = s.F[i][(k + 1) % 3], c = s.F[i][(k + 2) % 3];
        auto it = ef.find(DE(b, a));
        if (it == ef.end()) continue;
        int j = it->second;
        uint32_t d = 0;
        for (uint32_t x : s.F[j])
            if (x != a && x != b) d = x;
        if (c == d || ef.count(DE(c, d)) || ef.count(DE(d, c))) continue;
        ef.erase(DE(a, b));
        ef.erase(DE(b, a));
        s.F[i] = {a, d, c};
        s.F[j] = {b, c, d};
        for (int m : {i, j})
            for (int e = 0; e < 3; e++) ef[DE(s.F[m][e], s.F[m][(e + 1) % 3])] = m;
    }
}
// 1-to-3 split of a face
inline void soupInsert(Soup &s, size_t fi, const P &p) {
    Tri f = s.F[fi];
    uint32_t v = (uint32_t)s.V.size();
    s.V.push_back(p);
    s.F[fi] = {f[0], f[1], v};
    s.F.push_back({f[1], f[2], v});
    s.F.push_back({f[2], f[0], v});
}
// random triangulated sphere with n vertices and irregular degrees
inline Soup randomSphere(int n, Rng &rng) {
    Soup s = octa();
    while ((int)s.V.size() < n) {
        size_t fi = rng.below(s.F.size());
        auto &f = s.F[fi];
        double a = rng.uni(0.2, 1), b = rng.uni(0.2, 1), c = rng.uni(0.2, 1);
        P p = (s.V[f[0]] * a + s.V[f[1]] * b + s.V[f[2]] * c) / (a + b + c);
        soupInsert(s, fi, unit(p));
        if (rng.chance(0.7)) soupFlips(s, 3, rng);
    }
    s.tag = fmt("randsphere%d", n);
    return s;
}
// random triangulated planar disc: square with random interior points
inline Soup randomDisc(int n, Rng &rng) {
    Soup s;
    s.V = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}};
    s.F = {{0, 1, 2}, {0, 2, 3}};
    while ((int)s.V.size() < n) {
        size_t fi = rng.below(s.F.size());
        auto &f = s.F[fi];
        double a = rng.uni(0.2, 1), b = rng.uni(0.2, 1), c = rng.uni(0.2, 1);
        soupInsert(s, fi, (s.V[f[0]] * a + s.V[f[1]] * b + s.V[f[2]] * c) / (a + b + c));
    }
    s.tag = fmt("randdisc%d", n);
    return s;
}
// remove random faces while the surface stays a manifold with no component lost
inline void punch(Soup &s, int faces, Rng &rng) {
    for (int i = 0; i < faces && s.F.size() > 2; i++) {
        for (int trial = 0; trial < 8; trial++) {
            Soup t = s;
            size_t k = rng.below(t.F.size());
            t.F.erase(t.F.begin() + (long)k);
            compact(t);
            if (analyse(t).manifold) {
                t.tag = s.tag;
                s = t;
                break;
            }
        }
    }
    s.tag += "-punched";
}
// remove a connected patch of triangles, giving one larger hole
inline void punchPatch(Soup &s, int faces, Rng &rng) {
    if (s.F.size() < 3) return;
    Soup t = s;
    std::set<std::pair<uint32_t, uint32_t>> front;
    auto take = [&](size_t k) {
        Soup u = t;
        const Tri f = u.F[k];
        u.F.erase(u.F.begin() + (long)k);
        Soup c = u;  // without vertices left alone; t keeps the numbers for the front
        compact(c);
        if (!analyse(c).manifold) return false;
        t = u;
        for (int i = 0; i < 3; i++) front.insert({f[(size_t)(i + 1) % 3], f[(size_t)i]});
        return true;
    };
    if (!take(rng.below(t.F.size()))) return;
    for (int i = 1; i < faces && t.F.size() > 3; i++) {
        std::vector<size_t> next;
        for (size_t k = 0; k < t.F.size(); k++)
            for (int j = 0; j < 3; j++)
                if (front.count({t.F[k][(size_t)j], t.F[k][(size_t)(j + 1) % 3]})) {
                    next.push_back(k);
                    break;
                }
        if (next.empty()) break;
        for (int trial = 0; trial < 6; trial++)
            if (take(next[rng.below(next.size())])) break;
    }
    compact(t);
    t.tag = s.tag + "-hole";
    s = t;
}
inline void jitter(Soup &s, double amp, Rng &rng) {
    for (auto &p : s.V) p += P(rng.uni(-amp, amp), rng.uni(-amp, amp), rng.uni(-amp, amp));
}
struct Rigid {
    double m[9];
    P t;
    P rot(const P &p) const {
        return {m[0] * p.x + m[1] * p.y + m[2] * p.z, m[3] * p.x + m[4] * p.y + m[5] * p.z,
                m[6] * p.x + m[7] * p.y + m[8] * p.z};
    }
    P operator()(const P &p) const { return rot(p) + t; }
};
inline Rigid randomRigid(Rng &rng, double shift) {
    double q[4], n = 0;
    for (auto &x : q) {
        x = rng.normal();
        n += x * x;
    }
    n = std::sqrt(n);
    for (auto &x : q) x /= n;
    double w = q[0], x = q[1], y = q[2], z = q[3];
    Rigid r;
    double m[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w),
                   2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
                   2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)};
    memcpy(r.m, m, sizeof m);
    r.t = P(rng.uni(-shift, shift), rng.uni(-shift, shift), rng.uni(-shift, shift));
    return r;
}
inline void apply(Soup &s, const Rigid &r) {
    for (auto &p : s.V) p = r(p);
}
inline void scale(Soup &s, double k) {
    for (auto &p : s.V) p = p * k;
}
inline void shuffleSoup(Soup &s, Rng &rng) {
    std::vector<uint32_t> perm(s.V.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = (uint32_t)i;
    rng.shuffle(perm);
    std::vector<P> nv(s.V.size());
    for (size_t i = 0; i < perm.size(); i++) nv[perm[i]] = s.V[i];
    s.V.swap(nv);
    for (auto &f : s.F) {
        for (auto &i : f) i = perm[i];
        int r = (int)rng.below(3);
        std::rotate(f.begin(), f.begin() + r, f.end());
    }
    rng.shuffle(s.F);
}
inline bool distinctPositions(const Soup &s) {
    std::set<P> q(s.V.begin(), s.V.end());
    return q.size() == s.V.size();
}

// A closed surface, genus 0..2, possibly several components, irregular.
inline Soup randomClosed(Rng &rng, int sizeHint = 60, bool multi = true) {
    Soup s;
    switch (rng.below(9)) {
    case 0: s = icosphere(sizeHint > 100 ? 2 : 1); break;
    case 1: s = torus(rng.range(4, 4 + sizeHint / 10), rng.range(4, 4 + sizeHint / 10)); break;
    case 2: s = cube(rng.range(1, 1 + sizeHint / 20)); break;
    case 3: s = randomSphere(rng.range(6, sizeHint), rng); break;
    case 4: s = doubleTorus(rng.range(4, 7), rng.range(4, 7)); break;
    case 5: s = tetra(); break;
    case 6: s = octa(); break;
    case 7: s = randomSphere(rng.range(sizeHint / 2, sizeHint), rng); break;
    default: s = icosphere(1); soupFlips(s, 20, rng); break;
    }
    if (rng.chance(0.5)) soupFlips(s, (int)rng.below(20), rng);
    if (multi && rng.chance(0.15)) append(s, rng.chance(0.5) ? octa() : torus(4, 5), P(20, 0, 0));
    return s;
}
// A surface with boundary (or occasionally closed), possibly several holes and components.
inline Soup randomSurface(Rng &rng, int sizeHint = 60) {
    Soup s;
    switch (rng.below(8)) {
    case 0: return randomClosed(rng, sizeHint);
    case 1: s = gridPlane(rng.range(2, 3 + sizeHint / 10), rng.range(2, 3 + sizeHint / 10)); break;
    case 2: s = disc(rng.range(3, 12)); break;
    case 3: s = cylinder(rng.range(3, 10), rng.range(2, 6)); break;
    case 4: s = randomDisc(rng.range(4, sizeHint), rng); break;
    default: s = randomClosed(rng, sizeHint); punch(s, rng.range(1, 5), rng); break;
    }
    if (rng.chance(0.4)) soupFlips(s, (int)rng.below(20), rng);
    if (rng.chance(0.2)) punch(s, rng.range(1, 3), rng);
    if (rng.chance(0.15)) append(s, rng.chance(0.5) ? disc(5) : octa(), P(20, 0, 0));
    if (rng.chance(0.1)) append(s, gridPlane(2, 2), P(-20, 0, 0));
    if (rng.chance(0.1)) {
        Soup t;
        t.V = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}};
        t.F = {{0, 1, 2}};
        t.tag = "tri";
        append(s, t, P(0, 30, 0));
    }
    return s;
}
inline double meanEdge(const Soup &s) {
    double sum = 0;
    size_t n = 0;
    for (auto &f : s.F)
        for (int k = 0; k < 3; k++) {
            sum += len(s.V[f[k]] - s.V[f[(k + 1) % 3]]);
            n++;
        }
    return n ? sum / (double)n : 1.0;
}
// minimum over triangles of (2*area)/(longest edge)^2: shape quality
inline double minQuality(const Soup &s) {
    double q = 1e30;
    for (auto &f : s.F) {
        P a = s.V[f[0]], b = s.V[f[1]], c = s.V[f[2]];
        double l = std::max(len(a - b), std::max(len(b - c), len(c - a)));
        q = std::min(q, len(cross(b - a, c - a)) / (l * l + 1e-300));
    }
    return q;
}

// Minimal PLY reader for the repository's sample models (binary LE floats,
// uchar-int triangle lists).
inline bool readPly(const std::string &path, Soup &s) {
    FILE *f = fopen(path.c_str(), "rb");
    if (!f) return false;
    char line[512];
    long nv = 0, nf = 0;
    bool ok = false;
    while (fgets(line, sizeof line, f)) {
        sscanf(line, "element vertex %ld", &nv);
        sscanf(line, "element face %ld", &nf);
        if (!strncmp(line, "end_header", 10)) {
            ok = true;
            break;
        }
    }
    for (long i = 0; ok && i < nv; i++) {
        float p[3];
        ok = fread(p, 4, 3, f) == 3;
        s.V.push_back({p[0], p[1], p[2]});
    }
    for (long i = 0; ok && i < nf; i++) {
        uint8_t n;
        uint32_t t[3];
        ok = fread(&n, 1, 1, f) == 1 && n == 3 && fread(t, 4, 3, f) == 3;
        s.F.push_back({t[0], t[1], t[2]});
    }
    fclose(f);
    s.tag = path.substr(path.rfind('/') + 1);
    return ok && nv > 0;
}

}  // namespace vh
