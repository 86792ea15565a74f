// State of a mesh named by element identity, and oracles for the local edits.
#pragma once
#include "topo.h"

namespace vh {

struct State {
    std::multiset<VTri> tris;
    std::map<const Vertex *, P> pos;
    std::set<const Vertex *> locked;
    std::multiset<std::vector<const Vertex *>> holes;  // loops, starting at the smallest address
    size_t nH = 0, nF = 0;
};
inline State state(const Mesh &m) {
    State s;
    s.tris = vtris(m);
    s.pos = vpos(m);
    for (size_t i = 0; i < m.numVertices(); i++)
        if (m.vertex((int)i)->isLocked()) s.locked.insert(m.vertex((int)i));
    for (size_t i = 0; i < m.numFaces(); i++) {
        Face *f = m.face((int)i);
        if (!f->isHole()) continue;
        std::vector<const Vertex *> l;
        const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
        do {
            l.push_back(h->src());
            h = h->next();
            if (l.size() > m.numHalfedges()) throw Violation("state:hole-cycle", "hole cycle does not close");
        } while (h != h0);
        std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
        s.holes.insert(l);
    }
    s.nH = m.numHalfedges();
    s.nF = m.numFaces();
    return s;
}
inline void sameState(const State &a, const State &b, const char *key, const char *what) {
    VH_CHECK(a.tris == b.tris, key, "%s: triangles changed", what);
    VH_CHECK(a.pos == b.pos, key, "%s: vertices or positions changed", what);
    VH_CHECK(a.locked == b.locked, key, "%s: locks changed", what);
    VH_CHECK(a.holes == b.holes, key, "%s: holes changed", what);
    VH_CHECK(a.nH == b.nH && a.nF == b.nF, key, "%s: element counts changed", what);
}
inline bool adjacent(const Vertex *a, const Vertex *b) {
    const Halfedge *h0 = a->he_begin().ptr(), *h = h0;
    do {
        if (h->dst() == b) return true;
        h = h->rev()->next();
    } while (h != h0);
    return false;
}
// The four vertices around an edge: he = a->b, c opposite in he's face, d opposite on the other side.
struct Quad {
    const Vertex *a, *b, *c, *d;
    bool inner;
};
inline Quad quad(const Halfedge *he) {
    Quad q;
    q.a = he->src();
    q.b = he->dst();
    q.inner = !he->face()->isHole() && !he->rev()->face()->isHole();
    q.c = he->next()->dst();
    q.d = he->rev()->next()->dst();
    return q;
}
inline void eraseTri(std::multiset<VTri> &t, const VTri &x, const char *key) {
    auto it = t.find(x);
    if (it == t.end()) throw Violation(key, "a triangle at the edge is not in the mesh");
    t.erase(it);
}

// One flip with its complete contract.  Returns whether it succeeded.
inline bool checkedFlip(Mesh &m, Halfedge *he, const State &before, State &after) {
    const Quad q = quad(he);
    const int da = q.a->degree(), db = q.b->degree();
    const bool cd = q.inner && adjacent(q.c, q.d);
    const bool ok = m.flipHE(he);
    after = state(m);
    if (!ok) {
        sameState(before, after, "flip:failed-but-changed", "flip reported failure");
        VH_CHECK(!(q.inner && !cd && da > 4 && db > 4), "flip:refused",
                 "flip of a legal inner edge (degrees %d and %d, opposite vertices not adjacent) refused", da, db);
        return false;
    }
    VH_CHECK(q.inner, "flip:boundary", "flip of a boundary edge succeeded");
    VH_CHECK(!cd, "flip:double-edge", "flip succeeded although the opposite vertices were adjacent");
    std::multiset<VTri> want = before.tris;
    eraseTri(want, canonV(q.a, q.b, q.c), "flip:lookup");
    eraseTri(want, canonV(q.b, q.a, q.d), "flip:lookup");
    want.insert(canonV(q.a, q.d, q.c));
    want.insert(canonV(q.b, q.c, q.d));
    VH_CHECK(after.tris == want, "flip:triangles", "flip did not swap exactly the two triangles at the edge");
    State w = before;
    w.tris = want;
    sameState(w, after, "flip:side-effect", "flip succeeded");
    return true;
}

inline bool checkedSplit(Mesh &m, Halfedge *he, const State &before, State &after) {
    const Quad q = quad(he);
    const bool ok = m.splitHE(he);
    after = state(m);
    if (!ok) {
        sameState(before, after, "split:failed-but-changed", "split reported failure");
        VH_CHECK(!q.inner, "split:refused", "split of an inner edge refused");
        return false;
    }
    VH_CHECK(q.inner, "split:boundary", "split of a boundary edge succeeded");
    const Vertex *n = nullptr;
    for (auto &kv : after.pos)
        if (!before.pos.count(kv.first)) {
            VH_CHECK(n == nullptr, "split:vertices", "split added more than one vertex");
            n = kv.first;
        }
    VH_CHECK(n != nullptr, "split:vertices", "split added no vertex");
    const P pa = before.pos.at(q.a), pb = before.pos.at(q.b), mid = (pa + pb) * 0.5, got = after.pos.at(n);
    VH_CHECK(len(got - mid) <= 1e-12 * (len(pa) + len(pb)), "split:midpoint",
             "new vertex at (%g %g %g), midpoint is (%g %g %g)", got.x, got.y, got.z, mid.x, mid.y, mid.z);
    VH_CHECK(!n->isLocked(), "split:locked", "new vertex is locked");
    State w = before;
    eraseTri(w.tris, canonV(q.a, q.b, q.c), "split:lookup");
    eraseTri(w.tris, canonV(q.b, q.a, q.d), "split:lookup");
    w.tris.insert(canonV(q.a, n, q.c));
    w.tris.insert(canonV(n, q.b, q.c));
    w.tris.insert(canonV(q.b, n, q.d));
    w.tris.insert(canonV(n, q.a, q.d));
    VH_CHECK(after.tris == w.tris, "split:triangles", "split did not replace the two triangles by the four expected ones");
    w.pos[n] = got;
    w.nH += 6;
    w.nF += 2;
    sameState(w, after, "split:side-effect", "split succeeded");
    return true;
}

inline bool checkedCollapse(Mesh &m, Halfedge *he, const State &before, State &after) {
    const Quad q = quad(he);
    const bool ok = m.collapseHE(he);
    after = state(m);
    if (!ok) {
        sameState(before, after, "collapse:failed-but-changed", "collapse reported failure");
        return false;
    }
    VH_CHECK(q.inner, "collapse:boundary", "collapse of a boundary edge succeeded");
    const bool hasA = after.pos.count(q.a), hasB = after.pos.count(q.b);
    VH_CHECK(hasA != hasB, "collapse:ends", "after a collapse %s of the two ends remain", hasA ? "both" : "none");
    const Vertex *keep = hasA ? q.a : q.b, *gone = hasA ? q.b : q.a;
    State w = before;
    w.pos.erase(gone);
    w.locked.erase(gone);
    w.tris.clear();
    size_t removed = 0;
    for (auto &t : before.tris) {
        VTri u = t;
        int n = 0;
        for (auto &x : u) {
            n += x == q.a || x == q.b;
            if (x == gone) x = keep;
        }
        if (n == 2)
            removed++;
        else
            w.tris.insert(canonV(u[0], u[1], u[2]));
    }
    VH_CHECK(removed == 2, "collapse:double-edge", "collapse across %zu triangles", removed);
    VH_CHECK(after.tris == w.tris, "collapse:triangles", "collapse did not keep exactly the triangles off the edge");
    std::multiset<std::vector<const Vertex *>> hs;
    for (auto l : w.holes) {
        for (auto &x : l)
            if (x == gone) x = keep;
        std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
        hs.insert(l);
    }
    w.holes = hs;
    w.nH -= 6;
    w.nF -= 2;
    sameState(w, after, "collapse:side-effect", "collapse succeeded");
    return true;
}

// Topology class of the surface as triangles: Euler characteristic, components, loops.
struct TopoClass {
    long euler = 0;
    size_t components = 0, loops = 0;
    bool operator==(const TopoClass &o) const {
        return euler == o.euler && components == o.components && loops == o.loops;
    }
};
inline TopoClass topoClass(const Mesh &m, const char *key) {
    Snap s = snap(m);
    Topo t = analyse(s.pos.size(), s.tris);
    VH_CHECK(t.manifold, key, "the triangles are no manifold: %s", t.why.c_str());
    TopoClass c;
    c.euler = t.euler();
    c.components = t.components;
    c.loops = t.loops.size();
    return c;
}
inline void sameTopo(const TopoClass &a, const TopoClass &b, const char *key) {
    VH_CHECK(a == b, key, "topology changed: Euler %ld -> %ld, components %zu -> %zu, boundary loops %zu -> %zu", a.euler,
             b.euler, a.components, b.components, a.loops, b.loops);
}

// A usable random surface: manifold, distinct positions.
inline Soup okSurface(Rng &rng, int hint, bool closed = false) {
    for (int i = 0; i < 20; i++) {
        Soup s = closed ? randomClosed(rng, hint) : randomSurface(rng, hint);
        compact(s);
        if (rng.chance(0.7)) jitter(s, 1e-3, rng);
        shuffleSoup(s, rng);
        if (distinctPositions(s) && analyse(s).manifold) return s;
    }
    throw Skip();
}

}  // namespace vh
