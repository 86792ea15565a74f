// Observation of a tinymesh::Mesh through its public interface: structural
// validator, snapshots, comparison with triangle soups.
#pragma once
#include "gen.h"

#include "core/face.h"
#include "core/halfedge.h"
#include "core/mesh.h"
#include "core/vertex.h"

namespace vh {

typedef tinymesh::Mesh Mesh;
typedef tinymesh::Vertex Vertex;
typedef tinymesh::Halfedge Halfedge;
typedef tinymesh::Face Face;
using ::Vec3;

inline Vec3 toV(const P &p) {
    Vec3 v;
    v[0] = p.x;
    v[1] = p.y;
    v[2] = p.z;
    return v;
}
inline P toP(const Vec3 &v) { return P(v[0], v[1], v[2]); }
inline std::vector<Vec3> toVs(const std::vector<P> &ps) {
    std::vector<Vec3> r;
    r.reserve(ps.size());
    for (auto &p : ps) r.push_back(toV(p));
    return r;
}
inline std::unique_ptr<Mesh> build(const Soup &s) {
    return std::unique_ptr<Mesh>(new Mesh(toVs(s.V), s.flat()));
}

inline Tri canon(uint32_t a, uint32_t b, uint32_t c) {
    if (a <= b && a <= c) return {a, b, c};
    if (b <= a && b <= c) return {b, c, a};
    return {c, a, b};
}

struct ValidateOpts {
    bool simple = true;        // no two edges between the same pair of vertices
    bool flags = true;         // boundary flags must agree with the holes
    bool checkVerify = true;   // the mesh's own verify() must agree
    bool triangular = true;    // non-hole faces are triangles
};

// Checks that the connectivity seen through the public interface is that of an
// oriented 2-manifold cell complex: throws Violation(prefix + reason).
inline void validate(const Mesh &m, const std::string &prefix, ValidateOpts o = ValidateOpts()) {
    const long nV = (long)m.numVertices(), nH = (long)m.numHalfedges(), nF = (long)m.numFaces();
    auto K = [&](const char *k) { return prefix + ":" + k; };
    std::unordered_map<const Halfedge *, long> hid;
    std::unordered_map<const Vertex *, long> vid;
    std::unordered_map<const Face *, long> fid;
    for (long i = 0; i < nV; i++) {
        const Vertex *v = m.vertex((int)i);
        VH_CHECK(v != nullptr, K("null-vertex"), "vertex(%ld) is null", i);
        VH_CHECK(v->index() == i, K("vertex-index"), "vertex(%ld)->index() = %d", i, v->index());
        vid[v] = i;
    }
    for (long i = 0; i < nH; i++) {
        const Halfedge *h = m.halfedge((int)i);
        VH_CHECK(h != nullptr, K("null-halfedge"), "halfedge(%ld) is null", i);
        VH_CHECK(h->index() == i, K("halfedge-index"), "halfedge(%ld)->index() = %d", i, h->index());
        hid[h] = i;
    }
    for (long i = 0; i < nF; i++) {
        const Face *f = m.face((int)i);
        VH_CHECK(f != nullptr, K("null-face"), "face(%ld) is null", i);
        VH_CHECK(f->index() == i, K("face-index"), "face(%ld)->index() = %d", i, f->index());
        fid[f] = i;
    }
    VH_CHECK((long)vid.size() == nV && (long)hid.size() == nH && (long)fid.size() == nF, K("duplicate-element"),
             "an element is listed twice");
    // per-halfedge links
    std::vector<long> incoming((size_t)nH, 0);
    for (long i = 0; i < nH; i++) {
        const Halfedge *h = m.halfedge((int)i);
        const Halfedge *n = h->next(), *r = h->rev();
        VH_CHECK(n && hid.count(n), K("next-dangling"), "halfedge %ld: next is not an element of the mesh", i);
        VH_CHECK(r && hid.count(r), K("rev-dangling"), "halfedge %ld: rev is not an element of the mesh", i);
        VH_CHECK(r != h && r->rev() == h, K("rev-involution"), "halfedge %ld: rev(rev(h)) != h", i);
        VH_CHECK(h->src() && vid.count(h->src()), K("src-dangling"), "halfedge %ld: src is not an element", i);
        VH_CHECK(h->face() && fid.count(h->face()), K("face-dangling"), "halfedge %ld: face is not an element", i);
        VH_CHECK(n->face() == h->face(), K("next-face"), "halfedge %ld: next lies in another face", i);
        incoming[(size_t)hid[n]]++;
    }
    for (long i = 0; i < nH; i++) {
        const Halfedge *h = m.halfedge((int)i);
        VH_CHECK(incoming[(size_t)i] == 1, K("next-permutation"), "halfedge %ld has %ld predecessors", i,
                 incoming[(size_t)i]);
        VH_CHECK(h->dst() == h->next()->src(), K("dst"), "halfedge %ld: dst is not the next halfedge's source", i);
        VH_CHECK(h->rev()->src() == h->dst(), K("rev-src"), "halfedge %ld: rev does not start at dst", i);
        VH_CHECK(h->src() != h->dst(), K("loop-edge"), "halfedge %ld joins a vertex to itself", i);
    }
    // face cycles
    std::vector<char> used((size_t)nH, 0);
    std::vector<char> hole((size_t)nF, 0);
    for (long i = 0; i < nF; i++) {
        Face *f = m.face((int)i);
        hole[(size_t)i] = f->isHole();
        Halfedge *h0 = f->he_begin().ptr();
        VH_CHECK(h0 && hid.count(h0), K("face-halfedge"), "face %ld: its halfedge is not an element", i);
        std::set<const Vertex *> vs;
        const Halfedge *h = h0;
        long n = 0;
        do {
            VH_CHECK(h->face() == f, K("face-cycle"), "face %ld: cycle contains a halfedge of another face", i);
            VH_CHECK(!used[(size_t)hid[h]], K("face-cycle"), "face %ld: halfedge used twice", i);
            used[(size_t)hid[h]] = 1;
            vs.insert(h->src());
            VH_CHECK(h->next()->prev() == h, K("prev"), "face %ld: prev(next(h)) != h", i);
            h = h->next();
            n++;
            VH_CHECK(n <= nH, K("face-cycle"), "face %ld: cycle does not close", i);
        } while (h != h0);
        VH_CHECK(n == f->numCorners(), K("num-corners"), "face %ld: %ld corners, numCorners() = %d", i, n,
                 f->numCorners());
        if (!hole[(size_t)i] && o.triangular)
            VH_CHECK(n == 3, K("non-triangle"), "face %ld is not a hole and has %ld corners", i, n);
        VH_CHECK((long)vs.size() == n, K("face-degenerate"), "face %ld visits a vertex twice", i);
    }
    for (long i = 0; i < nH; i++)
        VH_CHECK(used[(size_t)i], K("halfedge-unreached"), "halfedge %ld is in no face cycle", i);
    // vertex fans
    std::vector<long> out((size_t)nV, 0);
    std::vector<char> touchesHole((size_t)nV, 0);
    for (long i = 0; i < nH; i++) {
        const Halfedge *h = m.halfedge((int)i);
        out[(size_t)vid[h->src()]]++;
        if (hole[(size_t)fid[h->face()]]) touchesHole[(size_t)vid[h->src()]] = 1;
    }
    for (long i = 0; i < nV; i++) {
        Vertex *v = m.vertex((int)i);
        VH_CHECK(out[(size_t)i] > 0, K("isolated-vertex"), "vertex %ld has no outgoing halfedge", i);
        const Halfedge *h0 = v->he_begin().ptr();
        VH_CHECK(h0 && hid.count(h0), K("vertex-halfedge"), "vertex %ld: its halfedge is not an element", i);
        const Halfedge *h = h0;
        long n = 0, holes = 0;
        do {
            VH_CHECK(h->src() == v, K("vertex-fan"), "vertex %ld: fan contains a halfedge of another vertex", i);
            holes += hole[(size_t)fid[h->face()]];
            h = h->rev()->next();
            n++;
            VH_CHECK(n <= nH, K("vertex-fan"), "vertex %ld: fan does not close", i);
        } while (h != h0);
        VH_CHECK(n == out[(size_t)i], K("vertex-fan"), "vertex %ld: fan reaches %ld of %ld outgoing halfedges", i, n,
                 out[(size_t)i]);
        VH_CHECK(v->degree() == n, K("degree"), "vertex %ld: degree() = %d, %ld edges", i, v->degree(), n);
        VH_CHECK(holes <= 1, K("pinched-vertex"), "vertex %ld lies on %ld boundary fans", i, holes);
        if (o.flags)
            VH_CHECK(v->isBoundary() == (touchesHole[(size_t)i] != 0), K("vertex-boundary-flag"),
                     "vertex %ld: isBoundary() = %d, touches hole = %d", i, (int)v->isBoundary(),
                     (int)touchesHole[(size_t)i]);
    }
    // simplicity
    if (o.simple) {
        std::unordered_set<uint64_t> seen;
        for (long i = 0; i < nH; i++) {
            const Halfedge *h = m.halfedge((int)i);
            uint64_t k = ((uint64_t)vid[h->src()] << 32) | (uint64_t)vid[h->dst()];
            VH_CHECK(seen.insert(k).second, K("double-edge"), "directed edge %ld->%ld occurs twice", vid[h->src()],
                     vid[h->dst()]);
        }
    }
    // boundary flags
    if (o.flags) {
        for (long i = 0; i < nH; i++) {
            const Halfedge *h = m.halfedge((int)i);
            bool b = hole[(size_t)fid[h->face()]] || hole[(size_t)fid[h->rev()->face()]];
            VH_CHECK(h->isBoundary() == b, K("halfedge-boundary-flag"), "halfedge %ld: isBoundary() = %d, expected %d",
                     i, (int)h->isBoundary(), (int)b);
            VH_CHECK(!(hole[(size_t)fid[h->face()]] && hole[(size_t)fid[h->rev()->face()]]), K("edge-between-holes"),
                     "halfedge %ld lies between two holes", i);
        }
        for (long i = 0; i < nF; i++) {
            Face *f = m.face((int)i);
            bool b = false;
            const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
            do {
                b |= hole[(size_t)i] || hole[(size_t)fid[h->rev()->face()]];
                h = h->next();
            } while (h != h0);
            VH_CHECK(f->isBoundary() == b, K("face-boundary-flag"), "face %ld: isBoundary() = %d, expected %d", i,
                     (int)f->isBoundary(), (int)b);
        }
    }
    VH_CHECK((long)m.numEdges() * 2 == nH, K("num-edges"), "numEdges() = %zu, halfedges %ld", m.numEdges(), nH);
    if (o.checkVerify) {
        bool fin = true;
        for (long i = 0; i < nV; i++) fin &= finite(toP(m.vertex((int)i)->pos()));
        VH_CHECK(m.verify() == fin, K("verify"), "verify() = %d on a %s mesh", (int)m.verify(),
                 fin ? "sound" : "non-finite");
    }
}

// ---- snapshots --------------------------------------------------------------
struct Snap {
    std::vector<P> pos;
    std::vector<Tri> tris;                       // canonical rotation, vertex indices, sorted
    std::vector<std::vector<uint32_t>> holes;    // hole loops (vertex indices)
    long euler = 0;                              // of the triangle set
    size_t nHalfedges = 0;
};
inline Snap snap(const Mesh &m) {
    Snap s;
    for (size_t i = 0; i < m.numVertices(); i++) s.pos.push_back(toP(m.vertex((int)i)->pos()));
    for (size_t i = 0; i < m.numFaces(); i++) {
        Face *f = m.face((int)i);
        std::vector<uint32_t> loop;
        const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
        do {
            loop.push_back((uint32_t)h->src()->index());
            h = h->next();
            if (loop.size() > m.numHalfedges()) throw Violation("snap:face-cycle", "face cycle does not close");
        } while (h != h0);
        if (f->isHole())
            s.holes.push_back(loop);
        else if (loop.size() == 3)
            s.tris.push_back(canon(loop[0], loop[1], loop[2]));
        else
            throw Violation("snap:non-triangle", fmt("face %zu has %zu corners and is no hole", i, loop.size()));
    }
    std::sort(s.tris.begin(), s.tris.end());
    s.nHalfedges = m.numHalfedges();
    s.euler = (long)m.numVertices() - (long)m.numHalfedges() / 2 + (long)s.tris.size();
    return s;
}
inline bool operator==(const Snap &a, const Snap &b) {
    return a.pos == b.pos && a.tris == b.tris && a.holes == b.holes && a.nHalfedges == b.nHalfedges;
}

// Identity-preserving triangle set: vertices named by element address.
typedef std::array<const Vertex *, 3> VTri;
inline VTri canonV(const Vertex *a, const Vertex *b, const Vertex *c) {
    if (a <= b && a <= c) return {a, b, c};
    if (b <= a && b <= c) return {b, c, a};
    return {c, a, b};
}
inline std::multiset<VTri> vtris(const Mesh &m) {
    std::multiset<VTri> r;
    for (size_t i = 0; i < m.numFaces(); i++) {
        Face *f = m.face((int)i);
        if (f->isHole()) continue;
        const Halfedge *h = f->he_begin().ptr();
        r.insert(canonV(h->src(), h->next()->src(), h->next()->next()->src()));
    }
    return r;
}
inline std::map<const Vertex *, P> vpos(const Mesh &m) {
    std::map<const Vertex *, P> r;
    for (size_t i = 0; i < m.numVertices(); i++) r[m.vertex((int)i)] = toP(m.vertex((int)i)->pos());
    return r;
}

// Triangles as position triples (for comparison across relabelling).
typedef std::array<P, 3> PTri;
inline PTri canonP(P a, P b, P c) {
    // (corners may coincide)
    return std::min({PTri{a, b, c}, PTri{b, c, a}, PTri{c, a, b}});
}
inline std::multiset<PTri> ptris(const Soup &s) {
    std::multiset<PTri> r;
    for (auto &f : s.F) r.insert(canonP(s.V[f[0]], s.V[f[1]], s.V[f[2]]));
    return r;
}
inline std::multiset<PTri> ptris(const Snap &s) {
    std::multiset<PTri> r;
    for (auto &f : s.tris) r.insert(canonP(s.pos[f[0]], s.pos[f[1]], s.pos[f[2]]));
    return r;
}
inline std::multiset<PTri> ptris(const std::vector<Vec3> &v, const std::vector<uint32_t> &ix) {
    std::multiset<PTri> r;
    for (size_t i = 0; i + 2 < ix.size(); i += 3)
        r.insert(canonP(toP(v.at(ix[i])), toP(v.at(ix[i + 1])), toP(v.at(ix[i + 2]))));
    return r;
}
inline Soup toSoup(const Mesh &m) {
    Soup s;
    Snap n = snap(m);
    s.V = n.pos;
    s.F = n.tris;
    return s;
}
inline double volume6(const Soup &s) {
    double v = 0;
    for (auto &f : s.F) v += dot(s.V[f[0]], cross(s.V[f[1]], s.V[f[2]]));
    return v;
}

}  // namespace vh
