// C04: circulators against neighbourhoods derived from the triangle list alone.
#include "edit.h"
using namespace vh;

template <class T>
static void sameSeq(const std::vector<T> &a, const std::vector<T> &b, const char *key, const char *what) {
    VH_CHECK(a == b, key, "%s: sequence of %zu elements differs from the expected %zu", what, a.size(), b.size());
}
// walks a circulator in every supported way; the limit stops circulators that do not end
template <class It, class E>
static std::vector<const E *> walk(It b, It e, size_t limit, int mode) {
    std::vector<const E *> r;
    for (It it = b; it != e;) {
        const E *p = it.ptr();
        VH_CHECK(&*it == p, "access", "*it and ptr() disagree");
        VH_CHECK(it.operator->() == p, "access", "-> and ptr() disagree");
        r.push_back(p);
        VH_CHECK(r.size() <= limit, "endless", "a circulator does not end");
        if (mode == 0) {
            It &q = ++it;
            VH_CHECK(&q == &it, "increment", "++it does not return the iterator");
        } else {
            It old = it++;
            VH_CHECK(old.ptr() == p, "increment", "it++ does not return the previous element");
        }
    }
    return r;
}
// rotates cyclically so that the first element is x
template <class E>
static std::vector<const E *> from(std::vector<const E *> v, const E *x) {
    auto it = std::find(v.begin(), v.end(), x);
    VH_CHECK(it != v.end(), "start", "the first element visited is not incident");
    std::rotate(v.begin(), it, v.end());
    return v;
}

static void checkMesh(Ctx &ctx, const Mesh &m) {
    const size_t limit = m.numHalfedges() + 1;
    // index-level neighbourhoods: for each vertex, successor maps from the triangles and hole loops
    Snap s = snap(m);
    const size_t nv = s.pos.size();
    std::vector<std::map<uint32_t, uint32_t>> nxt(nv);  // around v: (v,a,b) in a face -> nxt[v][a] = b
    std::map<DE, const Face *> faceOf;
    std::map<DE, const Halfedge *> heOf;
    for (size_t i = 0; i < m.numFaces(); i++) {
        Face *f = m.face((int)i);
        std::vector<uint32_t> l;
        const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
        do {
            l.push_back((uint32_t)h->src()->index());
            faceOf[DE((uint32_t)h->src()->index(), (uint32_t)h->dst()->index())] = f;
            heOf[DE((uint32_t)h->src()->index(), (uint32_t)h->dst()->index())] = h;
            h = h->next();
        } while (h != h0);
        for (size_t k = 0; k < l.size(); k++) {
            uint32_t v = l[k], a = l[(k + 1) % l.size()], b = l[(k + l.size() - 1) % l.size()];
            nxt[v][a] = b;
        }
        // face circulators
        std::vector<const Vertex *> wv;
        std::vector<const Halfedge *> wh;
        std::vector<const Face *> wf;
        for (size_t k = 0; k < l.size(); k++) wv.push_back(m.vertex((int)l[k]));
        {
            const Halfedge *g = h0;
            do {
                wh.push_back(g);
                wf.push_back(g->rev()->face());
                g = g->next();
            } while (g != h0);
        }
        const Face *cf = f;
        for (int mode = 0; mode < 2; mode++) {
            sameSeq(walk<Face::VertexIterator, Vertex>(f->v_begin(), f->v_end(), limit, mode), wv, "face:vertices", "corners of a face");
            sameSeq(walk<Face::ConstVertexIterator, Vertex>(cf->v_begin(), cf->v_end(), limit, mode), wv, "face:vertices", "corners of a const face");
            sameSeq(walk<Face::HalfedgeIterator, Halfedge>(f->he_begin(), f->he_end(), limit, mode), wh, "face:halfedges", "sides of a face");
            sameSeq(walk<Face::ConstHalfedgeIterator, Halfedge>(cf->he_begin(), cf->he_end(), limit, mode), wh, "face:halfedges", "sides of a const face");
            sameSeq(walk<Face::FaceIterator, Face>(f->f_begin(), f->f_end(), limit, mode), wf, "face:faces", "neighbours of a face");
            sameSeq(walk<Face::ConstFaceIterator, Face>(cf->f_begin(), cf->f_end(), limit, mode), wf, "face:faces", "neighbours of a const face");
        }
        ctx.eval();
    }
    for (size_t v = 0; v < nv; v++) {
        Vertex *vx = m.vertex((int)v);
        const Vertex *cv = vx;
        // counter-clockwise order a -> nxt[a]; the documented order is clockwise
        std::vector<uint32_t> ring;
        uint32_t a = nxt[v].begin()->first, c = a;
        do {
            ring.push_back(c);
            VH_CHECK(nxt[v].count(c), "ring", "fan of a vertex is not closed");
            c = nxt[v][c];
            VH_CHECK(ring.size() <= nxt[v].size(), "ring", "fan of a vertex does not close");
        } while (c != a);
        VH_CHECK(ring.size() == nxt[v].size(), "ring", "vertex has several fans");
        std::reverse(ring.begin(), ring.end());
        std::vector<const Vertex *> rv;
        std::vector<const Halfedge *> rh;
        std::vector<const Face *> rf;
        for (auto x : ring) {
            rv.push_back(m.vertex((int)x));
            rh.push_back(heOf.at(DE((uint32_t)v, x)));
            rf.push_back(faceOf.at(DE((uint32_t)v, x)));
        }
        const Halfedge *h0 = vx->he_begin().ptr();
        VH_CHECK(h0 && h0->src() == vx, "start", "circulator starts at a halfedge of another vertex");
        rv = from(rv, (const Vertex *)h0->dst());
        rh = from(rh, h0);
        // faces follow the halfedges
        for (size_t k = 0; k < rh.size(); k++) rf[k] = rh[k]->face();
        for (int mode = 0; mode < 2; mode++) {
            sameSeq(walk<Vertex::VertexIterator, Vertex>(vx->v_begin(), vx->v_end(), limit, mode), rv, "vertex:vertices", "neighbours of a vertex");
            sameSeq(walk<Vertex::ConstVertexIterator, Vertex>(cv->v_begin(), cv->v_end(), limit, mode), rv, "vertex:vertices", "neighbours of a const vertex");
            sameSeq(walk<Vertex::HalfedgeIterator, Halfedge>(vx->he_begin(), vx->he_end(), limit, mode), rh, "vertex:halfedges", "halfedges of a vertex");
            sameSeq(walk<Vertex::ConstHalfedgeIterator, Halfedge>(cv->he_begin(), cv->he_end(), limit, mode), rh, "vertex:halfedges", "halfedges of a const vertex");
            sameSeq(walk<Vertex::FaceIterator, Face>(vx->f_begin(), vx->f_end(), limit, mode), rf, "vertex:faces", "faces of a vertex");
            sameSeq(walk<Vertex::ConstFaceIterator, Face>(cv->f_begin(), cv->f_end(), limit, mode), rf, "vertex:faces", "faces of a const vertex");
        }
        VH_CHECK(vx->degree() == (int)ring.size(), "degree", "degree() = %d, %zu neighbours", vx->degree(), ring.size());
        bool hole = false;
        for (auto f : rf) hole |= f->isHole();
        if (hole) ctx.count("boundary_fans");
        // element identity
        VH_CHECK(*vx == *vx, "equality", "a vertex does not equal itself");
        if (v) VH_CHECK(!(*vx == *m.vertex((int)v - 1)), "equality", "two vertices are equal");
        ctx.eval();
    }
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = okSurface(rng, rng.chance(0.2) ? 120 : 40);
    auto m = build(s);
    ctx.stage("walk");
    checkMesh(ctx, *m);
    for (int round = rng.range(0, 3); round > 0; round--) {
        ctx.stage("edit");
        for (int k = 0; k < 30; k++) {
            Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
            switch (rng.below(3)) {
            case 0: m->flipHE(he); break;
            case 1: m->splitHE(he); break;
            default: m->collapseHE(he);
            }
        }
        ctx.stage("walk after edits");
        checkMesh(ctx, *m);
        ctx.count("edited_meshes");
    }
    ctx.nontrivial(s.topoHash());
    if (id < 40) ctx.sample(fmt("%s: %zu vertices, %zu faces walked", s.tag.c_str(), m->numVertices(), m->numFaces()));
}
void vh::finish(Ctx &) {}
