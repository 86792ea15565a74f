// C36: chains of operations.
#include <omp.h>
#include <random>
#include <unistd.h>

#include "core/bvh.h"
#include "edit.h"
#include "filters/filters.h"
#include "ops/ops.h"
#include "ref.h"
#include "remesh/remesh.h"
#include "restore/restore.h"
using namespace vh;
using namespace tinymesh;

static uint64_t g_order = 1;
unsigned int std::random_device::_M_getval() { return (unsigned int)(g_order = mix(g_order)); }

static std::vector<Face *> holesOf(Mesh &m) {
    std::vector<Face *> r;
    for (size_t i = 0; i < m.numFaces(); i++)
        if (m.face((int)i)->isHole()) r.push_back(m.face((int)i));
    return r;
}
static bool chordless(Face *f) {
    std::vector<const Vertex *> l;
    const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
    do {
        l.push_back(h->src());
        h = h->next();
    } while (h != h0);
    const size_t n = l.size();
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 2; j < n; j++)
            if (!(i == 0 && j == n - 1) && adjacent(l[i], l[j])) return false;
    return true;
}

// Everything a caller may hold on to.
struct Held {
    std::map<const Vertex *, int> v;
    std::map<const Vertex *, P> at;
    std::map<const Vertex *, bool> lock;
    std::map<const Face *, VTri> f;  // triangles only
    std::map<const Halfedge *, std::pair<const Vertex *, const Vertex *>> h;
    explicit Held(Mesh &m) {
        for (size_t i = 0; i < m.numVertices(); i++) {
            Vertex *x = m.vertex((int)i);
            v[x] = x->index();
            at[x] = toP(x->pos());
            lock[x] = x->isLocked();
        }
        for (size_t i = 0; i < m.numHalfedges(); i++) {
            Halfedge *x = m.halfedge((int)i);
            h[x] = {x->src(), x->dst()};
        }
        for (size_t i = 0; i < m.numFaces(); i++) {
            Face *x = m.face((int)i);
            if (x->isHole()) continue;
            const Halfedge *e = x->he_begin().ptr();
            f[x] = canonV(e->src(), e->dst(), e->next()->dst());
        }
    }
};
// the operation only moved vertices
static void sameElements(const Held &a, const Held &b, bool moved, const char *op) {
    VH_CHECK(a.v == b.v && a.h == b.h && a.f == b.f, "elements", "%s replaced elements of the mesh or their connectivity", op);
    VH_CHECK(a.lock == b.lock, "locks", "%s changed locks", op);
    if (!moved) VH_CHECK(a.at == b.at, "positions", "%s moved vertices", op);
}
// the operation only added elements
static void keptElements(const Held &a, const Held &b, const char *op) {
    for (auto &x : a.v) VH_CHECK(b.v.count(x.first) && b.at.at(x.first) == a.at.at(x.first), "kept", "%s lost or moved a vertex", op);
    for (auto &x : a.f) {
        auto it = b.f.find(x.first);
        VH_CHECK(it != b.f.end() && it->second == x.second, "kept", "%s lost or changed a triangle", op);
    }
    for (auto &x : a.h) {
        auto it = b.h.find(x.first);
        VH_CHECK(it != b.h.end() && it->second == x.second, "kept", "%s lost or changed a halfedge", op);
    }
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    omp_set_num_threads(rng.chance(0.2) ? 2 : 1);
    g_order = rng.next();
    Soup s;
    const bool cut = rng.chance(0.5);
    if (cut) {
        switch (rng.below(4)) {
        case 0: s = icosphere(2); break;
        case 1: s = torus(rng.range(10, 16), rng.range(8, 12)); break;
        case 2: s = cube(rng.range(3, 6)); break;
        default: s = icosphere(rng.chance(0.1) ? 3 : 1); break;
        }
        jitter(s, meanEdge(s) * rng.uni(0, 0.08), rng);
        for (int i = rng.range(1, 2); i > 0; i--) cutHole(s, rng, meanEdge(s) * rng.uni(0.5, 2.5), s.V[rng.below(s.V.size())]);
        shuffleSoup(s, rng);
        if (!distinctPositions(s) || !analyse(s).manifold) throw Skip();
    } else {
        s = goodSurface(rng, rng.chance(0.2) ? 200 : 60, 0.05);
    }
    auto m = build(s);
    validate(*m, "connectivity");
    const int stages = rng.range(3, ctx.thorough ? 12 : 8);
    bool asGiven = cut;  // positions near the holes are still those of the cut surface
    std::string trail = s.tag;
    uint64_t hash = s.topoHash();
    for (int st = 0; st < stages; st++) {
        const Soup now = toSoup(*m);
        if (!distinctPositions(now)) break;
        for (auto &p : now.V)
            if (!finite(p)) return;
        const bool good = minQuality(now) > 0.01;
        const bool closed = holesOf(*m).empty();
        const TopoClass t0 = topoClass(*m, "manifold");
        TopoClass want = t0;
        const Held before(*m);
        const int op = rng.range(0, 15);
        const char *name = "";
        enum { MOVES, READS, ADDS, EDITS, NEW } what = READS;
        try {
            switch (op) {
            case 0: {
                name = "edits";
                ctx.stage(name);
                what = EDITS;
                for (int i = rng.range(1, 40); i > 0; i--) {
                    Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
                    switch (rng.below(4)) {
                    case 0: m->flipHE(he); break;
                    case 1: m->splitHE(he); break;
                    case 2: m->collapseHE(he); break;
                    default: {
                        Face *f = m->face((int)rng.below(m->numFaces()));
                        if (!f->isHole() && rng.chance(0.3)) m->collapseFace(f);
                    }
                    }
                }
                asGiven = false;
                break;
            }
            case 1:
                name = "smoothLaplacian";
                ctx.stage(name);
                what = MOVES;
                smoothLaplacian(*m, rng.uni(0, 1), good && rng.chance(0.4), rng.range(0, 4));
                asGiven = false;
                break;
            case 2:
                name = "smoothTaubin";
                ctx.stage(name);
                what = MOVES;
                smoothTaubin(*m, rng.uni(0, 1), rng.uni(0, 1), rng.range(0, 4));
                asGiven = false;
                break;
            case 3:
                if (!good) continue;
                name = "implicitFairing";
                ctx.stage(name);
                what = MOVES;
                implicitFairing(*m, rng.uni(0.01, 1), rng.range(1, 2));
                asGiven = false;
                break;
            case 4:
                if (!good || !closed) continue;
                name = "denoising by normals";
                ctx.stage(name);
                what = MOVES;
                if (rng.chance(0.5)) denoiseNormalGaussian(*m, rng.uni(0.1, 1), rng.range(1, 3));
                else denoiseNormalBilateral(*m, rng.uni(0.1, 1), rng.uni(0.1, 1), rng.range(1, 3));
                asGiven = false;
                break;
            case 5:
                if (!good || !closed) continue;
                name = "denoiseL0Smooth";
                ctx.stage(name);
                what = MOVES;
                denoiseL0Smooth(*m, rng.uni(0.05, 0.2), rng.uni(1e-3, 1e-2));
                asGiven = false;
                break;
            case 6:
            case 7: {
                auto hs = holesOf(*m);
                if (hs.empty()) continue;
                Face *f = hs[rng.below(hs.size())];
                if (!chordless(f)) continue;
                what = ADDS;
                want.loops--, want.euler++;
                if (op == 7 && asGiven) {
                    name = "holeFillAdvancingFront";
                    ctx.stage(name);
                    holeFillAdvancingFront(*m, f);
                } else {
                    name = "holeFillMinDihedral";
                    ctx.stage(name);
                    holeFillMinDihedral(*m, f, rng.chance(0.5) ? Pi : rng.uni(0, 3));
                }
                break;
            }
            case 8:
                if (!good) continue;
                name = "remeshTriangular";
                ctx.stage(name);
                what = EDITS;
                remeshTriangular(*m, rng.uni(0.5, 0.8), rng.uni(1.2, 1.6), rng.chance(0.5) ? 0.0 : rng.uni(0, 1), rng.range(1, 2), false);
                asGiven = false;
                break;
            case 9: {
                if (!good) continue;
                name = "simplifyQEM";
                ctx.stage(name);
                what = EDITS;
                simplifyQEM(*m, std::max(1, (int)((double)m->numFaces() * rng.uni(0.3, 1))), rng.range(1, 3), false);
                asGiven = false;
                break;
            }
            case 10: {
                if (!good) continue;
                name = "measures";
                ctx.stage(name);
                double sum = m->getMeanEdgeLength();
                for (size_t i = 0; i < m->numHalfedges(); i++) sum += m->halfedge((int)i)->length() + m->halfedge((int)i)->cotWeight();
                for (size_t i = 0; i < m->numVertices(); i++) sum += m->vertex((int)i)->volonoiArea() + m->vertex((int)i)->degree();
                if (closed) sum += m->getMeanFaceArea() + m->getMeanDihedralAngle();
                for (int k = 0; k < 3; k++) sum += EigenMatrix(getMeshLaplacian(*m, k == 0 ? MeshLaplace::Adjacent : k == 1 ? MeshLaplace::Cotangent : MeshLaplace::Belkin08)).sum();
                VH_CHECK(std::isfinite(sum), "finite", "a measure of a sound mesh is not finite");
                break;
            }
            case 11: {
                if (!good || !closed || now.V.size() > 250) continue;
                name = "curvatures";
                ctx.stage(name);
                getPrincipalCurvatures(*m, rng.chance(0.5));
                getPrincipalCurvaturesWithDerivatives(*m, rng.chance(0.5));
                if (rng.chance(0.5)) getFeatureLineFieldWithFlags(*m, rng.chance(0.5));
                break;
            }
            case 12: {
                name = "distances";
                ctx.stage(name);
                Mesh c = m->clone();
                if (good) smoothLaplacian(c, 0.5, false, 1);
                getHausdorffDistance(*m, c);
                BVH b(*m);
                b.distance(toV(P(rng.uni(-2, 2), rng.uni(-2, 2), rng.uni(-2, 2))));
                break;
            }
            case 13: {
                Soup single = now;
                for (auto &p : single.V) p = P((float)p.x, (float)p.y, (float)p.z);
                if (!distinctPositions(single)) continue;
                name = "save and load";
                ctx.stage(name);
                const std::string path = fmt("c36.%d.%s", (int)getpid(), rng.chance(0.5) ? "obj" : "ply");
                m->save(path);
                Mesh c(path);
                unlink(path.c_str());
                validate(c, "connectivity");
                VH_CHECK(c.numVertices() == m->numVertices() && c.numFaces() == m->numFaces() && c.numHalfedges() == m->numHalfedges(), "reload",
                         "a saved mesh of %zu vertices, %zu faces, %zu halfedges loads with %zu, %zu, %zu", m->numVertices(), m->numFaces(), m->numHalfedges(), c.numVertices(), c.numFaces(), c.numHalfedges());
                break;
            }
            case 14: {
                name = "clone";
                ctx.stage(name);
                what = NEW;
                auto c = std::make_unique<Mesh>(m->clone());
                VH_CHECK(ptris(snap(*c)) == ptris(snap(*m)) && c->numHalfedges() == m->numHalfedges(), "clone", "a copy differs from the mesh");
                m = std::move(c);  // the given mesh is destroyed
                break;
            }
            default: {
                name = "locks";
                ctx.stage(name);
                for (size_t i = 0; i < m->numVertices(); i++) {
                    if (rng.chance(0.05)) m->vertex((int)i)->lock();
                    else if (rng.chance(0.3)) m->vertex((int)i)->unlock();
                }
                hash = mix(hash, 99);
                continue;
            }
            }
        } catch (const std::runtime_error &e) {
            // a direction that vanishes: the library reports it
            VH_CHECK(std::string(e.what()).find("Zero division") != std::string::npos, "exception", "%s after %s ends with '%s'", name, trail.c_str(), e.what());
            ctx.count("reported");
            validate(*m, "connectivity");
            return;
        }
        trail += std::string(", ") + name;
        ctx.stage("observe");
        validate(*m, "connectivity");
        const TopoClass t1 = topoClass(*m, "manifold");
        VH_CHECK(t1 == want, "topology", "%s: Euler %ld -> %ld, components %zu -> %zu, boundary loops %zu -> %zu (expected %ld, %zu, %zu)", trail.c_str(), t0.euler, t1.euler, t0.components, t1.components, t0.loops, t1.loops, want.euler, want.components, want.loops);
        const Held after(*m);
        switch (what) {
        case MOVES: sameElements(before, after, true, name); break;
        case READS: sameElements(before, after, false, name); break;
        case ADDS: keptElements(before, after, name); break;
        case EDITS:  // what is left is where and what it was
            for (auto &x : after.v)
                if (before.v.count(x.first)) VH_CHECK(after.lock.at(x.first) == before.lock.at(x.first) || op == 8 || op == 9, "locks", "%s changed locks", name);
            break;
        case NEW: break;
        }
        ctx.count(name);
        hash = mix(hash, (uint64_t)op * 1000003 + m->numFaces());
        ctx.eval();
    }
    ctx.nontrivial(hash);
    if (id < 40) ctx.sample(trail);
}
void vh::finish(Ctx &) {}
