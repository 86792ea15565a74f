// C08: long interleaved histories of local edits.
#include "edit.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = okSurface(rng, rng.chance(0.3) ? 150 : 50);
    auto m = build(s);
    const TopoClass t0 = topoClass(*m, "start");
    std::map<const Vertex *, P> put = vpos(*m);
    std::set<const Vertex *> locked;
    uint64_t h = s.topoHash();
    const int steps = ctx.thorough ? rng.range(100, 1200) : rng.range(60, 400);
    long n[6] = {0, 0, 0, 0, 0, 0};
    // a bias per history so that growth, shrinkage and churn all occur
    const double wf = rng.uni(), ws = rng.uni() * 0.5, wc = rng.uni(), wm = 0.2, wl = 0.1, wcf = rng.uni() * 0.3, sum = wf + ws + wc + wm + wl + wcf;
    for (int k = 0; k < steps; k++) {
        double u = rng.uni() * sum;
        Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
        bool changed = false;
        if ((u -= wf) < 0) {
            ctx.stage("flip");
            changed = m->flipHE(he);
            n[0] += changed;
        } else if ((u -= ws) < 0) {
            if (m->numVertices() > 1500) continue;
            ctx.stage("split");
            const P mid = (toP(he->src()->pos()) + toP(he->dst()->pos())) * 0.5;
            changed = m->splitHE(he);
            if (changed) {
                const Vertex *nv = nullptr;
                for (size_t i = 0; i < m->numVertices(); i++)
                    if (!put.count(m->vertex((int)i))) nv = m->vertex((int)i);
                VH_CHECK(nv && len(toP(nv->pos()) - mid) < 1e-9 * (1 + len(mid)), "history:split", "no new vertex at the midpoint");
                put[nv] = toP(nv->pos());
            }
            n[1] += changed;
        } else if ((u -= wc) < 0) {
            ctx.stage("collapse");
            changed = m->collapseHE(he);
            n[2] += changed;
        } else if ((u -= wcf) < 0) {
            ctx.stage("collapse face");
            Face *f = m->face((int)rng.below(m->numFaces()));
            if (f->isHole()) continue;
            changed = m->collapseFace(f);
            n[3] += changed;
        } else if ((u -= wm) < 0) {
            Vertex *v = m->vertex((int)rng.below(m->numVertices()));
            P p = toP(v->pos()) + P(rng.uni(-.01, .01), rng.uni(-.01, .01), rng.uni(-.01, .01));
            v->setPos(toV(p));
            put[v] = p;
            n[4]++;
        } else {
            Vertex *v = m->vertex((int)rng.below(m->numVertices()));
            if (rng.chance(0.7)) {
                v->lock();
                locked.insert(v);
            } else {
                v->unlock();
                locked.erase(v);
            }
            n[5]++;
        }
        h = mix(h, (uint64_t)k * 2 + changed);
        // positions and locks of everything that still exists
        ctx.stage("observe");
        std::map<const Vertex *, P> now = vpos(*m);
        for (auto &kv : now) {
            auto it = put.find(kv.first);
            VH_CHECK(it != put.end(), "history:new-vertex", "an edit that is no split added a vertex");
            VH_CHECK(it->second == kv.second, "history:moved", "a vertex is not where it was put");
            VH_CHECK(kv.first->isLocked() == (locked.count(kv.first) > 0), "history:lock", "a vertex's lock changed");
        }
        for (auto it = put.begin(); it != put.end();)
            if (!now.count(it->first)) {
                locked.erase(it->first);
                it = put.erase(it);
            } else {
                ++it;
            }
        if (changed && (k % 5 == 0)) {
            validate(*m, "connectivity");
            sameTopo(t0, topoClass(*m, "history:non-manifold"), "history:topology");
        }
        if (k % 40 == 39 || k == steps - 1) {
            ctx.stage("export and rebuild");
            validate(*m, "connectivity");
            sameTopo(t0, topoClass(*m, "history:non-manifold"), "history:topology");
            Soup a = toSoup(*m);
            if (distinctPositions(a)) {
                Mesh c(m->getVertices(), m->getVertexIndices());
                VH_CHECK(ptris(snap(c)) == ptris(a), "history:rebuild", "the exported buffers rebuild to other triangles");
                VH_CHECK(c.numVertices() == m->numVertices() && c.numFaces() == m->numFaces() && c.numHalfedges() == m->numHalfedges(), "history:rebuild",
                         "the exported buffers rebuild to other element counts");
                ctx.count("rebuilds");
            }
        }
        ctx.eval();
    }
    ctx.count("flips", (uint64_t)n[0]);
    ctx.count("splits", (uint64_t)n[1]);
    ctx.count("collapses", (uint64_t)n[2]);
    ctx.count("face_collapses", (uint64_t)n[3]);
    ctx.count("moves", (uint64_t)n[4]);
    ctx.nontrivial(h);
    if (id < 40) ctx.sample(fmt("%s: %ld flips, %ld splits, %ld collapses, %ld faces collapsed, %ld moves, %ld locks", s.tag.c_str(), n[0], n[1], n[2], n[3], n[4], n[5]));
}
void vh::finish(Ctx &) {}
