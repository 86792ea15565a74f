// C12: locks are per vertex and respected; smoothing leaves locked and rim vertices alone.
#include "edit.h"
#include "ref.h"
#include "filters/filters.h"
#include "remesh/remesh.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = goodSurface(rng, 60, 0.01);
    auto m = build(s);
    const Topo topo = analyse(toSoup(*m));
    std::vector<bool> want(m->numVertices(), false);
    // lock and unlock at random; compare with an explicit record
    ctx.stage("lock");
    const double pl = rng.uni();
    for (int k = 0; k < (int)m->numVertices() * 2; k++) {
        size_t i = rng.below(m->numVertices());
        bool l = rng.chance(pl);
        if (l)
            m->vertex((int)i)->lock();
        else
            m->vertex((int)i)->unlock();
        want[i] = l;
    }
    if (rng.chance(0.1))  // all
        for (size_t i = 0; i < want.size(); i++) {
            m->vertex((int)i)->lock();
            want[i] = true;
        }
    auto check = [&](const char *when) {
        sameLocks(*m, want, when);
        for (size_t i = 0; i < m->numHalfedges(); i++) {
            const Halfedge *h = m->halfedge((int)i);
            VH_CHECK(h->isLocked() == (want[(size_t)h->src()->index()] && want[(size_t)h->dst()->index()]), "lock:edge", "edge lock is not the locks of both ends");
        }
        for (size_t i = 0; i < m->numFaces(); i++) {
            const Face *f = m->face((int)i);
            bool any = false;
            const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
            do {
                any |= (bool)want[(size_t)h->src()->index()];
                h = h->next();
            } while (h != h0);
            VH_CHECK(f->isLocked() == any, "lock:face", "face lock is not that of any corner");
        }
    };
    check("lock:vertex");
    ctx.eval();
    std::vector<bool> rim(m->numVertices(), false);
    {
        Ref r(toSoup(*m));
        rim = r.rim;
    }
    const Snap s0 = snap(*m);
    const bool closed = topo.loops.empty();
    const int op = (int)rng.below(closed ? 6 : 3);
    ctx.stage("filter");
    const char *names[] = {"laplacian", "laplacian-cot", "taubin", "gaussian", "bilateral", "fairing"};
    switch (op) {
    case 0: tinymesh::smoothLaplacian(*m, rng.uni(0, 1), false, rng.range(1, 5)); break;
    case 1: tinymesh::smoothLaplacian(*m, rng.uni(0, 0.3), true, 1); break;
    case 2: tinymesh::smoothTaubin(*m, rng.uni(0, 1), rng.uni(0, 1), rng.range(1, 5)); break;
    case 3: tinymesh::denoiseNormalGaussian(*m, rng.uni(0.2, 2), rng.range(1, 3)); break;
    case 4: tinymesh::denoiseNormalBilateral(*m, rng.uni(0.2, 2), rng.uni(0.1, 1), rng.range(1, 3)); break;
    default: tinymesh::implicitFairing(*m, rng.uni(0, 1), 1); break;
    }
    const Snap s1 = snap(*m);
    check("lock:after-filter");
    VH_CHECK(sameConnectivity(s0, s1), "filter:connectivity", "%s changed connectivity", names[op]);
    long moved = 0, fixed = 0;
    for (size_t i = 0; i < want.size(); i++) {
        const bool still = s0.pos[i] == s1.pos[i];
        if (op < 3 && (want[i] || rim[i])) {
            VH_CHECK(still, "filter:moved", "%s moved a %s vertex by %g", names[op], want[i] ? "locked" : "boundary", len(s0.pos[i] - s1.pos[i]));
            fixed++;
            ctx.count(want[i] ? "locked_kept" : "rim_kept");
        }
        moved += !still;
    }
    if (moved) ctx.count("moving_runs");
    ctx.count(std::string("op_") + names[op]);
    ctx.eval();
    uint64_t h = s.hash();
    for (bool b : want) h = mix(h, b);
    ctx.nontrivial(h);
    if (id < 40) ctx.sample(fmt("%s, %zu vertices: %s kept %ld, moved %ld", s.tag.c_str(), want.size(), names[op], fixed, moved));
    // an edit keeps the locks of the vertices it keeps
    std::map<const Vertex *, bool> byId;
    for (size_t i = 0; i < want.size(); i++) byId[m->vertex((int)i)] = want[i];
    ctx.stage("edit");
    for (int k = 0; k < 10; k++) {
        Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
        switch (rng.below(3)) {
        case 0: m->flipHE(he); break;
        case 1: m->splitHE(he); break;
        default: m->collapseHE(he); break;
        }
        std::map<const Vertex *, bool> now;
        for (size_t i = 0; i < m->numVertices(); i++) {
            const Vertex *v = m->vertex((int)i);
            auto it = byId.find(v);
            if (it != byId.end()) VH_CHECK(v->isLocked() == it->second, "lock:edit", "an edit changed the lock of a kept vertex");
            now[v] = v->isLocked();
        }
        byId.swap(now);
    }
    ctx.eval();
}
void vh::finish(Ctx &) {}
