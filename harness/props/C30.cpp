// C30: isotropic remeshing.
#include <random>

#include "editmon.h"
#include "ref.h"
#include "remesh/remesh.h"
using namespace vh;

// the order in which edges are visited is drawn from this
static uint64_t g_order = 1;
unsigned int std::random_device::_M_getval() { return (unsigned int)(g_order = mix(g_order)); }

struct Watch {
    Ctx &ctx;
    double avg, lo, hi;
    uint64_t splits = 0, collapses = 0, flips = 0;
    const double eps = 1e-9;

    static double elen(const Halfedge *h) { return len(toP(h->src()->pos()) - toP(h->dst()->pos())); }
    static bool lockedFace(const Halfedge *h) {
        const Halfedge *x = h;
        do {
            if (x->src()->isLocked()) return true;
            x = x->next();
        } while (x != h);
        return false;
    }
    static std::vector<const Vertex *> ring(const Vertex *v, bool *rim = nullptr) {
        std::vector<const Vertex *> r;
        const Halfedge *h0 = v->he_begin().ptr(), *h = h0;
        do {
            r.push_back(h->dst());
            if (rim && (h->face()->isHole() || h->rev()->face()->isHole())) *rim = true;
            h = h->rev()->next();
        } while (h != h0);
        return r;
    }
    void split(Halfedge *h) {
        VH_CHECK(elen(h) >= avg * hi * (1 - eps), "split-short", "an edge of length %g is split although the limit is %g", elen(h), avg * hi);
        splits++;
    }
    void collapse(Halfedge *h) {
        const double l = elen(h);
        VH_CHECK(l <= avg * lo * (1 + eps), "collapse-long", "an edge of length %g is collapsed although the limit is %g", l, avg * lo);
        VH_CHECK(!lockedFace(h) && !lockedFace(h->rev()), "collapse-locked", "an edge next to a locked vertex is collapsed");
        for (const Vertex *n : ring(h->dst()))
            VH_CHECK(len(toP(h->src()->pos()) - toP(n->pos())) < avg * hi * (1 + eps), "collapse-makes-long", "collapsing makes an edge of length %g, the limit is %g", len(toP(h->src()->pos()) - toP(n->pos())), avg * hi);
        collapses++;
    }
    void flip(Halfedge *h) {
        VH_CHECK(!h->face()->isHole() && !h->rev()->face()->isHole(), "flip-rim", "a boundary edge is flipped");
        VH_CHECK(!lockedFace(h) && !lockedFace(h->rev()), "flip-locked", "an edge next to a locked vertex is flipped");
        const Vertex *v[4] = {h->src(), h->dst(), h->next()->dst(), h->rev()->next()->dst()};
        int before = 0, after = 0;
        for (int k = 0; k < 4; k++) {
            bool rim = false;
            const int d = (int)ring(v[k], &rim).size(), t = rim ? 4 : 6;
            before += std::abs(d - t);
            after += std::abs(d + (k < 2 ? -1 : 1) - t);
        }
        VH_CHECK(after < before, "flip-useless", "a flip changes the valence error from %d to %d", before, after);
        flips++;
    }
};

static double within(const Mesh &m, double lo, double hi) {
    size_t n = 0, k = 0;
    for (size_t i = 0; i < m.numHalfedges(); i++) {
        const double l = Watch::elen(m.halfedge((int)i));
        n++;
        k += l > lo && l < hi;
    }
    return (double)k / (double)n;
}

// total valence error, and whether some flip allowed by the locks lowers it
static long valenceError(const Mesh &m, bool *improvable) {
    long e = 0;
    for (size_t i = 0; i < m.numVertices(); i++) {
        bool rim = false;
        const long d = (long)Watch::ring(m.vertex((int)i), &rim).size();
        e += std::labs(d - (rim ? 4 : 6));
    }
    *improvable = false;
    for (size_t i = 0; i < m.numHalfedges(); i++) {
        const Halfedge *h = m.halfedge((int)i);
        // triangles at the rim are left alone
        if (h->face()->isBoundary() || h->rev()->face()->isBoundary() || Watch::lockedFace(h) || Watch::lockedFace(h->rev())) continue;
        const Vertex *v[4] = {h->src(), h->dst(), h->next()->dst(), h->rev()->next()->dst()};
        int before = 0, after = 0;
        bool ok = !adjacent(v[2], v[3]);
        for (int k = 0; k < 4; k++) {
            bool rim = false;
            const int d = (int)Watch::ring(v[k], &rim).size(), t = rim ? 4 : 6;
            before += std::abs(d - t);
            after += std::abs(d + (k < 2 ? -1 : 1) - t);
            if (k < 2 && d <= 5) ok = false;
        }
        if (ok && after < before) *improvable = true;
    }
    return e;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s;
    const int kind = (int)(id % 4);  // 2: evening out; others: anything
    if (kind == 2) {
        switch (rng.range(0, 2)) {
        case 0:
            s = icosphere(rng.range(2, 3));
            break;
        case 1:
            s = torus(rng.range(16, 30), rng.range(8, 14));
            break;
        default:
            s = randomSphere(rng.range(150, 400), rng);
        }
        jitter(s, rng.uni(0.05, 0.3) * meanEdge(s), rng);
        shuffleSoup(s, rng);
        if (!distinctPositions(s)) throw Skip();
    } else {
        s = rng.chance(0.5) ? goodSurface(rng, rng.chance(0.3) ? 150 : 60, 0.02) : okSurface(rng, 60);
    }
    auto m = build(s);
    if (kind != 2 && rng.chance(0.3)) lockSome(*m, rng, 0.1);
    double lo = 0.8, hi = 1.333, keep = 0;
    int its = kind == 2 ? 5 : rng.range(0, 4);
    if (kind != 2) {
        if (rng.chance(0.6)) {
            lo = rng.chance(0.25) ? 0 : rng.uni(0.1, 1.2);
            hi = rng.chance(0.25) ? 1e6 : std::max(0.7, lo + rng.uni(0.1, 1));
        }
        if (rng.chance(0.5)) keep = rng.uni(0.3, 3.1);
        if (kind == 3 && rng.chance(0.5)) lo = 0, hi = 1e6, keep = 0;
    }
    const State before = state(*m);
    const TopoClass t0 = topoClass(*m, "start");
    const Soup t = toSoup(*m);
    Ref r(t);
    LD sum = 0;
    size_t longEdges = 0;
    for (auto &e : r.opp) sum += len(r.p(e.first.first) - r.p(e.first.second));
    const double avg = (double)(sum / (LD)r.opp.size());
    for (auto &e : r.opp)
        if (e.second.size() == 2 && len(r.p(e.first.first) - r.p(e.first.second)) > avg * hi * (1 + 1e-9)) longEdges++;
    // feature vertices by their sharpest edge
    std::vector<int> sharp(t.V.size(), 0);  // 1 yes, 2 undecided
    for (uint32_t v = 0; v < t.V.size(); v++) {
        LD least = 4;
        bool weak = false;
        for (uint32_t j : r.nb[v]) {
            auto &o = r.opp.at(Ref::E(v, j));
            if (o.size() != 2) continue;
            for (uint32_t k : o) {
                LP x = r.p(j) - r.p(v), y = r.p(k) - r.p(v);
                if (len(cross(x, y)) < 1e-6L * len(x) * len(y)) weak = true;
            }
            least = std::min(least, r.dihedralAt(Ref::E(v, j)));
        }
        sharp[v] = weak || fabsl(least - keep) < 1e-6L ? 2 : least < keep;
        if (r.rim[v] && !sharp[v]) sharp[v] = 2;  // there is no telling what lies across the gap
    }
    std::vector<const Vertex *> name;
    for (size_t i = 0; i < m->numVertices(); i++) name.push_back(m->vertex((int)i));

    bool improvable = false, dummy = false;
    const long err0 = valenceError(*m, &improvable);
    size_t shortEdges = 0;
    for (auto &e : r.opp) shortEdges += len(r.p(e.first.first) - r.p(e.first.second)) < 0.5 * avg * lo;

    g_order = rng.next();
    HookScope scope;
    Watch w{ctx, avg, lo, hi};
    hooks().preSplit = [&](Mesh &, Halfedge *h) { w.split(h); };
    hooks().preCollapse = [&](Mesh &, Halfedge *h) { w.collapse(h); };
    hooks().preFlip = [&](Mesh &, Halfedge *h) { w.flip(h); };
    const double in0 = within(*m, avg * lo, avg * hi);
    ctx.stage("remesh");
    tinymesh::remeshTriangular(*m, lo, hi, keep, its, rng.chance(0.2));
    hooks() = EditHooks();
    ctx.stage("judge");
    validate(*m, "remesh");
    sameTopo(t0, topoClass(*m, "remesh"), "topology");
    const State after = state(*m);
    for (auto &p : after.pos) VH_CHECK(finite(p.second), "finite", "a position is not finite");
    for (uint32_t v = 0; v < t.V.size(); v++) {
        const bool was = before.locked.count(name[v]) > 0;
        if (was || sharp[v] == 1) {
            VH_CHECK(after.pos.count(name[v]), "feature-lost", "locked or feature vertex %u is gone", v);
            VH_CHECK(after.pos.at(name[v]) == before.pos.at(name[v]), "feature-moved", "locked or feature vertex %u moved", v);
            VH_CHECK(after.locked.count(name[v]), "lock", "locked or feature vertex %u is not locked afterwards", v);
            ctx.count("kept_vertices");
        } else if (sharp[v] == 0) {
            VH_CHECK(!after.locked.count(name[v]), "lock", "vertex %u is locked without being a feature", v);
        }
        if (r.rim[v] && after.pos.count(name[v])) {
            VH_CHECK(after.pos.at(name[v]) == before.pos.at(name[v]), "rim-moved", "boundary vertex %u moved", v);
            ctx.count("rim_vertices");
        }
    }
    if (its == 0) {
        State b = before, a = after;
        a.locked = b.locked = {};
        sameState(b, a, "zero-iterations", "no iteration");
        ctx.count("no_iteration");
    }
    size_t fresh = 0, lost = 0;
    for (auto &p : after.pos) fresh += !before.pos.count(p.first);
    for (auto &p : before.pos) lost += !after.pos.count(p.first);
    if (lo == 0) {
        VH_CHECK(lost <= w.collapses, "lost", "%zu vertices are gone although nothing is short", lost);
        if (its > 0) {
            VH_CHECK(fresh + w.collapses >= longEdges, "not-split", "%zu edges were long, but only %zu vertices are new", longEdges, fresh);
            if (longEdges) ctx.count("only_splits");
        }
    }
    if (hi > 1e5) {
        VH_CHECK(fresh == 0, "fresh", "%zu vertices are new although nothing is long", fresh);
        ctx.count("only_collapses");
    }
    if (lo == 0 && hi > 1e5 && w.collapses == 0) {
        const long err1 = valenceError(*m, &dummy);
        VH_CHECK(err1 <= err0, "valence", "flips raised the total valence error from %ld to %ld", err0, err1);
        if (improvable && its > 0 && keep == 0) {
            VH_CHECK(err1 < err0, "not-flipped", "no flip happened (%lu attempts) although one lowers the valence error %ld (%s)", (unsigned long)w.flips, err0, s.tag.c_str());
            ctx.count("only_flips");
        }
    }
    if (kind == 2) {
        if (shortEdges > 10) {
            VH_CHECK(lost > 0, "not-collapsed", "%s: %zu edges were short, but no vertex is gone", s.tag.c_str(), shortEdges);
            ctx.count("with_short_edges");
        }
        const double in1 = within(*m, avg * lo, avg * hi);
        if (getenv("VERIF_DEBUG")) fprintf(stderr, "%s within %.3f -> %.3f\n", s.tag.c_str(), in0, in1);
        if (s.tag.find("icosphere") == 0) VH_CHECK(in1 >= in0 - 0.02, "even", "%s: fraction of edges within the limits dropped from %.3f to %.3f", s.tag.c_str(), in0, in1);
        ctx.count("evened");
    }
    ctx.count("splits", w.splits);
    ctx.count("collapse_attempts", w.collapses);
    ctx.count("flip_attempts", w.flips);
    ctx.eval();
    if (its) ctx.nontrivial(mix(s.hash(), g_order));
    if (id < 40) ctx.sample(fmt("%s: limits %.2f..%.2f, keep %.2f, %d iterations: %zu to %zu vertices", s.tag.c_str(), lo, hi, keep, its, before.pos.size(), after.pos.size()));
}
void vh::finish(Ctx &) {}
