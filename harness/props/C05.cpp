// C05: contract of a single flip, along histories of flips.
#include "edit.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = okSurface(rng, rng.chance(0.2) ? 120 : 50);
    auto m = build(s);
    for (size_t i = 0; i < m->numVertices(); i++)
        if (rng.chance(0.1)) m->vertex((int)i)->lock();
    const TopoClass t0 = topoClass(*m, "start");
    State st = state(*m), nx;
    long done = 0, refused = 0;
    ctx.stage("flips");
    // every edge once, from a random side, then a random history
    const size_t nh = m->numHalfedges();
    std::vector<int> order;
    for (size_t i = 0; i < nh; i++) order.push_back((int)i);
    rng.shuffle(order);
    if (order.size() > 240) order.resize(240);
    for (int i : order) {
        Halfedge *he = m->halfedge(i);
        const Quad q = quad(he);
        const bool b = !q.inner;
        if (checkedFlip(*m, he, st, nx)) {
            done++;
            if (done % 4 == 0) validate(*m, "connectivity");
        } else {
            refused++;
            ctx.count(b ? "refused_boundary" : "refused_inner");
        }
        std::swap(st, nx);
    }
    ctx.stage("validate");
    validate(*m, "connectivity");
    sameTopo(t0, topoClass(*m, "flip:non-manifold"), "flip:topology");
    ctx.count("flips", (uint64_t)done);
    ctx.eval((uint64_t)(done + refused));
    if (done) ctx.nontrivial(s.topoHash());
    if (id < 40) ctx.sample(fmt("%s: %ld flips done, %ld refused", s.tag.c_str(), done, refused));
}
void vh::finish(Ctx &) {}
