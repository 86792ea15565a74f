// C06: contract of a single split, along histories of splits.
#include "edit.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = okSurface(rng, rng.chance(0.2) ? 120 : 40);
    if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-4, 4)));
    auto m = build(s);
    for (size_t i = 0; i < m->numVertices(); i++)
        if (rng.chance(0.1)) m->vertex((int)i)->lock();
    const TopoClass t0 = topoClass(*m, "start");
    State st = state(*m), nx;
    long done = 0, refused = 0;
    ctx.stage("splits");
    const int steps = rng.range(20, 120);
    for (int k = 0; k < steps; k++) {
        Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
        if (checkedSplit(*m, he, st, nx)) {
            done++;
            if (done % 4 == 1) validate(*m, "connectivity");
        } else {
            refused++;
        }
        std::swap(st, nx);
    }
    ctx.stage("validate");
    validate(*m, "connectivity");
    sameTopo(t0, topoClass(*m, "split:non-manifold"), "split:topology");
    ctx.count("splits", (uint64_t)done);
    ctx.count("refused", (uint64_t)refused);
    ctx.eval((uint64_t)(done + refused));
    if (done) ctx.nontrivial(s.topoHash());
    if (id < 40) ctx.sample(fmt("%s: %ld splits, %ld refused", s.tag.c_str(), done, refused));
}
void vh::finish(Ctx &) {}
