// C21: Laplacian smoothing against an independent evaluation.
#include "edit.h"
#include "ref.h"
#include "filters/filters.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    const bool cot = rng.chance(0.5);
    Soup s = goodSurface(rng, 60, cot ? 0.03 : 1e-3);
    if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-4, 4)));
    auto m = build(s);
    std::vector<bool> locks = lockSome(*m, rng, rng.chance(0.5) ? 0 : rng.uni(0, 0.6));
    const double es[] = {0, 1, 0.5, -0.3, 1.5};
    double eps = rng.chance(0.4) ? es[rng.below(5)] : rng.uni(0, 1);
    int its = rng.chance(0.15) ? 0 : rng.range(1, cot ? 3 : 8);
    const bool many = !cot && rng.chance(0.15);
    if (many) {
        eps = rng.uni(0, 1);
        its = rng.chance(0.8) ? rng.range(9, 40) : rng.range(41, 150);
    }
    const Snap s0 = snap(*m);
    Soup r = toSoup(*m);
    double ext = extent(r);
    ctx.stage("reference");
    for (int i = 0; i < its; i++) {
        if (cot && minQuality(r) < 0.02) throw Skip();
        if (!refLaplaceStep(r, eps, cot, locks)) throw Skip();
        ext = std::max(ext, extent(r));
    }
    const double tol = (cot ? 1e-7 : 1e-11) * ext * (1 + its);
    ctx.stage("smooth");
    std::unique_ptr<Mesh> copy = build(toSoup(*m));
    tinymesh::smoothLaplacian(*m, eps, cot, its);
    const Snap s1 = snap(*m);
    VH_CHECK(sameConnectivity(s0, s1), "connectivity", "smoothing changed connectivity");
    sameLocks(*m, locks, "locks");
    validate(*m, "after");
    double worst = maxDiff(r.V, s1.pos);
    VH_CHECK(worst <= tol, cot ? "cotangent" : "uniform", "%d iterations of strength %g: %g off the weighted averages (extent %g)", its, eps, worst, ext);
    if (eps == 0 || its == 0) {
        VH_CHECK(maxDiff(s0.pos, s1.pos) <= 1e-15 * ext, "identity", "zero strength or iterations moved vertices by %g", maxDiff(s0.pos, s1.pos));
        ctx.count("identity");
    }
    // k iterations are k calls of one
    if (its > 1) {
        ctx.stage("repeat");
        auto a = build(s);
        for (size_t i = 0; i < locks.size(); i++)
            if (locks[i]) a->vertex((int)i)->lock();
        for (int i = 0; i < its; i++) tinymesh::smoothLaplacian(*a, eps, cot, 1);
        VH_CHECK(maxDiff(positions(*a), s1.pos) <= tol, "iterations", "%d iterations differ from %d calls by %g", its, its, maxDiff(positions(*a), s1.pos));
        ctx.count("repeated");
    }
    ctx.eval();
    ctx.count(cot ? "cotangent" : "uniform");
    if (many) ctx.count("many_rounds");
    if (std::count(locks.begin(), locks.end(), true)) ctx.count("with_locks");
    if (!analyse(toSoup(*m)).loops.empty()) ctx.count("open");
    ctx.nontrivial(mix(s.hash(), (uint64_t)its));
    if (id < 40) ctx.sample(fmt("%s strength %.3g %s x%d: off by %.2g of %.2g", s.tag.c_str(), eps, cot ? "cot" : "uniform", its, worst, ext));
}
void vh::finish(Ctx &) {}
