// C22: Taubin smoothing against an independent evaluation.
#include "edit.h"
#include "ref.h"
#include "filters/filters.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = goodSurface(rng, 60, 1e-4);
    if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-4, 4)));
    auto m = build(s);
    std::vector<bool> locks = lockSome(*m, rng, rng.chance(0.5) ? 0 : rng.uni(0, 0.6));
    const bool def = rng.chance(0.2);
    double a = def ? 0.5 : rng.chance(0.15) ? 0 : rng.uni(0, 1), b = def ? 0.53 : rng.chance(0.15) ? 0 : rng.uni(0, 1);
    int its = def ? 3 : rng.chance(0.1) ? 0 : rng.range(1, 6);
    const bool many = !def && rng.chance(0.15);
    if (many) {  // factors that do not amplify errors
        a = rng.uni(0.1, 0.5), b = rng.uni(0, 1) * a;
        its = rng.chance(0.8) ? rng.range(7, 40) : rng.range(41, 150);
    }
    const Snap s0 = snap(*m);
    Soup r = toSoup(*m);
    const double e0 = extent(r);
    refTaubin(r, a, b, its, locks);
    const double tol = 1e-11 * (extent(r) + e0) * (many ? 1 + its : std::pow(3.0, its));
    ctx.stage("smooth");
    if (def)
        tinymesh::smoothTaubin(*m);
    else
        tinymesh::smoothTaubin(*m, a, b, its);
    const Snap s1 = snap(*m);
    VH_CHECK(sameConnectivity(s0, s1), "connectivity", "smoothing changed connectivity");
    sameLocks(*m, locks, "locks");
    validate(*m, "after");
    const double worst = maxDiff(r.V, s1.pos);
    VH_CHECK(worst <= tol, "steps", "%d iterations of (%g, %g): %g off the stated steps", its, a, b, worst);
    if ((a == 0 && b == 0) || its == 0) {
        VH_CHECK(maxDiff(s0.pos, s1.pos) <= 1e-15 * e0, "identity", "zero factors or iterations moved vertices");
        ctx.count("identity");
    }
    if (its > 1) {
        ctx.stage("repeat");
        auto c = build(s);
        for (size_t i = 0; i < locks.size(); i++)
            if (locks[i]) c->vertex((int)i)->lock();
        for (int i = 0; i < its; i++) tinymesh::smoothTaubin(*c, a, b, 1);
        VH_CHECK(maxDiff(positions(*c), s1.pos) <= tol, "iterations", "%d iterations differ from %d calls", its, its);
        ctx.count("repeated");
    }
    ctx.eval();
    if (def) ctx.count("defaults");
    if (many) ctx.count("many_rounds");
    if (std::count(locks.begin(), locks.end(), true)) ctx.count("with_locks");
    if (!analyse(toSoup(*m)).loops.empty()) ctx.count("open");
    ctx.nontrivial(mix(s.hash(), (uint64_t)its));
    if (id < 40) ctx.sample(fmt("%s (%.3g,%.3g) x%d: off by %.2g", s.tag.c_str(), a, b, its, worst));
}
void vh::finish(Ctx &) {}
