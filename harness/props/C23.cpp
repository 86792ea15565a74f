// C23: implicit fairing satisfies its linear system.
#include "edit.h"
#include "ref.h"
#include "filters/filters.h"
using namespace vh;

// rows of W with normalised cotangent weights at the given positions; false if ill-conditioned
static bool weights(const Soup &s, std::vector<std::vector<std::pair<uint32_t, LD>>> &W) {
    Ref r(s);
    W.assign(s.V.size(), {});
    for (uint32_t v = 0; v < s.V.size(); v++) {
        LD sum = 0, mag = 0;
        for (uint32_t j : r.nb[v]) {
            LD w = r.cotW(v, j);
            sum += w;
            mag += fabsl(w);
            W[v].push_back({j, w});
        }
        if (sum < 0.5L * mag) return false;
        for (auto &x : W[v]) x.second /= sum;
    }
    return true;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = goodClosed(rng, 80, 0.2);
    if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-4, 4)));
    const double lams[] = {0, 1, 0.1, 3};
    const double lam = rng.chance(0.5) ? lams[rng.below(4)] : rng.uni(0, 3);
    auto m = build(s);
    const Snap s0 = snap(*m);
    std::vector<bool> locks = lockSome(*m, rng, rng.chance(0.7) ? 0 : 0.2);
    Soup cur = toSoup(*m);
    const double ext = extent(cur);
    const int its = rng.chance(0.1) ? 0 : rng.chance(0.1) ? rng.range(4, 12) : rng.range(1, 3);
    if (its == 0) {
        tinymesh::implicitFairing(*m, lam, 0);
        VH_CHECK(snap(*m) == s0, "zero", "zero iterations changed the mesh");
        ctx.eval();
        ctx.count("zero");
        return;
    }
    auto whole = build(s);
    for (int it = 0; it < its; it++) {
        std::vector<std::vector<std::pair<uint32_t, LD>>> W;
        if (minQuality(cur) < 0.1 || !weights(cur, W)) throw Skip();
        ctx.stage("fairing");
        const Soup before = cur;
        tinymesh::implicitFairing(*m, lam, 1);
        const Snap s1 = snap(*m);
        VH_CHECK(sameConnectivity(s0, s1), "connectivity", "fairing changed connectivity");
        cur.V = s1.pos;
        // residual of X' - t (W X' - X') = X, column by column relative to the column's norm
        LD res[3] = {0, 0, 0}, nrm[3] = {0, 0, 0};
        for (uint32_t v = 0; v < cur.V.size(); v++) {
            VH_CHECK(finite(cur.V[v]), "finite", "fairing gives a non-finite position");
            LP x = lp(cur.V[v]), wx{0, 0, 0};
            for (auto &j : W[v]) wx = wx + lp(cur.V[j.first]) * j.second;
            LP e = x - (wx - x) * (LD)lam - lp(before.V[v]);
            const LD ee[3] = {e.x, e.y, e.z}, bb[3] = {before.V[v].x, before.V[v].y, before.V[v].z};
            for (int d = 0; d < 3; d++) {
                res[d] += ee[d] * ee[d];
                nrm[d] += bb[d] * bb[d];
            }
        }
        for (int d = 0; d < 3; d++)
            VH_CHECK(sqrtl(res[d]) <= 2e-5L * sqrtl(nrm[d]) + 1e-12L * ext, "equation", "time step %g: residual %Lg of %Lg in coordinate %d", lam, sqrtl(res[d]), sqrtl(nrm[d]), d);
        if (lam == 0) {
            VH_CHECK(maxDiff(before.V, cur.V) <= 1e-5 * ext, "identity", "zero time step moved vertices by %g", maxDiff(before.V, cur.V));
            ctx.count("identity");
        } else if (maxDiff(before.V, cur.V) > 1e-3 * ext) {
            ctx.count("moving");
        }
        ctx.eval();
    }
    sameLocks(*m, locks, "locks");
    ctx.stage("whole");
    tinymesh::implicitFairing(*whole, lam, its);
    VH_CHECK(maxDiff(positions(*whole), cur.V) <= 1e-3 * ext, "iterations", "%d iterations differ from %d calls by %g", its, its, maxDiff(positions(*whole), cur.V));
    if (its > 3) ctx.count("many_rounds");
    // translation
    ctx.stage("translate");
    Soup t = s;
    const P off = randUnit(rng) * (ext * rng.uni(0.1, 2));
    for (auto &p : t.V) p += off;
    auto mt = build(t);
    tinymesh::implicitFairing(*mt, lam, its);
    std::vector<P> back = positions(*mt);
    for (auto &p : back) p = p - off;
    VH_CHECK(maxDiff(back, positions(*whole)) <= 3e-3 * ext, "translation", "fairing does not commute with translation: off by %g of %g", maxDiff(back, positions(*whole)), ext);
    ctx.nontrivial(mix(s.hash(), (uint64_t)its));
    if (id < 40) ctx.sample(fmt("%s time step %.3g x%d", s.tag.c_str(), lam, its));
}
void vh::finish(Ctx &) {}
