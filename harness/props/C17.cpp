// C17: mesh-to-mesh distances against brute force.
#include "edit.h"
#include "geo.h"
#include "ops/ops.h"
using namespace vh;

static double bruteOneSided(const Soup &a, const Soup &b, std::vector<double> *per) {
    double m = 0;
    for (auto &p : a.V) {
        double d = soupDist(p, b);
        if (per) per->push_back(d);
        m = std::max(m, d);
    }
    return m;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup a = okSurface(rng, 40), b;
    const int rel = (int)rng.below(4);
    if (rel == 0) {
        b = okSurface(rng, 40);
    } else if (rel == 1) {  // perturbed copy
        b = a;
        jitter(b, rng.uni(0, 0.3), rng);
    } else if (rel == 2) {  // one vertex moved
        b = a;
        b.V[rng.below(b.V.size())] += randUnit(rng) * rng.uni(0, 2);
    } else {  // relabelled
        b = a;
        shuffleSoup(b, rng);
    }
    if (rng.chance(0.3)) apply(b, randomRigid(rng, 3));
    double k = rng.chance(0.3) ? std::pow(10.0, rng.uni(-4, 4)) : 1;
    scale(a, k);
    scale(b, k);
    if (!distinctPositions(a) || !distinctPositions(b) || minQuality(a) < 1e-5 || minQuality(b) < 1e-5) throw Skip();
    auto ma = build(a), mb = build(b);
    Soup A = toSoup(*ma), B = toSoup(*mb);
    const double tol = 1e-9 * (extent(A) + extent(B));
    ctx.stage("distances");
    std::vector<double> ab, ba;
    const double da = bruteOneSided(A, B, &ab), db = bruteOneSided(B, A, &ba);
    auto check = [&](Mesh &x, Mesh &y, const std::vector<double> &want) {
        auto got = tinymesh::getPerVertexShortestDistances(x, y);
        VH_CHECK((size_t)got.size() == want.size(), "per-vertex:size", "%ld distances for %zu vertices", (long)got.size(), want.size());
        for (size_t i = 0; i < want.size(); i++)
            VH_CHECK(std::fabs(got((long)i) - want[i]) <= tol, "per-vertex:value", "vertex %zu: %.12g, brute force %.12g", i, got((long)i), want[i]);
    };
    check(*ma, *mb, ab);
    check(*mb, *ma, ba);
    const double h = tinymesh::getHausdorffDistance(*ma, *mb), g = tinymesh::getHausdorffDistance(*mb, *ma);
    VH_CHECK(std::fabs(h - std::max(da, db)) <= tol, "hausdorff", "Hausdorff distance %.12g, brute force max(%.12g, %.12g)", h, da, db);
    VH_CHECK(std::fabs(h - g) <= tol, "symmetry", "Hausdorff distance %.12g one way, %.12g the other", h, g);
    if (da > db * 1.01 + tol) ctx.count("forward_dominates");
    if (db > da * 1.01 + tol) ctx.count("backward_dominates");
    // self distance under relabelling
    Soup c = a;
    shuffleSoup(c, rng);
    auto mc = build(c);
    VH_CHECK(tinymesh::getHausdorffDistance(*ma, *mc) <= tol, "self", "distance of a mesh to its relabelling is not zero");
    ctx.eval();
    ctx.nontrivial(mix(a.hash(), b.hash()));
    if (id < 40) ctx.sample(fmt("%s vs %s: forward %.6g backward %.6g", a.tag.c_str(), b.tag.c_str(), da, db));
}
void vh::finish(Ctx &) {}
