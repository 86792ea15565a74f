// C11: context-coherent completion.
#include <omp.h>

#include "edit.h"
#include "ref.h"
#include "restore/restore.h"
using namespace vh;

// How far the new vertices of a completed unit sphere are from it.
static double offSphere(const Soup &s, int its, size_t &added) {
    std::set<std::array<double, 3>> given;
    for (auto &p : s.V) given.insert({p.x, p.y, p.z});
    auto m = build(s);
    tinymesh::holeFillContextCoherent(*m, its);
    double sum = 0;
    added = 0;
    for (size_t i = 0; i < m->numVertices(); i++) {
        const P p = toP(m->vertex((int)i)->pos());
        VH_CHECK(finite(p), "finite", "a position is not finite");
        if (given.count({p.x, p.y, p.z})) continue;
        sum += std::abs(len(p) - 1);
        added++;
    }
    return added ? sum / (double)added : 0;
}
// The context of a hole in a sphere is the sphere: each round takes the fill nearer to it.
static void sphere(Ctx &ctx, Rng &rng) {
    Soup s = icosphere(3);
    Rigid rb = randomRigid(rng, 0);
    apply(s, rb);
    if (!cutHole(s, rng, meanEdge(s) * rng.uni(0.8, 1.35), s.V[rng.below(s.V.size())])) throw Skip();
    shuffleSoup(s, rng);
    ctx.stage("sphere");
    size_t n0, n1, n2;
    const double d0 = offSphere(s, 0, n0);
    if (!n0 || n0 > 4) throw Skip();
    const double d1 = offSphere(s, 2, n1), d2 = ctx.thorough ? offSphere(s, 5, n2) : 0;
    if (!ctx.thorough) n2 = n1;
    if (getenv("VERIF_DEBUG")) printf("sphere %zu %zu %zu new, %g %g %g\n", n0, n1, n2, d0, d1, d2);
    VH_CHECK(n1 == n0 && n2 == n0, "sphere-vertices", "%zu new vertices, but %zu and %zu after further rounds", n0, n1, n2);
    VH_CHECK(d1 < d0 * 0.995 && d2 < d1 * 0.995, "context", "the fill of a sphere is off by %g, after two rounds by %g (after five by %g)", d0, d1, d2);
    ctx.count("spheres");
    ctx.eval();
    ctx.nontrivial(mix(s.hash(), 77));
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    if (id % 4 == 1) return sphere(ctx, rng);
    ctx.stage("generate");
    Soup s;
    switch (rng.below(4)) {
    case 0: s = torus(rng.range(20, 24), rng.range(16, 18)); break;
    case 1: s = icosphere(3); break;
    case 2: s = cube(8); break;
    default: s = torus(rng.range(26, 30), rng.range(12, 14)); break;
    }
    jitter(s, meanEdge(s) * rng.uni(0, 0.08), rng);
    double e = meanEdge(s);
    std::vector<P> centres;
    const int holes = rng.range(1, 3);
    double rad = 0;
    for (int i = 0; i < holes; i++) {
        const P c = s.V[rng.below(s.V.size())];
        const double r = e * rng.uni(0.3, 2.2);
        if (!cutHole(s, rng, r, c)) continue;
        centres.push_back(c);
        rad = std::max(rad, r + 2 * e);
    }
    if (centres.empty() || s.V.size() < 310) throw Skip();
    const Rigid rb = randomRigid(rng, 2);
    apply(s, rb);
    for (auto &c : centres) c = rb(c);
    if (rng.chance(0.5)) {
        const double scale = std::pow(10.0, rng.uni(-4, 3));
        for (auto &p : s.V) p = p * scale;
        for (auto &c : centres) c = c * scale;
        rad *= scale;
        e *= scale;
        ctx.count("scaled");
    }
    shuffleSoup(s, rng);
    auto m = build(s);
    const int its = rng.chance(0.1) ? rng.range(8, ctx.thorough ? 40 : 15) : rng.range(0, 4);
    const State before = state(*m);
    for (auto &l : before.holes)
        for (size_t i = 0; i < l.size(); i++)
            for (size_t j = i + 2; j < l.size(); j++)
                if (!(i == 0 && j == l.size() - 1) && adjacent(l[i], l[j])) throw Skip();
    const TopoClass t0 = topoClass(*m, "input");
    ctx.stage("complete");
    tinymesh::holeFillContextCoherent(*m, its);
    const State after = state(*m);
    VH_CHECK(after.holes.empty(), "holes", "%zu holes remain after completion", after.holes.size());
    ValidateOpts o;
    o.simple = false;
    validate(*m, "structure", o);
    const Snap sn = snap(*m);
    VH_CHECK(sn.euler == t0.euler + (long)t0.loops, "topology", "Euler characteristic %ld -> %ld with %zu holes", t0.euler, sn.euler, t0.loops);
    size_t keptFar = 0, far = 0, moved = 0, gone = 0;
    for (auto &kv : before.pos) {
        double d = 1e30;
        for (auto &c : centres) d = std::min(d, len(kv.second - c));
        auto it = after.pos.find(kv.first);
        if (it == after.pos.end())
            gone++;
        else if (!(it->second == kv.second))
            moved++;
        if (d > rad + 4 * e) {
            far++;
            keptFar += it != after.pos.end() && it->second == kv.second;
        }
    }
    if (getenv("VERIF_DEBUG"))
        printf("%s its %d holes %zu new %ld gone %zu moved %zu far %zu keptFar %zu\n", s.tag.c_str(), its, t0.loops, (long)after.pos.size() - (long)before.pos.size(), gone, moved, far, keptFar);
    VH_CHECK(far == keptFar, "far", "%zu of %zu given vertices far from the holes moved or vanished", far - keptFar, far);
    VH_CHECK(moved == 0, "moved", "%zu given vertices moved", moved);
    for (auto &t : before.tris) {
        double d = 1e30;
        for (auto v : t)
            for (auto &c : centres) d = std::min(d, len(before.pos.at(v) - c));
        if (d > rad + 4 * e) VH_CHECK(after.tris.count(t), "triangles", "a given triangle far from the holes is gone");
    }
    ctx.count(its ? "iterated" : "initial");
    if (its && after.pos.size() > before.pos.size()) ctx.count("with_targets");
    ctx.eval();
    ctx.nontrivial(mix(s.hash(), (uint64_t)its));
    if (id < 40) ctx.sample(fmt("%s: %zu holes, %d iterations", s.tag.c_str(), t0.loops, its));
}
void vh::finish(Ctx &) {}
