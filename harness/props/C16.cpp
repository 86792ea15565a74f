// C16: hierarchy queries against brute force.
#include "geo.h"
#include "topo.h"
#include "core/bvh.h"
using namespace vh;

static Soup randomSoup(Rng &rng, std::string &kind) {
    Soup s;
    auto tri = [&](const P &c, double r) {
        for (int t = 0; t < 100; t++) {
            P a = randUnit(rng) * r, b = randUnit(rng) * r, d = randUnit(rng) * r;
            if (len(cross(b - a, d - a)) < 1e-2 * r * r) continue;
            uint32_t o = (uint32_t)s.V.size();
            s.V.push_back(c + a);
            s.V.push_back(c + b);
            s.V.push_back(c + d);
            s.F.push_back({o, o + 1, o + 2});
            return;
        }
    };
    int n = rng.chance(0.2) ? rng.range(200, 900) : rng.chance(0.3) ? rng.range(1, 9) : rng.range(10, 80);
    switch (rng.below(8)) {
    case 0: {
        kind = "mesh";
        s = randomSurface(rng, 60);
        compact(s);
        break;
    }
    case 1:
        kind = "cloud";
        for (int i = 0; i < n; i++) tri(P(rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1)), rng.uni(0.01, 0.3));
        break;
    case 2: {
        kind = "coincident";
        tri(P(0.3, 0.2, 0.1), 1);
        for (int i = 1; i < n; i++) s.F.push_back(s.F[0]);
        break;
    }
    case 3:
        kind = "same-centre";
        for (int i = 0; i < n; i++) {
            // equal boxes, hence equal box centres
            uint32_t o = (uint32_t)s.V.size();
            double z = rng.uni(-1, 1);
            s.V.push_back(P(-1, -1, -1));
            s.V.push_back(P(1, 1, 1));
            s.V.push_back(P(z, -z, rng.uni(-0.5, 0.5)));
            if (len(cross(s.V[o + 1] - s.V[o], s.V[o + 2] - s.V[o])) < 1e-2) {
                s.V.resize(o);
                continue;
            }
            s.F.push_back({o, o + 1, o + 2});
        }
        break;
    case 4:
        kind = "line";
        for (int i = 0; i < n; i++) tri(P(i * 0.5, 0, 0), 0.2);
        break;
    case 5:
        kind = "geometric";
        for (int i = 0; i < std::min(n, 60); i++) tri(P(std::pow(1.6, i), 0, std::pow(1.3, i)), std::pow(1.6, i) * 0.1);
        break;
    case 6:
        kind = "plane";  // flat boxes
        for (int i = 0; i < n; i++) {
            size_t o = s.V.size();
            tri(P(rng.uni(-5, 5), rng.uni(-5, 5), 0), 0.4);
            for (size_t k = o; k < s.V.size(); k++) s.V[k].z = 0.25;
            if (s.V.size() > o && len(cross(s.V[o + 1] - s.V[o], s.V[o + 2] - s.V[o])) < 1e-2) {
                s.V.resize(o);
                s.F.pop_back();
            }
        }
        break;
    default:
        kind = "clusters";
        for (int i = 0; i < n; i++) tri(P((double)rng.below(3) * 1000, (double)rng.below(2) * 1000, 0) + randUnit(rng), rng.uni(0.01, 0.2));
    }
    if (s.F.empty()) tri(P(), 1);
    return s;
}

static void query(Ctx &ctx, const tinymesh::BVH &b, const Soup &s, Rng &rng, int n, const char *key) {
    const double ext = extent(s) + 1e-300;
    for (int q = 0; q < n; q++) {
        P p;
        const Tri &f = s.F[rng.below(s.F.size())];
        const double u = rng.uni(), v = rng.uni() * (1 - u);
        const P on = s.V[f[0]] + (s.V[f[1]] - s.V[f[0]]) * u + (s.V[f[2]] - s.V[f[0]]) * v;
        switch (rng.below(5)) {
        case 0: p = on; break;
        case 1: p = s.V[f[rng.below(3)]]; break;
        case 2: p = on + randUnit(rng) * (ext * rng.uni(0, 0.3)); break;
        case 3: p = P(rng.uni(-2, 2), rng.uni(-2, 2), rng.uni(-2, 2)) * ext; break;
        default: p = on + randUnit(rng) * (ext * std::pow(10.0, rng.uni(-4, 2)));
        }
        const double want = soupDist(p, s);
        const P c = toP(b.closestPoint(toV(p)));
        const double d = b.distance(toV(p));
        const double tol = 1e-9 * (ext + len(p));
        VH_CHECK(finite(c), key, "closest point is not finite");
        VH_CHECK(std::fabs(len(c - p) - want) <= tol, key, "closest point at %.12g, brute force %.12g (%zu triangles)", len(c - p), want, s.F.size());
        VH_CHECK(std::fabs(d - want) <= tol, key, "distance %.12g, brute force %.12g (%zu triangles)", d, want, s.F.size());
        VH_CHECK(soupDist(c, s) <= tol, key, "closest point is not on a triangle");
        ctx.eval();
    }
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    std::string kind;
    ctx.stage("generate");
    Soup s = randomSoup(rng, kind);
    if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-5, 5)));
    if (rng.chance(0.3)) apply(s, randomRigid(rng, extent(s) * 3));
    ctx.stage("build");
    const int nq = s.F.size() > 200 ? 12 : 40;
    std::unique_ptr<tinymesh::BVH> b;
    if (kind == "mesh" && analyse(s).manifold && distinctPositions(s) && rng.chance(0.7)) {
        auto m = build(s);
        b.reset(new tinymesh::BVH(*m));
        ctx.count("from_mesh");
        m.reset();
    } else {
        std::vector<Vec3> v = toVs(s.V);
        std::vector<uint32_t> ix = s.flat();
        b.reset(new tinymesh::BVH(v, ix));
        ctx.count("from_buffers");
    }
    ctx.stage("query");
    query(ctx, *b, s, rng, nq, "query");
    if (rng.chance(0.3)) {  // copies survive their original
        ctx.stage("copy");
        tinymesh::BVH c(*b), e;
        e = *b;
        b.reset();
        query(ctx, c, s, rng, 6, "copy");
        query(ctx, e, s, rng, 6, "copy");
        ctx.count("copies");
        b.reset(new tinymesh::BVH(c));
    }
    if (rng.chance(0.4)) {  // rebuilt on the same object
        ctx.stage("rebuild");
        std::string k2;
        Soup t = randomSoup(rng, k2);
        b->construct(toVs(t.V), t.flat());
        query(ctx, *b, t, rng, 10, "rebuild");
        ctx.count("rebuilds");
    }
    ctx.count("kind_" + kind);
    ctx.nontrivial(s.hash());
    if (id < 40) ctx.sample(fmt("%s of %zu triangles", kind.c_str(), s.F.size()));
}
void vh::finish(Ctx &) {}
