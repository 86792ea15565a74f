// C19: axis-aligned boxes.
#include "vh.h"
#include "core/bounds.h"
using namespace vh;

template <class F, int D>
static void one(Ctx &ctx, Rng &rng) {
    typedef Vec<F, D> V;
    typedef tinymesh::Bounds<F, D> B;
    const double k = rng.chance(0.3) ? std::pow(10.0, rng.uni(-5, 5)) : 1;
    const int n = rng.chance(0.2) ? 1 : rng.range(2, 9);
    const int lattice = rng.chance(0.4);
    std::vector<std::array<F, D>> pts;
    for (int i = 0; i < n; i++) {
        std::array<F, D> p;
        for (auto &x : p) x = lattice ? F(rng.range(-2, 2)) : F(rng.uni(-1, 1) * k);
        pts.push_back(p);
    }
    F lo[D], hi[D];
    for (int d = 0; d < D; d++) {
        lo[d] = hi[d] = pts[0][(size_t)d];
        for (auto &p : pts) {
            lo[d] = std::min(lo[d], p[(size_t)d]);
            hi[d] = std::max(hi[d], p[(size_t)d]);
        }
    }
    auto vec = [](const std::array<F, D> &p) {
        V v;
        for (int d = 0; d < D; d++) v[d] = p[(size_t)d];
        return v;
    };
    auto isBox = [&](const B &b, const char *key) {
        for (int d = 0; d < D; d++)
            VH_CHECK(b.posMin()[d] == lo[d] && b.posMax()[d] == hi[d], key, "%s: axis %d of %d is [%g, %g], expected [%g, %g]", key, d, D,
                     (double)b.posMin()[d], (double)b.posMax()[d], (double)lo[d], (double)hi[d]);
    };
    B b;
    for (auto &p : pts) b.merge(vec(p));
    isBox(b, "merge-points");
    rng.shuffle(pts);
    B c;
    for (auto &p : pts) c.merge(vec(p));
    isBox(c, "merge-order");
    // by boxes: random binary tree
    std::vector<B> bs;
    for (auto &p : pts) {
        if (rng.chance(0.5)) {
            B q;
            q.merge(vec(p));
            bs.push_back(q);
        } else {
            bs.push_back(B(vec(p), vec(p)));
        }
    }
    if (rng.chance(0.3)) bs.push_back(B());
    while (bs.size() > 1) {
        size_t i = rng.below(bs.size() - 1);
        B m = rng.chance(0.5) ? B::merge(bs[i], bs[i + 1]) : B::merge(bs[i + 1], bs[i]);
        bs[i] = m;
        bs.erase(bs.begin() + (long)i + 1);
    }
    isBox(bs[0], "merge-boxes");
    isBox(B::merge(b, b), "merge-idempotent");
    isBox(B::merge(b, B()), "merge-empty");
    isBox(B::merge(B(), b), "merge-empty");
    V vlo, vhi;
    for (int d = 0; d < D; d++) {
        vlo[d] = lo[d];
        vhi[d] = hi[d];
    }
    isBox(B(vlo, vhi), "from-corners");
    // measures
    double ext[D], emax = 0;
    for (int d = 0; d < D; d++) {
        ext[d] = (double)hi[d] - (double)lo[d];
        emax = std::max(emax, ext[d]);
    }
    const int ax = b.maxExtent();
    VH_CHECK(ax >= 0 && ax < D && ext[ax] >= emax * (1 - 1e-6), "longest-axis", "axis %d reported longest with %g of %g", ax, ext[ax], emax);
    if constexpr (D == 3) {
        const double want = 2 * (ext[0] * ext[1] + ext[1] * ext[2] + ext[2] * ext[0]);
        VH_CHECK(std::fabs(b.area() - want) <= 1e-5 * want * (sizeof(F) == 4 ? 1 : 1e-7) + 1e-300, "area", "area %g, expected %g", b.area(), want);
    }
    for (int q = 0; q < 10; q++) {
        std::array<F, D> p;
        for (int d = 0; d < D; d++) {
            switch (rng.below(6)) {
            case 0: p[(size_t)d] = lo[d]; break;
            case 1: p[(size_t)d] = hi[d]; break;
            case 2: p[(size_t)d] = lo[d] - F(rng.uni(0, 1) * k); break;
            case 3: p[(size_t)d] = hi[d] + F(rng.uni(0, 1) * k); break;
            default: p[(size_t)d] = F(lo[d] + (hi[d] - lo[d]) * rng.uni());
            }
        }
        if (rng.chance(0.1)) {  // just outside one side
            int d = (int)rng.below(D);
            p[(size_t)d] = rng.chance(0.5) ? std::nextafter(hi[d], F(INFINITY)) : std::nextafter(lo[d], F(-INFINITY));
        }
        bool in = true;
        double d2 = 0;
        int outs = 0;
        for (int d = 0; d < D; d++) {
            const double x = p[(size_t)d];
            in &= lo[d] <= p[(size_t)d] && p[(size_t)d] <= hi[d];
            const double g = x < lo[d] ? lo[d] - x : x > hi[d] ? x - hi[d] : 0;
            d2 += g * g;
            outs += g > 0;
        }
        VH_CHECK(b.inside(vec(p)) == in, "inside", "inside() = %d, expected %d (dims %d)", (int)b.inside(vec(p)), (int)in, D);
        const double got = b.distance(vec(p)), want = std::sqrt(d2);
        VH_CHECK(std::fabs(got - want) <= (sizeof(F) == 4 ? 1e-5 : 1e-12) * (want + (sizeof(F) == 4 ? emax + std::fabs((double)lo[0]) : 0)) + 1e-300, "distance",
                 "distance %.12g, expected %.12g (dims %d, outside in %d axes)", got, want, D, outs);
        if (in) VH_CHECK(got == 0.0, "distance", "an inside point is at distance %g", got);
        ctx.count(in ? "inside" : fmt("outside_%d_axes", outs));
        ctx.eval();
    }
    uint64_t h = (uint64_t)D;
    for (auto &p : pts)
        for (auto x : p) h = mix(h, std::hash<F>()(x));
    ctx.nontrivial(h);
}
void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    for (int k = 0; k < 20; k++) {
        one<double, 3>(ctx, rng);
        one<double, 2>(ctx, rng);
        one<float, 3>(ctx, rng);
        one<float, 2>(ctx, rng);
    }
    if (id < 8) ctx.sample("boxes of 1..9 points (double/float, 2/3 dims) merged by points, by permuted points, by random trees of boxes; 10 query points each");
}
void vh::finish(Ctx &) {}
