// C14: Voronoi areas, Gaussian and mean curvature.
#include "edit.h"
#include "ref.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    double k = rng.chance(0.4) ? std::pow(10.0, rng.uni(-4, 4)) : 1;
    if (id % 10 == 0) {  // round spheres: 1/r
        Soup s = icosphere(id % 20 ? 4 : 3);
        const double rad = rng.uni(0.1, 10) * k;
        scale(s, rad);
        apply(s, randomRigid(rng, rad));
        const bool inward = rng.chance(0.5);
        if (inward)
            for (auto &f : s.F) std::swap(f[1], f[2]);
        auto m = build(s);
        const double sign = inward ? -1 : 1;
        for (size_t i = 0; i < m->numVertices(); i++) {
            const double H = m->vertex((int)i)->H(), K = m->vertex((int)i)->K();
            VH_CHECK(std::fabs(H * rad - sign) < 0.03, "sphere:mean", "mean curvature of a sphere of radius %g (%s) is %g", rad, inward ? "inward" : "outward", H);
            VH_CHECK(std::fabs(K * rad * rad - 1) < 0.06, "sphere:gauss", "Gaussian curvature of a sphere of radius %g is %g", rad, K);
        }
        ctx.eval(m->numVertices());
        ctx.count(inward ? "spheres_inward" : "spheres_outward");
        ctx.nontrivial(s.hash());
        return;
    }
    Soup s = goodClosed(rng, 60, rng.chance(0.3) ? 2e-3 : 0.03);
    scale(s, k);
    auto m = build(s);
    if (rng.chance(0.3)) {
        for (int i = 0; i < 10; i++) {
            Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
            rng.chance(0.5) ? m->flipHE(he) : m->splitHE(he);
        }
        if (minQuality(toSoup(*m)) < 2e-3) throw Skip();
    }
    Ref r(toSoup(*m));
    const double q = minQuality(r.s);
    LD total = 0, surf = 0, gb = 0;
    long obt = 0;
    std::vector<bool> ok(r.s.V.size(), false);  // the normal is well defined
    ctx.stage("vertices");
    for (uint32_t v = 0; v < r.s.V.size(); v++) {
        const Vertex *x = m->vertex((int)v);
        const double A = x->volonoiArea();
        const LD want = r.voronoi(v);
        VH_CHECK(A > 0, "area:positive", "Voronoi area %g", A);
        VH_CHECK(fabsl(A - want) <= 1e-7L * want, "area", "Voronoi area %.12g, expected %.12Lg", A, want);
        total += A;
        double shares = 0;
        for (auto it = x->f_begin(); it != x->f_end(); ++it) shares += x->volonoiArea(it.ptr());
        VH_CHECK(fabsl(shares - want) <= 1e-7L * want, "area:shares", "per-face shares sum to %.12g, area is %.12Lg", shares, want);
        const LD defect = r.defect(v);
        const double K = x->K();
        VH_CHECK(fabsl(K * want - defect) <= 1e-7L + 1e-7L * fabsl(defect), "gauss", "Gaussian curvature times area %.12Lg, angle defect %.12Lg", K * want, defect);
        gb += (LD)K * A;
        LP n = r.vertexNormal(v);
        LD mag = 0;
        for (size_t f : r.fs[v]) {
            auto o = r.others(f, v);
            LP a = r.p(o.first) - r.p(v), b = r.p(o.second) - r.p(v);
            mag += len(cross(a, b)) / (dot(a, a) * dot(b, b));
        }
        if (len(n) > 1e-2L * mag) {
            ok[v] = true;
            n = n * (1 / len(n));
            LP l = r.cotLaplace(v);
            const LD H = -dot(l, n) / (4 * want);
            LD sc = 0;
            for (uint32_t j : r.nb[v]) sc += fabsl(r.cotW(v, j)) * len(r.p(j) - r.p(v));
            sc /= want;
            VH_CHECK(fabsl(x->H() - H) <= 1e-7L * sc / q, "mean", "mean curvature %.12g, expected %.12Lg", x->H(), H);
            ctx.count("mean_curvatures");
        }
        for (size_t f : r.fs[v]) {
            auto o = r.others(f, v);
            if (r.angleAt(v, o.first, o.second) > M_PIl / 2) obt++;
        }
    }
    for (size_t f = 0; f < r.s.F.size(); f++) surf += r.area(f);
    VH_CHECK(fabsl(total - surf) <= 1e-6L * surf, "area:sum", "Voronoi areas sum to %.12Lg, surface area %.12Lg", total, surf);
    const Topo t = analyse(r.s);
    const LD want = 2 * M_PIl * (LD)t.euler();
    VH_CHECK(fabsl(gb - want) <= 1e-5L * (LD)r.s.V.size(), "gauss-bonnet", "total curvature %.9Lg, expected %.9Lg (Euler %ld)", gb, want, t.euler());
    ctx.count(fmt("euler_%ld", t.euler()));
    if (obt) ctx.count("obtuse_corners", (uint64_t)obt);
    // reversed orientation negates mean curvature
    {
        Soup b = r.s;
        for (auto &f : b.F) std::swap(f[1], f[2]);
        auto mb = build(b);
        std::set<P> good;
        double big = 0;
        for (uint32_t v = 0; v < r.s.V.size(); v++)
            if (ok[v]) {
                good.insert(r.s.V[v]);
                big = std::max(big, std::fabs(m->vertex((int)v)->H()));
            }
        std::map<P, double> H;
        for (size_t i = 0; i < mb->numVertices(); i++)
            if (good.count(toP(mb->vertex((int)i)->pos()))) H[toP(mb->vertex((int)i)->pos())] = mb->vertex((int)i)->H();
        for (uint32_t v = 0; v < r.s.V.size(); v++) {
            if (!ok[v]) continue;
            const double h = m->vertex((int)v)->H();
            VH_CHECK(std::fabs(h + H[r.s.V[v]]) <= 1e-6 * big / q, "mean:reversed", "mean curvature %.9g becomes %.9g when orientation is reversed", h, H[r.s.V[v]]);
        }
    }
    ctx.eval(r.s.V.size());
    ctx.nontrivial(s.hash());
    if (id < 40) ctx.sample(fmt("%s: %zu vertices, %ld obtuse corners, Euler %ld", s.tag.c_str(), r.s.V.size(), obt, t.euler()));
}
void vh::finish(Ctx &) {}
