// C15: closest point on a triangle.
#include "geo.h"
#include "topo.h"
#include "core/triangle.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    for (int rep = 0; rep < 40; rep++) {
        P t[3];
        const int shape = (int)rng.below(5);
        for (int tries = 0;; tries++) {
            if (tries > 200) throw Skip();
            for (auto &p : t) p = P(rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1));
            if (shape == 1)
                for (auto &p : t) p = P(rng.range(-3, 3), rng.range(-3, 3), rng.range(-3, 3));
            if (shape == 2) t[2] = t[0] + (t[1] - t[0]) * rng.uni(-1, 2) + randUnit(rng) * 0.02;  // thin
            if (shape == 3) {  // obtuse
                t[1] = t[0] + P(1, 0, 0);
                t[2] = t[0] + P(rng.uni(-3, -0.1), rng.uni(0.05, 0.5), 0);
            }
            if (shape == 4)
                for (auto &p : t) p.z = 0;
            double l = std::max(len(t[0] - t[1]), std::max(len(t[1] - t[2]), len(t[2] - t[0])));
            if (len(cross(t[1] - t[0], t[2] - t[0])) > 1e-3 * l * l && l > 1e-3) break;
        }
        const double k = rng.chance(0.4) ? std::pow(10.0, rng.uni(-5, 5)) : 1.0;
        const P off = rng.chance(0.3) ? P(rng.uni(-9, 9), rng.uni(-9, 9), rng.uni(-9, 9)) : P();
        for (auto &p : t) p = (p + off) * k;
        int rot = (int)rng.below(3);
        std::rotate(t, t + rot, t + 3);
        if (rng.chance(0.5)) std::swap(t[0], t[1]);
        const P n = unit(cross(t[1] - t[0], t[2] - t[0]));
        const double L = len(t[0] - t[1]) + len(t[1] - t[2]) + len(t[2] - t[0]);
        tinymesh::Triangle tri(toV(t[0]), toV(t[1]), toV(t[2]));
        // box
        auto b = tri.bounds();
        for (int d = 0; d < 3; d++) {
            VH_CHECK(b.posMin()[d] == std::min(t[0][d], std::min(t[1][d], t[2][d])), "bounds", "lower corner of the box is not the corners' minimum");
            VH_CHECK(b.posMax()[d] == std::max(t[0][d], std::max(t[1][d], t[2][d])), "bounds", "upper corner of the box is not the corners' maximum");
        }
        for (int q = 0; q < 12; q++) {
            // barycentric coordinates well inside each region, on borders, at corners
            P p;
            const int reg = (int)rng.below(6);
            double u = rng.uni(-2, 3), v = rng.uni(-2, 3);
            if (reg == 0) {  // inside
                u = rng.uni();
                v = rng.uni() * (1 - u);
            } else if (reg == 1) {  // over an edge
                u = rng.uni(-0.2, 1.2);
                v = 0;
                if (rng.chance(0.5)) std::swap(u, v);
            }
            p = t[0] + (t[1] - t[0]) * u + (t[2] - t[0]) * v;
            if (reg == 2) p = t[rng.below(3)];
            if (reg == 3) {
                int i = (int)rng.below(3);
                p = t[i] + (t[i] - t[(i + 1) % 3]) * rng.uni(0, 2) + (t[i] - t[(i + 2) % 3]) * rng.uni(0, 2);  // beyond a corner
            }
            if (rng.chance(0.7)) p += n * (rng.uni(-1, 1) * L);
            if (reg == 5) p = (P(rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1)) * 5 + off) * k;
            const P c = toP(tri.closestPoint(toV(p)));
            const double want = triDist(p, t[0], t[1], t[2]);
            const double scale = L + len(p - t[0]) + len(t[0]) * 1e-3;
            const double tol = 1e-9 * scale;
            VH_CHECK(finite(c), "not-finite", "closest point is not finite");
            VH_CHECK(triDist(c, t[0], t[1], t[2]) <= tol, "off-triangle", "closest point is %g away from the triangle (size %g)",
                     triDist(c, t[0], t[1], t[2]), L);
            VH_CHECK(std::fabs(len(c - p) - want) <= tol, "not-closest", "returned point at distance %.12g, nearest is %.12g (u=%g v=%g)", len(c - p), want, u, v);
            const double d = tri.distance(toV(p));
            VH_CHECK(std::fabs(d - want) <= tol, "distance", "distance %.12g, nearest point at %.12g", d, want);
            // any sampled point of the triangle is no closer
            double a = rng.uni(), bb = rng.uni() * (1 - a);
            P s = t[0] + (t[1] - t[0]) * a + (t[2] - t[0]) * bb;
            VH_CHECK(d <= len(s - p) + tol, "sample-closer", "a sampled point is closer");
            // order of corners
            tinymesh::Triangle o(toV(t[2]), toV(t[1]), toV(t[0]));
            VH_CHECK(len(toP(o.closestPoint(toV(p))) - c) <= 1e-6 * scale, "order", "answer depends on the order of the corners");
            // which region the answer is in
            int at = -1;
            for (int i = 0; i < 3; i++)
                if (len(c - t[i]) <= 1e-12 * L) at = i;
            if (at >= 0)
                ctx.count(fmt("corner%d", at));
            else {
                int e = -1;
                for (int i = 0; i < 3; i++)
                    if (segDist(lp(c), lp(t[i]), lp(t[(i + 1) % 3])) <= 1e-11 * L) e = i;
                ctx.count(e >= 0 ? fmt("edge%d", e) : "interior");
            }
            ctx.eval();
            uint64_t h[3];
            memcpy(h, &p, 24);
            ctx.nontrivial(mix(h[0] ^ mix(h[1], h[2]), (uint64_t)rep));
        }
    }
    if (id < 8) ctx.sample("40 triangles (random, lattice, thin, obtuse, flat; scales 1e-5..1e5) x 12 query points over all regions");
}
void vh::finish(Ctx &) {}
