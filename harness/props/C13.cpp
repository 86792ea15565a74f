// C13: lengths, areas, normals, cotangent weights, means.
#include "edit.h"
#include "ref.h"
#include "core/triangle.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = goodSurface(rng, 60, rng.chance(0.5) ? 1e-3 : 0.02);
    const double k = rng.chance(0.5) ? std::pow(10.0, rng.uni(-5, 5)) : 1;
    if (rng.chance(0.5)) apply(s, randomRigid(rng, 3));
    scale(s, k);
    if (!distinctPositions(s)) throw Skip();
    auto m = build(s);
    if (rng.chance(0.3)) {
        ctx.stage("edit");
        for (int i = 0; i < 10; i++) {
            Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
            if (rng.chance(0.5))
                m->flipHE(he);
            else
                m->splitHE(he);
        }
        if (minQuality(toSoup(*m)) < 1e-3) throw Skip();
        ctx.count("edited");
    }
    Ref r(toSoup(*m));
    const Topo t = analyse(r.s);
    const bool closed = t.loops.empty();
    const double q = minQuality(r.s), ext = extent(r.s);
    const double eps = 1e-12 * ext / (double)r.meanEdgeLength() / q;  // conditioning of differences of coordinates
    if (eps > 1e-5) throw Skip();
    auto near = [&](double got, LD want, double f = 1) { return fabsl(got - want) <= f * (1e-11 + eps) * fabsl(want); };
    ctx.stage("edges");
    for (size_t i = 0; i < m->numHalfedges(); i++) {
        const Halfedge *h = m->halfedge((int)i);
        const uint32_t a = (uint32_t)h->src()->index(), b = (uint32_t)h->dst()->index();
        const LD want = len(r.p(a) - r.p(b));
        VH_CHECK(near(h->length(), want, 10), "edge:length", "edge length %.15g, expected %.15Lg", h->length(), want);
        const LD w = r.cotW(a, b);
        LD mag = 0;
        for (uint32_t c : r.opp.at(Ref::E(a, b))) mag += fabsl(r.cotAt(c, a, b)) + 1;
        VH_CHECK(fabsl(h->cotWeight() - w) <= (1e-9 + 100 * eps) * mag / q, "edge:cotangent", "cotangent weight %.15g, expected %.15Lg (scale %g, %s)", h->cotWeight(), w, k, r.rim[a] && r.rim[b] ? "at the rim" : "inner");
    }
    ctx.stage("faces");
    for (size_t i = 0; i < m->numFaces(); i++) {
        const Face *f = m->face((int)i);
        if (f->isHole()) continue;
        const Halfedge *h = f->he_begin().ptr();
        Tri tr = {(uint32_t)h->src()->index(), (uint32_t)h->next()->src()->index(), (uint32_t)h->next()->next()->src()->index()};
        LP c = cross(r.p(tr[1]) - r.p(tr[0]), r.p(tr[2]) - r.p(tr[0]));
        VH_CHECK(near(f->area(), len(c) / 2, 100 / q), "face:area", "face area %.15g, expected %.15Lg", f->area(), len(c) / 2);
        LP n = c * (1 / len(c));
        LP g = lp(toP(f->normal()));
        VH_CHECK(len(g - n) <= (1e-11 + 100 * eps) / q, "face:normal", "face normal is off by %Lg", len(g - n));
        VH_CHECK(fabsl(len(g) - 1) < 1e-12, "face:unit", "face normal has length %.15Lg", len(g));
        const tinymesh::Triangle tri = f->toTriangle();
        const LP cen = (r.p(tr[0]) + r.p(tr[1]) + r.p(tr[2])) * ((LD)1 / 3);
        auto bb = tri.bounds();
        for (int d = 0; d < 3; d++) {
            double lo = INFINITY, hi = -INFINITY;
            for (uint32_t x : tr) {
                lo = std::min(lo, r.s.V[x][d]);
                hi = std::max(hi, r.s.V[x][d]);
            }
            VH_CHECK(bb.posMin()[d] == lo && bb.posMax()[d] == hi, "face:triangle", "corner triangle has other corners");
        }
        VH_CHECK(tri.distance(toV(P((double)cen.x, (double)cen.y, (double)cen.z))) <= 1e-9 * (double)sqrtl(len(c)) + 1e-12 * ext, "face:triangle", "corner triangle does not contain the centroid");
        VH_CHECK(f->numCorners() == 3, "face:corners", "triangle with %d corners", f->numCorners());
    }
    ctx.stage("vertices");
    long normals = 0;
    for (uint32_t v = 0; v < r.s.V.size(); v++) {
        LP n = r.vertexNormal(v);
        LD mag = 0;
        for (size_t f : r.fs[v]) {
            auto o = r.others(f, v);
            LP a = r.p(o.first) - r.p(v), b = r.p(o.second) - r.p(v);
            mag += len(cross(a, b)) / (dot(a, a) * dot(b, b));
        }
        if (len(n) < 1e-3L * mag) continue;  // direction not well defined
        n = n * (1 / len(n));
        LP g = lp(toP(m->vertex((int)v)->normal()));
        VH_CHECK(len(g - n) <= (1e-9 + 1e5 * eps), "vertex:normal", "vertex normal is off by %Lg (%s vertex)", len(g - n), r.rim[v] ? "rim" : "inner");
        VH_CHECK(fabsl(len(g) - 1) < 1e-12, "vertex:unit", "vertex normal has length %.15Lg", len(g));
        normals++;
        ctx.count(r.rim[v] ? "rim_normals" : "inner_normals");
    }
    ctx.stage("means");
    VH_CHECK(near(m->getMeanEdgeLength(), r.meanEdgeLength(), 100), "mean:edge", "mean edge length %.15g, expected %.15Lg", m->getMeanEdgeLength(), r.meanEdgeLength());
    if (closed) {
        LD A = 0, D = 0;
        for (size_t f = 0; f < r.s.F.size(); f++) A += r.area(f);
        A /= (LD)r.s.F.size();
        for (auto &e : r.opp) D += r.dihedralAt(e.first);
        D /= (LD)r.opp.size();
        VH_CHECK(near(m->getMeanFaceArea(), A, 1000 / q), "mean:area", "mean face area %.15g, expected %.15Lg", m->getMeanFaceArea(), A);
        VH_CHECK(fabsl(m->getMeanDihedralAngle() - D) <= 1e-5, "mean:dihedral", "mean dihedral angle %.12g, expected %.12Lg", m->getMeanDihedralAngle(), D);
        ctx.count("closed");
    } else {
        ctx.count("open");
    }
    ctx.eval(m->numHalfedges() + m->numFaces() + (size_t)normals + 3);
    ctx.nontrivial(s.hash());
    if (id < 40) ctx.sample(fmt("%s scale %.3g: %zu edges %zu faces %ld normals", s.tag.c_str(), k, m->numHalfedges() / 2, m->numFaces(), normals));
}
void vh::finish(Ctx &) {}
