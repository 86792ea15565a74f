// C10: advancing-front hole filling.
#include "edit.h"
#include "ref.h"
#include "restore/restore.h"
using namespace vh;

static std::vector<Face *> holesOf(Mesh &m) {
    std::vector<Face *> r;
    for (size_t i = 0; i < m.numFaces(); i++)
        if (m.face((int)i)->isHole()) r.push_back(m.face((int)i));
    return r;
}
static std::vector<const Vertex *> loopOf(Face *f) {
    std::vector<const Vertex *> l;
    const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
    do {
        l.push_back(h->src());
        h = h->next();
    } while (h != h0);
    return l;
}
static bool chords(const std::vector<const Vertex *> &l) {
    const size_t n = l.size();
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 2; j < n; j++)
            if (!(i == 0 && j == n - 1) && adjacent(l[i], l[j])) return true;
    return false;
}
void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    const bool flat = id % 4 == 3;
    Soup s;
    P up(0, 0, 1);
    if (flat) {
        const int n = rng.range(6, 14);
        s = gridPlane(n, n);
        if (rng.chance(0.5))
            for (auto &p : s.V) p += P(rng.uni(-.12, .12), rng.uni(-.12, .12), 0);
    } else {
        switch (rng.below(5)) {
        case 0: s = icosphere(2); break;
        case 1: s = icosphere(3); break;
        case 2: s = torus(rng.range(12, 24), rng.range(8, 14)); break;
        case 3: s = cube(rng.range(4, 8)); break;
        default: s = cylinder(rng.range(8, 14), rng.range(5, 10)); break;
        }
        if (rng.chance(0.5)) jitter(s, meanEdge(s) * rng.uni(0, 0.1), rng);
    }
    const double e = meanEdge(s);
    const int holes = rng.range(1, 3);
    int made = 0;
    for (int i = 0; i < holes; i++) {
        P c = s.V[rng.below(s.V.size())];
        if (flat) {
            const P hi = s.V.back();
            c = P(hi.x * rng.uni(.3, .7), hi.y * rng.uni(.3, .7), 0);
        }
        if (rng.chance(0.15)) {  // a single triangle
            const Tri &f = s.F[rng.below(s.F.size())];
            made += cutHole(s, rng, e * 0.05, (s.V[f[0]] + s.V[f[1]] + s.V[f[2]]) / 3);
            continue;
        }
        made += cutHole(s, rng, e * rng.uni(0.5, 3.5), c);
    }
    if (!made && analyse(s).loops.empty()) throw Skip();
    if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-3, 3)));
    const Rigid rb = randomRigid(rng, rng.chance(0.5) ? 0 : 3);
    apply(s, rb);
    up = rb.rot(up);
    shuffleSoup(s, rng);
    if (!distinctPositions(s) || !analyse(s).manifold) throw Skip();
    auto m = build(s);
    auto hs = holesOf(*m);
    if (hs.empty()) throw Skip();
    Face *f = nullptr;
    if (flat) {
        for (Face *h : hs) {  // an inner hole: its loop runs counter-clockwise seen from above
            LD A = 0;
            auto l = loopOf(h);
            for (size_t i = 0; i < l.size(); i++) A += dot(cross(lp(toP(l[i]->pos())), lp(toP(l[(i + 1) % l.size()]->pos()))), lp(up));
            if (A > 0) f = h;
        }
        if (!f) throw Skip();
    } else {
        f = hs[rng.below(hs.size())];
    }
    const auto l = loopOf(f);
    const bool ch = chords(l);
    if (l.size() > 40 || ch) throw Skip();
    std::vector<bool> locks = lockSome(*m, rng, rng.chance(0.8) ? 0 : 0.3);
    const State before = state(*m);
    const TopoClass t0 = topoClass(*m, "input");
    ctx.stage("fill");
    tinymesh::holeFillAdvancingFront(*m, f);
    const State after = state(*m);
    VH_CHECK(std::includes(after.tris.begin(), after.tris.end(), before.tris.begin(), before.tris.end()), "kept-triangles", "a triangle of the given surface is gone after filling");
    for (auto &kv : before.pos) {
        auto it = after.pos.find(kv.first);
        VH_CHECK(it != after.pos.end(), "kept-vertices", "a given vertex is gone after filling");
        VH_CHECK(it->second == kv.second, "kept-positions", "a given vertex moved by %g", len(it->second - kv.second));
    }
    for (auto v : before.locked) VH_CHECK(after.locked.count(v), "locks", "filling unlocked a vertex");
    const double ext = extent(s);
    for (auto &kv : after.pos) {
        VH_CHECK(finite(kv.second), "finite", "hole of %zu corners: a new vertex is not finite", l.size());
        if (flat) {
            const double off = std::fabs(dot(kv.second - rb.t, up));
            VH_CHECK(off <= 1e-6 * ext, "flat", "fill of a flat hole of %zu corners leaves its plane by %g of %g", l.size(), off, ext);
        }
    }
    State w = before;
    std::vector<const Vertex *> r = l;
    std::rotate(r.begin(), std::min_element(r.begin(), r.end()), r.end());
    auto it = w.holes.find(r);
    if (it != w.holes.end()) w.holes.erase(it);
    VH_CHECK(after.holes == w.holes, "other-holes", "the holes left are not all but the filled one");
    // the front may meet itself and leave two edges between the same vertices, so only the cells are judged
    ValidateOpts o;
    o.simple = false;
    validate(*m, "structure", o);
    const Snap sn = snap(*m);
    VH_CHECK(sn.euler == t0.euler + 1, "topology", "Euler characteristic %ld -> %ld", t0.euler, sn.euler);
    const size_t added = after.pos.size() - before.pos.size();
    double far = 0;
    P c(0, 0, 0);
    for (auto v : l) c += toP(v->pos()) / (double)l.size();
    double rad = 0;
    for (auto v : l) rad = std::max(rad, len(toP(v->pos()) - c));
    for (auto &kv : after.pos)
        if (!before.pos.count(kv.first)) far = std::max(far, len(kv.second - c) / rad);
    VH_CHECK(far <= 2, "far", "hole of %zu corners: a new vertex lies %g rim radii from the centre of the rim", l.size(), far);
    ctx.eval();
    if (added) ctx.count("with_new_vertices");
    else ctx.count("without_new_vertices");
    if (flat) ctx.count("flat");
    if (!after.holes.empty()) ctx.count("other_holes");
    if (l.size() > 10) ctx.count("large");
    ctx.nontrivial(mix(s.hash(), l.size()));
    if (id < 60) ctx.sample(fmt("%s: hole of %zu corners, %zu new vertices", s.tag.c_str(), l.size(), added));
}
void vh::finish(Ctx &) {}
