// C09: minimum-dihedral hole filling.
#include "edit.h"
#include "ref.h"
#include "restore/restore.h"
using namespace vh;

static LD considered(const LP &v1, const LP &v2, const LP &v3, const LP &rev) {
    const LP n1 = cross(v2 - v1, v3 - v1), n4 = cross(v2 - rev, v3 - rev);
    const LD l1 = len(n1), l4 = len(n4);
    if (l1 == 0 || l4 == 0) return M_PIl;
    const LD c = dot(n1, n4) / (l1 * l4);
    return M_PIl - acosl(std::max((LD)-1, std::min((LD)1, c)));
}

struct Plan {
    LD angle, area;
};
// the method's recursion by worst angle, or by area, over the loop
static Plan plan(const std::vector<LP> &p, const std::vector<LP> &outer, bool byArea, bool lastWins) {
    const int n = (int)p.size();
    std::vector<std::vector<LD>> A((size_t)n, std::vector<LD>((size_t)n, 0)), D = A;
    std::vector<std::vector<int>> O((size_t)n, std::vector<int>((size_t)n, -1));
    for (int j = 2; j < n; j++)
        for (int i = 0; i + j < n; i++) {
            const int k = i + j;
            bool have = false;
            for (int m = i + 1; m < k; m++) {
                const LD a = A[i][m] + A[m][k] + len(cross(p[m] - p[i], p[k] - p[i])) / 2;
                const LP r01 = m == i + 1 ? outer[(size_t)i] : p[(size_t)O[i][m]];
                const LP r12 = k == m + 1 ? outer[(size_t)m] : p[(size_t)O[m][k]];
                LD d = std::max(considered(p[k], p[i], p[m], r01), considered(p[i], p[m], p[k], r12));
                d = std::max(d, std::max(D[i][m], D[m][k]));
                const bool better = byArea ? a < A[i][k] : lastWins ? d <= D[i][k] : d < D[i][k];
                if (!have || better) {
                    A[i][k] = a;
                    D[i][k] = d;
                    O[i][k] = m;
                    have = true;
                }
            }
        }
    return {D[0][n - 1], A[0][n - 1]};
}

struct Fill {
    std::vector<const Vertex *> loop;
    std::vector<LP> p, outer;
    bool chords = false;
};
static Fill describe(Face *f) {
    Fill r;
    const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
    do {
        r.loop.push_back(h->src());
        r.p.push_back(lp(toP(h->src()->pos())));
        r.outer.push_back(lp(toP(h->rev()->next()->dst()->pos())));
        h = h->next();
    } while (h != h0);
    const size_t n = r.loop.size();
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 2; j < n; j++)
            if (!(i == 0 && j == n - 1) && adjacent(r.loop[i], r.loop[j])) r.chords = true;
    return r;
}
static std::vector<Face *> holesOf(Mesh &m) {
    std::vector<Face *> r;
    for (size_t i = 0; i < m.numFaces(); i++)
        if (m.face((int)i)->isHole()) r.push_back(m.face((int)i));
    return r;
}

// fills one hole and checks the exact transition; returns the new triangles
static std::vector<VTri> fillOne(Mesh &m, Face *f, const Fill &d, double bound, bool deflt) {
    const State before = state(m);
    const TopoClass t0 = topoClass(m, "input");
    if (deflt)
        tinymesh::holeFillMinDihedral(m, f);
    else
        tinymesh::holeFillMinDihedral(m, f, bound);
    const State after = state(m);
    const size_t n = d.loop.size();
    std::multiset<VTri> extra = after.tris;
    for (auto &t : before.tris) {
        auto it = extra.find(t);
        VH_CHECK(it != extra.end(), "kept-triangles", "a triangle of the given surface is gone after filling");
        extra.erase(it);
    }
    VH_CHECK(extra.size() == n - 2, "count", "a hole of %zu corners got %zu triangles", n, extra.size());
    std::set<const Vertex *> L(d.loop.begin(), d.loop.end());
    for (auto &t : extra)
        for (auto v : t) VH_CHECK(L.count(v), "loop-vertices", "a new triangle uses a vertex off the loop");
    std::map<std::pair<const Vertex *, const Vertex *>, int> de;
    for (auto &t : extra)
        for (int k = 0; k < 3; k++) de[{t[(size_t)k], t[(size_t)(k + 1) % 3]}]++;
    for (size_t i = 0; i < n; i++)
        VH_CHECK(de.count({d.loop[i], d.loop[(i + 1) % n]}), "orientation", "rim edge %zu of %zu is not covered in its direction", i, n);
    VH_CHECK(before.pos == after.pos, "vertices", "filling added, removed or moved vertices");
    VH_CHECK(before.locked == after.locked, "locks", "filling changed locks");
    State w = before;
    std::vector<const Vertex *> l = d.loop;
    std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
    auto it = w.holes.find(l);
    if (it != w.holes.end()) w.holes.erase(it);
    VH_CHECK(after.holes == w.holes, "other-holes", "the holes left are not all but the filled one");
    VH_CHECK(after.nH == before.nH + 2 * (n - 3) && after.nF == before.nF + n - 3, "elements", "hole of %zu corners: halfedges %zu -> %zu, faces %zu -> %zu",
             n, before.nH, after.nH, before.nF, after.nF);
    ValidateOpts o;
    o.simple = !d.chords;
    validate(m, "structure", o);
    if (!d.chords) {
        TopoClass t1 = topoClass(m, "topology"), want = t0;
        want.euler++;
        want.loops--;
        sameTopo(want, t1, "topology");
    }
    return std::vector<VTri>(extra.begin(), extra.end());
}

static Soup ringWithHole(Rng &rng, int n, bool convex, double &polyArea) {
    // inner polygon around the origin, counter-clockwise; outer ring beyond it
    std::vector<double> ang;
    for (int i = 0; i < n; i++) ang.push_back(2 * M_PI * (i + rng.uni(-0.3, 0.3)) / n);
    Soup s;
    const double rx = rng.uni(0.5, 2), ry = rng.uni(0.5, 2);
    for (int i = 0; i < n; i++) {
        const double r = convex ? 1 : rng.uni(0.4, 1.2);
        s.V.push_back({r * rx * std::cos(ang[(size_t)i]), r * ry * std::sin(ang[(size_t)i]), 0});
    }
    for (int i = 0; i < n; i++) s.V.push_back({3 * rx * std::cos(ang[(size_t)i]), 3 * ry * std::sin(ang[(size_t)i]), 0});
    polyArea = 0;
    for (int i = 0; i < n; i++) {
        const uint32_t a = (uint32_t)i, b = (uint32_t)((i + 1) % n);
        s.F.push_back({b, a, a + (uint32_t)n});
        s.F.push_back({a + (uint32_t)n, b + (uint32_t)n, b});
        polyArea += (s.V[a].x * s.V[b].y - s.V[a].y * s.V[b].x) / 2;
    }
    s.tag = convex ? "convex-hole" : "star-hole";
    return s;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    const int kind = (int)(id % 4);
    if (kind == 3) {  // planar holes
        double want;
        const int n = rng.range(3, rng.chance(0.1) ? 60 : 14);
        const bool convex = rng.chance(0.6);
        Soup s = ringWithHole(rng, n, convex, want);
        const double k = std::pow(10.0, rng.chance(0.5) ? 0 : rng.uni(-6, 7));
        scale(s, k);
        want *= k * k;
        const Rigid rb = randomRigid(rng, 0);
        apply(s, rb);
        const P up = rb.rot(P(0, 0, 1));
        shuffleSoup(s, rng);
        auto m = build(s);
        const double bounds[] = {0, 0.1, 1};
        const bool deflt = rng.chance(0.5);
        const double bound = bounds[rng.below(3)];
        for (Face *f : holesOf(*m)) {
            const Fill d = describe(f);
            LD A = 0;
            for (size_t i = 0; i + 1 < d.p.size(); i++) A += dot(cross(d.p[i], d.p[i + 1]), lp(up)) / 2;
            A += dot(cross(d.p.back(), d.p[0]), lp(up)) / 2;
            if (!(A > 0) || fabsl(A - (LD)want) > 1e-9L * want) continue;  // the outer rim runs the other way round
            ctx.stage("planar fill");
            auto tris = fillOne(*m, f, d, bound, deflt);
            LD sum = 0;
            for (auto &t : tris) {
                LP a = lp(toP(t[0]->pos())), b = lp(toP(t[1]->pos())), e = lp(toP(t[2]->pos()));
                LP cr = cross(b - a, e - a);
                sum += len(cr) / 2;
                VH_CHECK(dot(cr, lp(up)) > -1e-9L * want, "planar-turned", "a planar hole of %d corners got a triangle facing the other way", n);
            }
            VH_CHECK(fabsl(sum - want) <= 1e-8L * want, "planar-cover", "planar %s of %d corners and area %g filled with area %Lg", convex ? "convex hole" : "star-shaped hole", n, want, sum);
            ctx.eval();
            ctx.count(convex ? "planar_convex" : "planar_star");
            ctx.nontrivial(s.hash());
            break;
        }
        return;
    }
    Soup s = okSurface(rng, rng.chance(0.2) ? 150 : 50);
    if (rng.chance(0.6)) {
        Soup t = s;
        punchPatch(t, rng.range(3, 14), rng);
        if (analyse(t).manifold) s = t;
    }
    if (rng.chance(0.6)) {
        jitter(s, meanEdge(s) * rng.uni(0.02, 0.1), rng);
        s.tag += "-jittered";
    }
    const bool generic = s.tag.find("jittered") != std::string::npos;
    auto m = build(s);
    lockSome(*m, rng, rng.chance(0.7) ? 0 : 0.3);
    auto hs = holesOf(*m);
    if (hs.empty()) throw Skip();
    if (kind == 0) {  // all holes at once
        bool chords = false;
        for (Face *f : hs) chords |= describe(f).chords;
        const State before = state(*m);
        const TopoClass t0 = topoClass(*m, "input");
        size_t add = 0, addH = 0;
        for (auto &l : before.holes) {
            add += l.size() - 2;
            addH += 2 * (l.size() - 3);
        }
        ctx.stage("fillHoles");
        m->fillHoles();
        const State after = state(*m);
        VH_CHECK(after.holes.empty(), "all-holes", "%zu of %zu holes left after filling all", after.holes.size(), before.holes.size());
        VH_CHECK(after.pos == before.pos && after.locked == before.locked, "all-vertices", "filling all holes changed vertices or locks");
        VH_CHECK(std::includes(after.tris.begin(), after.tris.end(), before.tris.begin(), before.tris.end()), "all-kept", "filling all holes lost triangles");
        VH_CHECK(after.tris.size() == before.tris.size() + add && after.nH == before.nH + addH, "all-count", "filling %zu holes added %zu triangles instead of %zu",
                 before.holes.size(), after.tris.size() - before.tris.size(), add);
        ValidateOpts o;
        o.simple = !chords;
        validate(*m, "all-structure", o);
        for (size_t i = 0; i < m->numHalfedges(); i++) VH_CHECK(!m->halfedge((int)i)->isBoundary(), "all-flags", "a boundary flag is left on a closed mesh");
        for (size_t i = 0; i < m->numVertices(); i++) VH_CHECK(!m->vertex((int)i)->isBoundary(), "all-flags", "a boundary vertex is left on a closed mesh");
        if (!chords) {
            TopoClass t1 = topoClass(*m, "all-topology"), want = t0;
            want.euler += (long)before.holes.size();
            want.loops = 0;
            sameTopo(want, t1, "all-topology");
            ctx.count("all_closed");
        } else {
            ctx.count("chords");
        }
        if (before.holes.size() > 1) ctx.count("several_holes");
        ctx.eval();
        ctx.nontrivial(s.hash());
        return;
    }
    rng.shuffle(hs);
    if (rng.chance(0.7)) std::stable_sort(hs.begin(), hs.end(), [](Face *a, Face *b) { return describe(a).loop.size() > describe(b).loop.size(); });
    Face *f = hs[0];
    const Fill d = describe(f);
    const bool deflt = kind == 1;
    const double bound = deflt ? M_PI : rng.chance(0.7) ? 0.0 : rng.uni(0, 3);
    ctx.stage("fill");
    auto tris = fillOne(*m, f, d, bound, deflt);
    const size_t n = d.loop.size();
    std::map<const Vertex *, size_t> at;
    for (size_t i = 0; i < n; i++) at[d.loop[i]] = i;
    LD area = 0, worst = 0;
    std::map<std::pair<size_t, size_t>, size_t> apex;
    for (auto &t : tris) {
        size_t q[3] = {at[t[0]], at[t[1]], at[t[2]]};
        area += len(cross(d.p[q[1]] - d.p[q[0]], d.p[q[2]] - d.p[q[0]])) / 2;
        for (int k = 0; k < 3; k++) apex[{q[k], q[(k + 1) % 3]}] = q[(k + 2) % 3];
    }
    for (auto &e : apex) {
        const size_t i = e.first.first, j = e.first.second;
        if (i == n - 1 && j == 0) continue;  // the edge that closes the loop is not judged
        LP rev;
        if (j == i + 1)
            rev = d.outer[i];
        else if (apex.count({j, i}))
            rev = d.p[apex[{j, i}]];
        else
            continue;
        worst = std::max(worst, considered(d.p[e.second], d.p[i], d.p[j], rev));
    }
    LD perimeter = 0;
    for (size_t i = 0; i < n; i++) perimeter += len(d.p[i] - d.p[(i + 1) % n]);
    if (deflt) {
        const Plan best = plan(d.p, d.outer, true, false);
        VH_CHECK(area <= best.area * (1 + 1e-9L) + 1e-12L * perimeter * perimeter, "area", "hole of %zu corners filled with area %Lg, the least is %Lg", n, area, best.area);
        if (n > 4) ctx.count("least_area");
    } else if (bound == 0 && generic) {
        const Plan a = plan(d.p, d.outer, false, false), b = plan(d.p, d.outer, false, true);
        VH_CHECK(worst <= std::max(a.angle, b.angle) + 1e-6L, "angle", "hole of %zu corners filled with worst angle %Lg, expected %Lg", n, worst, std::max(a.angle, b.angle));
        if (n > 4) ctx.count("least_angle");
    }
    if (d.chords) ctx.count("chords");
    ctx.count("single");
    if (n == 3) ctx.count("triangular");
    ctx.eval();
    ctx.nontrivial(mix(s.hash(), n));
    if (id < 60) ctx.sample(fmt("%s: hole of %zu corners, bound %g", s.tag.c_str(), n, bound));
}
void vh::finish(Ctx &) {}
