// C35: results follow rigid motions, scalings and renumberings.
#include <omp.h>

#include "curv.h"
#include "filters/filters.h"
#include "ops/ops.h"
#include "ref.h"
#include "restore/restore.h"
using namespace vh;
using namespace tinymesh;

// What an operation returns, so that it can be moved along.
struct Res {
    std::vector<P> points;                                // per vertex, moved with the mesh
    std::vector<P> dirs;                                  // per vertex, turned with the mesh
    std::vector<std::pair<int, std::vector<double>>> per; // per vertex, with the power of the scale
    std::vector<std::pair<int, double>> global;
    std::multiset<std::array<uint32_t, 3>> tris;          // by the numbers of the original soup
    bool threw = false;
};
struct Moved {
    std::unique_ptr<Mesh> m;
    std::vector<int> at;  // soup vertex -> mesh vertex
};
static Moved make(const Soup &s) {
    Moved r;
    r.m = build(s);
    std::map<P, int> where;
    for (size_t i = 0; i < r.m->numVertices(); i++) where[toP(r.m->vertex((int)i)->pos())] = (int)i;
    for (auto &p : s.V) {
        auto it = where.find(p);
        if (it == where.end()) throw Skip();
        r.at.push_back(it->second);
    }
    return r;
}
static std::vector<double> column(const EigenVector &v) { return std::vector<double>(v.data(), v.data() + v.size()); }

struct Op {
    const char *name;
    int on;         // 0 any mesh, 1 closed ones, 2 closed ones with a hole cut
    bool scales;    // has a meaning at any scale
    double tol;
    bool normals;   // uses vertex normals, which must not cancel
    std::function<void(Mesh &, Rng, Res &)> run;
};
static void positionsOf(const Mesh &m, Res &r) { r.points = positions(m); }
static const std::vector<Op> &ops() {
    static const std::vector<Op> v = {
        {"smoothLaplacian", 0, true, 1e-8, false, [](Mesh &m, Rng r, Res &o) { smoothLaplacian(m, r.uni(0.1, 1), false, r.range(1, 4)); positionsOf(m, o); }},
        {"smoothLaplacian with cotangent weights", 0, true, 1e-6, false, [](Mesh &m, Rng r, Res &o) { smoothLaplacian(m, r.uni(0.1, 0.6), true, r.range(1, 2)); positionsOf(m, o); }},
        {"smoothTaubin", 0, true, 1e-8, false, [](Mesh &m, Rng r, Res &o) { smoothTaubin(m, r.uni(0.1, 0.9), r.uni(0.1, 0.9), r.range(1, 4)); positionsOf(m, o); }},
        {"implicitFairing", 1, true, 2e-5, false, [](Mesh &m, Rng r, Res &o) { implicitFairing(m, r.uni(1e-3, 1e-1), r.range(1, 2)); positionsOf(m, o); }},
        {"denoiseNormalGaussian", 1, true, 1e-6, false, [](Mesh &m, Rng r, Res &o) { denoiseNormalGaussian(m, r.uni(0.3, 1), r.range(1, 3)); positionsOf(m, o); }},
        {"denoiseNormalBilateral", 1, true, 1e-6, false, [](Mesh &m, Rng r, Res &o) { denoiseNormalBilateral(m, r.uni(0.3, 1), r.uni(0.3, 1), r.range(1, 3)); positionsOf(m, o); }},
        {"denoiseL0Smooth", 1, false, 1e-3, false, [](Mesh &m, Rng r, Res &o) { denoiseL0Smooth(m, r.uni(0.05, 0.2), 1e-3); positionsOf(m, o); }},
        {"measures", 0, true, 1e-9, false, [](Mesh &m, Rng, Res &o) {
             o.global.push_back({1, m.getMeanEdgeLength()});
             std::vector<double> deg;
             for (size_t i = 0; i < m.numVertices(); i++) deg.push_back(m.vertex((int)i)->degree());
             o.per.push_back({0, deg});
         }},
        {"measures of closed meshes", 1, true, 1e-7, true, [](Mesh &m, Rng, Res &o) {
             o.global.push_back({2, m.getMeanFaceArea()});
             o.global.push_back({0, m.getMeanDihedralAngle()});
             std::vector<double> a, k, h;
             for (size_t i = 0; i < m.numVertices(); i++) {
                 Vertex *v = m.vertex((int)i);
                 a.push_back(v->volonoiArea());
                 k.push_back(v->K());
                 h.push_back(v->H());
                 o.dirs.push_back(toP(v->normal()));
             }
             o.per = {{2, a}, {-2, k}, {-1, h}};
         }},
        {"Laplacian rows", 0, true, 1e-7, false, [](Mesh &m, Rng r, Res &o) {
             const EigenMatrix L = EigenMatrix(getMeshLaplacian(m, r.chance(0.3) ? MeshLaplace::Adjacent : MeshLaplace::Cotangent));
             std::vector<double> d, n;
             for (long i = 0; i < L.rows(); i++) d.push_back(L(i, i)), n.push_back(L.row(i).norm());
             o.per = {{0, d}, {0, n}};
         }},
        {"Belkin Laplacian rows", 1, false, 1e-7, false, [](Mesh &m, Rng, Res &o) {
             const EigenMatrix L = EigenMatrix(getMeshLaplacian(m, MeshLaplace::Belkin08));
             std::vector<double> d, n;
             for (long i = 0; i < L.rows(); i++) d.push_back(L(i, i)), n.push_back(L.row(i).norm());
             o.per = {{0, d}, {0, n}};
         }},
        {"getPrincipalCurvatures", 1, true, 1e-5, true, [](Mesh &m, Rng r, Res &o) {
             auto k = getPrincipalCurvatures(m, r.chance(0.5));
             o.per = {{-1, column(std::get<0>(k))}, {-1, column(std::get<1>(k))}};
         }},
        {"distances", 0, true, 1e-8, false, [](Mesh &m, Rng, Res &o) {
             Mesh n = m.clone();
             smoothLaplacian(n, 1.0, false, 2);
             o.global.push_back({1, getHausdorffDistance(m, n)});
             o.per.push_back({1, column(getPerVertexShortestDistances(m, n))});
         }},
        {"holeFillMinDihedral", 2, true, 1e-9, false, [](Mesh &m, Rng r, Res &o) {
             for (size_t i = 0; i < m.numFaces(); i++)
                 if (m.face((int)i)->isHole()) {
                     holeFillMinDihedral(m, m.face((int)i), r.chance(0.7) ? Pi : 0.0);
                     break;
                 }
             positionsOf(m, o);
             for (auto &t : snap(m).tris) o.tris.insert({t[0], t[1], t[2]});
         }},
    };
    return v;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    omp_set_num_threads(1);
    const size_t which = rng.below(ops().size());
    const Op &op = ops()[which];
    Soup s;
    if (op.on == 2) {
        s = rng.chance(0.5) ? icosphere(2) : torus(rng.range(12, 18), rng.range(8, 12));
        jitter(s, meanEdge(s) * 0.05, rng);
        if (!cutHole(s, rng, meanEdge(s) * rng.uni(0.5, 2.5), s.V[rng.below(s.V.size())])) throw Skip();
    } else {
        s = op.on ? goodClosed(rng, rng.chance(0.2) ? 150 : 40, 0.1) : goodSurface(rng, rng.chance(0.2) ? 150 : 40, 0.1);
    }
    if (!distinctPositions(s)) throw Skip();
    if (op.normals) {
        Curv c(s);
        c.smooth();
        if (!c.ok) throw Skip();
    }
    // the moved copy
    Soup t = s;
    const int kind = (int)rng.below(4);  // 0 rigid, 1 scale, 2 renumber, 3 all
    double k = 1;
    Rigid rig = randomRigid(rng, 0);
    bool moved = false;
    if (kind == 0 || kind == 3) {
        rig = randomRigid(rng, rng.chance(0.5) ? 0 : 5);
        moved = true;
        apply(t, rig);
    }
    if ((kind == 1 || kind == 3) && op.scales) {
        k = rng.chance(0.3) ? std::ldexp(1.0, rng.range(-20, 20)) : std::pow(10.0, rng.uni(-5, 5));
        scale(t, k);
    }
    std::vector<uint32_t> perm(s.V.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = (uint32_t)i;
    // (which of the equally steep fills is made depends on where the loop starts)
    if (kind >= 2 && op.on != 2) {
        rng.shuffle(perm);
        Soup u = t;
        for (size_t i = 0; i < perm.size(); i++) u.V[perm[i]] = t.V[i];
        for (auto &f : u.F) {
            f = {perm[f[0]], perm[f[1]], perm[f[2]]};
            std::rotate(f.begin(), f.begin() + (long)rng.below(3), f.end());
        }
        rng.shuffle(u.F);
        t = u;
    }
    if (!distinctPositions(t)) throw Skip();
    std::vector<bool> lock(s.V.size());
    if (rng.chance(0.3))
        for (size_t i = 0; i < lock.size(); i++) lock[i] = rng.chance(0.15);
    const Rng par(rng.next());
    auto go = [&](const Soup &x, const std::vector<uint32_t> &p, Moved &mv) {
        mv = make(x);
        for (size_t i = 0; i < lock.size(); i++)
            if (lock[i]) mv.m->vertex(mv.at[p[i]])->lock();
        Res r;
        try {
            op.run(*mv.m, par, r);
        } catch (const std::exception &) {
            r.threw = true;
        }
        return r;
    };
    std::vector<uint32_t> same(s.V.size());
    for (size_t i = 0; i < same.size(); i++) same[i] = (uint32_t)i;
    ctx.stage(op.name);
    Moved A, B;
    Res a = go(s, same, A), b = go(t, perm, B);
    // degenerate places (vanishing normals) may throw on one side only by rounding
    if (a.threw || b.threw) {
        ctx.count("threw");
        throw Skip();
    }
    double ext = extent(s);
    for (auto &p : a.points) {
        if (!finite(p)) throw Skip();
        ext = std::max(ext, len(p));
    }
    const char *how = kind == 0 ? "moving" : kind == 1 ? "scaling" : kind == 2 ? "renumbering" : "moving, scaling and renumbering";
    VH_CHECK(a.points.size() == b.points.size() && a.dirs.size() == b.dirs.size(), "size", "%s: results of %s differ in size", how, op.name);
    const double shift = len(rig(P(0, 0, 0)));
    for (size_t i = 0; i < s.V.size(); i++) {
        const size_t ia = (size_t)A.at[i], ib = (size_t)B.at[perm[i]];
        if (!a.points.empty()) {
            P want = a.points[ia];
            if (moved) want = rig(want);
            want = want * k;
            VH_CHECK(len(want - b.points[ib]) <= op.tol * (ext + shift) * k, "position", "%s the mesh (%s) does the same to the result of %s, but vertex %zu is off by %g of %g", how, s.tag.c_str(), op.name, i, len(want - b.points[ib]), ext * k);
        }
        if (!a.dirs.empty()) {
            const P want = moved ? rig.rot(a.dirs[ia]) : a.dirs[ia];
            VH_CHECK(len(want - b.dirs[ib]) <= op.tol * 10, "direction", "%s the mesh (%s): direction of %s at vertex %zu is off by %g", how, s.tag.c_str(), op.name, i, len(want - b.dirs[ib]));
        }
        for (size_t q = 0; q < a.per.size(); q++) {
            double top = 0;
            for (double x : a.per[q].second) top = std::max(top, std::fabs(x));
            const double f = std::pow(k, a.per[q].first), x = a.per[q].second[ia] * f, y = b.per[q].second[ib];
            VH_CHECK(std::fabs(x - y) <= op.tol * (top + (a.per[q].first == 1 ? ext + shift : 0)) * f, "value", "%s the mesh (%s): value %zu of %s at vertex %zu is %.12g, expected %.12g", how, s.tag.c_str(), q, op.name, i, y, x);
        }
    }
    for (size_t q = 0; q < a.global.size(); q++) {
        const double x = a.global[q].second * std::pow(k, a.global[q].first), y = b.global[q].second;
        VH_CHECK(std::fabs(x - y) <= op.tol * (std::fabs(x) + (a.global[q].first == 1 ? (ext + shift) * k : 0)), "value", "%s the mesh (%s): value %zu of %s is %.12g, expected %.12g", how, s.tag.c_str(), q, op.name, y, x);
    }
    if (!a.tris.empty()) {
        std::vector<int> backA(s.V.size()), backB(s.V.size());
        for (size_t i = 0; i < s.V.size(); i++) backA[(size_t)A.at[i]] = backB[(size_t)B.at[perm[i]]] = (int)i, backA[(size_t)A.at[i]] = (int)i;
        for (size_t i = 0; i < s.V.size(); i++) backB[(size_t)B.at[perm[i]]] = (int)i;
        std::multiset<Tri> x, y;
        for (auto &f : a.tris) x.insert(canon((uint32_t)backA[f[0]], (uint32_t)backA[f[1]], (uint32_t)backA[f[2]]));
        for (auto &f : b.tris) y.insert(canon((uint32_t)backB[f[0]], (uint32_t)backB[f[1]], (uint32_t)backB[f[2]]));
        VH_CHECK(x == y, "triangles", "%s the mesh (%s) changes the triangles %s makes", how, s.tag.c_str(), op.name);
    }
    ctx.count(op.name);
    ctx.count(kind == 0 ? "moved" : kind == 1 ? "scaled" : kind == 2 ? "renumbered" : "combined");
    ctx.eval();
    ctx.nontrivial(mix(s.topoHash(), which * 4 + (uint64_t)kind));
    if (id < 40) ctx.sample(fmt("%s after %s %s", op.name, how, s.tag.c_str()));
}
void vh::finish(Ctx &) {}
