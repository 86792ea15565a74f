// C26: Laplacian matrices.
#include "edit.h"
#include "ref.h"
#include "ops/ops.h"
using namespace vh;

static std::map<std::pair<int, int>, double> entries(const EigenSparseMatrix &L) {
    std::map<std::pair<int, int>, double> r;
    for (int k = 0; k < L.outerSize(); k++)
        for (EigenSparseMatrix::InnerIterator it(L, k); it; ++it) r[{(int)it.row(), (int)it.col()}] += it.value();
    return r;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    const bool flat = id % 6 == 0;
    Soup s;
    if (flat) {
        s = gridPlane(rng.range(4, 8), rng.range(4, 8));
        for (auto &p : s.V) p += P(rng.uni(-.15, .15), rng.uni(-.15, .15), 0);
        soupFlips(s, 10, rng);
        // a flip may fold a flat patch: then it is no flat patch any more
        for (auto &f : s.F)
            if (cross(s.V[f[1]] - s.V[f[0]], s.V[f[2]] - s.V[f[0]]).z <= 0.02) throw Skip();
        apply(s, randomRigid(rng, 2));
        shuffleSoup(s, rng);
    } else {
        s = goodSurface(rng, 70, 0.01);
    }
    if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-4, 4)));
    auto m = build(s);
    Ref r(toSoup(*m));
    const int n = (int)m->numVertices();
    const double h = (double)r.meanEdgeLength();
    const char *names[] = {"adjacency", "cotangent", "heat"};
    const tinymesh::MeshLaplace types[] = {tinymesh::MeshLaplace::Adjacent, tinymesh::MeshLaplace::Cotangent, tinymesh::MeshLaplace::Belkin08};
    const double q = minQuality(r.s);
    Soup perm = r.s;
    shuffleSoup(perm, rng);
    auto mp = build(perm);
    std::map<P, int> pidx;
    for (int i = 0; i < (int)mp->numVertices(); i++) pidx[toP(mp->vertex(i)->pos())] = i;
    for (int t = 0; t < 3; t++) {
        ctx.stage(names[t]);
        const EigenSparseMatrix L = tinymesh::getMeshLaplacian(*m, types[t]);
        VH_CHECK(L.rows() == n && L.cols() == n, "shape", "%s matrix is %ldx%ld for %d vertices", names[t], (long)L.rows(), (long)L.cols(), n);
        auto e = entries(L);
        std::vector<LD> row((size_t)n, 0), mag((size_t)n, 0);
        size_t off = 0;
        for (auto &x : e) {
            const int i = x.first.first, j = x.first.second;
            VH_CHECK(std::isfinite(x.second), "finite", "%s entry is not finite", names[t]);
            row[(size_t)i] += x.second;
            mag[(size_t)i] += std::fabs(x.second);
            auto y = e.find({j, i});
            VH_CHECK(y != e.end() && std::fabs(y->second - x.second) <= 1e-9 / q * (1 + std::fabs(x.second)), "symmetric", "%s entry (%d,%d) is not symmetric", names[t], i, j);
            if (i == j) continue;
            auto k = r.opp.find(Ref::E((uint32_t)i, (uint32_t)j));
            if (k == r.opp.end()) {
                VH_CHECK(x.second == 0, "pattern", "%s entry (%d,%d) is off the edges", names[t], i, j);
                continue;
            }
            off++;
            LD want = -1, tol = 1e-12L;
            if (t == 1) {
                want = -r.cotW((uint32_t)i, (uint32_t)j);
                tol = 1e-8L / q;
            } else if (t == 2) {
                const LD d = len(r.p((uint32_t)i) - r.p((uint32_t)j));
                want = -expl(-d * d / (4 * (LD)h)) / (4 * M_PIl * h);
                tol = 1e-9L * fabsl(want) * std::max((LD)1, d * d / h) + 1e-300L;
                 // exponent's own rounding
            }
            VH_CHECK(fabsl(x.second - want) <= tol, "weight", "%s weight (%d,%d) is %.12g, expected %.12Lg%s", names[t], i, j, x.second, want, k->second.size() == 1 ? " (boundary edge)" : "");
        }
        VH_CHECK(t == 2 || off == 2 * r.opp.size() || t == 1, "pattern", "%s matrix has %zu off-diagonal entries for %zu edges", names[t], off, r.opp.size());
        for (int i = 0; i < n; i++)
            VH_CHECK(fabsl(row[(size_t)i]) <= 1e-10L * mag[(size_t)i] + 1e-300L, "row-sum", "%s row %d sums to %Lg", names[t], i, row[(size_t)i]);
        // every edge carries its weight even where the matrix stores nothing
        for (auto &x : r.opp) {
            LD want = t == 0 ? 1 : t == 1 ? r.cotW(x.first.first, x.first.second) : 0;
            if (t == 2) continue;
            auto y = e.find({(int)x.first.first, (int)x.first.second});
            const double have = y == e.end() ? 0 : -y->second;
            VH_CHECK(fabsl(have - want) <= 1e-8L / q, "weight", "%s: edge weight %.12g, expected %.12Lg", names[t], have, want);
        }
        // renumbering
        auto ep = entries(tinymesh::getMeshLaplacian(*mp, types[t]));
        for (auto &x : e) {
            auto y = ep.find({pidx[r.s.V[(size_t)x.first.first]], pidx[r.s.V[(size_t)x.first.second]]});
            const double have = y == ep.end() ? 0 : y->second;
            VH_CHECK(std::fabs(have - x.second) <= 1e-8 / q * (1 + std::fabs(x.second)), "renumbering", "%s matrix is not permuted by renumbering", names[t]);
        }
        // linear functions on flat interiors
        if (flat && t == 1) {
            for (int d = 0; d < 3; d++) {
                std::vector<LD> y((size_t)n, 0);
                for (auto &x : e) y[(size_t)x.first.first] += (LD)x.second * r.s.V[(size_t)x.first.second][d];
                for (int i = 0; i < n; i++)
                    if (!r.rim[(size_t)i]) {
                        VH_CHECK(fabsl(y[(size_t)i]) <= 1e-9L / q * mag[(size_t)i] * extent(r.s), "linear", "cotangent matrix does not annihilate a linear function at a flat interior vertex: %Lg", y[(size_t)i]);
                        ctx.count("flat_interior");
                    }
            }
        }
        ctx.eval(e.size());
    }
    ctx.count(analyse(r.s).loops.empty() ? "closed" : "open");
    ctx.nontrivial(s.hash());
    if (id < 40) ctx.sample(fmt("%s: %d vertices, %zu edges", s.tag.c_str(), n, r.opp.size()));
}
void vh::finish(Ctx &) {}
