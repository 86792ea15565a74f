// C39: meshes of more elements than 16 bits can number.
#include <omp.h>

#include "core/bvh.h"
#include "edit.h"
#include "fileio.h"
#include "filters/filters.h"
#include "ops/ops.h"
#include "ref.h"
#include "remesh/remesh.h"
#include "restore/restore.h"
using namespace vh;
using namespace tinymesh;

static Soup big(Rng &rng, bool open) {
    Soup s;
    const int m = rng.range(258, 275), n = rng.range(256, 262);
    if (open) {
        s = gridPlane(m, n);
        for (auto &p : s.V) p = P(p.x, p.y, 3 * std::sin(0.05 * p.x) * std::cos(0.04 * p.y));
    } else {
        s = torus(m, n, 3, 1);
    }
    // small enough not to turn triangles over
    for (auto &p : s.V) p += P(rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1)) * (open ? 0.08 : 0.001);
    shuffleSoup(s, rng);
    return s;
}
static std::multiset<Tri> triSet(const std::vector<uint32_t> &ix) {
    std::multiset<Tri> r;
    for (size_t i = 0; i + 2 < ix.size(); i += 3) r.insert(canon(ix[i], ix[i + 1], ix[i + 2]));
    return r;
}
// the mesh m has exactly the triangles of s, whatever its numbering
static void sameSurface(const Mesh &m, const Soup &s, double tol, const char *key) {
    VH_CHECK(m.numVertices() == s.V.size(), key, "%zu vertices instead of %zu", m.numVertices(), s.V.size());
    const auto v = m.getVertices();
    const auto ix = m.getVertexIndices();
    VH_CHECK(ix.size() == 3 * s.F.size(), key, "%zu triangles instead of %zu", ix.size() / 3, s.F.size());
    auto q = [&](const P &p) {
        return tol > 0 ? std::array<double, 3>{(double)(float)p.x, (double)(float)p.y, (double)(float)p.z} : std::array<double, 3>{p.x, p.y, p.z};
    };
    std::map<std::array<double, 3>, uint32_t> num;
    for (size_t i = 0; i < s.V.size(); i++) num[q(s.V[i])] = (uint32_t)i;
    if (num.size() != s.V.size()) throw Skip();
    std::vector<uint32_t> a, b;
    for (uint32_t i : ix) {
        VH_CHECK(i < v.size(), key, "index %u of %zu vertices", i, v.size());
        auto it = num.find(q(toP(v[i])));
        VH_CHECK(it != num.end(), key, "vertex %u is at a place where none was", i);
        a.push_back(it->second);
    }
    for (auto &t : s.F)
        for (uint32_t i : t) b.push_back(i);
    VH_CHECK(triSet(a) == triSet(b), key, "not the triangles that were given");
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    static const char *kinds[] = {"construct", "files", "queries", "smoothing", "operators", "edits", "resample", "holes", "components", "fan", "denoise", "simplify"};
    const int kind = (int)(id % 12);
    ctx.stage(kinds[kind]);
    Soup s;
    if (kind == 8) {
        // very many components, one in three open
        const int n = rng.range(17000, 18000);
        for (int i = 0; i < n; i++) {
            Soup t = tetra();
            if (i % 3 == 0) t.F.pop_back();
            append(s, t, P(5 * (i % 26), 5 * ((i / 26) % 26), 5 * (i / 676)));
        }
        shuffleSoup(s, rng);
    } else if (kind == 9) {
        s = disc(rng.range(33000, 34000));  // costs grow with the square of the degree
        for (auto &p : s.V) p = p * 1000.0;
    } else {
        s = big(rng, kind == 7 || (kind == 0 && rng.chance(0.5)) || kind == 6);
    }
    std::set<size_t> cut;
    if (kind == 7) {
        // holes of a handful of triangles inside
        for (int k = 0; k < 3; k++) cutHole(s, rng, rng.uni(1.2, 2.2), P(40 + 60 * k + rng.uni(), 100 + rng.uni(), 3 * std::sin(0.05 * (40 + 60 * k)) * std::cos(4.0)));
    }
    auto m = build(s);
    const long V = (long)s.V.size(), F = (long)s.F.size();
    const Topo topo = analyse(s);
    VH_CHECK((long)m->numVertices() == V, "vertices", "%zu vertices instead of %ld", m->numVertices(), V);
    VH_CHECK(m->numFaces() == s.F.size() + topo.loops.size(), "faces", "%zu faces for %ld triangles and %zu holes", m->numFaces(), F, topo.loops.size());
    VH_CHECK(m->numHalfedges() % 2 == 0 && m->numEdges() == m->numHalfedges() / 2, "edges", "%zu edges, %zu halfedges", m->numEdges(), m->numHalfedges());
    sameSurface(*m, s, 0, "surface");
    const TopoClass t0 = topoClass(*m, "built");
    switch (kind) {
    case 0:
    case 8: {
        validate(*m, "built");
        Mesh c = m->clone();
        sameSurface(c, s, 0, "clone");
        validate(c, "clone");
        break;
    }
    case 1: {
        const std::string a = ctx.scratch + "/big.ply", b = ctx.scratch + "/big.obj";
        m->save(a);
        m->save(b);
        Mesh p(a), o;
        o.load(b);
        unlink(a.c_str());
        unlink(b.c_str());
        sameSurface(o, s, 1, "obj");
        sameSurface(p, s, 1, "ply");
        break;
    }
    case 2: {
        BVH bvh(*m);
        for (int k = 0; k < 40; k++) {
            const P q = k % 2 ? s.V[rng.below(s.V.size())] + randUnit(rng) * rng.uni(0, 0.2) : P(rng.uni(-5, 5), rng.uni(-5, 5), rng.uni(-5, 5));
            const double want = soupDist(q, s), got = bvh.distance(toV(q));
            VH_CHECK(std::fabs(want - got) <= 1e-9 * (1 + want), "distance", "distance %.12g, brute force %.12g", got, want);
        }
        Soup t = icosphere(1);
        for (auto &p : t.V) p = p * 0.3 + P(3, 0, 0);
        auto mt = build(t);
        const auto d = getPerVertexShortestDistances(*m, *mt);
        VH_CHECK((long)d.rows() == V, "per-vertex", "%ld distances for %ld vertices", (long)d.rows(), V);
        double far = 0;
        for (size_t i = 0; i < s.V.size(); i++) far = std::max(far, d((long)i));
        for (int k = 0; k < 2000; k++) {
            const size_t i = k < 1000 ? rng.below(s.V.size()) : s.V.size() - 1 - rng.below(2000);
            const double want = soupDist(toP(m->vertex((int)i)->pos()), t);
            VH_CHECK(std::fabs(d((long)i) - want) <= 1e-9 * (1 + want), "per-vertex", "vertex %zu: %.12g, brute force %.12g", i, d((long)i), want);
        }
        double back = 0;
        for (auto &p : t.V) back = std::max(back, soupDist(p, s));
        const double h = getHausdorffDistance(*m, *mt);
        VH_CHECK(std::fabs(h - std::max(far, back)) <= 1e-9 * (1 + h), "hausdorff", "%.12g, expected %.12g", h, std::max(far, back));
        break;
    }
    case 3: {
        const bool cot = rng.chance(0.5), taubin = rng.chance(0.5);
        const std::vector<bool> locks = lockSome(*m, rng, 0.2);
        Soup r = toSoup(*m);
        const double ext = extent(r);
        if (taubin) {
            refTaubin(r, 0.5L, 0.53L, 1, locks);
            smoothTaubin(*m, 0.5, 0.53, 1);
        } else {
            if (!refLaplaceStep(r, 0.5L, cot, locks)) throw Skip();
            smoothLaplacian(*m, 0.5, cot, 1);
        }
        const double d = maxDiff(r.V, positions(*m));
        VH_CHECK(d <= 1e-7 * ext, "smoothed", "%g of %g off the weighted averages", d, ext);
        VH_CHECK(triSet(m->getVertexIndices()) == triSet(r.flat()), "connectivity", "smoothing changed connectivity");
        break;
    }
    case 4: {
        Ref r(toSoup(*m));
        const EigenSparseMatrix A = getMeshLaplacian(*m, MeshLaplace::Adjacent), C = getMeshLaplacian(*m, MeshLaplace::Cotangent);
        VH_CHECK(A.rows() == V && A.cols() == V && C.rows() == V && C.cols() == V, "shape", "matrices of another size");
        VH_CHECK(A.nonZeros() == V + 2 * (long)r.opp.size(), "entries", "%ld entries", (long)A.nonZeros());
        for (int k = 0; k < 20000; k++) {
            const uint32_t i = k < 10000 ? (uint32_t)rng.below((uint64_t)V) : (uint32_t)(V - 1 - (long)rng.below(3000));
            const auto &nb = r.nb[i];
            const uint32_t j = nb[rng.below(nb.size())];
            VH_CHECK(A.coeff((int)i, (int)j) == -1 && A.coeff((int)i, (int)i) == (double)nb.size(), "adjacency", "row %u is wrong", i);
            const double w = (double)r.cotW(i, j);
            VH_CHECK(std::fabs(C.coeff((int)i, (int)j) + w) <= 1e-6 * (1 + std::fabs(w)), "cotangent", "entry (%u, %u) is %g, expected %g", i, j, C.coeff((int)i, (int)j), -w);
            LP n = r.vertexNormal(i);
            n = n * (1 / len(n));
            const P g = toP(m->vertex((int)i)->normal());
            VH_CHECK(len(P((double)n.x, (double)n.y, (double)n.z) - g) < 1e-8, "normal", "normal of vertex %u is wrong", i);
        }
        const LD me = r.meanEdgeLength();
        VH_CHECK(fabsl(me - m->getMeanEdgeLength()) <= 1e-9L * me, "mean", "mean edge length %.12g, expected %.12Lg", m->getMeanEdgeLength(), me);
        LD gb = 0;
        for (long i = 0; i < V; i++) gb += (LD)m->vertex((int)i)->K() * r.voronoi((uint32_t)i);
        VH_CHECK(fabsl(gb) < 1e-6L, "gauss-bonnet", "total curvature %Lg on a torus", gb);
        break;
    }
    case 5: {
        // edits all over, including at the highest numbers
        long splits = 0, collapses = 0, flips = 0;
        for (int k = 0; k < 6000; k++) {
            const long nh = (long)m->numHalfedges();
            Halfedge *h = m->halfedge(k % 2 ? (int)(nh - 1 - (long)rng.below(500)) : (int)rng.below((uint64_t)nh));
            switch (rng.range(0, 2)) {
            case 0: flips += m->flipHE(h); break;
            case 1: splits += m->splitHE(h); break;
            default: collapses += m->collapseHE(h);
            }
            VH_CHECK((long)m->numVertices() == V + splits - collapses, "edit-vertices", "%zu vertices after %ld splits and %ld collapses of %ld", m->numVertices(), splits, collapses, V);
            VH_CHECK((long)m->numFaces() == F + 2 * (splits - collapses), "edit-faces", "%zu faces after %ld splits and %ld collapses of %ld", m->numFaces(), splits, collapses, F);
        }
        validate(*m, "edited");
        sameTopo(t0, topoClass(*m, "edited"), "topology");
        VH_CHECK(flips > 100 && splits > 100 && collapses > 100, "refused", "%ld flips, %ld splits, %ld collapses of 6000 attempts", flips, splits, collapses);
        ctx.count("edited", (uint64_t)(flips + splits + collapses));
        break;
    }
    case 6:
        remeshTriangular(*m, 0.8, 1.333, 0.0, 1, false);
        validate(*m, "remeshed");
        sameTopo(t0, topoClass(*m, "remeshed"), "topology");
        break;
    case 7: {
        size_t done = 0;
        for (size_t i = 0; i < m->numFaces(); i++) {
            Face *f = m->face((int)i);
            if (!f->isHole()) continue;
            std::vector<const Vertex *> l;
            const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
            do {
                l.push_back(h->src());
                h = h->next();
            } while (h != h0);
            if (l.size() > 40) continue;
            const size_t nf = m->numFaces(), nv = m->numVertices();
            holeFillMinDihedral(*m, f, Pi);
            VH_CHECK(m->numFaces() == nf - 1 + l.size() - 2 && m->numVertices() == nv, "filled", "hole of %zu corners: %zu faces became %zu", l.size(), nf, m->numFaces());
            done++;
            i = (size_t)-1;
        }
        if (!done) throw Skip();
        ValidateOpts o;
        o.simple = false;
        validate(*m, "filled", o);
        ctx.count("filled", done);
        break;
    }
    case 9: {
        validate(*m, "fan");
        int deg = 0;
        for (long i = 0; i < V; i++) deg = std::max(deg, m->vertex((int)i)->degree());
        VH_CHECK(deg == F || deg == F + 1, "degree", "the centre of %ld triangles has degree %d", F, deg);
        const std::string a = ctx.scratch + "/fan.ply";
        m->save(a);
        Mesh p(a);
        unlink(a.c_str());
        VH_CHECK(p.numVertices() == m->numVertices() && p.numFaces() == m->numFaces(), "fan-file", "%zu faces from the file, %zu saved", p.numFaces(), m->numFaces());
        break;
    }
    case 10: {
        const auto before = m->getVertexIndices();
        denoiseNormalGaussian(*m, 0.5, 1);
        VH_CHECK(before == m->getVertexIndices(), "connectivity", "denoising changed connectivity");
        double worst = 0;
        for (long i = 0; i < V; i++) {
            const P p = toP(m->vertex((int)i)->pos());
            VH_CHECK(finite(p), "finite", "a position is not finite");
            worst = std::max(worst, std::fabs(std::hypot(std::hypot(p.x, p.y) - 3, p.z) - 1));
        }
        VH_CHECK(worst < 0.05, "shape", "a denoised torus is off by %g", worst);
        break;
    }
    default: {
        const int target = (int)F - rng.range(20000, 40000);
        simplifyQEM(*m, target, 5, false);
        validate(*m, "simplified");
        sameTopo(t0, topoClass(*m, "simplified"), "topology");
        VH_CHECK((int)m->numFaces() <= target && (int)m->numFaces() >= target - 1, "target", "%zu faces for a target of %d", m->numFaces(), target);
    }
    }
    ctx.count(kinds[kind]);
    ctx.eval();
    ctx.nontrivial(mix(s.hash(), (uint64_t)kind));
    ctx.sample(fmt("%s: %ld vertices, %ld triangles", kinds[kind], V, F));
}
void vh::finish(Ctx &) {}
