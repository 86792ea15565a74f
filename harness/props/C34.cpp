// C34: results do not depend on the number or timing of threads.
// Built three times: with ThreadSanitizer and the harness's runtime (data
// races), with the harness's serialising runtime (orders), and with the real
// runtime under the address sanitizer.
#include <omp.h>
#include <random>

#include "core/bvh.h"
#include "filters/filters.h"
#include "ops/ops.h"
#include "ref.h"
#include "remesh/remesh.h"
#include "restore/restore.h"
#if defined(VGOMP)
#include "vgomp.h"
#endif
using namespace vh;

static uint64_t g_order = 1;
unsigned int std::random_device::_M_getval() { return (unsigned int)(g_order = mix(g_order)); }

typedef std::vector<double> Out;
static void put(Out &o, const EigenMatrix &m) {
    for (long i = 0; i < m.rows(); i++)
        for (long j = 0; j < m.cols(); j++) o.push_back(m(i, j));
}
static void put(Out &o, const Mesh &m) {
    for (size_t i = 0; i < m.numVertices(); i++) {
        const P p = toP(m.vertex((int)i)->pos());
        o.push_back(p.x), o.push_back(p.y), o.push_back(p.z);
    }
    for (auto &t : snap(m).tris)
        for (auto i : t) o.push_back(i);
}

struct Op {
    const char *name;
    int on;  // 0 any mesh, 1 closed ones, 2 closed ones with a hole cut
    std::function<void(Mesh &, Rng, Out &)> run;
};
static Face *hole(Mesh &m) {
    for (size_t i = 0; i < m.numFaces(); i++)
        if (m.face((int)i)->isHole()) return m.face((int)i);
    return nullptr;
}
static const std::vector<Op> &ops() {
    using namespace tinymesh;
    static const std::vector<Op> v = {
        {"smoothLaplacian", 0, [](Mesh &m, Rng r, Out &o) { smoothLaplacian(m, r.uni(0.1, 1), r.chance(0.5), r.range(1, 3)); put(o, m); }},
        {"smoothTaubin", 0, [](Mesh &m, Rng r, Out &o) { smoothTaubin(m, r.uni(0.1, 0.9), r.uni(0.1, 0.9), r.range(1, 3)); put(o, m); }},
        {"denoiseNormalGaussian", 1, [](Mesh &m, Rng r, Out &o) { denoiseNormalGaussian(m, r.uni(0.1, 1), r.range(1, 3)); put(o, m); }},
        {"denoiseNormalBilateral", 1, [](Mesh &m, Rng r, Out &o) { denoiseNormalBilateral(m, r.uni(0.1, 1), r.uni(0.1, 1), r.range(1, 3)); put(o, m); }},
        {"implicitFairing", 0, [](Mesh &m, Rng r, Out &o) { implicitFairing(m, r.uni(0.1, 1), r.range(1, 2)); put(o, m); }},
        {"denoiseL0Smooth", 1, [](Mesh &m, Rng r, Out &o) { denoiseL0Smooth(m, r.uni(0.05, 0.2), r.uni(1e-3, 1e-2)); put(o, m); }},
        {"getMeshLaplacian", 0, [](Mesh &m, Rng r, Out &o) {
             const MeshLaplace t[] = {MeshLaplace::Adjacent, MeshLaplace::Cotangent, MeshLaplace::Belkin08};
             put(o, EigenMatrix(getMeshLaplacian(m, t[r.below(3)])));
         }},
        {"getPrincipalCurvatures", 1, [](Mesh &m, Rng r, Out &o) {
             auto k = getPrincipalCurvatures(m, r.chance(0.5));
             put(o, std::get<0>(k)), put(o, std::get<1>(k));
         }},
        {"getPrincipalCurvaturesWithDerivatives", 1, [](Mesh &m, Rng r, Out &o) {
             auto k = getPrincipalCurvaturesWithDerivatives(m, r.chance(0.5));
             put(o, std::get<0>(k)), put(o, std::get<1>(k)), put(o, std::get<2>(k)), put(o, std::get<3>(k));
         }},
        {"getFeatureLineField", 1, [](Mesh &m, Rng r, Out &o) {
             auto k = getFeatureLineFieldWithFlags(m, r.chance(0.5));
             put(o, std::get<1>(k));
         }},
        {"getHeatKernelSignatures", 1, [](Mesh &m, Rng, Out &o) {
             put(o, getHeatKernelSignatures(getMeshLaplacian(m, MeshLaplace::Adjacent), std::min(8, (int)m.numVertices() - 1), 4));
         }},
        {"distances", 0, [](Mesh &m, Rng r, Out &o) {
             Soup s = toSoup(m);
             jitter(s, 0.1 * meanEdge(s), r);
             auto n = build(s);
             o.push_back(getHausdorffDistance(m, *n));
             put(o, getPerVertexShortestDistances(m, *n));
         }},
        {"measures", 1, [](Mesh &m, Rng, Out &o) {
             o.push_back(m.getMeanEdgeLength());
             o.push_back(m.getMeanFaceArea());
             for (size_t i = 0; i < m.numVertices(); i++) {
                 const Vec3 n = m.vertex((int)i)->normal();
                 o.push_back(n[0]), o.push_back(n[1]), o.push_back(n[2]);
             }
         }},
        {"holeFillMinDihedral", 2, [](Mesh &m, Rng r, Out &o) { if (Face *f = hole(m)) holeFillMinDihedral(m, f, r.chance(0.5) ? 3.14159 : 0.5); put(o, m); }},
        {"holeFillAdvancingFront", 2, [](Mesh &m, Rng, Out &o) { if (Face *f = hole(m)) holeFillAdvancingFront(m, f); put(o, m); }},
        {"remeshTriangular", 0, [](Mesh &m, Rng r, Out &o) {
             g_order = r.next();
             remeshTriangular(m, 0.8, 1.333, 0.0, r.range(1, 2), false);
             put(o, m);
         }},
        {"simplifyQEM", 0, [](Mesh &m, Rng r, Out &o) {
             const int target = (int)((double)m.numFaces() * r.uni(0.5, 0.9));
             simplifyQEM(m, target < 1 ? 1 : target, 2, false);
             put(o, m);
         }},
        {"construct", 0, [](Mesh &m, Rng, Out &o) { Mesh c = m.clone(); put(o, c); }},
    };
    return v;
}

static void setThreads(int n, uint64_t seed) {
#if defined(VGOMP)
    vgomp::configure(n, seed);
#else
    (void)seed;
    omp_set_num_threads(n);
#endif
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    // the filters with parallel loops most of the time
    const size_t which = rng.chance(0.6) ? rng.below(4) : rng.below(ops().size());
    const Op &op = ops()[which];
    Soup s;
    if (op.on == 2) {
        s = rng.chance(0.5) ? icosphere(2) : torus(rng.range(12, 18), rng.range(8, 12));
        if (rng.chance(0.5)) jitter(s, meanEdge(s) * 0.05, rng);
        if (!cutHole(s, rng, meanEdge(s) * rng.uni(0.5, 2.5), s.V[rng.below(s.V.size())])) throw Skip();
        shuffleSoup(s, rng);
    } else {
        s = op.on ? goodClosed(rng, rng.chance(0.2) ? 150 : 40) : goodSurface(rng, rng.chance(0.2) ? 150 : 40);
    }
    const Rng par(rng.next());
    std::vector<bool> lock(s.V.size());
    if (rng.chance(0.3))
        for (size_t i = 0; i < lock.size(); i++) lock[i] = rng.chance(0.1);
    auto go = [&](int threads, uint64_t seed) {
        setThreads(1, 1);
        auto m = build(s);
        for (size_t i = 0; i < lock.size(); i++)
            if (lock[i]) m->vertex((int)i)->lock();
        setThreads(threads, seed);
        Out o;
        try {
            op.run(*m, par, o);
        } catch (const std::exception &) {  // refused with any number of threads, or with none
            o.assign(1, 1e99);
        }
        setThreads(1, 1);
        return o;
    };
    ctx.stage(op.name);
    const Out want = go(1, 1);
    double ext = 1e-30;
    for (double d : want)
        if (std::isfinite(d)) ext = std::max(ext, std::fabs(d));
    const int n = (int)std::max(s.V.size(), s.F.size() + 8);
#if defined(VGOMP_TSAN)
    const std::vector<int> counts = {1, rng.range(2, 8), std::min(n, 120)};
#elif defined(VGOMP)
    const std::vector<int> counts = {1, 2, 3, rng.range(4, 16), (int)s.V.size(), n};
#else
    const std::vector<int> counts = {1, 2, 3, 8, 13};
#endif
    // other addresses, then other numbers of threads
    std::vector<std::unique_ptr<char[]>> litter;
    for (int k = rng.range(1, 50); k > 0; k--) litter.emplace_back(new char[8 + rng.below(400)]);
    for (size_t k = 0; k < litter.size(); k += 2) litter[k].reset();
    for (int t : counts) {
        const Out got = go(t, rng.next());
        VH_CHECK(got.size() == want.size(), "size", "%s: result has another size with %d threads", op.name, t);
        for (size_t i = 0; i < got.size(); i++) {
            const bool same = got[i] == want[i] || (std::isnan(got[i]) && std::isnan(want[i])) || std::fabs(got[i] - want[i]) <= 1e-9 * ext;
            VH_CHECK(same, "differs", "%s on %s: value %zu of %zu is %.17g with %d threads, %.17g with one", op.name, s.tag.c_str(), i, got.size(), got[i], t, want[i]);
        }
        ctx.eval();
    }
#if defined(VGOMP)
    ctx.counters["parallel_regions"] = vgomp::regions();
#endif
    ctx.count(op.name);
    ctx.nontrivial(mix(s.topoHash(), which));
    if (id < 40) ctx.sample(fmt("%s on %s with 1 to %d threads", op.name, s.tag.c_str(), counts.back()));
}
void vh::finish(Ctx &) {}
