// C24: normal-filter denoising against an independent evaluation.
#include "edit.h"
#include "ref.h"
#include "filters/filters.h"
#include <omp.h>
using namespace vh;

static LD kernel(LD x, LD sigma) {
    const LD c = 1 / (sqrtl(2 * M_PIl) * sigma);
    if (x < 2 * sigma) return c * expl(-x * x / (sigma * sigma));
    if (x < 4 * sigma) return c / (16 * expl(2)) * powl(4 - x / sigma, 4);
    return 0;
}
// relative distance of x to the kernel's breakpoints, where it jumps
static LD awayFromBreaks(LD x, LD sigma) { return std::min(fabsl(x / sigma - 2), fabsl(x / sigma - 4)); }

struct Result {
    bool ok = true;
    long zero = 0, tail = 0;
};

static Result reference(Soup &s, LD avg, double sc, double sn, bool bilateral, const std::vector<bool> &locks) {
    Result out;
    refTaubin(s, 0.5L, 0.53L, 3, locks);
    Ref r(s);
    const size_t nf = s.F.size();
    std::vector<LP> n(nf), c(nf), nn(nf, LP{0, 0, 0});
    std::vector<LD> a(nf);
    for (size_t f = 0; f < nf; f++) {
        n[f] = r.normal(f);
        c[f] = r.centroid(f);
        a[f] = r.area(f);
    }
    for (size_t f = 0; f < nf; f++) {
        LP sum{0, 0, 0};
        LD mag = 0;
        for (int k = 0; k < 3; k++) {
            auto &e = r.ef.at(Ref::E(s.F[f][(size_t)k], s.F[f][(size_t)(k + 1) % 3]));
            size_t g = e[0] == f ? e[1] : e[0];
            const LD d = len(c[f] - c[g]);
            if (awayFromBreaks(d, sc * avg) < 1e-6L) out.ok = false;
            LD w = kernel(d, sc * avg) * a[g];
            if (d > 2 * sc * avg && w > 0) out.tail++;
            if (bilateral) {
                const LD nd = len(n[f] - n[g]);
                if (awayFromBreaks(nd, sn) < 1e-6L) out.ok = false;
                w *= kernel(nd, sn);
            }
            sum = sum + n[g] * w;
            mag += w;
        }
        if (len(sum) == 0) {
            out.zero++;
            continue;
        }
        if (len(sum) < 1e-3L * mag || mag < 1e-200L) out.ok = false;  // direction ill-conditioned
        nn[f] = sum * (1 / len(sum));
    }
    std::vector<P> q = s.V;
    for (uint32_t v = 0; v < s.V.size(); v++) {
        LP inc{0, 0, 0};
        LD sum = 0;
        for (size_t f : r.fs[v]) {
            sum += a[f];
            inc = inc + nn[f] * (a[f] * dot(nn[f], c[f] - r.p(v)));
        }
        LP p = r.p(v) + inc * (1 / sum);
        q[v] = P((double)p.x, (double)p.y, (double)p.z);
    }
    s.V = q;
    return out;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    const bool bil = rng.chance(0.5);
    if (id % 12 == 0) {  // open meshes are refused
        Soup s = goodSurface(rng, 40, 1e-3);
        Topo t = analyse(s);
        bool polygon = false;
        for (auto &l : t.loops) polygon |= l.size() > 3;
        if (!polygon) throw Skip();
        ctx.stage("open");
        ChildResult r = runChild([&]() -> std::string {
            omp_set_num_threads(1);  // a forked child has no worker threads
            auto m = build(s);
            if (bil)
                tinymesh::denoiseNormalBilateral(*m, 0.5, 0.5, 1);
            else
                tinymesh::denoiseNormalGaussian(*m, 0.5, 1);
            return "";
        });
        VH_CHECK(r.kind == ChildResult::REJECTED || r.kind == ChildResult::EXCEPTION, "open", "denoising a mesh with a polygonal hole is not refused (outcome %d)", (int)r.kind);
        ctx.count("refused");
        ctx.eval();
        ctx.nontrivial(s.hash());
        return;
    }
    Soup s = goodClosed(rng, 70, 0.05);
    if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-4, 4)));
    auto m = build(s);
    std::vector<bool> locks = lockSome(*m, rng, rng.chance(0.8) ? 0 : 0.3);
    const double sc = rng.chance(0.3) ? 0.2 : rng.uni(0.1, 1.5), sn = rng.uni(0.1, 2);
    const int its = rng.chance(0.1) ? rng.range(4, 12) : rng.range(1, 3);
    const Snap s0 = snap(*m);
    Soup r = toSoup(*m);
    const LD avg = Ref(r).meanEdgeLength();
    const double ext = extent(r);
    Result tot;
    ctx.stage("reference");
    for (int i = 0; i < its; i++) {
        Result x = reference(r, avg, sc, sn, bil, locks);
        if (!x.ok || minQuality(r) < 0.01 || !(extent(r) < 10 * ext)) throw Skip();
        tot.zero += x.zero;
        tot.tail += x.tail;
    }
    ctx.stage("denoise");
    if (bil)
        tinymesh::denoiseNormalBilateral(*m, sc, sn, its);
    else
        tinymesh::denoiseNormalGaussian(*m, sc, its);
    const Snap s1 = snap(*m);
    VH_CHECK(sameConnectivity(s0, s1), "connectivity", "denoising changed connectivity");
    sameLocks(*m, locks, "locks");
    validate(*m, "after");
    const double worst = maxDiff(r.V, s1.pos);
    VH_CHECK(worst <= 1e-6 * ext, bil ? "bilateral" : "gaussian", "%d iterations, widths %g %g: off the stated steps by %g of %g", its, sc, sn, worst, ext);
    if (its > 0 && rng.chance(0.3)) {  // zero iterations
        auto z = build(s);
        const Snap b = snap(*z);
        if (bil)
            tinymesh::denoiseNormalBilateral(*z, sc, sn, 0);
        else
            tinymesh::denoiseNormalGaussian(*z, sc, 0);
        VH_CHECK(snap(*z) == b, "zero", "zero iterations changed the mesh");
    }
    ctx.count(bil ? "bilateral" : "gaussian");
    if (tot.tail) ctx.count("kernel_tails");
    if (its > 3) ctx.count("many_rounds");
    if (tot.zero) ctx.count("zero_normals");
    ctx.eval();
    ctx.nontrivial(mix(s.hash(), (uint64_t)(sc * 1e6)));
    if (id < 40) ctx.sample(fmt("%s %s widths %.3g %.3g x%d: off by %.2g", s.tag.c_str(), bil ? "bilateral" : "gaussian", sc, sn, its, worst));
}
void vh::finish(Ctx &) {}
