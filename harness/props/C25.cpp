// C25: L0 smoothing against a dense evaluation of its alternating scheme.
#include "edit.h"
#include "ref.h"
#include "filters/filters.h"
#include <Eigen/Dense>
using namespace vh;
typedef Eigen::MatrixXd Mat;

struct Edge {
    uint32_t i[4];  // first end, wing, second end, other wing
};

static bool reference(const Soup &s0, double alpha, double beta, const std::vector<bool> &locks, std::vector<P> &out, double &norm, long &kept, long &cut, int &rounds) {
    Ref r0(s0);
    LD avg = r0.meanEdgeLength(), dih = 0;
    for (auto &e : r0.opp) dih += r0.dihedralAt(e.first);
    dih /= (LD)r0.opp.size();
    std::vector<Edge> es;
    for (auto &f : s0.F)
        for (int k = 0; k < 3; k++) {
            uint32_t a = f[(size_t)k], b = f[(size_t)(k + 1) % 3], c = f[(size_t)(k + 2) % 3];
            if (a > b) continue;
            auto &o = r0.opp.at(Ref::E(a, b));
            es.push_back({{a, c, b, o[0] == c ? o[1] : o[0]}});
        }
    const long n = (long)s0.V.size(), ne = (long)es.size();
    Soup sm = s0;
    refTaubin(sm, 0.5L, 0.53L, 3, locks);
    Mat R = Mat::Zero(ne, n), D = Mat::Zero(ne, n), p(n, 3), init(n, 3);
    for (long v = 0; v < n; v++)
        for (int d = 0; d < 3; d++) p(v, d) = init(v, d) = s0.V[(size_t)v][d];
    for (long e = 0; e < ne; e++) {
        const Edge &x = es[(size_t)e];
        R(e, x.i[0]) += 1;
        R(e, x.i[1]) -= 1;
        R(e, x.i[2]) += 1;
        R(e, x.i[3]) -= 1;
        LP p1 = lp(sm.V[x.i[0]]), p2 = lp(sm.V[x.i[1]]), p3 = lp(sm.V[x.i[2]]), p4 = lp(sm.V[x.i[3]]);
        LD S = len(cross(p2 - p1, p3 - p1)) / 2, T = len(cross(p4 - p1, p3 - p1)) / 2, l2 = dot(p3 - p1, p3 - p1);
        D(e, x.i[0]) += (double)((S * dot(p4 - p3, p3 - p1) + T * dot(p1 - p3, p3 - p2)) / (l2 * (S + T)));
        D(e, x.i[1]) += (double)(T / (S + T));
        D(e, x.i[2]) += (double)((S * dot(p3 - p1, p1 - p4) + T * dot(p2 - p1, p1 - p3)) / (l2 * (S + T)));
        D(e, x.i[3]) += (double)(S / (S + T));
    }
    const double bmax = 1e3 * (double)avg, lambda = 0.02 * (double)(avg * avg * dih);
    alpha *= (double)avg;
    beta *= (double)avg;
    const Mat RR = R.transpose() * R, DD = D.transpose() * D;
    rounds = 0;
    bool clear = true;
    while (beta < bmax) {
        Mat y = D * p;
        for (long e = 0; e < ne; e++) {
            const double q = y.row(e).squaredNorm(), t = lambda / beta;
            if (std::fabs(q - t) < 1e-4 * t) clear = false;  // the threshold decides by rounding
            if (q < t) {
                y.row(e).setZero();
                cut++;
            } else {
                kept++;
            }
        }
        Mat A = Mat::Identity(n, n) + alpha * RR + beta * DD;
        norm = std::max(norm, A.cwiseAbs().rowwise().sum().maxCoeff());
        p = A.ldlt().solve(init + beta * D.transpose() * y);
        beta *= std::sqrt(2.0);
        alpha *= 0.5;
        rounds++;
    }
    out.clear();
    for (long v = 0; v < n; v++) out.push_back(P(p(v, 0), p(v, 1), p(v, 2)));
    return clear;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    const bool isCube = id % 10 == 0;
    Soup s = isCube ? cube(rng.range(3, 4)) : goodClosed(rng, 50, 0.05);
    if (!isCube && rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-2, 2)));
    if (s.V.size() > 120) throw Skip();
    auto m = build(s);
    const Snap s0 = snap(*m);
    std::vector<bool> locks = lockSome(*m, rng, isCube || rng.chance(0.7) ? 0 : 0.2);
    const Soup in = toSoup(*m);
    const double ext = extent(in);
    // weights so that about 4..20 rounds remain
    const double alpha = rng.chance(0.3) ? 0.1 : rng.uni(0.01, 0.5);
    const bool beyond = rng.chance(0.08);
    const double beta = beyond ? 1000 * rng.uni(1.01, 2) : isCube || rng.chance(0.2) ? 1e-3 : 1e3 * std::pow(2.0, -rng.uni(1, 12));
    std::vector<P> want;
    long kept = 0, cut = 0;
    int rounds = 0;
    double norm = 0;
    ctx.stage("reference");
    const bool clear = reference(in, alpha, beta, locks, want, norm, kept, cut, rounds);
    ctx.stage("denoise");
    tinymesh::denoiseL0Smooth(*m, alpha, beta);
    const Snap s1 = snap(*m);
    VH_CHECK(sameConnectivity(s0, s1), "connectivity", "L0 smoothing changed connectivity");
    sameLocks(*m, locks, "locks");
    for (auto &p : s1.pos) VH_CHECK(finite(p), "finite", "L0 smoothing gives a non-finite position");
    double size = 0;
    for (auto &p : s0.pos) size = std::max(size, len(p - s0.pos[0]));
    const double worst = maxDiff(want, s1.pos);
    if (beyond) {
        VH_CHECK(maxDiff(s0.pos, s1.pos) == 0, "beyond", "a weight beyond the limit moved vertices");
        ctx.count("beyond");
    } else if (norm > 1e7) {
        ctx.count("ill_conditioned");  // beyond the iterative solver's reach
    } else if (clear) {
        VH_CHECK(worst <= 1e-4 * ext, "scheme", "weights %g %g, %d rounds: off the stated scheme by %g of %g", alpha, beta, rounds, worst, ext);
        ctx.count("compared");
    } else {
        ctx.count("threshold_ties");
    }
    if (isCube) {
        // faces of the cube stay flat: each vertex inside a face stays in its plane
        double lo = INFINITY, hi = -INFINITY;
        for (auto &p : s0.pos) {
            lo = std::min(lo, p.x);
            hi = std::max(hi, p.x);
        }
        const double h = hi - lo;
        for (int d = 0; d < 3; d++)
            for (double side : {lo, hi}) {
                double a = INFINITY, b = -INFINITY;
                for (size_t i = 0; i < s0.pos.size(); i++) {
                    bool inner = s0.pos[i][d] == side;
                    for (int e = 0; e < 3; e++)
                        if (e != d) inner &= s0.pos[i][e] > lo + 1e-9 && s0.pos[i][e] < hi - 1e-9;
                    if (!inner) continue;
                    a = std::min(a, s1.pos[i][d]);
                    b = std::max(b, s1.pos[i][d]);
                }
                if (a <= b) VH_CHECK(b - a < 0.05 * h, "flat", "a flat side is bent by %g of %g", b - a, h);
            }
        ctx.count("cubes");
    }
    if (kept) ctx.count("kept_edges", (uint64_t)kept);
    if (cut) ctx.count("flattened_edges", (uint64_t)cut);
    ctx.eval();
    ctx.nontrivial(mix(s.hash(), (uint64_t)rounds));
    if (id < 40) ctx.sample(fmt("%s alpha %.3g beta %.3g: %d rounds, %ld kept %ld flattened, norm %.2g, off by %.2g", s.tag.c_str(), alpha, beta, rounds, kept, cut, norm, worst));
}
void vh::finish(Ctx &) {}
