// C27: heat kernel signatures.
#include <Eigen/Eigenvalues>

#include "curv.h"
#include "edit.h"
#include "ops/ops.h"
using namespace vh;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> MX;

static Eigen::SparseMatrix<double> permuted(const MX &L, const std::vector<long> &p) {
    std::vector<Eigen::Triplet<double>> t;
    for (long i = 0; i < L.rows(); i++)
        for (long j = 0; j < L.cols(); j++)
            if (L(i, j) != 0) t.emplace_back(p[(size_t)i], p[(size_t)j], L(i, j));
    Eigen::SparseMatrix<double> S(L.rows(), L.cols());
    S.setFromTriplets(t.begin(), t.end());
    return S;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s;
    for (int k = 0;; k++) {
        s = goodSurface(rng, rng.range(10, ctx.thorough ? 260 : 130), 0.1);
        if (analyse(s).components == 1) break;
        if (k > 40) throw Skip();
    }
    if (rng.chance(0.5)) scale(s, std::pow(10.0, rng.uni(-3, 3)));
    auto m = build(s);
    const bool cot = rng.chance(0.6);
    Eigen::SparseMatrix<double> L = tinymesh::getMeshLaplacian(*m, cot ? tinymesh::Cotangent : tinymesh::Adjacent);
    if (rng.chance(0.3)) L *= std::pow(10.0, rng.uni(-1, 0.5));
    MX D = MX(L);
    D = (0.5 * (D + D.transpose())).eval();
    const long N = D.rows();
    if (id % 10 == 9) {
        ctx.stage("too many");
        const int K = (int)N + rng.range(0, 3);
        const ChildResult r = runChild([&]() {
            tinymesh::getHeatKernelSignatures(L, K, 5);
            return std::string("done");
        });
        VH_CHECK(r.kind == ChildResult::REJECTED || r.kind == ChildResult::EXCEPTION, "too-many", "requesting %d eigenvalues of a %ld x %ld matrix is not refused (%d: %s)", K, N, N, (int)r.kind, r.text.c_str());
        ctx.count("refused");
        ctx.eval();
        return;
    }
    Eigen::SelfAdjointEigenSolver<MX> es(D);
    const auto lam = es.eigenvalues();
    if (lam(0) < -1e-9 * lam(N - 1) || lam(1) < 1e-5 * lam(N - 1) || lam(1) < 1e-4) throw Skip();
    // the fixed spectral shift limits the accuracy for large eigenvalues
    if (lam(N - 1) > 40) throw Skip();
    int K = 0;
    for (int k = 0; k < 30 && !K; k++) {
        const int c = rng.chance(0.2) ? (int)N - 1 : rng.range(2, (int)N - 1);
        if ((lam(c) - lam(c - 1)) > 0.02 * lam(c)) K = c;
    }
    if (!K) throw Skip();
    const int T = rng.chance(0.15) ? 1 : rng.range(2, 40);
    std::vector<long> perm;
    for (long i = 0; i < N; i++) perm.push_back(i);
    if (rng.chance(0.5)) {
        rng.shuffle(perm);
        ctx.count("renumbered");
    }
    const Eigen::SparseMatrix<double> S = permuted(D, perm);
    ctx.stage("signatures");
    const MX H = tinymesh::getHeatKernelSignatures(S, K, T);
    VH_CHECK(H.rows() == N && H.cols() == T, "size", "signatures are %ld x %ld for %ld vertices and %d times", (long)H.rows(), (long)H.cols(), N, T);
    const double lo = std::log(4 * std::log(10.0) / lam(K - 1)), hi = std::log(4 * std::log(10.0) / lam(1));
    double worst = 0;
    for (int i = 0; i < T; i++) {
        const double t = std::exp(T == 1 ? lo : lo + (hi - lo) * i / (T - 1));
        for (long v = 0; v < N; v++) {
            double want = 0;
            for (int k = 0; k < K; k++) {
                const double f = es.eigenvectors()(v, k);
                want += std::exp(-std::max(0.0, lam(k)) * t) * f * f;
            }
            const double got = H(perm[(size_t)v], i);
            worst = std::max(worst, std::fabs(got - want) / want);
            VH_CHECK(std::fabs(got - want) <= 2e-3 * want + 1e-9, "signature", "K %d of %ld, time %d of %d: signature of vertex %ld is %.9g, expected %.9g", K, N, i, T, v, got, want);
            VH_CHECK(got > 0, "positive", "signature of vertex %ld is %g", v, got);
            if (i) VH_CHECK(got <= H(perm[(size_t)v], i - 1) * (1 + 1e-6) + 1e-12, "monotone", "signature of vertex %ld grows with time", v);
        }
    }
    if (worst > 1e-6) ctx.count("loose");
    ctx.count("compared", (uint64_t)N * (uint64_t)T);
    ctx.count(cot ? "cotangent" : "adjacent");
    ctx.eval();
    ctx.nontrivial(mix(s.hash(), (uint64_t)K * 64 + (uint64_t)T));
    if (id < 40) ctx.sample(fmt("%s: %ld vertices, K %d, %d times, largest relative difference %.2g", s.tag.c_str(), N, K, T, worst));
}
void vh::finish(Ctx &) {}
