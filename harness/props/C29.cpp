// C29: curvature derivatives, feature flags and feature line field.
#include "curv.h"
#include "edit.h"
#include "ops/ops.h"
using namespace vh;

static LV3 row(const EigenMatrix &m, size_t i) { return LV3(m((long)i, 0), m((long)i, 1), m((long)i, 2)); }

enum { NO = 1, YES = 2, MAYBE = 3 };
static int positive(LD x, LD eps) { return x > eps ? YES : x < -eps ? NO : MAYBE; }
static int both(int a, int b) { return (a == NO || b == NO) ? NO : (a == YES && b == YES) ? YES : MAYBE; }

struct Feat {
    const Soup &s;
    const Curv &c;
    const EigenVector &k1, &k2, &e1;
    const EigenMatrix &t1;
    bool amb = false;

    // what an edge is: 0 nothing, -1 ridge, 1 valley; sets amb when decided by rounding
    int edge(uint32_t i, uint32_t j) {
        const LD eps = 1e-9L;
        const LV3 p = ev(lp(s.V[i])), q = ev(lp(s.V[j]));
        const LD a1 = k1((long)i), a2 = k2((long)i), b1 = k1((long)j), b2 = k2((long)j);
        const int distinct = both(positive(a1 - a2 - 1e-2L, eps), positive(b1 - b2 - 1e-2L, eps));
        if (distinct == NO) return 0;
        const LV3 ti = row(t1, i);
        LV3 tj = row(t1, j);
        const LD ei = e1((long)i);
        LD ej = e1((long)j);
        const LD d = ti.dot(tj);
        const LD tiny = 1e-9L * (1e-30L + std::max(c.derivativeMagnitude(i), c.derivativeMagnitude(j)));
        const int ridgeK = both(positive(a1 - fabsl(a2), eps), positive(b1 - fabsl(b2), eps));
        const int valleyK = both(positive(fabsl(a2) - a1, eps), positive(fabsl(b2) - b1, eps));
        if (ridgeK == NO && valleyK == NO) return 0;
        if (fabsl(d) < 1e-7L || fabsl(ei) < tiny || fabsl(ej) < tiny) {
            amb = true;
            return 0;
        }
        if (d < 0) {
            tj = -tj;
            ej = -ej;
        }
        if ((ei > 0) == (ej > 0)) return 0;
        const LD l = (q - p).norm();
        const LD gi = (q - p).dot(ti), gj = (p - q).dot(tj);
        const int ci = fabsl(gi) < 1e-7L * l ? MAYBE : (gi > 0) == (ei > 0) ? YES : NO;
        const int cj = fabsl(gj) < 1e-7L * l ? MAYBE : (gj > 0) == (ej > 0) ? YES : NO;
        const auto inv = [](int x) { return x == YES ? NO : x == NO ? YES : MAYBE; };
        const int r = both(both(ridgeK, both(ci, cj)), distinct), v = both(both(valleyK, both(inv(ci), inv(cj))), distinct);
        if (r == MAYBE || v == MAYBE) amb = true;
        return r == YES ? -1 : v == YES ? 1 : 0;
    }
};

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s;
    const bool sphere = id % 8 == 7;
    if (sphere) {
        // radii for which all curvature differences are below the feature threshold
        s = icosphere(rng.range(0, 3));
        scale(s, rng.uni(20, 1000));
    } else if (id % 8 == 6) {
        s = goodClosed(rng, 60, 0.1);
        Soup t = rng.chance(0.5) ? icosphere(1) : goodClosed(rng, 60, 0.1);
        if (rng.chance(0.5)) scale(t, 100);
        P lo, hi;
        const double shift = 5 + 500 * rng.uni(0, 1);
        const uint32_t base = (uint32_t)s.V.size();
        for (P p : t.V) s.V.push_back({p.x + shift, p.y, p.z});
        for (Tri f : t.F) s.F.push_back({f[0] + base, f[1] + base, f[2] + base});
        s.tag += "+" + t.tag;
    } else {
        s = goodClosed(rng, rng.chance(0.3) ? 200 : 80, 0.1);
        if (rng.chance(0.7)) jitter(s, 0.05 * meanEdge(s), rng);
        if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-1, 1)));
    }
    apply(s, randomRigid(rng, rng.chance(0.5) ? 0 : 1));
    shuffleSoup(s, rng);
    auto m = build(s);
    Soup t = toSoup(*m);
    Curv c(t);
    if (!c.ok) throw Skip();
    const size_t nv = t.V.size();
    for (int sm = 0; sm < 2; sm++) {
        if (sm == 1) c.smooth();
        if (!c.ok) throw Skip();
        const std::vector<LM3> &X = sm == 1 ? c.Ts : c.T;
        ctx.stage("derivatives");
        const auto a = tinymesh::getPrincipalCurvatures(*m, sm == 1);
        const auto b = tinymesh::getPrincipalCurvaturesWithDerivatives(*m, sm == 1);
        const EigenVector &k1 = std::get<0>(b), &k2 = std::get<1>(b), &e1 = std::get<2>(b), &e2 = std::get<3>(b);
        const EigenMatrix &t1 = std::get<4>(b), &t2 = std::get<5>(b);
        VH_CHECK((size_t)k1.size() == nv && (size_t)k2.size() == nv && (size_t)e1.size() == nv && (size_t)e2.size() == nv && (size_t)t1.rows() == nv && (size_t)t2.rows() == nv && t1.cols() == 3 && t2.cols() == 3, "size",
                 "results are not one per vertex");
        for (uint32_t v = 0; v < nv; v++) {
            VH_CHECK(std::fabs(k1((long)v) - std::get<0>(a)((long)v)) <= 1e-9 * c.scale && std::fabs(k2((long)v) - std::get<1>(a)((long)v)) <= 1e-9 * c.scale, "same-curvatures", "curvatures of vertex %u differ between the variants", v);
            if (k1((long)v) - k2((long)v) > 1e-5 + 1e-4 * c.scale)
                VH_CHECK((row(t1, v) - row(std::get<2>(a), v)).norm() < 1e-9L && (row(t2, v) - row(std::get<3>(a), v)).norm() < 1e-9L, "same-directions", "directions of vertex %u differ between the variants", v);
        }
        c.derive(X);
        for (uint32_t v = 0; v < nv; v++) {
            const LV3 p = row(t1, v), q = row(t2, v);
            const LD w1 = c.derivative(v, p), w2 = c.derivative(v, q), tol = 1e-6L * c.derivativeMagnitude(v) + 1e-10L * c.scale;
            VH_CHECK(fabsl(e1((long)v) - w1) <= tol && fabsl(e2((long)v) - w2) <= tol, "derivative", "vertex %u: derivatives %g and %g, expected %Lg and %Lg (coefficients up to %Lg, smooth %d)", v, e1((long)v), e2((long)v), w1, w2,
                     c.derivativeMagnitude(v), sm);
            if (p.norm() > 0) ctx.count("derivatives");
        }

        ctx.stage("features");
        const auto ff = tinymesh::getFeatureLineFieldWithFlags(*m, sm == 1);
        const EigenMatrix &D = std::get<0>(ff);
        const EigenVector &flags = std::get<1>(ff);
        VH_CHECK((size_t)D.rows() == nv && D.cols() == 3 && (size_t)flags.size() == nv, "size", "feature field or flags are not one per vertex");
        for (uint32_t v = 0; v < nv; v++) {
            VH_CHECK(flags((long)v) == 0 || flags((long)v) == 1, "flag-value", "flag of vertex %u is %g", v, flags((long)v));
            const LD l = row(D, v).norm();
            VH_CHECK(l <= 1e-7L || fabsl(l - 1) < 1e-9L, "unit", "feature direction of vertex %u has length %Lg", v, l);
        }
        const EigenMatrix D2 = tinymesh::getFeatureLineField(*m, sm == 1);
        VH_CHECK(D2.rows() == D.rows() && D2.cols() == 3 && (nv == 0 || (D2 - D).cwiseAbs().maxCoeff() <= 1e-9), "same-field", "the field differs with and without flags");
        ctx.eval();

        Feat ft{t, c, k1, k2, e1, t1};
        std::map<std::pair<uint32_t, uint32_t>, int> ecache;
        std::map<std::pair<uint32_t, uint32_t>, size_t> faceOf;
        std::vector<int> kind(t.F.size(), 0);
        for (size_t f = 0; f < t.F.size(); f++) {
            int lo = 0, hi = 0;
            for (size_t k = 0; k < 3; k++) {
                const uint32_t i = t.F[f][k], j = t.F[f][(k + 1) % 3];
                faceOf[{i, j}] = f;
                const int x = ft.edge(i, j);
                lo = std::min(lo, x);
                hi = std::max(hi, x);
            }
            kind[f] = (lo < 0 && hi > 0) ? 0 : lo + hi;
        }
        if (ft.amb) {
            ctx.count("ambiguous");
            continue;
        }
        std::vector<LV3> dir(nv, LV3(0, 0, 0));
        std::vector<int> hit(nv, 0);
        for (size_t f = 0; f < t.F.size(); f++) {
            if (kind[f]) continue;
            int cnt = 0;
            size_t side = 0;
            std::set<size_t> ns;
            for (size_t k = 0; k < 3; k++) {
                const size_t g = faceOf.at({t.F[f][(k + 1) % 3], t.F[f][k]});
                if (kind[g]) cnt++, side = k, ns.insert(g);
            }
            if (cnt != 1) continue;
            const uint32_t i = t.F[f][side], j = t.F[f][(side + 1) % 3];
            const LV3 e = ev(lp(t.V[j])) - ev(lp(t.V[i]));
            const LV3 d = c.fn[f].cross(e).normalized() * (LD)kind[faceOf.at({j, i})];
            dir[i] += d;
            dir[j] += d;
            hit[i]++;
            hit[j]++;
        }
        size_t nflag = 0, npos = 0;
        for (uint32_t v = 0; v < nv; v++) {
            VH_CHECK((hit[v] > 0) == (flags((long)v) == 1), "flag", "vertex %u is %sflagged but has %d feature edges (smooth %d)", v, flags((long)v) == 1 ? "" : "not ", hit[v], sm);
            nflag += hit[v] > 0;
        }
        for (int k : kind) npos += k > 0;
        ctx.count("flagged", nflag);
        ctx.count("valley_triangles", npos);
        ctx.count(nflag ? "with_features" : "featureless");
        if (!nflag) {
            for (uint32_t v = 0; v < nv; v++) VH_CHECK(row(D, v).norm() == 0, "featureless", "no features but vertex %u has direction (%Lg, %Lg, %Lg)", v, row(D, v).x(), row(D, v).y(), row(D, v).z());
            continue;
        }
        // harmonic extension, per component; components without features stay zero
        std::vector<int> un(nv, -1);
        std::vector<uint32_t> list;
        {
            std::vector<char> seen(nv, 0);
            std::vector<uint32_t> todo;
            for (uint32_t v = 0; v < nv; v++)
                if (hit[v]) seen[v] = 1, todo.push_back(v);
            while (!todo.empty()) {
                const uint32_t v = todo.back();
                todo.pop_back();
                for (uint32_t u : c.r.nb[v])
                    if (!seen[u]) seen[u] = 1, todo.push_back(u);
            }
            for (uint32_t v = 0; v < nv; v++) {
                if (!seen[v]) {
                    VH_CHECK(row(D, v).norm() == 0, "featureless-part", "vertex %u of a component without features has a direction", v);
                    ctx.count("featureless_parts");
                } else if (!hit[v]) {
                    un[v] = (int)list.size();
                    list.push_back(v);
                }
            }
        }
        bool weak = false;
        for (uint32_t v = 0; v < nv; v++)
            if (hit[v]) {
                dir[v] /= (LD)hit[v];
                const LD l = dir[v].norm();
                if (l < 1e-6L) {
                    weak = true;
                    continue;
                }
                dir[v] /= l;
                VH_CHECK((row(D, v) - dir[v]).norm() < 1e-6L / l, "direction", "vertex %u: feature direction differs from the mean of its edges' perpendiculars (smooth %d)", v, sm);
                ctx.count("directions");
            }
        if (weak || list.empty()) {
            ctx.count("not_extended");
            continue;
        }
        typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> LMX;
        const long n = (long)list.size();
        LMX A = LMX::Zero(n, n), B = LMX::Zero(n, 3);
        for (long i = 0; i < n; i++) {
            const uint32_t v = list[(size_t)i];
            for (uint32_t u : c.r.nb[v]) {
                const LD w = c.r.cotW(v, u);
                A(i, i) += w;
                if (un[u] >= 0)
                    A(i, un[u]) -= w;
                else
                    B.row(i) += w * dir[u].transpose();
            }
        }
        Eigen::PartialPivLU<LMX> lu(A);
        if (lu.rcond() < 1e-5L) {
            ctx.count("ill_conditioned");
            continue;
        }
        const LMX Y = lu.solve(B);
        for (long i = 0; i < n; i++) {
            const LV3 y = Y.row(i).transpose();
            const LD l = y.norm();
            if (l < 1e-5L) continue;
            VH_CHECK((row(D, list[(size_t)i]) - y / l).norm() < 1e-6L + 1e-9L / l, "harmonic", "vertex %u: direction differs from the harmonic extension by %Lg (smooth %d)", list[(size_t)i], (row(D, list[(size_t)i]) - y / l).norm(), sm);
            ctx.count("extended");
        }
    }
    ctx.nontrivial(s.hash());
    if (id < 40) ctx.sample(fmt("%s, largest curvature entry %.3Lg", s.tag.c_str(), c.scale));
}
void vh::finish(Ctx &) {}
