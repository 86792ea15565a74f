// C20: corner angles, cotangents, dihedrals, rotations.
#include "geo.h"
#include "topo.h"
#include "core/utils.h"
#include <Eigen/Dense>
using namespace vh;

static LD angleAt(LP a, LP b, LP c) {
    LP u = a - b, v = c - b;
    return atan2l(len(cross(u, v)), dot(u, v));
}
static Eigen::Vector3d ev(const P &p) { return Eigen::Vector3d(p.x, p.y, p.z); }

static void angles(Ctx &ctx, Rng &rng) {
    P t[4];
    const double k = rng.chance(0.3) ? std::pow(10.0, rng.uni(-3, 3)) : 1;
    for (auto &p : t) p = P(rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1)) * k;
    const int kind = (int)rng.below(6);
    if (kind == 1) t[2] = t[1] + (t[0] - t[1]) * rng.uni(0.2, 3);   // folded corner
    if (kind == 2) t[2] = t[1] - (t[0] - t[1]) * rng.uni(0.2, 3);   // straight corner
    if (kind == 3) t[2] = t[0] + randUnit(rng) * (1e-4 * k);         // needle
    if (kind == 4)
        for (auto &p : t) p = P(rng.range(-2, 2), rng.range(-2, 2), rng.range(-2, 2));
    if (kind == 5) {  // right angle
        P e = randUnit(rng), f = unit(cross(e, randUnit(rng)));
        t[0] = t[1] + e * k;
        t[2] = t[1] + f * (k * rng.uni(0.3, 2));
    }
    const P a = t[0], b = t[1], c = t[2], d = t[3];
    const double L = std::max(len(a - b), std::max(len(b - c), len(c - a)));
    if (len(a - b) < 1e-6 * k || len(c - b) < 1e-6 * k) return;
    const LD want = angleAt(lp(a), lp(b), lp(c));
    const double got = angle(toV(a), toV(b), toV(c));
    VH_CHECK(std::fabs(got - (double)want) < 1e-9, "angle", "angle %.12g, expected %.12Lg", got, want);
    VH_CHECK(got >= 0 && got <= M_PI + 1e-12, "angle:range", "angle %g out of range", got);
    VH_CHECK(std::fabs(angle(toV(c), toV(b), toV(a)) - got) < 1e-9, "angle:symmetry", "angle is not symmetric");
    // cotangent, away from degenerate corners
    if (sinl(want) > 1e-3L) {
        const double w = (double)(cosl(want) / sinl(want));
        const double g = cot(toV(a), toV(b), toV(c));
        VH_CHECK(std::fabs(g - w) <= 1e-7 * (1 + std::fabs(w)), "cot", "cotangent %.12g, expected %.12g", g, w);
        VH_CHECK(std::fabs(cot(toV(c), toV(b), toV(a)) - g) <= 1e-7 * (1 + std::fabs(w)), "cot:symmetry", "cotangent is not symmetric");
        ctx.count("cotangents");
    }
    // obtuse, away from right angles
    if (len(cross(a - b, c - b)) > 1e-6 * L * L) {
        LD m = std::max(want, std::max(angleAt(lp(b), lp(c), lp(a)), angleAt(lp(c), lp(a), lp(b))));
        if (fabsl(m - M_PIl / 2) > 1e-6L) {
            const bool w = m > M_PIl / 2;
            const P q[3] = {a, b, c};
            for (int i = 0; i < 3; i++)
                for (int o = 0; o < 2; o++) {
                    const P &x = q[i], &y = q[(i + 1 + o) % 3], &z = q[(i + 2 - o) % 3];
                    VH_CHECK(obtuse(toV(x), toV(y), toV(z)) == w, "obtuse", "obtuse() = %d, largest angle %.9Lg", (int)!w, m);
                }
            ctx.count(w ? "obtuse" : "acute");
        }
    }
    // dihedral of (a,b,c) and (d,b,c): interior angle at the edge b-c
    {
        P a2 = a, d2 = d;
        const int cfg = (int)rng.below(4);
        const P e = c - b;
        if (cfg == 1) d2 = b + e * rng.uni(0, 1) - (a - b - e * (dot(a - b, e) / dot(e, e))) * rng.uni(0.5, 2);  // flat
        if (cfg == 2) d2 = b + e * rng.uni(0, 1) + (a - b - e * (dot(a - b, e) / dot(e, e))) * rng.uni(0.5, 2);  // folded
        const P h1 = a2 - b - e * (dot(a2 - b, e) / dot(e, e)), h2 = d2 - b - e * (dot(d2 - b, e) / dot(e, e));
        if (len(h1) > 1e-3 * len(e) && len(h2) > 1e-3 * len(e) && len(e) > 1e-3 * L) {
            const double w = std::atan2(len(cross(h1, h2)), dot(h1, h2));
            const double g = dihedral(toV(a2), toV(b), toV(c), toV(d2));
            VH_CHECK(std::fabs(g - w) < 1e-5, "dihedral", "dihedral angle %.9g, expected %.9g", g, w);
            VH_CHECK(g >= 0 && g <= M_PI + 1e-12, "dihedral:range", "dihedral angle %g out of range", g);
            VH_CHECK(std::fabs(dihedral(toV(d2), toV(b), toV(c), toV(a2)) - g) < 1e-5, "dihedral:symmetry", "dihedral is not symmetric in the triangles");
            VH_CHECK(std::fabs(dihedral(toV(a2), toV(c), toV(b), toV(d2)) - g) < 1e-5, "dihedral:symmetry", "dihedral is not symmetric in the edge's ends");
            ctx.count("dihedrals");
        }
    }
    ctx.eval();
    uint64_t q[3];
    memcpy(q, &c, 24);
    ctx.nontrivial(mix(q[0] ^ mix(q[1], q[2])));
}

static void rotations(Ctx &ctx, Rng &rng) {
    // axis-angle
    {
        const P ax = rng.chance(0.2) ? (rng.chance(0.5) ? P(0, 0, 1) : P(1, 0, 0)) : randUnit(rng);
        const double specials[] = {0, M_PI, -M_PI, M_PI / 2, 2 * M_PI, 1e-9};
        const double th = rng.chance(0.3) ? specials[rng.below(6)] : rng.uni(-7, 7);
        const EigenMatrix3 R = rotationAxisAngle(th, toV(ax));
        VH_CHECK((R * R.transpose() - EigenMatrix3::Identity()).norm() < 1e-12, "axis-angle:orthogonal", "not orthogonal");
        VH_CHECK(std::fabs(R.determinant() - 1) < 1e-12, "axis-angle:proper", "determinant %g", R.determinant());
        VH_CHECK((R * ev(ax) - ev(ax)).norm() < 1e-12, "axis-angle:axis", "axis is not fixed");
        const P u = unit(cross(ax, randUnit(rng))), v = cross(ax, u);
        const P w = u * std::cos(th) + v * std::sin(th);
        VH_CHECK((R * ev(u) - ev(w)).norm() < 1e-12, "axis-angle:angle", "a perpendicular vector is not turned by the angle %g", th);
        ctx.eval();
    }
    // between two vectors
    {
        P a = randUnit(rng), b = randUnit(rng);
        const char *kind = "random";
        switch (rng.below(7)) {
        case 0: b = a; kind = "equal"; break;
        case 1: b = a * -1; kind = "opposite"; break;
        case 2: b = unit(a + randUnit(rng) * std::pow(10.0, rng.uni(-9, -2))); kind = "near"; break;
        case 3: b = unit(a * -1 + randUnit(rng) * std::pow(10.0, rng.uni(-6, -2))); kind = "near-opposite"; break;
        case 4: {
            P ax[] = {P(1, 0, 0), P(0, 1, 0), P(0, 0, 1), P(-1, 0, 0), P(0, -1, 0), P(0, 0, -1)};
            a = ax[rng.below(6)];
            b = ax[rng.below(6)];
            kind = "axes";
            break;
        }
        default: break;
        }
        const P ua = a, ub = b;
        if (rng.chance(0.5)) {
            a = a * std::pow(10.0, rng.uni(-6, 6));
            b = b * std::pow(10.0, rng.uni(-6, 6));
        }
        const EigenMatrix3 R = rotationFromTwoVectors(toV(a), toV(b));
        const double s = len(cross(ua, ub));
        const double tol = 1e-9 + (s > 0 && dot(ua, ub) < 0 ? std::min(1e-2, 1e-14 / s) : 0);
        VH_CHECK((R * R.transpose() - EigenMatrix3::Identity()).norm() < 1e-9, "two-vectors:orthogonal", "rotation between %s vectors is not orthogonal", kind);
        VH_CHECK(std::fabs(R.determinant() - 1) < 1e-9, "two-vectors:proper", "determinant %g for %s vectors", R.determinant(), kind);
        VH_CHECK((R * ev(ua) - ev(ub)).norm() < tol, "two-vectors:image", "%s vectors: image is %g off the target direction", kind, (R * ev(ua) - ev(ub)).norm());
        ctx.count(std::string("rotations_") + kind);
        ctx.eval();
        // cross-product matrix
        const EigenMatrix3 K = matrixCrossProd(toV(a));
        const P w = randUnit(rng), c = cross(a, w);
        VH_CHECK((K * ev(w) - ev(c)).norm() <= 1e-12 * (len(a) + 1e-300), "cross-matrix", "cross-product matrix does not form the cross product");
        VH_CHECK((K + K.transpose()).norm() == 0, "cross-matrix", "cross-product matrix is not skew");
    }
}

static void svd(Ctx &ctx, Rng &rng) {
    const int m = rng.range(1, 6), n = rng.range(1, 6);
    EigenMatrix A(m, n), U, V;
    EigenVector S;
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) A(i, j) = rng.uni(-1, 1);
    if (rng.chance(0.3)) A.row(0).setZero();
    eigenSVD(A, U, S, V);
    VH_CHECK(U.rows() == m && U.cols() == m && V.rows() == n && V.cols() == n && S.size() == std::min(m, n), "svd:shape", "shapes of the decomposition");
    EigenMatrix D = EigenMatrix::Zero(m, n);
    for (int i = 0; i < S.size(); i++) {
        D(i, i) = S(i);
        VH_CHECK(S(i) >= 0 && (i == 0 || S(i) <= S(i - 1)), "svd:order", "singular values not sorted or negative");
    }
    VH_CHECK((U * D * V.transpose() - A).norm() < 1e-10, "svd:product", "U S V' is not the matrix");
    VH_CHECK((U.transpose() * U - EigenMatrix::Identity(m, m)).norm() < 1e-10 && (V.transpose() * V - EigenMatrix::Identity(n, n)).norm() < 1e-10, "svd:orthogonal", "factors not orthogonal");
    ctx.count("decompositions");
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    for (int k = 0; k < 60; k++) {
        angles(ctx, rng);
        rotations(ctx, rng);
    }
    svd(ctx, rng);
    if (id < 8) ctx.sample("60 corner/dihedral configurations (random, folded, straight, needle, lattice, right) and 60 rotations (random, equal, opposite, nearly so, axes)");
}
void vh::finish(Ctx &) {}
