// C28: curvature tensors, principal curvatures and directions.
#include "curv.h"
#include "edit.h"
#include "ops/ops.h"
using namespace vh;

static LV3 row(const EigenMatrix &m, size_t i) { return LV3(m((long)i, 0), m((long)i, 1), m((long)i, 2)); }

static void judge(Ctx &ctx, const Mesh &m, const Curv &c, const std::vector<LM3> &X, bool smooth) {
    const auto pc = tinymesh::getPrincipalCurvatures(m, smooth);
    const EigenVector &k1 = std::get<0>(pc), &k2 = std::get<1>(pc);
    const EigenMatrix &t1 = std::get<2>(pc), &t2 = std::get<3>(pc);
    const size_t nv = m.numVertices();
    VH_CHECK((size_t)k1.size() == nv && (size_t)k2.size() == nv && (size_t)t1.rows() == nv && (size_t)t2.rows() == nv && t1.cols() == 3 && t2.cols() == 3, "size", "results are not one per vertex");
    const LD tol = 1e-7L * c.scale;
    for (uint32_t v = 0; v < nv; v++) {
        const LD a = k1((long)v), b = k2((long)v);
        VH_CHECK(std::isfinite((double)a) && std::isfinite((double)b), "finite", "curvature of vertex %u is not finite", v);
        VH_CHECK(a >= b, "order", "curvatures of vertex %u: first %Lg < second %Lg", v, a, b);
        // trace and determinant of the tangent tensor
        const LD tr = X[v].trace(), fro = X[v].squaredNorm();
        VH_CHECK(fabsl(a + b - tr) <= tol, "trace", "vertex %u: curvatures %Lg, %Lg sum to %Lg, tensor's trace %Lg (smooth %d)", v, a, b, a + b, tr, (int)smooth);
        VH_CHECK(fabsl(a * a + b * b - fro) <= 10 * tol * (c.scale), "norm", "vertex %u: curvatures %Lg, %Lg, squares sum to %Lg, expected %Lg (smooth %d)", v, a, b, a * a + b * b, fro, (int)smooth);
        const LV3 p = row(t1, v), q = row(t2, v);
        const LD gap = a - b;
        const bool zero = p.norm() == 0 && q.norm() == 0;
        if (zero) {
            VH_CHECK(gap < 1e-6L + tol, "umbilic", "vertex %u: no directions although curvatures %Lg and %Lg differ", v, a, b);
            ctx.count("umbilics");
            continue;
        }
        VH_CHECK(gap > 1e-6L - tol, "umbilic", "vertex %u: directions given for equal curvatures %Lg and %Lg", v, a, b);
        VH_CHECK(fabsl(p.norm() - 1) <= 1e-9L && fabsl(q.norm() - 1) <= 1e-9L, "unit", "vertex %u: directions of length %Lg and %Lg", v, p.norm(), q.norm());
        VH_CHECK(fabsl(p.dot(c.n[v])) <= 1e-7L && fabsl(q.dot(c.n[v])) <= 1e-7L, "tangent", "vertex %u: directions leave the tangent plane by %Lg and %Lg", v, p.dot(c.n[v]), q.dot(c.n[v]));
        VH_CHECK(fabsl(p.dot(q)) <= 1e-9L, "orthogonal", "vertex %u: directions are not orthogonal (%Lg)", v, p.dot(q));
        VH_CHECK((X[v] * p - a * p).norm() <= 10 * tol && (X[v] * q - b * q).norm() <= 10 * tol, "eigen", "vertex %u: directions do not diagonalise the tensor: residuals %Lg and %Lg of %Lg (smooth %d)", v,
                 (X[v] * p - a * p).norm(), (X[v] * q - b * q).norm(), c.scale, (int)smooth);
        ctx.count("directions");
    }
    ctx.eval();
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s;
    int analytic = 0;  // 1 sphere, 2 torus
    double R = 0, q = 0;
    if (id % 5 == 4) {
        const double k = std::pow(10.0, rng.uni(-2, 2));
        if (rng.chance(0.5)) {
            analytic = 1;
            s = icosphere(rng.chance(0.3) ? 3 : 2);
            scale(s, k);
            R = k;
        } else {
            analytic = 2;
            q = rng.uni(0.3, 0.6);
            s = torus(rng.range(28, 36), rng.range(22, 28), 1, q);
            scale(s, k);
            R = k;
            q *= k;
        }
    } else {
        s = goodClosed(rng, rng.chance(0.3) ? 200 : 80, 0.1);
        if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-2, 2)));
    }
    const Rigid rb = randomRigid(rng, rng.chance(0.5) ? 0 : 1);
    std::vector<P> orig = s.V;
    apply(s, rb);
    if (!analytic) shuffleSoup(s, rng);
    const bool reversed = rng.chance(0.3);
    if (reversed)
        for (auto &f : s.F) std::swap(f[1], f[2]);
    auto m = build(s);
    Soup t = toSoup(*m);
    Curv c(t);
    if (!c.ok) throw Skip();
    ctx.stage("tensors");
    std::vector<EigenMatrix2> ts(3, EigenMatrix2::Ones());  // must be replaced
    std::vector<LocalFrame> fr;
    if (rng.chance(0.5)) {  // results of an earlier call are replaced
        ts.assign((size_t)rng.range(1, 200), EigenMatrix2::Constant(rng.uni(-3, 3)));
        fr.resize((size_t)rng.range(1, 200));
        ctx.count("reused");
    }
    tinymesh::getCurvatureTensors(*m, ts, fr);
    VH_CHECK(ts.size() == m->numVertices() && fr.size() == m->numVertices(), "size", "tensors or frames are not one per vertex");
    const LD tol = 1e-7L * c.scale;
    for (uint32_t v = 0; v < ts.size(); v++) {
        const LV3 u = ev(lp(toP(std::get<0>(fr[v])))), w = ev(lp(toP(std::get<1>(fr[v])))), n = ev(lp(toP(std::get<2>(fr[v]))));
        VH_CHECK((n - c.n[v]).norm() <= 1e-8L, "frame-normal", "frame of vertex %u does not hold its normal", v);
        VH_CHECK(fabsl(u.norm() - 1) < 1e-9L && fabsl(w.norm() - 1) < 1e-9L && fabsl(u.dot(w)) < 1e-9L && fabsl(u.dot(n)) < 1e-9L && fabsl(w.dot(n)) < 1e-9L, "frame", "frame of vertex %u is not orthonormal: lengths 1%+Lg, 1%+Lg, products %Lg, %Lg, %Lg", v, u.norm() - 1, w.norm() - 1, u.dot(w), u.dot(n), w.dot(n));
        VH_CHECK(u.cross(w).dot(n) > 0, "frame-hand", "frame of vertex %u is left-handed", v);
        const LD want[3] = {u.dot(c.T[v] * u), u.dot(c.T[v] * w), w.dot(c.T[v] * w)};
        const LD got[3] = {ts[v](0, 0), ts[v](0, 1), ts[v](1, 1)};
        VH_CHECK(ts[v](0, 1) == ts[v](1, 0), "symmetric", "tensor of vertex %u is not symmetric", v);
        for (int k = 0; k < 3; k++) VH_CHECK(fabsl(want[k] - got[k]) <= tol, "tensor", "tensor of vertex %u: entry %d is %Lg, expected %Lg (largest %Lg)", v, k, got[k], want[k], c.scale);
    }
    ctx.count("tensors", ts.size());
    ctx.stage("curvatures");
    judge(ctx, *m, c, c.T, false);
    c.smooth();
    if (!c.ok) throw Skip();
    ctx.stage("smoothed");
    judge(ctx, *m, c, c.Ts, true);
    if (analytic) {
        for (int sm = 0; sm < 2; sm++) {
            const auto pc = tinymesh::getPrincipalCurvatures(*m, sm == 1);
            const double sg = reversed ? -1 : 1;
            // numbering of the mesh follows the first use of vertices, so match by position
            std::map<P, size_t> at;
            for (size_t i = 0; i < s.V.size(); i++) at[s.V[i]] = i;
            for (size_t v = 0; v < m->numVertices(); v++) {
                double a = std::get<0>(pc)((long)v), b = std::get<1>(pc)((long)v);
                double hi, lo, tolr;
                if (analytic == 1) {
                    hi = lo = sg / R;
                    tolr = 0.06 / R;
                } else {
                    const P o = orig[at.at(toP(m->vertex((int)v)->pos()))];
                    const double rho = std::sqrt(o.x * o.x + o.y * o.y);
                    const double c2 = (rho - R) / q;
                    double ka = sg / q, kb = sg * c2 / rho;
                    hi = std::max(ka, kb);
                    lo = std::min(ka, kb);
                    tolr = 0.12 / q;
                }
                VH_CHECK(std::fabs(a - hi) <= tolr && std::fabs(b - lo) <= tolr, "analytic", "%s of radius %g%s: curvatures %g, %g at a vertex with %g, %g", analytic == 1 ? "sphere" : "torus", R,
                         reversed ? " (inside out)" : "", a, b, hi, lo);
            }
        }
        ctx.count(analytic == 1 ? "spheres" : "tori");
    }
    if (reversed) ctx.count("reversed");
    ctx.nontrivial(s.hash());
    if (id < 40) ctx.sample(fmt("%s, largest curvature entry %.3Lg", s.tag.c_str(), c.scale));
}
void vh::finish(Ctx &) {}
