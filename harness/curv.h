// Reference evaluation of per-vertex curvature tensors and their derivatives
// (least-squares fit per triangle, carried to the vertices by rotating normals
// onto each other, averaged by Voronoi shares), in long double.
#pragma once
#include <Eigen/Dense>

#include "ref.h"

namespace vh {

typedef Eigen::Matrix<long double, 3, 3> LM3;
typedef Eigen::Matrix<long double, 2, 2> LM2;
typedef Eigen::Matrix<long double, 3, 1> LV3;
typedef Eigen::Matrix<long double, 4, 1> LV4;

inline LV3 ev(const LP &p) { return LV3(p.x, p.y, p.z); }
inline LM3 turn(const LV3 &a, const LV3 &b) {  // unit a onto unit b
    const LV3 c = a.cross(b);
    const LD d = a.dot(b);
    LM3 K;
    K << 0, -c.z(), c.y(), c.z(), 0, -c.x(), -c.y(), c.x(), 0;
    return LM3::Identity() + K + K * K / (1 + d);
}

struct Curv {
    Ref r;
    bool ok = true;                 // normals well defined, no near-opposite normals
    std::vector<LV3> n, fn, fu, fv;
    std::vector<LM3> T;             // tangent tensors of the vertices
    std::vector<LM3> Ts;            // smoothed once
    std::vector<LV4> facC;          // derivative coefficients per triangle in (fu, fv)
    LD scale = 0;                   // largest tensor entry

    explicit Curv(const Soup &s) : r(s) {
        const size_t nv = s.V.size(), nf = s.F.size();
        for (uint32_t v = 0; v < nv; v++) {
            LP x = r.vertexNormal(v);
            // sums that cancel are not judged
            LD mag = 0;
            for (size_t f : r.fs[v]) {
                auto o = r.others(f, v);
                LP a = r.p(o.first) - r.p(v), b = r.p(o.second) - r.p(v);
                mag += len(cross(a, b)) / (dot(a, a) * dot(b, b));
            }
            if (!(len(x) > 0.05L * mag)) {
                ok = false;
                n.push_back(LV3(0, 0, 1));
                continue;
            }
            n.push_back(ev(x).normalized());
        }
        std::vector<LM3> Tf(nf);
        for (size_t f = 0; f < nf; f++) {
            const Tri &t = s.F[f];
            const LV3 p0 = ev(r.p(t[0])), p1 = ev(r.p(t[1])), p2 = ev(r.p(t[2]));
            const LV3 e[3] = {p2 - p1, p0 - p2, p1 - p0};
            fn.push_back((p1 - p0).cross(p2 - p0).normalized());
            fu.push_back(e[0].normalized());
            fv.push_back(fn[f].cross(fu[f]));
            Eigen::Matrix<long double, 6, 3> A;
            Eigen::Matrix<long double, 6, 1> b;
            for (int k = 0; k < 3; k++) {
                const LV3 dn = n[t[(size_t)(k + 2) % 3]] - n[t[(size_t)(k + 1) % 3]];
                const LD u = e[k].dot(fu[f]), v = e[k].dot(fv[f]);
                A.row(2 * k) << u, v, 0;
                A.row(2 * k + 1) << 0, u, v;
                b(2 * k) = dn.dot(fu[f]);
                b(2 * k + 1) = dn.dot(fv[f]);
            }
            const LV3 x = A.colPivHouseholderQr().solve(b);
            Tf[f] = x(0) * fu[f] * fu[f].transpose() + x(1) * (fu[f] * fv[f].transpose() + fv[f] * fu[f].transpose()) + x(2) * fv[f] * fv[f].transpose();
        }
        for (uint32_t v = 0; v < nv; v++) {
            LM3 M = LM3::Zero();
            LD w = 0;
            for (size_t f : r.fs[v]) {
                if (n[v].dot(fn[f]) < -0.7L) ok = false;
                const LM3 R = turn(n[v], fn[f]);
                const LD a = r.faceShare(f, v);
                M += a * (R.transpose() * Tf[f] * R);
                w += a;
            }
            T.push_back(M / w);
            scale = std::max(scale, T.back().cwiseAbs().maxCoeff());
        }
    }
    void smooth() {
        const LD avg = r.meanEdgeLength();
        for (uint32_t v = 0; v < T.size(); v++) {
            LM3 M = T[v];
            LD w = 1;
            for (uint32_t j : r.nb[v]) {
                if (n[v].dot(n[j]) < -0.7L) ok = false;
                const LD d = len(r.p(v) - r.p(j)) / avg, x = expl(-d * d / 2);
                const LM3 R = turn(n[v], n[j]);
                M += x * (R.transpose() * T[j] * R);
                w += x;
            }
            Ts.push_back(M / w);
        }
    }
    // derivatives of the given tensors, per triangle
    void derive(const std::vector<LM3> &X) {
        facC.clear();
        for (size_t f = 0; f < r.s.F.size(); f++) {
            const Tri &t = r.s.F[f];
            LV3 m[3];
            for (int k = 0; k < 3; k++) {
                const uint32_t v = t[(size_t)k];
                const LM3 R = turn(fn[f], n[v]);
                const LV3 a = R * fu[f], b = R * fv[f];
                m[k] << a.dot(X[v] * a), a.dot(X[v] * b), b.dot(X[v] * b);
            }
            const LV3 p0 = ev(r.p(t[0])), p1 = ev(r.p(t[1])), p2 = ev(r.p(t[2]));
            const LV3 e[3] = {p2 - p1, p0 - p2, p1 - p0};
            // rows: dE = a u + b v, 2 dF = 2 (b u + c v) counted twice, dG = c u + d v
            Eigen::Matrix<long double, 4, 4> A = Eigen::Matrix<long double, 4, 4>::Zero();
            LV4 b = LV4::Zero();
            for (int k = 0; k < 3; k++) {
                const LV3 d = m[(k + 2) % 3] - m[(k + 1) % 3];
                const LD u = e[k].dot(fu[f]), v = e[k].dot(fv[f]);
                LV4 re(u, v, 0, 0), rf(0, u, v, 0), rg(0, 0, u, v);
                A += re * re.transpose() + 2 * rf * rf.transpose() + rg * rg.transpose();
                b += re * d(0) + 2 * rf * d(1) + rg * d(2);
            }
            facC.push_back(A.ldlt().solve(b));
        }
    }
    static LD third(const LV4 &c, LD a, LD b) { return c(0) * a * a * a + 3 * c(1) * a * a * b + 3 * c(2) * a * b * b + c(3) * b * b * b; }
    // derivative of the curvature in direction t, along t
    LD derivative(uint32_t v, const LV3 &t) const {
        LD s = 0, w = 0;
        for (size_t f : r.fs[v]) {
            const LV3 q = turn(n[v], fn[f]) * t;
            const LD a = r.faceShare(f, v);
            s += a * third(facC[f], q.dot(fu[f]), q.dot(fv[f]));
            w += a;
        }
        return s / w;
    }
    LD derivativeMagnitude(uint32_t v) const {
        LD s = 0;
        for (size_t f : r.fs[v]) s = std::max(s, facC[f].cwiseAbs().maxCoeff());
        return s;
    }
};

}  // namespace vh
