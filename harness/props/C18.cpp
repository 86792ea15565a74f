// C18: vector arithmetic in all dimensions and precisions.
#include "vh.h"
#include <functional>
#include <limits>
#include <memory>
#include <sstream>
#include "core/vec.h"
using namespace vh;

template <class F>
static bool near(F a, F b, int ulps = 8) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= ulps * std::numeric_limits<F>::epsilon() * std::max(std::fabs(a), std::fabs(b)) + ulps * std::numeric_limits<F>::denorm_min();
}

template <class F>
static F value(Rng &rng) {
    switch (rng.below(9)) {
    case 0: return F(0);
    case 1: return F(-0.0);
    case 2: return F(rng.range(-4, 4));
    case 3: return F(rng.uni(-1, 1) * 1e6);
    case 4: return F(rng.uni(-1, 1) * 1e-6);
    case 5: return F(rng.chance(0.1) ? INFINITY : rng.chance(0.5) ? 3.5 : -2.25);
    default: return F(rng.uni(-10, 10));
    }
}

template <class F, int D>
static void one(Ctx &ctx, Rng &rng) {
    typedef Vec<F, D> V;
    typedef Eigen::Matrix<F, D, 1> E;
    // heap objects: memory beyond the components is guarded
    auto H = [](const F *x) {
        std::unique_ptr<V> p(new V());
        for (int i = 0; i < D; i++) (*p)[i] = x[i];
        return p;
    };
    F a[D], b[D], s = value<F>(rng);
    for (int i = 0; i < D; i++) {
        a[i] = value<F>(rng);
        b[i] = rng.chance(0.2) ? a[i] : value<F>(rng);
    }
    auto A = H(a), B = H(b);
    const V &u = *A, &v = *B;
    auto intact = [&]() {
        for (int i = 0; i < D; i++) {
            VH_CHECK(memcmp(&a[i], &(*A)[i], sizeof(F)) == 0, "operand", "an operation changed its left operand (dims %d)", D);
            VH_CHECK(memcmp(&b[i], &(*B)[i], sizeof(F)) == 0, "operand", "an operation changed its right operand (dims %d)", D);
        }
    };
    auto is = [&](const V &r, const std::function<F(int)> &want, const char *op) {
        for (int i = 0; i < D; i++)
            VH_CHECK(near<F>(r[i], want(i)), op, "%s, dims %d, component %d: %.17g, expected %.17g", op, D, i, (double)r[i], (double)want(i));
        intact();
    };
    is(u + v, [&](int i) { return a[i] + b[i]; }, "v+v");
    is(u - v, [&](int i) { return a[i] - b[i]; }, "v-v");
    is(u * v, [&](int i) { return a[i] * b[i]; }, "v*v");
    is(u * s, [&](int i) { return a[i] * s; }, "v*s");
    is(s * u, [&](int i) { return s * a[i]; }, "s*v");
    is(u - s, [&](int i) { return a[i] - s; }, "v-s");
    is(s - u, [&](int i) { return s - a[i]; }, "s-v");
    is(-u, [&](int i) { return -a[i]; }, "-v");
    is(std::abs(u), [&](int i) { return std::fabs(a[i]); }, "abs");
    is(std::min(u, v), [&](int i) { return a[i] < b[i] ? a[i] : b[i]; }, "min");
    is(std::max(u, v), [&](int i) { return a[i] > b[i] ? a[i] : b[i]; }, "max");
    is(V(), [&](int) { return F(0); }, "default");
    is(V(s), [&](int) { return s; }, "fill");
    {
        V x(u);
        is(x, [&](int i) { return a[i]; }, "copy");
        x = v;
        is(x, [&](int i) { return b[i]; }, "assign");
        x[D - 1] = F(42);
        intact();
    }
    // component constructor
    {
        std::unique_ptr<V> p(D == 2 ? new V(a[0], a[1]) : D == 3 ? new V(a[0], a[1], a[D > 2 ? 2 : 0]) : new V(a[0], a[1], a[D > 2 ? 2 : 0], a[D > 3 ? 3 : 0]));
        for (int i = 0; i < std::min(D, 4); i++)
            VH_CHECK(near<F>((*p)[i], a[i], 0), "components", "component %d of a vector of dims %d built from components is %g, not %g", i, D, (double)(*p)[i], (double)a[i]);
        std::unique_ptr<V> q(new V(a[0], a[1]));
        VH_CHECK(near<F>((*q)[0], a[0], 0) && near<F>((*q)[1], a[1], 0), "components", "two-component construction, dims %d", D);
        for (int i = 2; i < std::min(D, 4); i++) VH_CHECK((*q)[i] == F(0), "components", "omitted component %d is not zero", i);
        VH_CHECK(near<F>(p->x(), a[0], 0) && near<F>(p->y(), a[1], 0), "accessors", "x() or y() is not its component");
        if constexpr (D >= 3) VH_CHECK(near<F>(p->z(), a[2], 0), "accessors", "z() is not its component");
        if constexpr (D >= 4) VH_CHECK(near<F>(p->w(), a[3], 0), "accessors", "w() is not its component");
    }
    // compound forms, also aliasing
    auto comp = [&](const std::function<void(V &)> &f, const std::function<F(int)> &want, const char *op) {
        V x(u);
        f(x);
        is(x, want, op);
    };
    comp([&](V &x) { VH_CHECK(&(x += v) == &x, "chain", "+= does not return its target"); }, [&](int i) { return a[i] + b[i]; }, "+=");
    comp([&](V &x) { VH_CHECK(&(x -= v) == &x, "chain", "-= does not return its target"); }, [&](int i) { return a[i] - b[i]; }, "-=");
    comp([&](V &x) { VH_CHECK(&(x *= v) == &x, "chain", "*= does not return its target"); }, [&](int i) { return a[i] * b[i]; }, "*=");
    comp([&](V &x) { x *= s; }, [&](int i) { return a[i] * s; }, "*=s");
    comp([&](V &x) { x += x; }, [&](int i) { return a[i] + a[i]; }, "x+=x");
    comp([&](V &x) { x -= x; }, [&](int i) { return a[i] - a[i]; }, "x-=x");
    comp([&](V &x) { x *= x; }, [&](int i) { return a[i] * a[i]; }, "x*=x");
    comp([&](V &x) { x = x; }, [&](int i) { return a[i]; }, "x=x");
    // division
    auto throws = [&](const std::function<void()> &f) {
        try {
            f();
        } catch (const std::exception &) {
            return true;
        }
        return false;
    };
    bool zero = false, azero = false;
    for (int i = 0; i < D; i++) {
        zero |= b[i] == 0;
        azero |= a[i] == 0;
    }
    if (zero) {
        VH_CHECK(throws([&]() { V r(u / v); }), "division-by-zero", "vector with a zero component divides silently (dims %d)", D);
        VH_CHECK(throws([&]() { V r(u); r /= v; }), "division-by-zero", "/= by a vector with a zero component is silent (dims %d)", D);
        intact();
        ctx.count("zero_divisions");
    } else {
        is(u / v, [&](int i) { return a[i] / b[i]; }, "v/v");
        comp([&](V &x) { x /= v; }, [&](int i) { return a[i] / b[i]; }, "/=");
    }
    if (!azero) comp([&](V &x) { x /= x; }, [&](int i) { return a[i] / a[i]; }, "x/=x");
    if (s == 0) {
        VH_CHECK(throws([&]() { V r(u / s); }), "division-by-zero", "division by scalar zero is silent");
        VH_CHECK(throws([&]() { V r(u); r /= s; }), "division-by-zero", "/= by scalar zero is silent");
        ctx.count("zero_divisions");
    } else {
        is(u / s, [&](int i) { return a[i] / s; }, "v/s");
        comp([&](V &x) { x /= s; }, [&](int i) { return a[i] / s; }, "/=s");
    }
    // comparison and hash
    bool eq = true;
    for (int i = 0; i < D; i++) eq &= a[i] == b[i];
    VH_CHECK((u == v) == eq && (u != v) == !eq, "comparison", "== or != is not componentwise (dims %d)", D);
    {
        V w(u);
        for (int i = 0; i < D; i++)
            if (w[i] == 0) w[i] = -w[i];
        VH_CHECK(w == u && !(w != u), "comparison", "signed zeros are not equal");
        VH_CHECK(std::hash<V>()(w) == std::hash<V>()(u), "hash", "equal vectors with signed zeros hash differently (dims %d)", D);
        VH_CHECK(std::hash<V>()(V(u)) == std::hash<V>()(u), "hash", "equal vectors hash differently (dims %d)", D);
        int k = (int)rng.below(D);
        V z(u);
        z[k] = a[k] == F(7) ? F(8) : F(7);
        VH_CHECK(z != u && !(z == u), "comparison", "vectors differing in component %d of %d are equal", k, D);
    }
    // products; tolerance relative to the sum of magnitudes
    {
        F dsum = 0;
        long double want = 0, mag = 0;
        bool fin = true;
        for (int i = 0; i < D; i++) {
            want += (long double)a[i] * b[i];
            mag += fabsl((long double)a[i] * b[i]);
            fin &= std::isfinite(a[i]) && std::isfinite(b[i]);
        }
        dsum = dot(u, v);
        if (fin) {
            VH_CHECK(fabsl(dsum - want) <= 8 * D * std::numeric_limits<F>::epsilon() * mag + 1e-30L, "dot", "dot, dims %d: %.17g, expected %.17g", D, (double)dsum, (double)want);
            long double l2 = 0;
            for (int i = 0; i < D; i++) l2 += (long double)a[i] * a[i];
            long double L = sqrtl(l2);
            VH_CHECK(fabsl(length(u) - L) <= 16 * std::numeric_limits<F>::epsilon() * L, "length", "length, dims %d: %.17g, expected %.17g", D, (double)length(u), (double)L);
            if (L > 0) {
                V nn = normalize(u);
                for (int i = 0; i < D; i++)
                    VH_CHECK(fabsl(nn[i] - a[i] / L) <= 32 * std::numeric_limits<F>::epsilon(), "normalize", "normalize, dims %d, component %d: %.17g, expected %.17g", D, i, (double)nn[i], (double)(a[i] / L));
            } else {
                VH_CHECK(throws([&]() { V r(normalize(u)); }), "division-by-zero", "normalising the zero vector is silent");
            }
            if constexpr (D == 3) {
                V c = cross(u, v);
                for (int i = 0; i < 3; i++) {
                    int j = (i + 1) % 3, k = (i + 2) % 3;
                    long double w = (long double)a[j] * b[k] - (long double)a[k] * b[j];
                    long double m = fabsl((long double)a[j] * b[k]) + fabsl((long double)a[k] * b[j]);
                    VH_CHECK(fabsl(c[i] - w) <= 8 * std::numeric_limits<F>::epsilon() * m + 1e-30L, "cross", "cross component %d: %.17g, expected %.17g", i, (double)c[i], (double)w);
                }
            }
        }
        intact();
    }
    // linear-algebra conversions
    {
        E e = u;
        for (int i = 0; i < D; i++) VH_CHECK(near<F>(e(i), a[i], 0), "convert", "conversion changes component %d", i);
        V w(e);
        is(w, [&](int i) { return a[i]; }, "from matrix");
        V x;
        x = e;
        is(x, [&](int i) { return a[i]; }, "assign matrix");
        Eigen::Matrix<F, D, D> M;
        bool fin = true;
        for (int i = 0; i < D; i++)
            for (int j = 0; j < D; j++) M(i, j) = F(rng.range(-3, 3));
        for (int i = 0; i < D; i++) fin &= std::isfinite(a[i]);
        if (fin) {
            V r = M * u;
            for (int i = 0; i < D; i++) {
                long double w2 = 0, m = 0;
                for (int j = 0; j < D; j++) {
                    w2 += (long double)M(i, j) * a[j];
                    m += fabsl((long double)M(i, j) * a[j]);
                }
                VH_CHECK(fabsl(r[i] - w2) <= 8 * D * std::numeric_limits<F>::epsilon() * m + 1e-30L, "matrix", "matrix times vector, component %d", i);
            }
        }
    }
    // text form: the components in order
    {
        std::ostringstream os;
        os << u;
        std::string t = os.str(), want;
        std::ostringstream ws;
        for (int i = 0; i < D; i++) {
            std::ostringstream c;
            c << a[i];
            size_t at = t.find(c.str());
            VH_CHECK(at != std::string::npos, "text", "printed vector lacks component %d: %s", i, t.c_str());
            t = t.substr(at + c.str().size());
        }
    }
    ctx.eval();
    uint64_t h = (uint64_t)D * 2 + sizeof(F);
    for (int i = 0; i < D; i++) h = mix(h, (uint64_t)std::hash<F>()(a[i]) ^ mix((uint64_t)std::hash<F>()(b[i])));
    ctx.nontrivial(h);
    ctx.count(fmt("%s%d", sizeof(F) == 4 ? "float" : "double", D));
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    for (int k = 0; k < 20; k++) {
        one<double, 2>(ctx, rng);
        one<double, 3>(ctx, rng);
        one<double, 4>(ctx, rng);
        one<double, 5>(ctx, rng);
        one<double, 7>(ctx, rng);
        one<float, 2>(ctx, rng);
        one<float, 3>(ctx, rng);
        one<float, 4>(ctx, rng);
        one<float, 6>(ctx, rng);
    }
    if (id < 8) ctx.sample("20 operand pairs per type: double 2,3,4,5,7 and float 2,3,4,6 dims; zeros, negative zeros, infinities, equal components, aliasing");
}
void vh::finish(Ctx &) {}
