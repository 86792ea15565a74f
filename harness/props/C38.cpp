// C38: the Python module does what the C++ interface does.
#include <pybind11/embed.h>
#include <pybind11/stl.h>

#include <random>

#include "edit.h"
#include "filters/filters.h"
#include "ops/ops.h"
#include "ref.h"
#include "remesh/remesh.h"
#include "restore/restore.h"
using namespace vh;
using namespace tinymesh;
namespace py = pybind11;

// both sides of a comparison see the same random numbers
static uint64_t g_order = 1;
unsigned int std::random_device::_M_getval() { return (unsigned int)(g_order = mix(g_order)); }

extern "C" PyObject *PyInit_tinymesh();

// Python side of the comparison.  Everything crosses the border as plain lists of numbers.
static const char *kPrelude = R"PY(
import sys, gc, math
import numpy as np
import scipy.sparse
import tinymesh as tm

def points(form, vs):
    if form == 0: return [list(v) for v in vs]
    if form == 1: return [tuple(v) for v in vs]
    if form == 2: return [np.array(v, dtype=np.float64) for v in vs]
    if form == 3: return list(np.array(vs, dtype=np.float64))
    if form == 4: return list(np.array(vs, dtype=np.float64, order='F'))
    a = np.zeros((len(vs), 6)); a[:, ::2] = np.array(vs)
    return [r[::2] for r in a]

def numbers(form, ix):
    if form == 0: return list(ix)
    if form == 1: return tuple(ix)
    if form == 2: return list(np.array(ix, dtype=np.uint32))
    return list(np.array(ix, dtype=np.int64))

def state(m):
    assert len(m.get_vertices()) == m.num_vertices()
    return [[float(x) for v in m.get_vertices() for x in v], [int(i) for i in m.get_vertex_indices()],
            [m.num_vertices(), m.num_edges(), m.num_halfedges(), m.num_faces(), int(m.verify())]]

def flat(x):
    if isinstance(x, tuple): return [y for z in x for y in flat(z)]
    if scipy.sparse.issparse(x): x = x.toarray()
    return [float(y) for y in np.asarray(x, dtype=np.float64).reshape(-1)]

def call(f, args, names, style, n):
    # style 0: by position, 1: by name, 2: mixed; only the first n optional arguments are given
    args, names = args[:n], names[:n]
    if style == 0: return f(*args)
    if style == 1: return f(**dict(zip(names, args)))
    k = max(1, len(args) // 2)
    return f(*args[:k], **dict(zip(names[k:], args[k:])))

def attempt(f):
    try:
        f()
    except RuntimeError as e:
        return 'RuntimeError' if type(e) is RuntimeError and str(e) else 'odd ' + repr(e)
    except Exception as e:
        return type(e).__name__
    return 'none'
)PY";

static py::dict &globals() {
    static py::dict *g = nullptr;
    if (!g) {
        // numpy's own thread pools are of no interest here
        setenv("OPENBLAS_NUM_THREADS", "1", 1);
        PyImport_AppendInittab("tinymesh", &PyInit_tinymesh);
        py::initialize_interpreter(false);
        g = new py::dict(py::module_::import("__main__").attr("__dict__"));
        py::exec(kPrelude, *g);
    }
    return *g;
}
static void ex(const std::string &code) {
    try {
        py::exec(code, globals());
    } catch (py::error_already_set &e) {
        throw Violation("python-exception", fmt("%s: %s", code.substr(0, 200).c_str(), e.what()));
    }
}
static std::vector<double> nums(const std::string &expr) {
    try {
        return py::eval(expr, globals()).cast<std::vector<double>>();
    } catch (py::error_already_set &e) {
        throw Violation("python-exception", fmt("%s: %s", expr.c_str(), e.what()));
    } catch (py::cast_error &e) {
        throw Violation("python-type", fmt("%s is not a list of numbers", expr.c_str()));
    }
}
static std::string str(const std::string &expr) {
    try {
        return py::eval(expr, globals()).cast<std::string>();
    } catch (py::error_already_set &e) {
        throw Violation("python-exception", fmt("%s: %s", expr.c_str(), e.what()));
    }
}
static bool same(double a, double b, double tol) {
    if (std::isnan(a) && std::isnan(b)) return true;
    return a == b || std::abs(a - b) <= tol * (1 + std::abs(a));
}
static void compare(const std::vector<double> &got, const std::vector<double> &want, double tol, const char *key, const char *what) {
    VH_CHECK(got.size() == want.size(), key, "%s: %zu numbers in Python, %zu in C++", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
        VH_CHECK(same(got[i], want[i], tol), key, "%s: number %zu is %.17g in Python, %.17g in C++", what, i, got[i], want[i]);
}
static std::vector<double> coords(const Mesh &m) {
    std::vector<double> r;
    for (size_t i = 0; i < m.numVertices(); i++)
        for (int k = 0; k < 3; k++) r.push_back(m.vertex((int)i)->pos()[k]);
    return r;
}
static std::vector<double> tris(const Mesh &m) {
    std::vector<double> r;
    for (uint32_t i : m.getVertexIndices()) r.push_back(i);
    return r;
}
static void compareState(const Mesh &m, double tol, const char *what, const char *var = "m") {
    ex(std::string("st = state(") + var + ")");
    compare(nums("st[0]"), coords(m), tol, "positions", what);
    compare(nums("st[1]"), tris(m), 0, "triangles", what);
    compare(nums("st[2]"), {(double)m.numVertices(), (double)m.numEdges(), (double)m.numHalfedges(), (double)m.numFaces(), (double)m.verify()}, 0, "counts", what);
}
static std::vector<double> flat(const EigenMatrix &m) {
    std::vector<double> r;
    for (long i = 0; i < m.rows(); i++)
        for (long j = 0; j < m.cols(); j++) r.push_back(m(i, j));
    return r;
}
static void add(std::vector<double> &r, const EigenMatrix &m) {
    const auto f = flat(m);
    r.insert(r.end(), f.begin(), f.end());
}

// One module function: optional arguments with their values, and the C++ call for it.
struct Arg {
    const char *name;
    double value, def;
    bool integer;
};
struct Fun {
    const char *name;
    bool closed;    // for closed meshes only
    std::vector<Arg> args;
    double tol;
    std::function<void(Mesh &, const std::vector<double> &, std::vector<double> &)> run;
};
static std::vector<Fun> functions(Rng &r, const Mesh &m) {
    const int nf = (int)m.numFaces();
    return {
        {"smooth_laplacian", false, {{"epsilon", r.uni(0.1, 1), 1.0, false}, {"cotangent_weight", 0, 0, true}, {"iterations", (double)r.range(0, 4), 3, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { smoothLaplacian(m, a[0], a[1] != 0, (int)a[2]); }},
        {"smooth_laplacian", true, {{"epsilon", r.uni(0.1, 0.5), 1.0, false}, {"cotangent_weight", 1, 0, true}, {"iterations", (double)r.range(0, 2), 3, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { smoothLaplacian(m, a[0], a[1] != 0, (int)a[2]); }},
        {"smooth_taubin", false, {{"shrink", r.uni(0.1, 0.9), 0.5, false}, {"inflate", r.uni(0.1, 0.9), 0.53, false}, {"iterations", (double)r.range(0, 4), 3, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { smoothTaubin(m, a[0], a[1], (int)a[2]); }},
        {"implicit_fairing", true, {{"epsilon", r.uni(0.01, 1), 1.0, false}, {"iterations", (double)r.range(0, 3), 1, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { implicitFairing(m, a[0], (int)a[1]); }},
        {"denoise_normal_gaussian", true, {{"sigma", r.uni(0.2, 1), 0.2, false}, {"iterations", (double)r.range(0, 4), 3, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { denoiseNormalGaussian(m, a[0], (int)a[1]); }},
        {"denoise_normal_bilateral", true, {{"sigma_c", r.uni(0.2, 1), 0.2, false}, {"sigma_s", r.uni(0.1, 1), 0.1, false}, {"iterations", (double)r.range(0, 4), 3, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { denoiseNormalBilateral(m, a[0], a[1], (int)a[2]); }},
        // sums over edges in the order of their addresses
        {"denoise_l0_smooth", true, {{"alpha", r.uni(0.05, 0.2), 0.1, false}, {"beta", r.uni(0.0005, 0.01), 0.001, false}}, 1e-4,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { denoiseL0Smooth(m, a[0], a[1]); }},
        {"remesh_triangular", true, {{"short_length", r.uni(0.5, 0.8), 0.8, false}, {"long_length", r.uni(1.3, 2), 1.333, false}, {"angle_keep_less_than", r.chance(0.5) ? 0.0 : r.uni(0, 2.5), 0.0, false}, {"iterations", (double)r.range(0, 3), 5, true}, {"verbose", 0, 0, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { remeshTriangular(m, a[0], a[1], a[2], (int)a[3], a[4] != 0); }},
        {"simplify_qem", true, {{"n_triangles", (double)r.range(std::max(1, nf / 3), nf + 4), NAN, true}, {"n_trials", (double)r.range(1, 12), 10, true}, {"verbose", 0, 0, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &) { simplifyQEM(m, (int)a[0], (int)a[1], a[2] != 0); }},
        {"get_principal_curvatures", true, {{"smooth_tensors", (double)r.range(0, 1), 0, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &o) {
             const auto c = getPrincipalCurvatures(m, a[0] != 0);
             add(o, std::get<0>(c)), add(o, std::get<1>(c)), add(o, std::get<2>(c)), add(o, std::get<3>(c));
         }},
        {"get_principal_curvatures_with_derivatives", true, {{"smooth_tensors", (double)r.range(0, 1), 0, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &o) {
             const auto c = getPrincipalCurvaturesWithDerivatives(m, a[0] != 0);
             add(o, std::get<0>(c)), add(o, std::get<1>(c)), add(o, std::get<2>(c)), add(o, std::get<3>(c)), add(o, std::get<4>(c)), add(o, std::get<5>(c));
         }},
        {"get_feature_line_field", true, {{"smooth_tensors", (double)r.range(0, 1), 0, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &o) { add(o, getFeatureLineField(m, a[0] != 0)); }},
        {"get_feature_line_field_with_flags", true, {{"smooth_tensors", (double)r.range(0, 1), 0, true}}, 0,
         [](Mesh &m, const std::vector<double> &a, std::vector<double> &o) {
             const auto c = getFeatureLineFieldWithFlags(m, a[0] != 0);
             add(o, std::get<0>(c)), add(o, std::get<1>(c));
         }},
    };
}

// Calls of C++ code may throw in the Python configuration; then Python has to see an exception, too.
static bool threw(const std::function<void()> &f) {
    try {
        f();
    } catch (const Violation &) {
        throw;
    } catch (const std::exception &) {
        return true;
    }
    return false;
}
static std::string lit(double v, bool integer) { return integer ? fmt("%d", (int)v) : fmt("%.17g", v); }

static void makeBoth(const Soup &s, Rng &rng, std::unique_ptr<Mesh> &m) {
    py::list vs, ix;
    for (auto &p : s.V) {
        py::list v;
        v.append(p.x), v.append(p.y), v.append(p.z);
        vs.append(v);
    }
    for (auto &t : s.F)
        for (uint32_t i : t) ix.append((unsigned)i);
    globals()["vs"] = vs;
    globals()["ix"] = ix;
    ex(fmt("m = tm.Mesh(points(%d, vs), numbers(%d, ix))", rng.range(0, 5), rng.range(0, 3)));
    m = build(s);
    compareState(*m, 0, "constructed mesh");
}

static bool chordless(Face *f) {
    std::vector<const Vertex *> l;
    const Halfedge *h0 = f->he_begin().ptr(), *h = h0;
    do {
        l.push_back(h->src());
        h = h->next();
    } while (h != h0);
    const size_t n = l.size();
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 2; j < n; j++)
            if (!(i == 0 && j == n - 1) && adjacent(l[i], l[j])) return false;
    return true;
}

static void elements(Ctx &ctx, Mesh &m, Rng &rng, bool closed) {
    for (int k = 0; k < 6; k++) {
        const int i = (int)rng.below(m.numVertices());
        Vertex *v = m.vertex(i);
        ex(fmt("v = m.vertex(%d)", i));
        compare(nums("flat(v.pos())"), {v->pos()[0], v->pos()[1], v->pos()[2]}, 0, "vertex", "pos");
        VH_CHECK(nums("[v.is_boundary(), v.is_locked()]") == (std::vector<double>{(double)v->isBoundary(), (double)v->isLocked()}), "vertex", "flags of a vertex differ");
        if (closed) {
            Vec3 n;
            const bool bad = threw([&] { n = v->normal(); });
            ex("t = attempt(lambda: v.normal())");
            VH_CHECK((str("t") != "none") == bad, "vertex", "normal: %s in Python", str("t").c_str());
            if (!bad) {
                compare(nums("flat(v.normal())"), {n[0], n[1], n[2]}, 0, "vertex", "normal");
                compare(nums("[v.K(), v.H()]"), {v->K(), v->H()}, 0, "vertex", "curvatures");
            }
        }
        switch (rng.range(0, 3)) {
        case 0:
            ex("v.lock()");
            v->lock();
            break;
        case 1:
            ex("v.unlock()");
            v->unlock();
            break;
        case 2: {
            const Vec3 p(rng.range(-8, 8) / 8.0, rng.range(-8, 8) / 8.0, rng.range(-8, 8) / 8.0), old = v->pos();
            static const char *forms[] = {"[%g, %g, %g]", "(%g, %g, %g)", "np.array([%g, %g, %g])", "np.array([%g, %g, %g], dtype=np.float32)", "np.array([%g, 0, %g, 0, %g])[::2]"};
            const std::string f = forms[rng.below(5)];
            ex("v.set_pos(" + fmt(f.c_str(), p[0], p[1], p[2]) + ")");
            compare(nums("flat(m.vertex(" + fmt("%d", i) + ").pos())"), {p[0], p[1], p[2]}, 0, "set-pos", f.c_str());
            ex(fmt("v.set_pos([%.17g, %.17g, %.17g])", old[0], old[1], old[2]));
            ctx.count("positions set");
            break;
        }
        default:
            // what is returned is a copy
            ex("p = v.pos(); p += 1.0");
            compare(nums("flat(v.pos())"), {v->pos()[0], v->pos()[1], v->pos()[2]}, 0, "aliasing", "a returned position");
        }
        VH_CHECK(nums("[v.is_locked()]")[0] == v->isLocked(), "lock", "lock state differs");
        const int j = (int)rng.below(m.numFaces());
        Face *f = m.face(j);
        ex(fmt("f = m.face(%d)", j));
        VH_CHECK(nums("[f.is_boundary(), f.is_hole(), f.is_locked()]") == (std::vector<double>{(double)f->isBoundary(), (double)f->isHole(), (double)f->isLocked()}), "face", "flags of a face differ");
        compare(nums("[f.area()]"), {f->area()}, 0, "face", "area");
    }
    ctx.count("elements");
}

static void lifetimes(Ctx &ctx, Rng &rng) {
    // elements outlive the name of the mesh they belong to
    ex(fmt("keep = [tm.Mesh(points(0, vs), ix).vertex(%d), tm.Mesh(points(0, vs), ix).face(0)]\nq = tm.Mesh(points(0, vs), ix)\nkeep.append(q.vertex(0))\nkeep.append(q.face(0))\ndel q\ngc.collect()", (int)rng.below(3)));
    ex("r = [keep[0].pos(), keep[1].area(), keep[2].is_boundary(), keep[3].is_hole()]");
    ex("c = m.clone()\nd = [c.vertex(0), c.clone().face(0)]\ndel c\ngc.collect()\nr = [d[0].pos(), d[1].area()]\ndel keep, d, r\ngc.collect()");
    ctx.count("lifetimes");
}

static void errors(Ctx &ctx, Rng &rng, const Soup &s, bool closed) {
    struct E {
        std::string code, want;
    };
    const std::string n = fmt("%d", (int)s.V.size());
    std::vector<E> es = {
        {"tm.Mesh(points(0, vs), ix[:-1])", "RuntimeError"},
        {"tm.Mesh(points(0, vs), ix[:-1] + [" + n + "])", "RuntimeError"},
        {"tm.Mesh(points(0, vs), ix[:-1] + [-1])", "TypeError"},
        {"tm.Mesh([v[:2] for v in vs], ix)", "TypeError"},
        {"tm.Mesh([v + [0.0] for v in vs], ix)", "TypeError"},
        {"tm.Mesh('no-such-file.ply')", "RuntimeError"},
        {"tm.Mesh('no-such-file.obj')", "RuntimeError"},
        {"tm.Mesh('mesh.stl')", "RuntimeError"},
        {"m.save('mesh.stl')", "RuntimeError"},
        {"m.save('no-such-directory/mesh.ply')", "RuntimeError"},
        {"m.save('no-such-directory/mesh.obj')", "RuntimeError"},
        {"m.vertex(-1)", "RuntimeError"},
        {"m.vertex(m.num_vertices())", "RuntimeError"},
        {"m.face(-1)", "RuntimeError"},
        {"m.face(m.num_faces())", "RuntimeError"},
        {"m.vertex(0).set_pos([1.0, 2.0])", "TypeError"},
        {"m.vertex(0).set_pos([[1.0, 2.0, 3.0]])", "TypeError"},
        {"m.vertex(0).set_pos('abc')", "TypeError"},
        {"tm.simplify_qem(m, 0)", "RuntimeError"},
        {"tm.simplify_qem(m)", "TypeError"},
        {"tm.smooth_laplacian(m, no_such_name=1)", "TypeError"},
        {"tm.get_heat_kernel_signatures(tm.get_mesh_laplacian(m, tm.MeshLaplace.ADJACENT), m.num_vertices(), 3)", "RuntimeError"},
        {"tm.get_heat_kernel_signatures(tm.get_mesh_laplacian(m, tm.MeshLaplace.COTANGENT), K=m.num_vertices() + 1, n_times=2)", "RuntimeError"},
    };
    if (!closed) {
        es.push_back({"tm.denoise_normal_gaussian(c, 0.5, 1)", ""});
        es.push_back({"tm.denoise_normal_bilateral(c, 0.5, 0.5, 1)", ""});
    }
    for (int k = 0; k < 4; k++) {
        const E &e = es[rng.below(es.size())];
        if (e.code.find("(c") != std::string::npos) ex("c = m.clone()");
        gctx()->stage(e.code.c_str());
        ex("st0 = repr(state(m))");
        const std::string got = str("attempt(lambda: " + e.code + ")");
        // surfaces with holes may be refused, but not fatally
        VH_CHECK(e.want.empty() ? got == "none" || got == "RuntimeError" : got == e.want, "error", "%s ends with %s instead of %s", e.code.c_str(), got.c_str(), e.want.c_str());
        ex("assert repr(state(m)) == st0, 'the mesh changed'");
        ctx.count("errors");
        ctx.count("error: " + e.code.substr(0, 34));
    }
    if (rng.chance(0.3)) {
        // a failed load leaves an object that can be used again
        ex(fmt("c = m.clone()\nt = attempt(lambda: c.load('%s'))", rng.chance(0.5) ? "no-such-file.ply" : "no-such-file.stl"));
        VH_CHECK(str("t") == "RuntimeError", "error", "loading a missing file ends with %s", str("t").c_str());
        ex("c.num_vertices(); c.get_vertices(); c.num_faces(); m.save('back.ply'); c.load('back.ply'); assert state(c)[2] == state(tm.Mesh('back.ply'))[2]");
        ctx.count("reused after an error");
    }
}

static void holes(Ctx &ctx, Rng &rng) {
    const bool whole = rng.chance(0.12);  // the completion works on surfaces of some size only
    Soup s = whole ? icosphere(3) : rng.chance(0.5) ? icosphere(2) : goodClosed(rng, 60);
    jitter(s, meanEdge(s) * rng.uni(0, 0.08), rng);
    for (int i = rng.range(1, 2); i > 0; i--) cutHole(s, rng, meanEdge(s) * rng.uni(0.5, 2.2), s.V[rng.below(s.V.size())]);
    std::unique_ptr<Mesh> m;
    makeBoth(s, rng, m);
    std::vector<int> hs;
    for (size_t i = 0; i < m->numFaces(); i++)
        if (m->face((int)i)->isHole()) hs.push_back((int)i);
    if (hs.empty()) throw Skip();
    for (int i : hs)
        if (!chordless(m->face(i))) throw Skip();
    const int hole = hs[rng.below(hs.size())], kind = whole ? 3 : rng.range(0, 2), its = rng.range(0, 3);
    const double bound = rng.chance(0.5) ? Pi : rng.uni(0.01, 2);
    static const char *names[] = {"hole_fill_min_dihedral", "hole_fill_advancing_front", "fill_holes", "hole_fill_context_coherent"};
    gctx()->stage(names[kind]);
    const uint64_t order = rng.next();
    g_order = order;
    const bool bad = threw([&] {
        if (kind == 0) holeFillMinDihedral(*m, m->face(hole), bound);
        if (kind == 1) holeFillAdvancingFront(*m, m->face(hole));
        if (kind == 2) m->fillHoles();
        if (kind == 3) holeFillContextCoherent(*m, its);
    });
    g_order = order;
    const bool named = rng.chance(0.5);
    std::string call;
    if (kind == 0 && bound == Pi) call = fmt("tm.hole_fill_min_dihedral(m, %sm.face(%d))", named ? "face=" : "", hole);
    if (kind == 0 && bound != Pi) call = fmt(named ? "tm.hole_fill_min_dihedral(m, dihedral_bound=%.17g, face=m.face(%d))" : "(lambda b, f: tm.hole_fill_min_dihedral(m, m.face(f), b))(%.17g, %d)", bound, hole);
    if (kind == 1) call = fmt("tm.hole_fill_advancing_front(m, %sm.face(%d))", named ? "face=" : "", hole);
    if (kind == 2) call = "m.fill_holes()";
    if (kind == 3) call = fmt("tm.hole_fill_context_coherent(m, %s%d)", named ? "maxiters=" : "", its);
    const std::string t = str("attempt(lambda: " + call + ")");
    VH_CHECK((t != "none") == bad, "outcome", "%s ends with %s in Python, %s in C++", call.c_str(), t.c_str(), bad ? "an exception" : "nothing");
    if (bad) throw Skip();
    if (kind < 3) {
        compareState(*m, 0, call.c_str());
    } else if (its == 0) {
        compareState(*m, 1e-9, call.c_str());
    } else {
        // sums in the order of addresses; a closed surface in any case
        const auto n = nums("state(m)[2]");
        VH_CHECK(n[4] == 1 && 3 * n[3] == 2 * n[1], "completion", "%s leaves %g faces and %g edges", call.c_str(), n[3], n[1]);
    }
    ctx.count(names[kind]);
    ctx.count("holes");
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    (void)id;
    globals();
    const bool closed = rng.chance(0.6);
    Soup s;
    if (closed) {
        s = goodClosed(rng, rng.range(20, 90));
    } else {
        s = goodSurface(rng, rng.range(20, 90));
    }
    std::unique_ptr<Mesh> m;
    makeBoth(s, rng, m);
    const bool isClosed = [&] {
        for (size_t i = 0; i < m->numFaces(); i++)
            if (m->face((int)i)->isHole()) return false;
        return true;
    }();
    const int what = rng.range(0, 9);
    if (what <= 1) elements(ctx, *m, rng, isClosed);
    if (what == 2) lifetimes(ctx, rng);
    if (what == 3 || what == 4) errors(ctx, rng, s, isClosed);
    if (what == 5) {
        // metrics and operators
        const Soup s2 = goodClosed(rng, 40);
        auto m2 = build(s2);
        py::list vs;
        for (auto &p : s2.V) vs.append(py::make_tuple(p.x, p.y, p.z));
        py::list ix;
        for (auto &t : s2.F)
            for (uint32_t i : t) ix.append((unsigned)i);
        globals()["vs2"] = vs;
        globals()["ix2"] = ix;
        ex("n = tm.Mesh(vs2, ix2)");
        compare(nums(rng.chance(0.5) ? "[tm.get_hausdorff_distance(m, n)]" : "[tm.get_hausdorff_distance(mesh1=n, mesh0=m)]"), {getHausdorffDistance(*m, *m2)}, 0, "metric", "Hausdorff distance");
        compare(nums(rng.chance(0.5) ? "flat(tm.get_per_vertex_shortest_distances(m, n))" : "flat(tm.get_per_vertex_shortest_distances(dst=n, src=m))"), flat(getPerVertexShortestDistances(*m, *m2)), 0, "metric", "shortest distances");
        static const char *types[] = {"ADJACENT", "COTANGENT", "BELKIN08"};
        static const MeshLaplace kinds[] = {MeshLaplace::Adjacent, MeshLaplace::Cotangent, MeshLaplace::Belkin08};
        for (int k = 0; k < 3; k++) {
            const EigenSparseMatrix L = getMeshLaplacian(*m, kinds[k]);
            ex(fmt("L = tm.get_mesh_laplacian(%s, %stm.MeshLaplace.%s)", rng.chance(0.5) ? "m" : "mesh=m", "type=", types[k]));
            ex("assert scipy.sparse.issparse(L)");
            compare(nums("flat(L)"), flat(EigenMatrix(L)), 0, "operator", types[k]);
            if (k < 2 && isClosed) {
                const int K = rng.range(2, std::min(12, (int)m->numVertices() - 1)), T = rng.range(1, 9);
                EigenMatrix h;
                if (!threw([&] { h = getHeatKernelSignatures(L, K, T); })) {
                    // the solver starts from a fixed vector
                    compare(nums(fmt(rng.chance(0.5) ? "flat(tm.get_heat_kernel_signatures(L, %d, %d))" : "flat(tm.get_heat_kernel_signatures(mesh=L, K=%d, n_times=%d))", K, T)), flat(h), 1e-9, "operator", "heat kernel signatures");
                    ctx.count("signatures");
                }
            }
        }
        ctx.count("metrics");
    }
    bool exact = true;
    if (what >= 6) {
        auto fs = functions(rng, *m);
        std::vector<Fun> fit;
        for (auto &f : fs)
            if (isClosed || !f.closed) fit.push_back(f);
        const Fun &f = fit[rng.below(fit.size())];
        gctx()->stage(f.name);
        exact = f.tol == 0;
        // some vertices are locked
        if (rng.chance(0.4))
            for (int k = 0; k < 4; k++) {
                const int i = (int)rng.below(m->numVertices());
                ex(fmt("m.vertex(%d).lock()", i));
                m->vertex(i)->lock();
            }
        int need = 0;
        while (need < (int)f.args.size() && std::isnan(f.args[need].def)) need++;
        const int given = rng.range(need, (int)f.args.size());
        std::string names = "['mesh', ", args = "[m, ";
        std::vector<double> a;
        for (int k = 0; k < (int)f.args.size(); k++) {
            names += std::string("'") + f.args[k].name + "', ";
            const bool flag = std::string(f.args[k].name) == "verbose" || std::string(f.args[k].name) == "cotangent_weight" || std::string(f.args[k].name) == "smooth_tensors";
            args += (flag ? std::string(f.args[k].value != 0 ? "True" : "False") : lit(f.args[k].value, f.args[k].integer)) + ", ";
            a.push_back(k < given ? f.args[k].value : f.args[k].def);
        }
        const uint64_t order = rng.next();
        std::vector<double> out;
        g_order = order;
        const bool bad = threw([&] { f.run(*m, a, out); });
        g_order = order;
        ex(fmt("fun = lambda: call(tm.%s, %s], %s], %d, %d)\nret = None\ndef go():\n    global ret\n    ret = fun()\nt = attempt(go)", f.name, args.c_str(), names.c_str(), rng.range(0, 2), given + 1));
        const std::string t = str("t");
        VH_CHECK((t != "none") == bad, "outcome", "%s ends with %s in Python, %s in C++", f.name, t.c_str(), bad ? "an exception" : "nothing");
        ctx.count(f.name);
        if (bad) throw Skip();
        {
            if (!out.empty()) compare(nums("flat(ret)"), out, f.tol, "result", f.name);
            compareState(*m, f.tol, f.name);
        }
        if (given < (int)f.args.size()) ctx.count("defaults used");
    }
    if (what == 0 && rng.chance(0.6)) holes(ctx, rng);
    if (what == 9 && exact && distinctPositions(toSoup(*m))) {
        // copies are independent
        ex("c = m.clone()\nst0 = repr(state(m))");
        {
            const Mesh c = m->clone();
            compareState(c, 0, "clone", "c");
        }
        ex("tm.smooth_taubin(c)\nassert repr(state(m)) == st0, 'changing the clone changed the original'");
        // files
        // (single precision may merge vertices: then both must fail)
        Mesh p, o;
        const bool bad = threw([&] {
            m->save("b.ply");
            m->save("b.obj");
            p = Mesh("b.ply");
            o.load("b.obj");
        });
        ex("def go():\n    global p, o\n    m.save('a.ply'); m.save('a.obj'); p = tm.Mesh('a.ply'); o = tm.Mesh(); o.load('a.obj')\nt = attempt(go)");
        const std::string t = str("t");
        VH_CHECK((t != "none") == bad, "outcome", "saving and loading end with %s in Python, %s in C++", t.c_str(), bad ? "an exception" : "nothing");
        if (bad) throw Skip();
        compareState(p, 0, "mesh from a *.ply file", "p");
        compareState(o, 0, "mesh from an *.obj file", "o");
        ctx.count("files");
    }
    ctx.eval();
    ctx.nontrivial(mix((uint64_t)what, mix(s.V.size(), rng.next())));
}
void vh::finish(Ctx &ctx) { ctx.sample("every case builds a mesh through the module and directly and compares all positions, triangles and counts"); }
