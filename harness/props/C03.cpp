// C03: reuse of mesh objects and independence of clones.
#include "edit.h"
#include "fileio.h"
using namespace vh;

static void sameMesh(const Mesh &a, const Mesh &fresh, const char *key, const char *what) {
    Snap x = snap(a), y = snap(fresh);
    VH_CHECK(a.numVertices() == fresh.numVertices() && a.numFaces() == fresh.numFaces() && a.numHalfedges() == fresh.numHalfedges(), key,
             "%s: %zu/%zu/%zu vertices/faces/halfedges, fresh object has %zu/%zu/%zu", what, a.numVertices(), a.numFaces(), a.numHalfedges(),
             fresh.numVertices(), fresh.numFaces(), fresh.numHalfedges());
    VH_CHECK(ptris(x) == ptris(y), key, "%s: triangles differ from a fresh object's", what);
    std::multiset<P> px(x.pos.begin(), x.pos.end()), py(y.pos.begin(), y.pos.end());
    VH_CHECK(px == py, key, "%s: positions differ from a fresh object's", what);
    VH_CHECK(x.holes.size() == y.holes.size(), key, "%s: holes differ from a fresh object's", what);
    for (size_t i = 0; i < a.numVertices(); i++) VH_CHECK(!a.vertex((int)i)->isLocked(), key, "%s: a vertex is locked", what);
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    const size_t N = 4;
    std::vector<std::unique_ptr<Mesh>> pool(N);
    std::vector<State> st(N);
    uint64_t h = 0;
    const int steps = rng.range(8, 24);
    std::string hist;
    auto checkOthers = [&](size_t self) {
        for (size_t i = 0; i < N; i++)
            if (pool[i] && i != self) {
                State now = state(*pool[i]);
                sameState(st[i], now, "aliasing", "an operation on one mesh changed another");
            }
    };
    for (int k = 0; k < steps; k++) {
        const size_t i = rng.below(N);
        const int op = pool[i] ? (int)rng.below(8) : (int)rng.below(3);
        h = mix(h, (uint64_t)op * 16 + i);
        switch (op) {
        case 0:
        case 5: {  // construct
            ctx.stage("construct");
            Soup s = okSurface(rng, 30);
            const bool reuse = pool[i] != nullptr;
            if (!pool[i]) pool[i].reset(rng.chance(0.5) ? new Mesh() : new Mesh(toVs(s.V), s.flat()));
            pool[i]->construct(toVs(s.V), s.flat());
            Mesh fresh(toVs(s.V), s.flat());
            sameMesh(*pool[i], fresh, "reuse:construct", "construct into a used object");
            VH_CHECK(ptris(snap(*pool[i])) == ptris(s), "reuse:construct", "construct gives other triangles than the input");
            if (reuse) ctx.count("constructed_again");
            hist += " construct";
            break;
        }
        case 1:
        case 6: {  // load
            ctx.stage("load");
            Soup s = floatRounded(okSurface(rng, 30));
            if (!distinctPositions(s)) break;
            const bool obj = rng.chance(0.5);
            const std::string path = ctx.scratch + (obj ? "/a.obj" : "/a.ply");
            putFile(path, obj ? objText(s) : plyBytes(s));
            const bool reuse = pool[i] != nullptr;
            if (!pool[i]) pool[i].reset(rng.chance(0.5) ? new Mesh() : new Mesh(path));
            pool[i]->load(path);
            Mesh fresh(path);
            sameMesh(*pool[i], fresh, "reuse:load", "load into a used object");
            VH_CHECK(ptris(snap(*pool[i])) == ptris(s), "reuse:load", "load gives other triangles than the file");
            unlink(path.c_str());
            if (reuse) ctx.count("loaded_again");
            hist += " load";
            break;
        }
        case 2: {  // clone from another
            const size_t j = rng.below(N);
            if (!pool[j] || j == i) break;
            ctx.stage("clone");
            Soup src = toSoup(*pool[j]);
            if (!distinctPositions(src) || !analyse(src).manifold) break;
            pool[i].reset(new Mesh(pool[j]->clone()));
            Snap a = snap(*pool[i]), b = snap(*pool[j]);
            VH_CHECK(ptris(a) == ptris(b), "clone:triangles", "a clone has other triangles than its original");
            VH_CHECK(pool[i]->numVertices() == pool[j]->numVertices(), "clone:vertices", "a clone has %zu vertices, the original %zu",
                     pool[i]->numVertices(), pool[j]->numVertices());
            std::multiset<P> px(a.pos.begin(), a.pos.end()), py(b.pos.begin(), b.pos.end());
            VH_CHECK(px == py, "clone:positions", "a clone has other positions than its original");
            VH_CHECK(a.holes.size() == b.holes.size(), "clone:holes", "a clone has %zu holes, the original %zu", a.holes.size(), b.holes.size());
            std::set<const Vertex *> vs;
            for (size_t q = 0; q < pool[j]->numVertices(); q++) vs.insert(pool[j]->vertex((int)q));
            for (size_t q = 0; q < pool[i]->numVertices(); q++)
                VH_CHECK(!vs.count(pool[i]->vertex((int)q)), "clone:shared", "a clone shares a vertex with its original");
            ctx.count("clones");
            hist += " clone";
            break;
        }
        case 3: {  // destroy
            ctx.stage("destroy");
            pool[i].reset();
            hist += " destroy";
            break;
        }
        default: {  // edit
            ctx.stage("edit");
            Mesh &m = *pool[i];
            for (int q = 0; q < 12; q++) {
                Halfedge *he = m.halfedge((int)rng.below(m.numHalfedges()));
                switch (rng.below(5)) {
                case 0: m.flipHE(he); break;
                case 1: m.splitHE(he); break;
                case 2: m.collapseHE(he); break;
                case 3: m.vertex((int)rng.below(m.numVertices()))->setPos(toV(P(rng.uni(), rng.uni(), rng.uni()))); break;
                default: m.vertex((int)rng.below(m.numVertices()))->lock();
                }
            }
            ctx.count("edits");
            hist += " edit";
        }
        }
        if (pool[i]) {
            validate(*pool[i], "connectivity");
            st[i] = state(*pool[i]);
        }
        checkOthers(i);
        ctx.eval();
    }
    ctx.nontrivial(h);
    if (id < 40) ctx.sample("history:" + hist);
}
void vh::finish(Ctx &) {}
