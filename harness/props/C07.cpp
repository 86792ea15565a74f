// C07: contract of edge and face collapses.
#include "edit.h"
using namespace vh;

static double areaZ(const P &a, const P &b, const P &c) { return cross(b - a, c - a).z; }

static void planar(Ctx &ctx, long id, Rng &rng) {
    // planar triangulation, all triangles counter-clockwise
    Soup s;
    bool ok = false;
    for (int t = 0; t < 20 && !ok; t++) {
        if (rng.chance(0.4)) {
            s = randomDisc(rng.range(12, 60), rng);
            // Delaunay-like variety: flips that keep orientation
            for (int q = 0; q < 80; q++) {
                Soup u = s;
                if (!soupFlip(u, rng)) break;
                bool pos = true;
                for (auto &f : u.F) pos &= areaZ(u.V[f[0]], u.V[f[1]], u.V[f[2]]) > 1e-6;
                if (pos) s = u;
            }
        } else {
            s = gridPlane(rng.range(5, 9), rng.range(5, 9));
            const double a = rng.chance(0.3) ? 0 : rng.uni(0, 0.3);
            for (auto &p : s.V) p += P(rng.uni(-a, a), rng.uni(-a, a), 0);
            for (int q = 0; q < 60; q++) {
                Soup u = s;
                if (!soupFlip(u, rng)) break;
                bool pos = true;
                for (auto &f : u.F) pos &= areaZ(u.V[f[0]], u.V[f[1]], u.V[f[2]]) > 1e-2;
                if (pos) s = u;
            }
        }
        ok = distinctPositions(s) && analyse(s).manifold;
        for (auto &f : s.F) ok &= areaZ(s.V[f[0]], s.V[f[1]], s.V[f[2]]) > 1e-6;
    }
    if (!ok) throw Skip();
    shuffleSoup(s, rng);
    Soup base = s;
    Rigid r = randomRigid(rng, 2);
    const bool tilt = rng.chance(0.5);
    if (tilt) apply(s, r);
    P up = tilt ? r.rot(P(0, 0, 1)) : P(0, 0, 1);
    auto m = build(s);
    State st = state(*m), nx;
    long done = 0;
    for (int k = 0; k < 40; k++) {
        Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
        if (checkedCollapse(*m, he, st, nx)) {
            done++;
            for (auto &t : nx.tris) {
                const P a = nx.pos.at(t[0]), b = nx.pos.at(t[1]), c = nx.pos.at(t[2]);
                const double ar = dot(cross(b - a, c - a), up);
                VH_CHECK(ar > -1e-9, "collapse:fold-over", "a triangle of a planar patch has signed area %g after a collapse (%s)", ar, s.tag.c_str());
            }
        }
        std::swap(st, nx);
    }
    validate(*m, "connectivity");
    ctx.count("planar_collapses", (uint64_t)done);
    ctx.eval((uint64_t)done);
    if (done) ctx.nontrivial(s.hash());
    if (id < 60) ctx.sample(fmt("planar %s: %ld collapses", s.tag.c_str(), done));
}

// regular, well-shaped neighbourhood: must not be refused
static void regular(Ctx &ctx, long, Rng &rng) {
    const int n = rng.range(9, 12);
    Soup s = gridPlane(n, n);
    const double bend = rng.chance(0.5) ? 0 : rng.uni(0, 0.05), a = rng.uni(0, 0.05);
    for (auto &p : s.V) {
        P q(p.x - 0.5 * p.y, p.y * std::sqrt(3.0) / 2, 0);
        q.z = bend * (q.x * q.x - q.y * q.y) * 0.05;
        p = q + P(rng.uni(-a, a), rng.uni(-a, a), 0);
    }
    if (rng.chance(0.5)) scale(s, std::pow(10.0, rng.uni(-5, 5)));
    if (rng.chance(0.5)) apply(s, randomRigid(rng, 3));
    shuffleSoup(s, rng);
    auto m = build(s);
    Topo t = analyse(s);
    // vertices at distance >= 3 from the boundary
    std::vector<int> dist(s.V.size(), 1 << 20);
    for (size_t i = 0; i < s.V.size(); i++)
        if (t.boundaryVertex[i]) dist[i] = 0;
    for (int it = 0; it < n; it++)
        for (auto &kv : t.edgeFace) dist[kv.first.second] = std::min(dist[kv.first.second], dist[kv.first.first] + 1);
    std::map<P, int> at;
    for (size_t i = 0; i < s.V.size(); i++) at[s.V[i]] = (int)i;
    std::vector<Halfedge *> cand;
    for (size_t i = 0; i < m->numHalfedges(); i++) {
        Halfedge *h = m->halfedge((int)i);
        int a = at[toP(h->src()->pos())], b = at[toP(h->dst()->pos())];
        if (dist[(size_t)a] >= 3 && dist[(size_t)b] >= 3) cand.push_back(h);
    }
    if (cand.empty()) throw Skip();
    Halfedge *he = cand[rng.below(cand.size())];
    VH_CHECK(he->src()->degree() == 6 && he->dst()->degree() == 6, "degree", "degree of a regular vertex is not 6");
    State st = state(*m), nx;
    const bool ok = checkedCollapse(*m, he, st, nx);
    VH_CHECK(ok, "collapse:refused", "collapse refused in a regular, well-shaped interior neighbourhood");
    validate(*m, "connectivity");
    ctx.count("regular_collapses");
    ctx.eval();
    ctx.nontrivial(s.hash());
}

static void general(Ctx &ctx, long id, Rng &rng) {
    Soup s = okSurface(rng, rng.chance(0.3) ? 120 : 50);
    auto m = build(s);
    for (size_t i = 0; i < m->numVertices(); i++)
        if (rng.chance(0.1)) m->vertex((int)i)->lock();
    const TopoClass t0 = topoClass(*m, "start");
    State st = state(*m), nx;
    long done = 0, refused = 0, faces = 0;
    const int steps = rng.range(20, 150);
    for (int k = 0; k < steps; k++) {
        if (rng.chance(0.75)) {
            Halfedge *he = m->halfedge((int)rng.below(m->numHalfedges()));
            ctx.stage("collapse edge");
            if (checkedCollapse(*m, he, st, nx)) {
                done++;
                sameTopo(t0, topoClass(*m, "collapse:non-manifold"), "collapse:topology");
                if (done % 3 == 0) validate(*m, "connectivity");
            } else {
                refused++;
            }
        } else {
            ctx.stage("collapse face");
            Face *f = m->face((int)rng.below(m->numFaces()));
            if (f->isHole()) continue;
            const size_t nf = st.tris.size();
            std::set<const Vertex *> corner;
            for (auto it = f->v_begin(); it != f->v_end(); ++it) corner.insert(it.ptr());
            const bool ok = m->collapseFace(f);
            nx = state(*m);
            VH_CHECK(ok == (nx.tris.size() < nf), "collapse-face:result", "collapsing a face returned %d, triangles %zu -> %zu", (int)ok, nf, nx.tris.size());
            if (!ok) {
                sameState(st, nx, "collapse-face:failed-but-changed", "collapse of a face reported failure");
                refused++;
            } else {
                faces++;
                sameTopo(t0, topoClass(*m, "collapse-face:non-manifold"), "collapse-face:topology");
                // only corners of the face may disappear; nothing moves
                size_t gone = 0;
                for (auto &kv : st.pos) {
                    auto it = nx.pos.find(kv.first);
                    if (it == nx.pos.end()) {
                        gone++;
                        VH_CHECK(corner.count(kv.first), "collapse-face:vertex", "a vertex off the face disappeared");
                    } else {
                        VH_CHECK(it->second == kv.second, "collapse-face:moved", "a remaining vertex moved");
                    }
                }
                VH_CHECK(gone == (nf - nx.tris.size()) / 2 && (gone == 1 || gone == 2), "collapse-face:count",
                         "%zu vertices and %zu triangles disappeared", gone, nf - nx.tris.size());
                VH_CHECK(nx.pos.size() + gone == st.pos.size(), "collapse-face:added", "a vertex appeared");
                if (faces % 3 == 0) validate(*m, "connectivity");
            }
        }
        std::swap(st, nx);
    }
    ctx.stage("validate");
    validate(*m, "connectivity");
    ctx.count("collapses", (uint64_t)done);
    ctx.count("face_collapses", (uint64_t)faces);
    ctx.count("refused", (uint64_t)refused);
    ctx.eval((uint64_t)(done + refused + faces));
    if (done) ctx.nontrivial(s.topoHash());
    if (id < 40) ctx.sample(fmt("%s: %ld edges and %ld faces collapsed, %ld refused", s.tag.c_str(), done, faces, refused));
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    switch (id % 5) {
    case 0: planar(ctx, id, rng); break;
    case 1: regular(ctx, id, rng); break;
    default: general(ctx, id, rng);
    }
}
void vh::finish(Ctx &) {}
