// C01: construction is faithful and yields sound connectivity.
#include "topo.h"
using namespace vh;

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s;
    if (id % 97 == 13 && ctx.thorough) {
        const char *names[] = {"bunny_mini.ply", "fandisk.ply", "torus.ply"};
        if (!readPly(std::string(REPO "/data/models/") + names[rng.below(3)], s)) throw Skip();
        compact(s);
        std::set<P> q(s.V.begin(), s.V.end());
        if (q.size() != s.V.size()) throw Skip();
    } else {
        s = randomSurface(rng, rng.chance(0.1) ? 250 : 60);
        compact(s);
        if (rng.chance(0.7)) jitter(s, 1e-3, rng);
        if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-6, 6)));
    }
    if (!distinctPositions(s)) throw Skip();
    shuffleSoup(s, rng);
    Topo t = analyse(s);
    if (!t.manifold) throw Skip();
    // input buffers: either indexed, or with duplicated vertices / extra unused ones
    std::vector<Vec3> vb;
    std::vector<uint32_t> ib;
    const int mode = (int)rng.below(4);
    if (mode == 0) {
        vb = toVs(s.V);
        ib = s.flat();
    } else if (mode == 1) {  // triangle soup
        for (auto &f : s.F)
            for (auto i : f) {
                ib.push_back((uint32_t)vb.size());
                vb.push_back(toV(s.V[i]));
            }
    } else {  // some duplicates, some unused vertices, negative zeros
        std::vector<std::vector<uint32_t>> alias(s.V.size());
        for (size_t i = 0; i < s.V.size(); i++) {
            int n = rng.range(1, 3);
            for (int k = 0; k < n; k++) {
                P p = s.V[i];
                if (mode == 3 && rng.chance(0.5)) {
                    if (p.x == 0) p.x = -p.x;
                    if (p.y == 0) p.y = -p.y;
                    if (p.z == 0) p.z = -p.z;
                }
                alias[i].push_back((uint32_t)vb.size());
                vb.push_back(toV(p));
                if (rng.chance(0.1)) vb.push_back(toV(P(rng.uni(), rng.uni(), 1234.5)));
            }
        }
        for (auto &f : s.F)
            for (auto i : f) ib.push_back(alias[i][rng.below(alias[i].size())]);
    }
    ctx.stage("construct");
    Mesh m(vb, ib);
    ctx.stage("validate");
    validate(m, "connectivity");
    VH_CHECK(m.numVertices() == t.V, "count:vertices", "%zu vertices, expected %zu (%s)", m.numVertices(), t.V, s.tag.c_str());
    VH_CHECK(m.numEdges() == t.E, "count:edges", "%zu edges, expected %zu (%s)", m.numEdges(), t.E, s.tag.c_str());
    VH_CHECK(m.numHalfedges() == 2 * t.E, "count:halfedges", "%zu halfedges, expected %zu", m.numHalfedges(), 2 * t.E);
    Snap n = snap(m);
    VH_CHECK(n.tris.size() == t.F, "count:faces", "%zu triangles, expected %zu (%s)", n.tris.size(), t.F, s.tag.c_str());
    VH_CHECK(m.numFaces() == t.F + t.loops.size(), "count:all-faces", "%zu faces, expected %zu triangles + %zu boundary loops",
             m.numFaces(), t.F, t.loops.size());
    VH_CHECK(n.holes.size() == t.loops.size(), "count:holes", "%zu holes, expected %zu (%s)", n.holes.size(), t.loops.size(), s.tag.c_str());
    VH_CHECK(ptris(n) == ptris(s), "faces:not-faithful", "the set of oriented triangles differs from the input (%s)", s.tag.c_str());
    // hole loops are the boundary loops, run from the hole's side
    std::multiset<std::vector<P>> want, got;
    auto canonLoop = [](std::vector<P> l) {
        std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
        return l;
    };
    for (auto &l : t.loops) {
        std::vector<P> q;
        for (auto i : l) q.push_back(s.V[i]);
        want.insert(canonLoop(q));
    }
    for (auto &l : n.holes) {
        std::vector<P> q;
        for (auto i : l) q.push_back(n.pos[i]);
        got.insert(canonLoop(q));
    }
    VH_CHECK(want == got, "holes:not-boundary-loops", "hole loops differ from the boundary loops (%s)", s.tag.c_str());
    // exported buffers describe the same surface
    auto ov = m.getVertices();
    auto oi = m.getVertexIndices();
    VH_CHECK(ov.size() == t.V && oi.size() == 3 * t.F, "export:size", "exported %zu vertices, %zu indices", ov.size(), oi.size());
    for (auto i : oi) VH_CHECK(i < ov.size(), "export:index", "exported index %u of %zu", i, ov.size());
    for (size_t i = 0; i < ov.size(); i++)
        VH_CHECK(toP(ov[i]) == n.pos[i], "export:position", "exported vertex %zu is not vertex(%zu)", i, i);
    VH_CHECK(ptris(ov, oi) == ptris(s), "export:faces", "exported triangles differ from the input (%s)", s.tag.c_str());
    // verify() notices non-finite positions
    if (rng.chance(0.3)) {
        int k = (int)rng.below(m.numVertices());
        P keep = toP(m.vertex(k)->pos());
        double bad = rng.chance(0.5) ? NAN : (rng.chance(0.5) ? INFINITY : -INFINITY);
        P q = keep;
        (rng.chance(0.34) ? q.x : rng.chance(0.5) ? q.y : q.z) = bad;
        m.vertex(k)->setPos(toV(q));
        VH_CHECK(!m.verify(), "verify:non-finite", "verify() accepts a non-finite position");
        m.vertex(k)->setPos(toV(keep));
        VH_CHECK(m.verify(), "verify:restored", "verify() rejects a sound mesh");
        ctx.count("verify_probes");
    }
    ctx.eval();
    ctx.count(mode == 0 ? "indexed" : mode == 1 ? "soup" : "aliased");
    ctx.count("holes_seen", t.loops.size());
    if (t.components > 1) ctx.count("multi_component");
    if (t.euler() + (long)t.loops.size() != 2 * (long)t.components) ctx.count("genus_positive");
    if (t.loops.size() || t.components > 1 || t.F > 20) ctx.nontrivial(s.topoHash());
    if (id < 40) ctx.sample(fmt("%s: V=%zu E=%zu F=%zu loops=%zu comps=%zu input-mode=%d", s.tag.c_str(), t.V, t.E, t.F, t.loops.size(), t.components, mode));
}
void vh::finish(Ctx &) {}
