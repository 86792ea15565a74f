// C31: QEM simplification.
#include "editmon.h"
#include "filters/filters.h"
#include "ref.h"
#include "remesh/remesh.h"
using namespace vh;

// First pass of a simplification of a closed mesh, judged contraction by contraction.
struct Pass {
    Ctx &ctx;
    Soup s0;                                  // smoothed start of the pass
    std::map<const Vertex *, uint32_t> id;    // start numbering
    std::vector<LP> cur;                      // positions, by start number
    std::vector<char> touched, gone, tried;
    std::vector<std::array<LD, 4>> plane;     // per start triangle
    std::vector<std::vector<size_t>> fs;
    LD ext = 0;
    bool deep = true;
    LD last = -1, judged = 0;
    uint64_t contracted = 0;
    const Vertex *a = nullptr, *b = nullptr;
    std::vector<std::array<const Vertex *, 3>> ring;  // triangles of a and b that remain

    Pass(Ctx &c, const Mesh &m, const Soup &smoothed) : ctx(c), s0(smoothed) {
        for (uint32_t i = 0; i < s0.V.size(); i++) {
            id[m.vertex((int)i)] = i;
            cur.push_back(lp(s0.V[i]));
        }
        touched.assign(s0.V.size(), 0);
        gone.assign(s0.V.size(), 0);
        tried.assign(s0.V.size(), 0);
        fs.resize(s0.V.size());
        for (size_t f = 0; f < s0.F.size(); f++) {
            const LP p = cur[s0.F[f][0]], q = cur[s0.F[f][1]], r = cur[s0.F[f][2]];
            LP n = cross(q - p, r - p);
            n = n * (1 / len(n));
            plane.push_back({n.x, n.y, n.z, -dot(n, p)});
            for (uint32_t v : s0.F[f]) fs[v].push_back(f);
        }
        ext = extent(s0);
    }
    static LD extent(const Soup &s) {
        LD e = 0;
        for (auto &p : s.V) e = std::max<LD>(e, len(p));
        return e;
    }
    LD error(uint32_t i, uint32_t j, const LP &x) const {
        LD e = 0;
        for (uint32_t v : {i, j})
            for (size_t f : fs[v]) {
                const LD d = plane[f][0] * x.x + plane[f][1] * x.y + plane[f][2] * x.z + plane[f][3];
                e += d * d;
            }
        return e;
    }
    // best position; returns 0 clear, 1 midpoint, 2 undecided (det at the threshold or ill-conditioned)
    int best(uint32_t i, uint32_t j, LP &x, LD &tol) const {
        LD A[3][3] = {{0}}, B[3] = {0, 0, 0};
        for (uint32_t v : {i, j})
            for (size_t f : fs[v])
                for (int r = 0; r < 3; r++) {
                    for (int c = 0; c < 3; c++) A[r][c] += plane[f][(size_t)r] * plane[f][(size_t)c];
                    B[r] -= plane[f][(size_t)r] * plane[f][3];
                }
        const LD det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
        tol = 1e-9L * ext;
        if (det < 0.5e-8L) {
            x = (lp(s0.V[i]) + lp(s0.V[j])) * 0.5L;
            return 1;
        }
        if (det < 1e-4L) return 2;
        auto d3 = [&](int k) {
            LD M[3][3];
            for (int r = 0; r < 3; r++)
                for (int c = 0; c < 3; c++) M[r][c] = c == k ? B[r] : A[r][c];
            return M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]);
        };
        x = LP{d3(0) / det, d3(1) / det, d3(2) / det};
        tol = 1e-10L * ext / det * 1e3L;
        return 0;
    }
    static LP nrm(const LP &p, const LP &q, const LP &r) { return cross(q - p, r - p); }

    void pre(Mesh &m, Halfedge *he) {
        a = b = nullptr;
        if (!deep) return;
        a = he->src();
        b = he->dst();
        // everything not involved must be where it was
        size_t moved = 0, total = 0;
        for (auto &kv : id) {
            if (gone[kv.second] || kv.first == a || kv.first == b) continue;
            total++;
            if (len(lp(toP(kv.first->pos())) - cur[kv.second]) > 1e-9L * ext) moved++;
        }
        if (moved * 2 > total) {  // smoothed: next pass
            deep = false;
            return;
        }
        VH_CHECK(moved == 0, "stray-move", "%zu vertices moved without being contracted", moved);
        ring.clear();
        for (size_t i = 0; i < m.numFaces(); i++) {
            const Face *f = m.face((int)i);
            std::array<const Vertex *, 3> t;
            const Halfedge *h = f->he_begin().ptr();
            for (size_t k = 0; k < 3; k++, h = h->next()) t[k] = h->src();
            const bool ha = t[0] == a || t[1] == a || t[2] == a, hb = t[0] == b || t[1] == b || t[2] == b;
            if (ha != hb) ring.push_back(t);
        }
    }
    void post(Mesh &m, bool ok) {
        if (!deep || !a) return;
        if (!ok) {  // refused: its ends need not be tried again in this pass
            tried[id.at(a)] = tried[id.at(b)] = 1;
            return;
        }
        const Vertex *kept = nullptr;
        for (size_t i = 0; i < m.numVertices(); i++) {
            const Vertex *v = m.vertex((int)i);
            if (v == a || v == b) {
                VH_CHECK(!kept, "both-kept", "both ends of a contracted edge are still there");
                kept = v;
            }
        }
        VH_CHECK(kept, "none-kept", "both ends of a contracted edge are gone");
        const uint32_t i = id.at(a), j = id.at(b);
        const LP at = lp(toP(kept->pos()));
        // no remaining triangle is turned over
        for (auto &t : ring) {
            LP o[3], n[3];
            for (size_t k = 0; k < 3; k++) {
                o[k] = cur[id.at(t[k])];
                n[k] = (t[k] == a || t[k] == b) ? at : o[k];
            }
            const LP u = nrm(o[0], o[1], o[2]), w = nrm(n[0], n[1], n[2]);
            const LD c = dot(u, w) / (len(u) * len(w));
            if (len(u) < 1e-12L * ext * ext || len(w) < 1e-12L * ext * ext) continue;
            VH_CHECK(c > -1e-6L, "turned-over", "contraction turned a triangle over (cosine %Lg)", c);
        }
        if (!touched[i] && !touched[j]) {
            LP x;
            LD tol;
            const int how = best(i, j, x, tol);
            if (how < 2) {
                VH_CHECK(len(at - x) <= tol, "position", "merged vertex is %Lg away from the %s of its edge (extent %Lg)", len(at - x), how ? "middle" : "best position", ext);
                ctx.count(how ? "at_middle" : "at_best");
            } else {  // which of the two is not judged, but its error is that of the position taken
                x = at;
                ctx.count("nearly_flat");
            }
            const LD e = error(i, j, x), eps = 1e-13L * ext * ext + 1e-6L * fabsl(e);
            VH_CHECK(e >= last - eps - 1e-6L * fabsl(last), "order", "edge of error %Lg contracted after one of error %Lg", e, last);
            if (contracted == 0 || e > 2 * judged + 4 * eps) {
                cheapest(e, eps);
                judged = e;
            }
            last = std::max(last, e);
        }
        contracted++;
        touched[i] = touched[j] = 1;
        gone[kept == a ? j : i] = 1;
        cur[kept == a ? i : j] = at;
        ctx.count("contractions");
    }
    // no clearly contractible edge is cheaper, as far as nothing around it was contracted in this pass
    void cheapest(LD e, LD eps) {
        Ref r(s0);
        for (auto &kv : r.opp) {
            const uint32_t i = kv.first.first, j = kv.first.second;
            LP x;
            LD tol;
            if (tried[i] || tried[j] || touched[i] || touched[j] || best(i, j, x, tol) == 2) continue;
            bool fresh = true;
            for (uint32_t v : {i, j})
                for (uint32_t w : r.nb[v]) fresh = fresh && !touched[w];
            if (!fresh) continue;
            const LD ej = error(i, j, x);
            if (ej >= e - 2 * eps - 1e-6L * ej) continue;
            if (r.nb[i].size() < 5 || r.nb[j].size() < 5) continue;
            std::vector<uint32_t> common;
            for (uint32_t v : r.nb[i])
                if (std::find(r.nb[j].begin(), r.nb[j].end(), v) != r.nb[j].end()) common.push_back(v);
            if (common.size() != 2 || r.nb[common[0]].size() < 5 || r.nb[common[1]].size() < 5) continue;
            bool fine = true;
            LP sum[2];
            sum[0] = sum[1] = LP{0, 0, 0};
            std::vector<LP> ns[2];
            for (int k = 0; k < 2; k++)
                for (size_t f : fs[k ? j : i]) {
                    const Tri &t = s0.F[f];
                    if (std::count(t.begin(), t.end(), i) && std::count(t.begin(), t.end(), j)) continue;
                    LP o[3], n[3];
                    for (size_t q = 0; q < 3; q++) {
                        o[q] = lp(s0.V[t[q]]);
                        n[q] = (t[q] == i || t[q] == j) ? x : o[q];
                    }
                    const LP u = nrm(o[0], o[1], o[2]), w = nrm(n[0], n[1], n[2]);
                    if (dot(u, w) < 0.1L * len(u) * len(w) || len(w) < 0.05L * len(u)) fine = false;
                    sum[k] = sum[k] + w;
                    ns[k].push_back(w);
                }
            for (int k = 0; k < 2; k++)
                for (auto &w : ns[k])
                    if (dot(w, sum[k]) < 0.1L * len(w) * len(sum[k])) fine = false;
            if (!fine) continue;
            throw Violation("cheapest", fmt("contracted edge has error %Lg, but edge %u-%u has %Lg", e, i, j, ej));
        }
        ctx.count(contracted ? "later_judged" : "first_judged");
    }
};

// sum of |valence - 6| around an edge, now and after a flip
static std::pair<int, int> valenceError(Halfedge *h) {
    const int d[4] = {h->src()->degree(), h->dst()->degree(), h->next()->dst()->degree(), h->rev()->next()->dst()->degree()};
    int before = 0, after = 0;
    for (int k = 0; k < 4; k++) before += std::abs(d[k] - 6), after += std::abs(d[k] + (k < 2 ? -1 : 1) - 6);
    return {before, after};
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s;
    int kind = 0;  // 0 anything, 1 judged pass by pass, 2 target is reached
    double radius = 0;
    bool flat = false;
    if (id % 4 == 1) {
        kind = 1;
        if (rng.chance(0.3)) {  // flat regions, away from the origin
            flat = rng.chance(0.5);  // large enough to stay flat when smoothed
            s = cube(flat ? rng.range(11, 13) : rng.range(6, 9));
            shuffleSoup(s, rng);
            const P d{rng.uni(0.5, 2), rng.uni(0.5, 2), rng.uni(0.5, 2)};
            for (auto &p : s.V) p = p + d;
        } else {
            s = goodClosed(rng, rng.chance(0.3) ? 160 : 70, 0.1);
            jitter(s, 0.1 * meanEdge(s), rng);
            if (!(minQuality(s) > 0.05)) throw Skip();
        }
        if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-4, 4)));
    } else if (id % 4 == 2) {
        kind = 2;
        switch (rng.range(0, 2)) {
        case 0:
            s = icosphere(rng.range(2, 3));
            radius = 1;
            break;
        case 1:
            s = torus(rng.range(16, 30), rng.range(10, 20));
            break;
        default:
            s = cube(rng.range(5, 10));
        }
        jitter(s, 0.05 * meanEdge(s), rng);
        shuffleSoup(s, rng);
    } else {
        s = okSurface(rng, rng.chance(0.3) ? 200 : 60);
        if (rng.chance(0.3)) scale(s, std::pow(10.0, rng.uni(-4, 4)));
    }
    auto m = build(s);
    const int F = (int)m->numFaces();
    if (id % 16 == 3) {
        ctx.stage("refused");
        const int target = rng.chance(0.5) ? 0 : -rng.range(1, 100);
        const ChildResult r = runChild([&]() {
            tinymesh::simplifyQEM(*m, target);
            return std::string("done");
        });
        VH_CHECK(r.kind == ChildResult::REJECTED || r.kind == ChildResult::EXCEPTION, "refused", "target %d is not refused (%d: %s)", target, (int)r.kind, r.text.c_str());
        ctx.count("refused");
        ctx.eval();
        return;
    }
    const State before = state(*m);
    const TopoClass t0 = topoClass(*m, "start");
    int target = kind == 2 ? (int)(F * rng.uni(0.4, 0.9)) : rng.chance(0.15) ? F + rng.range(0, 5) : rng.range(1, std::max(1, F - 1));
    int trials = kind ? 10 : rng.range(0, 10);
    if (kind == 0 && rng.chance(0.1)) target = F - 1;
    if (flat) target = (int)(F * rng.uni(0.8, 0.98));
    HookScope scope;
    std::unique_ptr<Pass> pass;
    if (kind == 1 && target < F) {
        auto twin = build(s);
        tinymesh::smoothLaplacian(*twin);
        Soup sm = toSoup(*twin);
        if (minQuality(sm) > 0.01) {
            pass.reset(new Pass(ctx, *m, sm));
            hooks().preCollapse = [&](Mesh &x, Halfedge *h) { pass->pre(x, h); };
            hooks().postCollapse = [&](Mesh &x, bool ok) { pass->post(x, ok); };
        }
    }
    // what each pass ends with: flips that even out the valences, and smoothing
    uint64_t flips = 0, lastFlips = 0, contractions = 0;
    std::map<const Vertex *, P> last;
    hooks().preFlip = [&](Mesh &, Halfedge *h) {
        if (pass) pass->deep = false;
        VH_CHECK(!h->face()->isHole() && !h->rev()->face()->isHole(), "flip-rim", "a boundary edge is flipped");
        const auto e = valenceError(h);
        VH_CHECK(e.second < e.first, "flip-useless", "a flip changes the valence error from %d to %d", e.first, e.second);
        flips++, lastFlips++;
    };
    const auto preCollapse = hooks().preCollapse;
    const auto postCollapse = hooks().postCollapse;
    const bool small = F < 250;
    hooks().preCollapse = [&](Mesh &x, Halfedge *h) {
        lastFlips = 0;
        if (preCollapse) preCollapse(x, h);
    };
    hooks().postCollapse = [&](Mesh &x, bool ok) {
        if (ok) contractions++;
        if (ok && small) last = vpos(x);
        if (postCollapse) postCollapse(x, ok);
    };
    ctx.stage("simplify");
    tinymesh::simplifyQEM(*m, target, trials, false);
    hooks() = EditHooks();
    ctx.stage("judge");
    if (target >= F) {
        sameState(before, state(*m), "untouched", "target at or above the number of faces");
        ctx.count("untouched");
        ctx.eval();
        return;
    }
    validate(*m, "simplify");
    sameTopo(t0, topoClass(*m, "simplify"), "topology");
    const State after = state(*m);
    for (auto &p : after.pos) VH_CHECK(finite(p.second), "finite", "a position is not finite");
    const int G = (int)m->numFaces();
    VH_CHECK(G <= F && G >= target - 1, "count", "%d faces became %d for a target of %d", F, G, target);
    VH_CHECK(before.holes == after.holes, "rim", "boundary loops changed");
    for (auto &h : before.holes)
        for (const Vertex *v : h) VH_CHECK(after.pos.count(v) && after.pos.at(v) == before.pos.at(v), "rim-moved", "a boundary vertex moved");
    for (auto &p : after.pos) VH_CHECK(before.pos.count(p.first), "identity", "a vertex that was not there before appeared");
    ctx.count("flips", flips);
    if (contractions && !lastFlips && before.holes.empty()) {
        for (size_t i = 0; i < m->numHalfedges(); i++) {
            const auto e = valenceError(m->halfedge((int)i));
            VH_CHECK(e.second >= e.first, "not-flipped", "no flip ends the last pass, although one lowers the valence error from %d to %d", e.first, e.second);
        }
        ctx.count("no_flips_left");
    }
    if (small && contractions && G <= target) {
        // the contraction that reached the target was in the last pass
        Soup sm = toSoup(*m);
        std::vector<bool> fixed;
        double ext = 0;
        for (size_t i = 0; i < sm.V.size(); i++) {
            const Vertex *v = m->vertex((int)i);
            sm.V[i] = last.at(v);
            fixed.push_back(v->isBoundary() || v->isLocked());
            ext = std::max(ext, len(sm.V[i] - sm.V[0]));
        }
        refTaubin(sm, 0.5L, 0.53L, 3, fixed);
        const double d = maxDiff(sm.V, positions(*m));
        VH_CHECK(d <= 1e-9 * ext, "smoothed", "the result is %g of %g away from the smoothed surface", d, ext);
        ctx.count("smoothed");
    }
    if (!before.holes.empty()) ctx.count("open");
    if (kind == 2) {
        VH_CHECK(G <= target, "reached", "target %d not reached from %d faces: %d (%s)", target, F, G, s.tag.c_str());
        ctx.count("reached");
        if (radius > 0) {
            double worst = 0;
            for (auto &p : after.pos) worst = std::max(worst, std::fabs(len(p.second) - radius));
            VH_CHECK(worst < (F > 1000 ? 0.15 : 0.35), "shape", "a simplified unit sphere (%d to %d faces) has a vertex at distance 1 +- %g", F, G, worst);
            ctx.count("spheres");
        }
    }
    if (G < F) ctx.count("simplified");
    if (rng.chance(0.5)) {
        ctx.stage("verbose");
        auto m2 = build(s);
        tinymesh::simplifyQEM(*m2, target, trials, true);
        const Snap x = snap(*m), y = snap(*m2);
        VH_CHECK(x.tris == y.tris && x.holes == y.holes && x.pos == y.pos, "verbose", "verbose output changes the result");
        ctx.count("verbose");
    }
    ctx.eval();
    if (G < F) ctx.nontrivial(mix(s.hash(), (uint64_t)target));
    if (id < 40) ctx.sample(fmt("%s: %d faces, target %d, %d trials: %d", s.tag.c_str(), F, target, trials, G));
}
void vh::finish(Ctx &) {}
