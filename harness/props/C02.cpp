// C02: hostile buffers are reported or repaired.
#include "topo.h"
using namespace vh;

typedef std::array<uint64_t, 9> BTri;  // bit patterns, canonical rotation
static std::array<uint64_t, 3> bits(const P &p) {
    std::array<uint64_t, 3> r;
    double c[3] = {p.x + 0.0, p.y + 0.0, p.z + 0.0};  // -0 -> +0
    memcpy(r.data(), c, 24);
    return r;
}
static BTri btri(const P &a, const P &b, const P &c) {
    std::array<std::array<uint64_t, 3>, 3> t = {bits(a), bits(b), bits(c)};
    std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
    BTri r;
    for (int i = 0; i < 9; i++) r[(size_t)i] = t[(size_t)i / 3][(size_t)i % 3];
    return r;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = randomSurface(rng, rng.chance(0.3) ? 10 : 40);
    compact(s);
    if (rng.chance(0.5)) jitter(s, 1e-3, rng);
    if (!distinctPositions(s)) throw Skip();
    shuffleSoup(s, rng);
    std::vector<P> V = s.V;
    std::vector<uint32_t> I = s.flat();
    const bool wasManifold = analyse(s).manifold;
    std::string what;
    bool otherwiseFine = wasManifold;  // expected to be accepted completely
    const int nmut = rng.range(1, 3);
    auto insertTri = [&](uint32_t a, uint32_t b, uint32_t c) {
        const size_t at = 3 * rng.below(I.size() / 3 + 1);
        I.insert(I.begin() + (long)at, {a, b, c});
    };
    auto anyV = [&]() { return (uint32_t)rng.below(s.V.size()); };  // a used vertex
    for (int q = 0; q < nmut; q++) {
        switch (rng.below(13)) {
        case 0: {  // degenerate triangles over used vertices
            int n = rng.range(1, 5);
            for (int k = 0; k < n; k++) {
                uint32_t a = anyV(), b = anyV();
                switch (rng.below(4)) {
                case 0: insertTri(a, a, b); break;
                case 1: insertTri(a, b, a); break;
                case 2: insertTri(b, a, a); break;
                default: insertTri(a, a, a);
                }
            }
            what += " degenerate";
            break;
        }
        case 1: {  // degenerate at both ends of the buffer
            uint32_t a = anyV(), b = anyV();
            I.insert(I.begin(), {a, a, b});
            I.insert(I.end(), {a, b, a});
            if (rng.chance(0.5)) I.insert(I.end(), {b, b, b});
            what += " degenerate-ends";
            break;
        }
        case 2: {  // degenerate by equal positions
            uint32_t a = anyV(), b = anyV();
            V.push_back(V[a]);
            insertTri(a, (uint32_t)V.size() - 1, b);
            what += " degenerate-position";
            break;
        }
        case 3:  // bad length
            if (rng.chance(0.5) && I.size() > 3)
                I.resize(I.size() - (size_t)rng.range(1, 2));
            else
                for (int k = rng.range(1, 2); k > 0; k--) I.push_back(anyV());
            otherwiseFine = false;
            what += " length";
            break;
        case 4: {  // out of range
            uint32_t big[] = {(uint32_t)V.size(), (uint32_t)V.size() + 1, 0xffffffffu, 0x7fffffffu, 0x80000000u, (uint32_t)V.size() * 2};
            I[rng.below(I.size())] = big[rng.below(6)];
            otherwiseFine = false;
            what += " range";
            break;
        }
        case 5: {  // repeated triangle (any rotation)
            size_t k = 3 * rng.below(I.size() / 3);
            uint32_t t[3] = {I[k], I[k + 1], I[k + 2]};
            int r = (int)rng.below(3);
            insertTri(t[r], t[(r + 1) % 3], t[(r + 2) % 3]);
            otherwiseFine = false;
            what += " repeated";
            break;
        }
        case 6: {  // flipped triangle
            size_t k = 3 * rng.below(I.size() / 3);
            std::swap(I[k], I[k + 1]);
            otherwiseFine = false;
            what += " flipped";
            break;
        }
        case 7:  // random extra triangle: non-manifold edges/vertices
            for (int k = rng.range(1, 4); k > 0; k--) insertTri(anyV(), anyV(), anyV());
            otherwiseFine = false;
            what += " random-triangles";
            break;
        case 8: {  // two components joined at a vertex
            uint32_t a = anyV();
            V.push_back(P(100, 1, 2));
            V.push_back(P(100, 3, 5));
            insertTri(a, (uint32_t)V.size() - 2, (uint32_t)V.size() - 1);
            otherwiseFine = false;
            what += " bowtie";
            break;
        }
        case 9: {  // third triangle on an edge
            size_t k = 3 * rng.below(I.size() / 3);
            uint32_t a = I[k], b = I[k + 1];
            V.push_back(P(50, 50, 50 + rng.uni()));
            if (rng.chance(0.5)) std::swap(a, b);
            insertTri(a, b, (uint32_t)V.size() - 1);
            otherwiseFine = false;
            what += " non-manifold-edge";
            break;
        }
        case 10: {  // non-finite coordinates
            double bad[] = {NAN, INFINITY, -INFINITY, -NAN};
            for (int k = rng.range(1, 3); k > 0; k--) {
                P &p = V[anyV()];
                (rng.chance(0.3) ? p.x : rng.chance(0.5) ? p.y : p.z) = bad[rng.below(4)];
            }
            otherwiseFine = false;
            what += " non-finite";
            break;
        }
        case 11:  // unused vertices / empty buffers
            if (rng.chance(0.2)) {
                I.clear();
                if (rng.chance(0.5)) V.clear();
                otherwiseFine = false;
                what += " empty";
            } else {
                for (int k = rng.range(1, 4); k > 0; k--) V.push_back(P(rng.uni(), 77, rng.uni()));
                what += " unused";
            }
            break;
        default: {  // vertices collapse to the same position
            int n = rng.range(1, 3);
            for (int k = 0; k < n; k++) V[anyV()] = V[anyV()];
            otherwiseFine = false;
            what += " merged-positions";
        }
        }
        if (V.empty() || I.empty() || I.size() % 3) break;
    }
    // exact-size heap buffers so that any overread is seen
    std::vector<Vec3> vb = toVs(V);
    vb.shrink_to_fit();
    std::vector<uint32_t> ib = I;
    ib.shrink_to_fit();
    ctx.stage("construct in child");
    ChildResult r = runChild([&]() -> std::string {
        Mesh m(vb, ib);
        ValidateOpts o;
        validate(m, "connectivity", o);
        std::map<BTri, long> have;
        for (size_t i = 0; i + 2 < I.size(); i += 3) {
            if (I[i] >= V.size() || I[i + 1] >= V.size() || I[i + 2] >= V.size()) continue;
            have[btri(V[I[i]], V[I[i + 1]], V[I[i + 2]])]++;
        }
        Snap n = snap(m);
        for (auto &t : n.tris) {
            auto it = have.find(btri(n.pos[t[0]], n.pos[t[1]], n.pos[t[2]]));
            VH_CHECK(it != have.end() && it->second > 0, "invented-triangle", "the mesh has a triangle that was not given (%s)", what.c_str());
            it->second--;
        }
        return fmt("%zu", n.tris.size());
    });
    VH_CHECK(r.kind != ChildResult::CRASH, "crash", "construction died:%s: %s", what.c_str(), r.text.c_str());
    VH_CHECK(r.kind != ChildResult::HANG, "hang", "construction does not end:%s", what.c_str());
    if (otherwiseFine) {
        VH_CHECK(r.kind == ChildResult::OK, "rejected-valid", "manifold input with only%s was rejected", what.c_str());
        VH_CHECK((size_t)atol(r.text.c_str()) == s.F.size(), "lost-triangles", "%s of %zu triangles kept with only%s", r.text.c_str(), s.F.size(), what.c_str());
        ctx.count("repaired");
    }
    ctx.count(r.kind == ChildResult::OK ? "accepted" : "reported");
    ctx.eval();
    ctx.nontrivial(mix(s.topoHash(), std::hash<std::string>()(what)));
    if (id < 40) ctx.sample(fmt("%s with%s -> %s", s.tag.c_str(), what.c_str(), r.kind == ChildResult::OK ? "accepted" : "reported"));
}
void vh::finish(Ctx &) {}
