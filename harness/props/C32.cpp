// C32: saving and loading.
#include "edit.h"
#include "fileio.h"
#include "restore/restore.h"
using namespace vh;

// The triangles of s as files by other programs would hold them.
static std::string foreignObj(const Soup &s, Rng &rng) {
    const int style = (int)rng.below(5);
    const bool groups = rng.chance(0.5), relative = style == 4;
    std::string r = "# a comment\n";
    if (rng.chance(0.3)) r += "mtllib none.mtl\n";
    for (auto &p : s.V) r += rng.chance(0.1) ? fmt("v  %.17g\t%.17g %.17g\n", p.x, p.y, p.z) : fmt("v %.17g %.17g %.17g\n", p.x, p.y, p.z);
    if (style == 1 || style == 3)
        for (size_t i = 0; i < s.V.size(); i++) r += fmt("vt %g %g\n", rng.uni(), rng.uni());
    if (style >= 2 && style != 4)
        for (size_t i = 0; i < s.V.size(); i++) r += "vn 0 0 1\n";
    if (groups) r += "g first\n";
    for (size_t k = 0; k < s.F.size(); k++) {
        if (groups && rng.chance(0.05)) r += fmt("%s part%zu\n", rng.chance(0.5) ? "g" : "o", k);
        r += "f";
        for (auto i : s.F[k]) {
            if (style == 0) r += fmt(" %u", i + 1);
            if (style == 1) r += fmt(" %u/%u", i + 1, (unsigned)rng.below(s.V.size()) + 1);
            if (style == 2) r += fmt(" %u//%u", i + 1, (unsigned)rng.below(s.V.size()) + 1);
            if (style == 3) r += fmt(" %u/%u/%u", i + 1, i + 1, (unsigned)rng.below(s.V.size()) + 1);
            if (relative) r += fmt(" %ld", (long)i - (long)s.V.size());
        }
        r += "\n";
    }
    return r;
}
static std::string foreignPly(const Soup &s, Rng &rng) {
    const bool normals = rng.chance(0.5), uv = rng.chance(0.3), color = rng.chance(0.3), bin = rng.chance(0.7), sign = rng.chance(0.5), faceExtra = rng.chance(0.3);
    std::string r = fmt("ply\nformat %s 1.0\n", bin ? "binary_little_endian" : "ascii");
    if (rng.chance(0.5)) r += "comment written elsewhere\n";
    r += fmt("element vertex %zu\n", s.V.size());
    if (color) r += "property uchar red\n";
    r += "property float x\nproperty float y\nproperty float z\n";
    if (normals) r += "property float nx\nproperty float ny\nproperty float nz\n";
    if (uv) r += "property float u\nproperty float v\n";
    r += fmt("element face %zu\n", s.F.size());
    if (faceExtra) r += "property uchar flags\n";
    r += fmt("property list uchar %s vertex_indices\nend_header\n", sign ? "int" : "uint");
    auto F = [&](double v) {
        float x = (float)v;
        if (bin)
            r.append((const char *)&x, 4);
        else
            r += fmt("%.9g ", x);
    };
    auto B = [&](int v) {
        if (bin)
            r += (char)v;
        else
            r += fmt("%d ", v);
    };
    for (auto &p : s.V) {
        if (color) B((int)rng.below(200));
        F(p.x), F(p.y), F(p.z);
        if (normals) F(0), F(0), F(1);
        if (uv) F(rng.uni()), F(rng.uni());
        if (!bin) r += "\n";
    }
    for (auto &f : s.F) {
        if (faceExtra) B(7);
        B(3);
        for (auto i : f) {
            if (bin)
                r.append((const char *)&i, 4);
            else
                r += fmt("%u ", i);
        }
        if (!bin) r += "\n";
    }
    return r;
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = okSurface(rng, rng.chance(0.1) ? 300 : 60);
    const int mode = (int)rng.below(4);
    if (mode == 1) scale(s, std::pow(10.0, rng.uni(-30, 30)));
    if (mode == 2 && rng.chance(0.5)) {  // far away: single precision may not tell vertices apart
        const double off = std::pow(10.0, rng.uni(3, 9));
        for (auto &p : s.V) p = p + P(off, -off, off);
    } else if (mode == 2)
        for (auto &p : s.V) p = p + P(std::pow(10.0, rng.uni(-3, 5)), 0, -std::pow(10.0, rng.uni(-3, 5)));
    if (mode == 3)  // each coordinate of its own magnitude
        for (auto &p : s.V) p = P(p.x * std::pow(10.0, rng.uni(-12, 12)), p.y * std::pow(10.0, rng.uni(-12, 12)), p.z * std::pow(10.0, rng.uni(-12, 12)));
    if (!distinctPositions(s)) throw Skip();
    auto m = build(s);
    if (rng.chance(0.6)) {
        ctx.stage("edit");
        size_t done = 0;
        for (int k = rng.range(1, 20); k > 0; k--) {
            Halfedge *h = m->halfedge((int)rng.below(m->numHalfedges()));
            const int op = (int)rng.below(3);
            done += op == 0 ? m->flipHE(h) : op == 1 ? m->splitHE(h) : m->collapseHE(h);
        }
        if (done) ctx.count("edited");
    }
    if (rng.chance(0.2))
        for (size_t i = 0; i < m->numFaces(); i++)
            if (m->face((int)i)->isHole() && rng.chance(0.5)) {
                ctx.stage("fill");
                holeFillMinDihedral(*m, m->face((int)i));
                ctx.count("filled");
                break;
            }
    if (rng.chance(0.3)) m->vertex((int)rng.below(m->numVertices()))->lock();
    Soup now = toSoup(*m);
    if (!distinctPositions(now) || !analyse(now).manifold) throw Skip();
    const State before = state(*m);
    const std::string base = ctx.scratch + fmt("/c32.%d%s", ctx.shard, rng.chance(0.3) ? ".v1 x" : "");
    const std::string obj = base + ".obj", ply = base + ".ply";
    const bool stale = rng.chance(0.5);
    for (const std::string &path : {obj, ply}) {
        const bool text = path == obj;
        unlink(path.c_str());
        ctx.stage("save");
        m->save(path);
        sameState(before, state(*m), "saving-changes", "saving");
        const std::string data = getFile(path);
        Soup got;
        const bool readable = text ? parseObj(data, got) : parsePly(data, got);
        VH_CHECK(readable, text ? "obj-format" : "ply-format", "the saved file is not a well-formed %s file", text ? "OBJ" : "PLY");
        VH_CHECK(got.V.size() == now.V.size(), "vertices", "%zu vertices saved as %zu", now.V.size(), got.V.size());
        VH_CHECK(got.F.size() == now.F.size(), "faces", "%zu triangles saved as %zu", now.F.size(), got.F.size());
        for (auto &f : got.F)
            for (auto i : f) VH_CHECK(i < got.V.size(), "index", "saved triangle has vertex %u of %zu", i, got.V.size());
        const Soup want = text ? now : floatRounded(now);
        VH_CHECK(ptris(got) == ptris(want), text ? "obj-content" : "ply-content", "saved triangles differ from the mesh's");
        if (stale) {
            ctx.stage("overwrite");
            putFile(path, std::string(data.size() + 1 + rng.below(5000), 'f'));
            m->save(path);
            VH_CHECK(getFile(path) == data, "overwrite", "saving over a longer file leaves something of it");
            ctx.count("overwritten");
        }
        const Soup rounded = floatRounded(now);
        if (distinctPositions(rounded)) {
            ctx.stage("load");
            Mesh back;
            back.load(path);
            validate(back, "loaded");
            VH_CHECK(ptris(toSoup(back)) == ptris(rounded), text ? "obj-loaded" : "ply-loaded", "loaded triangles differ from the saved ones");
            VH_CHECK(back.numVertices() == now.V.size(), "loaded-vertices", "%zu vertices loaded as %zu", now.V.size(), back.numVertices());
            Mesh back2(path);
            VH_CHECK(snap(back2) == snap(back), "constructor", "loading and constructing from a file differ");
            ctx.count(text ? "obj_round_trips" : "ply_round_trips");
            ctx.nontrivial(mix(now.topoHash(), (uint64_t)mode * 2 + text));
            // files by other programs
            ctx.stage("foreign");
            putFile(path, text ? foreignObj(now, rng) : foreignPly(now, rng));
            Mesh other;
            other.load(path);
            validate(other, "foreign");
            VH_CHECK(ptris(toSoup(other)) == ptris(rounded), text ? "obj-foreign" : "ply-foreign", "triangles loaded differ from those of the file");
            ctx.count("foreign");
        } else {
            ctx.count("merged_by_rounding");
        }
        unlink(path.c_str());
        ctx.eval();
    }
    if (id < 30) ctx.sample(fmt("%s, mode %d: %zu triangles saved and loaded", s.tag.c_str(), mode, now.F.size()));
}
void vh::finish(Ctx &) {}
