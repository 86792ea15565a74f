// C33: file errors and damaged files.
#include "edit.h"
#include "fileio.h"
using namespace vh;

// What an OBJ text says, as far as it is beyond doubt.
struct ObjView {
    Soup s;
    bool clear = true;
};
static ObjView viewObj(const std::string &text) {
    ObjView v;
    size_t at = 0;
    while (at < text.size()) {
        size_t e = text.find('\n', at);
        if (e == std::string::npos) e = text.size();
        std::string line = text.substr(at, e - at);
        at = e + 1;
        for (unsigned char c : line)
            if ((c < 0x20 && c != '\t') || c >= 0x7f || c == '\\') v.clear = false;
        std::istringstream ss(line);
        std::vector<std::string> tok;
        for (std::string t; ss >> t;) tok.push_back(t);
        if (tok.empty() || (tok[0] != "v" && tok[0] != "f")) continue;
        if (tok.size() != 4) {
            v.clear = false;
            continue;
        }
        if (tok[0] == "v") {
            double d[3];
            for (int k = 0; k < 3; k++) {
                char *end = nullptr;
                d[k] = strtod(tok[(size_t)k + 1].c_str(), &end);
                if (*end || tok[(size_t)k + 1].find_first_not_of("0123456789+-.e") != std::string::npos || !(std::fabs(d[k]) < 1e30) || (d[k] != 0 && std::fabs(d[k]) < 1e-30)) v.clear = false;
            }
            v.s.V.push_back(P((float)d[0], (float)d[1], (float)d[2]));
        } else {
            Tri t;
            for (int k = 0; k < 3; k++) {
                const std::string &x = tok[(size_t)k + 1];
                if (x.find_first_not_of("0123456789") != std::string::npos || x.size() > 8) v.clear = false;
                t[(size_t)k] = (uint32_t)atol(x.c_str()) - 1;
            }
            v.s.F.push_back(t);
        }
    }
    return v;
}

typedef std::array<std::array<float, 3>, 3> FTri;
static FTri ftri(const P &a, const P &b, const P &c) {
    auto f = [](const P &p) { return std::array<float, 3>{(float)p.x + 0.0f, (float)p.y + 0.0f, (float)p.z + 0.0f}; };
    FTri t = {f(a), f(b), f(c)};
    std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
    return t;
}

static ChildResult load(const std::string &path, const std::string &what) {
    ChildResult r = runChild([&]() -> std::string {
        Mesh m;
        m.load(path);
        ValidateOpts o;
        validate(m, "connectivity", o);
        Snap n = snap(m);
        std::string out;
        for (auto &t : n.tris) {
            double q[9];
            for (int k = 0; k < 3; k++) memcpy(q + 3 * k, &n.pos[t[(size_t)k]], 24);
            out.append((const char *)q, sizeof q);
        }
        return out;
    });
    VH_CHECK(r.kind != ChildResult::CRASH, "crash", "loading a file with %s died: %s", what.c_str(), r.text.c_str());
    VH_CHECK(r.kind != ChildResult::HANG, "hang", "loading a file with %s does not end", what.c_str());
    return r;
}
// The triangles the library read must be among those of the file.
static void within(const std::string &tris, const Soup &s, const std::string &what) {
    std::map<FTri, long> have;
    for (auto &f : s.F)
        if (f[0] < s.V.size() && f[1] < s.V.size() && f[2] < s.V.size()) have[ftri(s.V[f[0]], s.V[f[1]], s.V[f[2]])]++;
    for (size_t i = 0; i + 72 <= tris.size(); i += 72) {
        P q[3];
        for (int k = 0; k < 3; k++) memcpy(&q[k], tris.data() + i + 24 * (size_t)k, 24);
        auto it = have.find(ftri(q[0], q[1], q[2]));
        VH_CHECK(it != have.end() && it->second > 0, "invented-triangle", "a file with %s loads with a triangle it does not hold", what.c_str());
        it->second--;
    }
}
static void judge(Ctx &ctx, const std::string &path, const std::string &data, bool obj, const std::string &what, bool mustFail) {
    putFile(path, data);
    ChildResult r = load(path, what);
    ctx.eval();
    if (r.kind != ChildResult::OK) {
        ctx.count("reported");
        return;
    }
    VH_CHECK(!mustFail, "accepted", "a file with %s is loaded as if nothing were wrong", what.c_str());
    VH_CHECK(!r.text.empty(), "nothing", "a file with %s is loaded as a mesh without triangles", what.c_str());
    if (obj) {
        ObjView v = viewObj(data);
        if (v.clear) {
            within(r.text, v.s, what);
            ctx.count("compared");
        }
    } else {
        Soup s;
        if (parsePly(data, s)) {
            within(r.text, s, what);
            ctx.count("compared");
        }
    }
    ctx.count("loaded");
}
static std::string damaged(std::string d, Rng &rng, std::string &what) {
    static const char pal[] = "0123456789-.e /\n vf#";
    for (int k = rng.range(1, 4); k > 0 && d.size() > 2; k--) {
        const size_t at = rng.below(d.size());
        switch (rng.below(7)) {
        case 0:
        case 1:
            d[at] = pal[rng.below(sizeof pal - 1)];
            what += fmt(" byte %zu set", at);
            break;
        case 2:
            d[at] = (char)rng.below(256);
            what += fmt(" byte %zu overwritten", at);
            break;
        case 3:
            d.erase(at, 1 + rng.below(rng.chance(0.3) ? 20 : 1));
            what += fmt(" bytes missing at %zu", at);
            break;
        case 4:
            d.insert(at, 1, pal[rng.below(sizeof pal - 1)]);
            what += fmt(" byte inserted at %zu", at);
            break;
        case 5:
            d[at] = (char)(d[at] ^ (1 << rng.below(8)));
            what += fmt(" bit flipped at %zu", at);
            break;
        default: {  // a line lost or doubled
            size_t b = d.rfind('\n', at), e = d.find('\n', at);
            if (b == std::string::npos || e == std::string::npos || e <= b) break;
            const std::string l = d.substr(b, e - b);
            if (rng.chance(0.5))
                d.erase(b, e - b);
            else
                d.insert(b, l);
            what += fmt(" line at %zu lost or doubled", at);
        }
        }
    }
    return d;
}
// A header whose counts would let any reader run for very long is no use here.
static bool modest(const std::string &d) {
    const std::string h = d.substr(0, std::min(d.size(), d.find("end_header")));
    size_t digits = 0;
    for (char c : h) {
        digits = isdigit((unsigned char)c) ? digits + 1 : 0;
        if (digits > 6) return false;
    }
    return true;
}

static void expectReport(Ctx &ctx, const char *key, const std::string &what, const std::function<std::string()> &f) {
    ChildResult r = runChild(f);
    ctx.eval();
    VH_CHECK(r.kind != ChildResult::CRASH, "crash", "%s died: %s", what.c_str(), r.text.c_str());
    VH_CHECK(r.kind != ChildResult::HANG, "hang", "%s does not end", what.c_str());
    VH_CHECK(r.kind != ChildResult::OK, key, "%s is not reported", what.c_str());
    ctx.count(key);
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    ctx.stage("generate");
    Soup s = okSurface(rng, rng.chance(0.1) ? 60 : 12);
    if (!distinctPositions(floatRounded(s))) throw Skip();
    const std::string dir = ctx.scratch + fmt("/c33.%d", ctx.shard);
    mkdir(dir.c_str(), 0755);
    const bool obj = rng.chance(0.5);
    const std::string path = dir + (obj ? "/a.obj" : "/a.ply");
    std::string good = obj ? objText(s) : plyBytes(s);
    const int kind = (int)rng.below(5);
    ctx.nontrivial(mix(s.topoHash(), (uint64_t)id));
    if (kind == 0) {  // truncation
        ctx.stage("truncated");
        for (int k = 0; k < 12; k++) {
            const size_t cut = k == 0 ? 0 : k == 1 ? good.size() - 1 : rng.chance(0.3) ? good.size() - 1 - rng.below(std::min<size_t>(good.size(), 40)) : rng.below(good.size());
            judge(ctx, path, good.substr(0, cut), obj, fmt("%zu of %zu bytes", cut, good.size()), !obj);
            ctx.count(obj ? "truncated_obj" : "truncated_ply");
        }
        if (id < 40) ctx.sample(fmt("%s: truncated at 12 places", s.tag.c_str()));
    } else if (kind == 1) {  // byte damage
        ctx.stage("damaged");
        for (int k = 0; k < 12; k++) {
            std::string what;
            const std::string d = damaged(good, rng, what);
            if (what.empty() || (!obj && !modest(d))) continue;
            judge(ctx, path, d, obj, what, false);
            ctx.count("damaged");
        }
    } else if (kind == 2) {  // contents that make no triangles
        ctx.stage("malformed");
        for (int k = 0; k < 6; k++) {
            Soup t = s;
            std::string d, what;
            bool must = true;
            size_t fi = rng.below(t.F.size()), ci = rng.below(3);
            if (k == 0) {  // index out of range
                const uint32_t n = (uint32_t)t.V.size();
                const uint32_t bad[] = {n, n + 1, n + (uint32_t)rng.below(1000), 1000000u, 0x7ffffffeu, 0x3fffffffu};
                t.F[fi][ci] = bad[rng.below(6)];
                if (!obj && rng.chance(0.3)) t.F[fi][ci] = 0xffffffffu - (uint32_t)rng.below(3);
                d = obj ? objText(t) : plyBytes(t);
                what = fmt("vertex index %u of %u", t.F[fi][ci], n);
            } else if (k == 1) {  // not a number
                if (obj) continue;
                P &p = t.V[t.F[fi][ci]];
                (ci == 0 ? p.x : ci == 1 ? p.y : p.z) = rng.chance(0.5) ? NAN : -NAN;
                d = plyBytes(t);
                what = "NaN";
                must = false;
            } else if (k == 2) {  // types, elements or properties the reader cannot use
                if (obj) {
                    d = good.substr(0, good.find("\nf") + 1) + fmt("f %u %u 0\n", t.F[fi][0] + 1, t.F[fi][1] + 1) + good.substr(good.find("\nf") + 1);
                    what = "vertex index 0";
                } else {
                    d = plyBytes(t);
                    const char *edits[][2] = {{"element vertex", "element node"}, {"element face", "element facet"}, {"float x", "float X"}, {"vertex_indices", "indices"}};
                    auto &e = edits[rng.below(4)];
                    d.replace(d.find(e[0]), strlen(e[0]), e[1]);
                    what = e[1];
                }
            } else if (k == 3) {  // double positions, 16-bit indices
                if (obj) continue;
                std::string h = fmt("ply\nformat binary_little_endian 1.0\nelement vertex %zu\n", t.V.size());
                const bool dbl = rng.chance(0.5);
                for (char c : {'x', 'y', 'z'}) h += fmt("property %s %c\n", dbl ? "double" : "float", c);
                h += fmt("element face %zu\nproperty list uchar %s vertex_indices\nend_header\n", t.F.size(), dbl ? "int" : "ushort");
                for (auto &p : t.V) {
                    if (dbl) {
                        h.append((const char *)&p, 24);
                    } else {
                        float q[3] = {(float)p.x, (float)p.y, (float)p.z};
                        h.append((const char *)q, 12);
                    }
                }
                for (auto &f : t.F) {
                    h += (char)3;
                    for (auto i : f) {
                        if (dbl)
                            h.append((const char *)&i, 4);
                        else
                            h.append((const char *)&i, 2);
                    }
                }
                d = h;
                what = dbl ? "double precision" : "short indices";
                must = false;
            } else if (k == 4) {  // polygons in a binary file
                if (obj) continue;
                std::string h = fmt("ply\nformat binary_little_endian 1.0\nelement vertex %zu\nproperty float x\nproperty float y\nproperty float z\nelement face %zu\nproperty list uchar int vertex_indices\nend_header\n", t.V.size(), t.F.size());
                for (auto &p : t.V) {
                    float q[3] = {(float)p.x, (float)p.y, (float)p.z};
                    h.append((const char *)q, 12);
                }
                const int n = rng.chance(0.5) ? 2 : 4;
                for (size_t i = 0; i < t.F.size(); i++) {
                    uint32_t q[4] = {t.F[i][0], t.F[i][1], t.F[i][2], (uint32_t)rng.below(t.V.size())};
                    const int c = i == fi ? n : 3;
                    h += (char)c;
                    h.append((const char *)q, (size_t)c * 4);
                }
                d = h;
                what = fmt("a face of %d corners", n);
            } else {  // nothing to read
                const char *nothing[] = {"", "\n", "# only a comment\n", "ply\n", "v 1 2 3\nv 4 5 6\n",
                                         "ply\nformat ascii 1.0\nelement vertex 0\nproperty float x\nproperty float y\nproperty float z\nelement face 0\nproperty list uchar int vertex_indices\nend_header\n"};
                d = nothing[rng.below(6)];
                what = "nothing to read";
            }
            judge(ctx, path, d, obj, what, must);
            ctx.count("malformed");
        }
    } else if (kind == 3) {  // nothing that could be loaded
        ctx.stage("unreadable");
        const std::string sub = dir + (obj ? "/d.obj" : "/d.ply"), link = dir + (obj ? "/l.obj" : "/l.ply");
        mkdir(sub.c_str(), 0755);
        unlink(link.c_str());
        if (symlink((dir + "/nowhere" + (obj ? ".obj" : ".ply")).c_str(), link.c_str()) != 0) throw Skip();
        putFile(dir + "/a.stl", good);
        putFile(dir + "/a", good);
        putFile(dir + "/obj", good);
        for (const std::string &p : {sub, link, dir + "/missing" + (obj ? ".obj" : ".ply"), dir + "/a.stl", dir + "/a", dir + "/obj", dir + "/no/such" + (obj ? ".obj" : ".ply"), std::string()})
            expectReport(ctx, "unreadable", "loading " + (p.empty() ? std::string("no name") : p.substr(dir.size())), [&] {
                Mesh m;
                m.load(p);
                return std::string();
            });
    } else {  // nowhere to save to
        ctx.stage("unwritable");
        auto m = build(s);
        const std::string sub = dir + (obj ? "/d.obj" : "/d.ply"), full = dir + (obj ? "/f.obj" : "/f.ply");
        mkdir(sub.c_str(), 0755);
        putFile(dir + "/a", good);
        unlink(full.c_str());
        if (symlink("/dev/full", full.c_str()) != 0) throw Skip();
        for (const std::string &p : {sub, full, dir + "/a.stl", dir + "/b", dir + "/a/b" + (obj ? ".obj" : ".ply"), dir + "/no/such" + (obj ? ".obj" : ".ply")})
            expectReport(ctx, "unwritable", "saving to " + (p == full ? "a full device" : p.substr(dir.size())), [&] {
                m->save(p);
                return std::string();
            });
        unlink(full.c_str());
        // the disk fills up while saving
        m->save(path);
        const size_t size = getFile(path).size();
        unlink(path.c_str());
        for (int k = 0; k < 4; k++) {
            const size_t room = k == 0 ? size - 1 : rng.below(size);
            expectReport(ctx, "short_write", fmt("saving %zu bytes where %zu fit", size, room), [&] {
                signal(SIGXFSZ, SIG_IGN);
                struct rlimit rl = {room, room};
                setrlimit(RLIMIT_FSIZE, &rl);
                m->save(path);
                rl = {RLIM_INFINITY, RLIM_INFINITY};
                return std::string();
            });
            unlink(path.c_str());
        }
    }
}
void vh::finish(Ctx &) {}
