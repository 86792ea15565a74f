// Own writers and readers of the two file formats, as oracles for the library's.
#pragma once
#include "gen.h"

#include <sstream>

namespace vh {

inline void putFile(const std::string &path, const std::string &data) {
    FILE *f = fopen(path.c_str(), "wb");
    if (!f) {
        perror(path.c_str());
        _exit(3);
    }
    fwrite(data.data(), 1, data.size(), f);
    fclose(f);
}
inline std::string getFile(const std::string &path) {
    std::string r;
    FILE *f = fopen(path.c_str(), "rb");
    if (!f) return r;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
inline std::string objText(const Soup &s) {
    std::string r;
    for (auto &p : s.V) r += fmt("v %.17g %.17g %.17g\n", p.x, p.y, p.z);
    for (auto &f : s.F) r += fmt("f %u %u %u\n", f[0] + 1, f[1] + 1, f[2] + 1);
    return r;
}
inline std::string plyBytes(const Soup &s) {
    std::string r = fmt("ply\nformat binary_little_endian 1.0\nelement vertex %zu\nproperty float x\nproperty float y\nproperty float z\n"
                        "element face %zu\nproperty list uchar int vertex_indices\nend_header\n", s.V.size(), s.F.size());
    for (auto &p : s.V) {
        float q[3] = {(float)p.x, (float)p.y, (float)p.z};
        r.append((const char *)q, 12);
    }
    for (auto &f : s.F) {
        r += (char)3;
        r.append((const char *)f.data(), 12);
    }
    return r;
}
inline Soup floatRounded(Soup s) {
    for (auto &p : s.V) p = P((float)p.x, (float)p.y, (float)p.z);
    return s;
}
inline bool parseObj(const std::string &text, Soup &s) {
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        P p;
        unsigned a, b, c;
        if (sscanf(line.c_str(), "v %lf %lf %lf", &p.x, &p.y, &p.z) == 3)
            s.V.push_back(p);
        else if (sscanf(line.c_str(), "f %u %u %u", &a, &b, &c) == 3)
            s.F.push_back({a - 1, b - 1, c - 1});
        else if (!line.empty() && line[0] != '#')
            return false;
    }
    return true;
}

// Header-driven reader of what a PLY file says (binary little endian or ascii).
inline bool parsePly(const std::string &d, Soup &s) {
    struct Prop {
        std::string name, type, count;
    };
    struct El {
        std::string name;
        size_t n = 0;
        std::vector<Prop> p;
    };
    std::vector<El> els;
    size_t at = 0;
    bool ok = false, bin = false;
    while (at < d.size()) {
        size_t e = d.find('\n', at);
        if (e == std::string::npos) return false;
        std::istringstream ss(d.substr(at, e - at));
        at = e + 1;
        std::string k;
        ss >> k;
        if (k == "format") {
            ss >> k;
            if (k != "binary_little_endian" && k != "ascii") return false;
            bin = k != "ascii";
        } else if (k == "element") {
            El x;
            ss >> x.name >> x.n;
            els.push_back(x);
        } else if (k == "property") {
            Prop p;
            ss >> p.type;
            if (p.type == "list") ss >> p.count >> p.type;
            ss >> p.name;
            if (els.empty()) return false;
            els.back().p.push_back(p);
        } else if (k == "end_header") {
            ok = true;
            break;
        }
    }
    if (!ok || d.compare(0, 4, "ply\n") != 0) return false;
    std::istringstream text(d.substr(at));
    auto get = [&](const std::string &t, double &v) {
        if (!bin) return (bool)(text >> v);
        auto take = [&](auto x) {
            if (at + sizeof x > d.size()) return false;
            memcpy(&x, d.data() + at, sizeof x);
            at += sizeof x;
            v = (double)x;
            return true;
        };
        if (t == "float" || t == "float32") return take(float());
        if (t == "double" || t == "float64") return take(double());
        if (t == "char" || t == "int8") return take(int8_t());
        if (t == "uchar" || t == "uint8") return take(uint8_t());
        if (t == "short" || t == "int16") return take(int16_t());
        if (t == "ushort" || t == "uint16") return take(uint16_t());
        if (t == "int" || t == "int32") return take(int32_t());
        if (t == "uint" || t == "uint32") return take(uint32_t());
        return false;
    };
    for (auto &e : els)
        for (size_t i = 0; i < e.n; i++) {
            P q;
            for (auto &p : e.p) {
                double v = 0;
                if (!p.count.empty()) {
                    double n = 0;
                    if (!get(p.count, n)) return false;
                    std::vector<uint32_t> l;
                    for (int j = 0; j < (int)n; j++) {
                        if (!get(p.type, v)) return false;
                        l.push_back((uint32_t)v);
                    }
                    if (e.name == "face" && (p.name == "vertex_indices" || p.name == "vertex_index")) {
                        if (l.size() != 3) return false;
                        s.F.push_back({l[0], l[1], l[2]});
                    }
                } else {
                    if (!get(p.type, v)) return false;
                    if (p.name == "x") q.x = v;
                    if (p.name == "y") q.y = v;
                    if (p.name == "z") q.z = v;
                }
            }
            if (e.name == "vertex") s.V.push_back(q);
        }
    if (bin && at != d.size()) return false;
    for (auto &f : s.F)
        for (auto i : f)
            if (i >= s.V.size()) return false;
    return true;
}

}  // namespace vh
