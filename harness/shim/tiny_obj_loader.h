// Offline stand-in for tinyobjloader (the submodule is not part of the pinned
// tree).  Implements the slice of the API that a triangle-mesh loader needs,
// with the real library's conventions: single-precision coordinates, 0-based
// vertex indices in index_t, negative (relative) indices resolved, polygons
// fan-triangulated.
#ifndef TINY_OBJ_LOADER_H_
#define TINY_OBJ_LOADER_H_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace tinyobj {
#ifdef TINYOBJLOADER_USE_DOUBLE
typedef double real_t;
#else
typedef float real_t;
#endif
struct index_t {
    int vertex_index;
    int normal_index;
    int texcoord_index;
};
struct mesh_t {
    std::vector<index_t> indices;
    std::vector<unsigned char> num_face_vertices;
    std::vector<int> material_ids;
    std::vector<unsigned int> smoothing_group_ids;
};
struct shape_t {
    std::string name;
    mesh_t mesh;
};
struct attrib_t {
    std::vector<real_t> vertices;
    std::vector<real_t> normals;
    std::vector<real_t> texcoords;
    std::vector<real_t> colors;
};
struct material_t {
    std::string name;
};

inline bool verifParseIndex(const std::string &tok, int nv, int nt, int nn, index_t &out) {
    out.vertex_index = out.normal_index = out.texcoord_index = -1;
    int part = 0;
    size_t pos = 0;
    while (part < 3) {
        const size_t e = tok.find('/', pos);
        const std::string s = tok.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
        if (!s.empty()) {
            const int raw = std::atoi(s.c_str());
            if (raw == 0) return false;
            const int n = part == 0 ? nv : part == 1 ? nt : nn;
            const int v = raw > 0 ? raw - 1 : n + raw;
            if (v < 0) return false;
            if (part == 0) out.vertex_index = v;
            if (part == 1) out.texcoord_index = v;
            if (part == 2) out.normal_index = v;
        } else if (part == 0) {
            return false;
        }
        if (e == std::string::npos) break;
        pos = e + 1;
        part++;
    }
    return true;
}

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *materials,
                    std::string *warn, std::string *err, std::istream *in, void * = nullptr, bool triangulate = true,
                    bool = true) {
    (void)warn;
    attrib->vertices.clear();
    attrib->normals.clear();
    attrib->texcoords.clear();
    attrib->colors.clear();
    shapes->clear();
    if (materials) materials->clear();
    shape_t cur;
    std::string line;
    while (std::getline(*in, line)) {
        while (!line.empty() && (line.back() == '\r' || line.back() == '\n')) line.pop_back();
        std::istringstream ss(line);
        std::string key;
        ss >> key;
        if (key == "v") {
            double x = 0, y = 0, z = 0;
            ss >> x >> y >> z;
            attrib->vertices.push_back(static_cast<real_t>(x));
            attrib->vertices.push_back(static_cast<real_t>(y));
            attrib->vertices.push_back(static_cast<real_t>(z));
        } else if (key == "vn") {
            double x = 0, y = 0, z = 0;
            ss >> x >> y >> z;
            attrib->normals.push_back(static_cast<real_t>(x));
            attrib->normals.push_back(static_cast<real_t>(y));
            attrib->normals.push_back(static_cast<real_t>(z));
        } else if (key == "vt") {
            double x = 0, y = 0;
            ss >> x >> y;
            attrib->texcoords.push_back(static_cast<real_t>(x));
            attrib->texcoords.push_back(static_cast<real_t>(y));
        } else if (key == "o" || key == "g") {
            if (!cur.mesh.indices.empty()) shapes->push_back(cur);
            cur = shape_t();
            ss >> cur.name;
        } else if (key == "f") {
            std::vector<index_t> poly;
            std::string tok;
            while (ss >> tok) {
                index_t id;
                if (!verifParseIndex(tok, (int)attrib->vertices.size() / 3, (int)attrib->texcoords.size() / 2,
                                     (int)attrib->normals.size() / 3, id)) {
                    if (err) *err += "Failed to parse `f' line (e.g. zero value for vertex index).\n";
                    return false;
                }
                poly.push_back(id);
            }
            if (poly.size() < 3) continue;
            if (triangulate) {
                for (size_t k = 2; k < poly.size(); k++) {
                    cur.mesh.indices.push_back(poly[0]);
                    cur.mesh.indices.push_back(poly[k - 1]);
                    cur.mesh.indices.push_back(poly[k]);
                    cur.mesh.num_face_vertices.push_back(3);
                }
            } else {
                for (const auto &p : poly) cur.mesh.indices.push_back(p);
                cur.mesh.num_face_vertices.push_back((unsigned char)poly.size());
            }
        }
    }
    if (!cur.mesh.indices.empty()) shapes->push_back(cur);
    return true;
}

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *materials,
                    std::string *warn, std::string *err, const char *filename, const char * = nullptr,
                    bool triangulate = true, bool dflt = true) {
    attrib->vertices.clear();
    attrib->normals.clear();
    attrib->texcoords.clear();
    attrib->colors.clear();
    shapes->clear();
    std::ifstream ifs(filename);
    if (!ifs) {
        if (err) *err += std::string("Cannot open file [") + filename + "]\n";
        return false;
    }
    return LoadObj(attrib, shapes, materials, warn, err, &ifs, nullptr, triangulate, dflt);
}
}  // namespace tinyobj
#endif
