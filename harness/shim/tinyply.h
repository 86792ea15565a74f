// Offline stand-in for tinyply 2.x (the submodule is not part of the pinned
// tree).  Implements reading and writing of ascii / binary_little_endian PLY
// with the real library's conventions: requested properties come back packed,
// in the file's own scalar type, in PlyData::buffer.
#ifndef tinyply_h
#define tinyply_h
#include <cstdint>
#include <cstring>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };

struct PropertyInfo {
    PropertyInfo() {}
    PropertyInfo(int s, std::string n) : stride(s), str(n) {}
    int stride{0};
    std::string str;
};
static std::unordered_map<Type, PropertyInfo> PropertyTable{
    {Type::INT8, PropertyInfo(1, "char")},    {Type::UINT8, PropertyInfo(1, "uchar")},
    {Type::INT16, PropertyInfo(2, "short")},  {Type::UINT16, PropertyInfo(2, "ushort")},
    {Type::INT32, PropertyInfo(4, "int")},    {Type::UINT32, PropertyInfo(4, "uint")},
    {Type::FLOAT32, PropertyInfo(4, "float")}, {Type::FLOAT64, PropertyInfo(8, "double")},
    {Type::INVALID, PropertyInfo(0, "INVALID")}};

class Buffer {
    std::unique_ptr<uint8_t[]> own;
    uint8_t *alias{nullptr};
    size_t size{0};

public:
    Buffer() {}
    Buffer(const size_t n) : own(new uint8_t[n ? n : 1]), alias(own.get()), size(n) {}
    Buffer(const uint8_t *p) : alias(const_cast<uint8_t *>(p)) {}
    uint8_t *get() { return alias; }
    const uint8_t *get_const() { return alias; }
    size_t size_bytes() const { return size; }
};

struct PlyData {
    Type t{Type::INVALID};
    Buffer buffer;
    size_t count{0};
    bool isList{false};
    std::vector<size_t> list_indices;
};

struct PlyProperty {
    std::string name;
    Type propertyType{Type::INVALID};
    bool isList{false};
    Type listType{Type::INVALID};
    size_t listCount{0};
};
struct PlyElement {
    std::string name;
    size_t size{0};
    std::vector<PlyProperty> properties;
};

struct PlyFile {
    struct Request {
        std::string element;
        std::vector<std::string> props;
        std::shared_ptr<PlyData> data;
        std::vector<uint8_t> bytes;
    };
    struct WriteData {
        const uint8_t *data;
        size_t elemStride;
    };
    std::vector<PlyElement> elements;
    std::vector<std::string> comments, info;
    std::vector<Request> requests;
    std::map<std::string, std::vector<std::pair<std::vector<std::string>, const uint8_t *>>> sources;
    bool binary{false}, bigEndian{false};

    static Type typeOf(const std::string &s) {
        if (s == "int8" || s == "char") return Type::INT8;
        if (s == "uint8" || s == "uchar") return Type::UINT8;
        if (s == "int16" || s == "short") return Type::INT16;
        if (s == "uint16" || s == "ushort") return Type::UINT16;
        if (s == "int32" || s == "int") return Type::INT32;
        if (s == "uint32" || s == "uint") return Type::UINT32;
        if (s == "float32" || s == "float") return Type::FLOAT32;
        if (s == "float64" || s == "double") return Type::FLOAT64;
        return Type::INVALID;
    }
    static size_t strideOf(Type t) { return (size_t)PropertyTable[t].stride; }

    bool parse_header(std::istream &is) {
        std::string line;
        bool magic = false, ended = false;
        while (std::getline(is, line)) {
            if (!line.empty() && line.back() == '\r') line.pop_back();
            std::istringstream ss(line);
            std::string tok;
            ss >> tok;
            if (tok == "ply" || tok == "PLY") {
                magic = true;
            } else if (tok == "format") {
                std::string f;
                ss >> f;
                if (f == "binary_little_endian") {
                    binary = true;
                } else if (f == "binary_big_endian") {
                    binary = bigEndian = true;
                }
            } else if (tok == "comment") {
                comments.push_back(line.size() > 8 ? line.substr(8) : "");
            } else if (tok == "obj_info") {
                info.push_back(line.size() > 9 ? line.substr(9) : "");
            } else if (tok == "element") {
                PlyElement e;
                ss >> e.name >> e.size;
                elements.push_back(e);
            } else if (tok == "property") {
                if (elements.empty()) throw std::runtime_error("no elements defined; file is malformed");
                PlyProperty p;
                std::string t;
                ss >> t;
                if (t == "list") {
                    std::string ct;
                    ss >> ct >> t;
                    p.isList = true;
                    p.listType = typeOf(ct);
                }
                p.propertyType = typeOf(t);
                if (p.propertyType == Type::INVALID || (p.isList && p.listType == Type::INVALID))
                    throw std::runtime_error("unknown property type; file is malformed");
                ss >> p.name;
                elements.back().properties.push_back(p);
            } else if (tok == "end_header") {
                ended = true;
                break;
            } else if (!tok.empty()) {
                return false;
            }
        }
        return magic && ended;
    }

    std::vector<PlyElement> get_elements() const { return elements; }
    std::vector<std::string> &get_comments() { return comments; }
    std::vector<std::string> get_info() const { return info; }
    bool is_binary_file() const { return binary; }

    std::shared_ptr<PlyData> request_properties_from_element(const std::string &elementKey,
                                                             const std::vector<std::string> propertyKeys,
                                                             const uint32_t = 0) {
        if (elements.empty()) throw std::runtime_error("header had no elements defined. malformed file?");
        if (elementKey.empty()) throw std::invalid_argument("`elementKey` argument is empty");
        if (propertyKeys.empty()) throw std::invalid_argument("`propertyKeys` argument is empty");
        for (auto &e : elements) {
            if (e.name != elementKey) continue;
            Request r;
            r.element = elementKey;
            r.props = propertyKeys;
            r.data = std::make_shared<PlyData>();
            r.data->count = e.size;
            bool first = true;
            for (auto &k : propertyKeys) {
                bool found = false;
                for (auto &p : e.properties) {
                    if (p.name != k) continue;
                    found = true;
                    if (!first && p.propertyType != r.data->t)
                        throw std::invalid_argument("all requested properties must share the same type.");
                    r.data->t = p.propertyType;
                    r.data->isList = p.isList;
                    first = false;
                }
                if (!found) throw std::invalid_argument("one of the property keys was not found in the header: " + k);
            }
            requests.push_back(r);
            return requests.back().data;
        }
        throw std::invalid_argument("the element key was not found in the header: " + elementKey);
    }

    static double asNumber(Type t, const uint8_t *p) {
        switch (t) {
        case Type::INT8: { int8_t v; std::memcpy(&v, p, 1); return v; }
        case Type::UINT8: { uint8_t v; std::memcpy(&v, p, 1); return v; }
        case Type::INT16: { int16_t v; std::memcpy(&v, p, 2); return v; }
        case Type::UINT16: { uint16_t v; std::memcpy(&v, p, 2); return v; }
        case Type::INT32: { int32_t v; std::memcpy(&v, p, 4); return v; }
        case Type::UINT32: { uint32_t v; std::memcpy(&v, p, 4); return v; }
        case Type::FLOAT32: { float v; std::memcpy(&v, p, 4); return v; }
        case Type::FLOAT64: { double v; std::memcpy(&v, p, 8); return v; }
        default: return 0.0;
        }
    }
    static void fromNumber(Type t, double d, uint8_t *p) {
        switch (t) {
        case Type::INT8: { int8_t v = (int8_t)d; std::memcpy(p, &v, 1); break; }
        case Type::UINT8: { uint8_t v = (uint8_t)d; std::memcpy(p, &v, 1); break; }
        case Type::INT16: { int16_t v = (int16_t)d; std::memcpy(p, &v, 2); break; }
        case Type::UINT16: { uint16_t v = (uint16_t)d; std::memcpy(p, &v, 2); break; }
        case Type::INT32: { int32_t v = (int32_t)d; std::memcpy(p, &v, 4); break; }
        case Type::UINT32: { uint32_t v = (uint32_t)d; std::memcpy(p, &v, 4); break; }
        case Type::FLOAT32: { float v = (float)d; std::memcpy(p, &v, 4); break; }
        case Type::FLOAT64: { std::memcpy(p, &d, 8); break; }
        default: break;
        }
    }
    void readScalar(std::istream &is, Type t, uint8_t *out) {
        const size_t n = strideOf(t);
        if (binary) {
            is.read((char *)out, (std::streamsize)n);
            if (bigEndian)
                for (size_t i = 0; i < n / 2; i++) std::swap(out[i], out[n - 1 - i]);
        } else {
            double d = 0;
            is >> d;
            fromNumber(t, d, out);
        }
        if (is.fail()) throw std::runtime_error("unexpected EOF. malformed file?");
    }

    void read(std::istream &is) {
        for (auto &e : elements) {
            if (e.properties.empty()) continue;
            for (size_t i = 0; i < e.size; i++) {
                std::map<std::string, std::vector<uint8_t>> values;
                for (auto &p : e.properties) {
                    size_t n = 1;
                    uint8_t tmp[8] = {0};
                    if (p.isList) {
                        readScalar(is, p.listType, tmp);
                        n = (size_t)asNumber(p.listType, tmp);
                    }
                    std::vector<uint8_t> bytes;
                    for (size_t k = 0; k < n; k++) {
                        readScalar(is, p.propertyType, tmp);
                        bytes.insert(bytes.end(), tmp, tmp + strideOf(p.propertyType));
                    }
                    values[p.name] = std::move(bytes);
                }
                for (auto &r : requests) {
                    if (r.element != e.name) continue;
                    for (auto &k : r.props) {
                        auto &b = values[k];
                        if (r.data->isList && r.data->t != Type::INVALID)
                            r.data->list_indices.push_back(b.size() / strideOf(r.data->t));
                        r.bytes.insert(r.bytes.end(), b.begin(), b.end());
                    }
                }
            }
        }
        for (auto &r : requests) {
            r.data->buffer = Buffer(r.bytes.size());
            if (!r.bytes.empty()) std::memcpy(r.data->buffer.get(), r.bytes.data(), r.bytes.size());
        }
    }

    void add_properties_to_element(const std::string &elementKey, const std::vector<std::string> propertyKeys,
                                   const Type type, const size_t count, const uint8_t *data, const Type listType,
                                   const size_t listCount) {
        PlyElement *e = nullptr;
        for (auto &x : elements)
            if (x.name == elementKey) e = &x;
        if (!e) {
            PlyElement n;
            n.name = elementKey;
            n.size = count;
            elements.push_back(n);
            e = &elements.back();
        }
        for (auto &k : propertyKeys) {
            PlyProperty p;
            p.name = k;
            p.propertyType = type;
            p.isList = listType != Type::INVALID;
            p.listType = listType;
            p.listCount = listCount;
            e->properties.push_back(p);
        }
        sources[elementKey].push_back({propertyKeys, data});
    }

    void write(std::ostream &os, bool isBinary) {
        os << "ply\n" << (isBinary ? "format binary_little_endian 1.0" : "format ascii 1.0") << "\n";
        for (auto &c : comments) os << "comment " << c << "\n";
        for (auto &e : elements) {
            os << "element " << e.name << " " << e.size << "\n";
            for (auto &p : e.properties) {
                if (p.isList)
                    os << "property list " << PropertyTable[p.listType].str << " "
                       << PropertyTable[p.propertyType].str << " " << p.name << "\n";
                else
                    os << "property " << PropertyTable[p.propertyType].str << " " << p.name << "\n";
            }
        }
        os << "end_header\n";
        for (auto &e : elements) {
            std::vector<const uint8_t *> cur;
            for (auto &s : sources[e.name]) cur.push_back(s.second);
            for (size_t i = 0; i < e.size; i++) {
                size_t g = 0, done = 0;
                for (auto &p : e.properties) {
                    const size_t n = p.isList ? p.listCount : 1;
                    const size_t st = strideOf(p.propertyType);
                    if (p.isList) {
                        uint8_t tmp[8];
                        fromNumber(p.listType, (double)p.listCount, tmp);
                        if (isBinary)
                            os.write((const char *)tmp, (std::streamsize)strideOf(p.listType));
                        else
                            os << p.listCount << " ";
                    }
                    for (size_t k = 0; k < n; k++) {
                        if (isBinary) {
                            os.write((const char *)cur[g], (std::streamsize)st);
                        } else {
                            std::ostringstream t;
                            t.precision(9);
                            t << asNumber(p.propertyType, cur[g]);
                            os << t.str() << " ";
                        }
                        cur[g] += st;
                    }
                    if (++done == sources[e.name][g].first.size()) {
                        done = 0;
                        g++;
                    }
                }
                if (!isBinary) os << "\n";
            }
        }
    }
};
}  // namespace tinyply
#endif
