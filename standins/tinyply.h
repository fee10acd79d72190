// Stand-in for tinyply 2.x (the submodule is not available in this sandbox).
// Same observable behaviour for the subset of the API the library uses: header parsing, typed raw
// buffers for requested scalar/list properties (ascii, binary little and big endian), writing.
#ifndef VP_STANDIN_TINYPLY_H
#define VP_STANDIN_TINYPLY_H
#include <cstdint>
#include <cstring>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };

inline int vp_stride(Type t) {
    switch (t) {
    case Type::INT8:
    case Type::UINT8:
        return 1;
    case Type::INT16:
    case Type::UINT16:
        return 2;
    case Type::INT32:
    case Type::UINT32:
    case Type::FLOAT32:
        return 4;
    case Type::FLOAT64:
        return 8;
    default:
        return 0;
    }
}
inline const char *vp_name(Type t) {
    switch (t) {
    case Type::INT8:
        return "char";
    case Type::UINT8:
        return "uchar";
    case Type::INT16:
        return "short";
    case Type::UINT16:
        return "ushort";
    case Type::INT32:
        return "int";
    case Type::UINT32:
        return "uint";
    case Type::FLOAT32:
        return "float";
    case Type::FLOAT64:
        return "double";
    default:
        return "INVALID";
    }
}
inline Type vp_type(const std::string &s) {
    if (s == "int8" || s == "char") return Type::INT8;
    if (s == "uint8" || s == "uchar") return Type::UINT8;
    if (s == "int16" || s == "short") return Type::INT16;
    if (s == "uint16" || s == "ushort") return Type::UINT16;
    if (s == "int32" || s == "int") return Type::INT32;
    if (s == "uint32" || s == "uint") return Type::UINT32;
    if (s == "float32" || s == "float") return Type::FLOAT32;
    if (s == "float64" || s == "double") return Type::FLOAT64;
    return Type::INVALID;
}

struct PropertyInfo {
    int stride;
    std::string str;
};
static std::map<Type, PropertyInfo> PropertyTable{ { Type::INT8, { 1, "char" } },     { Type::UINT8, { 1, "uchar" } },
                                                   { Type::INT16, { 2, "short" } },   { Type::UINT16, { 2, "ushort" } },
                                                   { Type::INT32, { 4, "int" } },     { Type::UINT32, { 4, "uint" } },
                                                   { Type::FLOAT32, { 4, "float" } }, { Type::FLOAT64, { 8, "double" } },
                                                   { Type::INVALID, { 0, "INVALID" } } };

class Buffer {
    std::vector<uint8_t> data_;

public:
    Buffer() = default;
    explicit Buffer(size_t n)
        : data_(n) {
    }
    uint8_t *get() {
        return data_.data();
    }
    const uint8_t *get() const {
        return data_.data();
    }
    const uint8_t *get_const() const {
        return data_.data();
    }
    size_t size_bytes() const {
        return data_.size();
    }
    std::vector<uint8_t> &raw() {
        return data_;
    }
};

struct PlyData {
    Type t = Type::INVALID;
    Buffer buffer;
    size_t count = 0;
    bool isList = false;
};

struct PlyProperty {
    std::string name;
    Type propertyType = Type::INVALID;
    bool isList = false;
    Type listType = Type::INVALID;
    size_t listCount = 0;
};

struct PlyElement {
    std::string name;
    size_t size = 0;
    std::vector<PlyProperty> properties;
};

struct PlyFile {
    bool parse_header(std::istream &is) {
        std::string line;
        bool first = true;
        while (std::getline(is, line)) {
            if (!line.empty() && line.back() == '\r') line.pop_back();
            std::istringstream ls(line);
            std::string token;
            ls >> token;
            if (first) {
                if (token != "ply" && token != "PLY") return false;
                first = false;
                continue;
            }
            if (token.empty()) continue;
            if (token == "comment") {
                comments_.push_back(line.size() > 8 ? line.substr(8) : "");
            } else if (token == "format") {
                std::string s;
                ls >> s;
                binary_ = (s != "ascii");
                bigEndian_ = (s == "binary_big_endian");
            } else if (token == "element") {
                PlyElement e;
                ls >> e.name >> e.size;
                elements_.push_back(e);
            } else if (token == "property") {
                if (elements_.empty()) throw std::runtime_error("no elements defined; file is malformed");
                PlyProperty p;
                std::string t;
                ls >> t;
                if (t == "list") {
                    std::string ct, vt;
                    ls >> ct >> vt;
                    p.isList = true;
                    p.listType = vp_type(ct);
                    p.propertyType = vp_type(vt);
                } else {
                    p.propertyType = vp_type(t);
                }
                ls >> p.name;
                elements_.back().properties.push_back(p);
            } else if (token == "obj_info") {
            } else if (token == "end_header") {
                return true;
            } else {
                return false;
            }
        }
        return false;
    }

    void read(std::istream &is) {
        for (auto &e : elements_) {
            for (size_t i = 0; i < e.size; i++) {
                for (auto &p : e.properties) {
                    Request *rq = find(e.name, p.name);
                    size_t n = 1;
                    if (p.isList) {
                        uint8_t cb[8] = { 0 };
                        scalar(is, p.listType, cb);
                        n = (size_t)asInt(p.listType, cb);
                        if (rq && rq->hint && n != rq->hint)
                            throw std::runtime_error("unexpected list size in ply element " + e.name);
                    }
                    for (size_t k = 0; k < n; k++) {
                        uint8_t vb[8] = { 0 };
                        scalar(is, p.propertyType, vb);
                        if (rq) {
                            auto &d = rq->data->buffer.raw();
                            d.insert(d.end(), vb, vb + vp_stride(p.propertyType));
                        }
                    }
                    if (is.fail()) throw std::runtime_error("unexpected EOF. malformed file?");
                }
            }
        }
    }

    std::shared_ptr<PlyData> request_properties_from_element(const std::string &elementKey,
                                                             const std::vector<std::string> propertyKeys,
                                                             const uint32_t list_size_hint = 0) {
        if (elements_.empty()) throw std::runtime_error("header had no elements defined. malformed file?");
        if (elementKey.empty()) throw std::invalid_argument("`elementKey` argument is empty");
        if (propertyKeys.empty()) throw std::invalid_argument("`propertyKeys` argument is empty");
        for (auto &e : elements_) {
            if (e.name != elementKey) continue;
            auto data = std::make_shared<PlyData>();
            std::vector<std::string> keys;
            for (auto &k : propertyKeys) {
                const PlyProperty *found = nullptr;
                for (auto &p : e.properties)
                    if (p.name == k) found = &p;
                if (!found) {
                    throw std::invalid_argument("the following property key was not found in the header: " + k);
                }
                if (data->t != Type::INVALID && data->t != found->propertyType)
                    throw std::invalid_argument("all requested properties must share the same type.");
                data->t = found->propertyType;
                data->isList = found->isList;
                keys.push_back(k);
            }
            for (auto &r : requests_)
                for (auto &k : keys)
                    if (r.element == elementKey && has(r.keys, k))
                        throw std::invalid_argument("element-property key has already been requested: " + elementKey + " " + k);
            data->count = e.size;
            requests_.push_back(Request{ elementKey, keys, data, list_size_hint });
            return data;
        }
        throw std::invalid_argument("the element key was not found in the header: " + elementKey);
    }

    void add_properties_to_element(const std::string &elementKey, const std::vector<std::string> propertyKeys,
                                   const Type type, const size_t count, const uint8_t *data, const Type listType,
                                   const size_t listCount) {
        PlyElement *el = nullptr;
        for (auto &e : outElements_)
            if (e.name == elementKey) el = &e;
        if (!el) {
            outElements_.push_back(PlyElement{ elementKey, count, {} });
            el = &outElements_.back();
        }
        for (auto &k : propertyKeys) {
            PlyProperty p;
            p.name = k;
            p.propertyType = type;
            p.isList = (listType != Type::INVALID);
            p.listType = listType;
            p.listCount = listCount;
            el->properties.push_back(p);
        }
        outGroups_.push_back(Group{ elementKey, propertyKeys, type, data, listType, listCount });
    }

    void write(std::ostream &os, bool isBinary) {
        os << "ply\n";
        os << (isBinary ? "format binary_little_endian 1.0\n" : "format ascii 1.0\n");
        for (auto &c : comments_) os << "comment " << c << "\n";
        for (auto &e : outElements_) {
            os << "element " << e.name << " " << e.size << "\n";
            for (auto &p : e.properties) {
                if (p.isList)
                    os << "property list " << vp_name(p.listType) << " " << vp_name(p.propertyType) << " " << p.name << "\n";
                else
                    os << "property " << vp_name(p.propertyType) << " " << p.name << "\n";
            }
        }
        os << "end_header\n";
        for (auto &e : outElements_) {
            std::map<const Group *, size_t> off;
            for (size_t i = 0; i < e.size; i++) {
                for (auto &g : outGroups_) {
                    if (g.element != e.name) continue;
                    const size_t st = vp_stride(g.type);
                    for (size_t k = 0; k < g.keys.size(); k++) {
                        size_t n = 1;
                        if (g.listType != Type::INVALID) {
                            n = g.listCount;
                            uint8_t b[8] = { 0 };
                            uint64_t v = n;
                            std::memcpy(b, &v, 8);
                            if (isBinary)
                                os.write((const char *)b, vp_stride(g.listType));
                            else
                                os << n << " ";
                        }
                        for (size_t q = 0; q < n; q++) {
                            const uint8_t *src = g.data + off[&g];
                            off[&g] += st;
                            if (isBinary)
                                os.write((const char *)src, st);
                            else
                                ascii(os, g.type, src);
                        }
                    }
                }
                if (!isBinary) os << "\n";
            }
        }
    }

    std::vector<PlyElement> get_elements() const {
        return elements_;
    }
    std::vector<std::string> &get_comments() {
        return comments_;
    }
    std::vector<std::string> get_info() const {
        return {};
    }
    bool is_binary_file() const {
        return binary_;
    }

private:
    struct Request {
        std::string element;
        std::vector<std::string> keys;
        std::shared_ptr<PlyData> data;
        size_t hint;
    };
    struct Group {
        std::string element;
        std::vector<std::string> keys;
        Type type;
        const uint8_t *data;
        Type listType;
        size_t listCount;
    };
    static bool has(const std::vector<std::string> &v, const std::string &k) {
        for (auto &x : v)
            if (x == k) return true;
        return false;
    }
    Request *find(const std::string &e, const std::string &k) {
        for (auto &r : requests_)
            if (r.element == e && has(r.keys, k)) return &r;
        return nullptr;
    }
    template <typename T>
    static void put(uint8_t *out, T v) {
        std::memcpy(out, &v, sizeof(T));
    }
    void scalar(std::istream &is, Type t, uint8_t *out) {
        if (binary_) {
            const int n = vp_stride(t);
            is.read((char *)out, n);
            if (bigEndian_)
                for (int i = 0; i < n / 2; i++) std::swap(out[i], out[n - 1 - i]);
            return;
        }
        if (t == Type::FLOAT32 || t == Type::FLOAT64) {
            double d = 0.0;
            is >> d;
            if (t == Type::FLOAT32)
                put<float>(out, (float)d);
            else
                put<double>(out, d);
        } else {
            long long v = 0;
            is >> v;
            put<long long>(out, v);
        }
    }
    static long long asInt(Type t, const uint8_t *b) {
        switch (t) {
        case Type::INT8: {
            int8_t v;
            std::memcpy(&v, b, 1);
            return v;
        }
        case Type::UINT8:
            return b[0];
        case Type::INT16: {
            int16_t v;
            std::memcpy(&v, b, 2);
            return v;
        }
        case Type::UINT16: {
            uint16_t v;
            std::memcpy(&v, b, 2);
            return v;
        }
        case Type::INT32: {
            int32_t v;
            std::memcpy(&v, b, 4);
            return v;
        }
        default: {
            uint32_t v;
            std::memcpy(&v, b, 4);
            return v;
        }
        }
    }
    static void ascii(std::ostream &os, Type t, const uint8_t *b) {
        if (t == Type::FLOAT32) {
            float v;
            std::memcpy(&v, b, 4);
            os << v << " ";
        } else if (t == Type::FLOAT64) {
            double v;
            std::memcpy(&v, b, 8);
            os << v << " ";
        } else {
            os << asInt(t, b) << " ";
        }
    }
    std::vector<PlyElement> elements_, outElements_;
    std::vector<Request> requests_;
    std::vector<Group> outGroups_;
    std::vector<std::string> comments_;
    bool binary_ = false, bigEndian_ = false;
};
}  // namespace tinyply
#endif
