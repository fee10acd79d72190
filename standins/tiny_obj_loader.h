// Stand-in for tinyobjloader (the submodule is not available in this sandbox).
// Implements the documented subset of the v1 API with the library's behaviour for v/f records:
// float coordinates, 1-based and negative indices, "a/b/c" corner syntax, optional fan triangulation.
#ifndef VP_STANDIN_TINY_OBJ_LOADER_H
#define VP_STANDIN_TINY_OBJ_LOADER_H
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
namespace tinyobj {
typedef float real_t;
struct index_t {
    int vertex_index = -1;
    int normal_index = -1;
    int texcoord_index = -1;
};
struct mesh_t {
    std::vector<index_t> indices;
    std::vector<unsigned char> num_face_vertices;
    std::vector<int> material_ids;
    std::vector<unsigned int> smoothing_group_ids;
};
struct shape_t {
    std::string name;
    mesh_t mesh;
};
struct material_t {
    std::string name;
};
struct attrib_t {
    std::vector<real_t> vertices;
    std::vector<real_t> vertex_weights;
    std::vector<real_t> normals;
    std::vector<real_t> texcoords;
    std::vector<real_t> colors;
    const std::vector<real_t> &GetVertices() const {
        return vertices;
    }
};

inline bool vp_fix_index(int idx, int n, int *ret) {
    if (idx > 0) {
        *ret = idx - 1;
        return true;
    }
    if (idx == 0) return false;
    *ret = n + idx;
    return *ret >= 0;
}

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *, std::string *,
                    std::string *err, std::istream *in, bool triangulate = true) {
    attrib->vertices.clear();
    attrib->normals.clear();
    attrib->texcoords.clear();
    shapes->clear();
    shape_t cur;
    std::string line;
    int greatest = -1;
    while (std::getline(*in, line)) {
        if (!line.empty() && line.back() == '\r') line.pop_back();
        std::istringstream ss(line);
        std::string key;
        if (!(ss >> key) || key[0] == '#') continue;
        if (key == "v" || key == "vn" || key == "vt") {
            std::string t[3];
            ss >> t[0] >> t[1] >> t[2];
            real_t f[3];
            for (int i = 0; i < 3; i++) f[i] = (real_t)std::strtod(t[i].c_str(), nullptr);
            if (key == "v") attrib->vertices.insert(attrib->vertices.end(), f, f + 3);
            if (key == "vn") attrib->normals.insert(attrib->normals.end(), f, f + 3);
            if (key == "vt") attrib->texcoords.insert(attrib->texcoords.end(), f, f + 2);
        } else if (key == "f") {
            std::vector<index_t> face;
            std::string tok;
            while (ss >> tok) {
                index_t id;
                if (!vp_fix_index(std::atoi(tok.c_str()), (int)attrib->vertices.size() / 3, &id.vertex_index)) {
                    if (err) *err += "Failed to parse `f' line (e.g. a zero value for vertex index).\n";
                    return false;
                }
                if (id.vertex_index > greatest) greatest = id.vertex_index;
                face.push_back(id);
            }
            if (face.size() < 3) continue;
            if (triangulate) {
                for (size_t k = 2; k < face.size(); k++) {
                    cur.mesh.indices.push_back(face[0]);
                    cur.mesh.indices.push_back(face[k - 1]);
                    cur.mesh.indices.push_back(face[k]);
                    cur.mesh.num_face_vertices.push_back(3);
                    cur.mesh.material_ids.push_back(-1);
                    cur.mesh.smoothing_group_ids.push_back(0);
                }
            } else {
                for (const auto &i : face) cur.mesh.indices.push_back(i);
                cur.mesh.num_face_vertices.push_back((unsigned char)face.size());
                cur.mesh.material_ids.push_back(-1);
                cur.mesh.smoothing_group_ids.push_back(0);
            }
        } else if (key == "g" || key == "o") {
            if (!cur.mesh.indices.empty()) shapes->push_back(cur);
            cur = shape_t();
            ss >> cur.name;
        }
    }
    if (!cur.mesh.indices.empty()) shapes->push_back(cur);
    if (greatest >= (int)attrib->vertices.size() / 3 && err) {
        *err += "Vertex indices out of bounds.\n";
    }
    return true;
}

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *materials,
                    std::string *warn, std::string *err, const char *filename, const char * = nullptr,
                    bool triangulate = true, bool = true) {
    attrib->vertices.clear();
    shapes->clear();
    std::ifstream ifs(filename);
    if (!ifs) {
        if (err) *err = std::string("Cannot open file [") + filename + "]\n";
        return false;
    }
    return LoadObj(attrib, shapes, materials, warn, err, &ifs, triangulate);
}
}  // namespace tinyobj
#endif
