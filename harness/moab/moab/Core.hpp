/* A stand-in for the part of MOAB that the mesh converters use (MOAB is not
   installed here).  Meshes are loaded from and written to a plain text format:

     vertex x y z            numbered from 0
     tet a b c d
     tri a b c               a face that exists before any is asked for
     hole dim                an entity that was deleted: its handle is not used

   It keeps MOAB's contract: handles carry their type in the upper bits, ranges are
   sorted and without duplicates, adjacent faces are created when asked for. */
#ifndef STANDIN_MOAB_CORE_HPP
#define STANDIN_MOAB_CORE_HPP
#include <algorithm>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace moab {
typedef unsigned long EntityHandle;
enum ErrorCode { MB_SUCCESS = 0, MB_FAILURE = 16, MB_FILE_DOES_NOT_EXIST = 8, MB_ENTITY_NOT_FOUND = 4 };
enum EntityType { MBVERTEX = 0, MBEDGE, MBTRI, MBQUAD, MBPOLYGON, MBTET, MBENTITYSET = 11 };
enum { MESHSET_SET = 0x2, MESHSET_TRACK_OWNER = 0x1, MESHSET_ORDERED = 0x4 };

class Range
{
    std::vector<EntityHandle> h;
public:
    size_t size() const { return h.size(); }
    bool empty() const { return h.empty(); }
    EntityHandle operator[](size_t i) const { return h.at(i); }
    typedef std::vector<EntityHandle>::const_iterator const_iterator;
    typedef const_iterator iterator;
    const_iterator begin() const { return h.begin(); }
    const_iterator end() const { return h.end(); }
    void insert(EntityHandle e)
    {
        std::vector<EntityHandle>::iterator p = std::lower_bound(h.begin(), h.end(), e);
        if (p == h.end() || *p != e)
            h.insert(p, e);
    }
    void clear() { h.clear(); }
    const_iterator find(EntityHandle e) const
    {
        const_iterator p = std::lower_bound(h.begin(), h.end(), e);
        return p != h.end() && *p == e ? p : h.end();
    }
    int index(EntityHandle e) const { const_iterator p = find(e); return p == h.end() ? -1 : (int)(p - h.begin()); }
};

class Core
{
    struct Vertex { double x[3]; };
    std::vector<Vertex> verts;
    std::vector<std::vector<EntityHandle> > tris, tets;
    std::vector<std::vector<EntityHandle> > sets;
    std::map<std::vector<EntityHandle>, EntityHandle> triOf;
    std::set<EntityHandle> dead;
    static EntityHandle make(EntityType t, size_t i) { return ((EntityHandle)t << 60) | (i + 1); }
    static EntityType type(EntityHandle h) { return (EntityType)(h >> 60); }
    static size_t idx(EntityHandle h) { return (h & ((1ul << 60) - 1)) - 1; }
    bool valid(EntityHandle h) const
    {
        if ((h & ((1ul << 60) - 1)) == 0 || dead.count(h))
            return false;
        size_t i = idx(h);
        switch (type(h)) {
        case MBVERTEX: return i < verts.size();
        case MBTRI: return i < tris.size();
        case MBTET: return i < tets.size();
        case MBENTITYSET: return i < sets.size();
        default: return false;
        }
    }
    static std::vector<EntityHandle> sorted(std::vector<EntityHandle> v) { std::sort(v.begin(), v.end()); return v; }
    EntityHandle face(const std::vector<EntityHandle> &v, bool create)
    {
        std::map<std::vector<EntityHandle>, EntityHandle>::iterator p = triOf.find(sorted(v));
        if (p != triOf.end())
            return p->second;
        if (!create)
            return 0;
        tris.push_back(v);
        return triOf[sorted(v)] = make(MBTRI, tris.size() - 1);
    }
public:
    ErrorCode load_file(const char *name)
    {
        FILE *f = fopen(name, "r");
        char kind[16];
        if (!f)
            return MB_FILE_DOES_NOT_EXIST;
        while (fscanf(f, "%15s", kind) == 1) {
            if (!strcmp(kind, "vertex")) {
                Vertex v;
                if (fscanf(f, "%lf %lf %lf", v.x, v.x + 1, v.x + 2) != 3)
                    return MB_FAILURE;
                verts.push_back(v);
            }
            else if (!strcmp(kind, "hole")) {
                int dim;
                if (fscanf(f, "%d", &dim) != 1)
                    return MB_FAILURE;
                if (dim == 0) {
                    Vertex v = {{ 1e99, 1e99, 1e99 }};
                    verts.push_back(v);
                    dead.insert(make(MBVERTEX, verts.size() - 1));
                }
                else {
                    (dim == 2 ? tris : tets).push_back(std::vector<EntityHandle>());
                    dead.insert(dim == 2 ? make(MBTRI, tris.size() - 1) : make(MBTET, tets.size() - 1));
                }
            }
            else {
                int n = !strcmp(kind, "tet") ? 4 : 3;
                std::vector<EntityHandle> c;
                for (int i = 0; i < n; i++) {
                    unsigned long k;
                    if (fscanf(f, "%lu", &k) != 1)
                        return MB_FAILURE;
                    c.push_back(make(MBVERTEX, k));
                }
                if (n == 4)
                    tets.push_back(c);
                else
                    face(c, true);
            }
        }
        fclose(f);
        return MB_SUCCESS;
    }
    ErrorCode get_entities_by_dimension(EntityHandle set, int dim, Range &r, bool = false) const
    {
        if (set != 0)
            return MB_FAILURE;
        size_t n = dim == 0 ? verts.size() : dim == 2 ? tris.size() : dim == 3 ? tets.size() : 0;
        for (size_t i = 0; i < n; i++) {
            EntityHandle h = make(dim == 0 ? MBVERTEX : dim == 2 ? MBTRI : MBTET, i);
            if (!dead.count(h))
                r.insert(h);
        }
        return MB_SUCCESS;
    }
    ErrorCode get_adjacencies(const EntityHandle *from, int n, int dim, bool create, Range &r, int = 0)
    {
        for (int i = 0; i < n; i++) {
            if (!valid(from[i]))
                return MB_ENTITY_NOT_FOUND;
            EntityType t = type(from[i]);
            const std::vector<EntityHandle> *c = t == MBTET ? &tets[idx(from[i])] : t == MBTRI ? &tris[idx(from[i])] : NULL;
            if (!c)
                return MB_FAILURE;
            if (dim == 0)
                for (EntityHandle h : *c)
                    r.insert(h);
            else if (dim == 2 && t == MBTET) {
                const int side[4][3] = { {0, 1, 3}, {1, 2, 3}, {0, 3, 2}, {0, 2, 1} };
                std::vector<EntityHandle> w = *c;
                for (int s = 0; s < 4; s++) {
                    EntityHandle h = face({ w[side[s][0]], w[side[s][1]], w[side[s][2]] }, create);
                    if (h)
                        r.insert(h);
                }
            }
            else if (dim == 3 && t == MBTRI) {
                for (size_t k = 0; k < tets.size(); k++) {
                    int m = 0;
                    for (EntityHandle h : *c)
                        m += std::count(tets[k].begin(), tets[k].end(), h);
                    if (m == 3)
                        r.insert(make(MBTET, k));
                }
            }
            else
                return MB_FAILURE;
        }
        return MB_SUCCESS;
    }
    ErrorCode get_coords(const EntityHandle *h, int n, double *x) const
    {
        for (int i = 0; i < n; i++) {
            if (!valid(h[i]) || type(h[i]) != MBVERTEX)
                return MB_ENTITY_NOT_FOUND;
            memcpy(x + 3 * i, verts[idx(h[i])].x, sizeof(double[3]));
        }
        return MB_SUCCESS;
    }
    ErrorCode create_vertex(const double x[3], EntityHandle &h)
    {
        Vertex v;
        memcpy(v.x, x, sizeof(v.x));
        verts.push_back(v);
        h = make(MBVERTEX, verts.size() - 1);
        return MB_SUCCESS;
    }
    ErrorCode create_element(EntityType t, const EntityHandle *c, int n, EntityHandle &h)
    {
        if (t != MBTET || n != 4)
            return MB_FAILURE;
        for (int i = 0; i < n; i++)
            if (!valid(c[i]) || type(c[i]) != MBVERTEX)
                return MB_ENTITY_NOT_FOUND;
        tets.push_back(std::vector<EntityHandle>(c, c + n));
        h = make(MBTET, tets.size() - 1);
        return MB_SUCCESS;
    }
    ErrorCode create_meshset(unsigned, EntityHandle &h, int = 0)
    {
        sets.push_back(std::vector<EntityHandle>());
        h = make(MBENTITYSET, sets.size() - 1);
        return MB_SUCCESS;
    }
    ErrorCode add_entities(EntityHandle set, const EntityHandle *e, int n)
    {
        if (!valid(set) || type(set) != MBENTITYSET)
            return MB_ENTITY_NOT_FOUND;
        for (int i = 0; i < n; i++)
            if (!valid(e[i]))
                return MB_ENTITY_NOT_FOUND;
        sets[idx(set)].insert(sets[idx(set)].end(), e, e + n);
        return MB_SUCCESS;
    }
    ErrorCode write_mesh(const char *name, const EntityHandle *set = NULL, int n = 0)
    {
        FILE *f = fopen(name, "w");
        if (!f)
            return MB_FAILURE;
        for (int i = 0; i < n; i++) {
            if (!valid(set[i]) || type(set[i]) != MBENTITYSET)
                return MB_ENTITY_NOT_FOUND;
            for (EntityHandle h : sets[idx(set[i])]) {
                fprintf(f, "tet");
                for (EntityHandle v : tets[idx(h)])
                    for (double x : verts[idx(v)].x)
                        fprintf(f, " %.17g", x);
                fprintf(f, "\n");
            }
        }
        bool bad = fflush(f) != 0 || ferror(f);
        return fclose(f) || bad ? MB_FAILURE : MB_SUCCESS;
    }
};
}
#endif
