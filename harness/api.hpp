// Thin owning wrappers around the MeshKernel C API, used by every property.
#pragma once
#include "engine.hpp"
#include <MeshKernelApi/BoundingBox.hpp>
#include <MeshKernelApi/MeshKernel.hpp>
#include <algorithm>
#include <array>
#include <cstring>

namespace mk
{
    using pbt::Case;
    namespace api = meshkernelapi;

    constexpr double missing = -999.0;
    constexpr double innerSep = -998.0;

    struct P
    {
        double x = 0, y = 0;
        bool operator==(const P&) const = default;
        bool valid() const { return x != missing && y != missing; }
    };
    inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
    inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
    inline P operator*(P a, double s) { return {a.x * s, a.y * s}; }
    inline P operator*(double s, P a) { return {a.x * s, a.y * s}; }
    inline double dot(P a, P b) { return a.x * b.x + a.y * b.y; }
    inline double cross(P a, P b) { return a.x * b.y - a.y * b.x; }
    inline double len(P a) { return std::sqrt(dot(a, a)); }
    inline double dist(P a, P b) { return len(a - b); }

    /// owning geometry list
    struct Geo
    {
        std::vector<double> x, y, v;
        Geo() = default;
        explicit Geo(const std::vector<P>& pts)
        {
            for (auto& p : pts)
            {
                add(p);
            }
        }
        explicit Geo(size_t n, double fill = 0.0) : x(n, fill), y(n, fill), v(n, fill) {}
        void add(P p, double val = 0.0)
        {
            x.push_back(p.x);
            y.push_back(p.y);
            v.push_back(val);
        }
        size_t size() const { return x.size(); }
        P at(size_t i) const { return {x[i], y[i]}; }
        std::vector<P> pts() const
        {
            std::vector<P> r;
            for (size_t i = 0; i < x.size(); ++i)
            {
                r.push_back(at(i));
            }
            return r;
        }
        api::GeometryList list()
        {
            api::GeometryList g{};
            g.geometry_separator = missing;
            g.inner_outer_separator = innerSep;
            g.num_coordinates = static_cast<int>(x.size());
            g.coordinates_x = x.data();
            g.coordinates_y = y.data();
            g.values = v.data();
            return g;
        }
    };

    struct Mesh2
    {
        std::vector<P> nodes, edgeCentres, faceCentres;
        std::vector<std::array<int, 2>> edges, edgeFaces;
        std::vector<std::vector<int>> faceNodes, faceEdges;
        int numNodes = 0, numValidNodes = 0, numEdges = 0, numValidEdges = 0, numFaces = 0, numFaceNodes = 0;
        bool nodeValid(size_t i) const { return nodes[i].valid(); }
        /// whether all valid nodes lie within [-a, a]
        bool validNodeBox(double a) const
        {
            return std::all_of(nodes.begin(), nodes.end(), [a](const P& p)
                               { return !p.valid() || (std::abs(p.x) <= a && std::abs(p.y) <= a); });
        }
        bool edgeValid(size_t i) const { return edges[i][0] >= 0 && edges[i][1] >= 0; }
    };
    struct Mesh1
    {
        std::vector<P> nodes;
        std::vector<std::array<int, 2>> edges;
        int numValidNodes = 0, numValidEdges = 0;
    };
    struct Curvi
    {
        int n = 0, m = 0; // rows, columns
        std::vector<P> nodes;
        P& at(int i, int j) { return nodes[static_cast<size_t>(i * m + j)]; }
        const P& at(int i, int j) const { return nodes[static_cast<size_t>(i * m + j)]; }
    };
    struct Conts
    {
        std::vector<int> m1, m2;
        bool operator==(const Conts&) const = default;
    };

    inline std::string lastError()
    {
        char b[2048] = {0};
        api::mkernel_get_error(b);
        return b;
    }

    inline void reset()
    {
        api::mkernel_clear_state();
        api::mkernel_set_undo_size(50);
    }

    /// a call the harness itself relies on: failing is a harness-visible violation of the property under test
    inline void must(int rc, const char* what)
    {
        if (rc != 0)
        {
            pbt::fail(std::string("unexpected-error:") + what, what, " returned ", rc, ": ", lastError());
        }
    }

    inline int newState(int projection = 0)
    {
        int id = -1;
        must(api::mkernel_allocate_state(projection, id), "allocate_state");
        return id;
    }

    /// get_dimensions (which administrates) + get_data with guard cells around the caller's arrays
    inline Mesh2 getMesh2(int id)
    {
        api::Mesh2D d{};
        must(api::mkernel_mesh2d_get_dimensions(id, d), "mesh2d_get_dimensions");
        Mesh2 r;
        r.numNodes = d.num_nodes;
        r.numValidNodes = d.num_valid_nodes;
        r.numEdges = d.num_edges;
        r.numValidEdges = d.num_valid_edges;
        r.numFaces = d.num_faces;
        r.numFaceNodes = d.num_face_nodes;
        const size_t nn = static_cast<size_t>(d.num_nodes), ne = static_cast<size_t>(d.num_edges), nf = static_cast<size_t>(d.num_faces), nfn = static_cast<size_t>(d.num_face_nodes);
        constexpr int guardI = -123456789;
        constexpr double guardD = -1.23456789e300;
        std::vector<double> nx(nn + 1, guardD), ny(nn + 1, guardD), ex(ne + 1, guardD), ey(ne + 1, guardD), fx(nf + 1, guardD), fy(nf + 1, guardD);
        std::vector<int> en(2 * ne + 1, guardI), ef(2 * ne + 1, guardI), fe(nfn + 1, guardI), fn(nfn + 1, guardI), npf(nf + 1, guardI);
        d.node_x = nx.data();
        d.node_y = ny.data();
        d.edge_x = ex.data();
        d.edge_y = ey.data();
        d.face_x = fx.data();
        d.face_y = fy.data();
        d.edge_nodes = en.data();
        d.edge_faces = ef.data();
        d.face_edges = fe.data();
        d.face_nodes = fn.data();
        d.nodes_per_face = npf.data();
        must(api::mkernel_mesh2d_get_data(id, d), "mesh2d_get_data");
        PBT_CHECK(nx.back() == guardD && ny.back() == guardD && ex.back() == guardD && ey.back() == guardD && fx.back() == guardD && fy.back() == guardD &&
                      en.back() == guardI && ef.back() == guardI && fe.back() == guardI && fn.back() == guardI && npf.back() == guardI,
                  "get_data-overrun", "mesh2d_get_data wrote beyond the announced dimensions");
        for (size_t i = 0; i < nn; ++i)
        {
            r.nodes.push_back({nx[i], ny[i]});
        }
        for (size_t i = 0; i < ne; ++i)
        {
            r.edgeCentres.push_back({ex[i], ey[i]});
            r.edges.push_back({en[2 * i], en[2 * i + 1]});
            r.edgeFaces.push_back({ef[2 * i], ef[2 * i + 1]});
        }
        size_t k = 0;
        for (size_t f = 0; f < nf; ++f)
        {
            r.faceCentres.push_back({fx[f], fy[f]});
            PBT_CHECK(npf[f] >= 0 && k + static_cast<size_t>(npf[f]) <= nfn, "nodes_per_face", "nodes_per_face of face ", f, " is ", npf[f], ", which does not fit num_face_nodes ", nfn);
            std::vector<int> a, b;
            for (int n = 0; n < npf[f]; ++n, ++k)
            {
                a.push_back(fn[k]);
                b.push_back(fe[k]);
            }
            r.faceNodes.push_back(a);
            r.faceEdges.push_back(b);
        }
        PBT_CHECK(k == nfn, "num_face_nodes", "sum of nodes_per_face ", k, " differs from num_face_nodes ", nfn);
        return r;
    }
    inline Mesh1 getMesh1(int id)
    {
        api::Mesh1D d{};
        must(api::mkernel_mesh1d_get_dimensions(id, d), "mesh1d_get_dimensions");
        Mesh1 r;
        std::vector<double> x(static_cast<size_t>(d.num_nodes) + 1), y(x.size());
        std::vector<int> e(2 * static_cast<size_t>(d.num_edges) + 1);
        d.node_x = x.data();
        d.node_y = y.data();
        d.edge_nodes = e.data();
        must(api::mkernel_mesh1d_get_data(id, d), "mesh1d_get_data");
        for (int i = 0; i < d.num_nodes; ++i)
        {
            r.nodes.push_back({x[static_cast<size_t>(i)], y[static_cast<size_t>(i)]});
        }
        for (int i = 0; i < d.num_edges; ++i)
        {
            r.edges.push_back({e[2 * static_cast<size_t>(i)], e[2 * static_cast<size_t>(i) + 1]});
        }
        r.numValidNodes = d.num_valid_nodes;
        r.numValidEdges = d.num_valid_edges;
        return r;
    }
    inline Curvi getCurvi(int id)
    {
        api::CurvilinearGrid d{};
        must(api::mkernel_curvilinear_get_dimensions(id, d), "curvilinear_get_dimensions");
        Curvi r;
        r.n = d.num_n;
        r.m = d.num_m;
        if (r.n == 0 || r.m == 0)
        {
            return r; // no grid, or a grid of which every node has been deleted
        }
        std::vector<double> x(static_cast<size_t>(r.n) * static_cast<size_t>(r.m) + 1), y(x.size());
        d.node_x = x.data();
        d.node_y = y.data();
        must(api::mkernel_curvilinear_get_data(id, d), "curvilinear_get_data");
        for (size_t i = 0; i + 1 < x.size(); ++i)
        {
            r.nodes.push_back({x[i], y[i]});
        }
        return r;
    }
    inline Conts getContacts(int id)
    {
        api::Contacts d{};
        must(api::mkernel_contacts_get_dimensions(id, d), "contacts_get_dimensions");
        Conts r;
        r.m1.resize(static_cast<size_t>(d.num_contacts));
        r.m2.resize(static_cast<size_t>(d.num_contacts));
        d.mesh1d_indices = r.m1.data();
        d.mesh2d_indices = r.m2.data();
        must(api::mkernel_contacts_get_data(id, d), "contacts_get_data");
        return r;
    }

    inline int setMesh2(int id, const std::vector<P>& nodes, const std::vector<std::array<int, 2>>& edges)
    {
        std::vector<double> x, y;
        std::vector<int> e;
        for (auto& p : nodes)
        {
            x.push_back(p.x);
            y.push_back(p.y);
        }
        for (auto& a : edges)
        {
            e.push_back(a[0]);
            e.push_back(a[1]);
        }
        api::Mesh2D d{};
        d.num_nodes = static_cast<int>(nodes.size());
        d.num_edges = static_cast<int>(edges.size());
        d.node_x = x.data();
        d.node_y = y.data();
        d.edge_nodes = e.data();
        return api::mkernel_mesh2d_set(id, d);
    }
    inline int setMesh1(int id, const std::vector<P>& nodes, const std::vector<std::array<int, 2>>& edges)
    {
        std::vector<double> x, y;
        std::vector<int> e;
        for (auto& p : nodes)
        {
            x.push_back(p.x);
            y.push_back(p.y);
        }
        for (auto& a : edges)
        {
            e.push_back(a[0]);
            e.push_back(a[1]);
        }
        api::Mesh1D d{};
        d.num_nodes = static_cast<int>(nodes.size());
        d.num_edges = static_cast<int>(edges.size());
        d.node_x = x.data();
        d.node_y = y.data();
        d.edge_nodes = e.data();
        return api::mkernel_mesh1d_set(id, d);
    }
    inline int setCurvi(int id, const Curvi& g)
    {
        std::vector<double> x, y;
        for (auto& p : g.nodes)
        {
            x.push_back(p.x);
            y.push_back(p.y);
        }
        api::CurvilinearGrid d{};
        d.num_n = g.n;
        d.num_m = g.m;
        d.node_x = x.data();
        d.node_y = y.data();
        return api::mkernel_curvilinear_set(id, d);
    }

    inline bool sameBits(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || a == b || (a != a && b != b); }
    inline bool sameP(P a, P b) { return sameBits(a.x, b.x) && sameBits(a.y, b.y); }

    inline std::string str(P p) { return pbt::cat("(", p.x, ",", p.y, ")"); }
    inline std::string str(const std::vector<P>& v)
    {
        std::string r = "[";
        for (auto& p : v)
        {
            r += str(p);
        }
        return r + "]";
    }
    inline std::string str(const std::vector<std::array<int, 2>>& v)
    {
        std::string r = "[";
        for (auto& p : v)
        {
            r += pbt::cat("(", p[0], ",", p[1], ")");
        }
        return r + "]";
    }
    inline std::string str(const std::vector<int>& v)
    {
        std::string r = "[";
        for (auto& p : v)
        {
            r += pbt::cat(p, ",");
        }
        return r + "]";
    }
} // namespace mk
