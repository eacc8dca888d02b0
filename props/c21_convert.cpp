// C21: conversions between grids and meshes, and their boundaries.
#include "../harness/history.hpp"
#include "../harness/topo.hpp"
#include <queue>
using namespace mk;

namespace
{
    using PKey = std::pair<double, double>;
    using Seg = std::pair<PKey, PKey>;
    Seg seg(P a, P b)
    {
        const PKey u{a.x, a.y}, v{b.x, b.y};
        return u < v ? Seg{u, v} : Seg{v, u};
    }

    Curvi anyGrid(Case& c, int projection)
    {
        auto g = genCurvi(c, 7, 2, true);
        if (projection != 0)
        {
            for (auto& p : g.nodes)
            {
                if (p.valid())
                {
                    p = {0.003 * p.x + 5.0, 0.003 * p.y + 40.0};
                    p.x = std::min(170.0, std::max(-170.0, p.x));
                    p.y = std::min(80.0, std::max(-80.0, p.y));
                }
            }
        }
        return g;
    }

    void toMesh(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({4, 1}));
        const int id = newState(projection);
        Mesh2 before;
        const int rounds = c.range(1, 2);
        for (int r = 0; r < rounds; ++r)
        {
            if (r == 0 && c.coin(0.4))
            {
                MeshOpts o;
                o.projection = projection;
                o.maxN = 4;
                const auto h = genMesh(c, o);
                logMesh(c, h, "existing");
                must(setMesh2(id, h.nodes, h.edges), "mesh2d_set");
                runHistory(c, id, projection, {2, 1, 1}, 120);
            }
            const auto g = anyGrid(c, projection);
            PBT_LOG(c, str(g));
            must(setCurvi(id, g), "curvilinear_set");
            before = getMesh2(id);
            c.op("curvilinear_convert_to_mesh2d");
            must(api::mkernel_curvilinear_convert_to_mesh2d(id), "curvilinear_convert_to_mesh2d");
            const auto after = getMesh2(id);
            const auto rest = getCurvi(id);
            PBT_CHECK(rest.n == 0 && rest.m == 0, "to-mesh:grid-left", "a grid of ", rest.n, "x", rest.m, " is left");
            c.nontrivial();
            c.label(before.nodes.empty() ? "into an empty mesh" : "added to a mesh");
            // nodes and edges: the existing ones, then those of the grid
            for (size_t i = 0; i < before.nodes.size(); ++i)
            {
                PBT_CHECK(i < after.nodes.size() && sameP(before.nodes[i], after.nodes[i]), "to-mesh:existing-node", "the existing node ", i, " has changed");
            }
            for (size_t e = 0; e < before.edges.size(); ++e)
            {
                PBT_CHECK(e < after.edges.size() && before.edges[e] == after.edges[e], "to-mesh:existing-edge", "the existing edge ", e, " has changed");
            }
            std::multiset<PKey> wantN, haveN;
            for (auto& p : g.nodes)
            {
                if (p.valid())
                {
                    wantN.insert({p.x, p.y});
                }
            }
            for (size_t i = before.nodes.size(); i < after.nodes.size(); ++i)
            {
                haveN.insert({after.nodes[i].x, after.nodes[i].y});
            }
            PBT_CHECK(wantN == haveN, "to-mesh:nodes", "the mesh has ", haveN.size(), " new nodes, which are not the ", wantN.size(), " nodes of the grid");
            std::multiset<Seg> wantE, haveE;
            std::multiset<std::set<PKey>> wantF, haveF;
            for (int n = 0; n < g.n; ++n)
            {
                for (int m = 0; m < g.m; ++m)
                {
                    const bool right = m + 1 < g.m && g.at(n, m).valid() && g.at(n, m + 1).valid();
                    const bool up = n + 1 < g.n && g.at(n, m).valid() && g.at(n + 1, m).valid();
                    if (right)
                    {
                        wantE.insert(seg(g.at(n, m), g.at(n, m + 1)));
                    }
                    if (up)
                    {
                        wantE.insert(seg(g.at(n, m), g.at(n + 1, m)));
                    }
                    if (right && up && g.at(n + 1, m + 1).valid())
                    {
                        std::set<PKey> f;
                        for (int d = 0; d < 4; ++d)
                        {
                            f.insert({g.at(n + d / 2, m + d % 2).x, g.at(n + d / 2, m + d % 2).y});
                        }
                        wantF.insert(f);
                    }
                }
            }
            for (size_t e = before.edges.size(); e < after.edges.size(); ++e)
            {
                PBT_CHECK(after.edgeValid(e), "to-mesh:edge", "the new edge ", e, " is not valid");
                haveE.insert(seg(after.nodes[static_cast<size_t>(after.edges[e][0])], after.nodes[static_cast<size_t>(after.edges[e][1])]));
            }
            PBT_CHECK(wantE == haveE, "to-mesh:edges", "the mesh has ", haveE.size(), " new edges, which are not the ", wantE.size(), " edges of the grid");
            int other = 0;
            for (auto& f : after.faceNodes)
            {
                std::set<PKey> s;
                bool fresh = true;
                for (int k : f)
                {
                    fresh = fresh && static_cast<size_t>(k) >= before.nodes.size();
                    s.insert({after.nodes[static_cast<size_t>(k)].x, after.nodes[static_cast<size_t>(k)].y});
                }
                if (fresh)
                {
                    if (wantF.contains(s))
                    {
                        haveF.insert(s);
                    }
                    else
                    {
                        ++other; // the library also closes small gaps between cells
                    }
                }
            }
            PBT_CHECK(wantF == haveF, "to-mesh:faces", "the mesh has ", haveF.size(), " of the ", wantF.size(), " cells of the grid as faces");
            int now = -1;
            must(api::mkernel_get_projection(id, now), "get_projection");
            PBT_CHECK(now == projection, "to-mesh:projection", "the projection has become ", now);
        }
    }

    /// the rings of a geometry list, as closed point sequences
    std::vector<std::vector<P>> rings(const Geo& g)
    {
        std::vector<std::vector<P>> r(1);
        for (size_t i = 0; i < g.size(); ++i)
        {
            if (g.x[i] == missing)
            {
                r.emplace_back();
            }
            else
            {
                r.back().push_back(g.at(i));
            }
        }
        return r;
    }
    void checkRings(Case& c, const Geo& g, const std::multiset<Seg>& want, const char* key)
    {
        std::multiset<Seg> have;
        if (g.size() > 0)
        {
            for (auto& r : rings(g))
            {
                PBT_CHECK(r.size() >= 4 && sameP(r.front(), r.back()), std::string(key) + ":closed", "a boundary polygon is not closed: ", str(r));
                for (size_t i = 0; i + 1 < r.size(); ++i)
                {
                    have.insert(seg(r[i], r[i + 1]));
                }
            }
        }
        c.evaluations += want.size();
        PBT_CHECK(have == want, std::string(key) + ":edges", "the boundary polygons have ", have.size(), " edges, which are not the ", want.size(), " edges with a cell on one side only");
    }

    void gridBoundary(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({4, 1}));
        const int id = newState(projection);
        auto g = anyGrid(c, projection);
        if (c.coin(0.4))
        {
            // more holes
            Curvi h = g;
            const int k = c.range(1, 6);
            for (int i = 0; i < k; ++i)
            {
                h.nodes[c.draw(h.nodes.size())] = {missing, missing};
            }
            if (normaliseCurvi(h))
            {
                g = h;
            }
        }
        must(setCurvi(id, g), "curvilinear_set");
        const auto s = getCurvi(id);
        PBT_LOG(c, str(s));
        int n0 = 0, m0 = 0, n1 = s.n - 1, m1 = s.m - 1;
        if (c.coin(0.5))
        {
            n0 = c.range(0, s.n - 1);
            n1 = c.range(0, s.n - 1);
            m0 = c.range(0, s.m - 1);
            m1 = c.range(0, s.m - 1);
        }
        PBT_LOG(c, "block (", n0, ",", m0, ") (", n1, ",", m1, ")");
        std::map<Seg, int> count;
        for (int n = std::min(n0, n1); n < std::max(n0, n1); ++n)
        {
            for (int m = std::min(m0, m1); m < std::max(m0, m1); ++m)
            {
                const std::array<P, 4> q{s.at(n, m), s.at(n, m + 1), s.at(n + 1, m + 1), s.at(n + 1, m)};
                if (std::all_of(q.begin(), q.end(), [](const P& p)
                                { return p.valid(); }))
                {
                    for (size_t i = 0; i < 4; ++i)
                    {
                        ++count[seg(q[i], q[(i + 1) % 4])];
                    }
                }
            }
        }
        std::multiset<Seg> want;
        for (auto& [k, v] : count)
        {
            if (v == 1)
            {
                want.insert(k);
            }
        }
        int size = -1;
        c.op("curvilinear_count_boundaries_as_polygons");
        must(api::mkernel_curvilinear_count_boundaries_as_polygons(id, n0, m0, n1, m1, size), "curvilinear_count_boundaries_as_polygons");
        Geo out(static_cast<size_t>(size) + 1, -77.0);
        auto l = out.list();
        l.num_coordinates = size;
        c.op("curvilinear_get_boundaries_as_polygons");
        must(api::mkernel_curvilinear_get_boundaries_as_polygons(id, n0, m0, n1, m1, l), "curvilinear_get_boundaries_as_polygons");
        PBT_CHECK(out.x.back() == -77.0, "grid-boundary:overrun", "more coordinates than counted");
        out.x.pop_back();
        out.y.pop_back();
        if (!want.empty())
        {
            c.nontrivial();
        }
        checkRings(c, out, want, "grid-boundary");
    }

    void meshBoundary(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({4, 1}));
        const int id = newState(projection);
        MeshOpts o;
        o.projection = projection;
        const auto g = genMesh(c, o);
        logMesh(c, g);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        runHistory(c, id, projection, {3, 2, 1}, 150);
        int size = -1;
        c.op("mesh2d_count_mesh_boundaries_as_polygons");
        must(api::mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, size), "mesh2d_count_mesh_boundaries_as_polygons");
        Geo out(static_cast<size_t>(size) + 1, -77.0);
        auto l = out.list();
        l.num_coordinates = size;
        c.op("mesh2d_get_mesh_boundaries_as_polygons");
        must(api::mkernel_mesh2d_get_mesh_boundaries_as_polygons(id, l), "mesh2d_get_mesh_boundaries_as_polygons");
        PBT_CHECK(out.x.back() == -77.0, "mesh-boundary:overrun", "more coordinates than counted");
        out.x.pop_back();
        out.y.pop_back();
        const auto m = getMesh2(id);
        if (!simpleEdges(m))
        {
            throw pbt::Discard{"duplicate edges"};
        }
        std::multiset<Seg> want;
        std::vector<int> degree(m.nodes.size(), 0);
        std::set<PKey> distinct;
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            if (m.nodes[i].valid() && !distinct.insert({m.nodes[i].x, m.nodes[i].y}).second)
            {
                throw pbt::Discard{"coinciding nodes"};
            }
        }
        std::vector<int> faces(m.edges.size(), 0);
        for (auto& f : m.faceEdges)
        {
            for (int e : f)
            {
                ++faces[static_cast<size_t>(e)];
            }
        }
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e) && faces[e] == 1)
            {
                ++degree[static_cast<size_t>(m.edges[e][0])];
                ++degree[static_cast<size_t>(m.edges[e][1])];
                want.insert(seg(m.nodes[static_cast<size_t>(m.edges[e][0])], m.nodes[static_cast<size_t>(m.edges[e][1])]));
            }
        }
        if (std::any_of(degree.begin(), degree.end(), [](int d)
                        { return d % 2 != 0; }))
        {
            throw pbt::Discard{"faces overlap"};
        }
        if (!want.empty())
        {
            c.nontrivial();
        }
        checkRings(c, out, want, "mesh-boundary");
    }

    void toGrid(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({6, 1}));
        const int id = newState(projection);
        // a lattice of cells, of which some are split or absent
        const int nx = c.range(1, 6), ny = c.range(1, 6);
        const double h = projection == 0 ? std::array<double, 3>{10.0, 1.0, 100.0}[c.weighted({4, 1, 1})] : 0.1;
        const double jitter = c.coin(0.5) ? c.real(0.0, 0.12, 12) : 0.0;
        const double turn = c.coin(0.4) ? c.real(0.0, 6.28, 64) : 0.0;
        const P org{projection == 0 ? 0.0 : 5.0, projection == 0 ? 0.0 : 10.0};
        std::vector<P> nodes;
        for (int j = 0; j <= ny; ++j)
        {
            for (int i = 0; i <= nx; ++i)
            {
                const P q{h * i + c.sym(jitter * h, 64), h * j + c.sym(jitter * h, 64)};
                nodes.push_back(notMissing(P{org.x + std::cos(turn) * q.x - std::sin(turn) * q.y, org.y + std::sin(turn) * q.x + std::cos(turn) * q.y}));
            }
        }
        auto nid = [&](int i, int j)
        { return j * (nx + 1) + i; };
        // 0 quadrilateral, 1 and 2 split, 3 absent
        std::vector<int> cell(static_cast<size_t>(nx * ny), 0);
        if (c.coin(0.6))
        {
            for (auto& v : cell)
            {
                v = static_cast<int>(c.weighted({8, 1, 1, 1}));
            }
        }
        auto at = [&](int i, int j) -> int
        { return i < 0 || j < 0 || i >= nx || j >= ny ? 3 : cell[static_cast<size_t>(j * nx + i)]; };
        std::set<EdgeKey> es;
        for (int j = 0; j < ny; ++j)
        {
            for (int i = 0; i < nx; ++i)
            {
                if (at(i, j) == 3)
                {
                    continue;
                }
                es.insert(edgeKey(nid(i, j), nid(i + 1, j)));
                es.insert(edgeKey(nid(i, j + 1), nid(i + 1, j + 1)));
                es.insert(edgeKey(nid(i, j), nid(i, j + 1)));
                es.insert(edgeKey(nid(i + 1, j), nid(i + 1, j + 1)));
                if (at(i, j) == 1)
                {
                    es.insert(edgeKey(nid(i, j), nid(i + 1, j + 1)));
                }
                if (at(i, j) == 2)
                {
                    es.insert(edgeKey(nid(i + 1, j), nid(i, j + 1)));
                }
            }
        }
        // an absent cell that is enclosed by its neighbours is a cell after all
        for (int j = 0; j < ny; ++j)
        {
            for (int i = 0; i < nx; ++i)
            {
                if (at(i, j) == 3 && es.contains(edgeKey(nid(i, j), nid(i + 1, j))) && es.contains(edgeKey(nid(i, j + 1), nid(i + 1, j + 1))) &&
                    es.contains(edgeKey(nid(i, j), nid(i, j + 1))) && es.contains(edgeKey(nid(i + 1, j), nid(i + 1, j + 1))))
                {
                    cell[static_cast<size_t>(j * nx + i)] = 0;
                }
            }
        }
        std::vector<int> quads;
        for (size_t k = 0; k < cell.size(); ++k)
        {
            if (cell[k] == 0)
            {
                quads.push_back(static_cast<int>(k));
            }
        }
        if (quads.empty())
        {
            throw pbt::Discard{"no quadrilateral"};
        }
        std::vector<std::array<int, 2>> edges;
        for (auto& e : es)
        {
            edges.push_back({e.first, e.second});
            if (c.coin(0.3))
            {
                std::swap(edges.back()[0], edges.back()[1]);
            }
        }
        c.shuffle(edges);
        std::vector<int> number(nodes.size(), -1);
        std::vector<P> used;
        for (auto& e : edges)
        {
            for (int& k : e)
            {
                if (number[static_cast<size_t>(k)] < 0)
                {
                    number[static_cast<size_t>(k)] = static_cast<int>(used.size());
                    used.push_back(nodes[static_cast<size_t>(k)]);
                }
                k = number[static_cast<size_t>(k)];
            }
        }
        PBT_LOG(c, "nodes=", str(used), " edges=", str(edges));
        must(setMesh2(id, used, edges), "mesh2d_set");
        if (c.coin(0.3))
        {
            const auto other = anyGrid(c, projection);
            must(setCurvi(id, other), "curvilinear_set");
        }
        const int start = c.pick(quads);
        const int si = start % nx, sj = start / nx;
        const double u = c.real(0.4, 0.6, 16), v = c.real(0.4, 0.6, 16);
        const P q = (nodes[static_cast<size_t>(nid(si, sj))] * (1 - u) + nodes[static_cast<size_t>(nid(si + 1, sj))] * u) * (1 - v) + (nodes[static_cast<size_t>(nid(si, sj + 1))] * (1 - u) + nodes[static_cast<size_t>(nid(si + 1, sj + 1))] * u) * v;
        PBT_LOG(c, "start in cell (", si, ",", sj, ") at ", str(q));
        c.op("mesh2d_convert_to_curvilinear");
        must(api::mkernel_mesh2d_convert_to_curvilinear(id, q.x, q.y), "mesh2d_convert_to_curvilinear");
        const auto g = getCurvi(id);
        const auto left = getMesh2(id);
        PBT_CHECK(left.numValidNodes == 0 && left.numValidEdges == 0, "to-grid:mesh-left", "the mesh2d still has ", left.numValidNodes, " nodes");
        // cells reached from the start over common edges
        std::set<int> reached{start};
        std::queue<int> todo;
        todo.push(start);
        while (!todo.empty())
        {
            const int k = todo.front();
            todo.pop();
            const int i = k % nx, j = k / nx;
            for (auto [a, b] : {std::pair{i + 1, j}, std::pair{i - 1, j}, std::pair{i, j + 1}, std::pair{i, j - 1}})
            {
                if (at(a, b) == 0 && reached.insert(b * nx + a).second)
                {
                    todo.push(b * nx + a);
                }
            }
        }
        c.nontrivial();
        c.label(reached.size() == cell.size() ? "whole lattice" : "part of the lattice");
        // the cells of the grid
        std::map<PKey, std::pair<int, int>> where;
        for (int j = 0; j <= ny; ++j)
        {
            for (int i = 0; i <= nx; ++i)
            {
                where[{nodes[static_cast<size_t>(nid(i, j))].x, nodes[static_cast<size_t>(nid(i, j))].y}] = {i, j};
            }
        }
        std::set<PKey> seen;
        std::set<int> have;
        for (int n = 0; n < g.n; ++n)
        {
            for (int m = 0; m < g.m; ++m)
            {
                if (!g.at(n, m).valid())
                {
                    continue;
                }
                const PKey k{g.at(n, m).x, g.at(n, m).y};
                PBT_CHECK(where.contains(k), "to-grid:node", "grid node (", n, ",", m, ") ", str(g.at(n, m)), " is not a node of the mesh");
                PBT_CHECK(seen.insert(k).second, "to-grid:twice", "node ", str(g.at(n, m)), " is twice in the grid");
                for (auto [a, b] : {std::pair{n + 1, m}, std::pair{n, m + 1}})
                {
                    if (a < g.n && b < g.m && g.at(a, b).valid())
                    {
                        const auto p = where.at(k), r = where.at({g.at(a, b).x, g.at(a, b).y});
                        PBT_CHECK(es.contains(edgeKey(nid(p.first, p.second), nid(r.first, r.second))), "to-grid:neighbours", "the neighbours ", str(g.at(n, m)), " and ", str(g.at(a, b)), " of the grid are not connected in the mesh");
                    }
                }
                if (n + 1 < g.n && m + 1 < g.m && g.at(n + 1, m).valid() && g.at(n, m + 1).valid() && g.at(n + 1, m + 1).valid())
                {
                    int li = 1 << 20, lj = 1 << 20;
                    for (int d = 0; d < 4; ++d)
                    {
                        const P& r = g.at(n + d / 2, m + d % 2);
                        const auto w = where.at({r.x, r.y});
                        li = std::min(li, w.first);
                        lj = std::min(lj, w.second);
                    }
                    have.insert(lj * nx + li);
                }
            }
        }
        // a cell is left out if the grid would get neighbours that have no edge of a quadrilateral between them
        auto reachedNode = [&](int i, int j)
        {
            for (int e = 0; e < 4; ++e)
            {
                const int a = i - e / 2, b = j - e % 2;
                if (a >= 0 && b >= 0 && a < nx && b < ny && reached.contains(b * nx + a))
                {
                    return true;
                }
            }
            return false;
        };
        bool complete = true;
        for (int j = 0; j <= ny; ++j)
        {
            for (int i = 0; i <= nx; ++i)
            {
                if (reachedNode(i, j))
                {
                    complete = complete && (i == nx || !reachedNode(i + 1, j) || at(i, j) == 0 || at(i, j - 1) == 0);
                    complete = complete && (j == ny || !reachedNode(i, j + 1) || at(i, j) == 0 || at(i - 1, j) == 0);
                }
            }
        }
        c.label(complete ? "all cells expected" : "some cells cannot be joined");
        PBT_CHECK(have.contains(start), "to-grid:start", "the start cell (", si, ",", sj, ") is not in the grid");
        for (int k : reached)
        {
            ++c.evaluations;
            PBT_CHECK(!complete || have.contains(k), "to-grid:cell", "the cell (", k % nx, ",", k / nx, "), which is connected with the start cell, is not in the grid of ", g.n, "x", g.m);
        }
        for (int k : have)
        {
            if (!reached.contains(k))
            {
                // only a cell of which all the nodes belong to reached cells
                for (int d = 0; d < 4; ++d)
                {
                    const int i = k % nx + d / 2, j = k / nx + d % 2;
                    bool ok = false;
                    for (int e = 0; e < 4; ++e)
                    {
                        const int a = i - e / 2, b = j - e % 2;
                        ok = ok || (a >= 0 && b >= 0 && a < nx && b < ny && reached.contains(b * nx + a));
                    }
                    PBT_CHECK(ok, "to-grid:unconnected", "the cell (", k % nx, ",", k / nx, ") is in the grid, but not connected with the start cell");
                }
            }
        }
    }

    pbt::Register reg("C21",
                      "a case is non-trivial if a conversion took place or there is a boundary",
                      400000, 8000000,
                      {{"to-mesh", toMesh, 2},
                       {"grid-boundary", gridBoundary, 2},
                       {"mesh-boundary", meshBoundary, 2},
                       {"to-grid", toGrid, 3}});
} // namespace
