// C19: generated grids are the grids that were asked for.
#include "../harness/history.hpp"
#include "../harness/polyset.hpp"
#include "../harness/topo.hpp"
#include <MeshKernel/Parameters.hpp>
using namespace mk;

namespace
{
    constexpr double pi = std::numbers::pi;

    bool nearMissing(P p) { return std::abs(p.x + 999.0) < 1e-3 || std::abs(p.y + 999.0) < 1e-3; }

    meshkernel::MakeGridParameters genParameters(Case& c, int projection)
    {
        meshkernel::MakeGridParameters p;
        p.num_columns = c.range(1, 8);
        p.num_rows = c.range(1, 8);
        p.angle = c.coin(0.5) ? c.sym(89.0, 178) : 0.0;
        if (projection == 0)
        {
            const double h = std::array<double, 4>{10.0, 1.0, 250.0, 0.01}[c.weighted({5, 2, 2, 1})];
            p.block_size_x = h * c.real(0.3, 3.0, 270);
            p.block_size_y = h * c.real(0.3, 3.0, 270);
            p.origin_x = c.coin(0.6) ? c.sym(3000.0, 6001) * h / 10 : 0.0;
            p.origin_y = c.coin(0.6) ? c.sym(3000.0, 6007) * h / 10 : 0.0;
        }
        else
        {
            p.angle = c.coin(0.25) ? c.sym(45.0, 90) : 0.0;
            p.block_size_x = c.real(0.01, 1.5, 298);
            p.block_size_y = c.real(0.01, 1.5, 298);
            p.origin_x = c.sym(160.0, 320);
            p.origin_y = c.sym(60.0, 240);
        }
        PBT_LOG(c, "columns=", p.num_columns, " rows=", p.num_rows, " angle=", p.angle, " block=", p.block_size_x, ",", p.block_size_y, " origin=", p.origin_x, ",", p.origin_y, " projection=", projection);
        return p;
    }

    /// the next latitude: square cells, but not smaller than by the factor of the generator
    double nextLatitude(double block, double y)
    {
        const double cs = std::cos(y * pi / 180.0);
        return y + block * cs * (cs + (1.0 - cs) * 0.3);
    }

    /// the expected node (n, m); in spherical coordinates the rows are not equidistant
    P expected(const meshkernel::MakeGridParameters& p, int projection, int n, int m)
    {
        const double cs = std::cos(p.angle * pi / 180.0), sn = std::sin(p.angle * pi / 180.0);
        P r{p.origin_x + m * p.block_size_x * cs - n * p.block_size_y * sn, p.origin_y + m * p.block_size_x * sn + n * p.block_size_y * cs};
        if (projection == 1)
        {
            double y = p.origin_y + m * p.block_size_x * sn;
            for (int k = 0; k < n; ++k)
            {
                y = nextLatitude(p.block_size_y, y);
            }
            r.y = y;
        }
        return r;
    }

    void checkGrid(Case& c, const Curvi& g, const meshkernel::MakeGridParameters& p, int projection, int rows, int columns)
    {
        PBT_CHECK(g.n == rows + 1 && g.m == columns + 1, "dimensions", "the grid has ", g.n, " x ", g.m, " nodes instead of ", rows + 1, " x ", columns + 1);
        const double scale = std::abs(p.origin_x) + std::abs(p.origin_y) + columns * p.block_size_x + rows * p.block_size_y;
        for (int n = 0; n < g.n; ++n)
        {
            for (int m = 0; m < g.m; ++m)
            {
                const P e = expected(p, projection, n, m);
                ++c.evaluations;
                PBT_CHECK(dist(e, g.at(n, m)) <= 1e-11 * scale, "node", "node (", n, ",", m, ") is ", str(g.at(n, m)), " instead of ", str(e));
            }
        }
    }
    /// a mesh2d that has the nodes and the edges of a grid (appended to what was there)
    void checkMesh(const Mesh2& before, const Mesh2& after, const Curvi& g)
    {
        std::vector<int> number(g.nodes.size(), -1);
        size_t k = before.nodes.size();
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            if (g.nodes[i].valid())
            {
                number[i] = static_cast<int>(k++);
            }
        }
        PBT_CHECK(after.nodes.size() == k, "mesh:nodes", "the mesh has ", after.nodes.size(), " nodes instead of ", k);
        for (size_t i = 0; i < before.nodes.size(); ++i)
        {
            PBT_CHECK(sameP(before.nodes[i], after.nodes[i]), "mesh:existing-node", "the existing node ", i, " has changed from ", str(before.nodes[i]), " to ", str(after.nodes[i]));
        }
        std::multiset<EdgeKey> want, have;
        for (size_t e = 0; e < before.edges.size(); ++e)
        {
            PBT_CHECK(e < after.edges.size() && before.edges[e] == after.edges[e], "mesh:existing-edge", "the existing edge ", e, " has changed");
        }
        for (size_t e = before.edges.size(); e < after.edges.size(); ++e)
        {
            have.insert(edgeKey(after.edges[e][0], after.edges[e][1]));
        }
        for (int n = 0; n < g.n; ++n)
        {
            for (int m = 0; m < g.m; ++m)
            {
                const auto i = static_cast<size_t>(n * g.m + m);
                if (number[i] < 0)
                {
                    continue;
                }
                PBT_CHECK(sameP(after.nodes[static_cast<size_t>(number[i])], g.nodes[i]), "mesh:node", "the node of (", n, ",", m, ") is ", str(after.nodes[static_cast<size_t>(number[i])]), " instead of ", str(g.nodes[i]));
                if (m + 1 < g.m && number[i + 1] >= 0)
                {
                    want.insert(edgeKey(number[i], number[i + 1]));
                }
                if (n + 1 < g.n && number[i + static_cast<size_t>(g.m)] >= 0)
                {
                    want.insert(edgeKey(number[i], number[i + static_cast<size_t>(g.m)]));
                }
            }
        }
        PBT_CHECK(have == want, "mesh:edges", "the mesh does not have the ", want.size(), " edges of the grid but ", have.size(), " other edges");
    }
    Mesh2 existing(Case& c, int id, int projection)
    {
        if (c.coin(0.3))
        {
            MeshOpts o;
            o.projection = projection;
            o.maxN = 3;
            const auto h = genMesh(c, o);
            must(setMesh2(id, h.nodes, h.edges), "mesh2d_set");
            if (c.coin(0.4))
            {
                must(api::mkernel_mesh2d_delete_node(id, static_cast<int>(c.draw(h.nodes.size()))), "mesh2d_delete_node");
            }
        }
        return getMesh2(id);
    }

    void rectangular(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({3, 2}));
        const int id = newState(projection);
        auto p = genParameters(c, projection);
        int rows = p.num_rows, columns = p.num_columns;
        const bool extension = c.coin(0.5);
        if (extension)
        {
            p.angle = 0.0;
            p.upper_right_x = p.origin_x + p.block_size_x * (columns - 1 + (c.coin(0.2) ? 1.0 : c.real(0.02, 0.98, 96)));
            // both sizes are generic, so that rounding does not decide on another row or column
            if (projection == 0)
            {
                p.upper_right_y = p.origin_y + p.block_size_y * (rows - 1 + c.real(0.02, 0.98, 96));
            }
            else
            {
                double y = p.origin_y;
                for (int k = 0; k + 1 < rows; ++k)
                {
                    y = nextLatitude(p.block_size_y, y);
                }
                p.upper_right_y = y + (nextLatitude(p.block_size_y, y) - y) * c.real(0.02, 0.98, 96);
            }
            columns = static_cast<int>(std::ceil((p.upper_right_x - p.origin_x) / p.block_size_x));
            PBT_LOG(c, "extension to ", p.upper_right_x, ",", p.upper_right_y);
        }
        for (int n = 0; n <= rows; ++n)
        {
            for (int m = 0; m <= columns; ++m)
            {
                const P e = expected(p, projection, n, m);
                if (nearMissing(e) || (projection == 1 && std::abs(e.y) > 85.0))
                {
                    throw pbt::Discard{"missing value or pole"};
                }
            }
        }
        c.nontrivial();
        c.label(pbt::cat(extension ? "extension" : "rectangular", projection == 1 ? " spherical" : " cartesian"));
        const bool tooSmall = extension && p.block_size_y > p.upper_right_y - p.origin_y;
        c.op("curvilinear_compute_rectangular_grid");
        const int rc = extension ? api::mkernel_curvilinear_compute_rectangular_grid_on_extension(id, p) : api::mkernel_curvilinear_compute_rectangular_grid(id, p);
        if (tooSmall)
        {
            PBT_CHECK(rc != 0 || projection == 1, "too-small", "an extension smaller than a cell is accepted");
            if (rc != 0)
            {
                c.label("extension smaller than a cell");
                return;
            }
        }
        must(rc, "compute_rectangular_grid");
        const auto g = getCurvi(id);
        checkGrid(c, g, p, projection, rows, columns);
        // the mesh2d of the same parameters
        const int id2 = newState(projection);
        const auto before = existing(c, id2, projection);
        if (c.coin(0.2))
        {
            // a grid that was converted before has no effect on what follows
            must(setCurvi(id2, g), "curvilinear_set");
            must(api::mkernel_curvilinear_convert_to_mesh2d(id2), "curvilinear_convert_to_mesh2d");
            bool done = false;
            int where = -1;
            if (c.coin(0.5))
            {
                must(api::mkernel_undo_state(done, where), "undo_state");
            }
        }
        const auto before2 = getMesh2(id2);
        (void)before;
        c.op("mesh2d_make_rectangular_mesh");
        must(extension ? api::mkernel_mesh2d_make_rectangular_mesh_on_extension(id2, p) : api::mkernel_mesh2d_make_rectangular_mesh(id2, p), "mesh2d_make_rectangular_mesh");
        checkMesh(before2, getMesh2(id2), g);
        int now = -1;
        must(api::mkernel_get_projection(id2, now), "get_projection");
        PBT_CHECK(now == projection, "projection", "the projection has changed to ", now);
    }

    void fromPolygon(Case& c)
    {
        reset();
        const int id = newState(0);
        const double h = std::array<double, 3>{10.0, 1.0, 300.0}[c.weighted({5, 2, 2})];
        const P org = c.coin(0.5) ? P{c.sym(40.0, 400) * h, c.sym(40.0, 400) * h} : P{0, 0};
        auto ring = genStarPolygon(c, org, org + P{h, h}, 1.5 * h, 6.0 * h);
        meshkernel::MakeGridParameters p;
        p.angle = c.coin(0.6) ? c.sym(89.0, 178) : 0.0;
        p.block_size_x = h * c.real(0.3, 1.3, 100);
        p.block_size_y = h * c.real(0.3, 1.3, 100);
        Geo poly(ring);
        PBT_LOG(c, "angle=", p.angle, " block=", p.block_size_x, ",", p.block_size_y, " polygon=", str(ring));
        PolySet set;
        set.parts.push_back({});
        set.parts.back().outer = ring;
        c.op("curvilinear_compute_rectangular_grid_from_polygon");
        const int rc = api::mkernel_curvilinear_compute_rectangular_grid_from_polygon(id, p, poly.list());
        must(rc, "compute_rectangular_grid_from_polygon");
        const auto g = getCurvi(id);
        const P ex = P{std::cos(p.angle * pi / 180.0), std::sin(p.angle * pi / 180.0)} * p.block_size_x;
        const P ey = P{-std::sin(p.angle * pi / 180.0), std::cos(p.angle * pi / 180.0)} * p.block_size_y;
        int rn = -1, rm = -1, valid = 0;
        for (int n = 0; n < g.n; ++n)
        {
            for (int m = 0; m < g.m; ++m)
            {
                if (g.at(n, m).valid())
                {
                    rn = n;
                    rm = m;
                    ++valid;
                }
            }
        }
        const double tol = 1e-9 * (std::abs(org.x) + std::abs(org.y) + 20 * h);
        if (valid == 0)
        {
            c.label("no cell fits");
            // the lattice is known from the documented construction only: nothing else to check
            return;
        }
        c.nontrivial();
        const P r0 = g.at(rn, rm);
        const double reach = 14.0 * h;
        const int kx = static_cast<int>(reach / p.block_size_x) + 1, ky = static_cast<int>(reach / p.block_size_y) + 1;
        auto node = [&](int n, int m)
        { return r0 + ex * (m - rm) + ey * (n - rn); };
        auto inside = [&](int n, int m) -> int
        {
            const P q = node(n, m);
            if (set.distToBoundary(q) < 1e-7 * h || nearMissing(q))
            {
                return -1;
            }
            return set.contains(q) ? 1 : 0;
        };
        for (int n = rn - ky; n <= rn + ky; ++n)
        {
            for (int m = rm - kx; m <= rm + kx; ++m)
            {
                const bool inGrid = n >= 0 && n < g.n && m >= 0 && m < g.m;
                const bool have = inGrid && g.at(n, m).valid();
                if (have)
                {
                    PBT_CHECK(dist(g.at(n, m), node(n, m)) <= tol, "polygon:lattice", "node (", n, ",", m, ") is ", str(g.at(n, m)), " instead of ", str(node(n, m)));
                }
                bool must1 = false, may = false;
                for (int a = 0; a < 2; ++a)
                {
                    for (int b = 0; b < 2; ++b)
                    {
                        int all = 1;
                        for (int d = 0; d < 4; ++d)
                        {
                            const int v = inside(n - a + d / 2, m - b + d % 2);
                            all = v == 0 || all == 0 ? 0 : (v == -1 || all == -1 ? -1 : 1);
                        }
                        must1 |= all == 1;
                        may |= all != 0;
                    }
                }
                ++c.evaluations;
                PBT_CHECK(!must1 || have, "polygon:missing", "the cell at node (", n, ",", m, ") ", str(node(n, m)), " lies inside of the polygon, but is not in the grid of ", g.n, "x", g.m);
                PBT_CHECK(may || !have, "polygon:outside", "node (", n, ",", m, ") ", str(node(n, m)), " is in the grid, but belongs to no cell with all nodes inside of the polygon");
            }
        }
        const int id2 = newState(0);
        const auto before = existing(c, id2, 0);
        c.op("mesh2d_make_rectangular_mesh_from_polygon");
        must(api::mkernel_mesh2d_make_rectangular_mesh_from_polygon(id2, p, poly.list()), "mesh2d_make_rectangular_mesh_from_polygon");
        checkMesh(before, getMesh2(id2), g);
    }

    void circular(Case& c)
    {
        reset();
        const int id = newState(0);
        auto p = genParameters(c, 0);
        p.num_columns = c.range(1, 14);
        p.num_rows = c.range(1, 14);
        const bool round = c.coin(0.6);
        const bool regularX = c.coin(0.5), regularY = c.coin(0.5);
        p.radius_curvature = round ? p.block_size_x * c.real(0.5, 30.0, 590) : 0.0;
        p.maximum_uniform_size_columns = regularX && c.coin(0.5) ? 1.0 : c.real(1.0, 8.0, 70);
        p.maximum_uniform_size_rows = regularY && c.coin(0.5) ? 1.0 : c.real(1.0, 8.0, 70);
        p.uniform_columns_fraction = regularX && p.maximum_uniform_size_columns != 1.0 ? 1.0 : c.real(0.0, 0.95, 95);
        p.uniform_rows_fraction = regularY && p.maximum_uniform_size_rows != 1.0 ? 1.0 : c.real(0.0, 0.95, 95);
        PBT_LOG(c, "radius=", p.radius_curvature, " max=", p.maximum_uniform_size_columns, ",", p.maximum_uniform_size_rows, " fractions=", p.uniform_columns_fraction, ",", p.uniform_rows_fraction);
        c.op("curvilinear_compute_circular_grid");
        must(api::mkernel_curvilinear_compute_circular_grid(id, p), "curvilinear_compute_circular_grid");
        const auto g = getCurvi(id);
        PBT_CHECK(g.n == p.num_rows + 1 && g.m == p.num_columns + 1, "circular:dimensions", "the grid has ", g.n, " x ", g.m, " nodes instead of ", p.num_rows + 1, " x ", p.num_columns + 1);
        c.nontrivial();
        c.label(pbt::cat(round ? "circular" : "straight", p.maximum_uniform_size_columns == 1.0 || p.uniform_columns_fraction == 1.0 ? " regular" : " graded", p.maximum_uniform_size_rows == 1.0 || p.uniform_rows_fraction == 1.0 ? " regular" : " graded"));
        for (auto& q : g.nodes)
        {
            if (!q.valid() || nearMissing(q))
            {
                throw pbt::Discard{"missing value"};
            }
        }
        const P o{p.origin_x, p.origin_y};
        auto sizes = [&](const std::vector<double>& v, double block, double maximum, double fraction, const char* what)
        {
            const bool regular = maximum == 1.0 || fraction == 1.0;
            for (size_t i = 1; i < v.size(); ++i)
            {
                const double d = v[i] - v[i - 1];
                ++c.evaluations;
                if (regular)
                {
                    PBT_CHECK(std::abs(d - block) <= 1e-9 * (block + std::abs(v[i])), "circular:size", what, " ", i, " has size ", d, " instead of ", block);
                }
                else
                {
                    PBT_CHECK(d >= block * (1 - 1e-6) - 1e-9 * std::abs(v[i]), "circular:small", what, " ", i, " has size ", d, ", which is less than ", block);
                }
            }
        };
        const double scale = std::abs(o.x) + std::abs(o.y) + dist(g.at(g.n - 1, g.m - 1), o) + dist(g.at(0, 0), o);
        if (!round)
        {
            const P ex{std::cos(p.angle * pi / 180.0), std::sin(p.angle * pi / 180.0)}, ey{-ex.y, ex.x};
            std::vector<double> xs, ys;
            for (int m = 0; m < g.m; ++m)
            {
                xs.push_back(dot(g.at(0, m) - o, ex));
            }
            for (int n = 0; n < g.n; ++n)
            {
                ys.push_back(dot(g.at(n, 0) - o, ey));
            }
            for (int n = 0; n < g.n; ++n)
            {
                for (int m = 0; m < g.m; ++m)
                {
                    const P e = o + ex * xs[static_cast<size_t>(m)] + ey * ys[static_cast<size_t>(n)];
                    PBT_CHECK(dist(e, g.at(n, m)) <= 1e-10 * scale, "circular:lattice", "node (", n, ",", m, ") is ", str(g.at(n, m)), " instead of ", str(e));
                }
            }
            if (p.maximum_uniform_size_columns == 1.0 || p.uniform_columns_fraction == 1.0)
            {
                PBT_CHECK(std::abs(xs[0]) <= 1e-10 * scale, "circular:origin", "the grid starts at x ", xs[0], " from its origin");
            }
            sizes(xs, p.block_size_x, p.maximum_uniform_size_columns, p.uniform_columns_fraction, "column");
            sizes(ys, p.block_size_y, p.maximum_uniform_size_rows, p.uniform_rows_fraction, "row");
            return;
        }
        std::vector<double> rs;
        for (int n = 0; n < g.n; ++n)
        {
            rs.push_back(dist(g.at(n, 0), o));
        }
        const double dt = std::min(p.block_size_x / p.radius_curvature, 2 * pi / p.num_columns);
        for (int n = 0; n < g.n; ++n)
        {
            for (int m = 0; m < g.m; ++m)
            {
                const double t = p.angle * pi / 180.0 + pi / 2 - m * dt;
                const P e = o + P{std::cos(t), std::sin(t)} * rs[static_cast<size_t>(n)];
                PBT_CHECK(dist(e, g.at(n, m)) <= 1e-9 * scale, "circular:node", "node (", n, ",", m, ") is ", str(g.at(n, m)), " instead of ", str(e), " on the circle");
            }
        }
        if (p.maximum_uniform_size_rows == 1.0 || p.uniform_rows_fraction == 1.0)
        {
            PBT_CHECK(std::abs(rs[0] - p.radius_curvature) <= 1e-9 * scale, "circular:radius", "the first row has radius ", rs[0], " instead of ", p.radius_curvature);
        }
        sizes(rs, p.block_size_y, p.maximum_uniform_size_rows, p.uniform_rows_fraction, "row");
    }

    pbt::Register reg("C19",
                      "a case is non-trivial if a grid was generated and compared with the expected one",
                      150000, 3000000,
                      {{"rectangular", rectangular, 4},
                       {"polygon", fromPolygon, 2},
                       {"circular", circular, 2}});
} // namespace
