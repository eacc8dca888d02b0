// C25: orthogonalization and snapping of a 2d mesh move only the nodes they may move.
#include "../harness/ops.hpp"
#include "../harness/polyset.hpp"
#include "../harness/circum.hpp"
#include "../harness/topo.hpp"
#include <numeric>
using namespace mk;

namespace
{
    std::string text(const meshkernel::OrthogonalizationParameters& p)
    {
        return pbt::cat("outer ", p.outer_iterations, " boundary ", p.boundary_iterations, " inner ", p.inner_iterations, " factor ", p.orthogonalization_to_smoothing_factor, " at boundary ", p.orthogonalization_to_smoothing_factor_at_boundary, " areal ", p.areal_to_angle_smoothing_factor);
    }

    meshkernel::OrthogonalizationParameters genParameters(Case& c)
    {
        meshkernel::OrthogonalizationParameters p;
        p.outer_iterations = c.range(1, 3);
        p.boundary_iterations = c.range(1, 4);
        p.inner_iterations = c.range(1, 4);
        p.orthogonalization_to_smoothing_factor = c.coin(0.3) ? 0.975 : c.coin(0.2) ? 1.0
                                                                    : c.coin(0.2)   ? 0.0
                                                                                    : c.real(0, 1, 40);
        p.orthogonalization_to_smoothing_factor_at_boundary = c.coin(0.5) ? 1.0 : c.real(0, 1, 20);
        p.areal_to_angle_smoothing_factor = c.coin(0.5) ? 1.0 : c.real(0, 1, 20);
        return p;
    }

    struct Mesh
    {
        std::vector<P> nodes;
        std::vector<std::array<int, 2>> edges;
    };

    /// a block of quadrilaterals and triangles without holes and spurs, slightly irregular
    Mesh genBlock(Case& c, bool uniform, double& h, bool triangles = false)
    {
        Mesh g;
        const int nx = c.range(2, 6), ny = c.range(2, 6);
        h = std::array<double, 3>{10, 1, 1000}[c.weighted({3, 1, 1})];
        const double a = c.coin(0.4) ? c.real(0, 6.25, 64) : 0.0, hy = h * (c.coin(0.4) ? c.real(0.6, 1.6, 10) : 1.0);
        const double jitter = uniform ? 0 : c.real(0.02, 0.22, 10), bend = uniform ? 0 : c.sym(0.06, 12);
        const P org = c.coin(0.4) ? P{c.sym(30.0, 100) * h, c.sym(30.0, 100) * h} : P{0, 0};
        const bool boundaryFixed = c.coin(0.3);
        for (int j = 0; j <= ny; ++j)
        {
            for (int i = 0; i <= nx; ++i)
            {
                const bool inner = i > 0 && j > 0 && i < nx && j < ny;
                const double k = inner || !boundaryFixed ? jitter : 0;
                const P q{h * (i + bend * j * j + c.sym(k, 64)), hy * (j + c.sym(k, 64))};
                g.nodes.push_back({org.x + std::cos(a) * q.x - std::sin(a) * q.y, org.y + std::sin(a) * q.x + std::cos(a) * q.y});
            }
        }
        auto id = [&](int i, int j)
        { return j * (nx + 1) + i; };
        for (int j = 0; j <= ny; ++j)
        {
            for (int i = 0; i <= nx; ++i)
            {
                if (i < nx)
                {
                    g.edges.push_back({id(i, j), id(i + 1, j)});
                }
                if (j < ny)
                {
                    g.edges.push_back({id(i, j), id(i, j + 1)});
                }
            }
        }
        const int pattern = triangles ? 2 : uniform ? 0 : static_cast<int>(c.weighted({4, 2, 3}));
        for (int j = 0; j < ny && pattern > 0; ++j)
        {
            for (int i = 0; i < nx; ++i)
            {
                const int how = pattern == 1 ? c.range(0, 2) : c.range(1, 2);
                if (how == 1)
                {
                    g.edges.push_back({id(i, j), id(i + 1, j + 1)});
                }
                else if (how == 2)
                {
                    g.edges.push_back({id(i + 1, j), id(i, j + 1)});
                }
            }
        }
        for (auto& p : g.nodes)
        {
            p = notMissing(p);
        }
        return g;
    }

    int compute(int id, const meshkernel::OrthogonalizationParameters& p, const std::vector<P>& polygon, int option = 0, const std::vector<P>& land = {})
    {
        Geo g(polygon), l(land);
        return api::mkernel_mesh2d_compute_orthogonalization(id, option, p, g.list(), l.list());
    }

    /// the boundary nodes, and for each its neighbours along the boundary
    std::map<int, std::vector<int>> boundary(const Mesh2& m)
    {
        std::map<int, std::vector<int>> r;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            const int faces = (m.edgeFaces[e][0] >= 0) + (m.edgeFaces[e][1] >= 0);
            if (faces == 1)
            {
                r[m.edges[e][0]].push_back(m.edges[e][1]);
                r[m.edges[e][1]].push_back(m.edges[e][0]);
            }
        }
        return r;
    }

    void judge(Case& c, const Mesh2& before, const Mesh2& after, const PolySet& poly, double h, const char* what)
    {
        PBT_CHECK(after.edges == before.edges && after.nodes.size() == before.nodes.size(), pbt::cat(what, ":connectivity"), "the edges or the number of nodes changed");
        const auto b = boundary(before);
        const double tol = 1e-9 * (h + meshScale(before)) + 1e-12 * (std::abs(before.nodes[0].x) + std::abs(before.nodes[0].y));
        bool moved = false, fixed = false;
        for (size_t i = 0; i < before.nodes.size(); ++i)
        {
            const P p = before.nodes[i], q = after.nodes[i];
            PBT_CHECK(std::isfinite(q.x) && std::isfinite(q.y) && q.valid() == p.valid(), pbt::cat(what, ":finite"), "node ", i, " is at ", str(q));
            moved = moved || dist(p, q) > tol;
            if (!poly.empty() && !poly.contains(p) && poly.distToBoundary(p) > 1e-6 * h)
            {
                PBT_CHECK(p == q, pbt::cat(what, ":outside"), "node ", i, " at ", str(p), " is outside the polygon and moved to ", str(q));
                fixed = true;
            }
            const auto it = b.find(static_cast<int>(i));
            if (it != b.end())
            {
                bool on = p == q;
                for (int k : it->second)
                {
                    on = on || segDist(q, p, before.nodes[static_cast<size_t>(k)]) <= tol;
                }
                PBT_CHECK(on, pbt::cat(what, ":boundary"), "the boundary node ", i, " moved from ", str(p), " to ", str(q), ", which is not on the boundary edges at the node");
            }
        }
        if (moved)
        {
            c.nontrivial();
        }
        c.label(moved ? fixed ? "moved, others outside the polygon" : "moved" : "nothing moved");
    }

    // ------------------------------------------------------------------ what may move
    void invariants(Case& c)
    {
        reset();
        const int id = newState(0);
        double h = 1;
        Mesh g = genBlock(c, false, h);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        if (!planarMesh(m) || minAngle(m) < 0.2)
        {
            throw pbt::Discard{"bad mesh"};
        }
        P lo{1e300, 1e300}, hi{-1e300, -1e300};
        for (auto& p : m.nodes)
        {
            lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
            hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
        }
        PolySet poly;
        if (c.coin(0.6))
        {
            poly = genPolySet(c, lo, hi, true);
        }
        auto p = genParameters(c);
        PBT_LOG(c, "mesh ", str(m.nodes), " ", str(m.edges));
        PBT_LOG(c, "compute_orthogonalization polygon ", str(poly.points()), " ", text(p));
        c.op("mesh2d_compute_orthogonalization");
        must(compute(id, p, poly.points()), "mesh2d_compute_orthogonalization");
        ++c.evaluations;
        const auto r = getMesh2(id);
        judge(c, m, r, poly, h, "ortho");
        // by steps it is the same
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        (void)getMesh2(id);
        Geo gp(poly.points()), gl;
        PBT_LOG(c, "the same by steps");
        must(api::mkernel_mesh2d_initialize_orthogonalization(id, 0, p, gp.list(), gl.list()), "mesh2d_initialize_orthogonalization");
        for (int o = 0; o < p.outer_iterations; ++o)
        {
            must(api::mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id), "prepare");
            for (int i = 0; i < p.boundary_iterations * p.inner_iterations; ++i)
            {
                must(api::mkernel_mesh2d_compute_inner_ortogonalization_iteration(id), "inner");
            }
            must(api::mkernel_mesh2d_finalize_inner_ortogonalization_iteration(id), "finalize");
        }
        must(api::mkernel_mesh2d_delete_orthogonalization(id), "delete");
        const auto s = getMesh2(id);
        PBT_CHECK(s.edges == r.edges, "steps:edges", "other edges by steps");
        for (size_t i = 0; i < r.nodes.size(); ++i)
        {
            PBT_CHECK(dist(r.nodes[i], s.nodes[i]) <= 1e-9 * meshScale(m), "steps:node", "by steps node ", i, " is ", str(s.nodes[i]), " instead of ", str(r.nodes[i]));
        }
    }

    // ------------------------------------------------------------------ fixed points
    void fixedPoint(Case& c)
    {
        reset();
        const int id = newState(0);
        double h = 1;
        Mesh g = genBlock(c, true, h);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        auto p = genParameters(c);
        PBT_LOG(c, "uniform mesh ", str(m.nodes), " ", str(m.edges));
        PBT_LOG(c, "compute_orthogonalization ", text(p));
        c.op("mesh2d_compute_orthogonalization");
        must(compute(id, p, {}), "mesh2d_compute_orthogonalization");
        ++c.evaluations;
        const auto r = getMesh2(id);
        for (size_t i = 0; i < r.nodes.size(); ++i)
        {
            PBT_CHECK(dist(r.nodes[i], m.nodes[i]) <= 1e-6 * h, "uniform:moved", "node ", i, " of a uniform rectangular mesh moved from ", str(m.nodes[i]), " to ", str(r.nodes[i]));
        }
        c.nontrivial();
    }

    // ------------------------------------------------------------------ the orthogonalization itself
    /// with a factor of one an inner node goes three quarters of the way to the average of its neighbours,
    /// weighted by (distance of the circumcentres at both sides of the edge) / (length of the edge)
    void weighted(Case& c)
    {
        reset();
        const int id = newState(0);
        double h = 1;
        Mesh g = genBlock(c, false, h, true);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        auto m = getMesh2(id);
        if (!planarMesh(m) || minAngle(m) < 0.35)
        {
            throw pbt::Discard{"bad mesh"};
        }
        PolySet poly;
        if (c.coin(0.3))
        {
            P lo{1e300, 1e300}, hi{-1e300, -1e300};
            for (auto& p : m.nodes)
            {
                lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
                hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
            }
            poly = genPolySet(c, lo, hi, true);
        }
        auto p = genParameters(c);
        p.orthogonalization_to_smoothing_factor = 1.0;
        p.outer_iterations = c.range(1, 2);
        p.inner_iterations = c.range(1, 3);
        p.boundary_iterations = 1;
        PBT_LOG(c, "mesh ", str(m.nodes), " ", str(m.edges));
        PBT_LOG(c, "orthogonalization by steps, polygon ", str(poly.points()), " ", text(p));
        Geo gp(poly.points()), gl;
        c.op("mesh2d_initialize_orthogonalization");
        const auto start = m;
        must(api::mkernel_mesh2d_initialize_orthogonalization(id, 0, p, gp.list(), gl.list()), "mesh2d_initialize_orthogonalization");
        const auto b = boundary(m);
        for (int o = 0; o < p.outer_iterations; ++o)
        {
            if (!planarMesh(m) || minAngle(m) < 0.1 || !circumcentresDefined(m))
            {
                return;
            }
            const auto cc = refCircumcentres(m);
            std::vector<double> w(m.edges.size(), 0.0);
            for (size_t e = 0; e < m.edges.size(); ++e)
            {
                if (m.edgeFaces[e][0] >= 0 && m.edgeFaces[e][1] >= 0)
                {
                    w[e] = dist(cc[static_cast<size_t>(m.edgeFaces[e][0])], cc[static_cast<size_t>(m.edgeFaces[e][1])]) / dist(m.nodes[static_cast<size_t>(m.edges[e][0])], m.nodes[static_cast<size_t>(m.edges[e][1])]);
                }
            }
            must(api::mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id), "prepare");
            for (int i = 0; i < p.inner_iterations; ++i)
            {
                must(api::mkernel_mesh2d_compute_inner_ortogonalization_iteration(id), "inner");
                const auto r = getMesh2(id);
                ++c.evaluations;
                std::vector<P> sum(m.nodes.size(), P{0, 0});
                std::vector<double> ws(m.nodes.size(), 0.0);
                for (size_t e = 0; e < m.edges.size(); ++e)
                {
                    const auto u = static_cast<size_t>(m.edges[e][0]), v = static_cast<size_t>(m.edges[e][1]);
                    sum[u] = sum[u] + w[e] * (m.nodes[v] - m.nodes[u]);
                    sum[v] = sum[v] + w[e] * (m.nodes[u] - m.nodes[v]);
                    ws[u] += w[e];
                    ws[v] += w[e];
                }
                for (size_t n = 0; n < m.nodes.size(); ++n)
                {
                    if (b.count(static_cast<int>(n)) || ws[n] < 1e-3 || (!poly.empty() && (!poly.contains(start.nodes[n]) || poly.distToBoundary(start.nodes[n]) < 1e-6 * h)))
                    {
                        continue;
                    }
                    const P want = m.nodes[n] + (0.75 / ws[n]) * sum[n];
                    PBT_CHECK(dist(r.nodes[n], want) <= 1e-6 * h, "weighted:node", "iteration ", o, ".", i, ": node ", n, " went from ", str(m.nodes[n]), " to ", str(r.nodes[n]), " instead of ", str(want));
                    c.nontrivial();
                }
                m = r;
            }
            must(api::mkernel_mesh2d_finalize_inner_ortogonalization_iteration(id), "finalize");
        }
        must(api::mkernel_mesh2d_delete_orthogonalization(id), "delete");
    }

    // ------------------------------------------------------------------ repair
    /// a square grid with disturbed inner nodes gets better
    void repair(Case& c)
    {
        reset();
        const int id = newState(0);
        const int nx = c.range(2, 6), ny = c.range(2, 6);
        const double h = std::array<double, 3>{10, 1, 1000}[c.weighted({3, 1, 1})], jitter = c.real(0.05, 0.2, 8);
        Mesh g;
        std::vector<P> ideal;
        auto at = [&](int i, int j)
        { return j * (nx + 1) + i; };
        for (int j = 0; j <= ny; ++j)
        {
            for (int i = 0; i <= nx; ++i)
            {
                const bool inner = i > 0 && j > 0 && i < nx && j < ny;
                ideal.push_back({h * i, h * j});
                g.nodes.push_back(inner ? P{h * (i + c.sym(jitter, 32)), h * (j + c.sym(jitter, 32))} : ideal.back());
                if (i < nx)
                {
                    g.edges.push_back({at(i, j), at(i + 1, j)});
                }
                if (j < ny)
                {
                    g.edges.push_back({at(i, j), at(i, j + 1)});
                }
            }
        }
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        meshkernel::OrthogonalizationParameters p;
        p.outer_iterations = 6;
        p.boundary_iterations = 25;
        p.inner_iterations = 10;
        p.orthogonalization_to_smoothing_factor = c.real(0.5, 1.0, 20);
        PBT_LOG(c, "disturbed square grid ", str(g.nodes), " ", str(g.edges));
        PBT_LOG(c, "compute_orthogonalization ", text(p));
        c.op("mesh2d_compute_orthogonalization");
        must(compute(id, p, {}), "mesh2d_compute_orthogonalization");
        ++c.evaluations;
        const auto r = getMesh2(id);
        double before = 0, after = 0;
        for (size_t i = 0; i < ideal.size(); ++i)
        {
            before += dot(g.nodes[i] - ideal[i], g.nodes[i] - ideal[i]);
            after += dot(r.nodes[i] - ideal[i], r.nodes[i] - ideal[i]);
        }
        before = std::sqrt(before / static_cast<double>(ideal.size())) / h;
        after = std::sqrt(after / static_cast<double>(ideal.size())) / h;
        c.label(after < 0.1 * before ? "much better" : after < before ? "better" : "worse");
        PBT_CHECK(after <= before + 0.05, "repair:worse", "the distance to the square grid (rms, in cells) grew from ", before, " to ", after);
        if (before > 0.02)
        {
            c.nontrivial();
        }
    }

    // ------------------------------------------------------------------ snapping to a land boundary
    void snap(Case& c)
    {
        reset();
        const int id = newState(0);
        double h = 1;
        Mesh g = genBlock(c, c.coin(0.3), h);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        if (!planarMesh(m) || minAngle(m) < 0.35)
        {
            throw pbt::Discard{"bad mesh"};
        }
        P lo{1e300, 1e300}, hi{-1e300, -1e300};
        for (auto& p : m.nodes)
        {
            lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
            hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
        }
        const P w = hi - lo;
        std::vector<P> land;
        const int lines = 1;
        for (int k = 0; k < lines; ++k)
        {
            if (k > 0)
            {
                land.push_back({missing, missing});
            }
            const bool vertical = c.coin();
            const double at = c.coin() ? c.real(-0.2, 0.1, 32) : c.real(0.9, 1.2, 32);
            const int n = c.range(2, 6);
            const double from = c.real(-0.5, 0.3, 16), to = c.real(0.7, 1.5, 16);
            for (int i = 0; i < n; ++i)
            {
                const double s = from + (to - from) * i / (n - 1), t = at + c.sym(0.04, 16);
                land.push_back(notMissing(vertical ? P{lo.x + t * w.x, lo.y + s * w.y} : P{lo.x + s * w.x, lo.y + t * w.y}));
            }
        }
        PolySet poly;
        if (c.coin(0.3))
        {
            poly = genPolySet(c, lo, hi, true);
        }
        PBT_LOG(c, "mesh ", str(m.nodes), " ", str(m.edges));
        PBT_LOG(c, "snap_to_landboundary polygon ", str(poly.points()), " land ", str(land));
        c.op("mesh2d_snap_to_landboundary");
        Geo gp(poly.points()), gl(land);
        const int rc = api::mkernel_mesh2d_snap_to_landboundary(id, gp.list(), gl.list());
        ++c.evaluations;
        const auto r = getMesh2(id);
        if (rc != 0)
        {
            PBT_CHECK(r.nodes == m.nodes && r.edges == m.edges, "snap:error", "the mesh changed by a call that failed");
            c.label("no snapping possible");
            return;
        }
        PBT_CHECK(r.edges == m.edges && r.nodes.size() == m.nodes.size(), "snap:connectivity", "the edges or the number of nodes changed");
        int moved = 0;
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            const P p = m.nodes[i], q = r.nodes[i];
            if (p == q)
            {
                continue;
            }
            ++moved;
            // the library may bridge gaps in the land boundary, but only between points of it
            P a{1e300, 1e300}, b{-1e300, -1e300};
            for (auto& x : land)
            {
                a = {std::min(a.x, x.x), std::min(a.y, x.y)};
                b = {std::max(b.x, x.x), std::max(b.y, x.y)};
            }
            const double tol = 1e-6 * h;
            PBT_CHECK(q.x >= a.x - tol && q.y >= a.y - tol && q.x <= b.x + tol && q.y <= b.y + tol, "snap:on-land", "node ", i, " moved from ", str(p), " to ", str(q), ", which is outside the box around the land boundary");
            if (land.size() == 2)
            {
                const double d = segDist(q, land[0], land[1]);
                PBT_CHECK(d <= tol, "snap:on-line", "node ", i, " moved from ", str(p), " to ", str(q), ", which is ", d, " away from the only land boundary segment");
                c.label("one land boundary segment");
            }
            if (!poly.empty())
            {
                PBT_CHECK(poly.contains(p) || poly.distToBoundary(p) <= 1e-6 * h, "snap:outside", "node ", i, " at ", str(p), " is outside the polygon and moved to ", str(q));
            }
        }
        c.label(moved ? "snapped" : "not snapped");
        if (moved)
        {
            c.nontrivial();
        }
    }

    pbt::Register reg("C25",
                      "a case is non-trivial if a node moved, or a uniform mesh was orthogonalized, or the place of an inner node was compared with the reference",
                      40000, 800000,
                      {{"invariants", invariants, 3},
                       {"uniform", fixedPoint, 1},
                       {"weighted", weighted, 3},
                       {"repair", repair, 1},
                       {"snap", snap, 2}});
} // namespace
