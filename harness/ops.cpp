#include "ops.hpp"
#include <MeshKernel/Parameters.hpp>

namespace mk
{
    Snapshot snapshot(int id)
    {
        Snapshot s;
        bool v = false;
        must(api::mkernel_is_valid_state(id, v), "is_valid_state");
        s.valid = v;
        if (!v)
        {
            return s;
        }
        s.exists = true;
        must(api::mkernel_get_projection(id, s.projection), "get_projection");
        s.m2 = getMesh2(id);
        s.m1 = getMesh1(id);
        s.cg = getCurvi(id);
        s.ct = getContacts(id);
        return s;
    }

    std::string diffMesh2(const Mesh2& a, const Mesh2& b, bool exactTopology, double lonTol)
    {
        using pbt::cat;
        // longitudes that are moved by 360 degrees and back are the same up to rounding
        auto sameP = [&](P p, P q)
        { return mk::sameP(p, q) || (lonTol > 0 && std::abs(p.x - q.x) <= lonTol && std::abs(p.y - q.y) <= lonTol); };
        if (a.numValidNodes != b.numValidNodes)
        {
            return cat("number of valid nodes ", a.numValidNodes, " vs ", b.numValidNodes);
        }
        if (a.numValidEdges != b.numValidEdges)
        {
            return cat("number of valid edges ", a.numValidEdges, " vs ", b.numValidEdges);
        }
        for (size_t i = 0; i < std::max(a.nodes.size(), b.nodes.size()); ++i)
        {
            const P p = i < a.nodes.size() ? a.nodes[i] : P{missing, missing}, q = i < b.nodes.size() ? b.nodes[i] : P{missing, missing};
            if (p.valid() != q.valid() || (p.valid() && !sameP(p, q)))
            {
                return cat("node ", i, ": ", str(p), " vs ", str(q));
            }
        }
        for (size_t i = 0; i < std::max(a.edges.size(), b.edges.size()); ++i)
        {
            const std::array<int, 2> none{-1, -1};
            const auto p = i < a.edges.size() ? a.edges[i] : none, q = i < b.edges.size() ? b.edges[i] : none;
            const bool pv = p[0] >= 0 && p[1] >= 0, qv = q[0] >= 0 && q[1] >= 0;
            if (pv != qv || (pv && p != q))
            {
                return cat("edge ", i, ": (", p[0], ",", p[1], ") vs (", q[0], ",", q[1], ")");
            }
            if (pv && exactTopology && i < a.edges.size() && i < b.edges.size() && a.edgeFaces[i] != b.edgeFaces[i])
            {
                return cat("faces of edge ", i, ": (", a.edgeFaces[i][0], ",", a.edgeFaces[i][1], ") vs (", b.edgeFaces[i][0], ",", b.edgeFaces[i][1], ")");
            }
        }
        if (exactTopology)
        {
            if (a.faceNodes != b.faceNodes || a.faceEdges != b.faceEdges)
            {
                return cat("faces differ (", a.faceNodes.size(), " vs ", b.faceNodes.size(), ")");
            }
            for (size_t f = 0; f < a.faceCentres.size(); ++f)
            {
                if (!sameP(a.faceCentres[f], b.faceCentres[f]) && !(lonTol > 0 && dist(a.faceCentres[f], b.faceCentres[f]) < 1e-6))
                {
                    return cat("mass centre of face ", f, ": ", str(a.faceCentres[f]), " vs ", str(b.faceCentres[f]));
                }
            }
        }
        return "";
    }

    static std::string diffPts(const std::vector<P>& a, const std::vector<P>& b, const char* what)
    {
        if (a.size() != b.size())
        {
            return pbt::cat("number of ", what, " ", a.size(), " vs ", b.size());
        }
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (!sameP(a[i], b[i]))
            {
                return pbt::cat(what, " ", i, ": ", str(a[i]), " vs ", str(b[i]));
            }
        }
        return "";
    }

    std::string diffSnapshot(const Snapshot& a, const Snapshot& b)
    {
        if (a.valid != b.valid)
        {
            return pbt::cat("validity of the state ", a.valid, " vs ", b.valid);
        }
        if (!a.valid)
        {
            return "";
        }
        if (a.projection != b.projection)
        {
            return pbt::cat("projection ", a.projection, " vs ", b.projection);
        }
        if (auto d = diffMesh2(a.m2, b.m2, true, a.projection == 1 ? 1e-10 : 0.0); !d.empty())
        {
            return "mesh2d " + d;
        }
        if (auto d = diffPts(a.m1.nodes, b.m1.nodes, "mesh1d nodes"); !d.empty())
        {
            return d;
        }
        if (a.m1.edges != b.m1.edges)
        {
            return "mesh1d edges differ";
        }
        if (a.cg.n != b.cg.n || a.cg.m != b.cg.m)
        {
            return pbt::cat("curvilinear grid size ", a.cg.n, "x", a.cg.m, " vs ", b.cg.n, "x", b.cg.m);
        }
        if (auto d = diffPts(a.cg.nodes, b.cg.nodes, "curvilinear grid nodes"); !d.empty())
        {
            return d;
        }
        if (!(a.ct == b.ct))
        {
            return pbt::cat("contacts differ ", str(a.ct.m1), str(a.ct.m2), " vs ", str(b.ct.m1), str(b.ct.m2));
        }
        return "";
    }

    void Ctx::refresh(bool all)
    {
        m2 = getMesh2(id);
        must(api::mkernel_get_projection(id, projection), "get_projection");
        if (all)
        {
            m1 = getMesh1(id);
            cg = getCurvi(id);
        }
        validNodes.clear();
        validEdges.clear();
        lo = {1e300, 1e300};
        hi = {-1e300, -1e300};
        for (size_t i = 0; i < m2.nodes.size(); ++i)
        {
            if (m2.nodeValid(i))
            {
                validNodes.push_back(static_cast<int>(i));
                lo = {std::min(lo.x, m2.nodes[i].x), std::min(lo.y, m2.nodes[i].y)};
                hi = {std::max(hi.x, m2.nodes[i].x), std::max(hi.y, m2.nodes[i].y)};
            }
        }
        double total = 0;
        for (size_t i = 0; i < m2.edges.size(); ++i)
        {
            if (m2.edgeValid(i))
            {
                validEdges.push_back(static_cast<int>(i));
                total += dist(m2.nodes[static_cast<size_t>(m2.edges[i][0])], m2.nodes[static_cast<size_t>(m2.edges[i][1])]);
            }
        }
        if (validNodes.empty() || !(hi.x - lo.x < 1e12) || !(hi.y - lo.y < 1e12) || hi.x < lo.x || hi.y < lo.y)
        {
            lo = {0, 0};
            hi = {50, 50};
        }
        h = validEdges.empty() ? 10.0 : total / static_cast<double>(validEdges.size());
        box.lo = lo;
        box.hi = hi;
        box.h = h;
    }

    static bool hasMesh(Ctx& x) { return !x.validEdges.empty(); }
    static bool hasGrid(Ctx& x) { return x.cg.n >= 2 && x.cg.m >= 2; }
    static bool any(Ctx&) { return true; }
    static P nodeP(Ctx& x, int i) { return x.m2.nodes[static_cast<size_t>(i)]; }
    static P validGridNode(Ctx& x, int& i, int& j)
    {
        for (int t = 0; t < 8; ++t)
        {
            i = x.c.range(0, x.cg.n - 1);
            j = x.c.range(0, x.cg.m - 1);
            if (x.cg.at(i, j).valid())
            {
                break;
            }
        }
        if (!x.cg.at(i, j).valid())
        {
            throw pbt::Discard{};
        }
        return x.cg.at(i, j);
    }
    static P validGridNode(Ctx& x)
    {
        int i, j;
        return validGridNode(x, i, j);
    }
    /// two nodes on the same grid line
    static std::pair<P, P> validPair(P a, P b)
    {
        if (!a.valid() || !b.valid())
        {
            throw pbt::Discard{};
        }
        return {a, b};
    }
    static std::pair<P, P> gridLine(Ctx& x)
    {
        auto& g = x.cg;
        if (x.c.coin())
        {
            const int i = x.c.range(0, g.n - 1);
            int a = x.c.range(0, g.m - 2), b = x.c.range(a + 1, g.m - 1);
            return validPair(g.at(i, a), g.at(i, b));
        }
        const int j = x.c.range(0, g.m - 1);
        int a = x.c.range(0, g.n - 2), b = x.c.range(a + 1, g.n - 1);
        return validPair(g.at(a, j), g.at(b, j));
    }
    static std::pair<P, P> gridBlock(Ctx& x)
    {
        auto& g = x.cg;
        const int a = x.c.range(0, g.n - 2), b = x.c.range(a + 1, g.n - 1);
        const int d = x.c.range(0, g.m - 2), e = x.c.range(d + 1, g.m - 1);
        return validPair(g.at(a, d), g.at(b, e));
    }
    static meshkernel::MakeGridParameters gridParams(Ctx& x)
    {
        meshkernel::MakeGridParameters p;
        p.num_columns = x.c.range(1, 5);
        p.num_rows = x.c.range(1, 5);
        p.angle = x.projection == 0 && x.c.coin(0.3) ? x.c.sym(90, 18) : 0.0;
        p.origin_x = x.c.coin(0.5) ? x.c.sym(50, 100) : 0.0;
        p.origin_y = x.c.coin(0.5) ? x.c.sym(50, 100) : 0.0;
        p.block_size_x = x.projection == 0 ? x.c.real(1, 20, 38) : x.c.real(0.1, 2, 38);
        p.block_size_y = x.projection == 0 ? x.c.real(1, 20, 38) : x.c.real(0.1, 2, 38);
        p.upper_right_x = p.origin_x + p.num_columns * p.block_size_x;
        p.upper_right_y = p.origin_y + p.num_rows * p.block_size_y;
        return p;
    }
    static std::string str(const meshkernel::MakeGridParameters& p)
    {
        return pbt::cat("cols=", p.num_columns, " rows=", p.num_rows, " angle=", p.angle, " origin=(", p.origin_x, ",", p.origin_y, ") block=(", p.block_size_x, ",", p.block_size_y, ") upper=(", p.upper_right_x, ",", p.upper_right_y, ")");
    }
    static Geo polygon(Ctx& x, double emptyProb = 0.2)
    {
        if (x.c.coin(emptyProb))
        {
            return Geo{};
        }
        return Geo(genPolygon(x.c, x.box));
    }
    static Geo polyline(Ctx& x, P lo, P hi, int nmax = 6)
    {
        Geo g;
        const int n = x.c.range(2, nmax);
        for (int i = 0; i < n; ++i)
        {
            const double t = static_cast<double>(i) / (n - 1);
            g.add({lo.x + t * (hi.x - lo.x) + x.c.sym(0.1 * (hi.x - lo.x), 64), lo.y + x.c.real(0, 1, 64) * (hi.y - lo.y)});
        }
        return g;
    }
    static meshkernel::MeshRefinementParameters refineParams(Ctx& x)
    {
        meshkernel::MeshRefinementParameters p;
        p.max_num_refinement_iterations = x.c.range(1, 2);
        p.refine_intersected = x.c.range(0, 1);
        p.use_mass_center_when_refining = x.c.range(0, 1);
        p.min_edge_size = x.h * x.c.real(0.05, 0.9, 16);
        p.refinement_type = 2;
        p.connect_hanging_nodes = x.c.range(0, 1);
        p.account_for_samples_outside = x.c.range(0, 1);
        p.smoothing_iterations = x.c.range(0, 3);
        p.directional_refinement = 0;
        return p;
    }
    static meshkernel::OrthogonalizationParameters orthoParams(Ctx& x)
    {
        meshkernel::OrthogonalizationParameters p;
        p.outer_iterations = x.c.range(1, 2);
        p.boundary_iterations = x.c.range(1, 4);
        p.inner_iterations = x.c.range(1, 4);
        p.orthogonalization_to_smoothing_factor = x.c.real(0, 1, 8);
        p.orthogonalization_to_smoothing_factor_at_boundary = x.c.real(0, 1, 8);
        p.areal_to_angle_smoothing_factor = x.c.real(0, 1, 8);
        return p;
    }
    static Geo samplesIn(Ctx& x, int nmin, int nmax)
    {
        Geo g;
        const int n = x.c.range(nmin, nmax);
        for (int i = 0; i < n; ++i)
        {
            g.add({x.lo.x + x.c.real(-0.1, 1.1, 1021) * (x.hi.x - x.lo.x), x.lo.y + x.c.real(-0.1, 1.1, 1013) * (x.hi.y - x.lo.y)}, x.c.real(0, 10, 100));
        }
        return g;
    }
    static GenMesh sideMesh(Ctx& x)
    {
        MeshOpts o;
        o.maxN = 3;
        o.projection = x.projection;
        o.randomOrigin = false;
        o.origin = {x.hi.x + (x.c.coin() ? 0.0 : x.h * x.c.real(0, 2, 16)), x.lo.y};
        o.allowScale = false;
        return genMesh(x.c, o);
    }
    template <typename F>
    static int withApiMesh(const GenMesh& g, F f)
    {
        std::vector<double> nx, ny;
        std::vector<int> e;
        for (auto& p : g.nodes)
        {
            nx.push_back(p.x);
            ny.push_back(p.y);
        }
        for (auto& a : g.edges)
        {
            e.push_back(a[0]);
            e.push_back(a[1]);
        }
        api::Mesh2D d{};
        d.num_nodes = static_cast<int>(nx.size());
        d.num_edges = static_cast<int>(g.edges.size());
        d.node_x = nx.data();
        d.node_y = ny.data();
        d.edge_nodes = e.data();
        return f(d);
    }
    static void genMesh1(Ctx& x, std::vector<P>& nodes, std::vector<std::array<int, 2>>& edges)
    {
        const int n = x.c.range(2, 8);
        for (int i = 0; i < n; ++i)
        {
            const double t = static_cast<double>(i) / (n - 1);
            nodes.push_back({x.lo.x + (x.hi.x - x.lo.x) * (0.02 + 0.93 * t), x.lo.y + (x.hi.y - x.lo.y) * x.c.real(0.03, 0.97, 61)});
            if (i > 0 && !x.c.coin(0.1))
            {
                edges.push_back({i - 1, i});
            }
        }
        if (edges.empty())
        {
            edges.push_back({0, 1});
        }
    }
    static std::vector<int> mask1d(Ctx& x)
    {
        std::vector<int> m;
        for (size_t i = 0; i < x.m1.nodes.size(); ++i)
        {
            m.push_back(x.c.coin(0.15) ? 0 : 1);
        }
        return m;
    }
    static bool hasBoth(Ctx& x) { return hasMesh(x) && !x.m1.nodes.empty(); }

    const std::vector<Op>& allOps()
    {
        static std::vector<Op> ops = []
        {
            std::vector<Op> r;
            auto add = [&](const char* name, int w, const char* group, std::function<bool(Ctx&)> app, std::function<int(Ctx&)> run)
            { r.push_back({name, w, group, std::move(app), std::move(run)}); };
#define L(...) PBT_LOG(x.c, __VA_ARGS__)
            // ---------------------------------------------------------------- mesh2d, elementary edits
            add("mesh2d_insert_node", 3, "mesh2d", any, [](Ctx& x)
                {
                    P p{x.lo.x + x.c.real(-0.2, 1.2, 512) * (x.hi.x - x.lo.x), x.lo.y + x.c.real(-0.2, 1.2, 512) * (x.hi.y - x.lo.y)};
                    L("mesh2d_insert_node", str(p));
                    int idx;
                    return api::mkernel_mesh2d_insert_node(x.id, p.x, p.y, idx); });
            add("mesh2d_insert_edge", 5, "mesh2d", [](Ctx& x)
                { return x.validNodes.size() > 2; }, [](Ctx& x)
                {
                    const int a = x.c.pick(x.validNodes);
                    std::vector<int> cand;
                    for (int n : x.validNodes)
                    {
                        bool connected = n == a;
                        for (auto& e : x.m2.edges)
                        {
                            connected |= (e[0] == a && e[1] == n) || (e[1] == a && e[0] == n);
                        }
                        if (!connected)
                        {
                            cand.push_back(n);
                        }
                    }
                    if (cand.empty())
                    {
                        throw pbt::Discard{};
                    }
                    const int b = x.c.pick(cand);
                    L("mesh2d_insert_edge ", a, " ", b);
                    int idx;
                    return api::mkernel_mesh2d_insert_edge(x.id, a, b, idx); });
            add("mesh2d_insert_edge_from_coordinates", 3, "mesh2d", any, [](Ctx& x)
                {
                    P a{x.lo.x + x.c.real(-0.2, 1.2, 512) * (x.hi.x - x.lo.x), x.lo.y + x.c.real(-0.2, 1.2, 512) * (x.hi.y - x.lo.y)};
                    P b{a.x + x.h * x.c.real(0.3, 1.5, 64), a.y + x.h * x.c.sym(1.0, 64)};
                    L("mesh2d_insert_edge_from_coordinates ", str(a), str(b));
                    int i, j, e;
                    return api::mkernel_mesh2d_insert_edge_from_coordinates(x.id, a.x, a.y, b.x, b.y, i, j, e); });
            add("mesh2d_delete_node", 5, "mesh2d", hasMesh, [](Ctx& x)
                {
                    const int n = x.c.pick(x.validNodes);
                    L("mesh2d_delete_node ", n);
                    return api::mkernel_mesh2d_delete_node(x.id, n); });
            add("mesh2d_delete_edge_by_index", 4, "mesh2d", hasMesh, [](Ctx& x)
                {
                    const int e = x.c.pick(x.validEdges);
                    L("mesh2d_delete_edge_by_index ", e);
                    return api::mkernel_mesh2d_delete_edge_by_index(x.id, e); });
            add("mesh2d_delete_edge", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    const int e = x.c.pick(x.validEdges);
                    const P m = (nodeP(x, x.m2.edges[static_cast<size_t>(e)][0]) + nodeP(x, x.m2.edges[static_cast<size_t>(e)][1])) * 0.5;
                    const double d = 2 * (x.hi.x - x.lo.x) + 2 * (x.hi.y - x.lo.y);
                    L("mesh2d_delete_edge ", str(m));
                    return api::mkernel_mesh2d_delete_edge(x.id, m.x, m.y, x.lo.x - d, x.lo.y - d, x.hi.x + d, x.hi.y + d); });
            add("mesh2d_move_node", 5, "mesh2d", hasMesh, [](Ctx& x)
                {
                    const int n = x.c.pick(x.validNodes);
                    const P p = nodeP(x, n) + P{x.c.sym(0.4, 64) * x.h, x.c.sym(0.4, 64) * x.h};
                    L("mesh2d_move_node ", n, " to ", str(p));
                    return api::mkernel_mesh2d_move_node(x.id, p.x, p.y, n); });
            add("mesh2d_merge_two_nodes", 4, "mesh2d", [](Ctx& x)
                { return x.validEdges.size() > 2; }, [](Ctx& x)
                {
                    int a, b;
                    if (x.c.coin(0.7))
                    {
                        const auto e = x.m2.edges[static_cast<size_t>(x.c.pick(x.validEdges))];
                        a = e[0];
                        b = e[1];
                    }
                    else
                    {
                        a = x.c.pick(x.validNodes);
                        b = x.c.pick(x.validNodes);
                        if (a == b)
                        {
                            throw pbt::Discard{};
                        }
                    }
                    L("mesh2d_merge_two_nodes ", a, " ", b);
                    return api::mkernel_mesh2d_merge_two_nodes(x.id, a, b); });
            add("mesh2d_merge_nodes", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x);
                    L("mesh2d_merge_nodes polygon=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_merge_nodes(x.id, l); });
            add("mesh2d_merge_nodes_with_merging_distance", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x);
                    const double d = x.h * x.c.real(0.01, 0.8, 64);
                    L("mesh2d_merge_nodes_with_merging_distance ", d, " polygon=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_merge_nodes_with_merging_distance(x.id, l, d); });
            add("mesh2d_delete", 4, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x, 0.0);
                    const int opt = x.c.range(0, 2), inv = x.c.range(0, 1);
                    L("mesh2d_delete option=", opt, " invert=", inv, " polygon=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_delete(x.id, l, opt, inv); });
            add("mesh2d_delete_hanging_edges", 1, "mesh2d", hasMesh, [](Ctx& x)
                {
                    L("mesh2d_delete_hanging_edges");
                    return api::mkernel_mesh2d_delete_hanging_edges(x.id); });
            add("mesh2d_remove_disconnected_regions", 1, "mesh2d", hasMesh, [](Ctx& x)
                {
                    L("mesh2d_remove_disconnected_regions");
                    return api::mkernel_mesh2d_remove_disconnected_regions(x.id); });
            add("mesh2d_delete_small_flow_edges_and_small_triangles", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    const double a = x.c.real(0, 1.2, 24), b = x.c.real(0, 2.0, 20);
                    L("mesh2d_delete_small_flow_edges_and_small_triangles ", a, " ", b);
                    return api::mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(x.id, a, b); });
            add("mesh2d_flip_edges", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x, 0.6);
                    Geo land;
                    const int tri = x.c.range(0, 1);
                    L("mesh2d_flip_edges triangulate=", tri, " polygon=", str(g.pts()));
                    auto l = g.list();
                    auto ld = land.list();
                    return api::mkernel_mesh2d_flip_edges(x.id, tri, 0, l, ld); });
            add("mesh2d_refine_based_on_polygon", 3, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x, 0.3);
                    auto p = refineParams(x);
                    L("mesh2d_refine_based_on_polygon iters=", p.max_num_refinement_iterations, " intersected=", p.refine_intersected, " mass=", p.use_mass_center_when_refining, " min=", p.min_edge_size, " connect=", p.connect_hanging_nodes, " polygon=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_refine_based_on_polygon(x.id, l, p); });
            add("mesh2d_refine_based_on_samples", 3, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = samplesIn(x, 1, 8);
                    auto p = refineParams(x);
                    L("mesh2d_refine_based_on_samples iters=", p.max_num_refinement_iterations, " min=", p.min_edge_size, " connect=", p.connect_hanging_nodes, " mass=", p.use_mass_center_when_refining, " outside=", p.account_for_samples_outside, " samples=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_refine_based_on_samples(x.id, l, 1.0, 1, p); });
            add("mesh2d_refine_based_on_gridded_samples", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto p = refineParams(x);
                    p.refinement_type = 1;
                    p.max_courant_time = x.c.real(0.1, 20, 64);
                    api::GriddedSamples s{};
                    s.num_x = x.c.range(2, 5);
                    s.num_y = x.c.range(2, 5);
                    s.x_origin = x.lo.x;
                    s.y_origin = x.lo.y;
                    s.cell_size = std::max(x.hi.x - x.lo.x, x.hi.y - x.lo.y) / 3.0;
                    std::vector<float> v;
                    for (int i = 0; i < s.num_x * s.num_y; ++i)
                    {
                        v.push_back(static_cast<float>(x.c.sym(20, 40)));
                    }
                    s.values = v.data();
                    const bool nodal = x.c.coin();
                    L("mesh2d_refine_based_on_gridded_samples ", s.num_x, "x", s.num_y, " cell=", s.cell_size, " nodal=", nodal, " courant=", p.max_courant_time, " min=", p.min_edge_size);
                    return api::mkernel_mesh2d_refine_based_on_gridded_samples(x.id, s, p, nodal); });
            add("mesh2d_refine_ridges_based_on_gridded_samples", 1, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto p = refineParams(x);
                    p.refinement_type = 3;
                    api::GriddedSamples s{};
                    s.num_x = x.c.range(3, 6);
                    s.num_y = x.c.range(3, 6);
                    s.x_origin = x.lo.x;
                    s.y_origin = x.lo.y;
                    s.cell_size = std::max(x.hi.x - x.lo.x, x.hi.y - x.lo.y) / 4.0;
                    std::vector<float> v;
                    for (int i = 0; i < s.num_x * s.num_y; ++i)
                    {
                        v.push_back(static_cast<float>(x.c.sym(20, 40)));
                    }
                    s.values = v.data();
                    L("mesh2d_refine_ridges_based_on_gridded_samples ", s.num_x, "x", s.num_y, " cell=", s.cell_size, " min=", p.min_edge_size);
                    return api::mkernel_mesh2d_refine_ridges_based_on_gridded_samples(x.id, s, 1.01, 1, x.c.range(0, 1), p); });
            add("mesh2d_casulli_refinement", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    L("mesh2d_casulli_refinement");
                    return api::mkernel_mesh2d_casulli_refinement(x.id); });
            add("mesh2d_casulli_refinement_on_polygon", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x, 0.0);
                    L("mesh2d_casulli_refinement_on_polygon ", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_casulli_refinement_on_polygon(x.id, l); });
            add("mesh2d_casulli_derefinement", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    L("mesh2d_casulli_derefinement");
                    return api::mkernel_mesh2d_casulli_derefinement(x.id); });
            add("mesh2d_casulli_derefinement_on_polygon", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x, 0.0);
                    L("mesh2d_casulli_derefinement_on_polygon ", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_casulli_derefinement_on_polygon(x.id, l); });
            add("mesh2d_split_row", 3, "mesh2d", hasMesh, [](Ctx& x)
                {
                    const auto e = x.m2.edges[static_cast<size_t>(x.c.pick(x.validEdges))];
                    L("mesh2d_split_row ", e[0], " ", e[1]);
                    return api::mkernel_mesh2d_split_row(x.id, e[0], e[1]); });
            add("mesh2d_rotate", 1, "mesh2d", [](Ctx& x)
                { return hasMesh(x) && x.projection == 0; }, [](Ctx& x)
                {
                    const double t = x.c.real(0.1, 359.9, 720);
                    L("mesh2d_rotate ", t);
                    return api::mkernel_mesh2d_rotate(x.id, x.lo.x, x.hi.y, t); });
            add("mesh2d_translate", 1, "mesh2d", [](Ctx& x)
                { return hasMesh(x) && x.projection == 0; }, [](Ctx& x)
                {
                    const double a = x.c.sym(100, 200), b = x.c.sym(100, 200);
                    L("mesh2d_translate ", a, " ", b);
                    return api::mkernel_mesh2d_translate(x.id, a, b); });
            add("mesh2d_connect_meshes", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = sideMesh(x);
                    const double f = x.c.real(0.05, 1.0, 19);
                    logMesh(x.c, g, "mesh2d_connect_meshes");
                    L("  fraction=", f);
                    return withApiMesh(g, [&](api::Mesh2D& d)
                                       { return api::mkernel_mesh2d_connect_meshes(x.id, d, f); }); });
            add("mesh2d_snap_to_landboundary", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x, 0.5);
                    P lo{x.lo.x - 0.1 * x.h, x.lo.y - 0.4 * x.h}, hi{x.hi.x + 0.1 * x.h, x.lo.y + 0.3 * x.h};
                    auto land = polyline(x, lo, hi);
                    L("mesh2d_snap_to_landboundary land=", str(land.pts()), " polygon=", str(g.pts()));
                    auto l = g.list();
                    auto ld = land.list();
                    return api::mkernel_mesh2d_snap_to_landboundary(x.id, l, ld); });
            add("mesh2d_compute_orthogonalization", 2, "mesh2d", hasMesh, [](Ctx& x)
                {
                    auto g = polygon(x, 0.6);
                    P lo{x.lo.x - 0.1 * x.h, x.lo.y - 0.4 * x.h}, hi{x.hi.x + 0.1 * x.h, x.lo.y + 0.3 * x.h};
                    auto land = x.c.coin(0.5) ? Geo{} : polyline(x, lo, hi);
                    const int opt = x.c.range(0, 4);
                    auto p = orthoParams(x);
                    L("mesh2d_compute_orthogonalization option=", opt, " land=", str(land.pts()), " polygon=", str(g.pts()), " outer=", p.outer_iterations, " bnd=", p.boundary_iterations, " inner=", p.inner_iterations);
                    auto l = g.list();
                    auto ld = land.list();
                    return api::mkernel_mesh2d_compute_orthogonalization(x.id, opt, p, l, ld); });
            // ---------------------------------------------------------------- mesh2d, replacing
            add("mesh2d_set", 3, "mesh2dset", any, [](Ctx& x)
                {
                    MeshOpts o;
                    o.maxN = 4;
                    o.projection = x.projection;
                    o.allowIsolated = true;
                    auto g = genMesh(x.c, o);
                    logMesh(x.c, g, "mesh2d_set");
                    return setMesh2(x.id, g.nodes, g.edges); });
            add("mesh2d_add", 2, "mesh2dset", any, [](Ctx& x)
                {
                    auto g = sideMesh(x);
                    logMesh(x.c, g, "mesh2d_add");
                    return withApiMesh(g, [&](api::Mesh2D& d)
                                       { return api::mkernel_mesh2d_add(x.id, d); }); });
            add("mesh2d_make_rectangular_mesh", 1, "mesh2dset", any, [](Ctx& x)
                {
                    auto p = gridParams(x);
                    L("mesh2d_make_rectangular_mesh ", str(p));
                    return api::mkernel_mesh2d_make_rectangular_mesh(x.id, p); });
            add("mesh2d_make_rectangular_mesh_on_extension", 1, "mesh2dset", any, [](Ctx& x)
                {
                    auto p = gridParams(x);
                    p.angle = 0;
                    L("mesh2d_make_rectangular_mesh_on_extension ", str(p));
                    return api::mkernel_mesh2d_make_rectangular_mesh_on_extension(x.id, p); });
            add("mesh2d_make_rectangular_mesh_from_polygon", 1, "mesh2dset", any, [](Ctx& x)
                {
                    auto p = gridParams(x);
                    p.block_size_x = p.block_size_y = x.h * 0.7;
                    auto g = polygon(x, 0.0);
                    L("mesh2d_make_rectangular_mesh_from_polygon ", str(p), " polygon=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_make_rectangular_mesh_from_polygon(x.id, p, l); });
            add("mesh2d_make_triangular_mesh_from_polygon", 1, "mesh2dset", any, [](Ctx& x)
                {
                    const double d = std::max(x.hi.x - x.lo.x, x.hi.y - x.lo.y);
                    Geo g(genStarPolygon(x.c, x.lo, x.hi, 0.4 * d, 0.6 * d));
                    L("mesh2d_make_triangular_mesh_from_polygon ", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_make_triangular_mesh_from_polygon(x.id, l); });
            add("mesh2d_make_triangular_mesh_from_samples", 1, "mesh2dset", any, [](Ctx& x)
                {
                    auto g = samplesIn(x, 4, 10);
                    L("mesh2d_make_triangular_mesh_from_samples ", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_mesh2d_make_triangular_mesh_from_samples(x.id, l); });
            add("mesh2d_make_global", 1, "mesh2dset", [](Ctx& x)
                { return x.projection != 0; }, [](Ctx& x)
                {
                    const int a = x.c.range(4, 10), b = x.c.range(3, 8);
                    L("mesh2d_make_global ", a, " ", b);
                    return api::mkernel_mesh2d_make_global(x.id, a, b); });
            add("mesh2d_convert_projection", 1, "mesh2dset", hasMesh, [](Ctx& x)
                {
                    if (x.projection == 0)
                    {
                        const double m = std::max({std::abs(x.lo.x), std::abs(x.lo.y), std::abs(x.hi.x), std::abs(x.hi.y)});
                        if (m > 5e4)
                        {
                            throw pbt::Discard{};
                        }
                    }
                    const int target = x.projection == 0 ? 1 : 0;
                    L("mesh2d_convert_projection to ", target);
                    return api::mkernel_mesh2d_convert_projection(x.id, target, "+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31"); });
            // ---------------------------------------------------------------- mesh1d, network, contacts
            add("mesh1d_set", 2, "mesh1d", any, [](Ctx& x)
                {
                    std::vector<P> n;
                    std::vector<std::array<int, 2>> e;
                    genMesh1(x, n, e);
                    L("mesh1d_set ", str(n), str(e));
                    return setMesh1(x.id, n, e); });
            add("mesh1d_add", 1, "mesh1d", any, [](Ctx& x)
                {
                    std::vector<P> n;
                    std::vector<std::array<int, 2>> e;
                    genMesh1(x, n, e);
                    L("mesh1d_add ", str(n), str(e));
                    std::vector<double> nx, ny;
                    std::vector<int> en;
                    for (auto& p : n)
                    {
                        nx.push_back(p.x);
                        ny.push_back(p.y);
                    }
                    for (auto& a : e)
                    {
                        en.push_back(a[0]);
                        en.push_back(a[1]);
                    }
                    api::Mesh1D d{};
                    d.num_nodes = static_cast<int>(n.size());
                    d.num_edges = static_cast<int>(e.size());
                    d.node_x = nx.data();
                    d.node_y = ny.data();
                    d.edge_nodes = en.data();
                    return api::mkernel_mesh1d_add(x.id, d); });
            add("network1d_to_mesh1d", 2, "mesh1d", any, [](Ctx& x)
                {
                    auto pl = polyline(x, x.lo, x.hi, 4);
                    const double toLength = x.projection == 0 ? 1.0 : 111.0e3; // offsets are lengths in metres
                    const double off = toLength * std::max(x.h * x.c.real(0.2, 1.0, 16), 0.01 * dist(x.lo, x.hi));
                    L("network1d_set ", str(pl.pts()), "; compute_offsetted_chainages ", off, "; network1d_to_mesh1d");
                    auto l = pl.list();
                    int rc = api::mkernel_network1d_set(x.id, l);
                    if (rc != 0)
                    {
                        return rc;
                    }
                    must(api::mkernel_network1d_compute_offsetted_chainages(x.id, off), "network1d_compute_offsetted_chainages");
                    return api::mkernel_network1d_to_mesh1d(x.id, 0.01 * x.h * toLength); });
            add("contacts_compute_single", 2, "contacts", hasBoth, [](Ctx& x)
                {
                    auto m = mask1d(x);
                    auto g = polygon(x, 0.3);
                    L("contacts_compute_single mask=", str(m), " polygon=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_contacts_compute_single(x.id, m.data(), l, x.c.real(0, 2, 8)); });
            add("contacts_compute_multiple", 2, "contacts", hasBoth, [](Ctx& x)
                {
                    auto m = mask1d(x);
                    L("contacts_compute_multiple mask=", str(m));
                    return api::mkernel_contacts_compute_multiple(x.id, m.data()); });
            add("contacts_compute_with_polygons", 1, "contacts", hasBoth, [](Ctx& x)
                {
                    auto m = mask1d(x);
                    auto g = polygon(x, 0.0);
                    L("contacts_compute_with_polygons mask=", str(m), " polygon=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_contacts_compute_with_polygons(x.id, m.data(), l); });
            add("contacts_compute_with_points", 1, "contacts", hasBoth, [](Ctx& x)
                {
                    auto m = mask1d(x);
                    auto g = samplesIn(x, 1, 5);
                    L("contacts_compute_with_points mask=", str(m), " points=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_contacts_compute_with_points(x.id, m.data(), l); });
            add("contacts_compute_boundary", 1, "contacts", hasBoth, [](Ctx& x)
                {
                    auto m = mask1d(x);
                    auto g = polygon(x, 0.5);
                    const double rad = x.c.coin() ? -999.0 : x.h * x.c.real(0.5, 5, 9);
                    L("contacts_compute_boundary mask=", str(m), " polygon=", str(g.pts()), " radius=", rad);
                    auto l = g.list();
                    return api::mkernel_contacts_compute_boundary(x.id, m.data(), l, rad); });
            // ---------------------------------------------------------------- curvilinear
            add("curvilinear_set", 3, "curviset", any, [](Ctx& x)
                {
                    auto g = genCurvi(x.c, 6, 2, true);
                    L("curvilinear_set ", str(g));
                    return setCurvi(x.id, g); });
            add("curvilinear_compute_rectangular_grid", 2, "curviset", any, [](Ctx& x)
                {
                    auto p = gridParams(x);
                    L("curvilinear_compute_rectangular_grid ", str(p));
                    return api::mkernel_curvilinear_compute_rectangular_grid(x.id, p); });
            add("curvilinear_compute_rectangular_grid_on_extension", 1, "curviset", any, [](Ctx& x)
                {
                    auto p = gridParams(x);
                    p.angle = 0;
                    L("curvilinear_compute_rectangular_grid_on_extension ", str(p));
                    return api::mkernel_curvilinear_compute_rectangular_grid_on_extension(x.id, p); });
            add("curvilinear_compute_rectangular_grid_from_polygon", 1, "curviset", any, [](Ctx& x)
                {
                    auto p = gridParams(x);
                    p.block_size_x = p.block_size_y = x.h * 0.7;
                    auto g = polygon(x, 0.0);
                    L("curvilinear_compute_rectangular_grid_from_polygon ", str(p), " polygon=", str(g.pts()));
                    auto l = g.list();
                    return api::mkernel_curvilinear_compute_rectangular_grid_from_polygon(x.id, p, l); });
            add("curvilinear_compute_circular_grid", 1, "curviset", [](Ctx& x)
                { return x.projection == 0; }, [](Ctx& x)
                {
                    auto p = gridParams(x);
                    p.num_columns = x.c.range(4, 10);
                    p.num_rows = x.c.range(4, 8);
                    p.radius_curvature = x.c.coin() ? 0.0 : x.c.real(1, 100, 99);
                    L("curvilinear_compute_circular_grid ", str(p), " radius=", p.radius_curvature);
                    return api::mkernel_curvilinear_compute_circular_grid(x.id, p); });
            add("curvilinear_compute_transfinite_from_polygon", 1, "curviset", any, [](Ctx& x)
                {
                    // closed rectangle-like polygon with k points per side
                    const int k = x.c.range(1, 3);
                    Geo g;
                    const double s = 10.0;
                    for (int side = 0; side < 4; ++side)
                    {
                        for (int i = 0; i < k; ++i)
                        {
                            const double t = s * i;
                            const double m = s * k;
                            P p = side == 0 ? P{t, 0} : side == 1 ? P{m, t}
                                                    : side == 2   ? P{m - t, m}
                                                                  : P{0, m - t};
                            g.add(p + P{x.c.sym(2, 16), x.c.sym(2, 16)});
                        }
                    }
                    g.add(g.at(0));
                    const int use4 = x.c.range(0, 1);
                    L("curvilinear_compute_transfinite_from_polygon ", str(g.pts()), " 0 ", k, " ", 2 * k, " fourth=", use4);
                    auto l = g.list();
                    return api::mkernel_curvilinear_compute_transfinite_from_polygon(x.id, l, 0, k, 2 * k, use4); });
            add("mesh2d_convert_to_curvilinear", 2, "curviset", hasMesh, [](Ctx& x)
                {
                    if (x.m2.faceCentres.empty())
                    {
                        throw pbt::Discard{};
                    }
                    const P p = x.m2.faceCentres[x.c.draw(x.m2.faceCentres.size())];
                    L("mesh2d_convert_to_curvilinear ", str(p));
                    return api::mkernel_mesh2d_convert_to_curvilinear(x.id, p.x, p.y); });
            add("curvilinear_refine", 3, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = x.c.coin() ? gridLine(x) : gridBlock(x);
                    const int f = x.c.range(2, 3);
                    L("curvilinear_refine ", str(a), str(b), " ", f);
                    return api::mkernel_curvilinear_refine(x.id, a.x, a.y, b.x, b.y, f); });
            add("curvilinear_full_refine", 1, "curvi", hasGrid, [](Ctx& x)
                {
                    const int a = x.c.range(1, 3), b = x.c.range(1, 3);
                    L("curvilinear_full_refine ", a, " ", b);
                    return api::mkernel_curvilinear_full_refine(x.id, a, b); });
            add("curvilinear_derefine", 3, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = x.c.coin() ? gridLine(x) : gridBlock(x);
                    L("curvilinear_derefine ", str(a), str(b));
                    return api::mkernel_curvilinear_derefine(x.id, a.x, a.y, b.x, b.y); });
            add("curvilinear_move_node", 3, "curvi", hasGrid, [](Ctx& x)
                {
                    const P a = validGridNode(x), b = a + P{x.c.sym(3, 30), x.c.sym(3, 30)};
                    L("curvilinear_move_node ", str(a), str(b));
                    return api::mkernel_curvilinear_move_node(x.id, a.x, a.y, b.x, b.y); });
            add("curvilinear_delete_node", 3, "curvi", hasGrid, [](Ctx& x)
                {
                    const P a = validGridNode(x);
                    L("curvilinear_delete_node ", str(a));
                    return api::mkernel_curvilinear_delete_node(x.id, a.x, a.y); });
            add("curvilinear_insert_face", 3, "curvi", hasGrid, [](Ctx& x)
                {
                    int i, j;
                    const P a = validGridNode(x, i, j);
                    const P b = j == 0 ? a - P{0.3, -0.2} : a + P{0.3, 0.2};
                    L("curvilinear_insert_face ", str(b));
                    return api::mkernel_curvilinear_insert_face(x.id, b.x, b.y); });
            add("curvilinear_delete_interior", 2, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = gridBlock(x);
                    L("curvilinear_delete_interior ", str(a), str(b));
                    return api::mkernel_curvilinear_delete_interior(x.id, a.x, a.y, b.x, b.y); });
            add("curvilinear_delete_exterior", 2, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = gridBlock(x);
                    L("curvilinear_delete_exterior ", str(a), str(b));
                    return api::mkernel_curvilinear_delete_exterior(x.id, a.x, a.y, b.x, b.y); });
            add("curvilinear_smoothing", 2, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = gridBlock(x);
                    const int it = x.c.range(1, 4);
                    L("curvilinear_smoothing ", it, str(a), str(b));
                    return api::mkernel_curvilinear_smoothing(x.id, it, a.x, a.y, b.x, b.y); });
            add("curvilinear_smoothing_directional", 2, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = gridLine(x);
                    auto [p, q] = gridBlock(x);
                    const int it = x.c.range(1, 4);
                    L("curvilinear_smoothing_directional ", it, str(a), str(b), str(p), str(q));
                    return api::mkernel_curvilinear_smoothing_directional(x.id, it, a.x, a.y, b.x, b.y, p.x, p.y, q.x, q.y); });
            add("curvilinear_line_attraction_repulsion", 2, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = gridLine(x);
                    auto [p, q] = gridBlock(x);
                    const double r = x.c.sym(0.9, 18);
                    L("curvilinear_line_attraction_repulsion ", r, str(a), str(b), str(p), str(q));
                    return api::mkernel_curvilinear_line_attraction_repulsion(x.id, r, a.x, a.y, b.x, b.y, p.x, p.y, q.x, q.y); });
            add("curvilinear_line_mirror", 2, "curvi", hasGrid, [](Ctx& x)
                {
                    // part of an outer grid line, with the next line inside of it valid too
                    const int side = x.c.range(0, 3), num = side < 2 ? x.cg.m : x.cg.n;
                    int s = x.c.range(0, num - 2), e = x.c.range(s + 1, num - 1);
                    auto at = [&](int k, int depth)
                    {
                        return side == 0 ? x.cg.at(depth, k) : side == 1 ? x.cg.at(x.cg.n - 1 - depth, k)
                                                           : side == 2   ? x.cg.at(k, depth)
                                                                         : x.cg.at(k, x.cg.m - 1 - depth);
                    };
                    for (int k = s; k <= e; ++k)
                    {
                        if (!at(k, 0).valid() || !at(k, 1).valid())
                        {
                            throw pbt::Discard{};
                        }
                    }
                    const P a = at(s, 0), b = at(e, 0);
                    const double f = x.c.real(0.3, 2, 17);
                    L("curvilinear_line_mirror ", f, str(a), str(b));
                    return api::mkernel_curvilinear_line_mirror(x.id, f, a.x, a.y, b.x, b.y); });
            add("curvilinear_orthogonalize", 2, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [p, q] = gridBlock(x);
                    auto par = orthoParams(x);
                    L("curvilinear_orthogonalize ", str(p), str(q));
                    int rc = api::mkernel_curvilinear_initialize_orthogonalize(x.id, par);
                    if (rc == 0)
                    {
                        rc = api::mkernel_curvilinear_set_block_orthogonalize(x.id, p.x, p.y, q.x, q.y);
                    }
                    if (rc == 0 && x.c.coin(0.3))
                    {
                        auto [a, b] = gridLine(x);
                        L("  frozen ", str(a), str(b));
                        rc = api::mkernel_curvilinear_set_frozen_lines_orthogonalize(x.id, a.x, a.y, b.x, b.y);
                    }
                    if (rc == 0)
                    {
                        rc = api::mkernel_curvilinear_orthogonalize(x.id);
                    }
                    api::mkernel_curvilinear_finalize_orthogonalize(x.id);
                    return rc; });
            add("curvilinear_line_shift", 2, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = gridLine(x);
                    auto [p, q] = gridBlock(x);
                    L("curvilinear_line_shift line ", str(a), str(b), " block ", str(p), str(q));
                    int rc = api::mkernel_curvilinear_initialize_line_shift(x.id);
                    if (rc == 0)
                    {
                        rc = api::mkernel_curvilinear_set_line_line_shift(x.id, a.x, a.y, b.x, b.y);
                    }
                    if (rc == 0)
                    {
                        rc = api::mkernel_curvilinear_set_block_line_shift(x.id, p.x, p.y, q.x, q.y);
                    }
                    if (rc == 0)
                    {
                        const P t = a + P{x.c.sym(2, 20), x.c.sym(2, 20)};
                        L("  move ", str(a), str(t));
                        rc = api::mkernel_curvilinear_move_node_line_shift(x.id, a.x, a.y, t.x, t.y);
                    }
                    if (rc == 0)
                    {
                        rc = api::mkernel_curvilinear_line_shift(x.id);
                    }
                    api::mkernel_curvilinear_finalize_line_shift(x.id);
                    return rc; });
            add("curvilinear_snap_to_landboundary", 1, "curvi", hasGrid, [](Ctx& x)
                {
                    auto [a, b] = gridLine(x);
                    P lo{1e300, 1e300}, hi{-1e300, -1e300};
                    for (auto& p : x.cg.nodes)
                    {
                        if (p.valid())
                        {
                            lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
                            hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
                        }
                    }
                    auto land = polyline(x, lo, hi);
                    L("curvilinear_snap_to_landboundary ", str(land.pts()), str(a), str(b));
                    auto l = land.list();
                    return api::mkernel_curvilinear_snap_to_landboundary(x.id, l, a.x, a.y, b.x, b.y); });
            add("curvilinear_convert_to_mesh2d", 2, "curviset", hasGrid, [](Ctx& x)
                {
                    L("curvilinear_convert_to_mesh2d");
                    return api::mkernel_curvilinear_convert_to_mesh2d(x.id); });
#undef L
            return r;
        }();
        return ops;
    }

    const Op* runRandomOp(Ctx& x, const std::string& groups, int& rc)
    {
        const std::string gs = "," + groups + ",";
        std::vector<const Op*> cand;
        std::vector<int> w;
        for (auto& o : allOps())
        {
            if (gs.find("," + o.group + ",") != std::string::npos && o.applicable(x))
            {
                cand.push_back(&o);
                w.push_back(o.weight);
            }
        }
        if (cand.empty())
        {
            return nullptr;
        }
        const Op* op = cand[x.c.weighted(w)];
        x.c.op(op->name.c_str());
        rc = op->run(x);
        x.c.label(op->name + (rc == 0 ? "" : ":error"));
        return op;
    }
} // namespace mk
