// C08: nearest-location queries agree with a brute-force search over the current mesh or grid.
#include "../harness/circum.hpp"
#include "../harness/ops.hpp"
using namespace mk;

namespace
{
    struct Box
    {
        api::BoundingBox b{};
        bool whole = true;
        bool contains(P p) const { return p.x >= b.xLowerLeft && p.x <= b.xUpperRight && p.y >= b.yLowerLeft && p.y <= b.yUpperRight; }
        /// so close to the border that rounding of the location decides
        bool onBorder(P p, double tol) const
        {
            return !whole && (std::abs(p.x - b.xLowerLeft) < tol || std::abs(p.x - b.xUpperRight) < tol || std::abs(p.y - b.yLowerLeft) < tol || std::abs(p.y - b.yUpperRight) < tol);
        }
    };
    struct Query
    {
        int kind = 0; // 0 location index, 1 node index with radius, 2 closest node with radius, 3 get_edge
        int location = 1;
        P p;
        double radius = 0;
        Box box;
        int rc = 0, index = -12345;
        P out;
    };
    // the values of meshkernel::Location
    int locFaces = -1, locNodes = -1, locEdges = -1;
    void locations()
    {
        must(api::mkernel_get_faces_location_type(locFaces), "location");
        must(api::mkernel_get_nodes_location_type(locNodes), "location");
        must(api::mkernel_get_edges_location_type(locEdges), "location");
    }

    Query ask(Case& c, int id, P lo, P hi, bool curvi, bool cartesian)
    {
        Query q;
        const double w = std::max(hi.x - lo.x, 1e-3), h = std::max(hi.y - lo.y, 1e-3);
        q.kind = curvi ? 0 : static_cast<int>(c.weighted({5, cartesian ? 2 : 0, cartesian ? 1 : 0, 1}));
        q.location = std::array<int, 3>{locNodes, locEdges, locFaces}[c.weighted({1, 1, cartesian ? 1 : 0})];
        q.p = {lo.x + c.real(-0.2, 1.2, 9973) * w, lo.y + c.real(-0.2, 1.2, 9967) * h};
        if (!cartesian)
        {
            q.p.y = std::clamp(q.p.y, -85.0, 85.0);
        }
        q.radius = c.coin(0.5) ? c.real(0.001, 0.3, 1000) * std::max(w, h) : c.real(0.0, 3.0, 100) * std::max(w, h);
        if (c.coin(0.25))
        {
            q.box.whole = false;
            const double x0 = lo.x + c.real(-0.1, 1.0, 997) * w, y0 = lo.y + c.real(-0.1, 1.0, 997) * h;
            q.box.b = {x0, y0, x0 + c.real(0.05, 1.1, 997) * w, y0 + c.real(0.05, 1.1, 997) * h};
        }
        const auto& b = q.box.b;
        switch (q.kind)
        {
        case 0:
            q.rc = curvi ? api::mkernel_curvilinear_get_location_index(id, q.p.x, q.p.y, q.location, b, q.index) : api::mkernel_mesh2d_get_location_index(id, q.p.x, q.p.y, q.location, b, q.index);
            break;
        case 1:
            q.rc = api::mkernel_mesh2d_get_node_index(id, q.p.x, q.p.y, q.radius, b.xLowerLeft, b.yLowerLeft, b.xUpperRight, b.yUpperRight, q.index);
            break;
        case 2:
            q.rc = api::mkernel_mesh2d_get_closest_node(id, q.p.x, q.p.y, q.radius, b.xLowerLeft, b.yLowerLeft, b.xUpperRight, b.yUpperRight, q.out.x, q.out.y);
            break;
        case 3:
            q.location = locEdges;
            q.rc = api::mkernel_mesh2d_get_edge(id, q.p.x, q.p.y, b.xLowerLeft, b.yLowerLeft, b.xUpperRight, b.yUpperRight, q.index);
            break;
        }
        PBT_LOG(c, "query kind ", q.kind, " location ", q.location, " at ", str(q.p), " radius ", q.radius, q.box.whole ? std::string() : pbt::cat(" in box ", b.xLowerLeft, ",", b.yLowerLeft, " - ", b.xUpperRight, ",", b.yUpperRight), " -> rc ", q.rc, " index ", q.index);
        return q;
    }

    double metric(P a, P b, bool cartesian)
    {
        if (cartesian)
        {
            return dist(a, b);
        }
        const double d = M_PI / 180.0, s1 = std::sin((b.y - a.y) * d / 2), s2 = std::sin((b.x - a.x) * d / 2);
        return 2.0 * std::asin(std::min(1.0, std::sqrt(s1 * s1 + std::cos(a.y * d) * std::cos(b.y * d) * s2 * s2)));
    }

    /// candidates: location of every index, missing if there is none
    void judge(Case& c, const Query& q, const std::vector<P>& at, double tol, bool cartesian, const std::string& what)
    {
        ++c.evaluations;
        const bool radius = q.kind == 1 || q.kind == 2;
        double best = 1e300;
        int arg = -1;
        bool border = false;
        for (size_t i = 0; i < at.size(); ++i)
        {
            if (!at[i].valid())
            {
                continue;
            }
            if (!radius)
            {
                if (q.box.onBorder(at[i], 10 * tol + 1e-9 * (std::abs(at[i].x) + std::abs(at[i].y))))
                {
                    border = true;
                    continue;
                }
                if (!q.box.contains(at[i]))
                {
                    continue;
                }
            }
            const double d = metric(at[i], q.p, cartesian);
            if (d < best)
            {
                best = d;
                arg = static_cast<int>(i);
            }
        }
        const double slack = (cartesian ? 1e-9 : 0.03) * best + 2 * tol;
        if (radius)
        {
            if (best > q.radius * (1 + 1e-9) + 1e-300)
            {
                if (q.kind == 1)
                {
                    PBT_CHECK(q.rc != 0 || q.index == -1, "radius-none:" + what, "a node query at ", str(q.p), " with radius ", q.radius, " found node ", q.index, " although the closest one is at distance ", best);
                }
                else
                {
                    PBT_CHECK(q.rc != 0, "closest-none:" + what, "the closest-node query at ", str(q.p), " with radius ", q.radius, " succeeded although the closest node is at distance ", best);
                }
                c.label("nothing within radius");
                return;
            }
            if (best >= q.radius * (1 - 1e-9))
            {
                return;
            }
            c.label("radius");
            PBT_CHECK(q.rc == 0, "radius-error:" + what, "the node query at ", str(q.p), " failed although node ", arg, " is at distance ", best);
            if (q.kind == 2)
            {
                PBT_CHECK(std::abs(dist(q.out, q.p) - best) <= slack, "closest:" + what, "the closest node to ", str(q.p), " should be at distance ", best, " but ", str(q.out), " was returned");
                bool exists = false;
                for (auto& p : at)
                {
                    exists |= p == q.out;
                }
                PBT_CHECK(exists, "closest-exists:" + what, str(q.out), " is not a node of the mesh");
                return;
            }
        }
        else if (arg < 0)
        {
            PBT_CHECK(q.rc != 0 || border, "empty-box:" + what, "the query at ", str(q.p), " found ", q.index, " although nothing lies in the box");
            c.label("nothing in box");
            return;
        }
        else if (border)
        {
            return;
        }
        c.label(q.box.whole || radius ? "unrestricted" : "in box");
        PBT_CHECK(q.rc == 0, "error:" + what, "the query at ", str(q.p), " failed although ", arg, " is at distance ", best);
        PBT_CHECK(q.index >= 0 && q.index < static_cast<int>(at.size()) && at[static_cast<size_t>(q.index)].valid(), "index:" + what, "the query at ", str(q.p), " gave ", q.index, ", which does not exist (", at.size(), " in all)");
        const P got = at[static_cast<size_t>(q.index)];
        PBT_CHECK(metric(got, q.p, cartesian) <= best + slack, "nearest:" + what, "the query at ", str(q.p), " gave ", q.index, " ", str(got), " but ", arg, " ", str(at[static_cast<size_t>(arg)]), " is closer");
        PBT_CHECK(radius || q.box.contains(got) || q.box.onBorder(got, 10 * tol + 1e-9 * (std::abs(got.x) + std::abs(got.y))), "outside-box:" + what, "the query gave ", q.index, " ", str(got), " outside of the box");
    }

    void judgeMesh(Case& c, const std::vector<Query>& qs, const Mesh2& m, bool cartesian, const std::string& after)
    {
        std::vector<P> edges, faces;
        const double scale = meshScale(m);
        double ext = 0;
        for (auto& q : qs)
        {
            if (q.kind == 1 || q.kind == 2 || q.location == locNodes)
            {
                judge(c, q, m.nodes, 0, cartesian, "nodes:" + after);
            }
            else if (q.location == locEdges)
            {
                if (edges.empty())
                {
                    for (size_t e = 0; e < m.edges.size(); ++e)
                    {
                        edges.push_back(!m.edgeValid(e) ? P{missing, missing} : cartesian ? (m.nodes[static_cast<size_t>(m.edges[e][0])] + m.nodes[static_cast<size_t>(m.edges[e][1])]) * 0.5 : m.edgeCentres[e]);
                    }
                }
                judge(c, q, edges, 1e-9 * scale, cartesian, "edges:" + after);
            }
            else
            {
                if (!circumcentresDefined(m))
                {
                    continue;
                }
                if (faces.empty())
                {
                    faces = refCircumcentres(m);
                    for (size_t f = 0; f < faces.size(); ++f)
                    {
                        for (auto& p : facePts(m, f))
                        {
                            ext = std::max(ext, dist(p, facePts(m, f)[0]));
                        }
                    }
                }
                judge(c, q, faces, 0.02 * ext + 0.005, cartesian, "faces:" + after);
            }
        }
    }

    void mesh(Case& c, const std::string& groups, int projection)
    {
        reset();
        locations();
        const int id = newState(projection);
        MeshOpts o;
        o.maxN = 5;
        o.projection = projection;
        auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const bool cartesian = projection == 0;
        P lo = g.lo, hi = g.hi;
        std::string after = "mesh2d_set";
        const int steps = c.range(1, c.thorough ? 8 : 5);
        int applied = 0;
        bool unconnected = false;
        for (int k = 0; k <= steps; ++k)
        {
            // ask first: reading the mesh may refresh what the queries use (but a node that has been inserted without an edge is dropped then)
            std::vector<Query> qs;
            const int nq = c.range(1, 4);
            if (unconnected)
            {
                ask(c, id, lo, hi, false, cartesian);
                getMesh2(id);
            }
            for (int i = 0; i < nq; ++i)
            {
                qs.push_back(ask(c, id, lo, hi, false, cartesian));
            }
            auto m = getMesh2(id);
            // the search tree of the spherical projections is only meant for coordinates on the globe
            if (!m.validNodeBox(cartesian ? 1e8 : 179) || (!cartesian && std::any_of(m.nodes.begin(), m.nodes.end(), [](const P& p) { return p.valid() && std::abs(p.y) > 85; })))
            {
                return;
            }
            judgeMesh(c, qs, m, cartesian, after);
            if (applied > 0)
            {
                c.nontrivial();
            }
            if (k == steps)
            {
                break;
            }
            if (applied > 0 && c.coin(0.35))
            {
                bool done = false;
                int rid = -1;
                const bool redo = c.coin(0.4);
                PBT_LOG(c, redo ? "redo" : "undo");
                must(redo ? api::mkernel_redo_state(done, rid) : api::mkernel_undo_state(done, rid), "undo/redo");
                after = redo ? "redo" : "undo";
                c.label(after);
                continue;
            }
            Ctx x(c);
            x.id = id;
            x.refresh();
            if (x.validNodes.size() > 300 || x.validNodes.empty() || x.projection != projection || !x.m2.validNodeBox(cartesian ? 1e8 : 179) || (!cartesian && std::max(std::abs(x.lo.y), std::abs(x.hi.y)) > 85))
            {
                return;
            }
            lo = x.lo;
            hi = x.hi;
            try
            {
                int rc = 0;
                const Op* op = runRandomOp(x, groups, rc);
                if (op && rc == 0)
                {
                    after = op->name;
                    ++applied;
                    unconnected |= after == "mesh2d_insert_node";
                    if (after == "mesh2d_convert_projection")
                    {
                        return;
                    }
                }
            }
            catch (pbt::Discard&)
            {
            }
        }
    }

    void curvi(Case& c)
    {
        reset();
        locations();
        const int id = newState(0);
        auto g = genCurvi(c, 6, 2, true);
        PBT_LOG(c, "initial ", mk::str(g));
        must(setCurvi(id, g), "curvilinear_set");
        std::string after = "curvilinear_set";
        const int steps = c.range(1, c.thorough ? 8 : 5);
        int applied = 0;
        for (int k = 0; k <= steps; ++k)
        {
            P lo{1e300, 1e300}, hi{-1e300, -1e300};
            for (auto& p : g.nodes)
            {
                if (p.valid())
                {
                    lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
                    hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
                }
            }
            if (!(hi.x >= lo.x) || !(std::max({hi.x, hi.y, -lo.x, -lo.y}) < 1e8))
            {
                return;
            }
            std::vector<Query> qs;
            const int nq = c.range(1, 4);
            for (int i = 0; i < nq; ++i)
            {
                qs.push_back(ask(c, id, lo, hi, true, true));
            }
            const bool towardsMissing = c.coin(0.1);
            if (towardsMissing)
            {
                qs.push_back(ask(c, id, {-700, -700}, {-300, -300}, true, true));
            }
            g = getCurvi(id);
            if (g.nodes.empty() || g.n < 2 || g.m < 2 || g.nodes.size() > 1000 || !std::all_of(g.nodes.begin(), g.nodes.end(), [](const P& p) { return std::abs(p.x) < 1e8 && std::abs(p.y) < 1e8; }))
            {
                return;
            }
            std::vector<P> edges, faces;
            auto mid = [&](std::vector<P> v)
            {
                P s{0, 0};
                for (auto& p : v)
                {
                    if (!p.valid())
                    {
                        return P{missing, missing};
                    }
                    s = s + p;
                }
                return s * (1.0 / static_cast<double>(v.size()));
            };
            for (int i = 0; i + 1 < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    edges.push_back(mid({g.at(i, j), g.at(i + 1, j)}));
                }
            }
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j + 1 < g.m; ++j)
                {
                    edges.push_back(mid({g.at(i, j), g.at(i, j + 1)}));
                }
            }
            for (int i = 0; i + 1 < g.n; ++i)
            {
                for (int j = 0; j + 1 < g.m; ++j)
                {
                    faces.push_back(mid({g.at(i, j), g.at(i + 1, j), g.at(i, j + 1), g.at(i + 1, j + 1)}));
                }
            }
            const double tol = 1e-9 * std::max(hi.x - lo.x, hi.y - lo.y);
            for (auto& q : qs)
            {
                const auto& at = q.location == locNodes ? g.nodes : q.location == locEdges ? edges : faces;
                judge(c, q, at, tol, true, std::string(q.location == locNodes ? "nodes:" : q.location == locEdges ? "edges:" : "faces:") + after);
            }
            if (applied > 0)
            {
                c.nontrivial();
            }
            if (k == steps)
            {
                break;
            }
            if (applied > 0 && c.coin(0.35))
            {
                bool done = false;
                int rid = -1;
                const bool redo = c.coin(0.4);
                PBT_LOG(c, redo ? "redo" : "undo");
                must(redo ? api::mkernel_redo_state(done, rid) : api::mkernel_undo_state(done, rid), "undo/redo");
                after = redo ? "redo" : "undo";
                c.label(after);
                continue;
            }
            Ctx x(c);
            x.id = id;
            x.refresh();
            try
            {
                int rc = 0;
                const Op* op = runRandomOp(x, c.coin(0.8) ? "curvi" : "curviset", rc);
                if (op && rc == 0)
                {
                    after = op->name;
                    ++applied;
                }
            }
            catch (pbt::Discard&)
            {
            }
        }
    }
    pbt::Register reg("C08",
                      "a case is non-trivial if queries were judged after at least one successful editing operation",
                      200000, 3000000,
                      {{"mesh2d", [](Case& c)
                        { mesh(c, c.coin(0.85) ? "mesh2d" : "mesh2d,mesh2dset", 0); },
                        4},
                       {"spherical", [](Case& c)
                        { mesh(c, "mesh2d", c.range(1, 2)); },
                        1},
                       {"curvilinear", curvi, 2}});
} // namespace
