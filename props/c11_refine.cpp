// C11: refinement by polygon, sample levels or wave celerity splits the selected faces and keeps everything else.
#include "../harness/gen.hpp"
#include "../harness/polyset.hpp"
#include "../harness/topo.hpp"
using namespace mk;

namespace
{
    double relTol(const Mesh2& m) { return 1e-9 * (1 + meshScale(m)) + 1e-12 * std::max(std::abs(m.nodes[0].x), std::abs(m.nodes[0].y)); }

    bool strictlyConvex(const std::vector<P>& p, double sine = 0.1)
    {
        for (size_t i = 0; i < p.size(); ++i)
        {
            const P a = p[i], b = p[(i + 1) % p.size()], d = p[(i + 2) % p.size()];
            if (orient(a, b, d) < sine * dist(a, b) * dist(b, d))
            {
                return false;
            }
        }
        return true;
    }

    /// triangles and convex quadrilaterals only, no hanging nodes
    bool regular(const Mesh2& m)
    {
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            if (m.faceNodes[f].size() > 4 || !strictlyConvex(facePts(m, f)))
            {
                return false;
            }
        }
        // enclosed regions that are not faces (yet) may become faces when edges around them are halved
        return referenceFaces(m, false) == publishedFaces(m);
    }

    /// the circumcentres of nearly rectangular faces are well inside them
    bool rectangular(const Mesh2& m)
    {
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            const auto p = facePts(m, f);
            if (p.size() != 4)
            {
                continue;
            }
            for (size_t i = 0; i < 4; ++i)
            {
                const P u = p[i] - p[(i + 3) % 4], v = p[(i + 1) % 4] - p[i];
                if (std::abs(dot(u, v)) > 0.15 * len(u) * len(v) || len(u) > 2.2 * len(v) || len(v) > 2.2 * len(u))
                {
                    return false;
                }
            }
        }
        return true;
    }
    bool partitions(const Mesh2& m, const meshkernel::MeshRefinementParameters& p)
    {
        return p.use_mass_center_when_refining == 1 || (p.max_num_refinement_iterations == 1 && rectangular(m));
    }

    struct Split
    {
        const Mesh2& m;
        const Mesh2& r;
        double tol;
        std::map<EdgeKey, int> newEdges;
        std::vector<int> order; ///< new nodes sorted by x
        Split(const Mesh2& a, const Mesh2& b) : m(a), r(b), tol(relTol(a))
        {
            for (size_t e = 0; e < r.edges.size(); ++e)
            {
                if (r.edgeValid(e))
                {
                    newEdges[edgeKey(r.edges[e][0], r.edges[e][1])] = static_cast<int>(e);
                }
            }
            for (size_t i = 0; i < r.nodes.size(); ++i)
            {
                if (r.nodeValid(i))
                {
                    order.push_back(static_cast<int>(i));
                }
            }
            std::sort(order.begin(), order.end(), [&](int i, int j)
                      { return r.nodes[static_cast<size_t>(i)].x < r.nodes[static_cast<size_t>(j)].x; });
        }
        int find(P p) const
        {
            auto it = std::lower_bound(order.begin(), order.end(), p.x - tol, [&](int i, double x)
                                       { return r.nodes[static_cast<size_t>(i)].x < x; });
            for (; it != order.end() && r.nodes[static_cast<size_t>(*it)].x <= p.x + tol; ++it)
            {
                if (dist(r.nodes[static_cast<size_t>(*it)], p) <= tol)
                {
                    return *it;
                }
            }
            return -1;
        }
        /// depth to which the edge a-b was halved, -1 if it is not covered by edges of the new mesh
        int depth(int a, int b, int max, std::set<int>& onEdge, std::set<int>& usedEdges) const
        {
            if (auto it = newEdges.find(edgeKey(a, b)); it != newEdges.end())
            {
                usedEdges.insert(it->second);
                return 0;
            }
            if (max == 0)
            {
                return -1;
            }
            const int k = find((r.nodes[static_cast<size_t>(a)] + r.nodes[static_cast<size_t>(b)]) * 0.5);
            if (k < 0 || k == a || k == b)
            {
                return -1;
            }
            onEdge.insert(k);
            const int d1 = depth(a, k, max - 1, onEdge, usedEdges), d2 = depth(k, b, max - 1, onEdge, usedEdges);
            return d1 < 0 || d2 < 0 ? -1 : 1 + std::max(d1, d2);
        }
    };

    /// what every refinement keeps; returns the number of halvings of each old edge
    std::vector<int> conserved(Case& c, const Mesh2& m, const Mesh2& r, int levels, bool planar, bool partition, const std::string& how)
    {
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            ++c.evaluations;
            PBT_CHECK(i < r.nodes.size() && sameP(m.nodes[i], r.nodes[i]), "node-kept", how, ": node ", i, " ", str(m.nodes[i]), i < r.nodes.size() ? " became " + str(r.nodes[i]) : std::string(" is gone"));
        }
        PBT_LOG(c, "refined: ", str(r.nodes), str(r.edges));
        checkConnectivity(r, planar, how);
        Split s(m, r);
        std::vector<int> depth(m.edges.size(), 0);
        std::set<int> onEdge, used;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                depth[e] = s.depth(m.edges[e][0], m.edges[e][1], levels, onEdge, used);
                PBT_CHECK(depth[e] >= 0, "edge-covered", how, ": edge ", e, " ", str(m.nodes[static_cast<size_t>(m.edges[e][0])]), "-", str(m.nodes[static_cast<size_t>(m.edges[e][1])]), " is neither kept nor halved at most ", levels, " times");
            }
        }
        if (!planar)
        {
            return depth;
        }
        // the faces of the new mesh partition those of the old one
        const double scale = meshScale(m);
        std::vector<double> area(m.faceNodes.size(), 0.0);
        std::vector<std::vector<P>> old;
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            old.push_back(facePts(m, f));
        }
        auto owner = [&](P p)
        {
            for (size_t f = 0; f < old.size(); ++f)
            {
                if (inside(p, old[f]))
                {
                    return static_cast<int>(f);
                }
            }
            return -1;
        };
        if (partition)
        {
            for (size_t f = 0; f < r.faceNodes.size(); ++f)
            {
                const auto p = facePts(r, f);
                const double a = signedArea(p);
                PBT_CHECK(a > 0, "face-orientation", how, ": new face ", f, " ", str(p), " has area ", a);
                const int o = owner(centroid(p));
                PBT_CHECK(o >= 0, "face-outside", how, ": new face ", f, " ", str(p), " lies in no face of the old mesh");
                area[static_cast<size_t>(o)] += a;
                for (auto& q : p)
                {
                    PBT_CHECK(inside(q, old[static_cast<size_t>(o)]) || boundaryDist(q, old[static_cast<size_t>(o)]) <= 1e-6 * scale, "face-crosses", how, ": new face ", f, " ", str(p), " reaches out of the old face ", str(old[static_cast<size_t>(o)]));
                }
            }
            for (size_t f = 0; f < old.size(); ++f)
            {
                const double a = signedArea(old[f]);
                ++c.evaluations;
                PBT_CHECK(std::abs(a - area[f]) <= 1e-6 * a, "area", how, ": the faces in the old face ", str(old[f]), " of area ", a, " have total area ", area[f]);
            }
            // new nodes lie on halved old edges or inside the old faces
            for (size_t i = m.nodes.size(); i < r.nodes.size(); ++i)
            {
                PBT_CHECK(!r.nodeValid(i) || onEdge.count(static_cast<int>(i)) || owner(r.nodes[i]) >= 0, "node-outside", how, ": new node ", i, " ", str(r.nodes[i]), " is on no halved edge and in no face");
            }
        }
        return depth;
    }

    /// marks of the edges that one refinement level halves, from the selected faces
    std::vector<char> closure(const Mesh2& m, const std::vector<char>& selected)
    {
        std::vector<char> mark(m.edges.size(), 0);
        auto all = [&](size_t f)
        {
            bool change = false;
            for (int e : m.faceEdges[f])
            {
                change = change || !mark[static_cast<size_t>(e)];
                mark[static_cast<size_t>(e)] = 1;
            }
            return change;
        };
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            if (selected[f])
            {
                all(f);
            }
        }
        for (bool go = true; go;)
        {
            go = false;
            for (size_t f = 0; f < m.faceNodes.size(); ++f)
            {
                const auto k = std::count_if(m.faceEdges[f].begin(), m.faceEdges[f].end(), [&](int e)
                                             { return mark[static_cast<size_t>(e)]; });
                if (k + 1 >= static_cast<long>(m.faceEdges[f].size()))
                {
                    go = all(f) || go;
                }
            }
        }
        return mark;
    }

    /// the sub-faces of a face of which all edges were halved once: quadrilaterals and triangles give four
    void checkSplit(Case& c, const Mesh2& m, const Mesh2& r, size_t f, const std::vector<std::vector<size_t>>& parts, bool massCentre, const std::string& how)
    {
        ++c.evaluations;
        const auto p = facePts(m, f);
        PBT_CHECK(parts[f].size() == 4, "face-split", how, ": face ", str(p), " has all edges halved but is divided into ", parts[f].size(), " faces");
        for (auto g : parts[f])
        {
            PBT_CHECK(r.faceNodes[g].size() == p.size() || r.faceNodes[g].size() > p.size(), "part-size", how, ": face ", str(p), " is divided into ", str(facePts(r, g)));
        }
        if (p.size() == 4 && massCentre)
        {
            const P cg = centroid(p);
            for (auto g : parts[f])
            {
                double d = 1e300;
                for (auto& q : facePts(r, g))
                {
                    d = std::min(d, dist(q, cg));
                }
                PBT_CHECK(d <= 1e-6 * meshScale(m), "split-centre", how, ": a part of quadrilateral ", str(p), " misses its mass centre ", str(cg));
            }
        }
    }
    std::vector<std::vector<size_t>> partsOf(const Mesh2& m, const Mesh2& r)
    {
        std::vector<std::vector<size_t>> parts(m.faceNodes.size());
        std::vector<std::vector<P>> old;
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            old.push_back(facePts(m, f));
        }
        for (size_t g = 0; g < r.faceNodes.size(); ++g)
        {
            const P q = centroid(facePts(r, g));
            for (size_t f = 0; f < old.size(); ++f)
            {
                if (inside(q, old[f]))
                {
                    parts[f].push_back(g);
                    break;
                }
            }
        }
        return parts;
    }

    void checkMarks(Case& c, const Mesh2& m, const Mesh2& r, const std::vector<int>& depth, const std::vector<char>& mark, bool massCentre, bool connect, const std::string& how)
    {
        int split = 0, kept = 0;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (!m.edgeValid(e))
            {
                continue;
            }
            ++c.evaluations;
            (mark[e] ? split : kept)++;
            PBT_CHECK((depth[e] > 0) == (mark[e] != 0), mark[e] ? "edge-not-split" : "edge-split", how, ": edge ", e, " ", str(m.nodes[static_cast<size_t>(m.edges[e][0])]), "-", str(m.nodes[static_cast<size_t>(m.edges[e][1])]), mark[e] ? " belongs to a refined face but was not halved" : " belongs to no refined face but was halved");
        }
        const auto parts = partsOf(m, r);
        int hangingLeft = 0;
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            const auto k = static_cast<size_t>(std::count_if(m.faceEdges[f].begin(), m.faceEdges[f].end(), [&](int e)
                                                             { return mark[static_cast<size_t>(e)]; }));
            if (k == m.faceEdges[f].size())
            {
                checkSplit(c, m, r, f, parts, massCentre, how);
            }
            else if (k == 0 || !connect)
            {
                PBT_CHECK(parts[f].size() == 1 && r.faceNodes[parts[f][0]].size() == m.faceNodes[f].size() + k, "face-untouched", how, ": face ", str(facePts(m, f)), " is not refined but was divided into ", parts[f].size(), " faces");
            }
            else
            {
                for (auto g : parts[f])
                {
                    hangingLeft += r.faceNodes[g].size() > 4 ? 1 : 0;
                    const auto p = facePts(r, g);
                    PBT_CHECK(strictlyConvex(p, 1e-6) || p.size() > 4, "hanging-left", how, ": hanging nodes were to be connected, but face ", str(p), " in ", str(facePts(m, f)), " has one");
                }
                PBT_CHECK(hangingLeft == 0, "hanging-left", how, ": hanging nodes were to be connected, but a face in ", str(facePts(m, f)), " has more than four nodes");
                c.label("hanging nodes connected");
            }
        }
        if (split > 0 && kept > 0)
        {
            c.nontrivial();
        }
        c.label(split == 0 ? "nothing refined" : kept == 0 ? "everything refined" : "part refined");
    }

    Mesh2 start(Case& c, int& id, GenMesh& g, double jitter = 0.15, int projection = 0)
    {
        reset();
        id = newState(projection);
        MeshOpts o;
        o.projection = projection;
        o.maxN = c.thorough ? 8 : 6;
        o.maxJitter = jitter;
        g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        return getMesh2(id);
    }

    meshkernel::MeshRefinementParameters params(Case& c, const GenMesh& g, int maxLevels)
    {
        meshkernel::MeshRefinementParameters p;
        p.max_num_refinement_iterations = c.range(1, maxLevels);
        p.refine_intersected = c.range(0, 1);
        p.use_mass_center_when_refining = c.range(0, 1);
        p.min_edge_size = 1e-3 * g.h;
        p.refinement_type = 2;
        p.connect_hanging_nodes = c.range(0, 1);
        p.account_for_samples_outside = 0;
        p.smoothing_iterations = 0;
        p.directional_refinement = 0;
        return p;
    }

    void byPolygon(Case& c, int projection)
    {
        int id = -1;
        GenMesh g;
        const auto m = start(c, id, g, 0.15, projection);
        auto p = params(c, g, 2);
        if (projection == 1)
        {
            p.use_mass_center_when_refining = 1;
        }
        else if (c.coin(0.25))
        {
            p.min_edge_size = c.real(0.1, 1.5, 32) * g.h;
        }
        const auto s = genPolySet(c, g.lo, g.hi, true);
        PBT_LOG(c, "refine_based_on_polygon levels ", p.max_num_refinement_iterations, " intersected ", p.refine_intersected, " mass ", p.use_mass_center_when_refining, " connect ", p.connect_hanging_nodes, " min ", p.min_edge_size, " polygons ", str(s.points()));
        c.op("mesh2d_refine_based_on_polygon");
        Geo poly(s.points());
        auto pl = poly.list();
        const int rc = api::mkernel_mesh2d_refine_based_on_polygon(id, pl, p);
        const bool reg = planarMesh(m) && regular(m) && partitions(m, p);
        if (rc != 0 && (!reg || p.min_edge_size > 0.01 * g.h))
        {
            c.label("refused");
            return;
        }
        must(rc, "mesh2d_refine_based_on_polygon");
        const auto r = getMesh2(id);
        const auto how = pbt::cat("polygon refinement, ", p.max_num_refinement_iterations, " levels");
        c.label(reg ? "regular mesh" : "irregular mesh");
        // an edge halved for both its unrefined faces makes one of them look like a hole, so the parts are not judged if min_edge_size interferes
        const auto depth = conserved(c, m, r, p.max_num_refinement_iterations, reg, reg && p.min_edge_size <= 0.01 * g.h, how);
        if (!reg || p.min_edge_size > 0.01 * g.h)
        {
            // nothing is refined if every half edge would be too short
            double longest = 0;
            for (size_t e = 0; e < m.edges.size(); ++e)
            {
                if (m.edgeValid(e))
                {
                    longest = std::max(longest, dist(m.nodes[static_cast<size_t>(m.edges[e][0])], m.nodes[static_cast<size_t>(m.edges[e][1])]));
                }
            }
            if (longest * 0.5 < p.min_edge_size * (1 - 1e-9))
            {
                c.label("too short to refine");
                c.nontrivial();
                PBT_CHECK(std::all_of(depth.begin(), depth.end(), [](int d)
                                      { return d == 0; }),
                          "min-edge-size", how, ": every half edge is shorter than min_edge_size ", p.min_edge_size, " (longest edge ", longest, "), but an edge was halved");
            }
            return;
        }
        // which nodes the polygon selects
        const double tol = (projection == 0 ? 1e-6 : 1e-2) * std::max(s.extent(), meshScale(m));
        std::vector<char> in(m.nodes.size(), 0);
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            if (m.nodeValid(i))
            {
                if (!s.empty() && s.distToBoundary(m.nodes[i]) <= tol)
                {
                    return;
                }
                in[i] = s.contains(m.nodes[i]) ? 1 : 0;
            }
        }
        if (p.refine_intersected)
        {
            // the nodes at the other end of an edge from inside count as well
            auto mask = in;
            for (size_t e = 0; e < m.edges.size(); ++e)
            {
                if (m.edgeValid(e) && (in[static_cast<size_t>(m.edges[e][0])] || in[static_cast<size_t>(m.edges[e][1])]))
                {
                    mask[static_cast<size_t>(m.edges[e][0])] = mask[static_cast<size_t>(m.edges[e][1])] = 1;
                }
            }
            in = mask;
        }
        if (p.max_num_refinement_iterations != 1)
        {
            // a part of the mesh away from the polygon is left alone
            return;
        }
        std::vector<char> core = in;
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            if (!std::all_of(m.faceNodes[f].begin(), m.faceNodes[f].end(), [&](int n)
                             { return in[static_cast<size_t>(n)]; }))
            {
                for (int n : m.faceNodes[f])
                {
                    core[static_cast<size_t>(n)] = 0;
                }
            }
        }
        std::vector<char> selected(m.faceNodes.size(), 0);
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            selected[f] = std::any_of(m.faceNodes[f].begin(), m.faceNodes[f].end(), [&](int n)
                                      { return core[static_cast<size_t>(n)]; });
        }
        c.label(p.refine_intersected ? "intersected" : "inside");
        checkMarks(c, m, r, depth, closure(m, selected), p.use_mass_center_when_refining == 1 && projection == 0, p.connect_hanging_nodes == 1, how);
    }

    void whole(Case& c)
    {
        int id = -1;
        GenMesh g;
        const auto m = start(c, id, g, 0.1);
        auto p = params(c, g, g.nx * g.ny > 9 ? 2 : 3);
        if (!planarMesh(m) || !regular(m) || m.faceNodes.empty() || !partitions(m, p))
        {
            return;
        }
        p.refine_intersected = 0;
        const int levels = p.max_num_refinement_iterations;
        Geo poly;
        auto pl = poly.list();
        PBT_LOG(c, "refine whole mesh, levels ", levels, " mass ", p.use_mass_center_when_refining);
        must(api::mkernel_mesh2d_refine_based_on_polygon(id, pl, p), "mesh2d_refine_based_on_polygon");
        const auto r = getMesh2(id);
        const auto how = pbt::cat("whole mesh refinement, ", levels, " levels");
        const auto depth = conserved(c, m, r, levels, true, true, how);
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                const bool face = m.edgeFaces[e][0] >= 0;
                PBT_CHECK(depth[e] == (face ? levels : 0), "whole-depth", how, ": edge ", e, face ? " of a face" : " without face", " was halved ", depth[e], " times");
            }
        }
        const auto parts = partsOf(m, r);
        for (size_t f = 0; f < parts.size(); ++f)
        {
            ++c.evaluations;
            PBT_CHECK(parts[f].size() == static_cast<size_t>(1 << (2 * levels)), "whole-count", how, ": face ", str(facePts(m, f)), " was divided into ", parts[f].size(), " faces");
            for (auto q : parts[f])
            {
                PBT_CHECK(r.faceNodes[q].size() == m.faceNodes[f].size(), "whole-shape", how, ": face ", str(facePts(m, f)), " was divided into ", str(facePts(r, q)));
            }
        }
        c.label(pbt::cat("levels ", levels));
        if (m.faceNodes.size() > 1)
        {
            c.nontrivial();
        }
    }

    std::string valueList(const Geo& s)
    {
        std::string r;
        for (double v : s.v)
        {
            r += pbt::cat(v, " ");
        }
        return r;
    }

    void bySamples(Case& c)
    {
        int id = -1;
        GenMesh g;
        const auto m = start(c, id, g);
        auto p = params(c, g, 3);
        const bool reg = planarMesh(m) && regular(m) && partitions(m, p);
        p.smoothing_iterations = static_cast<int>(c.weighted({3, 1, 1}));
        Geo s;
        const int n = c.range(1, 8);
        for (int i = 0; i < n; ++i)
        {
            s.add(notMissing(P{c.real(g.lo.x, g.hi.x, 4096), c.real(g.lo.y, g.hi.y, 4096)}), c.range(0, 3));
        }
        if (p.max_num_refinement_iterations > 1)
        {
            // several levels are judged for a single sample
            const size_t keep = c.draw(s.size());
            for (size_t i = 0; i < s.size(); ++i)
            {
                s.v[i] = i == keep ? s.v[i] : -1.0 * static_cast<double>(i % 2);
            }
        }
        PBT_LOG(c, "refine_based_on_samples levels ", p.max_num_refinement_iterations, " smoothing ", p.smoothing_iterations, " connect ", p.connect_hanging_nodes, " mass ", p.use_mass_center_when_refining, " samples ", str(s.pts()), " values ", valueList(s));
        auto sl = s.list();
        c.op("mesh2d_refine_based_on_samples");
        const int rc = api::mkernel_mesh2d_refine_based_on_samples(id, sl, 1.0, 1, p);
        if (rc != 0 && !reg)
        {
            c.label("refused");
            return;
        }
        must(rc, "mesh2d_refine_based_on_samples");
        const auto r = getMesh2(id);
        const auto how = pbt::cat("sample refinement, ", p.max_num_refinement_iterations, " levels");
        const auto depth = conserved(c, m, r, p.max_num_refinement_iterations, reg, reg, how);
        if (!reg)
        {
            c.label("irregular mesh");
            return;
        }
        std::vector<char> selected(m.faceNodes.size(), 0);
        bool shared = false; // a sample within the search circle of a face that it does not lie in
        int positive = 0;
        for (size_t i = 0; i < s.size(); ++i)
        {
            positive += s.v[i] > 0 ? 1 : 0;
        }
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            const auto q = facePts(m, f);
            const P mid = centroid(q);
            double radius = 0;
            for (auto& a : q)
            {
                radius = std::max(radius, dist(a, mid));
            }
            for (size_t i = 0; i < s.size(); ++i)
            {
                if (boundaryDist(s.at(i), q) <= 1e-6 * meshScale(m))
                {
                    return;
                }
                const bool in = inside(s.at(i), q);
                selected[f] = selected[f] || (s.v[i] > 0 && in);
                shared = shared || (!in && s.v[i] > 0 && positive > 1 && dist(s.at(i), mid) <= radius * (1 + 1e-9));
            }
        }
        if (shared)
        {
            // finding: the search circle of a refined face lowers the level of samples in other faces
            c.label("samples shared by search circles");
            for (size_t f = 0; f < m.faceNodes.size(); ++f)
            {
                PBT_CHECK(!selected[f] || std::all_of(m.faceEdges[f].begin(), m.faceEdges[f].end(), [&](int e)
                                                      { return depth[static_cast<size_t>(e)] > 0; }),
                          "shared-sample-not-refined", how, ": face ", str(facePts(m, f)), " holds a sample with a positive level that is also within the search circle of another refined face, and was not refined");
            }
            return;
        }
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            for (int e : m.faceEdges[f])
            {
                PBT_CHECK(!selected[f] || depth[static_cast<size_t>(e)] > 0, "sample-not-refined", how, ": face ", str(facePts(m, f)), " holds a sample with a positive level but its edge ", e, " was not halved");
            }
        }
        if (p.max_num_refinement_iterations == 1)
        {
            for (int k = 0; k < p.smoothing_iterations; ++k)
            {
                auto next = selected;
                for (size_t e = 0; e < m.edges.size(); ++e)
                {
                    const auto [a, b] = m.edgeFaces[e];
                    if (a >= 0 && b >= 0 && (selected[static_cast<size_t>(a)] || selected[static_cast<size_t>(b)]))
                    {
                        next[static_cast<size_t>(a)] = next[static_cast<size_t>(b)] = 1;
                    }
                }
                selected = next;
            }
            checkMarks(c, m, r, depth, closure(m, selected), p.use_mass_center_when_refining == 1, p.connect_hanging_nodes == 1, how);
        }
        else
        {
            // the part that holds a sample of level k was split k times
            for (size_t i = 0; i < s.size(); ++i)
            {
                const int k = std::min(static_cast<int>(s.v[i]), p.max_num_refinement_iterations);
                for (size_t f = 0; f < m.faceNodes.size(); ++f)
                {
                    if (!inside(s.at(i), facePts(m, f)))
                    {
                        continue;
                    }
                    const double whole = signedArea(facePts(m, f));
                    for (size_t q = 0; q < r.faceNodes.size(); ++q)
                    {
                        const auto pts = facePts(r, q);
                        if (inside(s.at(i), pts) && boundaryDist(s.at(i), pts) > 1e-6 * meshScale(m))
                        {
                            ++c.evaluations;
                            // a quarter each time; the parts of an irregular quadrilateral differ in size
                            PBT_CHECK(signedArea(pts) <= whole * std::pow(0.45, k) * (1 + 1e-9), "sample-level", how, ": sample ", str(s.at(i)), " of level ", s.v[i], " lies in a face of area ", signedArea(pts), " of the old face of area ", whole);
                            if (k > 1)
                            {
                                c.nontrivial();
                            }
                        }
                    }
                }
            }
        }
    }

    /// uniform rectangles and constant depth: the number of halvings follows from the wave celerity
    void byCelerity(Case& c)
    {
        reset();
        const int id = newState(0);
        MeshOpts o;
        o.maxN = 4;
        o.maxJitter = 0;
        o.allowTriangles = o.allowHoles = o.allowHanging = false;
        auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        double lmin = 1e300, lmax = 0;
        for (auto& e : m.edges)
        {
            const double l = dist(m.nodes[static_cast<size_t>(e[0])], m.nodes[static_cast<size_t>(e[1])]);
            lmin = std::min(lmin, l);
            lmax = std::max(lmax, l);
        }
        auto p = params(c, g, 3);
        p.refinement_type = 1;
        p.smoothing_iterations = c.range(0, 2);
        if (p.max_num_refinement_iterations > 1)
        {
            p.use_mass_center_when_refining = 1; // halves parallelograms exactly
        }
        const double depth = c.real(0.01, 50, 512);
        // celerity * time: the length at which refinement stops; chosen around the edge lengths
        const double want = lmin * c.real(0.05, 1.5, 128);
        p.max_courant_time = want / std::sqrt(9.81 * depth);
        p.min_edge_size = c.coin(0.5) ? 1e-3 * lmin : lmin * c.real(0.05, 0.7, 64);
        api::GriddedSamples s{};
        s.num_x = c.range(2, 4);
        s.num_y = c.range(2, 4);
        s.x_origin = g.lo.x - 0.5 * g.h;
        s.y_origin = g.lo.y - 0.5 * g.h;
        s.cell_size = (std::max(g.hi.x - g.lo.x, g.hi.y - g.lo.y) + g.h) / (std::min(s.num_x, s.num_y) - 1);
        std::vector<float> v(static_cast<size_t>(s.num_x * s.num_y), static_cast<float>(-depth));
        s.values = v.data();
        s.value_type = static_cast<int>(meshkernel::InterpolationDataTypes::Float);
        const bool nodal = c.coin(0.5);
        int levels = 0;
        bool close = false;
        for (double f = 1; levels < p.max_num_refinement_iterations; f *= 0.5, ++levels)
        {
            close = close || std::abs(lmin * f / want - 1) < 0.01 || std::abs(lmin * f * 0.5 / p.min_edge_size - 1) < 1e-6;
            if (lmin * f <= want || lmin * f * 0.5 < p.min_edge_size)
            {
                break;
            }
        }
        if (close)
        {
            return;
        }
        PBT_LOG(c, "refine_based_on_gridded_samples depth ", depth, " courant time ", p.max_courant_time, " edges ", lmin, "..", lmax, " min ", p.min_edge_size, " nodal ", nodal, " iterations ", p.max_num_refinement_iterations, " expected levels ", levels);
        c.op("mesh2d_refine_based_on_gridded_samples");
        must(api::mkernel_mesh2d_refine_based_on_gridded_samples(id, s, p, nodal), "mesh2d_refine_based_on_gridded_samples");
        const auto r = getMesh2(id);
        const auto how = pbt::cat("celerity refinement", nodal ? ", nodal" : "");
        const bool part = partitions(m, p);
        const auto d = conserved(c, m, r, p.max_num_refinement_iterations, part, part, how);
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            PBT_CHECK(d[e] == levels, "celerity-depth", how, ": edge ", e, " was halved ", d[e], " times, expected ", levels, ": edges ", lmin, "..", lmax, ", sqrt(g*depth)*time ", want, ", min_edge_size ", p.min_edge_size);
        }
        PBT_CHECK(!part || r.faceNodes.size() == m.faceNodes.size() << (2 * levels), "celerity-count", how, ": ", m.faceNodes.size(), " faces became ", r.faceNodes.size(), " in ", levels, " levels");
        c.label(pbt::cat("levels ", levels));
        if (levels > 0)
        {
            c.nontrivial();
        }
    }

    /// depths that differ from place to place, one iteration: a face is refined if all its edges are too long for the depth
    void byDepths(Case& c)
    {
        int id = -1;
        GenMesh g;
        const auto m = start(c, id, g);
        auto p = params(c, g, 1);
        p.refinement_type = 1;
        const bool reg = planarMesh(m) && regular(m) && partitions(m, p);
        api::GriddedSamples s{};
        s.num_x = c.range(2, 5);
        s.num_y = c.range(2, 5);
        std::vector<double> xs, ys;
        const P lo = g.lo - P{0.5 * g.h, 0.5 * g.h};
        const bool constant = c.coin(0.5), nodal = c.coin(0.5), shorts = c.coin(0.3);
        const double size = (std::max(g.hi.x - g.lo.x, g.hi.y - g.lo.y) + g.h) / (std::min(s.num_x, s.num_y) - 1);
        auto coords = [&](int n, double from, double to)
        {
            std::vector<double> r{0};
            for (int i = 1; i < n; ++i)
            {
                r.push_back(r.back() + (constant ? size : c.real(0.2, 2, 32)));
            }
            const double k = constant ? 1.0 : (to - from) / r.back();
            for (auto& v : r)
            {
                v = from + k * v;
            }
            return r;
        };
        xs = coords(s.num_x, lo.x, g.hi.x + 0.5 * g.h);
        ys = coords(s.num_y, lo.y, g.hi.y + 0.5 * g.h);
        if (constant)
        {
            s.x_origin = lo.x;
            s.y_origin = lo.y;
            s.cell_size = size;
        }
        else
        {
            s.x_coordinates = xs.data();
            s.y_coordinates = ys.data();
        }
        // bed levels, below zero where there is water; land at all only for the nodal criterion
        const bool land = nodal && c.coin(0.4);
        std::vector<short> vs;
        std::vector<float> vf;
        std::vector<double> v;
        for (int i = 0; i < s.num_x * s.num_y; ++i)
        {
            const int k = c.range(1, 100);
            vs.push_back(static_cast<short>(land && c.coin(0.4) ? k : -k));
            vf.push_back(static_cast<float>(vs.back()));
            v.push_back(vs.back());
        }
        s.values = shorts ? static_cast<void*>(vs.data()) : static_cast<void*>(vf.data());
        s.value_type = static_cast<int>(shorts ? meshkernel::InterpolationDataTypes::Short : meshkernel::InterpolationDataTypes::Float);
        p.max_courant_time = g.h / std::sqrt(9.81 * c.real(5, 60, 64));
        auto level = [&](P q)
        {
            size_t i = 0, j = 0;
            while (i + 2 < xs.size() && q.x >= xs[i + 1])
            {
                ++i;
            }
            while (j + 2 < ys.size() && q.y >= ys[j + 1])
            {
                ++j;
            }
            const double a = (q.x - xs[i]) / (xs[i + 1] - xs[i]), b = (q.y - ys[j]) / (ys[j + 1] - ys[j]);
            auto at = [&](size_t r, size_t k)
            { return v[k * xs.size() + r]; };
            return (1 - b) * ((1 - a) * at(i, j) + a * at(i + 1, j)) + b * ((1 - a) * at(i, j + 1) + a * at(i + 1, j + 1));
        };
        std::vector<char> selected(m.faceNodes.size(), 0);
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            const auto q = facePts(m, f);
            double low = 1e300, high = -1e300;
            for (auto& a : q)
            {
                low = std::min(low, level(a));
                high = std::max(high, level(a));
            }
            if (std::abs(low) < 1e-6 || std::abs(high) < 1e-6)
            {
                return;
            }
            bool all = true;
            for (int e : m.faceEdges[f])
            {
                const P a = m.nodes[static_cast<size_t>(m.edges[static_cast<size_t>(e)][0])], b = m.nodes[static_cast<size_t>(m.edges[static_cast<size_t>(e)][1])];
                const double d = nodal ? 0.5 * (level(a) + level(b)) : level(centroid(q));
                const double courant = std::sqrt(9.81 * std::abs(d)) * p.max_courant_time / dist(a, b);
                if (std::abs(courant - 1) < 1e-3) // the value of g is not judged
                {
                    return;
                }
                all = all && courant < 1;
            }
            selected[f] = nodal && low > 0 ? 0 : (nodal && high > 0 ? 1 : all);
        }
        auto show = [](const std::vector<double>& q)
        {
            std::string t;
            for (double a : q)
            {
                t += pbt::cat(a, " ");
            }
            return t;
        };
        PBT_LOG(c, "refine_based_on_gridded_samples xs ", show(xs), " ys ", show(ys), " bed levels ", show(v), constant ? " constant cell size" : "", " courant time ", p.max_courant_time, " nodal ", nodal, " connect ", p.connect_hanging_nodes);
        c.op("mesh2d_refine_based_on_gridded_samples");
        const int rc = api::mkernel_mesh2d_refine_based_on_gridded_samples(id, s, p, nodal);
        if (rc != 0 && !reg)
        {
            c.label("refused");
            return;
        }
        must(rc, "mesh2d_refine_based_on_gridded_samples");
        const auto r = getMesh2(id);
        const auto how = pbt::cat("refinement by depth", nodal ? ", nodal" : "");
        const auto depth = conserved(c, m, r, 1, reg, reg, how);
        if (!reg)
        {
            c.label("irregular mesh");
            return;
        }
        checkMarks(c, m, r, depth, closure(m, selected), p.use_mass_center_when_refining == 1, p.connect_hanging_nodes == 1, how);
        c.label(land ? "land and water" : "varying depth");
    }

    pbt::Register reg("C11",
                      "a case is non-trivial if part of the mesh had to be refined and part kept, if several levels or faces had to be refined, or if min_edge_size had to prevent refinement",
                      200000, 5000000,
                      {{"polygon", [](Case& c)
                        { byPolygon(c, 0); },
                        4},
                       {"spherical", [](Case& c)
                        { byPolygon(c, 1); },
                        1},
                       {"whole", whole, 1},
                       {"samples", bySamples, 4},
                       {"celerity", byCelerity, 1},
                       {"depths", byDepths, 2}});
} // namespace
