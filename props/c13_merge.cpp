// C13: merging nodes and connecting meshes identify exactly the nodes that belong together.
#include "../harness/gen.hpp"
#include "../harness/geo.hpp"
#include "../harness/topo.hpp"

using namespace mk;

namespace
{
    using Key = std::pair<double, double>;
    Key key(P p) { return {p.x, p.y}; }
    using KeyEdge = std::pair<Key, Key>;
    KeyEdge keyEdge(P a, P b) { return std::minmax(key(a), key(b)); }

    /// edges of the mesh of the state, by the positions of their ends
    std::multiset<KeyEdge> edgesOf(const Mesh2& m)
    {
        std::multiset<KeyEdge> r;
        for (auto& e : m.edges)
        {
            if (e[0] >= 0 && e[1] >= 0)
            {
                r.insert(keyEdge(m.nodes[static_cast<size_t>(e[0])], m.nodes[static_cast<size_t>(e[1])]));
            }
        }
        return r;
    }
    std::multiset<Key> nodesOf(const Mesh2& m)
    {
        std::multiset<Key> r;
        for (auto& p : m.nodes)
        {
            if (p.valid())
            {
                r.insert(key(p));
            }
        }
        return r;
    }
    std::string str(const Key& k) { return pbt::cat("(", k.first, ",", k.second, ")"); }

    void compare(const Mesh2& m, const std::set<KeyEdge>& expected, const char* what)
    {
        std::set<Key> expectedNodes;
        for (auto& e : expected)
        {
            expectedNodes.insert(e.first);
            expectedNodes.insert(e.second);
        }
        const auto edges = edgesOf(m);
        for (auto& e : edges)
        {
            PBT_CHECK(expected.contains(e), "extra-edge", what, ": edge ", str(e.first), "-", str(e.second), " is not the image of an edge of the mesh");
            PBT_CHECK(edges.count(e) == 1, "duplicate-edge", what, ": edge ", str(e.first), "-", str(e.second), " occurs more than once");
        }
        for (auto& e : expected)
        {
            PBT_CHECK(edges.contains(e), "lost-edge", what, ": edge ", str(e.first), "-", str(e.second), " was lost");
        }
        const auto nodes = nodesOf(m);
        for (auto& n : nodes)
        {
            PBT_CHECK(expectedNodes.contains(n), "extra-node", what, ": node ", str(n), " should not exist");
            PBT_CHECK(nodes.count(n) == 1, "duplicate-node", what, ": node ", str(n), " occurs more than once");
        }
        PBT_CHECK(nodes.size() == expectedNodes.size(), "lost-node", what, ": ", expectedNodes.size(), " nodes expected, found ", nodes.size());
    }

    // ------------------------------------------------------------------ two nodes
    void twoNodes(Case& c)
    {
        reset();
        MeshOpts o;
        o.maxN = 5;
        o.projection = static_cast<int>(c.weighted({4, 1}));
        const GenMesh g = genMesh(c, o);
        logMesh(c, g);
        const int id = newState(g.projection);
        must(setMesh2(id, g.nodes, g.edges), "set");
        Mesh2 m = getMesh2(id);
        const int steps = c.range(1, 4);
        for (int s = 0; s < steps; ++s)
        {
            std::vector<int> valid;
            for (size_t i = 0; i < m.nodes.size(); ++i)
            {
                if (m.nodes[i].valid())
                {
                    valid.push_back(static_cast<int>(i));
                }
            }
            if (valid.size() < 3)
            {
                break;
            }
            int a = valid[c.draw(valid.size())], b = valid[c.draw(valid.size())];
            // prefer the ends of an edge
            if (c.coin(0.5))
            {
                const auto& e = m.edges[c.draw(m.edges.size())];
                if (e[0] >= 0 && e[1] >= 0)
                {
                    a = e[0];
                    b = e[1];
                    if (c.coin(0.5))
                    {
                        std::swap(a, b);
                    }
                }
            }
            PBT_LOG(c, "merge_two_nodes ", a, " -> ", b);
            c.op("merge_two_nodes");
            std::set<KeyEdge> expected;
            for (auto& e : m.edges)
            {
                if (e[0] < 0 || e[1] < 0)
                {
                    continue;
                }
                const int u = e[0] == a ? b : e[0], v = e[1] == a ? b : e[1];
                if (u != v)
                {
                    expected.insert(keyEdge(m.nodes[static_cast<size_t>(u)], m.nodes[static_cast<size_t>(v)]));
                }
            }
            must(api::mkernel_mesh2d_merge_two_nodes(id, a, b), "merge_two_nodes");
            m = getMesh2(id);
            compare(m, expected, "merge_two_nodes");
            ++c.evaluations;
            c.label(a == b ? "same" : "different");
        }
        c.nontrivial();
    }

    // ------------------------------------------------------------------ nodes within a distance
    void nearNodes(Case& c)
    {
        reset();
        MeshOpts o;
        o.maxN = 5;
        o.projection = static_cast<int>(c.weighted({4, 1}));
        o.maxJitter = 0.2;
        GenMesh g = genMesh(c, o);
        const double metre = o.projection == 0 ? 1.0 : 1.0 / 111319.49; // degrees of latitude per metre
        const bool fixed = o.projection == 0 && c.coin(0.25); // the distance follows from the shortest edge
        double minEdge = 1e300;
        for (auto& e : g.edges)
        {
            minEdge = std::min(minEdge, dist(g.nodes[static_cast<size_t>(e[0])], g.nodes[static_cast<size_t>(e[1])]));
        }
        double d = fixed ? 0.1 * minEdge : (o.projection == 0 ? g.h * c.real(0.001, 0.1, 64) : g.h / metre * c.real(0.001, 0.03, 64));
        if (o.projection == 1 && c.coin(0.3))
        {
            d = c.real(0.02, 1.2, 64); // metres
        }
        // d must be visible at the coordinates
        const double big = std::max({std::abs(g.lo.x), std::abs(g.hi.x), std::abs(g.lo.y), std::abs(g.hi.y), 1.0});
        if (d * metre < 1e-9 * big)
        {
            throw pbt::Discard();
        }
        // minimal distance of the nodes
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            for (size_t j = 0; j < i; ++j)
            {
                P v = g.nodes[i] - g.nodes[j];
                if (o.projection == 1)
                {
                    v.x *= std::cos(0.5 * (g.nodes[i].y + g.nodes[j].y) * std::numbers::pi / 180.0);
                }
                if (len(v) < 4.0 * d * metre)
                {
                    throw pbt::Discard();
                }
            }
        }
        // split some nodes in two or three nodes; group[i]: the node of the mesh that node i stems from
        const size_t n0 = g.nodes.size();
        std::vector<int> group(n0);
        for (size_t i = 0; i < n0; ++i)
        {
            group[i] = static_cast<int>(i);
        }
        std::vector<char> farGroup(n0, 0);
        int splits = 0, farSplits = 0, triples = 0;
        const double density = c.real(0.1, 1.0, 8);
        for (size_t i = 0; i < n0; ++i)
        {
            if (!c.coin(density))
            {
                continue;
            }
            std::vector<size_t> mine;
            for (size_t e = 0; e < g.edges.size(); ++e)
            {
                if (g.edges[e][0] == static_cast<int>(i) || g.edges[e][1] == static_cast<int>(i))
                {
                    mine.push_back(e);
                }
            }
            const double cosLat = o.projection == 1 ? std::cos(g.nodes[i].y * std::numbers::pi / 180.0) : 1.0;
            const int kind = static_cast<int>(c.weighted({5, 2, 2})); // near, far, triple
            const int copies = kind == 2 ? 2 : 1;
            farGroup[i] = kind == 1;
            const double phase = c.real(0.0, 2.0 * std::numbers::pi, 64);
            std::vector<int> ids;
            for (int k = 0; k < copies; ++k)
            {
                const double r = kind == 0 ? c.real(0.1, 0.95, 32) : kind == 1 ? c.real(1.05, 1.5, 32)
                                                                                : c.real(0.3, 0.9, 32);
                // the members of a triple are within 60 degrees of each other: all within the distance
                const double a = phase + (k == 1 ? std::numbers::pi / 3.5 : 0.0);
                const P p{g.nodes[i].x + r * d * metre / cosLat * std::cos(a), g.nodes[i].y + r * d * metre * std::sin(a)};
                ids.push_back(static_cast<int>(g.nodes.size()));
                g.nodes.push_back(notMissing(p));
                group.push_back(static_cast<int>(i));
            }
            // distribute the edges
            bool used = false;
            for (size_t e : mine)
            {
                const int to = c.range(-1, copies - 1);
                if (to >= 0)
                {
                    auto& ed = g.edges[e];
                    (ed[0] == static_cast<int>(i) ? ed[0] : ed[1]) = ids[static_cast<size_t>(to)];
                    used = true;
                }
                if (c.coin(0.15)) // an edge to the original as well: becomes a duplicate
                {
                    auto ed = g.edges[e];
                    for (auto& n : ed)
                    {
                        if (n == static_cast<int>(i))
                        {
                            n = ids[0];
                        }
                        else if (group[static_cast<size_t>(n)] == static_cast<int>(i))
                        {
                            n = static_cast<int>(i);
                        }
                    }
                    g.edges.push_back(ed);
                    used = true;
                }
            }
            if (!fixed && (!used || c.coin(0.3)))
            {
                g.edges.push_back({static_cast<int>(i), ids[0]}); // a small edge
            }
            if (!fixed && copies == 2 && c.coin(0.3))
            {
                g.edges.push_back({ids[0], ids[1]});
            }
            ++splits;
            farSplits += kind == 1;
            triples += kind == 2;
        }
        // a simple graph without nodes that belong to no edge; optionally renumbered
        std::vector<int> perm(g.nodes.size(), -1), order(g.nodes.size());
        {
            std::set<EdgeKey> seen;
            std::vector<std::array<int, 2>> es;
            for (auto& e : g.edges)
            {
                if (e[0] != e[1] && seen.insert(edgeKey(e[0], e[1])).second)
                {
                    es.push_back(e);
                }
            }
            g.edges = es;
            for (size_t i = 0; i < order.size(); ++i)
            {
                order[i] = static_cast<int>(i);
            }
            if (c.coin(0.5))
            {
                c.shuffle(order);
            }
            std::vector<char> used(g.nodes.size(), 0);
            for (auto& e : g.edges)
            {
                used[static_cast<size_t>(e[0])] = used[static_cast<size_t>(e[1])] = 1;
            }
            std::vector<P> nn;
            std::vector<int> ng;
            for (int i : order)
            {
                if (used[static_cast<size_t>(i)])
                {
                    perm[static_cast<size_t>(i)] = static_cast<int>(nn.size());
                    nn.push_back(g.nodes[static_cast<size_t>(i)]);
                    ng.push_back(group[static_cast<size_t>(i)]);
                }
            }
            g.nodes = nn;
            group = ng;
            for (auto& e : g.edges)
            {
                e = {perm[static_cast<size_t>(e[0])], perm[static_cast<size_t>(e[1])]};
            }
        }
        if (fixed)
        {
            minEdge = 1e300;
            for (auto& e : g.edges)
            {
                minEdge = std::min(minEdge, dist(g.nodes[static_cast<size_t>(e[0])], g.nodes[static_cast<size_t>(e[1])]));
            }
            d = 0.1 * minEdge;
            if (d < 1e-5)
            {
                throw pbt::Discard();
            }
        }
        // distances that are neither clearly below nor above the merging distance are not judged
        auto distanceOf = [&](P a, P b)
        {
            P v = a - b;
            if (o.projection == 1)
            {
                v.x *= std::cos(0.5 * (a.y + b.y) * std::numbers::pi / 180.0);
            }
            return len(v) / metre;
        };
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            for (size_t j = 0; j < i; ++j)
            {
                const double l = distanceOf(g.nodes[i], g.nodes[j]);
                const bool near = group[i] == group[j] && !farGroup[static_cast<size_t>(group[i])];
                if ((near && l > 0.98 * d) || (!near && l < 1.02 * d) || l == 0.0)
                {
                    throw pbt::Discard();
                }
            }
        }
        Geo poly;
        std::vector<P> pts;
        if (!fixed && c.coin(0.5))
        {
            pts = genPolygon(c, g);
            if (!simplePolygon(std::vector<P>(pts.begin(), pts.end() - 1)))
            {
                throw pbt::Discard();
            }
            poly = Geo(pts);
        }
        logMesh(c, g);
        PBT_LOG(c, "distance ", d, " polygon ", mk::str(pts));
        std::vector<char> in(g.nodes.size(), 1);
        if (!pts.empty())
        {
            for (size_t i = 0; i < g.nodes.size(); ++i)
            {
                if (boundaryDist(g.nodes[i], pts) < 1e-7 * (g.hi.x - g.lo.x + g.hi.y - g.lo.y))
                {
                    throw pbt::Discard();
                }
                in[i] = inside(g.nodes[i], pts);
            }
        }
        const int id = newState(g.projection);
        must(setMesh2(id, g.nodes, g.edges), "set");
        {
            const Mesh2 before = getMesh2(id);
            if (nodesOf(before).size() != g.nodes.size() || edgesOf(before).size() != g.edges.size())
            {
                throw pbt::Discard();
            }
        }
        c.op("merge_nodes");
        if (fixed)
        {
            must(api::mkernel_mesh2d_merge_nodes(id, poly.list()), "merge_nodes");
        }
        else
        {
            must(api::mkernel_mesh2d_merge_nodes_with_merging_distance(id, poly.list(), d), "merge_nodes_with_merging_distance");
        }
        const Mesh2 m = getMesh2(id);
        // the survivor of each group is one of its members
        const auto nodes = nodesOf(m);
        std::map<int, std::vector<size_t>> members;
        std::vector<size_t> image(g.nodes.size());
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            image[i] = i;
            if (in[i] && !farGroup[static_cast<size_t>(group[i])])
            {
                members[group[i]].push_back(i);
            }
        }
        int merged = 0;
        for (auto& [gr, v] : members)
        {
            std::vector<size_t> left;
            for (size_t i : v)
            {
                if (nodes.contains(key(g.nodes[i])))
                {
                    left.push_back(i);
                }
            }
            PBT_CHECK(left.size() <= 1, "not-merged", "nodes ", mk::str(g.nodes[left[0]]), " and ", mk::str(g.nodes[left[1]]), " are within the merging distance ", d, " and were not merged");
            if (left.size() == 1)
            {
                for (size_t i : v)
                {
                    image[i] = left[0];
                    merged += i != left[0];
                }
            }
            else
            {
                // the group lost all of its edges: only when all its edges are within the group
                for (auto& e : g.edges)
                {
                    for (int k = 0; k < 2; ++k)
                    {
                        if (std::find(v.begin(), v.end(), static_cast<size_t>(e[static_cast<size_t>(k)])) != v.end())
                        {
                            const size_t other = static_cast<size_t>(e[static_cast<size_t>(1 - k)]);
                            PBT_CHECK(std::find(v.begin(), v.end(), other) != v.end(), "vanished", "node ", mk::str(g.nodes[v[0]]), " and its edges disappeared");
                        }
                    }
                }
                for (size_t i : v)
                {
                    image[i] = v[0];
                }
            }
        }
        std::set<KeyEdge> expected;
        for (auto& e : g.edges)
        {
            const size_t a = image[static_cast<size_t>(e[0])], b = image[static_cast<size_t>(e[1])];
            if (a != b)
            {
                expected.insert(keyEdge(g.nodes[a], g.nodes[b]));
            }
        }
        compare(m, expected, "merge_nodes");
        ++c.evaluations;
        c.label(pts.empty() ? "everywhere" : "polygon");
        c.label(o.projection == 0 ? "cartesian" : "spherical");
        if (triples > 0)
        {
            c.label("triples");
        }
        if (farSplits > 0)
        {
            c.label("beyond-distance");
        }
        if (merged > 0)
        {
            c.label("merged");
            c.nontrivial();
        }
    }

    // ------------------------------------------------------------------ connect meshes
    struct Part
    {
        std::vector<P> nodes;
        std::vector<std::array<int, 2>> edges;
        int nu = 0, nv = 0; // cells along the joint, away from it
        int id(int u, int v) const { return v * (nu + 1) + u; }
    };
    /// lattice with u in [u0, u0+nu*hu], v from v0 in steps of hv (may be negative)
    Part lattice(double u0, double v0, int nu, int nv, double hu, double hv)
    {
        Part p;
        p.nu = nu;
        p.nv = nv;
        for (int v = 0; v <= nv; ++v)
        {
            for (int u = 0; u <= nu; ++u)
            {
                p.nodes.push_back({u0 + u * hu, v0 + v * hv});
            }
        }
        for (int v = 0; v <= nv; ++v)
        {
            for (int u = 0; u < nu; ++u)
            {
                p.edges.push_back({p.id(u, v), p.id(u + 1, v)});
            }
        }
        for (int v = 0; v < nv; ++v)
        {
            for (int u = 0; u <= nu; ++u)
            {
                p.edges.push_back({p.id(u, v), p.id(u, v + 1)});
            }
        }
        return p;
    }
    void shufflePart(Case& c, Part& p)
    {
        std::vector<int> perm(p.nodes.size());
        for (size_t i = 0; i < perm.size(); ++i)
        {
            perm[i] = static_cast<int>(i);
        }
        c.shuffle(perm);
        std::vector<P> nn(p.nodes.size());
        for (size_t i = 0; i < perm.size(); ++i)
        {
            nn[static_cast<size_t>(perm[i])] = p.nodes[i];
        }
        p.nodes = nn;
        for (auto& e : p.edges)
        {
            e = {perm[static_cast<size_t>(e[0])], perm[static_cast<size_t>(e[1])]};
            if (c.coin(0.5))
            {
                std::swap(e[0], e[1]);
            }
        }
        c.shuffle(p.edges);
    }

    void connectMeshes(Case& c)
    {
        reset();
        const int ratio = static_cast<int>(c.weighted({3, 3, 3, 3, 3, 1, 1, 1})) + 1;
        const int ncu = c.range(1, 5), ncv = c.range(1, 4);
        const double H = 10.0 * c.real(0.5, 2.0, 16), hf = H / ratio;
        const double aspectC = c.coin(0.3) ? c.real(0.6, 2.0, 8) : 1.0, aspectF = c.coin(0.3) ? c.real(0.6, 2.0, 8) : 1.0;
        const double fraction = c.coin(0.3) ? 0.4 : c.real(0.02, 0.4, 64);
        const bool apart = c.coin(0.1);
        // size of the gap and the shift along the joint
        const double limit = fraction * hf;
        double gap = 0, shift = 0;
        if (apart)
        {
            gap = limit * c.real(1.1, 4.0, 16);
        }
        else if (c.coin(0.6))
        {
            gap = limit * c.real(0.0, 0.65, 32);
            shift = limit * c.sym(0.65, 32);
        }
        // the coarse lattice lies above v = 0, the fine one below; they share the coarse columns [s0, s1)
        const int s0 = c.range(0, ncu - 1), s1 = c.range(s0 + 1, ncu);
        // the fine part may go on at an end of the coarse part
        const int before = s0 == 0 ? c.range(0, 3) : 0, after = s1 == ncu ? c.range(0, 3) : 0;
        const int nfu = (s1 - s0) * ratio + before + after, nfv = c.range(1, 3);
        Part coarse = lattice(0.0, 0.0, ncu, ncv, H, H * aspectC);
        Part fine = lattice(s0 * H - before * hf + shift, -gap, nfu, nfv, hf, -hf * aspectF);
        const double areaC = ncu * ncv * H * H * aspectC, areaF = nfu * nfv * hf * hf * aspectF;
        const double joint = (s1 - s0) * H;
        std::vector<P> jointCoarse;
        for (int u = s0; u <= s1; ++u)
        {
            jointCoarse.push_back(coarse.nodes[static_cast<size_t>(coarse.id(u, 0))]);
        }
        // triangles away from the joint
        int triangles = 0;
        if (ratio <= 2 && c.coin(0.3)) // the connection of more than one hanging node reaches into the next cells, which must be quadrilaterals
        {
            for (int v = 1; v < ncv; ++v)
            {
                for (int u = 0; u < ncu; ++u)
                {
                    if (c.coin(0.3))
                    {
                        coarse.edges.push_back({coarse.id(u, v), coarse.id(u + 1, v + 1)});
                        ++triangles;
                    }
                }
            }
        }
        // rotate, mirror and move
        const double a = c.coin(0.5) ? c.range(0, 3) * 0.5 * std::numbers::pi : c.real(0.0, 6.28, 64);
        const double mirror = c.coin(0.5) ? -1.0 : 1.0;
        const P org = c.coin(0.5) ? P{c.sym(500.0, 100), c.sym(500.0, 100)} : P{0, 0};
        auto place = [&](P p)
        {
            p.x *= mirror;
            return notMissing(P{org.x + p.x * std::cos(a) - p.y * std::sin(a), org.y + p.x * std::sin(a) + p.y * std::cos(a)});
        };
        for (auto* part : {&coarse, &fine})
        {
            for (auto& p : part->nodes)
            {
                p = place(p);
            }
        }
        for (auto& p : jointCoarse)
        {
            p = place(p);
        }
        if (c.coin(0.6))
        {
            shufflePart(c, coarse);
            shufflePart(c, fine);
        }
        const bool coarseFirst = c.coin(0.5);
        const Part &first = coarseFirst ? coarse : fine, &second = coarseFirst ? fine : coarse;
        PBT_LOG(c, "ratio ", ratio, " coarse ", ncu, "x", ncv, " (first: ", coarseFirst, ") fine ", nfu, "x", nfv, " shared columns [", s0, ",", s1, ") before ", before, " after ", after,
                " gap ", gap, " shift ", shift, " fraction ", fraction, " h ", hf, " aspects ", aspectC, " ", aspectF, " angle ", a, " mirror ", mirror, " triangles ", triangles);
        PBT_LOG(c, "coarse nodes ", mk::str(coarse.nodes), " edges ", mk::str(coarse.edges));
        PBT_LOG(c, "fine nodes ", mk::str(fine.nodes), " edges ", mk::str(fine.edges));

        const int id = newState(0);
        must(setMesh2(id, first.nodes, first.edges), "set");
        std::vector<double> x, y;
        std::vector<int> en;
        for (auto& p : second.nodes)
        {
            x.push_back(p.x);
            y.push_back(p.y);
        }
        for (auto& e : second.edges)
        {
            en.push_back(e[0]);
            en.push_back(e[1]);
        }
        api::Mesh2D other{};
        other.num_nodes = static_cast<int>(x.size());
        other.num_edges = static_cast<int>(second.edges.size());
        other.node_x = x.data();
        other.node_y = y.data();
        other.edge_nodes = en.data();
        c.op("connect_meshes");
        if (ratio > 5 && !apart)
        {
            // not supported: an error, and the mesh stays as it was
            const Mesh2 old = getMesh2(id);
            PBT_CHECK(api::mkernel_mesh2d_connect_meshes(id, other, fraction) != 0, "ratio-accepted", "more than four hanging nodes on an edge are not supported, no error was returned");
            const Mesh2 now = getMesh2(id);
            PBT_CHECK(nodesOf(old) == nodesOf(now) && edgesOf(old) == edgesOf(now), "changed-on-error", "the mesh was changed by a call that returned an error");
            ++c.evaluations;
            c.label("ratio-not-supported");
            c.nontrivial();
            return;
        }
        must(api::mkernel_mesh2d_connect_meshes(id, other, fraction), "connect_meshes");
        const Mesh2 m = getMesh2(id);
        const auto nodes = nodesOf(m);
        const auto edges = edgesOf(m);
        for (auto& e : edges)
        {
            PBT_CHECK(edges.count(e) == 1, "connect-duplicate-edge", "edge ", str(e.first), "-", str(e.second), " occurs more than once");
        }
        ++c.evaluations;
        if (apart)
        {
            c.label("apart");
            PBT_CHECK(nodes.size() == first.nodes.size() + second.nodes.size(), "apart-nodes", "the meshes are too far apart to be connected, the number of nodes is ", nodes.size(), " instead of ", first.nodes.size() + second.nodes.size());
            PBT_CHECK(edges.size() == first.edges.size() + second.edges.size(), "apart-edges", "the meshes are too far apart to be connected, the number of edges is ", edges.size(), " instead of ", first.edges.size() + second.edges.size());
            for (auto* part : {&coarse, &fine})
            {
                for (auto& e : part->edges)
                {
                    PBT_CHECK(edges.contains(keyEdge(part->nodes[static_cast<size_t>(e[0])], part->nodes[static_cast<size_t>(e[1])])), "apart-lost", "the meshes are too far apart to be connected, an edge was lost");
                }
            }
            c.nontrivial();
            return;
        }
        // nodes
        const std::set<Key> jointSet = [&]
        {
            std::set<Key> r;
            for (auto& p : jointCoarse)
            {
                r.insert(key(p));
            }
            return r;
        }();
        size_t kept = 0;
        for (auto& p : fine.nodes)
        {
            kept += nodes.contains(key(p));
            if (ratio > 1)
            {
                PBT_CHECK(nodes.contains(key(p)), "fine-node-lost", "node ", mk::str(p), " of the finer mesh was lost");
            }
        }
        for (auto& p : coarse.nodes)
        {
            if (!jointSet.contains(key(p)))
            {
                PBT_CHECK(nodes.contains(key(p)), "coarse-node-lost", "node ", mk::str(p), " away from the joint was lost");
            }
        }
        const int inserted[6] = {0, 0, 0, 1, 1, 0};
        int perColumn = inserted[ratio];
        if (ratio == 5)
        {
            perColumn = 3 + (ncv >= 2 ? 2 : 0) + (ncv >= 3 ? 1 : 0);
        }
        const size_t expected = coarse.nodes.size() + fine.nodes.size() - jointCoarse.size() + static_cast<size_t>(perColumn * (s1 - s0));
        // beyond a column of triangles the insertion ends
        if (triangles == 0)
        {
            PBT_CHECK(nodes.size() == expected, "connect-count", nodes.size(), " nodes instead of ", expected);
        }
        // one connected mesh without holes or hanging nodes that covers the area of both
        int numEdges = 0, boundaryEdges = 0;
        double boundary = 0;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edges[e][0] < 0 || m.edges[e][1] < 0)
            {
                continue;
            }
            ++numEdges;
            const int nf = (m.edgeFaces[e][0] >= 0) + (m.edgeFaces[e][1] >= 0);
            PBT_CHECK(nf > 0, "loose-edge", "edge ", mk::str(m.nodes[static_cast<size_t>(m.edges[e][0])]), "-", mk::str(m.nodes[static_cast<size_t>(m.edges[e][1])]), " belongs to no face");
            if (nf == 1)
            {
                ++boundaryEdges;
                boundary += dist(m.nodes[static_cast<size_t>(m.edges[e][0])], m.nodes[static_cast<size_t>(m.edges[e][1])]);
            }
        }
        const int euler = static_cast<int>(nodes.size()) - numEdges + static_cast<int>(m.faceNodes.size());
        PBT_CHECK(euler == 1, "euler", "the mesh is not one piece without holes: nodes - edges + faces is ", euler, ", nodes ", nodes.size(), " edges ", numEdges, " faces ", m.faceNodes.size());
        const double perimeter = 2 * (ncu * H + ncv * H * aspectC) + 2 * (nfu * hf + nfv * hf * aspectF) - 2 * joint;
        const double slack = 4.0 * (std::abs(gap) + std::abs(shift)) + 1e-6 * perimeter;
        PBT_CHECK(std::abs(boundary - perimeter) <= slack, "perimeter", "the length of the boundary is ", boundary, " instead of ", perimeter);
        const double area = totalArea(m);
        const double areaSlack = (gap + std::abs(shift)) * (joint + ncv * H * aspectC + 2 * H) + 1e-9 * (areaC + areaF);
        PBT_CHECK(std::abs(area - areaC - areaF) <= areaSlack, "area", "the area of the faces is ", area, " instead of ", areaC + areaF);
        c.label(pbt::cat("ratio-", ratio));
        if (gap > 0)
        {
            c.label("gap");
        }
        c.nontrivial();
    }

    const pbt::Register reg("C13",
                            "two: every case; near: at least one pair of nodes was merged; connect: every case",
                            60000, 2000000,
                            {{"two", twoNodes, 2}, {"near", nearNodes, 3}, {"connect", connectMeshes, 4}});
} // namespace
