// C15: elementary and local edits of a mesh2d change exactly the part they address.
#include "../harness/circum.hpp"
#include "../harness/ops.hpp"
#include "../harness/topo.hpp"
using namespace mk;

namespace
{
    using Ids = std::vector<int>;

    /// cyclic list of ids, independent of the start and of the direction
    Ids canonical(Ids f)
    {
        Ids best;
        for (int d = 0; d < 2; ++d)
        {
            for (size_t i = 0; i < f.size(); ++i)
            {
                if (best.empty() || f < best)
                {
                    best = f;
                }
                std::rotate(f.begin(), f.begin() + 1, f.end());
            }
            std::reverse(f.begin(), f.end());
        }
        return best;
    }

    bool simpleMesh(const Mesh2& m)
    {
        std::set<std::pair<int, int>> seen;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            const auto [a, b] = m.edges[e];
            if (m.edgeValid(e) && (a == b || !seen.insert({std::min(a, b), std::max(a, b)}).second))
            {
                return false;
            }
        }
        return true;
    }

    struct Expect
    {
        std::vector<P> pts;
        std::multiset<Ids> faces;
        std::multiset<std::pair<int, int>> edges;
        double tol = 0;

        int find(P p) const
        {
            int best = -1;
            double d = 1e300;
            for (size_t i = 0; i < pts.size(); ++i)
            {
                if (pts[i].valid() && dist(pts[i], p) < d)
                {
                    d = dist(pts[i], p);
                    best = static_cast<int>(i);
                }
            }
            return d <= tol ? best : -1;
        }
        void edge(int a, int b) { edges.insert({std::min(a, b), std::max(a, b)}); }
    };

    std::string text(const Ids& f)
    {
        std::string s;
        for (int i : f)
        {
            s += (s.empty() ? "" : " ") + std::to_string(i);
        }
        return "[" + s + "]";
    }

    void compare(const Mesh2& have, const Expect& want, const std::string& key, bool edgesToo)
    {
        std::multiset<Ids> faces;
        for (auto& f : have.faceNodes)
        {
            Ids g;
            for (int n : f)
            {
                const int i = want.find(have.nodes[static_cast<size_t>(n)]);
                PBT_CHECK(i >= 0, key + ":node", "node ", n, " ", str(have.nodes[static_cast<size_t>(n)]), " of a face is not expected");
                g.push_back(i);
            }
            faces.insert(canonical(g));
        }
        for (auto& f : want.faces)
        {
            PBT_CHECK(faces.count(f) == want.faces.count(f), key + ":face-missing", "the face ", text(f), " is expected ", want.faces.count(f), " times and there ", faces.count(f), " times");
        }
        for (auto& f : faces)
        {
            PBT_CHECK(want.faces.count(f) == faces.count(f), key + ":face-extra", "the face ", text(f), " (node numbers before the edit, then the new nodes) is not expected");
        }
        if (!edgesToo)
        {
            return;
        }
        std::multiset<std::pair<int, int>> edges;
        for (size_t e = 0; e < have.edges.size(); ++e)
        {
            if (have.edgeValid(e))
            {
                const int a = want.find(have.nodes[static_cast<size_t>(have.edges[e][0])]), b = want.find(have.nodes[static_cast<size_t>(have.edges[e][1])]);
                PBT_CHECK(a >= 0 && b >= 0, key + ":edge-node", "edge ", e, " has an unexpected node");
                edges.insert({std::min(a, b), std::max(a, b)});
            }
        }
        for (auto& e : want.edges)
        {
            PBT_CHECK(edges.count(e) == want.edges.count(e), key + ":edge-missing", "the edge ", e.first, "-", e.second, " is expected ", want.edges.count(e), " times and there ", edges.count(e), " times");
        }
        for (auto& e : edges)
        {
            PBT_CHECK(want.edges.count(e) == edges.count(e), key + ":edge-extra", "the edge ", e.first, "-", e.second, " is not expected");
        }
    }

    Expect same(const Mesh2& m)
    {
        Expect x;
        x.pts = m.nodes;
        x.tol = 1e-9 * std::max(1e-3, meshScale(m));
        for (auto& f : m.faceNodes)
        {
            x.faces.insert(canonical(f));
        }
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                x.edge(m.edges[e][0], m.edges[e][1]);
            }
        }
        return x;
    }

    /// relative margin by which a polygon is convex (negative: it is not)
    double convexity(const std::vector<P>& p)
    {
        double lo = 1e300, hi = -1e300;
        for (size_t i = 0; i < p.size(); ++i)
        {
            const P u = p[(i + 1) % p.size()] - p[i], v = p[(i + 2) % p.size()] - p[(i + 1) % p.size()];
            const double s = (u.x * v.y - u.y * v.x) / (len(u) * len(v));
            lo = std::min(lo, s);
            hi = std::max(hi, s);
        }
        return std::max(lo, -hi);
    }

    /// a ring of quadrilaterals, some of them cut by a diagonal
    GenMesh ring(Case& c)
    {
        GenMesh g;
        const int nr = c.range(1, 4), nt = c.range(7, 11);
        const double jitter = c.coin(0.5) ? 0.1 : 0.0, cut = c.coin(0.4) ? 0.12 : 0.0;
        for (int r = 0; r <= nr; ++r)
        {
            for (int t = 0; t < nt; ++t)
            {
                const double a = 2 * M_PI * t / nt + c.sym(jitter, 64) * 2 / nt, d = 10 + 5 * r + c.sym(jitter, 64) * 5;
                g.nodes.push_back(notMissing({d * std::cos(a), d * std::sin(a)}));
            }
        }
        for (int r = 0; r <= nr; ++r)
        {
            for (int t = 0; t < nt; ++t)
            {
                const int t1 = (t + 1) % nt;
                g.edges.push_back({r * nt + t, r * nt + t1});
                if (r < nr)
                {
                    g.edges.push_back({r * nt + t, (r + 1) * nt + t});
                    if (cut > 0 && c.coin(cut))
                    {
                        g.edges.push_back({r * nt + t, (r + 1) * nt + t1});
                    }
                }
            }
        }
        if (c.coin(0.5))
        {
            for (auto& e : g.edges)
            {
                if (c.coin(0.3))
                {
                    std::swap(e[0], e[1]);
                }
            }
            c.shuffle(g.edges);
        }
        return g;
    }

    void split(Case& c)
    {
        reset();
        const int id = newState(0);
        GenMesh g;
        if (c.coin(0.3))
        {
            g = ring(c);
            c.label("ring");
        }
        else
        {
            MeshOpts o;
            o.maxN = c.thorough ? 8 : 6;
            o.maxJitter = 0.2;
            g = genMesh(c, o);
        }
        logMesh(c, g, "mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const int times = c.range(1, 3);
        for (int k = 0; k < times; ++k)
        {
            const auto m = getMesh2(id);
            if (!simpleMesh(m))
            {
                throw pbt::Discard{"duplicate edges"};
            }
            std::vector<size_t> valid;
            for (size_t e = 0; e < m.edges.size(); ++e)
            {
                if (m.edgeValid(e))
                {
                    valid.push_back(e);
                }
            }
            if (valid.empty())
            {
                throw pbt::Discard{"no edges"};
            }
            const int seed = static_cast<int>(valid[c.draw(valid.size())]);
            std::map<int, std::vector<int>> facesOf;
            for (size_t f = 0; f < m.faceEdges.size(); ++f)
            {
                for (int e : m.faceEdges[f])
                {
                    facesOf[e].push_back(static_cast<int>(f));
                }
            }
            auto quad = [&](int f)
            { return f >= 0 && m.faceNodes[static_cast<size_t>(f)].size() == 4; };
            auto other = [&](int e, int f)
            {
                for (int h : facesOf[e])
                {
                    if (h != f)
                    {
                        return h;
                    }
                }
                return -1;
            };
            auto opposite = [&](int f, int e)
            {
                const auto& fe = m.faceEdges[static_cast<size_t>(f)];
                const auto& a = m.edges[static_cast<size_t>(e)];
                for (int h : fe)
                {
                    const auto& b = m.edges[static_cast<size_t>(h)];
                    if (b[0] != a[0] && b[0] != a[1] && b[1] != a[0] && b[1] != a[1])
                    {
                        return h;
                    }
                }
                return -1;
            };
            // the row of quadrilaterals through the edge
            std::vector<std::array<int, 3>> row; // quadrilateral, edge before, edge after
            std::set<int> splitEdges, visited;
            bool loop = false, twice = false, closed = false;
            const auto seedFaces = facesOf[seed];
            bool any = false;
            for (int f : seedFaces)
            {
                any |= quad(f);
            }
            if (any)
            {
                // the edges of the row with the faces on both sides of them
                std::vector<int> rowEdges{seed};
                for (int side = 0; side < 2 && !closed; ++side)
                {
                    int f = side < static_cast<int>(seedFaces.size()) ? seedFaces[static_cast<size_t>(side)] : -1;
                    int e = seed;
                    while (quad(f))
                    {
                        if (!visited.insert(f).second)
                        {
                            twice = true;
                            break;
                        }
                        const int h = opposite(f, e);
                        if (h < 0)
                        {
                            twice = true;
                            break;
                        }
                        row.push_back({f, e, h});
                        if (h == seed)
                        {
                            closed = true;
                            break;
                        }
                        rowEdges.push_back(h);
                        e = h;
                        f = other(h, f);
                    }
                    if (twice)
                    {
                        break;
                    }
                }
                loop = closed;
                for (int e : rowEdges)
                {
                    // an edge is divided unless the row ends there against a face that is not a quadrilateral
                    bool ends = false;
                    for (int f : facesOf[e])
                    {
                        ends |= !quad(f);
                    }
                    if (!ends)
                    {
                        splitEdges.insert(e);
                    }
                }
            }
            if (twice)
            {
                throw pbt::Discard{"the row crosses itself"};
            }
            Expect x;
            x.pts = m.nodes;
            x.tol = 1e-9 * std::max(1e-3, meshScale(m));
            std::map<int, int> mid;
            for (int e : splitEdges)
            {
                const auto& a = m.edges[static_cast<size_t>(e)];
                mid[e] = static_cast<int>(x.pts.size());
                x.pts.push_back(0.5 * (m.nodes[static_cast<size_t>(a[0])] + m.nodes[static_cast<size_t>(a[1])]));
                x.edge(a[0], mid[e]);
                x.edge(mid[e], a[1]);
            }
            for (size_t e = 0; e < m.edges.size(); ++e)
            {
                if (m.edgeValid(e) && !splitEdges.count(static_cast<int>(e)))
                {
                    x.edge(m.edges[e][0], m.edges[e][1]);
                }
            }
            std::set<int> inRow;
            for (auto& [f, e, h] : row)
            {
                const bool s = splitEdges.count(e) > 0, t = splitEdges.count(h) > 0;
                if (!s && !t)
                {
                    continue;
                }
                inRow.insert(f);
                const auto& n = m.faceNodes[static_cast<size_t>(f)];
                std::vector<P> corners;
                for (int i : n)
                {
                    corners.push_back(m.nodes[static_cast<size_t>(i)]);
                }
                if (convexity(corners) < 1e-3)
                {
                    throw pbt::Discard{"a quadrilateral of the row is not convex"};
                }
                auto pos = [&](int edge)
                {
                    for (int i = 0; i < 4; ++i)
                    {
                        const int a = n[static_cast<size_t>(i)], b = n[static_cast<size_t>((i + 1) % 4)];
                        const auto& ed = m.edges[static_cast<size_t>(edge)];
                        if ((ed[0] == a && ed[1] == b) || (ed[0] == b && ed[1] == a))
                        {
                            return i;
                        }
                    }
                    return -1;
                };
                auto at = [&](int i)
                { return n[static_cast<size_t>((i + 8) % 4)]; };
                if (s && t)
                {
                    const int i = pos(e);
                    x.faces.insert(canonical({at(i), mid[e], mid[h], at(i + 3)}));
                    x.faces.insert(canonical({mid[e], at(i + 1), at(i + 2), mid[h]}));
                    x.edge(mid[e], mid[h]);
                    c.label("quadrilateral halved");
                }
                else
                {
                    const int i = pos(s ? e : h), q = mid[s ? e : h];
                    x.faces.insert(canonical({at(i), q, at(i + 3)}));
                    x.faces.insert(canonical({q, at(i + 1), at(i + 2)}));
                    x.faces.insert(canonical({q, at(i + 2), at(i + 3)}));
                    x.edge(q, at(i + 2));
                    x.edge(q, at(i + 3));
                    c.label("row ends against another face");
                }
            }
            for (size_t f = 0; f < m.faceNodes.size(); ++f)
            {
                if (!inRow.count(static_cast<int>(f)))
                {
                    x.faces.insert(canonical(m.faceNodes[f]));
                }
                if (!inRow.count(static_cast<int>(f)))
                {
                    // a hole or an outside next to a divided edge cannot be a face, faces can
                    for (int e : m.faceEdges[f])
                    {
                        if (splitEdges.count(e))
                        {
                            throw pbt::Discard{"divided edge of an untouched face"};
                        }
                    }
                }
            }
            const int a = m.edges[static_cast<size_t>(seed)][0], b = m.edges[static_cast<size_t>(seed)][1];
            const bool turn = c.coin();
            PBT_LOG(c, "split_row ", turn ? b : a, " ", turn ? a : b, loop ? " (closed row)" : "");
            c.op("mesh2d_split_row");
            must(api::mkernel_mesh2d_split_row(id, turn ? b : a, turn ? a : b), "mesh2d_split_row");
            ++c.evaluations;
            compare(getMesh2(id), x, "split", true);
            if (!inRow.empty())
            {
                c.nontrivial();
            }
            if (loop)
            {
                c.label("closed row");
            }
        }
    }

    // ---------------------------------------------------------------------------------------------
    double signedArea(const Mesh2& m, const std::vector<int>& f)
    {
        double a = 0;
        const P o = m.nodes[static_cast<size_t>(f[0])];
        for (size_t i = 0; i < f.size(); ++i)
        {
            const P p = m.nodes[static_cast<size_t>(f[i])] - o, q = m.nodes[static_cast<size_t>(f[(i + 1) % f.size()])] - o;
            a += 0.5 * (p.x * q.y - p.y * q.x);
        }
        return a;
    }

    void flip(Case& c)
    {
        reset();
        const int id = newState(0);
        MeshOpts o;
        o.maxN = c.thorough ? 9 : 7;
        o.maxJitter = 0.25;
        o.allowHoles = c.coin(0.3);
        auto g = genMesh(c, o);
        if (c.coin(0.7))
        {
            // make the numbers of edges at the nodes irregular: flip edges between triangles
            must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
            const auto q = getMesh2(id);
            auto faces = q.faceNodes;
            const int flips = c.range(1, 3 * (g.nx + g.ny));
            int done = 0;
            for (int k = 0; k < flips && !g.edges.empty(); ++k)
            {
                const size_t e = static_cast<size_t>(c.range(0, static_cast<int>(g.edges.size()) - 1));
                const int a = g.edges[e][0], b = g.edges[e][1];
                std::vector<size_t> at;
                std::vector<int> apex;
                for (size_t f = 0; f < faces.size(); ++f)
                {
                    const auto& t = faces[f];
                    if (t.size() == 3 && std::count(t.begin(), t.end(), a) && std::count(t.begin(), t.end(), b))
                    {
                        at.push_back(f);
                        apex.push_back(t[0] + t[1] + t[2] - a - b);
                    }
                }
                if (at.size() != 2)
                {
                    continue;
                }
                auto pt = [&](int i)
                { return g.nodes[static_cast<size_t>(i)]; };
                if (convexity({pt(a), pt(apex[0]), pt(b), pt(apex[1])}) < 1e-2)
                {
                    continue;
                }
                g.edges[e] = {apex[0], apex[1]};
                faces[at[0]] = {a, apex[0], apex[1]};
                faces[at[1]] = {b, apex[0], apex[1]};
                ++done;
            }
            if (done > 0)
            {
                c.label("irregular");
            }
        }
        logMesh(c, g, "mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        if (!simpleMesh(m) || m.faceNodes.empty())
        {
            throw pbt::Discard{"no faces"};
        }
        bool allTriangles = true;
        size_t triangles = 0;
        double area = 0;
        for (auto& f : m.faceNodes)
        {
            allTriangles &= f.size() == 3;
            triangles += f.size() - 2;
            std::vector<P> p;
            for (int n : f)
            {
                p.push_back(m.nodes[static_cast<size_t>(n)]);
            }
            if (convexity(p) < 1e-3)
            {
                throw pbt::Discard{"a face is not convex"};
            }
            area += std::abs(signedArea(m, f));
        }
        // two regions that share a node with only two edges: which of them is a face depends on the faces around
        std::vector<int> edgesAt(m.nodes.size(), 0);
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                ++edgesAt[static_cast<size_t>(m.edges[e][0])];
                ++edgesAt[static_cast<size_t>(m.edges[e][1])];
            }
        }
        if (m.faceNodes.size() > 1 && g.holes)
        {
            for (size_t n = 0; n < m.nodes.size(); ++n)
            {
                const P p = m.nodes[n];
                if (edgesAt[n] == 2 && p.valid() && p.x > g.lo.x + 0.3 * g.h && p.x < g.hi.x - 0.3 * g.h && p.y > g.lo.y + 0.3 * g.h && p.y < g.hi.y - 0.3 * g.h)
                {
                    throw pbt::Discard{"a node with two edges inside the mesh"};
                }
            }
        }
        const bool triangulate = !allTriangles || c.coin();
        PBT_LOG(c, "flip_edges, triangulate ", triangulate);
        c.op("mesh2d_flip_edges");
        Geo poly, land;
        auto pl = poly.list(), ll = land.list();
        const int rc = api::mkernel_mesh2d_flip_edges(id, triangulate, 0, pl, ll);
        PBT_CHECK(rc == 0, "flip:error", "flip_edges returned ", rc, ": ", lastError());
        ++c.evaluations;
        const auto r = getMesh2(id);
        PBT_CHECK(r.nodes.size() == m.nodes.size(), "flip:nodes", "the number of nodes has changed");
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            PBT_CHECK(r.nodes[i] == m.nodes[i], "flip:node-moved", "node ", i, " has moved");
        }
        PBT_CHECK(r.faceNodes.size() == triangles, "flip:faces", r.faceNodes.size(), " faces instead of ", triangles);
        double after = 0;
        for (auto& f : r.faceNodes)
        {
            PBT_CHECK(f.size() == 3, "flip:triangles", "the face ", text(f), " is not a triangle");
            after += std::abs(signedArea(r, f));
        }
        PBT_CHECK(std::abs(after - area) <= 1e-9 * area, "flip:area", "the area was ", area, " and is ", after);
        PBT_CHECK(simpleMesh(r), "flip:duplicate", "an edge occurs twice");
        auto boundary = [](const Mesh2& q)
        {
            std::map<std::pair<int, int>, int> n;
            for (auto& f : q.faceNodes)
            {
                for (size_t i = 0; i < f.size(); ++i)
                {
                    const int a = f[i], b = f[(i + 1) % f.size()];
                    ++n[{std::min(a, b), std::max(a, b)}];
                }
            }
            return n;
        };
        auto b0 = boundary(m), b1 = boundary(r);
        for (auto& [e, n] : b0)
        {
            if (n == 1)
            {
                PBT_CHECK(b1.count(e) && b1[e] == 1, "flip:boundary", "the boundary edge ", e.first, "-", e.second, " has gone");
            }
        }
        // edges without a face stay
        std::set<std::pair<int, int>> e1;
        for (size_t e = 0; e < r.edges.size(); ++e)
        {
            if (r.edgeValid(e))
            {
                e1.insert({std::min(r.edges[e][0], r.edges[e][1]), std::max(r.edges[e][0], r.edges[e][1])});
            }
        }
        std::vector<int> degree(r.nodes.size(), 0);
        std::vector<bool> inner(r.nodes.size(), true);
        for (auto& [a, b] : e1)
        {
            ++degree[static_cast<size_t>(a)];
            ++degree[static_cast<size_t>(b)];
            if (!b1.count({a, b}) || b1[{a, b}] != 2)
            {
                inner[static_cast<size_t>(a)] = inner[static_cast<size_t>(b)] = false;
            }
        }
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                const std::pair<int, int> k{std::min(m.edges[e][0], m.edges[e][1]), std::max(m.edges[e][0], m.edges[e][1])};
                PBT_CHECK(b0.count(k) || e1.count(k), "flip:hanging", "the edge ", k.first, "-", k.second, " that bounds no face has gone");
            }
        }
        // no flip is left that brings the numbers of edges at the nodes closer to the optimum of six
        for (auto& [e, n] : b1)
        {
            if (n != 2)
            {
                continue;
            }
            std::vector<int> apex;
            for (auto& f : r.faceNodes)
            {
                int hit = 0, other = -1;
                for (int i : f)
                {
                    if (i == e.first || i == e.second)
                    {
                        ++hit;
                    }
                    else
                    {
                        other = i;
                    }
                }
                if (hit == 2)
                {
                    apex.push_back(other);
                }
            }
            if (apex.size() != 2)
            {
                continue;
            }
            const int a = e.first, b = e.second, l = apex[0], q = apex[1];
            auto pt = [&](int i)
            { return r.nodes[static_cast<size_t>(i)]; };
            if (!(inner[static_cast<size_t>(a)] && inner[static_cast<size_t>(b)] && inner[static_cast<size_t>(l)] && inner[static_cast<size_t>(q)]) || convexity({pt(a), pt(l), pt(b), pt(q)}) < 1e-3)
            {
                continue;
            }
            auto d = [&](int i)
            { return degree[static_cast<size_t>(i)] - 6; };
            auto sq = [](int v)
            { return v * v; };
            const int change = sq(d(a) - 1) + sq(d(b) - 1) + sq(d(l) + 1) + sq(d(q) + 1) - sq(d(a)) - sq(d(b)) - sq(d(l)) - sq(d(q));
            PBT_CHECK(change >= 0, "flip:optimal", "flipping the edge ", a, "-", b, " to ", l, "-", q, " would change the sum of the squared deviations from six edges per node by ", change);
            c.label("inner edge judged");
        }
        c.nontrivial();
        if (b0 != b1)
        {
            c.label("changed");
        }
    }

    // ---------------------------------------------------------------------------------------------
    void disconnected(Case& c)
    {
        reset();
        const int id = newState(0);
        GenMesh g;
        const int parts = c.range(1, 4);
        MeshOpts o;
        o.maxN = 4;
        o.allowScale = false;
        o.randomOrigin = false;
        for (int k = 0; k < parts; ++k)
        {
            auto h = genMesh(c, o);
            const int off = static_cast<int>(g.nodes.size());
            for (auto& p : h.nodes)
            {
                g.nodes.push_back({p.x + 200.0 * k, p.y});
            }
            for (auto& e : h.edges)
            {
                g.edges.push_back({e[0] + off, e[1] + off});
            }
        }
        if (parts > 1 && c.coin(0.4))
        {
            // join two parts by an edge (which bounds no face)
            const int a = static_cast<int>(c.draw(g.nodes.size())), b = static_cast<int>(c.draw(g.nodes.size()));
            if (std::abs(g.nodes[static_cast<size_t>(a)].x - g.nodes[static_cast<size_t>(b)].x) > 120)
            {
                g.edges.push_back({a, b});
                c.label("joined by an edge");
            }
        }
        if (c.coin(0.4))
        {
            c.shuffle(g.edges);
        }
        logMesh(c, g, "mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        if (!simpleMesh(m))
        {
            throw pbt::Discard{"duplicate edges"};
        }
        const size_t nf = m.faceNodes.size();
        std::vector<int> comp(nf, -1);
        int nc = 0;
        std::map<int, std::vector<size_t>> facesOf;
        for (size_t f = 0; f < nf; ++f)
        {
            for (int e : m.faceEdges[f])
            {
                facesOf[e].push_back(f);
            }
        }
        std::vector<size_t> size;
        for (size_t f = 0; f < nf; ++f)
        {
            if (comp[f] >= 0)
            {
                continue;
            }
            std::vector<size_t> todo{f};
            comp[f] = nc;
            size.push_back(0);
            while (!todo.empty())
            {
                const size_t h = todo.back();
                todo.pop_back();
                ++size.back();
                for (int e : m.faceEdges[h])
                {
                    for (size_t q : facesOf[e])
                    {
                        if (comp[q] < 0)
                        {
                            comp[q] = nc;
                            todo.push_back(q);
                        }
                    }
                }
            }
            ++nc;
        }
        PBT_LOG(c, "remove_disconnected_regions, ", nc, " regions");
        c.op("mesh2d_remove_disconnected_regions");
        must(api::mkernel_mesh2d_remove_disconnected_regions(id), "mesh2d_remove_disconnected_regions");
        ++c.evaluations;
        const auto r = getMesh2(id);
        const size_t most = size.empty() ? 0 : *std::max_element(size.begin(), size.end());
        PBT_CHECK(r.faceNodes.size() == most, "regions:count", r.faceNodes.size(), " faces are left, the largest region has ", most);
        Expect x;
        x.pts = m.nodes;
        x.tol = 1e-9 * meshScale(m);
        int keep = -1;
        if (!r.faceNodes.empty())
        {
            Ids f;
            for (int n : r.faceNodes[0])
            {
                f.push_back(x.find(r.nodes[static_cast<size_t>(n)]));
            }
            f = canonical(f);
            for (size_t h = 0; h < nf; ++h)
            {
                if (canonical(m.faceNodes[h]) == f)
                {
                    keep = comp[h];
                }
            }
            PBT_CHECK(keep >= 0 && size[static_cast<size_t>(keep)] == most, "regions:largest", "the region that was kept is not (one of) the largest");
        }
        for (size_t f = 0; f < nf; ++f)
        {
            if (comp[f] == keep)
            {
                x.faces.insert(canonical(m.faceNodes[f]));
            }
        }
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (!m.edgeValid(e))
            {
                continue;
            }
            const auto it = facesOf.find(static_cast<int>(e));
            if (it == facesOf.end() || comp[it->second[0]] == keep)
            {
                x.edge(m.edges[e][0], m.edges[e][1]);
            }
        }
        compare(r, x, "regions", true);
        if (nc > 1)
        {
            c.nontrivial();
        }
    }

    // ---------------------------------------------------------------------------------------------
    /// removing the edges that cross a small flow edge
    void smallFlow(Case& c)
    {
        reset();
        const int id = newState(0);
        MeshOpts o;
        o.maxN = c.thorough ? 7 : 5;
        o.maxJitter = 0.25;
        auto g = genMesh(c, o);
        logMesh(c, g, "mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        if (!simpleMesh(m) || m.faceNodes.empty() || !circumcentresDefined(m))
        {
            throw pbt::Discard{"no faces, or circumcentres that are not well defined"};
        }
        std::vector<double> area;
        for (auto& f : m.faceNodes)
        {
            std::vector<P> q;
            for (int n : f)
            {
                q.push_back(m.nodes[static_cast<size_t>(n)]);
            }
            if (convexity(q) < 1e-3)
            {
                throw pbt::Discard{"a face is not convex"};
            }
            area.push_back(std::abs(signedArea(m, f)));
        }
        const auto cc = refCircumcentres(m);
        const double threshold = c.coin(0.2) ? 0.1 : 1e-3 * c.range(1, 1000);
        PBT_LOG(c, "delete_small_flow_edges_and_small_triangles ", threshold, " 0");
        std::vector<int> fate(m.edges.size(), 0); // 1: goes, 2: not judged
        int gone = 0;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (!m.edgeValid(e) || m.edgeFaces[e][0] < 0 || m.edgeFaces[e][1] < 0)
            {
                continue;
            }
            const size_t f = static_cast<size_t>(m.edgeFaces[e][0]), h = static_cast<size_t>(m.edgeFaces[e][1]);
            const double d = dist(cc[f], cc[h]), cut = threshold * 0.5 * (std::sqrt(area[f]) + std::sqrt(area[h]));
            if (std::abs(d - cut) < 1e-3 * (std::sqrt(area[f]) + std::sqrt(area[h])))
            {
                fate[e] = 2;
            }
            else if (d < cut)
            {
                fate[e] = 1;
                ++gone;
            }
        }
        c.op("mesh2d_delete_small_flow_edges_and_small_triangles");
        must(api::mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, threshold, 0.0), "delete_small_flow_edges_and_small_triangles");
        ++c.evaluations;
        const auto r = getMesh2(id);
        PBT_CHECK(r.nodes.size() == m.nodes.size() && r.edges.size() == m.edges.size(), "smallflow:size", r.nodes.size(), " nodes and ", r.edges.size(), " edges instead of ", m.nodes.size(), " and ", m.edges.size());
        std::vector<bool> used(m.nodes.size(), false);
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (!m.edgeValid(e))
            {
                PBT_CHECK(!r.edgeValid(e), "smallflow:revived", "edge ", e, " was deleted before and is back");
                continue;
            }
            PBT_CHECK(fate[e] != 1 || !r.edgeValid(e), "smallflow:kept", "edge ", e, " crosses a small flow edge and is still there");
            PBT_CHECK(fate[e] != 0 || (r.edgeValid(e) && ((r.edges[e][0] == m.edges[e][0] && r.edges[e][1] == m.edges[e][1]) || (r.edges[e][1] == m.edges[e][0] && r.edges[e][0] == m.edges[e][1]))), "smallflow:deleted", "edge ", e, " does not cross a small flow edge and was changed to ", r.edges[e][0], "-", r.edges[e][1]);
            if (r.edgeValid(e))
            {
                used[static_cast<size_t>(r.edges[e][0])] = used[static_cast<size_t>(r.edges[e][1])] = true;
            }
        }
        for (size_t n = 0; n < m.nodes.size(); ++n)
        {
            PBT_CHECK(!used[n] || r.nodes[n] == m.nodes[n], "smallflow:node", "node ", n, " is ", str(r.nodes[n]), " instead of ", str(m.nodes[n]));
        }
        if (gone > 0)
        {
            c.label("edges across small flow edges");
            c.nontrivial();
        }
    }

    // ---------------------------------------------------------------------------------------------
    void elementary(Case& c)
    {
        reset();
        const int id = newState(0);
        MeshOpts o;
        o.maxN = 4;
        auto g = genMesh(c, o);
        logMesh(c, g, "mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        // the model: nodes and edges by index
        auto m0 = getMesh2(id);
        std::vector<P> nodes = m0.nodes;
        auto edges = m0.edges;
        std::vector<bool> maybe(nodes.size(), false); // without edges: may be there or not
        const double scale = meshScale(m0);
        auto degree = [&](int n)
        {
            return std::count_if(edges.begin(), edges.end(), [n](auto& e)
                                 { return e[0] >= 0 && (e[0] == n || e[1] == n); });
        };
        auto refresh = [&]()
        {
            for (size_t i = 0; i < nodes.size(); ++i)
            {
                if (nodes[i].valid() && degree(static_cast<int>(i)) == 0)
                {
                    maybe[i] = true;
                }
            }
        };
        refresh();
        const int nOps = c.range(1, c.thorough ? 14 : 8);
        for (int k = 0; k < nOps; ++k)
        {
            // an isolated node can be dropped at any administration
            const auto before = getMesh2(id);
            std::vector<int> valid;
            std::vector<int> ve;
            for (size_t i = 0; i < before.nodes.size(); ++i)
            {
                if (before.nodeValid(i))
                {
                    valid.push_back(static_cast<int>(i));
                }
            }
            for (size_t e = 0; e < before.edges.size(); ++e)
            {
                if (before.edgeValid(e))
                {
                    ve.push_back(static_cast<int>(e));
                }
            }
            if (valid.size() < 3 || ve.empty())
            {
                break;
            }
            // the indices are those of the state as it is read
            nodes = before.nodes;
            edges = before.edges;
            maybe.assign(nodes.size(), false);
            refresh();
            const int what = c.range(0, 7);
            std::string key;
            auto near = [&]()
            { return notMissing(P{before.nodes[static_cast<size_t>(valid[0])].x + c.sym(1.5 * scale, 300), before.nodes[static_cast<size_t>(valid[0])].y + c.sym(1.5 * scale, 300)}); };
            std::vector<double> moveTol;
            double tol = 0;
            if (what == 0)
            {
                key = "insert_node";
                const P p = near();
                int n = -1;
                PBT_LOG(c, "insert_node ", str(p));
                must(api::mkernel_mesh2d_insert_node(id, p.x, p.y, n), "insert_node");
                PBT_CHECK(n == static_cast<int>(nodes.size()), "insert_node:index", "the index is ", n, " for a mesh with ", nodes.size(), " nodes");
                nodes.push_back(p);
                maybe.push_back(true);
                // connect it, so that it is kept
                const int to = valid[c.draw(valid.size())];
                int e = -1;
                PBT_LOG(c, "insert_edge ", n, " ", to);
                must(api::mkernel_mesh2d_insert_edge(id, n, to, e), "insert_edge");
                PBT_CHECK(e == static_cast<int>(edges.size()), "insert_edge:index", "the index of the new edge is ", e, " for a mesh with ", edges.size(), " edges");
                edges.push_back({n, to});
            }
            else if (what == 1)
            {
                key = "insert_edge";
                const int a = valid[c.draw(valid.size())], b = valid[c.draw(valid.size())];
                if (a == b)
                {
                    continue;
                }
                const bool there = std::any_of(edges.begin(), edges.end(), [&](auto& e)
                                               { return (e[0] == a && e[1] == b) || (e[0] == b && e[1] == a); });
                int e = -1;
                PBT_LOG(c, "insert_edge ", a, " ", b);
                must(api::mkernel_mesh2d_insert_edge(id, a, b, e), "insert_edge");
                if (!there)
                {
                    PBT_CHECK(e == static_cast<int>(edges.size()), "insert_edge:index", "the index of the new edge is ", e, " for a mesh with ", edges.size(), " edges");
                    edges.push_back({a, b});
                }
                else
                {
                    c.label("edge inserted twice");
                }
            }
            else if (what == 2)
            {
                key = "delete_edge_by_index";
                const int e = ve[c.draw(ve.size())];
                PBT_LOG(c, "delete_edge_by_index ", e);
                must(api::mkernel_mesh2d_delete_edge_by_index(id, e), "delete_edge_by_index");
                edges[static_cast<size_t>(e)] = {-1, -1};
            }
            else if (what == 3)
            {
                key = "delete_node";
                const int n = valid[c.draw(valid.size())];
                PBT_LOG(c, "delete_node ", n);
                must(api::mkernel_mesh2d_delete_node(id, n), "delete_node");
                for (auto& e : edges)
                {
                    if (e[0] == n || e[1] == n)
                    {
                        e = {-1, -1};
                    }
                }
                nodes[static_cast<size_t>(n)] = P{missing, missing};
            }
            else if (what == 4)
            {
                key = "move_node";
                const int n = valid[c.draw(valid.size())];
                const P from = nodes[static_cast<size_t>(n)];
                const P to = notMissing(from + P{c.sym(2.5 * scale / 4, 300), c.sym(2.5 * scale / 4, 300)});
                PBT_LOG(c, "move_node ", n, " to ", str(to));
                must(api::mkernel_mesh2d_move_node(id, to.x, to.y, n), "move_node");
                const P d = to - from;
                tol = 1e-9 * (scale + std::abs(to.x) + std::abs(to.y));
                for (auto& p : nodes)
                {
                    if (!p.valid())
                    {
                        continue;
                    }
                    const double r = dist(p, from), D = len(d);
                    if (D > 0 && r <= D)
                    {
                        p = p + 0.5 * (1 + std::cos(M_PI * r / D)) * d;
                    }
                }
            }
            else if (what == 5)
            {
                key = "delete_edge";
                // the edge whose centre is nearest to the point
                const int e = ve[c.draw(ve.size())];
                auto centre = [&](int i)
                { return 0.5 * (nodes[static_cast<size_t>(edges[static_cast<size_t>(i)][0])] + nodes[static_cast<size_t>(edges[static_cast<size_t>(i)][1])]); };
                P p = centre(e) + P{c.sym(0.3 * scale / 4, 64), c.sym(0.3 * scale / 4, 64)};
                double best = 1e300, second = 1e300;
                int which = -1;
                for (int i : ve)
                {
                    const double d = dist(centre(i), p);
                    if (d < best)
                    {
                        second = best;
                        best = d;
                        which = i;
                    }
                    else
                    {
                        second = std::min(second, d);
                    }
                }
                if (second - best < 1e-6 * scale)
                {
                    continue;
                }
                PBT_LOG(c, "delete_edge ", str(p));
                must(api::mkernel_mesh2d_delete_edge(id, p.x, p.y, -1e9, -1e9, 1e9, 1e9), "delete_edge");
                edges[static_cast<size_t>(which)] = {-1, -1};
            }
            else if (what == 7)
            {
                key = "delete_hanging_edges";
                // with changes just before, without the mesh being read in between
                if (c.coin(0.5))
                {
                    const P p = near();
                    int n = -1, e = -1;
                    const int to = valid[c.draw(valid.size())];
                    PBT_LOG(c, "insert_node ", str(p), " and an edge to ", to);
                    must(api::mkernel_mesh2d_insert_node(id, p.x, p.y, n), "insert_node");
                    must(api::mkernel_mesh2d_insert_edge(id, n, to, e), "insert_edge");
                    nodes.push_back(p);
                    maybe.push_back(true);
                    edges.push_back({n, to});
                    c.label("hanging edge inserted just before");
                }
                if (c.coin(0.3))
                {
                    const int e = ve[c.draw(ve.size())];
                    PBT_LOG(c, "delete_edge_by_index ", e);
                    must(api::mkernel_mesh2d_delete_edge_by_index(id, e), "delete_edge_by_index");
                    edges[static_cast<size_t>(e)] = {-1, -1};
                }
                PBT_LOG(c, "delete_hanging_edges");
                c.op("mesh2d_delete_hanging_edges");
                must(api::mkernel_mesh2d_delete_hanging_edges(id), "delete_hanging_edges");
                const auto old = edges;
                auto oldDegree = [&](int n)
                {
                    return std::count_if(old.begin(), old.end(), [n](auto& e)
                                         { return e[0] >= 0 && (e[0] == n || e[1] == n); });
                };
                bool some = false;
                for (auto& e : edges)
                {
                    if (e[0] >= 0 && (oldDegree(e[0]) == 1 || oldDegree(e[1]) == 1))
                    {
                        e = {-1, -1};
                        some = true;
                    }
                }
                c.label(some ? "hanging edges deleted" : "no hanging edges");
            }
            else
            {
                key = "insert_edge_from_coordinates";
                // ends at a node or far from all nodes
                auto end = [&](int& n)
                {
                    n = -1;
                    if (c.coin(0.6))
                    {
                        n = valid[c.draw(valid.size())];
                        return nodes[static_cast<size_t>(n)];
                    }
                    return near();
                };
                int a, b;
                const P p = end(a), q = end(b);
                double nearest = 1e300;
                for (auto& s : nodes)
                {
                    if (s.valid())
                    {
                        nearest = std::min({nearest, a < 0 ? dist(s, p) : 1e300, b < 0 ? dist(s, q) : 1e300});
                    }
                }
                if (dist(p, q) < 0.05 * scale || nearest < 0.05 * scale)
                {
                    continue;
                }
                // nodes that coincide cannot be told apart
                bool twin = false;
                for (size_t i = 0; i < nodes.size(); ++i)
                {
                    twin |= nodes[i].valid() && ((a >= 0 && static_cast<int>(i) != a && dist(nodes[i], p) < 0.05 * scale) || (b >= 0 && static_cast<int>(i) != b && dist(nodes[i], q) < 0.05 * scale));
                }
                if (twin)
                {
                    continue;
                }
                int i = -1, j = -1, e = -1;
                PBT_LOG(c, "insert_edge_from_coordinates ", str(p), " ", str(q));
                must(api::mkernel_mesh2d_insert_edge_from_coordinates(id, p.x, p.y, q.x, q.y, i, j, e), "insert_edge_from_coordinates");
                for (int s = 0; s < 2; ++s)
                {
                    const int have = s ? j : i, want = s ? b : a;
                    if (want < 0)
                    {
                        PBT_CHECK(have == static_cast<int>(nodes.size()), "insert_edge_from_coordinates:new", "end ", s, " became node ", have, " of a mesh with ", nodes.size(), " nodes");
                        nodes.push_back(s ? q : p);
                        maybe.push_back(true);
                    }
                    else
                    {
                        PBT_CHECK(have == want, "insert_edge_from_coordinates:existing", "end ", s, " lies on node ", want, ", but node ", have, " was taken");
                    }
                }
                const bool there = std::any_of(edges.begin(), edges.end(), [&](auto& x)
                                               { return (x[0] == i && x[1] == j) || (x[0] == j && x[1] == i); });
                if (!there)
                {
                    PBT_CHECK(e == static_cast<int>(edges.size()), "insert_edge_from_coordinates:index", "the index of the new edge is ", e, " for a mesh with ", edges.size(), " edges");
                    edges.push_back({i, j});
                }
            }
            c.op(("mesh2d_" + key).c_str());
            ++c.evaluations;
            refresh();
            const auto r = getMesh2(id);
            PBT_CHECK(r.nodes.size() == nodes.size() && r.edges.size() == edges.size(), key + ":size", r.nodes.size(), " nodes and ", r.edges.size(), " edges instead of ", nodes.size(), " and ", edges.size());
            for (size_t i = 0; i < nodes.size(); ++i)
            {
                if (maybe[i] && degree(static_cast<int>(i)) == 0)
                {
                    PBT_CHECK(!r.nodes[i].valid() || !nodes[i].valid() || dist(r.nodes[i], nodes[i]) <= tol, key + ":isolated", "node ", i, " is ", str(r.nodes[i]), " instead of ", str(nodes[i]));
                    continue;
                }
                PBT_CHECK(r.nodes[i].valid() == nodes[i].valid(), key + ":node-valid", "node ", i, " is ", str(r.nodes[i]), " instead of ", str(nodes[i]));
                PBT_CHECK(!nodes[i].valid() || (tol > 0 ? dist(r.nodes[i], nodes[i]) <= tol : r.nodes[i] == nodes[i]), key + ":node", "node ", i, " is ", str(r.nodes[i]), " instead of ", str(nodes[i]));
            }
            for (size_t e = 0; e < edges.size(); ++e)
            {
                if (edges[e][0] < 0)
                {
                    PBT_CHECK(!r.edgeValid(e), key + ":edge-kept", "edge ", e, " is still there: ", r.edges[e][0], "-", r.edges[e][1]);
                    continue;
                }
                PBT_CHECK((r.edges[e][0] == edges[e][0] && r.edges[e][1] == edges[e][1]) || (r.edges[e][0] == edges[e][1] && r.edges[e][1] == edges[e][0]), key + ":edge", "edge ", e, " is ", r.edges[e][0], "-", r.edges[e][1], " instead of ", edges[e][0], "-", edges[e][1]);
            }
            c.nontrivial();
        }
    }

    pbt::Register reg("C15",
                      "a case is non-trivial if an edit was compared with the model: in facet 'split' at least one quadrilateral was divided, in 'flip' the mesh has convex faces and the call succeeded, in 'regions' the mesh has more than one region, in 'smallflow' at least one edge crosses a small flow edge, in 'elementary' at least one edit was done",
                      120000, 2000000,
                      {{"split", split, 3},
                       {"flip", flip, 2},
                       {"regions", disconnected, 1},
                       {"smallflow", smallFlow, 1},
                       {"elementary", elementary, 2}});
} // namespace
