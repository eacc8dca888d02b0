// C09: selection by polygon agrees with the geometric definition.
#include "../harness/ops.hpp"
#include "../harness/polyset.hpp"
using namespace mk;

namespace
{
    struct Selection
    {
        int count = -7;
        std::vector<int> nodes;
    };
    Selection selectNodes(int id, const PolySet& s, int inside, int n)
    {
        Selection r;
        Geo g(s.points());
        auto l = g.list();
        must(api::mkernel_mesh2d_count_nodes_in_polygons(id, l, inside, r.count), "count_nodes_in_polygons");
        PBT_CHECK(r.count >= 0 && r.count <= n, "count", r.count, " of ", n, " nodes are selected");
        r.nodes.assign(static_cast<size_t>(r.count) + 1, -77);
        must(api::mkernel_mesh2d_get_nodes_in_polygons(id, l, inside, r.nodes.data()), "get_nodes_in_polygons");
        PBT_CHECK(r.nodes.back() == -77, "overrun", "more nodes were selected than counted");
        r.nodes.pop_back();
        return r;
    }

    void nodes(Case& c, int projection)
    {
        reset();
        const int id = newState(projection);
        MeshOpts o;
        o.maxN = c.thorough ? 8 : 6;
        o.projection = projection;
        auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const int ops = static_cast<int>(c.weighted({4, 2, 1}));
        for (int k = 0; k < ops; ++k)
        {
            Ctx x(c);
            x.id = id;
            x.refresh();
            if (x.validNodes.size() > 300 || x.validNodes.empty() || x.projection != projection)
            {
                break;
            }
            int rc = 0;
            try
            {
                runRandomOp(x, "mesh2d", rc);
            }
            catch (pbt::Discard&)
            {
            }
        }
        const auto m = getMesh2(id);
        P lo{1e300, 1e300}, hi{-1e300, -1e300};
        int valid = 0;
        for (auto& p : m.nodes)
        {
            if (p.valid())
            {
                ++valid;
                lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
                hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
            }
        }
        int now = -1;
        must(api::mkernel_get_projection(id, now), "get_projection");
        if (now != projection || valid < 2 || !m.validNodeBox(1e8) || !(hi.x - lo.x > 1e-9) || !(hi.y - lo.y > 1e-9) || (projection > 0 && (hi.x - lo.x > 8 || hi.y - lo.y > 8 || std::max(std::abs(lo.y), std::abs(hi.y)) > 75)))
        {
            return;
        }
        const auto s = genPolySet(c, lo, hi, true);
        PBT_LOG(c, "polygons ", str(s.points()));
        c.op("get_nodes_in_polygons");
        const double tol = (projection == 2 ? 0.03 : 1e-6) * std::max(1e-30, s.extent());
        std::vector<int> state(m.nodes.size(), -1); // 0 outside, 1 inside, 2 undecided, -1 deleted
        int in = 0, out = 0;
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            if (m.nodeValid(i))
            {
                state[i] = !s.empty() && s.distToBoundary(m.nodes[i]) <= tol ? 2 : s.contains(m.nodes[i]) ? 1
                                                                                                            : 0;
                in += state[i] == 1;
                out += state[i] == 0;
            }
        }
        std::vector<char> picked[2];
        for (int inside : {1, 0})
        {
            const auto r = selectNodes(id, s, inside, static_cast<int>(m.nodes.size()));
            auto& mark = picked[inside];
            mark.assign(m.nodes.size(), 0);
            for (int n : r.nodes)
            {
                PBT_CHECK(n >= 0 && n < static_cast<int>(m.nodes.size()), "range", "node ", n, " of ", m.nodes.size(), " is selected");
                PBT_CHECK(!mark[static_cast<size_t>(n)]++, "twice", "node ", n, " is selected twice");
                PBT_CHECK(m.nodeValid(static_cast<size_t>(n)), "deleted", "deleted node ", n, " is selected ", inside ? "inside" : "outside");
            }
            for (size_t i = 0; i < m.nodes.size(); ++i)
            {
                ++c.evaluations;
                PBT_CHECK(state[i] < 0 || state[i] == 2 || (mark[i] != 0) == (state[i] == inside), "inclusion", "node ", i, " ", str(m.nodes[i]), " is ", mark[i] ? "" : "not ", "selected ", inside ? "inside" : "outside", " the polygons ", str(s.points()));
            }
        }
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            PBT_CHECK(state[i] < 0 || picked[0][i] + picked[1][i] == 1, "complement", "node ", i, " ", str(m.nodes[i]), " is selected ", picked[0][i] + picked[1][i] == 0 ? "neither inside nor" : "both inside and", " outside");
        }
        c.label(s.empty() ? "no polygon" : s.parts.size() > 1 ? "several polygons" : s.parts[0].holes.empty() ? "one polygon" : "polygon with hole");
        if (in > 0 && out > 0)
        {
            c.nontrivial();
        }
    }

    void points(Case& c)
    {
        reset();
        const int projection = c.weighted({4, 1, 1}) % 3;
        const int id = newState(static_cast<int>(projection));
        const double h = projection == 0 ? std::array<double, 3>{10, 1, 1000}[c.weighted({3, 1, 1})] : 1.0;
        const P lo = projection == 0 ? (c.coin(0.3) ? awayFromMissing({c.sym(50, 500) * h, c.sym(50, 500) * h}, h) : P{0, 0}) : P{c.sym(100, 500), c.sym(50, 500)};
        const P hi{lo.x + h * c.real(0.5, 4, 32), lo.y + h * c.real(0.5, 4, 32)};
        auto s = genPolySet(c, lo, hi);
        s.parts.resize(1);
        const double tol = (projection == 2 ? 0.03 : 1e-9) * s.extent();
        std::vector<P> p;
        std::vector<P> corners;
        s.eachSegment([&](P a, P)
                      { corners.push_back(a); });
        for (int i = c.range(1, 60); i > 0; --i)
        {
            P q{c.real(lo.x - 0.3 * (hi.x - lo.x), hi.x + 0.3 * (hi.x - lo.x), 1000), c.real(lo.y - 0.3 * (hi.y - lo.y), hi.y + 0.3 * (hi.y - lo.y), 1000)};
            if (c.coin(0.3)) // at the height of a corner: the horizontal ray passes exactly through it
            {
                q.y = c.pick(corners).y;
            }
            else if (c.coin(0.15))
            {
                q.x = c.pick(corners).x;
            }
            else if (c.coin(0.15)) // on the extension of a side
            {
                const auto k = c.draw(corners.size());
                const P a = corners[k], b = corners[(k + 1) % corners.size()];
                q = a + (b - a) * (c.coin(0.5) ? 2.0 : -1.0);
            }
            p.push_back(!p.empty() && c.coin(0.08) ? p.back() : notMissing(q));
        }
        if (c.coin(0.03))
        {
            s.parts.clear(); // no polygon: everything is included
        }
        PBT_LOG(c, "projection ", projection, " polygon ", str(s.points()), " points ", str(p));
        c.op("polygon_get_included_points");
        Geo g(s.points()), q(p), r(p.size(), -7.0);
        auto gl = g.list(), ql = q.list(), rl = r.list();
        must(api::mkernel_polygon_get_included_points(id, gl, ql, rl), "polygon_get_included_points");
        int in = 0, out = 0;
        for (size_t i = 0; i < p.size(); ++i)
        {
            ++c.evaluations;
            PBT_CHECK(r.v[i] == 0.0 || r.v[i] == 1.0, "value", "the selection result of point ", i, " is ", r.v[i]);
            if (s.distToBoundary(p[i]) <= tol)
            {
                continue;
            }
            const bool want = s.contains(p[i]);
            (want ? in : out)++;
            PBT_CHECK((r.v[i] == 1.0) == want, "included", "point ", str(p[i]), " is ", want ? "" : "not ", "inside ", str(s.points()), " but reported as ", r.v[i]);
        }
        c.label(s.empty() ? "points, no polygon" : s.parts[0].holes.empty() ? "points, no hole" : "points, holes");
        if (in > 0 && out > 0)
        {
            c.nontrivial();
        }
    }

    /// lattice polygons and lattice points: the outline counts as inside
    void outline(Case& c)
    {
        reset();
        const int id = newState(c.range(0, 1));
        // a rectilinear polygon: a histogram of columns
        const int k = c.range(1, 6);
        std::vector<P> top;
        std::vector<int> heights;
        for (int i = 0; i < k; ++i)
        {
            heights.push_back(c.range(1, 6));
        }
        std::vector<P> ring{{0, 0}};
        for (int i = k; i-- > 0;)
        {
            const P a{static_cast<double>(i + 1), static_cast<double>(heights[static_cast<size_t>(i)])}, b{static_cast<double>(i), a.y};
            if (i == k - 1)
            {
                ring.push_back({a.x, 0});
            }
            if (!(ring.back() == a))
            {
                ring.push_back(a);
            }
            ring.push_back(b);
        }
        ring.push_back(ring[0]);
        const double scale = c.pick(std::vector<double>{1.0, 0.25, 16.0});
        const P org{c.range(-8, 8) * scale, c.range(-8, 8) * scale};
        const bool transpose = c.coin(0.4);
        const int rot = c.range(0, static_cast<int>(ring.size()) - 2);
        auto place = [&](P p)
        {
            if (transpose)
            {
                std::swap(p.x, p.y);
            }
            return org + p * scale;
        };
        std::vector<P> poly;
        for (auto& p : ring)
        {
            poly.push_back(place(p));
        }
        poly.pop_back();
        std::rotate(poly.begin(), poly.begin() + rot, poly.end());
        if (c.coin(0.5))
        {
            std::reverse(poly.begin(), poly.end());
        }
        poly.push_back(poly[0]);
        std::vector<P> p;
        std::vector<int> want;
        for (int i = -2; i <= 2 * k + 2; ++i)
        {
            for (int j = -2; j <= 14; ++j)
            {
                // columns that touch the half-integer lattice point (i/2, j/2)
                bool in = false;
                for (int q = 0; q < k; ++q)
                {
                    in |= i >= 2 * q && i <= 2 * q + 2 && j >= 0 && j <= 2 * heights[static_cast<size_t>(q)];
                }
                p.push_back(place({i * 0.5, j * 0.5}));
                want.push_back(in);
            }
        }
        PBT_LOG(c, "polygon ", str(poly));
        c.op("polygon_get_included_points");
        Geo g(poly), q(p), r(p.size(), -7.0);
        auto gl = g.list(), ql = q.list(), rl = r.list();
        must(api::mkernel_polygon_get_included_points(id, gl, ql, rl), "polygon_get_included_points");
        for (size_t i = 0; i < p.size(); ++i)
        {
            ++c.evaluations;
            PBT_CHECK(r.v[i] == want[i], "outline", "point ", str(p[i]), " of the lattice is ", want[i] ? "inside or on the outline of " : "outside ", str(poly), " but reported as ", r.v[i]);
        }
        c.label("lattice polygon");
        if (k > 1)
        {
            c.nontrivial();
        }
    }

    pbt::Register reg("C09",
                      "a case is non-trivial if at least one node or point was surely inside and one surely outside (lattice facet: the polygon is not a rectangle)",
                      500000, 8000000,
                      {{"nodes", [](Case& c)
                        { nodes(c, 0); },
                        4},
                       {"nodes_spherical", [](Case& c)
                        { nodes(c, c.range(1, 2)); },
                        1},
                       {"points", points, 3},
                       {"outline", outline, 1}});
} // namespace
