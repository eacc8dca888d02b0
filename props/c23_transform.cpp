// C23: rigid transformations and projection conversions move the nodes and nothing else.
#include "../harness/history.hpp"
#include "../harness/topo.hpp"
using namespace mk;

namespace
{
    constexpr double pi = std::numbers::pi;

    /// transverse Mercator by the series of Krueger in the third flattening (accurate to less than a micrometre)
    P utm(P ll, int zone, bool south)
    {
        const double a = 6378137.0, f = 1.0 / 298.257223563, n = f / (2.0 - f);
        const double k0 = 0.9996;
        const double A = a / (1 + n) * (1 + n * n / 4 + n * n * n * n / 64);
        const std::array<double, 4> al{n / 2 - 2 * n * n / 3 + 5 * n * n * n / 16 + 41 * n * n * n * n / 180,
                                       13 * n * n / 48 - 3 * n * n * n / 5 + 557 * n * n * n * n / 1440,
                                       61 * n * n * n / 240 - 103 * n * n * n * n / 140,
                                       49561 * n * n * n * n / 161280};
        const double lon0 = (zone * 6 - 183) * pi / 180.0;
        const double lat = ll.y * pi / 180.0, lon = ll.x * pi / 180.0 - lon0;
        const double e = 2 * std::sqrt(n) / (1 + n);
        const double t = std::sinh(std::atanh(std::sin(lat)) - e * std::atanh(e * std::sin(lat)));
        const double xi = std::atan2(t, std::cos(lon));
        const double eta = std::atanh(std::sin(lon) / std::sqrt(1 + t * t));
        double X = eta, Y = xi;
        for (int j = 1; j <= 4; ++j)
        {
            X += al[static_cast<size_t>(j - 1)] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);
            Y += al[static_cast<size_t>(j - 1)] * std::sin(2 * j * xi) * std::cosh(2 * j * eta);
        }
        return {500000.0 + k0 * A * X, (south ? 1e7 : 0.0) + k0 * A * Y};
    }

    void sameTopology(const Mesh2& a, const Mesh2& b, const char* key)
    {
        PBT_CHECK(a.edges == b.edges, std::string(key) + ":edges", "the edges have changed from ", str(a.edges), " to ", str(b.edges));
        PBT_CHECK(a.nodes.size() == b.nodes.size() && a.numValidNodes == b.numValidNodes && a.numValidEdges == b.numValidEdges, std::string(key) + ":nodes", "the number of nodes or edges has changed");
        for (size_t i = 0; i < a.nodes.size(); ++i)
        {
            PBT_CHECK(a.nodes[i].valid() == b.nodes[i].valid(), std::string(key) + ":valid", "node ", i, " was ", str(a.nodes[i]), " and is ", str(b.nodes[i]));
        }
    }
    /// the same faces, in whatever order and starting from whatever node
    std::multiset<std::vector<int>> faceSet(const Mesh2& m)
    {
        std::multiset<std::vector<int>> r;
        for (auto f : m.faceNodes)
        {
            std::sort(f.begin(), f.end());
            r.insert(f);
        }
        return r;
    }
    /// everything that the state gives for this mesh equals what a fresh state gives for the same mesh
    void likeFresh(Case& c, int id, const Mesh2& m, int projection)
    {
        std::vector<bool> used(m.nodes.size(), false);
        bool all = true;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (!m.edgeValid(e))
            {
                all = false;
                continue;
            }
            used[static_cast<size_t>(m.edges[e][0])] = used[static_cast<size_t>(m.edges[e][1])] = true;
        }
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            all = all && used[i] && m.nodes[i].valid();
        }
        P lo, hi;
        if (!all || !simpleEdges(m) || !extentOf(m, lo, hi))
        {
            return;
        }
        c.label("compared with a fresh state");
        const int fresh = newState(projection);
        must(setMesh2(fresh, m.nodes, m.edges), "mesh2d_set");
        const auto r = getMesh2(fresh);
        PBT_CHECK(r.edges == m.edges, "fresh:edges", "harness: other edges");
        PBT_CHECK(r.faceNodes == m.faceNodes && r.faceEdges == m.faceEdges && r.edgeFaces == m.edgeFaces, "fresh:faces", "the faces differ from those of the same mesh in a fresh state");
        for (size_t i = 0; i < r.faceCentres.size(); ++i)
        {
            PBT_CHECK(sameP(r.faceCentres[i], m.faceCentres[i]), "fresh:face-centre", "the centre of face ", i, " is ", str(m.faceCentres[i]), " but in a fresh state ", str(r.faceCentres[i]));
        }
        for (size_t i = 0; i < r.edgeCentres.size(); ++i)
        {
            PBT_CHECK(sameP(r.edgeCentres[i], m.edgeCentres[i]), "fresh:edge-centre", "the centre of edge ", i, " is ", str(m.edgeCentres[i]), " but in a fresh state ", str(r.edgeCentres[i]));
        }
        auto edgeValues = [&](int state, int what)
        {
            Geo g(m.edges.size(), -5.0);
            auto l = g.list();
            if (what == 0)
            {
                must(api::mkernel_mesh2d_get_orthogonality(state, l), "get_orthogonality");
            }
            else if (what == 1)
            {
                must(api::mkernel_mesh2d_get_smoothness(state, l), "get_smoothness");
            }
            else
            {
                must(api::mkernel_mesh2d_get_property(state, 1, l), "get_property length");
            }
            return g.v;
        };
        for (int what = 0; what < 3; ++what)
        {
            const auto a = edgeValues(id, what), b = edgeValues(fresh, what);
            for (size_t e = 0; e < a.size(); ++e)
            {
                ++c.evaluations;
                PBT_CHECK(sameBits(a[e], b[e]) || std::abs(a[e] - b[e]) <= 1e-9 * (std::abs(a[e]) + std::abs(b[e])), "fresh:edge-value", std::array<const char*, 3>{"orthogonality", "smoothness", "length"}[static_cast<size_t>(what)], " of edge ", e, " is ", a[e], " but in a fresh state ", b[e]);
            }
        }
        for (int k = 0; k < 3; ++k)
        {
            const P q{c.real(lo.x, hi.x, 1021), c.real(lo.y, hi.y, 1019)};
            const double radius = projection == 0 ? len(hi - lo) : len(hi - lo) * 111000.0;
            int na = -2, nb = -2, ea = -2, eb = -2;
            c.op("mesh2d_get_node_index");
            const int ra = api::mkernel_mesh2d_get_node_index(id, q.x, q.y, radius, lo.x - 1, lo.y - 1, hi.x + 1, hi.y + 1, na);
            const int rb = api::mkernel_mesh2d_get_node_index(fresh, q.x, q.y, radius, lo.x - 1, lo.y - 1, hi.x + 1, hi.y + 1, nb);
            PBT_CHECK(ra == rb && na == nb, "fresh:node-index", "the node nearest ", str(q), " is ", na, " (code ", ra, ") but in a fresh state ", nb, " (code ", rb, ")");
            c.op("mesh2d_get_edge");
            const int sa = api::mkernel_mesh2d_get_edge(id, q.x, q.y, lo.x - 1, lo.y - 1, hi.x + 1, hi.y + 1, ea);
            const int sb = api::mkernel_mesh2d_get_edge(fresh, q.x, q.y, lo.x - 1, lo.y - 1, hi.x + 1, hi.y + 1, eb);
            PBT_CHECK(sa == sb && ea == eb, "fresh:edge-index", "the edge nearest ", str(q), " is ", ea, " (code ", sa, ") but in a fresh state ", eb, " (code ", sb, ")");
        }
    }
    void warmUp(Case& c, int id, P lo, P hi)
    {
        // builds the search trees before the nodes move
        if (c.coin(0.5))
        {
            int k = -1;
            const P q{c.real(lo.x, hi.x, 97), c.real(lo.y, hi.y, 89)};
            const double radius = (len(hi - lo) + 1) * 111000.0;
            (void)api::mkernel_mesh2d_get_node_index(id, q.x, q.y, radius, lo.x - 1, lo.y - 1, hi.x + 1, hi.y + 1, k);
            (void)api::mkernel_mesh2d_get_edge(id, q.x, q.y, lo.x - 1, lo.y - 1, hi.x + 1, hi.y + 1, k);
        }
    }

    void rigid(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({9, 1}));
        const int id = newState(projection);
        MeshOpts o;
        o.projection = projection;
        const auto g = genMesh(c, o);
        logMesh(c, g);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        runHistory(c, id, projection, {3, 2, 1}, 150);
        auto m = getMesh2(id);
        P lo, hi;
        if (!extentOf(m, lo, hi) || !m.validNodeBox(1e7))
        {
            throw pbt::Discard{"degenerate mesh"};
        }
        const int steps = c.range(1, 4);
        for (int s = 0; s < steps; ++s)
        {
            warmUp(c, id, lo, hi);
            const bool turn = c.coin(0.6);
            P centre{c.real(lo.x, hi.x, 64), c.real(lo.y, hi.y, 64)};
            if (c.coin(0.3))
            {
                centre = {c.sym(1000.0, 128), c.sym(1000.0, 128)};
            }
            const double theta = std::array<double, 4>{90.0, 180.0, c.sym(360.0, 1440), c.sym(1080.0, 1000)}[c.weighted({2, 1, 4, 1})];
            const P shift{c.sym(500.0, 4096), c.sym(500.0, 4096)};
            int rc;
            if (turn)
            {
                PBT_LOG(c, "rotate around ", str(centre), " by ", theta);
                c.op("mesh2d_rotate");
                rc = api::mkernel_mesh2d_rotate(id, centre.x, centre.y, theta);
            }
            else
            {
                PBT_LOG(c, "translate by ", str(shift));
                c.op("mesh2d_translate");
                rc = api::mkernel_mesh2d_translate(id, shift.x, shift.y);
            }
            const auto after = getMesh2(id);
            sameTopology(m, after, turn ? "rotate" : "translate");
            if (projection != 0)
            {
                PBT_CHECK(rc != 0, "rigid:spherical", "a spherical mesh can be rotated or translated");
                for (size_t i = 0; i < m.nodes.size(); ++i)
                {
                    PBT_CHECK(sameP(m.nodes[i], after.nodes[i]), "rigid:rejected", "the rejected call has moved node ", i);
                }
                c.label("rejected for a spherical mesh");
                return;
            }
            must(rc, turn ? "mesh2d_rotate" : "mesh2d_translate");
            c.nontrivial();
            c.label(turn ? "rotation" : "translation");
            bool hitsMissing = false;
            double scale = std::max({std::abs(lo.x), std::abs(lo.y), std::abs(hi.x), std::abs(hi.y), std::abs(centre.x), std::abs(centre.y), std::abs(shift.x), std::abs(shift.y), 1.0});
            const double cs = std::cos(theta * pi / 180.0), sn = std::sin(theta * pi / 180.0);
            for (size_t i = 0; i < m.nodes.size(); ++i)
            {
                if (!m.nodes[i].valid())
                {
                    PBT_CHECK(sameP(m.nodes[i], after.nodes[i]), "rigid:missing", "the deleted node ", i, " has become ", str(after.nodes[i]));
                    continue;
                }
                P e = m.nodes[i] + shift;
                if (turn)
                {
                    const P d = m.nodes[i] - centre;
                    e = {centre.x + cs * d.x - sn * d.y, centre.y + sn * d.x + cs * d.y};
                }
                if (std::abs(e.x + 999.0) < 1.0 || std::abs(e.y + 999.0) < 1.0)
                {
                    hitsMissing = true; // the library reads such coordinates as missing
                    continue;
                }
                ++c.evaluations;
                PBT_CHECK(dist(e, after.nodes[i]) <= 1e-10 * scale, turn ? "rotate:node" : "translate:node", "node ", i, " at ", str(m.nodes[i]), " goes to ", str(after.nodes[i]), " instead of ", str(e));
            }
            if (hitsMissing)
            {
                throw pbt::Discard{"a coordinate becomes the missing value"};
            }
            const size_t then = c.weighted({3, 1, 1}); // nothing, undo, undo and redo
            if (then > 0)
            {
                bool done = false;
                int where = -1;
                c.op("undo_state");
                must(api::mkernel_undo_state(done, where), "undo_state");
                if (c.coin(0.5) || then == 1)
                {
                    const auto back = getMesh2(id);
                    sameTopology(m, back, "undo");
                    for (size_t i = 0; i < m.nodes.size(); ++i)
                    {
                        PBT_CHECK(sameP(m.nodes[i], back.nodes[i]), "rigid:undo", "undo brings node ", i, " to ", str(back.nodes[i]), " instead of ", str(m.nodes[i]));
                    }
                    if (then == 1)
                    {
                        likeFresh(c, id, back, 0);
                        return;
                    }
                    warmUp(c, id, lo, hi);
                }
                c.op("redo_state");
                must(api::mkernel_redo_state(done, where), "redo_state");
                const auto forth = getMesh2(id);
                sameTopology(m, forth, "redo");
                for (size_t i = 0; i < m.nodes.size(); ++i)
                {
                    PBT_CHECK(sameP(after.nodes[i], forth.nodes[i]), "rigid:redo", "redo brings node ", i, " to ", str(forth.nodes[i]), " instead of ", str(after.nodes[i]));
                }
            }
            likeFresh(c, id, after, 0);
            m = after;
            extentOf(m, lo, hi);
        }
    }

    void projection(Case& c)
    {
        reset();
        const int zone = c.range(1, 60);
        const bool south = c.coin(0.3);
        const std::string text = pbt::cat("+proj=utm +zone=", zone, south ? " +south" : "", c.coin(0.5) ? " +datum=WGS84 +units=m +no_defs" : "");
        const bool fromSpherical = c.coin(0.5);
        MeshOpts o;
        o.projection = 1;
        o.randomOrigin = false;
        o.maxN = 5;
        o.origin = {zone * 6 - 183 + c.sym(2.0, 64), (south ? -1 : 1) * c.real(1.0, 60.0, 512)};
        auto g = genMesh(c, o);
        // within a few degrees of the central meridian, on one side of the equator
        for (auto& p : g.nodes)
        {
            const double dx = p.x - (zone * 6 - 183), y = south ? -p.y : p.y;
            if (std::abs(dx) > 4.0 || y < 0.05 || y > 70.0 || std::abs(p.x) > 179.5)
            {
                throw pbt::Discard{"outside the zone"};
            }
        }
        logMesh(c, g);
        PBT_LOG(c, text, fromSpherical ? " from spherical" : " from cartesian");
        const int id = newState(fromSpherical ? 1 : 0);
        std::vector<P> nodes = g.nodes;
        if (!fromSpherical)
        {
            for (auto& p : nodes)
            {
                p = utm(p, zone, south);
            }
        }
        must(setMesh2(id, nodes, g.edges), "mesh2d_set");
        auto m = getMesh2(id);
        if (c.coin(0.3) && m.numValidNodes > 2)
        {
            c.op("mesh2d_delete_node");
            must(api::mkernel_mesh2d_delete_node(id, static_cast<int>(c.draw(m.nodes.size()))), "mesh2d_delete_node");
            m = getMesh2(id);
        }
        P lo, hi;
        if (!extentOf(m, lo, hi))
        {
            throw pbt::Discard{"degenerate mesh"};
        }
        warmUp(c, id, lo, hi);
        int current = fromSpherical ? 1 : 0;
        const auto first = m;
        const int steps = c.range(1, 3);
        for (int s = 0; s < steps; ++s)
        {
            const int target = c.weighted({8, 1, 1}) == 0 ? 1 - current : (c.coin(0.5) ? current : 2);
            PBT_LOG(c, "convert to ", target);
            c.op("mesh2d_convert_projection");
            const int rc = api::mkernel_mesh2d_convert_projection(id, target, text.c_str());
            const auto after = getMesh2(id);
            sameTopology(m, after, "projection");
            int now = -1;
            must(api::mkernel_get_projection(id, now), "get_projection");
            if (target == current)
            {
                must(rc, "mesh2d_convert_projection");
            }
            if (target == 2 || target == current)
            {
                if (target == 2 && rc == 0)
                {
                    throw pbt::Discard{"accepted spherical accurate"};
                }
                PBT_CHECK(now == current, "projection:state", "the projection has become ", now);
                for (size_t i = 0; i < m.nodes.size(); ++i)
                {
                    PBT_CHECK(sameP(m.nodes[i], after.nodes[i]), "projection:noop", "a conversion without effect has moved node ", i);
                }
                c.label("no conversion");
                continue;
            }
            must(rc, "mesh2d_convert_projection");
            PBT_CHECK(now == target, "projection:state", "the projection is ", now, " after the conversion to ", target);
            c.nontrivial();
            c.label(target == 1 ? "to spherical" : "to cartesian");
            for (size_t i = 0; i < m.nodes.size(); ++i)
            {
                if (!m.nodes[i].valid())
                {
                    PBT_CHECK(sameP(m.nodes[i], after.nodes[i]), "projection:missing", "the deleted node ", i, " has become ", str(after.nodes[i]));
                    continue;
                }
                ++c.evaluations;
                const P ll = target == 1 ? after.nodes[i] : m.nodes[i];
                const P xy = target == 1 ? m.nodes[i] : after.nodes[i];
                PBT_CHECK(dist(utm(ll, zone, south), xy) < 0.05, "projection:node", "node ", i, ": ", str(ll), " (longitude, latitude) corresponds to ", str(utm(ll, zone, south)), " and not to ", str(xy));
                if (target == (fromSpherical ? 1 : 0))
                {
                    PBT_CHECK(dist(first.nodes[i], after.nodes[i]) < (target == 1 ? 1e-8 : 1e-3), "projection:round-trip", "node ", i, " at ", str(first.nodes[i]), " comes back as ", str(after.nodes[i]));
                }
            }
            const size_t then = c.weighted({3, 1, 1}); // nothing, undo, undo and redo
            if (then > 0)
            {
                bool done = false;
                int where = -1;
                c.op("undo_state");
                must(api::mkernel_undo_state(done, where), "undo_state");
                must(api::mkernel_get_projection(id, now), "get_projection");
                PBT_CHECK(now == current, "projection:undo-state", "the projection is ", now, " after undoing the conversion from ", current);
                const auto back = getMesh2(id);
                sameTopology(m, back, "undo");
                for (size_t i = 0; i < m.nodes.size(); ++i)
                {
                    PBT_CHECK(sameP(m.nodes[i], back.nodes[i]), "projection:undo", "undo brings node ", i, " to ", str(back.nodes[i]), " instead of ", str(m.nodes[i]));
                }
                if (then == 1)
                {
                    likeFresh(c, id, back, current);
                    return;
                }
                c.op("redo_state");
                must(api::mkernel_redo_state(done, where), "redo_state");
                must(api::mkernel_get_projection(id, now), "get_projection");
                PBT_CHECK(now == target, "projection:redo-state", "the projection is ", now, " after redoing the conversion to ", target);
                const auto forth = getMesh2(id);
                for (size_t i = 0; i < m.nodes.size(); ++i)
                {
                    PBT_CHECK(sameP(after.nodes[i], forth.nodes[i]), "projection:redo", "redo brings node ", i, " to ", str(forth.nodes[i]), " instead of ", str(after.nodes[i]));
                }
            }
            likeFresh(c, id, after, target);
            PBT_CHECK(faceSet(after) == faceSet(m), "projection:faces", "the faces have changed");
            m = after;
            current = target;
        }
    }

    pbt::Register reg("C23",
                      "a case is non-trivial if a rotation, translation or conversion took place",
                      120000, 3000000,
                      {{"rigid", rigid, 3},
                       {"projection", projection, 2}});
} // namespace
