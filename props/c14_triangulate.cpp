// C14: triangular meshes from samples and polygons, and global meshes.
#include "../harness/gen.hpp"
#include "../harness/geo.hpp"
#include <memory>

#include <MeshKernel/Polygons.hpp>

using namespace mk;

namespace
{
    constexpr double deg = std::numbers::pi / 180.0;

    struct Tri
    {
        std::array<int, 3> v;
        bool definite;
    };

    /// all Delaunay triangles of the points; the ones with four (almost) cocircular points are not definite
    std::vector<Tri> delaunay(const std::vector<P>& p)
    {
        const int n = static_cast<int>(p.size());
        std::vector<Tri> r;
        double scale = 0;
        for (auto& q : p)
        {
            scale = std::max({scale, std::abs(q.x - p[0].x), std::abs(q.y - p[0].y)});
        }
        for (int i = 0; i < n; ++i)
        {
            for (int j = i + 1; j < n; ++j)
            {
                for (int k = j + 1; k < n; ++k)
                {
                    const P a = p[static_cast<size_t>(i)], b = p[static_cast<size_t>(j)], q = p[static_cast<size_t>(k)];
                    const P u = b - a, w = q - a;
                    const double d = 2.0 * cross(u, w);
                    const double size2 = std::max({dot(u, u), dot(w, w), dot(u - w, u - w)});
                    if (std::abs(d) <= 1e-9 * size2)
                    {
                        continue; // too flat: angles below any bound
                    }
                    const double lu = dot(u, u), lw = dot(w, w);
                    const P o{(w.y * lu - u.y * lw) / d, (u.x * lw - w.x * lu) / d}; // relative to a
                    const double r2 = dot(o, o);
                    // the rounding of the centre grows with the flatness of the triangle and with the coordinates
                    const double tol = (1e-9 + 1e-13 * size2 / std::abs(d)) * r2 * std::max(1.0, size2 / std::abs(d));
                    bool ok = true, definite = true;
                    for (int m = 0; m < n && ok; ++m)
                    {
                        if (m == i || m == j || m == k)
                        {
                            continue;
                        }
                        const P s = p[static_cast<size_t>(m)] - a - o;
                        const double t = dot(s, s);
                        if (t < r2 - tol)
                        {
                            ok = false;
                        }
                        else if (t < r2 + tol)
                        {
                            definite = false;
                        }
                    }
                    if (ok)
                    {
                        r.push_back({{i, j, k}, definite});
                    }
                }
            }
        }
        return r;
    }

    /// 1 good, 0 bad, -1 too close to call: all angles within 5 and 150 degrees
    int angles(P a, P b, P c, int projection)
    {
        const std::array<P, 3> t{a, b, c};
        double worst = 1e300;
        for (size_t i = 0; i < 3; ++i)
        {
            const P o = t[i], p = t[(i + 1) % 3], q = t[(i + 2) % 3];
            P u = p - o, w = q - o;
            if (projection == 1)
            {
                u.x *= std::cos(0.5 * (o.y + p.y) * deg);
                w.x *= std::cos(0.5 * (o.y + q.y) * deg);
            }
            const double phi = std::atan2(std::abs(cross(u, w)), dot(u, w)) / deg;
            worst = std::min({worst, phi - 5.0, 150.0 - phi});
        }
        return worst > 1e-6 ? 1 : (worst < -1e-6 ? 0 : -1);
    }

    using EdgeSet = std::set<std::array<int, 2>>;
    std::array<int, 2> key(int a, int b) { return {std::min(a, b), std::max(a, b)}; }

    /// checks that the mesh consists of the edges of the good Delaunay triangles of the points for which `in` does not say no
    template <typename In>
    size_t checkTriangulation(Case& c, const Mesh2& m, size_t firstNode, size_t firstEdge, const std::vector<P>& pts, int projection, In in)
    {
        // first occurrence of each position: the library may use any of the duplicates
        EdgeSet must, may;
        size_t definiteTriangles = 0;
        std::map<std::pair<double, double>, int> index;
        std::vector<P> unique;
        for (auto& p : pts)
        {
            if (index.emplace(std::pair{p.x, p.y}, static_cast<int>(unique.size())).second)
            {
                unique.push_back(p);
            }
        }
        std::vector<std::array<int, 3>> sure;
        for (auto& t : delaunay(unique))
        {
            const P a = unique[static_cast<size_t>(t.v[0])], b = unique[static_cast<size_t>(t.v[1])], q = unique[static_cast<size_t>(t.v[2])];
            const int ok = angles(a, b, q, projection);
            const int inside = in((a + b + q) * (1.0 / 3.0));
            if (ok == 0 || inside == 0)
            {
                continue;
            }
            const bool d = t.definite && ok == 1 && inside == 1;
            definiteTriangles += d ? 1 : 0;
            for (size_t i = 0; i < 3; ++i)
            {
                const auto e = key(t.v[i], t.v[(i + 1) % 3]);
                may.insert(e);
                if (d)
                {
                    must.insert(e);
                }
            }
            if (d)
            {
                sure.push_back(t.v);
            }
        }
        EdgeSet actual;
        std::set<int> used;
        for (size_t i = firstNode; i < m.nodes.size(); ++i)
        {
            const auto it = index.find({m.nodes[i].x, m.nodes[i].y});
            PBT_CHECK(it != index.end(), "node-not-a-point", "node ", i, " ", str(m.nodes[i]), " is none of the points");
            PBT_CHECK(used.insert(it->second).second, "node-twice", "point ", str(m.nodes[i]), " occurs twice in the mesh");
        }
        for (size_t e = firstEdge; e < m.edges.size(); ++e)
        {
            std::array<int, 2> k{};
            for (size_t s = 0; s < 2; ++s)
            {
                PBT_CHECK(m.edges[e][s] >= static_cast<int>(firstNode), "edge-to-other-mesh", "edge ", e, " of the triangulation uses node ", m.edges[e][s]);
                const P p = m.nodes[static_cast<size_t>(m.edges[e][s])];
                k[s] = index.at({p.x, p.y});
            }
            const auto kk = key(k[0], k[1]);
            PBT_CHECK(actual.insert(kk).second, "edge-twice", "edge ", e, " ", str(unique[static_cast<size_t>(kk[0])]), "-", str(unique[static_cast<size_t>(kk[1])]), " occurs twice");
            PBT_CHECK(may.contains(kk), "edge-unexpected", "edge ", str(unique[static_cast<size_t>(kk[0])]), "-", str(unique[static_cast<size_t>(kk[1])]), " is not an edge of a Delaunay triangle with angles between 5 and 150 degrees");
        }
        for (auto& e : must)
        {
            PBT_CHECK(actual.contains(e), "edge-missing", "edge ", str(unique[static_cast<size_t>(e[0])]), "-", str(unique[static_cast<size_t>(e[1])]), " of a Delaunay triangle is missing");
        }
        for (size_t i = firstNode; i < m.nodes.size(); ++i)
        {
            const int k = index.at({m.nodes[i].x, m.nodes[i].y});
            PBT_CHECK(std::any_of(actual.begin(), actual.end(), [k](auto& e)
                                  { return e[0] == k || e[1] == k; }),
                      "node-unconnected", "node ", i, " ", str(m.nodes[i]), " of the triangulation has no edge");
        }
        // crossing edges
        const std::vector<std::array<int, 2>> list(actual.begin(), actual.end());
        if (list.size() < 150)
        {
            for (size_t i = 0; i < list.size(); ++i)
            {
                for (size_t j = i + 1; j < list.size(); ++j)
                {
                    auto at = [&](size_t a, size_t b)
                    { return unique[static_cast<size_t>(list[a][b])]; };
                    PBT_CHECK(!properCross(at(i, 0), at(i, 1), at(j, 0), at(j, 1)), "edges-cross", "edges ", str(at(i, 0)), "-", str(at(i, 1)), " and ", str(at(j, 0)), "-", str(at(j, 1)), " cross");
                }
            }
        }
        // every triangle is a face
        std::set<std::array<std::pair<double, double>, 3>> faces;
        for (auto& f : m.faceNodes)
        {
            if (f.size() == 3)
            {
                std::array<std::pair<double, double>, 3> k;
                for (size_t i = 0; i < 3; ++i)
                {
                    k[i] = {m.nodes[static_cast<size_t>(f[i])].x, m.nodes[static_cast<size_t>(f[i])].y};
                }
                std::sort(k.begin(), k.end());
                faces.insert(k);
            }
        }
        for (auto& t : sure)
        {
            std::array<std::pair<double, double>, 3> k;
            for (size_t i = 0; i < 3; ++i)
            {
                k[i] = {unique[static_cast<size_t>(t[i])].x, unique[static_cast<size_t>(t[i])].y};
            }
            std::sort(k.begin(), k.end());
            PBT_CHECK(faces.contains(k), "face-missing", "the Delaunay triangle ", k[0].first, ",", k[0].second, " ", k[1].first, ",", k[1].second, " ", k[2].first, ",", k[2].second, " is not a face");
        }
        ++c.evaluations;
        return definiteTriangles;
    }

    /// an existing mesh that has to stay as it is in front of the new one
    struct Existing
    {
        std::vector<P> nodes;
        std::vector<std::array<int, 2>> edges;
    };
    Existing genExisting(Case& c, int id, P away, double h)
    {
        Existing e;
        if (!c.coin(0.3))
        {
            return e;
        }
        const int n = c.range(1, 3);
        for (int j = 0; j < 2; ++j)
        {
            for (int i = 0; i <= n; ++i)
            {
                e.nodes.push_back(notMissing(P{away.x + h * i, away.y + h * j}));
            }
        }
        for (int i = 0; i <= n; ++i)
        {
            e.edges.push_back({i, n + 1 + i});
            if (i < n)
            {
                e.edges.push_back({i, i + 1});
                e.edges.push_back({n + 1 + i, n + 2 + i});
            }
        }
        must(setMesh2(id, e.nodes, e.edges), "mesh2d_set");
        c.label("joined to an existing mesh");
        return e;
    }
    void checkExisting(const Existing& e, const Mesh2& m)
    {
        PBT_CHECK(m.nodes.size() >= e.nodes.size() && m.edges.size() >= e.edges.size(), "existing-lost", "the mesh has fewer nodes or edges than before");
        for (size_t i = 0; i < e.nodes.size(); ++i)
        {
            PBT_CHECK(sameP(e.nodes[i], m.nodes[i]), "existing-node", "node ", i, " of the existing mesh changed from ", str(e.nodes[i]), " to ", str(m.nodes[i]));
        }
        for (size_t i = 0; i < e.edges.size(); ++i)
        {
            PBT_CHECK(key(e.edges[i][0], e.edges[i][1]) == key(m.edges[i][0], m.edges[i][1]), "existing-edge", "edge ", i, " of the existing mesh changed");
        }
    }

    void samples(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({3, 1}));
        const int id = newState(projection);
        const double h = projection == 0 ? std::array<double, 4>{10.0, 1.0, 1000.0, 0.01}[c.weighted({4, 2, 1, 1})] : c.real(0.01, 0.5, 32);
        const P org = projection == 0 ? P{c.coin(0.5) ? c.sym(50.0, 100) * h : 0.0, c.coin(0.5) ? c.sym(50.0, 100) * h : 0.0} : P{c.sym(100.0, 200), c.sym(60.0, 100)};
        const int how = static_cast<int>(c.weighted({4, 3, 2, 1}));
        const int n = c.range(how == 3 ? 0 : 3, how == 0 ? 24 : 14);
        std::vector<P> pts;
        for (int i = 0; i < n; ++i)
        {
            P p;
            if (how == 0) // anywhere
            {
                p = {c.real(0.0, 6.0, 100003), c.real(0.0, 6.0, 100003)};
            }
            else if (how == 1) // a jittered lattice: mostly well shaped triangles
            {
                p = {i % 4 + 0.5 * (i / 4 % 2) + c.sym(0.2, 997), 0.87 * (i / 4) + c.sym(0.2, 997)};
            }
            else if (how == 2) // an exact lattice, with cocircular and duplicate points
            {
                p = {static_cast<double>(c.range(0, 4)), static_cast<double>(c.range(0, 4))};
            }
            else // close to a line
            {
                p = {c.real(0.0, 6.0, 100), c.coin(0.3) ? c.real(0.0, 0.5, 100) : 0.0};
            }
            pts.push_back(notMissing(org + p * h));
        }
        if (c.coin(0.3))
        {
            c.shuffle(pts);
        }
        if (c.coin(0.15) && !pts.empty())
        {
            pts.insert(pts.begin() + static_cast<long>(c.draw(pts.size() + 1)), pts[c.draw(pts.size())]);
            c.label("duplicate sample");
        }
        const Existing e = genExisting(c, id, org + P{-9.0 * h, 0.0}, h);
        PBT_LOG(c, "projection=", projection, " samples=", str(pts), " existing nodes=", e.nodes.size());
        Geo g(pts);
        auto l = g.list();
        c.op("mesh2d_make_triangular_mesh_from_samples");
        const int rc = api::mkernel_mesh2d_make_triangular_mesh_from_samples(id, l);
        std::set<std::pair<double, double>> distinct;
        for (auto& p : pts)
        {
            distinct.insert({p.x, p.y});
        }
        bool flat = true;
        for (size_t i = 0; i < pts.size() && flat; ++i)
        {
            for (size_t j = i + 1; j < pts.size() && flat; ++j)
            {
                for (size_t k = j + 1; k < pts.size() && flat; ++k)
                {
                    flat = std::abs(cross(pts[j] - pts[i], pts[k] - pts[i])) <= 1e-9 * std::max(dot(pts[j] - pts[i], pts[j] - pts[i]), dot(pts[k] - pts[i], pts[k] - pts[i]));
                }
            }
        }
        if (flat)
        {
            // no triangle at all: either an error or nothing added
            c.label("no triangle possible");
            const Mesh2 m = getMesh2(id);
            checkExisting(e, m);
            PBT_CHECK(m.edges.size() == e.edges.size(), "edges-from-nothing", "edges were added for points that form no triangle");
            ++c.evaluations;
            return;
        }
        must(rc, "mesh2d_make_triangular_mesh_from_samples");
        const Mesh2 m = getMesh2(id);
        checkExisting(e, m);
        const size_t k = checkTriangulation(c, m, e.nodes.size(), e.edges.size(), pts, projection, [](P)
                                            { return 1; });
        c.label(how == 0 ? "random points" : (how == 1 ? "jittered lattice" : (how == 2 ? "exact lattice" : "close to a line")));
        if (k >= 3)
        {
            c.nontrivial();
        }
    }

    void polygon(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({3, 1}));
        const int id = newState(projection);
        const double r = projection == 0 ? std::array<double, 4>{10.0, 1.0, 1000.0, 0.001}[c.weighted({4, 1, 1, 1})] : c.real(0.05, 1.0, 32);
        const P org = projection == 0 ? P{c.coin(0.5) ? c.sym(50.0, 100) * r : 0.0, c.coin(0.5) ? c.sym(50.0, 100) * r : 0.0} : P{c.sym(100.0, 200), c.sym(50.0, 100)};
        // corner points, then edges cut in pieces of about the same length
        const int corners = c.range(3, 6);
        std::vector<P> corner;
        const double phase = c.real(0.0, 1.0, 64);
        for (int i = 0; i < corners; ++i)
        {
            const double a = 2.0 * std::numbers::pi * (i + phase + c.real(-0.25, 0.25, 32)) / corners;
            corner.push_back(org + P{std::cos(a), std::sin(a)} * (r * c.real(0.5, 1.0, 64)));
        }
        const double piece = r * c.real(0.25, 0.9, 64);
        std::vector<P> poly;
        for (size_t i = 0; i < corner.size(); ++i)
        {
            const P a = corner[i], b = corner[(i + 1) % corner.size()];
            const int k = std::max(1, static_cast<int>(std::lround(dist(a, b) / piece)));
            for (int j = 0; j < k; ++j)
            {
                poly.push_back(notMissing(a + (b - a) * (static_cast<double>(j) / k)));
            }
        }
        if (poly.size() < 4)
        {
            throw pbt::Discard{"too few points"};
        }
        if (c.coin(0.4))
        {
            std::reverse(poly.begin(), poly.end());
        }
        std::vector<P> hole;
        if (c.coin(0.25))
        {
            const P hc = org + P{c.sym(0.1, 16), c.sym(0.1, 16)} * r;
            const int k = c.range(3, 5);
            for (int i = 0; i < k; ++i)
            {
                const double a = 2.0 * std::numbers::pi * i / k;
                hole.push_back(notMissing(hc + P{std::cos(a), std::sin(a)} * (0.25 * r)));
            }
            bool fits = true;
            for (auto& q : hole)
            {
                fits = fits && inside(q, poly) && boundaryDist(q, poly) > 0.02 * r;
            }
            if (!fits)
            {
                hole.clear();
            }
        }
        Geo g;
        std::vector<meshkernel::Point> mp;
        auto add = [&](P p)
        {
            g.add(p);
            mp.push_back({p.x, p.y});
        };
        for (auto& p : poly)
        {
            add(p);
        }
        add(poly.front());
        if (!hole.empty())
        {
            add({innerSep, innerSep});
            for (auto& p : hole)
            {
                add(p);
            }
            add(hole.front());
            c.label("with a hole");
        }
        const Existing e = genExisting(c, id, org + P{-9.0 * r, 0.0}, r);
        PBT_LOG(c, "projection=", projection, " polygon=", str(g.pts()), " existing nodes=", e.nodes.size());
        std::vector<std::vector<meshkernel::Point>> generated;
        const meshkernel::Polygons polygons(mp, static_cast<meshkernel::Projection>(projection));
        c.op("ComputePointsInPolygons");
        generated = polygons.ComputePointsInPolygons();
        PBT_CHECK(generated.size() == 1, "points-per-polygon", "points for ", generated.size(), " polygons");
        std::vector<P> pts;
        for (auto& p : generated[0])
        {
            pts.push_back({p.x, p.y});
        }
        const double tol = 1e-6 * r;
        for (auto& p : pts)
        {
            const bool in = inside(p, poly) || boundaryDist(p, poly) < tol;
            const bool inHole = !hole.empty() && inside(p, hole) && boundaryDist(p, hole) > tol;
            PBT_CHECK(in && !inHole, "point-outside", "the generated point ", str(p), " is not in the polygon");
        }
        for (auto& q : poly)
        {
            PBT_CHECK(std::any_of(pts.begin(), pts.end(), [&](P p)
                                  { return sameP(p, q); }),
                      "vertex-missing", "the vertex ", str(q), " of the polygon is not among the points");
        }
        if (pts.size() > 70)
        {
            throw pbt::Discard{"many points"};
        }
        auto l = g.list();
        c.op("mesh2d_make_triangular_mesh_from_polygon");
        must(api::mkernel_mesh2d_make_triangular_mesh_from_polygon(id, l), "mesh2d_make_triangular_mesh_from_polygon");
        const Mesh2 m = getMesh2(id);
        checkExisting(e, m);
        const size_t k = checkTriangulation(c, m, e.nodes.size(), e.edges.size(), pts, projection, [&](P q)
                                            {
            if (boundaryDist(q, poly) < tol || (!hole.empty() && boundaryDist(q, hole) < tol))
            {
                return -1;
            }
            return inside(q, poly) && (hole.empty() || !inside(q, hole)) ? 1 : 0; });
        // the size of the triangles follows the length of the edges of the polygon
        double perimeter = 0;
        for (size_t i = 0; i < poly.size(); ++i)
        {
            perimeter += dist(poly[i], poly[(i + 1) % poly.size()]);
        }
        const double average = perimeter / static_cast<double>(poly.size());
        if (projection == 0)
        {
            // triangles are not larger than an equilateral triangle with the average edge of the polygon, but for the slivers left out
            double longest = 0;
            for (size_t i = e.edges.size(); i < m.edges.size(); ++i)
            {
                longest = std::max(longest, dist(m.nodes[static_cast<size_t>(m.edges[i][0])], m.nodes[static_cast<size_t>(m.edges[i][1])]));
            }
            double longestOfPolygon = 0;
            for (size_t i = 0; i < poly.size(); ++i)
            {
                longestOfPolygon = std::max(longestOfPolygon, dist(poly[i], poly[(i + 1) % poly.size()]));
            }
            const double expected = std::abs(signedArea(poly)) / (0.25 * std::sqrt(3.0) * average * average);
            PBT_LOG(c, "longest edge ", longest / average, " x the average polygon edge, ", pts.size(), " points, ", k, " triangles, expected about ", expected, " longest polygon edge ", longestOfPolygon / average);
            PBT_CHECK(longest <= 3.0 * std::max(average, longestOfPolygon), "triangles-too-large", "the longest edge of the mesh is ", longest, ", the average edge of the polygon is ", average);
            if (hole.empty() && expected > 10.0)
            {
                PBT_CHECK(static_cast<double>(m.faceNodes.size()) >= 0.7 * expected, "triangles-too-few", "the mesh has ", m.faceNodes.size(), " triangles, about ", expected, " were expected");
                PBT_CHECK(static_cast<double>(m.faceNodes.size()) <= 3.0 * expected, "triangles-too-many", "the mesh has ", m.faceNodes.size(), " triangles, about ", expected, " were expected");
            }
        }
        if (pts.size() > poly.size())
        {
            c.label("points generated inside");
        }
        if (k >= 3)
        {
            c.nontrivial();
        }
    }

    void global(Case& c)
    {
        reset();
        const int projection = c.coin(0.2) ? 2 : 1;
        const int id = newState(projection);
        const int lon = c.range(3, c.coin(0.3) ? 60 : 30);
        const int lat = c.range(1, c.coin(0.1) ? 40 : 10);
        PBT_LOG(c, "projection=", projection, " longitude=", lon, " latitude=", lat);
        if (c.coin(0.05))
        {
            const int bad = -c.range(0, 5);
            const bool first = c.coin();
            c.op("mesh2d_make_global");
            PBT_CHECK(api::mkernel_mesh2d_make_global(id, first ? bad : lon, first ? lat : bad) != 0, "global-accepts-nonpositive", "a number of nodes of ", bad, " is accepted");
            PBT_CHECK(getMesh2(id).nodes.empty(), "global-error-adds", "an error added nodes");
            c.label("number of nodes not positive");
            ++c.evaluations;
            return;
        }
        c.op("mesh2d_make_global");
        must(api::mkernel_mesh2d_make_global(id, lon, lat), "mesh2d_make_global");
        const Mesh2 m = getMesh2(id);
        // the rows of square cells up to the first row near the pole (last row or coarsened row)
        const double step = 360.0 / lon;
        std::vector<double> rows{0.0};
        bool reachesEnd = false;
        while (static_cast<int>(rows.size()) <= lat)
        {
            double lo = 0.0, hi = step;
            for (int it = 0; it < 100; ++it)
            {
                const double mid = 0.5 * (lo + hi);
                (mid < step * std::cos((rows.back() + 0.5 * mid) * deg) ? lo : hi) = mid;
            }
            if (rows.back() + 1.5 * lo > 89.9 || lo * deg * 6378137.0 < 30100.0)
            {
                reachesEnd = true;
                break;
            }
            rows.push_back(rows.back() + lo);
        }
        const double tolLat = 1e-3 * step;
        auto wrap = [](double x)
        { return x > 180.0 - 1e-6 ? x - 360.0 : x; };
        std::map<std::pair<long, long>, int> at;
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            const P p = m.nodes[i];
            PBT_CHECK(p.x >= -180.0 - 1e-6 && p.x <= 180.0 + 1e-6 && p.y >= -90.0 - 1e-6 && p.y <= 90.0 + 1e-6, "global-range", "node ", i, " is at ", str(p));
            // node of a regular row?
            for (size_t k = 0; k < rows.size(); ++k)
            {
                for (int sign : {1, -1})
                {
                    if (std::abs(p.y - sign * rows[k]) < tolLat && !(k == 0 && sign < 0))
                    {
                        const double col = (wrap(p.x) + 180.0) / step;
                        PBT_CHECK(std::abs(col - std::round(col)) < 1e-6, "global-longitude", "node ", i, " at ", str(p), " is not on a multiple of the longitude step");
                        PBT_CHECK(at.emplace(std::pair{sign * static_cast<long>(k), std::lround(col)}, static_cast<int>(i)).second, "global-node-twice", "two nodes at ", str(p));
                    }
                }
            }
        }
        const long top = static_cast<long>(rows.size()) - 1;
        for (long k = -top; k <= top; ++k)
        {
            for (long j = 0; j < lon; ++j)
            {
                PBT_CHECK(at.contains({k, j}), "global-node-missing", "there is no node in row ", k, " and column ", j);
            }
        }
        std::set<std::vector<int>> faces;
        size_t regularFaces = 0;
        for (auto f : m.faceNodes)
        {
            std::sort(f.begin(), f.end());
            PBT_CHECK(faces.insert(f).second, "global-face-twice", "two faces have the same nodes");
        }
        for (long k = -top; k < top; ++k)
        {
            for (long j = 0; j < lon; ++j)
            {
                std::vector<int> f{at[{k, j}], at[{k, (j + 1) % lon}], at[{k + 1, j}], at[{k + 1, (j + 1) % lon}]};
                std::sort(f.begin(), f.end());
                PBT_CHECK(faces.contains(f), "global-face-missing", "there is no cell in row ", k, " and column ", j);
                ++regularFaces;
            }
        }
        if (!reachesEnd)
        {
            PBT_CHECK(m.faceNodes.size() == regularFaces && m.nodes.size() == at.size() && m.edges.size() == static_cast<size_t>(lon * ((2 * top + 1) + 2 * top)), "global-extra", "the mesh has ", m.nodes.size(), " nodes, ", m.edges.size(), " edges and ", m.faceNodes.size(), " cells");
        }
        else
        {
            c.label("up to the last rows before the poles");
        }
        // symmetric about the equator
        std::map<std::pair<long, long>, std::vector<size_t>> byPos;
        auto cell = [](P p)
        { return std::pair{std::lround(p.x * 1e5), std::lround(p.y * 1e5)}; };
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            byPos[cell(m.nodes[i])].push_back(i);
        }
        size_t north = 0, south = 0;
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            const P p = m.nodes[i];
            if (std::abs(p.y) > 89.99999)
            {
                continue;
            }
            north += p.y > 1e-6 ? 1 : 0;
            south += p.y < -1e-6 ? 1 : 0;
            bool found = false;
            const auto [a, b] = cell({p.x, -p.y});
            for (long u = a - 1; u <= a + 1 && !found; ++u)
            {
                for (long v = b - 1; v <= b + 1 && !found; ++v)
                {
                    found = byPos.contains({u, v});
                }
            }
            // the node on the other side may have been merged at 180 instead of -180
            const auto [a2, b2] = cell({-p.x, -p.y});
            for (long u = a2 - 1; u <= a2 + 1 && !found && std::abs(std::abs(p.x) - 180.0) < 1e-6; ++u)
            {
                for (long v = b2 - 1; v <= b2 + 1 && !found; ++v)
                {
                    found = byPos.contains({u, v});
                }
            }
            PBT_CHECK(found, "global-not-symmetric", "node ", str(p), " has no mirror image across the equator");
        }
        PBT_CHECK(north == south, "global-not-symmetric", north, " nodes on the northern and ", south, " on the southern hemisphere");
        if (top >= 2)
        {
            c.label("several rows");
        }
        ++c.evaluations;
        c.nontrivial();
    }

    const pbt::Register reg("C14", "at least three definite Delaunay triangles in the result; for global meshes always", 20000, 600000,
                            {{"samples", samples, 10}, {"polygon", polygon, 4}, {"global", global, 1}});
} // namespace
