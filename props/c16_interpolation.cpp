// C16: interpolation of samples to mesh locations follows its definition.
#include "../harness/geo.hpp"
#include "../harness/history.hpp"
#include "../harness/topo.hpp"
using namespace mk;

namespace
{
    struct S
    {
        P p;
        double v = 0;
    };
    std::string str(const std::vector<S>& s)
    {
        std::string r;
        for (auto& x : s)
        {
            r += pbt::cat("(", x.p.x, ",", x.p.y, ")=", x.v, " ");
        }
        return r;
    }
    const char* locName(int l) { return l == 1 ? "nodes" : l == 2 ? "edges"
                                                                  : "faces"; }
    int locationType(int l)
    {
        int t = -1;
        if (l == 1)
        {
            api::mkernel_get_nodes_location_type(t);
        }
        else if (l == 2)
        {
            api::mkernel_get_edges_location_type(t);
        }
        else
        {
            api::mkernel_get_faces_location_type(t);
        }
        return t;
    }
    int methodType(int k)
    {
        int t = -1;
        switch (k)
        {
        case 0:
            api::mkernel_get_averaging_method_simple_averaging(t);
            break;
        case 1:
            api::mkernel_get_averaging_method_closest_point(t);
            break;
        case 2:
            api::mkernel_get_averaging_method_max(t);
            break;
        case 3:
            api::mkernel_get_averaging_method_min(t);
            break;
        case 4:
            api::mkernel_get_averaging_method_inverse_distance_weighting(t);
            break;
        default:
            api::mkernel_get_averaging_method_min_absolute_value(t);
        }
        return t;
    }
    const char* methodName[] = {"simple averaging", "closest point", "maximum", "minimum", "inverse distance", "minimum absolute value"};

    std::vector<S> genSamples(Case& c, P lo, P hi, const std::vector<P>& corners, int maxN, bool withMissing, bool* regular = nullptr)
    {
        std::vector<S> r;
        const double w = hi.x - lo.x, h = hi.y - lo.y;
        const int pattern = static_cast<int>(c.weighted({5, 2, 2}));
        if (regular)
        {
            *regular = pattern == 1;
        }
        const int n = c.range(3, maxN);
        const double a = c.sym(3.0, 12), b = c.sym(3.0, 12), d = c.sym(50.0, 100);
        const bool affine = c.coin(0.3);
        auto value = [&](P p)
        { return affine ? d + a * (p.x - lo.x) / w + b * (p.y - lo.y) / h : c.sym(100.0, 1000); };
        if (pattern == 1)
        {
            // a regular grid of samples, possibly through the mesh corners
            const int nx = c.range(2, 5), ny = c.range(2, 5);
            const double mar = c.coin(0.5) ? 0.0 : 0.1;
            for (int i = 0; i < nx; ++i)
            {
                for (int j = 0; j < ny; ++j)
                {
                    const P p{lo.x - mar * w + (1 + 2 * mar) * w * i / (nx - 1), lo.y - mar * h + (1 + 2 * mar) * h * j / (ny - 1)};
                    r.push_back({notMissing(p), value(p)});
                }
            }
        }
        else
        {
            for (int i = 0; i < n; ++i)
            {
                P p{lo.x + c.real(-0.4, 1.4, 1000) * w, lo.y + c.real(-0.4, 1.4, 1000) * h};
                if (pattern == 2 && c.coin(0.4) && !corners.empty())
                {
                    p = corners[c.draw(corners.size())];
                }
                p = notMissing(p);
                bool dup = false;
                for (auto& s : r)
                {
                    dup |= dist(s.p, p) < 1e-6 * (w + h);
                }
                if (!dup)
                {
                    r.push_back({p, value(p)});
                }
            }
        }
        if (withMissing && c.coin(0.2))
        {
            r[c.draw(r.size())].v = missing;
        }
        return r;
    }
    Geo geoOf(const std::vector<S>& s)
    {
        Geo g;
        for (auto& x : s)
        {
            g.add(x.p, x.v);
        }
        return g;
    }
    size_t countOf(const Mesh2& m, int loc) { return loc == 1 ? m.nodes.size() : loc == 2 ? m.edges.size()
                                                                                          : m.faceNodes.size(); }
    P locationOf(const Mesh2& m, int loc, size_t i)
    {
        if (loc == 1)
        {
            return m.nodes[i];
        }
        if (loc == 2)
        {
            return m.edgeValid(i) ? (m.nodes[static_cast<size_t>(m.edges[i][0])] + m.nodes[static_cast<size_t>(m.edges[i][1])]) * 0.5 : P{missing, missing};
        }
        return m.faceCentres[i];
    }
    bool usable(const Mesh2& m, int projection, P& lo, P& hi)
    {
        return extentOf(m, lo, hi) && m.validNodeBox(1e7) && simpleEdges(m) && (projection == 0 || (hi.x - lo.x < 8 && hi.y - lo.y < 8 && std::max(std::abs(lo.y), std::abs(hi.y)) < 75));
    }
    /// a state with a history; the mesh is not read after the last operation
    GenMesh makeState(Case& c, int projection, int& id)
    {
        reset();
        id = newState(projection);
        MeshOpts o;
        o.maxN = 5;
        o.projection = projection;
        const auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const int done = runHistory(c, id, projection, {5, 2, 1}, 80);
        if (done > 0 && c.coin(0.3))
        {
            bool did = false;
            int who = -1;
            c.op("undo");
            if (api::mkernel_undo_state(did, who) == 0 && did)
            {
                PBT_LOG(c, "undo");
                if (c.coin(0.3))
                {
                    api::mkernel_redo_state(did, who);
                    PBT_LOG(c, "redo");
                }
            }
        }
        c.label(done > 0 ? "after operations" : "fresh mesh");
        return g;
    }

    void checkLocations(const Mesh2& m, int loc, const Geo& g)
    {
        for (size_t i = 0; i < g.size(); ++i)
        {
            const P want = locationOf(m, loc, i);
            PBT_CHECK(!want.valid() || dist(want, g.at(i)) <= 1e-9 * (1 + len(want)), "location", "location ", i, " of the ", locName(loc), " is ", str(g.at(i)), " not ", str(want));
        }
    }

    /// runs the interpolation, half of the time before the mesh is read (and then for a few locations only)
    bool interpolate(Case& c, int id, int projection, int loc, Mesh2& m, Geo& out, const char* name, const std::function<int(api::GeometryList&)>& call)
    {
        P lo, hi;
        const size_t peek = c.coin(0.5) ? static_cast<size_t>(c.range(1, 8)) : 0;
        int rc = 0;
        std::string error;
        out = Geo(peek, -12345.0);
        if (peek)
        {
            auto ol = out.list();
            c.op(name);
            rc = call(ol);
            error = lastError();
        }
        m = getMesh2(id);
        if (!usable(m, projection, lo, hi) || countOf(m, loc) == 0 || countOf(m, loc) < peek)
        {
            return false;
        }
        if (!peek)
        {
            out = Geo(countOf(m, loc), -12345.0);
            auto ol = out.list();
            c.op(name);
            rc = call(ol);
            error = lastError();
        }
        if (rc != 0)
        {
            for (size_t e = 0; e < m.edges.size(); ++e)
            {
                if (m.edgeValid(e) && dist(m.nodes[static_cast<size_t>(m.edges[e][0])], m.nodes[static_cast<size_t>(m.edges[e][1])]) < 1e-6 * std::max(hi.x - lo.x, hi.y - lo.y))
                {
                    return false; // collapsed cells may be refused
                }
            }
        }
        PBT_CHECK(rc == 0, pbt::cat("unexpected-error:", name, ":", locName(loc)), name, " returned ", rc, ": ", error);
        checkLocations(m, loc, out);
        return true;
    }

    void triangulation(Case& c, int projection)
    {
        int id = -1;
        const auto g0 = makeState(c, projection, id);
        const int loc = c.range(1, 3);
        bool regular = false;
        auto s = genSamples(c, g0.lo, g0.hi, g0.nodes, 22, false, &regular);
        if (projection != 0 && !regular)
        {
            // slivers between scattered samples are not interpolated accurately on the sphere: constant values only
            for (auto& x : s)
            {
                x.v = s[0].v;
            }
        }
        PBT_LOG(c, "triangulation interpolation to ", locName(loc), " of samples ", str(s));
        double spread = 0;
        for (size_t i = 0; i < s.size(); ++i)
        {
            for (size_t j = 0; j < s.size(); ++j)
            {
                for (size_t k = 0; k < s.size(); ++k)
                {
                    spread = std::max(spread, std::abs(orient(s[i].p, s[j].p, s[k].p)));
                }
            }
        }
        const double ext = std::max(g0.hi.x - g0.lo.x, g0.hi.y - g0.lo.y);
        if (s.size() < 3 || spread < 1e-3 * ext * ext)
        {
            return;
        }
        auto in = geoOf(s);
        auto il = in.list();
        Mesh2 m;
        Geo out;
        if (!interpolate(c, id, projection, loc, m, out, "mesh2d_triangulation_interpolation", [&](api::GeometryList& ol)
                         { return api::mkernel_mesh2d_triangulation_interpolation(id, il, locationType(loc), ol); }))
        {
            return;
        }
        double vmin = 1e300, vmax = -1e300;
        for (auto& x : s)
        {
            vmin = std::min(vmin, x.v);
            vmax = std::max(vmax, x.v);
        }
        const double vtol = 1e-6 * (1 + std::max(std::abs(vmin), std::abs(vmax)));
        int inner = 0, outer = 0;
        if (projection != 0)
        {
            for (size_t i = 0; i < out.size(); ++i)
            {
                ++c.evaluations;
                const P q = locationOf(m, loc, i);
                if (!q.valid())
                {
                    continue;
                }
                const double v = out.v[i];
                if (v != missing)
                {
                    ++inner;
                    PBT_CHECK(v >= vmin - 1e-2 * (vmax - vmin) - vtol && v <= vmax + 1e-2 * (vmax - vmin) + vtol, "triangulation:range", "value ", v, " at ", str(q), " is outside the range of the samples");
                }
                else
                {
                    ++outer;
                }
            }
            if (inner && outer)
            {
                c.nontrivial();
            }
            return;
        }
        // all triangles of samples with an (almost) empty circumcircle
        struct T
        {
            size_t a, b, c;
        };
        std::vector<T> tri;
        bool slivers = false;
        for (size_t i = 0; i < s.size(); ++i)
        {
            for (size_t j = i + 1; j < s.size(); ++j)
            {
                for (size_t k = j + 1; k < s.size(); ++k)
                {
                    const P a = s[i].p, b = s[j].p, d = s[k].p;
                    const double o = orient(a, b, d);
                    const double longest = std::max({dist(a, b), dist(b, d), dist(d, a)});
                    if (std::abs(o) < 1e-9 * longest * longest)
                    {
                        // almost but not exactly in line
                        slivers |= !(a.x == b.x && b.x == d.x) && !(a.y == b.y && b.y == d.y);
                        continue;
                    }
                    const P u = b - a, v = d - a;
                    const double D = 2 * cross(u, v);
                    const P cc{a.x + (v.y * dot(u, u) - u.y * dot(v, v)) / D, a.y + (u.x * dot(v, v) - v.x * dot(u, u)) / D};
                    const double R = dist(cc, a);
                    bool empty = true;
                    for (size_t q = 0; q < s.size() && empty; ++q)
                    {
                        empty = q == i || q == j || q == k || dist(cc, s[q].p) >= R * (1 - 1e-7);
                    }
                    if (empty)
                    {
                        slivers |= std::abs(o) < 1e-3 * longest * longest;
                        tri.push_back({i, j, k});
                    }
                }
            }
        }
        // hull
        auto hullSide = [&](P q)
        {
            // > 0 clearly inside, < 0 clearly outside: signed distance to the convex hull boundary
            double worst = 1e300;
            for (size_t i = 0; i < s.size(); ++i)
            {
                for (size_t j = 0; j < s.size(); ++j)
                {
                    if (i == j)
                    {
                        continue;
                    }
                    bool all = true;
                    for (auto& x : s)
                    {
                        all &= orient(s[i].p, s[j].p, x.p) >= -1e-12 * ext * ext;
                    }
                    if (all)
                    {
                        worst = std::min(worst, orient(s[i].p, s[j].p, q) / dist(s[i].p, s[j].p));
                    }
                }
            }
            return worst;
        };
        for (size_t i = 0; i < out.size(); ++i)
        {
            const P q = locationOf(m, loc, i);
            if (!q.valid())
            {
                continue;
            }
            ++c.evaluations;
            const double v = out.v[i];
            const double side = hullSide(q);
            if (side < -1e-6 * ext)
            {
                ++outer;
                PBT_CHECK(v == missing, "triangulation:outside", locName(loc), " ", i, " at ", mk::str(q), " lies outside the convex hull of the samples but got ", v);
                continue;
            }
            if (side < 1e-6 * ext)
            {
                continue;
            }
            ++inner;
            if (v == missing && slivers)
            {
                continue; // the search for the triangle may end in a sliver
            }
            PBT_CHECK(v != missing, "triangulation:inside", locName(loc), " ", i, " at ", mk::str(q), " lies inside the convex hull of the samples but got no value");
            bool ok = false;
            double best = 1e300;
            for (auto& t : tri)
            {
                const P a = s[t.a].p, b = s[t.b].p, d = s[t.c].p;
                const double o = orient(a, b, d);
                const double la = orient(b, d, q) / o, lb = orient(d, a, q) / o, lc = orient(a, b, q) / o;
                if (la < -1e-6 || lb < -1e-6 || lc < -1e-6)
                {
                    continue;
                }
                const double w = la * s[t.a].v + lb * s[t.b].v + lc * s[t.c].v;
                best = std::abs(w - v) < std::abs(best - v) ? w : best;
                ok |= std::abs(w - v) <= vtol * 10;
            }
            PBT_CHECK(best > 1e299 || ok, "triangulation:value", locName(loc), " ", i, " at ", mk::str(q), " got ", v, " but the Delaunay triangle of the samples there gives ", best);
        }
        c.label(pbt::cat("triangulation to ", locName(loc)));
        if (inner && outer)
        {
            c.nontrivial();
        }
    }

    /// the polygon around a node through the midpoints of its edges and the centres of its faces
    bool dualFace(const Mesh2& m, size_t n, std::vector<P>& poly)
    {
        struct E
        {
            double a;
            size_t e;
        };
        std::vector<E> es;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e) && (m.edges[e][0] == static_cast<int>(n) || m.edges[e][1] == static_cast<int>(n)))
            {
                const P d = m.nodes[static_cast<size_t>(m.edges[e][0] == static_cast<int>(n) ? m.edges[e][1] : m.edges[e][0])] - m.nodes[n];
                es.push_back({std::atan2(d.y, d.x), e});
                if (m.edgeFaces[e][0] < 0 && m.edgeFaces[e][1] < 0)
                {
                    return false; // nodes with an edge that bounds no face are not judged
                }
            }
        }
        std::sort(es.begin(), es.end(), [](auto& a, auto& b)
                  { return a.a < b.a; });
        if (es.size() < 2)
        {
            return false;
        }
        for (size_t i = 0; i < es.size(); ++i)
        {
            const size_t e = es[i].e, f = es[(i + 1) % es.size()].e;
            if (i + 1 < es.size() && es[i + 1].a - es[i].a < 1e-7)
            {
                return false;
            }
            poly.push_back((m.nodes[static_cast<size_t>(m.edges[e][0])] + m.nodes[static_cast<size_t>(m.edges[e][1])]) * 0.5);
            int face = -1;
            for (int a : m.edgeFaces[e])
            {
                for (int b : m.edgeFaces[f])
                {
                    if (a >= 0 && a == b)
                    {
                        // the face must lie between the two edges: counter-clockwise it runs along f to the node and leaves along e
                        const auto& fn = m.faceNodes[static_cast<size_t>(a)];
                        for (size_t k = 0; k < fn.size(); ++k)
                        {
                            if (fn[k] == static_cast<int>(n))
                            {
                                const int next = fn[(k + 1) % fn.size()], prev = fn[(k + fn.size() - 1) % fn.size()];
                                const int other1 = m.edges[e][0] == static_cast<int>(n) ? m.edges[e][1] : m.edges[e][0];
                                const int other2 = m.edges[f][0] == static_cast<int>(n) ? m.edges[f][1] : m.edges[f][0];
                                if (next == other1 && prev == other2)
                                {
                                    face = a;
                                }
                            }
                        }
                    }
                }
            }
            poly.push_back(face >= 0 ? m.faceCentres[static_cast<size_t>(face)] : m.nodes[n]);
        }
        return std::abs(signedArea(poly)) > 1e-6;
    }

    void averaging(Case& c, int projection)
    {
        int id = -1;
        const auto g0 = makeState(c, projection, id);
        const int loc = c.range(1, 3), method = c.range(0, 5);
        const auto s = genSamples(c, g0.lo, g0.hi, g0.nodes, 40, true);
        const double r = c.coin(0.5) ? 1.0 : std::vector<double>{1.5, 0.6, 2.3, 1.01}[c.draw(4)];
        const size_t minNum = c.draw(4);
        PBT_LOG(c, "averaging interpolation to ", locName(loc), " ", methodName[method], " relative size ", r, " minimum number ", minNum, " of samples ", str(s));
        auto in = geoOf(s);
        auto il = in.list();
        Mesh2 m;
        Geo out;
        if (!interpolate(c, id, projection, loc, m, out, "mesh2d_averaging_interpolation", [&](api::GeometryList& ol)
                         { return api::mkernel_mesh2d_averaging_interpolation(id, il, locationType(loc), methodType(method), r, minNum, ol); }))
        {
            return;
        }
        const size_t n = out.size();
        const double ext = std::max(g0.hi.x - g0.lo.x, g0.hi.y - g0.lo.y);
        int with = 0, without = 0, several = 0;
        // value at one location: returns false if it cannot be judged
        auto expected = [&](std::vector<P> poly, P centre, P about, double& v)
        {
            for (auto& p : poly)
            {
                p = about + (p - about) * r;
            }
            std::vector<S> got;
            for (auto& x : s)
            {
                if (x.v == missing)
                {
                    continue;
                }
                if (boundaryDist(x.p, poly) < 1e-6 * ext)
                {
                    return false;
                }
                if (inside(x.p, poly))
                {
                    got.push_back(x);
                }
            }
            if (got.empty() || ((method == 0 || method == 4) && got.size() < minNum))
            {
                v = missing;
                return true;
            }
            several += got.size() > 1;
            double sum = 0, wsum = 0, best = 1e300;
            switch (method)
            {
            case 0:
                for (auto& x : got)
                {
                    sum += x.v;
                }
                v = sum / static_cast<double>(got.size());
                break;
            case 1:
                for (auto& x : got)
                {
                    const double d = dist(x.p, centre);
                    if (std::abs(d - best) < 1e-6 * ext)
                    {
                        return false;
                    }
                    if (d < best)
                    {
                        best = d;
                        v = x.v;
                    }
                }
                break;
            case 2:
                v = -1e300;
                for (auto& x : got)
                {
                    v = std::max(v, x.v);
                }
                break;
            case 3:
                v = 1e300;
                for (auto& x : got)
                {
                    v = std::min(v, x.v);
                }
                break;
            case 4:
                for (auto& x : got)
                {
                    const double w = 1 / std::max(0.01, dist(x.p, centre));
                    sum += w * x.v;
                    wsum += w;
                }
                v = sum / wsum;
                break;
            default:
                v = 1e300;
                for (auto& x : got)
                {
                    v = std::min(v, std::abs(x.v));
                }
            }
            return true;
        };
        auto check = [&](size_t i, double want)
        {
            ++c.evaluations;
            (want == missing ? without : with)++;
            PBT_CHECK(std::abs(out.v[i] - want) <= 1e-6 * (1 + std::abs(want)), pbt::cat("averaging:", locName(loc), out.v[i] == missing ? ":missing" : want == missing ? ":not-missing"
                                                                                                                                                                   : ":value"),
                      methodName[method], " of ", locName(loc), " ", i, " at ", mk::str(locationOf(m, loc, i)), " is ", out.v[i], " not ", want);
        };
        std::vector<double> node(m.nodes.size(), missing);
        std::vector<char> known(m.nodes.size(), 0);
        if (loc != 3 && projection == 0 && planarMesh(m))
        {
            for (size_t i = 0; i < m.nodes.size(); ++i)
            {
                std::vector<P> poly;
                if (!m.nodeValid(i))
                {
                    known[i] = 1;
                }
                else if (dualFace(m, i, poly))
                {
                    known[i] = expected(poly, m.nodes[i], centroid(poly), node[i]);
                }
                if (known[i] && loc == 1 && i < n)
                {
                    check(i, node[i]);
                }
            }
        }
        if (loc == 2 && projection == 0 && planarMesh(m))
        {
            for (size_t e = 0; e < n; ++e)
            {
                if (!m.edgeValid(e))
                {
                    check(e, missing);
                    continue;
                }
                const auto a = static_cast<size_t>(m.edges[e][0]), b = static_cast<size_t>(m.edges[e][1]);
                if (known[a] && known[b])
                {
                    check(e, node[a] == missing || node[b] == missing ? missing : 0.5 * (node[a] + node[b]));
                }
            }
        }
        if (loc == 3 && projection == 0)
        {
            for (size_t f = 0; f < n; ++f)
            {
                const auto p = facePts(m, f);
                double v = 0;
                if (std::abs(signedArea(p)) > 1e-6 && expected(p, m.faceCentres[f], m.faceCentres[f], v))
                {
                    check(f, v);
                }
            }
        }
        if (projection != 0)
        {
            double vmin = 1e300, vmax = -1e300;
            for (auto& x : s)
            {
                if (x.v != missing)
                {
                    vmin = std::min(vmin, method == 5 ? std::abs(x.v) : x.v);
                    vmax = std::max(vmax, method == 5 ? std::abs(x.v) : x.v);
                }
            }
            for (size_t i = 0; i < n; ++i)
            {
                const double v = out.v[i];
                if (v != missing)
                {
                    ++with;
                    ++several;
                    PBT_CHECK(v >= vmin - 1e-6 * (1 + std::abs(vmin)) && v <= vmax + 1e-6 * (1 + std::abs(vmax)), "averaging:range", methodName[method], " of ", locName(loc), " ", i, " is ", v, ", outside the range of the samples");
                }
                else
                {
                    ++without;
                }
            }
        }
        c.label(pbt::cat(methodName[method], " to ", locName(loc)));
        if (several && with)
        {
            c.nontrivial();
        }
    }

    pbt::Register reg("C16",
                      "a case is non-trivial if locations inside and outside the samples occur (triangulation) or several samples are averaged at some location (averaging)",
                      300000, 5000000,
                      {{"triangulation", [](Case& c)
                        { triangulation(c, 0); },
                        3},
                       {"triangulation-spherical", [](Case& c)
                        { triangulation(c, 1); },
                        1},
                       {"averaging", [](Case& c)
                        { averaging(c, 0); },
                        5},
                       {"averaging-spherical", [](Case& c)
                        { averaging(c, 1); },
                        1}});
} // namespace
