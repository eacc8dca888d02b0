// C17: the 1d-2d contacts follow their definition on the current meshes.
#include "../harness/circum.hpp"
#include "../harness/history.hpp"
#include "../harness/polyset.hpp"
#include "../harness/topo.hpp"
using namespace mk;

namespace
{
    struct Net
    {
        std::vector<P> nodes;
        std::vector<std::array<int, 2>> edges;
    };
    /// a few polylines over (and around) the mesh, possibly sharing nodes
    Net genNet(Case& c, P lo, P hi)
    {
        Net n;
        const double w = hi.x - lo.x, h = hi.y - lo.y;
        const int lines = static_cast<int>(c.weighted({5, 3, 1})) + 1;
        for (int l = 0; l < lines; ++l)
        {
            P p{lo.x + w * c.real(-0.4, 1.2, 977), lo.y + h * c.real(-0.4, 1.2, 983)};
            double angle = c.real(0, 6.2831853, 360);
            const double step = std::max(w, h) * c.real(0.04, 0.5, 97);
            int last = -1;
            if (l > 0 && c.coin(0.3))
            {
                last = static_cast<int>(c.draw(n.nodes.size()));
                p = n.nodes[static_cast<size_t>(last)];
            }
            const int k = c.range(2, 7);
            for (int i = 0; i < k; ++i)
            {
                if (last < 0 || i > 0)
                {
                    n.nodes.push_back(notMissing(p));
                    const int me = static_cast<int>(n.nodes.size()) - 1;
                    if (last >= 0)
                    {
                        n.edges.push_back(c.coin(0.2) ? std::array<int, 2>{me, last} : std::array<int, 2>{last, me});
                    }
                    last = me;
                }
                angle += c.sym(0.6, 64);
                const double s = step * c.real(0.6, 1.4, 16);
                p = {p.x + s * std::cos(angle), p.y + s * std::sin(angle)};
            }
        }
        return n;
    }

    struct World
    {
        int id = -1;
        Net net;
        std::vector<int> mask;
        Mesh2 m;
        P lo, hi;
        double scale = 1, tol = 1e-6;
        std::vector<P> cc;           ///< reference circumcentres
        std::vector<bool> ccSure;    ///< whether they are well defined
        std::vector<std::vector<P>> facePoly;
    };

    bool circumSure(const Mesh2& m, size_t f)
    {
        const auto p = facePts(m, f);
        const size_t n = p.size();
        const double s = signedArea(p) > 0 ? 1 : -1;
        double size = 0;
        for (size_t i = 0; i < n; ++i)
        {
            size = std::max(size, dist(p[i], p[(i + 1) % n]));
        }
        for (size_t i = 0; i < n; ++i)
        {
            const P a = p[i], b = p[(i + 1) % n], d = p[(i + 2) % n];
            if (s * orient(a, b, d) < (n == 3 ? 0.05 : 1e-3) * size * size || dist(a, b) < 0.05 * size)
            {
                return false;
            }
        }
        return std::abs(signedArea(p)) > 1e-3 * size * size;
    }

    /// sets up the 2d mesh with a history and the 1d mesh
    void makeWorld(Case& c, World& w)
    {
        reset();
        w.id = newState(0);
        MeshOpts o;
        o.maxN = 6;
        const auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(w.id, g.nodes, g.edges), "mesh2d_set");
        const int done = runHistory(c, w.id, 0, {6, 2, 1}, 80);
        c.label(done > 0 ? "after operations" : "fresh mesh");
        if (done > 0 && c.coin(0.3))
        {
            bool did = false;
            int who = -1;
            api::mkernel_undo_state(did, who);
            PBT_LOG(c, "undo");
        }
        P lo{1e300, 1e300}, hi{-1e300, -1e300};
        for (auto& p : g.nodes)
        {
            lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
            hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
        }
        w.net = genNet(c, lo, hi);
        PBT_LOG(c, "mesh1d nodes ", str(w.net.nodes), " edges ", str(w.net.edges));
        if (c.coin(0.3))
        {
            // replaces an earlier 1d mesh that was already used
            const auto other = genNet(c, lo, hi);
            must(setMesh1(w.id, other.nodes, other.edges), "mesh1d_set");
            std::vector<int> all(other.nodes.size(), 1);
            Geo none;
            auto nl = none.list();
            api::mkernel_contacts_compute_boundary(w.id, all.data(), nl, missing);
            c.label("1d mesh replaced");
        }
        must(setMesh1(w.id, w.net.nodes, w.net.edges), "mesh1d_set");
        const double keep = c.coin(0.5) ? 1.0 : c.real(0.0, 1.0, 10);
        for (size_t i = 0; i < w.net.nodes.size(); ++i)
        {
            w.mask.push_back(keep == 1.0 || c.coin(keep) ? 1 : 0);
        }
        PBT_LOG(c, "mask ", str(w.mask));
        w.lo = lo;
        w.hi = hi;
    }
    void readWorld(World& w)
    {
        w.m = getMesh2(w.id);
        P lo, hi;
        if (!extentOf(w.m, lo, hi) || !w.m.validNodeBox(1e7) || !simpleEdges(w.m) || w.m.faceNodes.empty() || !planarMesh(w.m, 1e-4))
        {
            throw pbt::Discard{"mesh not usable"};
        }
        w.scale = std::max({hi.x - lo.x, hi.y - lo.y, w.hi.x - w.lo.x, w.hi.y - w.lo.y});
        w.tol = 1e-5 * w.scale;
        w.cc = refCircumcentres(w.m);
        for (size_t f = 0; f < w.m.faceNodes.size(); ++f)
        {
            auto p = facePts(w.m, f);
            w.ccSure.push_back(circumSure(w.m, f));
            w.facePoly.push_back(p);
        }
    }
    /// the face that holds the point: index, -1 if none, -2 if too close to call
    int faceOf(const World& w, P p)
    {
        int r = -1;
        for (size_t f = 0; f < w.facePoly.size(); ++f)
        {
            if (boundaryDist(p, w.facePoly[f]) < w.tol)
            {
                return -2;
            }
            if (inside(p, w.facePoly[f]))
            {
                if (r >= 0)
                {
                    return -2;
                }
                r = static_cast<int>(f);
            }
        }
        return r;
    }
    /// nearest masked node: index, -1 if there is none, -2 if ambiguous
    int nearestMasked(const World& w, P p, double* d = nullptr)
    {
        int best = -1;
        double bd = 1e300, second = 1e300;
        for (size_t i = 0; i < w.net.nodes.size(); ++i)
        {
            if (w.mask[i])
            {
                const double q = dist(p, w.net.nodes[i]);
                if (q < bd)
                {
                    second = bd;
                    bd = q;
                    best = static_cast<int>(i);
                }
                else
                {
                    second = std::min(second, q);
                }
            }
        }
        if (d)
        {
            *d = bd;
        }
        return best >= 0 && second - bd < w.tol ? -2 : best;
    }
    std::string pairStr(const Conts& k)
    {
        std::string r;
        for (size_t i = 0; i < k.m1.size(); ++i)
        {
            r += pbt::cat(k.m1[i], "-", k.m2[i], " ");
        }
        return r;
    }
    /// calls the operation, checks ranges and the mask
    bool compute(Case& c, World& w, const char* name, const std::function<int()>& call, Conts& k, bool mayFail = false)
    {
        c.op(name);
        const int rc = call();
        const auto error = lastError();
        readWorld(w);
        if (rc != 0)
        {
            PBT_CHECK(mayFail, "error", name, " failed: ", error);
            return false;
        }
        k = getContacts(w.id);
        PBT_LOG(c, name, " gives ", pairStr(k));
        for (size_t i = 0; i < k.m1.size(); ++i)
        {
            PBT_CHECK(k.m1[i] >= 0 && k.m1[i] < static_cast<int>(w.net.nodes.size()) && k.m2[i] >= 0 && k.m2[i] < static_cast<int>(w.m.faceNodes.size()), "range", name, ": contact ", k.m1[i], "-", k.m2[i], " does not connect an existing node and face");
            PBT_CHECK(w.mask[static_cast<size_t>(k.m1[i])], "mask", name, ": contact ", k.m1[i], "-", k.m2[i], " uses a node that is masked out");
        }
        return true;
    }
    std::vector<int> degrees(const Net& n)
    {
        std::vector<int> d(n.nodes.size(), 0);
        for (auto& e : n.edges)
        {
            ++d[static_cast<size_t>(e[0])];
            ++d[static_cast<size_t>(e[1])];
        }
        return d;
    }
    P nodeOf(const Mesh2& m, int i) { return m.nodes[static_cast<size_t>(i)]; }
    /// parameters of the crossing of two segments; 1 crossing, 0 not, -1 too close to call
    int crossing(P a, P b, P p, P q, double tol, double* ratio = nullptr)
    {
        const double d = cross(b - a, q - p);
        if (std::abs(d) < 1e-9 * dist(a, b) * dist(p, q) || dist(a, b) == 0 || dist(p, q) == 0)
        {
            return segDist(a, p, q) < tol || segDist(b, p, q) < tol || segDist(p, a, b) < tol || segDist(q, a, b) < tol ? -1 : 0;
        }
        const double s = cross(p - a, q - p) / d, t = cross(p - a, b - a) / d;
        const double es = tol / dist(a, b), et = tol / dist(p, q);
        if (ratio)
        {
            *ratio = s;
        }
        if (s > es && s < 1 - es && t > et && t < 1 - et)
        {
            return 1;
        }
        return s < -es || s > 1 + es || t < -et || t > 1 + et ? 0 : -1;
    }

    void points(Case& c)
    {
        World w;
        makeWorld(c, w);
        Geo g;
        const int n = c.range(1, 12);
        const auto initial = w.lo;
        for (int i = 0; i < n; ++i)
        {
            P p{initial.x + (w.hi.x - w.lo.x) * c.real(-0.1, 1.1, 997), initial.y + (w.hi.y - w.lo.y) * c.real(-0.1, 1.1, 991)};
            p = notMissing(p);
            if (i == 0 || dist(p, g.at(g.size() - 1)) > 0)
            {
                g.add(p);
            }
        }
        PBT_LOG(c, "points ", str(g.pts()));
        auto gl = g.list();
        Conts k;
        if (!compute(c, w, "contacts_compute_with_points", [&]
                     { return api::mkernel_contacts_compute_with_points(w.id, w.mask.data(), gl); },
                     k))
        {
            return;
        }
        size_t at = 0;
        int sure = 0;
        for (size_t i = 0; i < g.size(); ++i)
        {
            const int f = faceOf(w, g.at(i)), node = nearestMasked(w, g.at(i));
            if (f == -2)
            {
                return; // the number of contacts before this point is unknown
            }
            if (f == -1 || node == -1)
            {
                continue;
            }
            PBT_CHECK(at < k.m1.size() && k.m2[at] == f, "points:face", "point ", i, " lies in face ", f, " but gets no contact with it");
            PBT_CHECK(node == -2 || k.m1[at] == node, "points:node", "point ", i, " is connected to node ", k.m1[at], " but ", node, " is nearer");
            ++at;
            ++sure;
        }
        PBT_CHECK(at == k.m1.size(), "points:count", k.m1.size(), " contacts for ", at, " points inside the mesh");
        if (sure >= 2)
        {
            c.nontrivial();
        }
    }

    void polygons(Case& c)
    {
        World w;
        makeWorld(c, w);
        const auto ps = genPolySet(c, w.lo, w.hi);
        Geo g(ps.points());
        PBT_LOG(c, "polygons ", str(g.pts()));
        auto gl = g.list();
        Conts k;
        if (!compute(c, w, "contacts_compute_with_polygons", [&]
                     { return api::mkernel_contacts_compute_with_polygons(w.id, w.mask.data(), gl); },
                     k))
        {
            return;
        }
        size_t at = 0;
        int several = 0;
        for (size_t q = 0; q < ps.parts.size(); ++q)
        {
            PolySet one;
            one.parts = {ps.parts[q]};
            double best = 1e300;
            bool unsure = false;
            std::vector<std::array<double, 3>> cand;
            for (size_t f = 0; f < w.m.faceNodes.size(); ++f)
            {
                if (one.distToBoundary(w.m.faceCentres[f]) < w.tol)
                {
                    unsure = true;
                    continue;
                }
                if (!one.contains(w.m.faceCentres[f]))
                {
                    continue;
                }
                for (size_t i = 0; i < w.net.nodes.size(); ++i)
                {
                    if (w.mask[i])
                    {
                        const double d = dist(w.net.nodes[i], w.m.faceCentres[f]);
                        cand.push_back({d, static_cast<double>(i), static_cast<double>(f)});
                        best = std::min(best, d);
                    }
                }
            }
            if (unsure)
            {
                return;
            }
            if (cand.empty())
            {
                continue;
            }
            several += cand.size() > 3;
            PBT_CHECK(at < k.m1.size(), "polygons:count", "no contact for polygon ", q, " with faces inside");
            bool found = false;
            for (auto& x : cand)
            {
                found |= x[0] < best + w.tol && static_cast<int>(x[1]) == k.m1[at] && static_cast<int>(x[2]) == k.m2[at];
            }
            PBT_CHECK(found, "polygons:nearest", "polygon ", q, " is connected by ", k.m1[at], "-", k.m2[at], ", which is not the nearest pair of a face inside and a node");
            ++at;
        }
        PBT_CHECK(at == k.m1.size(), "polygons:count", k.m1.size(), " contacts for ", at, " polygons with faces inside");
        if (several)
        {
            c.nontrivial();
        }
    }

    void boundary(Case& c)
    {
        World w;
        makeWorld(c, w);
        const auto ps = genPolySet(c, w.lo, w.hi, true);
        PolySet everything = ps;
        if (c.coin(0.4))
        {
            everything.parts.clear();
        }
        Geo g(everything.points());
        PBT_LOG(c, "polygons ", str(g.pts()));
        auto gl = g.list();
        const bool local = c.coin(0.4);
        const double radius = local ? missing : std::max(w.hi.x - w.lo.x, w.hi.y - w.lo.y) * c.real(0.02, 0.8, 97);
        PBT_LOG(c, "search radius ", radius);
        Conts k;
        if (!compute(c, w, "contacts_compute_boundary", [&]
                     { return api::mkernel_contacts_compute_boundary(w.id, w.mask.data(), gl, radius); },
                     k))
        {
            return;
        }
        std::vector<double> r(w.net.nodes.size(), local ? 0.0 : radius);
        if (local)
        {
            for (auto& e : w.net.edges)
            {
                const double l = dist(w.net.nodes[static_cast<size_t>(e[0])], w.net.nodes[static_cast<size_t>(e[1])]);
                r[static_cast<size_t>(e[0])] = std::max(r[static_cast<size_t>(e[0])], l);
                r[static_cast<size_t>(e[1])] = std::max(r[static_cast<size_t>(e[1])], l);
            }
        }
        const auto degree = degrees(w.net);
        std::vector<int> got(w.m.faceNodes.size(), -1);
        for (size_t i = 0; i < k.m1.size(); ++i)
        {
            int& x = got[static_cast<size_t>(k.m2[i])];
            PBT_CHECK(x < 0, "boundary:twice", "face ", k.m2[i], " is connected twice");
            x = k.m1[i];
        }
        int connected = 0, not_ = 0;
        for (size_t f = 0; f < w.m.faceNodes.size(); ++f)
        {
            bool onBoundary = false;
            for (int e : w.m.faceEdges[f])
            {
                const auto& ef = w.m.edgeFaces[static_cast<size_t>(e)];
                onBoundary |= ef[0] < 0 || ef[1] < 0;
            }
            if (!onBoundary)
            {
                PBT_CHECK(got[f] < 0, "boundary:inner", "face ", f, " is connected but does not lie on the boundary");
                continue;
            }
            if (!w.ccSure[f] || (!everything.empty() && everything.distToBoundary(w.cc[f]) < w.tol))
            {
                continue;
            }
            double best = 1e300;
            std::vector<std::pair<double, int>> cand;
            bool unsure = false;
            if (everything.contains(w.cc[f]))
            {
                for (size_t i = 0; i < w.net.nodes.size(); ++i)
                {
                    if (w.mask[i])
                    {
                        const double d = dist(w.net.nodes[i], w.cc[f]);
                        unsure |= std::abs(d - r[i]) < w.tol || (local && degree[i] == 0);
                        if (d < r[i])
                        {
                            cand.push_back({d, static_cast<int>(i)});
                            best = std::min(best, d);
                        }
                    }
                }
            }
            if (unsure)
            {
                continue;
            }
            if (cand.empty())
            {
                PBT_CHECK(got[f] < 0, "boundary:extra", "face ", f, " is connected to node ", got[f], " though no node is within reach or it is not selected");
                ++not_;
                continue;
            }
            ++connected;
            bool found = false;
            for (auto& x : cand)
            {
                found |= x.second == got[f] && x.first < best + w.tol;
            }
            PBT_CHECK(found, "boundary:nearest", "boundary face ", f, " is connected to node ", got[f], ", not to the nearest node in reach");
        }
        if (connected && not_)
        {
            c.nontrivial();
        }
    }

    void multiple(Case& c)
    {
        World w;
        makeWorld(c, w);
        Conts k;
        if (!compute(c, w, "contacts_compute_multiple", [&]
                     { return api::mkernel_contacts_compute_multiple(w.id, w.mask.data()); },
                     k))
        {
            return;
        }
        const size_t nn = w.net.nodes.size();
        std::vector<int> in(nn);
        std::vector<double> longest(nn, 0.0);
        for (size_t i = 0; i < nn; ++i)
        {
            in[i] = faceOf(w, w.net.nodes[i]);
        }
        for (auto& e : w.net.edges)
        {
            const double l = dist(w.net.nodes[static_cast<size_t>(e[0])], w.net.nodes[static_cast<size_t>(e[1])]);
            longest[static_cast<size_t>(e[0])] = std::max(longest[static_cast<size_t>(e[0])], l);
            longest[static_cast<size_t>(e[1])] = std::max(longest[static_cast<size_t>(e[1])], l);
        }
        std::vector<int> got(w.m.faceNodes.size(), -1);
        for (size_t i = 0; i < k.m1.size(); ++i)
        {
            int& x = got[static_cast<size_t>(k.m2[i])];
            PBT_CHECK(x < 0, "multiple:twice", "face ", k.m2[i], " is connected twice");
            x = k.m1[i];
        }
        int connected = 0, not_ = 0;
        for (size_t f = 0; f < w.m.faceNodes.size(); ++f)
        {
            if (!w.ccSure[f])
            {
                continue;
            }
            int want = -1;
            bool unsure = false;
            for (size_t e = 0; e < w.net.edges.size() && want < 0 && !unsure; ++e)
            {
                const int a = w.net.edges[e][0], b = w.net.edges[e][1];
                const P pa = w.net.nodes[static_cast<size_t>(a)], pb = w.net.nodes[static_cast<size_t>(b)];
                int crossed = 0;
                for (int me : w.m.faceEdges[f])
                {
                    const int x = crossing(pa, pb, nodeOf(w.m, w.m.edges[static_cast<size_t>(me)][0]), nodeOf(w.m, w.m.edges[static_cast<size_t>(me)][1]), w.tol);
                    if (x != 0)
                    {
                        crossed = crossed == 1 ? 1 : x;
                    }
                }
                if (crossed == 0)
                {
                    continue;
                }
                const double da = dist(pa, w.cc[f]), db = dist(pb, w.cc[f]);
                const double reach = std::sqrt(1.1) * longest[static_cast<size_t>(a)];
                if (da > reach + w.tol)
                {
                    continue;
                }
                const int node = da <= db ? a : b;
                const bool tie = std::abs(da - db) < w.tol;
                auto fits = [&](int q)
                { return w.mask[static_cast<size_t>(q)] == 0 || in[static_cast<size_t>(q)] == -1 ? 0 : in[static_cast<size_t>(q)] == -2 ? -1
                                                                                                                                        : 1; };
                const int fit = tie && fits(a) != fits(b) ? -1 : fits(node);
                if (fit == 0)
                {
                    continue;
                }
                if (crossed < 0 || fit < 0 || tie || da > reach - w.tol)
                {
                    unsure = true;
                    break;
                }
                want = node;
            }
            if (unsure)
            {
                continue;
            }
            PBT_CHECK(want == got[f], want < 0 ? "multiple:extra" : got[f] < 0 ? "multiple:missing"
                                                                               : "multiple:node",
                      "face ", f, " is connected to node ", got[f], " instead of ", want);
            ++(want < 0 ? not_ : connected);
        }
        if (connected && not_)
        {
            c.nontrivial();
        }
    }

    void single(Case& c)
    {
        World w;
        makeWorld(c, w);
        PolySet ps;
        if (c.coin(0.4))
        {
            ps = genPolySet(c, w.lo, w.hi);
        }
        Geo g(ps.points());
        PBT_LOG(c, "polygons ", str(g.pts()));
        auto gl = g.list();
        const double factor = c.real(0.1, 8.0, 79);
        PBT_LOG(c, "projection factor ", factor);
        const auto degree = degrees(w.net);
        bool isolated = false;
        for (size_t i = 0; i < degree.size(); ++i)
        {
            isolated |= degree[i] == 0;
        }
        Conts k;
        if (!compute(c, w, "contacts_compute_single", [&]
                     { return api::mkernel_contacts_compute_single(w.id, w.mask.data(), gl, factor); },
                     k, isolated))
        {
            return;
        }
        std::vector<std::vector<int>> got(w.net.nodes.size());
        for (size_t i = 0; i < k.m1.size(); ++i)
        {
            got[static_cast<size_t>(k.m1[i])].push_back(k.m2[i]);
        }
        std::vector<std::vector<int>> adj(w.net.nodes.size());
        for (auto& e : w.net.edges)
        {
            adj[static_cast<size_t>(e[0])].push_back(e[1]);
            adj[static_cast<size_t>(e[1])].push_back(e[0]);
        }
        int insideNodes = 0, projected = 0;
        for (size_t n = 0; n < w.net.nodes.size(); ++n)
        {
            const P p = w.net.nodes[n];
            if (!ps.empty() && ps.distToBoundary(p) < w.tol)
            {
                continue;
            }
            if (!w.mask[n] || !ps.contains(p))
            {
                PBT_CHECK(got[n].empty(), "single:selection", "node ", n, " is connected though it is not selected");
                continue;
            }
            const int f = faceOf(w, p);
            if (f >= 0)
            {
                PBT_CHECK(got[n].size() == 1 && got[n][0] == f, "single:inside", "node ", n, " lies in face ", f, " but is connected to ", got[n].size(), " faces, the first ", got[n].empty() ? -1 : got[n][0]);
                ++insideNodes;
                continue;
            }
            if (f == -2)
            {
                continue;
            }
            PBT_CHECK(got[n].size() <= 2, "single:sides", "node ", n, " outside the mesh has ", got[n].size(), " contacts");
            if (adj[n].empty() || adj[n].size() > 2)
            {
                continue;
            }
            const P a = adj[n].size() == 1 ? p : w.net.nodes[static_cast<size_t>(adj[n][0])];
            const P b = w.net.nodes[static_cast<size_t>(adj[n].back())];
            if (dist(a, b) < 1e-3 * w.scale)
            {
                continue;
            }
            const P normal{-(b.y - a.y), b.x - a.x}; // of the length of the edge (or of the distance of the neighbours)
            std::vector<int> want;
            bool unsure = false;
            for (int side = 0; side < 2 && !unsure; ++side)
            {
                const P q = p + normal * (side ? factor : -factor);
                double first = 1e300, second = 1e300;
                int face = -1;
                for (size_t e = 0; e < w.m.edges.size(); ++e)
                {
                    const auto& ef = w.m.edgeFaces[e];
                    if (!w.m.edgeValid(e) || (ef[0] >= 0) == (ef[1] >= 0))
                    {
                        continue;
                    }
                    double ratio = 0;
                    const int x = crossing(p, q, nodeOf(w.m, w.m.edges[e][0]), nodeOf(w.m, w.m.edges[e][1]), w.tol, &ratio);
                    unsure |= x < 0;
                    if (x == 1)
                    {
                        if (ratio < first)
                        {
                            second = first;
                            first = ratio;
                            face = std::max(ef[0], ef[1]);
                        }
                        else
                        {
                            second = std::min(second, ratio);
                        }
                    }
                }
                if (face < 0)
                {
                    continue;
                }
                unsure |= second - first < w.tol / dist(p, q) || !w.ccSure[static_cast<size_t>(face)];
                want.push_back(face);
            }
            if (unsure)
            {
                continue;
            }
            for (int x : got[n])
            {
                PBT_CHECK(std::count(want.begin(), want.end(), x) > 0, "single:projection", "node ", n, " is connected to face ", x, ", which is not the first face met beside it");
            }
            for (int x : want)
            {
                const P cc = w.cc[static_cast<size_t>(x)];
                int hits = 0;
                bool close = false;
                for (auto& e : w.net.edges)
                {
                    const int y = crossing(p, cc, w.net.nodes[static_cast<size_t>(e[0])], w.net.nodes[static_cast<size_t>(e[1])], w.tol);
                    const bool mine = e[0] == static_cast<int>(n) || e[1] == static_cast<int>(n);
                    hits += y == 1;
                    close |= y < 0 && (!mine || std::abs(orient(p, cc, w.net.nodes[static_cast<size_t>(e[0] == static_cast<int>(n) ? e[1] : e[0])])) < w.tol * w.scale);
                }
                const bool there = std::count(got[n].begin(), got[n].end(), x) > 0;
                PBT_CHECK(!there || hits == 0, "single:crosses-1d", "contact ", n, "-", x, " crosses the 1d mesh");
                int others = 0;
                for (size_t i = 0; i < k.m1.size(); ++i)
                {
                    if (k.m1[i] <= static_cast<int>(n) && !(k.m1[i] == static_cast<int>(n) && k.m2[i] == x))
                    {
                        const int y = crossing(p, cc, w.net.nodes[static_cast<size_t>(k.m1[i])], w.cc[static_cast<size_t>(k.m2[i])], w.tol);
                        others += y == 1 && w.ccSure[static_cast<size_t>(k.m2[i])];
                        // contacts that share the node or the face meet there without crossing
                        const bool shares = k.m1[i] == static_cast<int>(n) || k.m2[i] == x;
                        close |= (y < 0 && !shares) || (y == 1 && !w.ccSure[static_cast<size_t>(k.m2[i])]);
                        if (y == 1 && there && !close && k.m1[i] < static_cast<int>(n) && w.ccSure[static_cast<size_t>(k.m2[i])])
                        {
                            pbt::fail("single:crosses-contact", "contact ", n, "-", x, " crosses contact ", k.m1[i], "-", k.m2[i]);
                        }
                    }
                }
                if (!close && hits == 0 && others == 0)
                {
                    PBT_CHECK(there, "single:missing", "node ", n, " is not connected to face ", x, " beside it");
                    ++projected;
                }
            }
        }
        if (insideNodes && projected)
        {
            c.nontrivial();
        }
        if (projected)
        {
            c.label("projected contacts");
        }
    }

    pbt::Register reg("C17",
                      "a case is non-trivial if contacts of the kind are made and alternatives exist (several candidates, or also faces or nodes without contact)",
                      300000, 5000000,
                      {{"points", points, 2},
                       {"polygons", polygons, 2},
                       {"boundary", boundary, 3},
                       {"multiple", multiple, 3},
                       {"single", single, 3}});
} // namespace
