// Generators of meshes, polygons, grids, polylines and samples.
#pragma once
#include "api.hpp"
#include <algorithm>
#include <numbers>
#include <set>

namespace mk
{
    /// moves a coordinate away from the values that mean "missing" or "separator"
    inline double notMissing(double v) { return std::abs(v + 998.5) < 1.0 ? v + 2.37 : v; }
    inline P notMissing(P p) { return {notMissing(p.x), notMissing(p.y)}; }

    /// an origin such that halving and thirding cells does not give exactly -999
    inline P awayFromMissing(P p, double h) { return {p.x < 0 ? p.x - 0.0012345 * h : p.x, p.y < 0 ? p.y - 0.0012345 * h : p.y}; }

    struct GenMesh
    {
        std::vector<P> nodes;
        std::vector<std::array<int, 2>> edges;
        int nx = 1, ny = 1;
        double h = 10.0; ///< typical cell size
        P lo, hi;        ///< bounding box
        int projection = 0;
        bool shuffled = false, hanging = false, holes = false, jittered = false, triangles = false;
    };

    struct MeshOpts
    {
        int maxN = 6;
        bool allowTriangles = true;
        bool allowHoles = true;
        bool allowHanging = true;
        bool allowShuffle = true;
        bool allowIsolated = false;
        bool allowScale = true;
        double maxJitter = 0.25;
        int projection = 0;
        P origin{0, 0};
        bool randomOrigin = true;
    };

    inline GenMesh genMesh(Case& c, const MeshOpts& o = {})
    {
        GenMesh g;
        g.projection = o.projection;
        g.nx = c.range(1, o.maxN);
        g.ny = c.range(1, o.maxN);
        double hx = 10.0, hy = 10.0;
        if (o.projection == 0)
        {
            const double scale = o.allowScale ? std::array<double, 4>{10.0, 1.0, 100.0, 1000.0}[c.weighted({5, 2, 2, 1})] : 10.0;
            hx = scale * (c.coin(0.4) ? c.real(0.5, 2.0, 64) : 1.0);
            hy = scale * (c.coin(0.4) ? c.real(0.5, 2.0, 64) : 1.0);
        }
        else
        {
            hx = c.real(0.05, 0.5, 64);
            hy = hx * (c.coin(0.4) ? c.real(0.5, 1.5, 64) : 1.0);
        }
        g.h = std::min(hx, hy);
        P org = o.origin;
        if (o.randomOrigin)
        {
            if (o.projection == 0)
            {
                if (c.coin(0.4))
                {
                    org = awayFromMissing({c.sym(50.0, 500) * g.h, c.sym(50.0, 500) * g.h}, g.h);
                }
            }
            else
            {
                org = {c.sym(100.0, 500), c.sym(50.0, 500)};
            }
        }
        const double jitter = (o.maxJitter > 0 && c.coin(0.5)) ? c.real(0.02, o.maxJitter, 16) : 0.0;
        g.jittered = jitter > 0;
        const double shear = c.coin(0.2) ? c.sym(0.5, 16) : 0.0;
        auto id = [&](int i, int j)
        { return j * (g.nx + 1) + i; };
        for (int j = 0; j <= g.ny; ++j)
        {
            for (int i = 0; i <= g.nx; ++i)
            {
                P p{org.x + hx * (i + shear * j), org.y + hy * j};
                if (jitter > 0)
                {
                    p.x += c.sym(jitter * hx, 256);
                    p.y += c.sym(jitter * hy, 256);
                }
                g.nodes.push_back(notMissing(p));
            }
        }
        for (int j = 0; j <= g.ny; ++j)
        {
            for (int i = 0; i < g.nx; ++i)
            {
                g.edges.push_back({id(i, j), id(i + 1, j)});
            }
        }
        for (int j = 0; j < g.ny; ++j)
        {
            for (int i = 0; i <= g.nx; ++i)
            {
                g.edges.push_back({id(i, j), id(i, j + 1)});
            }
        }
        const int pattern = o.allowTriangles ? static_cast<int>(c.weighted({4, 3, 3})) : 0; // quads, mixed, triangles
        if (pattern > 0)
        {
            for (int j = 0; j < g.ny; ++j)
            {
                for (int i = 0; i < g.nx; ++i)
                {
                    const int how = pattern == 1 ? c.range(0, 2) : c.range(1, 2);
                    if (how == 1)
                    {
                        g.edges.push_back({id(i, j), id(i + 1, j + 1)});
                    }
                    else if (how == 2)
                    {
                        g.edges.push_back({id(i + 1, j), id(i, j + 1)});
                    }
                    g.triangles |= how > 0;
                }
            }
        }
        if (o.allowHoles && c.coin(0.25) && g.edges.size() > 4)
        {
            g.holes = true;
            const int k = c.range(1, std::max<int>(1, static_cast<int>(g.edges.size()) / 6));
            for (int i = 0; i < k && g.edges.size() > 4; ++i)
            {
                g.edges.erase(g.edges.begin() + static_cast<long>(c.draw(g.edges.size())));
            }
        }
        if (o.allowHanging && c.coin(0.15))
        {
            g.hanging = true;
            // a spur hanging outside of the mesh
            const int n = id(g.nx, c.range(0, g.ny));
            g.nodes.push_back({g.nodes[static_cast<size_t>(n)].x + 0.8 * hx, g.nodes[static_cast<size_t>(n)].y + 0.1 * hy});
            g.edges.push_back({n, static_cast<int>(g.nodes.size()) - 1});
        }
        if (o.allowShuffle && c.coin(0.4))
        {
            g.shuffled = true;
            std::vector<int> perm(g.nodes.size());
            for (size_t i = 0; i < perm.size(); ++i)
            {
                perm[i] = static_cast<int>(i);
            }
            c.shuffle(perm);
            std::vector<P> nn(g.nodes.size());
            for (size_t i = 0; i < perm.size(); ++i)
            {
                nn[static_cast<size_t>(perm[i])] = g.nodes[i];
            }
            g.nodes = nn;
            for (auto& e : g.edges)
            {
                e = {perm[static_cast<size_t>(e[0])], perm[static_cast<size_t>(e[1])]};
                if (c.coin(0.3))
                {
                    std::swap(e[0], e[1]);
                }
            }
            c.shuffle(g.edges);
        }
        // drop unconnected nodes (the library drops them too and renumbers)
        if (!o.allowIsolated)
        {
            std::vector<int> used(g.nodes.size(), -1);
            for (auto& e : g.edges)
            {
                used[static_cast<size_t>(e[0])] = 0;
                used[static_cast<size_t>(e[1])] = 0;
            }
            std::vector<P> nn;
            for (size_t i = 0; i < used.size(); ++i)
            {
                if (used[i] == 0)
                {
                    used[i] = static_cast<int>(nn.size());
                    nn.push_back(g.nodes[i]);
                }
            }
            for (auto& e : g.edges)
            {
                e = {used[static_cast<size_t>(e[0])], used[static_cast<size_t>(e[1])]};
            }
            g.nodes = nn;
        }
        g.lo = g.hi = g.nodes[0];
        for (auto& p : g.nodes)
        {
            g.lo = {std::min(g.lo.x, p.x), std::min(g.lo.y, p.y)};
            g.hi = {std::max(g.hi.x, p.x), std::max(g.hi.y, p.y)};
        }
        return g;
    }

    inline void logMesh(Case& c, const GenMesh& g, const char* what = "mesh")
    {
        PBT_LOG(c, what, ": ", g.nx, "x", g.ny, " projection=", g.projection, " nodes=", str(g.nodes), " edges=", str(g.edges));
    }

    /// star-shaped closed polygon (first point repeated) around a random centre in the box
    inline std::vector<P> genStarPolygon(Case& c, P lo, P hi, double rmin, double rmax, bool close = true)
    {
        const P centre{c.real(lo.x, hi.x, 1024), c.real(lo.y, hi.y, 1024)};
        const int n = c.range(3, 9);
        const double phase = c.real(0.0, 1.0, 64);
        std::vector<P> r;
        for (int i = 0; i < n; ++i)
        {
            const double a = 2.0 * std::numbers::pi * (i + phase + c.real(-0.3, 0.3, 32)) / n;
            const double rr = c.real(rmin, rmax, 256);
            r.push_back({centre.x + rr * std::cos(a), centre.y + rr * std::sin(a)});
        }
        if (c.coin(0.3))
        {
            std::reverse(r.begin(), r.end());
        }
        if (close)
        {
            r.push_back(r.front());
        }
        return r;
    }
    /// rectangle with generic (off-grid) coordinates
    inline std::vector<P> genBoxPolygon(Case& c, P lo, P hi)
    {
        const double w = hi.x - lo.x, h = hi.y - lo.y;
        double x0 = lo.x + c.real(-0.3, 0.9, 997) * w, x1 = lo.x + c.real(-0.1, 1.3, 991) * w;
        double y0 = lo.y + c.real(-0.3, 0.9, 983) * h, y1 = lo.y + c.real(-0.1, 1.3, 977) * h;
        if (std::abs(x1 - x0) < 0.05 * w)
        {
            x1 = x0 + 0.31 * w;
        }
        if (std::abs(y1 - y0) < 0.05 * h)
        {
            y1 = y0 + 0.37 * h;
        }
        std::vector<P> r{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}, {x0, y0}};
        return r;
    }
    inline std::vector<P> genPolygon(Case& c, const GenMesh& g)
    {
        if (c.coin(0.5))
        {
            return genBoxPolygon(c, g.lo, g.hi);
        }
        const double d = std::max(g.hi.x - g.lo.x, g.hi.y - g.lo.y);
        return genStarPolygon(c, g.lo, g.hi, 0.15 * d, 0.8 * d);
    }

    /// marks the nodes that belong to no complete cell as missing (the library drops them too); false if no cell is left
    inline bool normaliseCurvi(Curvi& g)
    {
        std::vector<char> keep(g.nodes.size(), 0);
        bool any = false;
        for (int i = 0; i + 1 < g.n; ++i)
        {
            for (int j = 0; j + 1 < g.m; ++j)
            {
                if (g.at(i, j).valid() && g.at(i + 1, j).valid() && g.at(i, j + 1).valid() && g.at(i + 1, j + 1).valid())
                {
                    any = true;
                    for (int a = 0; a < 2; ++a)
                    {
                        for (int b = 0; b < 2; ++b)
                        {
                            keep[static_cast<size_t>((i + a) * g.m + j + b)] = 1;
                        }
                    }
                }
            }
        }
        for (size_t k = 0; k < keep.size(); ++k)
        {
            if (!keep[k])
            {
                g.nodes[k] = {missing, missing};
            }
        }
        return any;
    }

    /// smooth structured grid
    inline Curvi genCurvi(Case& c, int maxN = 6, int minN = 2, bool allowMissing = false, double jitterMax = 0.2)
    {
        Curvi g;
        g.n = c.range(minN, maxN);
        g.m = c.range(minN, maxN);
        const double h = std::array<double, 3>{10.0, 1.0, 100.0}[c.weighted({5, 2, 2})];
        const double jit = c.coin(0.6) ? c.real(0.0, jitterMax, 16) : 0.0;
        const double bend = c.coin(0.4) ? c.sym(0.08, 16) : 0.0;
        const P org = c.coin(0.3) ? awayFromMissing({c.sym(20, 100) * h, c.sym(20, 100) * h}, h) : P{0, 0};
        for (int i = 0; i < g.n; ++i)
        {
            for (int j = 0; j < g.m; ++j)
            {
                P p{org.x + h * j, org.y + h * i + bend * h * j * j};
                if (jit > 0)
                {
                    p.x += c.sym(jit * h, 256);
                    p.y += c.sym(jit * h, 256);
                }
                g.nodes.push_back(notMissing(p));
            }
        }
        if (allowMissing && c.coin(0.4))
        {
            const int k = c.range(1, 3);
            Curvi h2 = g;
            for (int i = 0; i < k; ++i)
            {
                h2.nodes[c.draw(h2.nodes.size())] = {missing, missing};
            }
            if (normaliseCurvi(h2))
            {
                g = h2;
            }
        }
        return g;
    }

    inline std::string str(const Curvi& g)
    {
        return pbt::cat("curvilinear ", g.n, "x", g.m, " nodes=", str(g.nodes));
    }
} // namespace mk
