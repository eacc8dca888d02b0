// Reference (brute force) planar geometry, independent of the library.
#pragma once
#include "api.hpp"
#include <algorithm>
#include <map>
#include <set>

namespace mk
{
    inline double orient(P a, P b, P c) { return cross(b - a, c - a); }

    /// signed area, > 0 for counter-clockwise; the polygon may or may not repeat its first point
    inline double signedArea(const std::vector<P>& p)
    {
        double s = 0;
        if (p.empty())
        {
            return 0;
        }
        const P o = p[0];
        for (size_t i = 0; i < p.size(); ++i)
        {
            s += cross(p[i] - o, p[(i + 1) % p.size()] - o);
        }
        return 0.5 * s;
    }
    inline P centroid(const std::vector<P>& p)
    {
        const P o = p[0];
        double a = 0, cx = 0, cy = 0;
        for (size_t i = 0; i < p.size(); ++i)
        {
            const P u = p[i] - o, v = p[(i + 1) % p.size()] - o;
            const double k = cross(u, v);
            a += k;
            cx += (u.x + v.x) * k;
            cy += (u.y + v.y) * k;
        }
        return {o.x + cx / (3 * a), o.y + cy / (3 * a)};
    }
    inline double segDist(P p, P a, P b)
    {
        const P d = b - a;
        const double l2 = dot(d, d);
        double t = l2 > 0 ? dot(p - a, d) / l2 : 0;
        t = std::min(1.0, std::max(0.0, t));
        return dist(p, a + d * t);
    }
    /// distance of p to the boundary of a polygon
    inline double boundaryDist(P p, const std::vector<P>& poly)
    {
        double r = 1e300;
        for (size_t i = 0; i < poly.size(); ++i)
        {
            r = std::min(r, segDist(p, poly[i], poly[(i + 1) % poly.size()]));
        }
        return r;
    }
    /// even-odd / crossing test (only meaningful away from the boundary)
    inline bool inside(P p, const std::vector<P>& poly)
    {
        bool in = false;
        const size_t n = poly.size();
        for (size_t i = 0, j = n - 1; i < n; j = i++)
        {
            if ((poly[i].y > p.y) != (poly[j].y > p.y) &&
                p.x < (poly[j].x - poly[i].x) * (p.y - poly[i].y) / (poly[j].y - poly[i].y) + poly[i].x)
            {
                in = !in;
            }
        }
        return in;
    }
    /// proper crossing of the open segments
    inline bool properCross(P a, P b, P c, P d)
    {
        const double o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
        return ((o1 > 0) != (o2 > 0)) && ((o3 > 0) != (o4 > 0)) && o1 != 0 && o2 != 0 && o3 != 0 && o4 != 0;
    }
    inline bool simplePolygon(const std::vector<P>& p)
    {
        const size_t n = p.size();
        for (size_t i = 0; i < n; ++i)
        {
            for (size_t j = i + 1; j < n; ++j)
            {
                if (properCross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]))
                {
                    return false;
                }
            }
        }
        return true;
    }

    inline std::vector<P> facePts(const Mesh2& m, size_t f)
    {
        std::vector<P> r;
        for (int n : m.faceNodes[f])
        {
            r.push_back(m.nodes[static_cast<size_t>(n)]);
        }
        return r;
    }
    inline double totalArea(const Mesh2& m)
    {
        double a = 0;
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            a += signedArea(facePts(m, f));
        }
        return a;
    }
    inline double meshScale(const Mesh2& m)
    {
        P lo{1e300, 1e300}, hi{-1e300, -1e300};
        for (auto& p : m.nodes)
        {
            if (p.valid())
            {
                lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
                hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
            }
        }
        return std::max({hi.x - lo.x, hi.y - lo.y, 1e-30});
    }
} // namespace mk
