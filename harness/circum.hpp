// Reference circumcentre of a face (cartesian).
#pragma once
#include "geo.hpp"

namespace mk
{
    /// circumcentre of the triangle; for other faces the point that the perpendicular bisectors of the inner edges (nearly) have in common;
    /// a circumcentre outside of the face is replaced by the point where the segment from the average of the nodes to it leaves the face
    inline P refCircumcentre(const std::vector<P>& p, const std::vector<int>& numFaces)
    {
        const size_t n = p.size();
        P c{0, 0};
        for (auto& q : p)
        {
            c = c + (q - p[0]);
        }
        c = p[0] + c * (1.0 / static_cast<double>(n));
        P r = c;
        if (n == 3)
        {
            const P u = p[1] - p[0], v = p[2] - p[0];
            const double d = 2 * cross(u, v), uu = dot(u, u), vv = dot(v, v);
            if (d != 0)
            {
                r = {p[0].x + (v.y * uu - u.y * vv) / d, p[0].y + (u.x * vv - v.x * uu) / d};
            }
        }
        else
        {
            std::vector<std::pair<P, P>> lines;
            for (size_t i = 0; i < n; ++i)
            {
                if (numFaces[i] == 2)
                {
                    const P a = p[i], b = p[(i + 1) % n];
                    const double l = dist(a, b);
                    lines.push_back({(a + b) * 0.5, {(b.x - a.x) / l, (b.y - a.y) / l}});
                }
            }
            if (lines.size() > 1)
            {
                P e = c;
                for (int k = 0; k < 100; ++k)
                {
                    const P old = e;
                    for (auto& [m, t] : lines)
                    {
                        e = e - t * (0.1 * dot(e - m, t));
                    }
                    if (k > 0 && std::abs(e.x - old.x) < 1e-3 && std::abs(e.y - old.y) < 1e-3)
                    {
                        r = e;
                        break;
                    }
                }
            }
        }
        if (inside(r, p))
        {
            return r;
        }
        double best = 2;
        for (size_t i = 0; i < n; ++i)
        {
            const P a = p[i], b = p[(i + 1) % n];
            const double oc = orient(a, b, c), orr = orient(a, b, r), den = cross(r - c, b - a);
            if (oc == orr || den == 0)
            {
                continue;
            }
            const double t = oc / (oc - orr), u = cross(a - c, r - c) / den;
            if (t >= 0 && t <= 1 && u >= -1e-9 && u <= 1 + 1e-9)
            {
                best = std::min(best, t);
            }
        }
        if (best <= 1)
        {
            return c + (r - c) * best;
        }
        return r;
    }
    /// whether the circumcentres of all faces are well defined: no slivers, all faces simple
    inline bool circumcentresDefined(const Mesh2& m)
    {
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            const auto p = facePts(m, f);
            double ext = 0;
            for (auto& q : p)
            {
                ext = std::max(ext, dist(q, p[0]));
            }
            if (!(signedArea(p) > 1e-3 * ext * ext) || !simplePolygon(p))
            {
                return false;
            }
            for (size_t i = 0; i < p.size(); ++i)
            {
                if (!(dist(p[i], p[(i + 1) % p.size()]) > 1e-6 * ext))
                {
                    return false;
                }
                if (p.size() > 3 && orient(p[i], p[(i + 1) % p.size()], p[(i + 2) % p.size()]) < 0)
                {
                    return false;
                }
            }
        }
        return true;
    }
    inline std::vector<P> refCircumcentres(const Mesh2& m)
    {
        std::vector<P> r;
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            std::vector<int> nf;
            for (int e : m.faceEdges[f])
            {
                const auto& ef = m.edgeFaces[static_cast<size_t>(e)];
                nf.push_back((ef[0] >= 0 ? 1 : 0) + (ef[1] >= 0 ? 1 : 0));
            }
            const bool alone = std::none_of(nf.begin(), nf.end(), [](int n)
                                            { return n == 2; });
            r.push_back(alone ? centroid(facePts(m, f)) : refCircumcentre(facePts(m, f), nf));
        }
        return r;
    }
} // namespace mk
