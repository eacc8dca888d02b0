// Sets of disjoint polygons with holes, and their reference inclusion test.
#pragma once
#include "gen.hpp"
#include "geo.hpp"

namespace mk
{
    struct PolySet
    {
        struct Part
        {
            std::vector<P> outer; ///< closed (first point repeated)
            std::vector<std::vector<P>> holes;
        };
        std::vector<Part> parts;

        bool empty() const { return parts.empty(); }
        /// everything is inside an empty set
        bool contains(P p) const
        {
            if (empty())
            {
                return true;
            }
            for (auto& a : parts)
            {
                if (inside(p, a.outer))
                {
                    return std::none_of(a.holes.begin(), a.holes.end(), [&](const std::vector<P>& h)
                                        { return inside(p, h); });
                }
            }
            return false;
        }
        double distToBoundary(P p) const
        {
            double d = 1e300;
            for (auto& a : parts)
            {
                d = std::min(d, boundaryDist(p, a.outer));
                for (auto& h : a.holes)
                {
                    d = std::min(d, boundaryDist(p, h));
                }
            }
            return d;
        }
        template <typename F>
        void eachSegment(F f) const
        {
            auto ring = [&](const std::vector<P>& r)
            {
                for (size_t i = 0; i + 1 < r.size(); ++i)
                {
                    f(r[i], r[i + 1]);
                }
            };
            for (auto& a : parts)
            {
                ring(a.outer);
                for (auto& h : a.holes)
                {
                    ring(h);
                }
            }
        }
        std::vector<P> points() const
        {
            std::vector<P> r;
            for (auto& a : parts)
            {
                if (!r.empty())
                {
                    r.push_back({missing, missing});
                }
                r.insert(r.end(), a.outer.begin(), a.outer.end());
                for (auto& h : a.holes)
                {
                    r.push_back({innerSep, innerSep});
                    r.insert(r.end(), h.begin(), h.end());
                }
            }
            return r;
        }
        double extent() const
        {
            double e = 0;
            for (auto& a : parts)
            {
                for (auto& p : a.outer)
                {
                    e = std::max({e, std::abs(p.x - parts[0].outer[0].x), std::abs(p.y - parts[0].outer[0].y)});
                }
            }
            return e;
        }
        bool clean() const
        {
            for (auto& p : points())
            {
                if ((p.x != missing || p.y != missing) && (p.x != innerSep || p.y != innerSep) && (std::abs(p.x + 998.5) < 1 || std::abs(p.y + 998.5) < 1))
                {
                    return false;
                }
            }
            return true;
        }
    };

    inline bool ringsCross(const std::vector<P>& a, const std::vector<P>& b, double tol)
    {
        for (size_t i = 0; i + 1 < a.size(); ++i)
        {
            for (size_t j = 0; j + 1 < b.size(); ++j)
            {
                if (properCross(a[i], a[i + 1], b[j], b[j + 1]) || segDist(a[i], b[j], b[j + 1]) < tol || segDist(b[j], a[i], a[i + 1]) < tol)
                {
                    return true;
                }
            }
        }
        return false;
    }

    /// one to five disjoint, simple polygons with up to eight holes each over the box
    inline PolySet genPolySet(Case& c, P lo, P hi, bool allowEmpty = false)
    {
        PolySet s;
        if (allowEmpty && c.coin(0.06))
        {
            return s;
        }
        const int k = static_cast<int>(c.weighted({12, 4, 2, 1, 1})) + 1;
        const double w = (hi.x - lo.x) * 1.2, h = (hi.y - lo.y) * 1.2, tol = 1e-3 * std::max(w, h);
        const P base{lo.x - 0.1 * (hi.x - lo.x), lo.y - 0.1 * (hi.y - lo.y)};
        for (int i = 0; i < k; ++i)
        {
            PolySet::Part part;
            const double x0 = base.x + w * i / k, x1 = base.x + w * (i + 1) / k;
            auto ring = [&](P centre, double rx, double ry, int n, double rmin)
            {
                std::vector<P> r;
                const double phase = c.real(0.0, 1.0, 64);
                for (int q = 0; q < n; ++q)
                {
                    const double a = 2.0 * std::numbers::pi * (q + phase + c.sym(0.25, 32)) / n, f = c.real(rmin, 1.0, 256);
                    r.push_back({centre.x + rx * f * std::cos(a), centre.y + ry * f * std::sin(a)});
                }
                if (c.coin(0.3))
                {
                    std::reverse(r.begin(), r.end());
                }
                r.push_back(r[0]);
                return r;
            };
            if (c.coin(0.4))
            {
                const double ax = c.real(0.01, 0.7, 997), bx = c.real(0.2, 0.98 - ax, 991), ay = c.real(0.01, 0.7, 983), by = c.real(0.2, 0.98 - ay, 977);
                const double xa = x0 + ax * (x1 - x0), xb = xa + bx * (x1 - x0), ya = base.y + ay * h, yb = ya + by * h;
                part.outer = {{xa, ya}, {xb, ya}, {xb, yb}, {xa, yb}, {xa, ya}};
            }
            else
            {
                const P centre{c.real(x0 + 0.4 * (x1 - x0), x0 + 0.6 * (x1 - x0), 64), c.real(base.y + 0.2 * h, base.y + 0.8 * h, 128)};
                const double rx = std::min(centre.x - x0, x1 - centre.x) * 0.99, ry = h * c.real(0.2, 0.8, 64);
                part.outer = ring(centre, rx, ry, c.range(3, 10), 0.3);
            }
            if (!simplePolygon(std::vector<P>(part.outer.begin(), part.outer.end() - 1)) || std::abs(signedArea(part.outer)) < tol * tol)
            {
                continue;
            }
            const int holes = std::array<int, 5>{0, 1, 2, 4, 8}[c.weighted({5, 3, 2, 1, 1})];
            const P mid = centroid(part.outer);
            for (int q = 0; q < holes; ++q)
            {
                const P centre{mid.x + c.sym(0.25, 64) * (x1 - x0), mid.y + c.sym(0.3, 64) * h};
                const double r = c.real(0.05, holes > 2 ? 0.12 : 0.3, 64);
                const auto hole = ring(centre, r * (x1 - x0), r * h, c.range(3, 6), 0.5);
                bool ok = simplePolygon(std::vector<P>(hole.begin(), hole.end() - 1)) && inside(hole[0], part.outer) && !ringsCross(hole, part.outer, tol);
                for (auto& o : part.holes)
                {
                    ok = ok && !ringsCross(hole, o, tol) && !inside(hole[0], o) && !inside(o[0], hole);
                }
                if (ok)
                {
                    part.holes.push_back(hole);
                }
            }
            s.parts.push_back(part);
        }
        if (s.empty() || !s.clean())
        {
            s.parts.clear();
            s.parts.push_back({{{lo.x - tol, lo.y - tol}, {hi.x - 0.37 * w, lo.y - tol}, {hi.x - 0.37 * w, hi.y + 0.01 * h}, {lo.x - tol, hi.y + 0.01 * h}, {lo.x - tol, lo.y - tol}}, {}});
            if (!s.clean())
            {
                throw pbt::Discard{"polygon near the separator values"};
            }
        }
        if (c.coin(0.3))
        {
            std::reverse(s.parts.begin(), s.parts.end());
        }
        return s;
    }
} // namespace mk
