// C24: refinement and offset of polygons.
#include "../harness/gen.hpp"
#include "../harness/geo.hpp"

using namespace mk;

namespace
{
    constexpr double R = 6378137.0;
    double distanceOf(P a, P b, int projection)
    {
        if (projection == 0)
        {
            return dist(a, b);
        }
        const double k = std::numbers::pi / 180.0;
        const double dx = (b.x - a.x) * k * R * std::cos(0.5 * (a.y + b.y) * k), dy = (b.y - a.y) * k * R;
        return std::sqrt(dx * dx + dy * dy);
    }

    /// a closed simple polygon around the centre
    std::vector<P> genClosed(Case& c, P centre, double r, bool convex)
    {
        const int n = c.range(3, 9);
        std::vector<P> p;
        const double phase = c.real(0.0, 1.0, 64);
        for (int i = 0; i < n; ++i)
        {
            const double a = 2.0 * std::numbers::pi * (i + phase + (convex ? 0.0 : c.real(-0.3, 0.3, 32))) / n;
            const double rr = convex ? r : r * c.real(0.4, 1.0, 64);
            p.push_back(notMissing(P{centre.x + rr * std::cos(a), centre.y + rr * std::sin(a)}));
        }
        if (c.coin(0.3))
        {
            // some long thin detail: points on an edge
            const int k = c.range(1, 4);
            for (int i = 0; i < k; ++i)
            {
                const size_t at = c.draw(p.size());
                const P a = p[at], b = p[(at + 1) % p.size()];
                const double t = c.coin(0.5) ? c.real(0.02, 0.1, 16) : c.real(0.1, 0.9, 32);
                p.insert(p.begin() + static_cast<long>(at) + 1, notMissing(a + (b - a) * t));
            }
        }
        if (c.coin(0.4))
        {
            std::reverse(p.begin(), p.end());
        }
        p.push_back(p.front());
        return p;
    }

    struct Input
    {
        int projection = 0;
        std::vector<std::vector<P>> polygons;
        std::vector<size_t> start; // index of the first point of each in the geometry list
        Geo geo;
        double r = 10;
    };
    Input genInput(Case& c, int maxPolygons)
    {
        Input in;
        in.projection = static_cast<int>(c.weighted({3, 1}));
        in.r = in.projection == 0 ? std::array<double, 3>{10.0, 1.0, 1000.0}[c.weighted({4, 1, 1})] : c.real(0.05, 1.0, 32);
        const P org = in.projection == 0 ? P{c.coin(0.5) ? c.sym(50.0, 100) * in.r : 0.0, c.coin(0.5) ? c.sym(50.0, 100) * in.r : 0.0} : P{c.sym(100.0, 200), c.sym(50.0, 100)};
        const int n = c.range(1, maxPolygons);
        for (int i = 0; i < n; ++i)
        {
            in.polygons.push_back(genClosed(c, {org.x + i * 3.0 * in.r, org.y}, in.r, c.coin(0.3)));
            if (i > 0)
            {
                in.geo.add({missing, missing});
            }
            in.start.push_back(in.geo.size());
            for (auto& p : in.polygons.back())
            {
                in.geo.add(p);
            }
        }
        PBT_LOG(c, "projection ", in.projection, " polygons ", str(in.geo.pts()));
        return in;
    }

    void compare(const Geo& out, const std::vector<P>& expected, double tol, const char* what)
    {
        for (size_t i = 0; i < std::min(out.size(), expected.size()); ++i)
        {
            PBT_CHECK(dist(out.at(i), expected[i]) <= tol, "point", what, ": point ", i, " is ", str(out.at(i)), " instead of ", str(expected[i]));
        }
        PBT_CHECK(out.size() == expected.size(), "count", what, ": ", out.size(), " points instead of ", expected.size());
    }

    // ------------------------------------------------------------------ refine
    void refine(Case& c)
    {
        reset();
        Input in = genInput(c, 3);
        const int id = newState(in.projection);
        const size_t which = c.draw(in.polygons.size());
        const auto& p = in.polygons[which];
        size_t s = c.draw(p.size()), e = c.draw(p.size());
        const bool wraps = s > e;
        if (wraps && in.polygons.size() > 1)
        {
            std::swap(s, e); // a range through the closing point is meant for a single polygon
        }
        double perimeter = 0, big = 1.0;
        for (size_t i = 0; i + 1 < p.size(); ++i)
        {
            perimeter += distanceOf(p[i], p[i + 1], in.projection);
            big = std::max({big, std::abs(p[i].x), std::abs(p[i].y)});
        }
        const double d = perimeter / p.size() * (c.coin(0.7) ? c.real(0.02, 1.5, 128) : c.real(1.0, 20.0, 32));
        size_t gs = in.start[which] + s, ge = in.start[which] + e;
        PBT_LOG(c, "refine ", gs, " ", ge, " distance ", d);
        // expected
        std::vector<char> refined(p.size(), 0); // segment i -> i+1
        if (gs == 0 && ge == 0)
        {
            std::fill(refined.begin(), refined.end(), 1);
        }
        else if (s < e)
        {
            std::fill(refined.begin() + static_cast<long>(s), refined.begin() + static_cast<long>(e), 1);
        }
        else if (s > e)
        {
            std::fill(refined.begin(), refined.begin() + static_cast<long>(e), 1);
            std::fill(refined.begin() + static_cast<long>(s), refined.end(), 1);
        }
        std::vector<P> expected;
        size_t added = 0;
        for (size_t i = 0; i + 1 < p.size(); ++i)
        {
            expected.push_back(p[i]);
            if (refined[i])
            {
                const double q = distanceOf(p[i], p[i + 1], in.projection) / d;
                if (std::abs(q - std::floor(q) - 0.5) < 1e-4)
                {
                    throw pbt::Discard();
                }
                const long n = std::lround(q);
                for (long k = 1; k < n; ++k)
                {
                    expected.push_back(p[i] + (p[i + 1] - p[i]) * (static_cast<double>(k) / static_cast<double>(n)));
                    ++added;
                }
            }
        }
        expected.push_back(p.back());
        int count = 0;
        c.op("polygon_refine");
        must(api::mkernel_polygon_count_refine(id, in.geo.list(), static_cast<int>(gs), static_cast<int>(ge), d, count), "count_refine");
        PBT_CHECK(count >= 0, "negative-count", "count ", count);
        Geo out(static_cast<size_t>(count), 0.0);
        auto gl = out.list();
        must(api::mkernel_polygon_refine(id, in.geo.list(), static_cast<int>(gs), static_cast<int>(ge), d, gl), "refine");
        compare(out, expected, 1e-9 * big, "refine");
        ++c.evaluations;
        c.label(s < e ? "forward" : s > e ? "wrapping"
                                          : "all-or-nothing");
        if (added > 0)
        {
            c.nontrivial();
        }
    }

    // ------------------------------------------------------------------ linear refine
    void linearRefine(Case& c)
    {
        reset();
        Input in = genInput(c, 1);
        const int id = newState(in.projection);
        const auto& p = in.polygons[0];
        const size_t s = c.draw(p.size()), e = c.draw(p.size());
        PBT_LOG(c, "linear refine ", s, " ", e);
        int count = 0;
        c.op("polygon_linear_refine");
        must(api::mkernel_polygon_count_linear_refine(id, in.geo.list(), static_cast<int>(s), static_cast<int>(e), count), "count_linear_refine");
        PBT_CHECK(count > 0, "negative-count", "count ", count);
        Geo out(static_cast<size_t>(count), 0.0);
        auto gl = out.list();
        must(api::mkernel_polygon_linear_refine(id, in.geo.list(), static_cast<int>(s), static_cast<int>(e), gl), "linear_refine");
        double big = 1.0;
        for (auto& q : p)
        {
            big = std::max({big, std::abs(q.x), std::abs(q.y)});
        }
        const double tol = 1e-9 * big;
        ++c.evaluations;
        if (s == e)
        {
            compare(out, p, 0.0, "linear refine of nothing");
            return;
        }
        // the part that is refined, and the parts before and after it
        std::vector<P> range, before, after;
        if (s < e)
        {
            range.assign(p.begin() + static_cast<long>(s), p.begin() + static_cast<long>(e) + 1);
            before.assign(p.begin(), p.begin() + static_cast<long>(s));
            after.assign(p.begin() + static_cast<long>(e) + 1, p.end());
        }
        else
        {
            range.assign(p.begin() + static_cast<long>(s), p.end());
            range.insert(range.end(), p.begin() + 1, p.begin() + 1 + static_cast<long>(e));
            before.assign(p.begin() + static_cast<long>(e), p.begin() + static_cast<long>(s));
        }
        const auto pts = out.pts();
        PBT_CHECK(pts.size() >= before.size() + after.size() + std::min<size_t>(2, range.size()), "too-few", "only ", pts.size(), " points");
        for (size_t i = 0; i < before.size(); ++i)
        {
            PBT_CHECK(sameP(pts[i], before[i]), "before", "point ", i, " before the refined part changed from ", str(before[i]), " to ", str(pts[i]));
        }
        for (size_t i = 0; i < after.size(); ++i)
        {
            const P q = pts[pts.size() - after.size() + i];
            PBT_CHECK(sameP(q, after[i]), "after", "point after the refined part changed from ", str(after[i]), " to ", str(q));
        }
        const std::vector<P> part(pts.begin() + static_cast<long>(before.size()), pts.end() - static_cast<long>(after.size()));
        PBT_CHECK(dist(part.front(), range.front()) <= tol, "first", "the first point of the part became ", str(part.front()));
        PBT_CHECK(dist(part.back(), range.back()) <= tol, "last", "the last point of the part became ", str(part.back()));
        if (range.size() < 2)
        {
            return;
        }
        // all on the perimeter, in order
        std::vector<double> cum(1, 0.0), along;
        for (size_t i = 1; i < range.size(); ++i)
        {
            cum.push_back(cum.back() + distanceOf(range[i - 1], range[i], in.projection));
        }
        size_t seg = 0;
        double last = 0.0;
        for (auto& q : part)
        {
            bool found = false;
            for (size_t k = seg; k + 1 < range.size() && !found; ++k)
            {
                if (segDist(q, range[k], range[k + 1]) <= 10 * tol)
                {
                    const double pos = cum[k] + distanceOf(range[k], range[k + 1], in.projection) * dist(q, range[k]) / std::max(1e-300, dist(range[k], range[k + 1]));
                    if (pos >= last - 1e-7 * cum.back())
                    {
                        found = true;
                        seg = k;
                        last = pos;
                        along.push_back(pos);
                    }
                }
            }
            PBT_CHECK(found, "not-on-perimeter", "point ", str(q), " is not on the perimeter after its predecessor");
        }
        // The number of points added or removed is limited to the number of points of the part
        const size_t change = part.size() > range.size() ? part.size() - range.size() : range.size() - part.size();
        if (change < range.size())
        {
            const double first = cum[1], lastLength = cum.back() - cum[cum.size() - 2];
            // With very different lengths, adding and removing a point can alternate up to the limit: then an edge may just have been halved
            const bool alternates = std::max(first, lastLength) > 3.0 * std::min(first, lastLength);
            // the lengths go gradually from the one of the first edge to the one of the last edge
            for (size_t i = 1; i + 1 < along.size(); ++i)
            {
                const double a = along[i] - along[i - 1], b = along[i + 1] - along[i];
                const double slack = 1e-4 * cum.back() / static_cast<double>(along.size());
                const double factor = alternates ? 0.4 : 1.0;
                PBT_CHECK(first <= lastLength ? b >= factor * a - slack : factor * b <= a + slack, "gradual", "the lengths do not go gradually from ", first, " to ", lastLength, ": ", a, " then ", b);
            }
            c.label("gradual");
        }
        else
        {
            c.label("limit");
        }
        if (change > 0)
        {
            c.label("changed-count");
        }
        if (range.size() > 2)
        {
            c.nontrivial();
        }
    }

    // ------------------------------------------------------------------ offset
    void offset(Case& c)
    {
        reset();
        const int projection = static_cast<int>(c.weighted({3, 1}));
        const double r = projection == 0 ? std::array<double, 3>{10.0, 1.0, 1000.0}[c.weighted({4, 1, 1})] : c.real(0.05, 0.5, 32);
        const P org = projection == 0 ? P{c.coin(0.5) ? c.sym(50.0, 100) * r : 0.0, c.coin(0.5) ? c.sym(50.0, 100) * r : 0.0} : P{c.sym(100.0, 200), c.sym(50.0, 100)};
        const int n = c.range(1, 3);
        std::vector<std::vector<P>> rings;
        std::vector<char> hole;
        Geo geo;
        for (int i = 0; i < n; ++i)
        {
            const P centre{org.x + 4.0 * r * i, org.y};
            const bool withHole = c.coin(0.25);
            rings.push_back(genClosed(c, centre, r, withHole || c.coin(0.3)));
            hole.push_back(0);
            if (withHole)
            {
                const int holes = c.coin(0.5) ? 1 : c.range(2, 4);
                for (int q = 0; q < holes; ++q)
                {
                    const double a = 0.5 * std::numbers::pi * q;
                    const P at = holes == 1 ? centre : P{centre.x + 0.25 * r * std::cos(a), centre.y + 0.25 * r * std::sin(a)};
                    rings.push_back(genClosed(c, at, (holes == 1 ? 0.3 : 0.12) * r, c.coin(0.5)));
                    hole.push_back(1);
                }
            }
        }
        for (size_t i = 0; i < rings.size(); ++i)
        {
            if (i > 0)
            {
                geo.add(hole[i] ? P{innerSep, innerSep} : P{missing, missing});
            }
            for (auto& p : rings[i])
            {
                geo.add(p);
            }
        }
        const bool both = c.coin(0.5);
        const double metres = projection == 0 ? 1.0 : std::numbers::pi / 180.0 * R;
        const double d = c.sym(0.2, 32) * r * metres;
        PBT_LOG(c, "offset projection ", projection, " polygons ", str(geo.pts()), " distance ", d, " both ", both);
        const int id = newState(projection);
        int count = 0;
        c.op("polygon_offset");
        must(api::mkernel_polygon_count_offset(id, geo.list(), both ? 1 : 0, d, count), "count_offset");
        Geo out(static_cast<size_t>(std::max(0, count)), 0.0);
        auto gl = out.list();
        must(api::mkernel_polygon_get_offset(id, geo.list(), both ? 1 : 0, d, gl), "get_offset");
        // expected: every ring offset by d to its right (the outside of a counter-clockwise ring), then by -d
        std::vector<P> expected;
        double big = 1.0;
        for (int side = 0; side < (both ? 2 : 1); ++side)
        {
            const double dd = (side == 0 ? d : -d) / metres;
            for (size_t k = 0; k < rings.size(); ++k)
            {
                if (!expected.empty())
                {
                    expected.push_back(hole[k] ? P{innerSep, innerSep} : P{missing, missing});
                }
                const auto& ring = rings[k];
                const size_t m = ring.size() - 1;
                for (size_t i = 0; i <= m; ++i)
                {
                    const P a = ring[(i + m - 1) % m], b = ring[i % m], e = ring[(i + 1) % m];
                    big = std::max({big, std::abs(b.x), std::abs(b.y)});
                    auto normal = [&](P u, P v)
                    {
                        P t = v - u;
                        if (projection == 1)
                        {
                            t.x *= std::cos(0.5 * (u.y + v.y) * std::numbers::pi / 180.0);
                        }
                        return P{t.y, -t.x} * (1.0 / len(t));
                    };
                    const P n1 = normal(a, b), n2 = normal(b, e);
                    if (1.0 + dot(n1, n2) < 0.02)
                    {
                        throw pbt::Discard();
                    }
                    P v = (n1 + n2) * (dd / (1.0 + dot(n1, n2)));
                    if (projection == 1)
                    {
                        v.x /= std::cos((b.y + 0.5 * v.y) * std::numbers::pi / 180.0);
                    }
                    expected.push_back(b + v);
                }
            }
        }
        for (auto& p : expected)
        {
            const bool sep = (p.x == missing && p.y == missing) || (p.x == innerSep && p.y == innerSep);
            if (!sep && (std::abs(p.x - missing) < 2.0 || std::abs(p.y - missing) < 2.0))
            {
                throw pbt::Discard();
            }
        }
        compare(out, expected, 1e-8 * big, "offset");
        ++c.evaluations;
        c.label(both ? "both" : "one");
        c.label(pbt::cat("rings-", rings.size()));
        if (std::find(hole.begin(), hole.end(), 1) != hole.end())
        {
            c.label("holes");
        }
        c.nontrivial();
    }

    // ------------------------------------------------------------------ snap to land boundary
    void snap(Case& c)
    {
        reset();
        const double r = 10.0;
        const P org{c.coin(0.5) ? c.sym(30.0, 100) * r : 0.0, c.coin(0.5) ? c.sym(30.0, 100) * r : 0.0};
        const int n = c.range(1, 3);
        std::vector<size_t> start, size;
        Geo geo;
        for (int i = 0; i < n; ++i)
        {
            const auto ring = genClosed(c, {org.x + 3.0 * r * i, org.y}, r, c.coin(0.3));
            if (i > 0)
            {
                geo.add({missing, missing});
            }
            start.push_back(geo.size());
            size.push_back(ring.size());
            for (auto& p : ring)
            {
                geo.add(p);
            }
        }
        std::vector<std::pair<P, P>> segments;
        Geo land;
        const int nl = c.range(1, 3);
        for (int i = 0; i < nl; ++i)
        {
            if (i > 0)
            {
                land.add({missing, missing});
            }
            P p{org.x + c.real(-2.0, 2.0 + 3.0 * n, 128) * r, org.y + c.sym(2.0, 64) * r};
            const int k = c.range(2, 6);
            for (int j = 0; j < k; ++j)
            {
                p = notMissing(p);
                land.add(p);
                P q{p.x + c.sym(1.5, 64) * r, p.y + c.sym(1.5, 64) * r};
                if (dist(p, q) < 0.05 * r)
                {
                    q.x += 0.3 * r;
                }
                q = notMissing(q);
                if (j + 1 < k)
                {
                    segments.push_back({p, q});
                }
                p = q;
            }
        }
        const size_t which = c.draw(start.size());
        size_t s = c.draw(size[which]), e = c.draw(size[which]);
        if (s > e && n > 1)
        {
            std::swap(s, e);
        }
        const int gs = static_cast<int>(start[which] + s), ge = static_cast<int>(start[which] + e);
        PBT_LOG(c, "snap polygons ", str(geo.pts()), " land ", str(land.pts()), " from ", gs, " to ", ge);
        std::vector<char> moves(geo.size(), 0);
        if (gs == 0 && ge == 0)
        {
            std::fill(moves.begin(), moves.begin() + static_cast<long>(size[0]), 1);
        }
        else
        {
            for (size_t i = s;; i = (i + 1) % size[which])
            {
                moves[start[which] + i] = 1;
                if (i == e)
                {
                    break;
                }
            }
        }
        const Geo before = geo;
        const int id = newState(0);
        auto gl = geo.list();
        c.op("polygon_snap");
        must(api::mkernel_polygon_snap_to_landboundary(id, land.list(), gl, gs, ge), "polygon_snap_to_landboundary");
        const double tol = 1e-9 * (std::abs(org.x) + std::abs(org.y) + 10 * r);
        for (size_t i = 0; i < geo.size(); ++i)
        {
            const P p = before.at(i), q = geo.at(i);
            if (!moves[i])
            {
                PBT_CHECK(sameP(p, q), "other-point", "point ", i, " is not in the range and changed from ", str(p), " to ", str(q));
                continue;
            }
            double best = 1e300, on = 1e300;
            for (auto& [a, b] : segments)
            {
                best = std::min(best, segDist(p, a, b));
                on = std::min(on, segDist(q, a, b));
            }
            PBT_CHECK(on <= tol, "not-on-land", "point ", i, " ", str(p), " was snapped to ", str(q), ", which is not on the land boundary");
            PBT_CHECK(std::abs(dist(p, q) - best) <= tol, "not-nearest", "point ", i, " ", str(p), " was snapped to ", str(q), " at distance ", dist(p, q), ", the nearest point is at ", best);
        }
        ++c.evaluations;
        c.nontrivial();
    }

    const pbt::Register reg("C24",
                            "refine: points were added; linear: the refined part has at least three points; offset and snap: every case",
                            150000, 5000000,
                            {{"refine", refine, 2}, {"linear", linearRefine, 3}, {"offset", offset, 3}, {"snap", snap, 2}});
} // namespace
