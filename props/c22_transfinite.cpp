// C22: splines, transfinite grids and the metrics of grid lines follow their definitions.
#include "../harness/ops.hpp"
using namespace mk;

namespace
{
    // ------------------------------------------------------------------------------------ splines
    /// second derivatives of the natural cubic spline through equidistant values
    std::vector<double> natural(const std::vector<double>& v)
    {
        const size_t n = v.size();
        std::vector<double> m(n, 0.0);
        if (n < 3)
        {
            return m;
        }
        // dense elimination of m[i-1] + 4 m[i] + m[i+1] = 6 (v[i-1] - 2 v[i] + v[i+1])
        const size_t k = n - 2;
        std::vector<std::vector<double>> a(k, std::vector<double>(k + 1, 0.0));
        for (size_t i = 0; i < k; ++i)
        {
            a[i][i] = 4;
            if (i > 0)
            {
                a[i][i - 1] = 1;
            }
            if (i + 1 < k)
            {
                a[i][i + 1] = 1;
            }
            a[i][k] = 6 * (v[i] - 2 * v[i + 1] + v[i + 2]);
        }
        for (size_t i = 0; i < k; ++i)
        {
            for (size_t r = i + 1; r < k; ++r)
            {
                const double f = a[r][i] / a[i][i];
                for (size_t q = i; q <= k; ++q)
                {
                    a[r][q] -= f * a[i][q];
                }
            }
        }
        for (size_t i = k; i-- > 0;)
        {
            double s = a[i][k];
            for (size_t q = i + 1; q < k; ++q)
            {
                s -= a[i][q] * m[q + 1];
            }
            m[i + 1] = s / a[i][i];
        }
        return m;
    }

    void splines(Case& c)
    {
        const int nSplines = c.range(1, 3), between = c.range(0, 12);
        Geo in;
        std::vector<std::vector<P>> s;
        size_t size = 0;
        for (int k = 0; k < nSplines; ++k)
        {
            std::vector<P> p;
            const int n = c.range(2, c.thorough ? 12 : 7);
            const bool straight = c.coin(0.15);
            P q{c.sym(1000, 400), c.sym(1000, 400)};
            const P d{c.sym(30, 60) + 0.3, c.sym(30, 60) + 0.4};
            for (int i = 0; i < n; ++i)
            {
                p.push_back(notMissing(q));
                q = q + (straight ? d : P{c.sym(60, 240) + 0.13, c.sym(60, 240) + 0.17});
            }
            if (k > 0)
            {
                in.add({missing, missing});
                ++size;
            }
            for (auto& x : p)
            {
                in.add(x);
            }
            size += p.size() + (p.size() - 1) * static_cast<size_t>(between);
            s.push_back(p);
            PBT_LOG(c, "spline ", str(p));
        }
        Geo out;
        for (size_t i = 0; i < size + 8; ++i)
        {
            out.add({-12345.0, -12345.0});
        }
        PBT_LOG(c, "get_splines with ", between, " points between");
        c.op("get_splines");
        auto li = in.list(), lo = out.list();
        must(api::mkernel_get_splines(li, lo, between), "get_splines");
        ++c.evaluations;
        const auto r = out.pts();
        size_t at = 0;
        for (size_t k = 0; k < s.size(); ++k)
        {
            if (k > 0)
            {
                PBT_CHECK(r[at].x == missing && r[at].y == missing, "spline:separator", "no separator at ", at, " but ", str(r[at]));
                ++at;
            }
            std::vector<double> x, y;
            double ext = 1;
            for (auto& p : s[k])
            {
                x.push_back(p.x);
                y.push_back(p.y);
                ext = std::max({ext, std::abs(p.x), std::abs(p.y)});
            }
            const auto mx = natural(x), my = natural(y);
            for (size_t i = 0; i < s[k].size(); ++i)
            {
                PBT_CHECK(r[at] == s[k][i], "spline:control", "point ", at, " is ", str(r[at]), " and not the support point ", str(s[k][i]));
                ++at;
                for (int b = 1; b <= between && i + 1 < s[k].size(); ++b)
                {
                    const double t = static_cast<double>(b) / (between + 1), u = 1 - t;
                    const P want{u * x[i] + t * x[i + 1] + ((u * u * u - u) * mx[i] + (t * t * t - t) * mx[i + 1]) / 6, u * y[i] + t * y[i + 1] + ((u * u * u - u) * my[i] + (t * t * t - t) * my[i + 1]) / 6};
                    if (std::abs(want.x - missing) < 1e-3 || std::abs(want.y - missing) < 1e-3)
                    {
                        throw pbt::Discard{"a point with the missing value"};
                    }
                    PBT_CHECK(dist(r[at], want) <= 1e-9 * ext, "spline:point", "point ", at, " is ", str(r[at]), " instead of ", str(want));
                    ++at;
                }
            }
        }
        PBT_CHECK(at == size && r[at].x == -12345.0, "spline:end", "more points than expected were written");
        c.nontrivial();
    }

    // ------------------------------------------------------------------------------------ metrics
    void metrics(Case& c)
    {
        reset();
        const int id = newState(0);
        Curvi g;
        g.n = c.range(2, 7);
        g.m = c.range(2, 7);
        const double h = std::array<double, 3>{1, 10, 1000}[static_cast<size_t>(c.range(0, 2))];
        const double jitter = c.coin(0.7) ? 0.35 : 0.0;
        for (int i = 0; i < g.n; ++i)
        {
            for (int j = 0; j < g.m; ++j)
            {
                g.nodes.push_back(notMissing({h * (j + 0.05 * j * j + c.sym(jitter, 64)) + 0.25 * h, h * (i + c.sym(jitter, 64)) + 0.5 * h}));
            }
        }
        std::vector<bool> gone(g.nodes.size(), false);
        const int holes = c.coin(0.4) ? c.range(1, 3) : 0;
        for (int k = 0; k < holes; ++k)
        {
            g.nodes[c.draw(g.nodes.size())] = P{missing, missing};
        }
        PBT_LOG(c, "grid ", g.n, "x", g.m, " ", str(g.nodes));
        must(setCurvi(id, g), "curvilinear_set");
        const auto k = getCurvi(id);
        if (k.n != g.n || k.m != g.m)
        {
            throw pbt::Discard{"the grid was trimmed"};
        }
        g = k;
        bool any = false;
        for (int dir = 0; dir < 2; ++dir)
        {
            // 0: m direction, 1: n direction
            int code = 0;
            (void)code;
            std::vector<double> sm(g.nodes.size() + 1, -5.0), cu(g.nodes.size() + 1, -5.0);
            PBT_LOG(c, "smoothness and curvature, direction ", dir);
            must(api::mkernel_curvilinear_compute_smoothness(id, dir, sm.data()), "curvilinear_compute_smoothness");
            must(api::mkernel_curvilinear_compute_curvature(id, dir, cu.data()), "curvilinear_compute_curvature");
            ++c.evaluations;
            PBT_CHECK(sm.back() == -5.0 && cu.back() == -5.0, "metrics:size", "written beyond the nodes of the grid");
            const int di = dir == 1 ? 1 : 0, dj = 1 - di;
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    const double s = sm[static_cast<size_t>(i * g.m + j)], q = cu[static_cast<size_t>(i * g.m + j)];
                    const int i0 = i - di, j0 = j - dj, i1 = i + di, j1 = j + dj;
                    const bool inside = i0 >= 0 && j0 >= 0 && i1 < g.n && j1 < g.m && g.at(i0, j0).valid() && g.at(i, j).valid() && g.at(i1, j1).valid();
                    if (!inside)
                    {
                        PBT_CHECK(s == missing && q == missing, "metrics:undefined", "direction ", dir, " node (", i, ",", j, ") has no two neighbours, but values ", s, " and ", q);
                        continue;
                    }
                    const P a = g.at(i0, j0), b = g.at(i, j), e = g.at(i1, j1);
                    const double l1 = dist(a, b), l2 = dist(b, e);
                    const double ws = l1 == 0 || l2 == 0 ? 1.0 : std::max(l1 / l2, l2 / l1);
                    PBT_CHECK(std::abs(s - ws) <= 1e-9 * ws, "metrics:smoothness", "direction ", dir, ": the smoothness of node (", i, ",", j, ") is ", s, " instead of ", ws);
                    const P u = b - a, v = e - b, w = e - a;
                    const double area = u.x * v.y - u.y * v.x, dot = v.x * w.x + v.y * w.y;
                    if (std::abs(area) > 1e-9 * l1 * l2 && std::abs(dot) > 1e-6 * l2 * len(w))
                    {
                        const double wq = 1000.0 * std::abs(area) / (l1 * std::abs(dot));
                        PBT_CHECK(std::abs(q - wq) <= 1e-6 * wq, "metrics:curvature", "direction ", dir, ": the curvature of node (", i, ",", j, ") is ", q, " instead of ", wq);
                        c.label("curvature judged");
                    }
                    else if (area == 0)
                    {
                        PBT_CHECK(q >= 0 && q <= 0.00101, "metrics:straight", "direction ", dir, ": the curvature of node (", i, ",", j, ") on a straight line is ", q);
                    }
                    any = true;
                }
            }
        }
        if (any)
        {
            c.nontrivial();
        }
    }

    // -------------------------------------------------------------------------------- transfinite
    /// a coordinate with the missing value means something else
    void avoidMissing(const std::vector<P>& p)
    {
        for (auto& q : p)
        {
            if (std::abs(q.x - missing) < 1e-3 || std::abs(q.y - missing) < 1e-3)
            {
                throw pbt::Discard{"a point with the missing value"};
            }
        }
    }

    struct Loop
    {
        std::vector<P> p; // not closed
        int first = 0, second = 0, third = 0;
    };

    std::string describe(const Loop& l) { return str(l.p) + " nodes " + std::to_string(l.first) + " " + std::to_string(l.second) + " " + std::to_string(l.third); }

    int run(int id, const Loop& l, bool fourth, Curvi& g, bool triangle = false)
    {
        Geo poly;
        for (auto& p : l.p)
        {
            poly.add(p);
        }
        poly.add(l.p[0]);
        auto list = poly.list();
        const int rc = triangle ? api::mkernel_curvilinear_compute_transfinite_from_triangle(id, list, l.first, l.second, l.third) : api::mkernel_curvilinear_compute_transfinite_from_polygon(id, list, l.first, l.second, l.third, fourth);
        if (rc == 0)
        {
            g = getCurvi(id);
        }
        return rc;
    }

    /// points of a side from a (included) to b (not included)
    void side(Case& c, std::vector<P>& p, P a, P b, int n, double bulge, bool uneven)
    {
        const P d = b - a, nrm{-d.y, d.x};
        const double f = c.sym(bulge, 16), e = uneven ? c.real(0.6, 1.6, 16) : 1.0;
        for (int i = 0; i < n; ++i)
        {
            const double t = std::pow(static_cast<double>(i) / n, e);
            p.push_back(a + t * d + (f * 4 * t * (1 - t)) * nrm);
        }
    }

    void transfinite(Case& c)
    {
        reset();
        const int id = newState(0);
        const int nM = c.range(1, 6), nN = c.range(1, 6);
        const bool fourth = c.coin(0.6);
        const double h = std::array<double, 3>{1, 10, 1000}[static_cast<size_t>(c.range(0, 2))];
        const bool regular = c.coin(0.25);
        const P A{0, 0}, B{h * 10, h * (regular ? 0 : c.sym(3, 32))}, D{h * c.sym(3, 32), h * (8 + c.sym(3, 32))};
        P C = B + D;
        if (!regular)
        {
            C = C + P{h * c.sym(2.5, 32), h * c.sym(2.5, 32)};
        }
        const double bulge = regular ? 0 : 0.12;
        std::vector<P> p;
        side(c, p, A, B, nM, bulge, !regular);
        side(c, p, B, C, nN, bulge, !regular);
        side(c, p, C, D, nM, bulge, !regular);
        int extra = nN;
        if (!fourth)
        {
            // the fourth side may have any number of points, they are not used
            extra = c.range(1, 5) + 1;
            // the shortest way from the first to the second corner must be the side
            while (nM + nN + extra < nM)
            {
                ++extra;
            }
        }
        side(c, p, D, A, fourth ? nN : extra, bulge, !regular);
        const int K = static_cast<int>(p.size());
        Loop l;
        l.p = p;
        l.first = 0;
        l.second = nM;
        l.third = nM + nN;
        int fourthNode = 2 * nM + nN;
        auto turn = [&](Loop& q, int shift, bool reverse, int& f4)
        {
            auto map = [&](int i)
            { int r = (i + shift) % K; if (reverse) { r = (K - r) % K; } return r; };
            std::vector<P> r(static_cast<size_t>(K));
            for (int i = 0; i < K; ++i)
            {
                r[static_cast<size_t>(map(i))] = q.p[static_cast<size_t>(i)];
            }
            q.p = r;
            q.first = map(q.first);
            q.second = map(q.second);
            q.third = map(q.third);
            f4 = map(f4);
        };
        const int shift = c.range(0, K - 1);
        const bool reverse = c.coin();
        // the same grid from any start point and direction of the polygon
        Loop t = l;
        int f4 = fourthNode;
        turn(t, shift, reverse, f4);
        avoidMissing(t.p);
        PBT_LOG(c, "transfinite_from_polygon ", describe(t), " fourth side ", fourth);
        c.op("curvilinear_compute_transfinite_from_polygon");
        Curvi g;
        must(run(id, t, fourth, g), "curvilinear_compute_transfinite_from_polygon");
        ++c.evaluations;
        PBT_CHECK(g.n == nM + 1 && g.m == nN + 1, "transfinite:size", "the grid has ", g.n, "x", g.m, " nodes instead of ", nM + 1, "x", nN + 1);
        const double tol = 1e-9 * h * 20;
        auto expect = [&](int i, int j, P want, const char* what)
        { PBT_CHECK(dist(g.at(i, j), want) <= tol, std::string("transfinite:") + what, "node (", i, ",", j, ") is ", str(g.at(i, j)), " instead of ", str(want)); };
        for (int i = 0; i <= nM; ++i)
        {
            expect(i, 0, p[static_cast<size_t>(i)], "first-side");
            expect(i, nN, p[static_cast<size_t>(2 * nM + nN - i) % p.size()], "third-side");
        }
        for (int j = 0; j <= nN; ++j)
        {
            expect(nM, j, p[static_cast<size_t>(nM + j)], "second-side");
            const double s = static_cast<double>(j) / nN;
            expect(0, j, fourth ? p[static_cast<size_t>((K - j) % K)] : (1 - s) * A + s * D, "fourth-side");
        }
        for (auto& q : g.nodes)
        {
            PBT_CHECK(std::isfinite(q.x) && std::isfinite(q.y) && q.valid(), "transfinite:finite", "a node is ", str(q));
        }
        if (regular)
        {
            for (int i = 0; i <= nM; ++i)
            {
                for (int j = 0; j <= nN; ++j)
                {
                    const double u = static_cast<double>(i) / nM, v = static_cast<double>(j) / nN;
                    const P want = u * B + v * D;
                    PBT_CHECK(dist(g.at(i, j), want) <= 1e-6 * h, "transfinite:parallelogram", "node (", i, ",", j, ") of a regular parallelogram is ", str(g.at(i, j)), " instead of ", str(want));
                }
            }
            c.label("parallelogram");
        }
        // moving, turning and scaling the polygon does the same to the grid
        {
            const double a = c.real(0, 6.28, 64), k = c.real(0.5, 3, 16);
            const P o{h * c.sym(50, 64), h * c.sym(50, 64)};
            auto f = [&](P q)
            { return P{o.x + k * (std::cos(a) * q.x - std::sin(a) * q.y), o.y + k * (std::sin(a) * q.x + std::cos(a) * q.y)}; };
            Loop q = t;
            for (auto& x : q.p)
            {
                x = f(x);
            }
            avoidMissing(q.p);
            PBT_LOG(c, "the same turned by ", a, ", scaled by ", k, " and moved by ", str(o));
            Curvi r;
            must(run(id, q, fourth, r), "curvilinear_compute_transfinite_from_polygon");
            PBT_CHECK(r.n == g.n && r.m == g.m, "transfinite:similar-size", "another size");
            for (size_t i = 0; i < g.nodes.size(); ++i)
            {
                PBT_CHECK(dist(r.nodes[i], f(g.nodes[i])) <= 1e-6 * h * k, "transfinite:similar", "node ", i, " is ", str(r.nodes[i]), " instead of ", str(f(g.nodes[i])));
            }
        }
        // seen from the other corners it is the same grid
        if (fourth && nM > 1 && nN > 1)
        {
            Loop q = t;
            q.first = t.second;
            q.second = t.first;
            q.third = f4;
            Curvi r;
            PBT_LOG(c, "from the corners ", q.first, " ", q.second, " ", q.third);
            must(run(id, q, true, r), "curvilinear_compute_transfinite_from_polygon");
            PBT_CHECK(r.n == g.n && r.m == g.m, "transfinite:mirrored-size", "another size");
            for (int i = 0; i <= nM; ++i)
            {
                for (int j = 0; j <= nN; ++j)
                {
                    PBT_CHECK(dist(r.at(i, j), g.at(nM - i, j)) <= 0.5 * h, "transfinite:mirrored", "node (", i, ",", j, ") is ", str(r.at(i, j)), " instead of ", str(g.at(nM - i, j)));
                }
            }
            Loop s = t;
            s.first = t.second;
            s.second = t.third;
            s.third = f4;
            PBT_LOG(c, "from the corners ", s.first, " ", s.second, " ", s.third);
            must(run(id, s, true, r), "curvilinear_compute_transfinite_from_polygon");
            PBT_CHECK(r.n == g.m && r.m == g.n, "transfinite:turned-size", "another size");
            for (int i = 0; i <= nM; ++i)
            {
                for (int j = 0; j <= nN; ++j)
                {
                    PBT_CHECK(dist(r.at(j, nM - i), g.at(i, j)) <= 0.5 * h, "transfinite:turned", "node (", j, ",", nM - i, ") is ", str(r.at(j, nM - i)), " instead of ", str(g.at(i, j)));
                }
            }
            c.label("other corners");
        }
        if (nM > 1 && nN > 1)
        {
            c.nontrivial();
        }
    }

    /// corners that are no nodes of the polygon or not different are refused and nothing changes
    void corners(Case& c)
    {
        reset();
        const int id = newState(0);
        Loop l;
        const int K = c.range(4, 12);
        for (int i = 0; i < K; ++i)
        {
            const double a = 2 * M_PI * i / K;
            l.p.push_back({10 * std::cos(a), 10 * std::sin(a)});
        }
        auto pick = [&]
        { return c.coin(0.3) ? std::array<int, 6>{-1, -2, K + 1, K + 5, 1000000, -2147483647}[static_cast<size_t>(c.range(0, 5))] : c.range(0, K - 1); };
        l.first = pick();
        l.second = pick();
        l.third = pick();
        const bool tri = c.coin(0.4), fourth = c.coin();
        Curvi before;
        before.n = before.m = 2;
        before.nodes = {{0, 0}, {1, 0}, {0, 1}, {1, 1}};
        must(setCurvi(id, before), "curvilinear_set");
        before = getCurvi(id);
        PBT_LOG(c, tri ? "transfinite_from_triangle " : "transfinite_from_polygon ", describe(l), " fourth ", fourth);
        c.op(tri ? "curvilinear_compute_transfinite_from_triangle" : "curvilinear_compute_transfinite_from_polygon");
        Curvi g;
        const int rc = run(id, l, fourth, g, tri);
        ++c.evaluations;
        auto in = [&](int i)
        { return i >= 0 && i < K; };
        const bool fine = in(l.first) && in(l.second) && in(l.third) && l.first != l.second && l.second != l.third && l.first != l.third;
        if (!fine)
        {
            PBT_CHECK(rc != 0, "corners:accepted", "corners that are not three different nodes of the polygon were accepted");
            c.label("invalid corners");
        }
        if (rc != 0)
        {
            const auto after = getCurvi(id);
            PBT_CHECK(after.n == before.n && after.m == before.m && after.nodes == before.nodes, "corners:changed", "the grid changed by a call that failed");
            c.nontrivial();
        }
        else
        {
            for (auto& q : g.nodes)
            {
                PBT_CHECK(!q.valid() || (std::isfinite(q.x) && std::isfinite(q.y) && len(q) < 1000), "corners:wild", "a node at ", str(q));
            }
        }
    }

    void triangle(Case& c)
    {
        reset();
        const int id = newState(0);
        const int n1 = c.range(1, 4), n2 = c.range(1, 4), n3 = c.range(1, 4);
        // sides with n1+n2, n3+n1 and n2+n3 segments: the three blocks are n1 x n3, n3 x n2 and n2 x n1
        const double h = std::array<double, 3>{1, 10, 1000}[static_cast<size_t>(c.range(0, 2))];
        const bool straight = c.coin(0.4);
        const P A{0, 0}, B{10 * h, h * c.sym(3, 32)}, C{h * (5 + c.sym(3, 32)), h * (8 + c.sym(2, 32))};
        std::vector<P> p;
        side(c, p, A, B, n1 + n2, straight ? 0 : 0.1, !straight);
        side(c, p, B, C, n3 + n1, straight ? 0 : 0.1, !straight);
        side(c, p, C, A, n2 + n3, straight ? 0 : 0.1, !straight);
        const int K = static_cast<int>(p.size());
        const int shift = c.range(0, K - 1);
        Loop l;
        l.p.resize(p.size());
        for (int i = 0; i < K; ++i)
        {
            l.p[static_cast<size_t>((i + shift) % K)] = p[static_cast<size_t>(i)];
        }
        avoidMissing(l.p);
        l.first = shift;
        l.second = (shift + n1 + n2) % K;
        l.third = (shift + 2 * n1 + n2 + n3) % K;
        PBT_LOG(c, "transfinite_from_triangle ", describe(l));
        c.op("curvilinear_compute_transfinite_from_triangle");
        Curvi g;
        must(run(id, l, false, g, true), "curvilinear_compute_transfinite_from_triangle");
        ++c.evaluations;
        // every segment of the polygon is an edge of the grid, and every node of the polygon a node
        const double tol = 1e-9 * h * 20;
        std::set<std::pair<int, int>> seen;
        auto which = [&](P q)
        {
            for (int i = 0; i < K; ++i)
            {
                if (dist(l.p[static_cast<size_t>(i)], q) <= tol)
                {
                    return i;
                }
            }
            return -1;
        };
        int valid = 0;
        for (int i = 0; i < g.n; ++i)
        {
            for (int j = 0; j < g.m; ++j)
            {
                if (!g.at(i, j).valid())
                {
                    continue;
                }
                ++valid;
                PBT_CHECK(std::isfinite(g.at(i, j).x) && std::isfinite(g.at(i, j).y), "triangle:finite", "a node is not a number");
                const int a = which(g.at(i, j));
                for (int k = 0; k < 2; ++k)
                {
                    const int r = i + k, s = j + 1 - k;
                    if (a >= 0 && r < g.n && s < g.m && g.at(r, s).valid())
                    {
                        const int b = which(g.at(r, s));
                        if (b >= 0)
                        {
                            seen.insert({std::min(a, b), std::max(a, b)});
                        }
                    }
                }
            }
        }
        PBT_CHECK((g.n == n1 + n3 + 1 && g.m == n2 + n3 + 1) || (g.m == n1 + n3 + 1 && g.n == n2 + n3 + 1), "triangle:size", "the grid has ", g.n, "x", g.m, " nodes instead of ", n1 + n3 + 1, "x", n2 + n3 + 1);
        PBT_CHECK(valid == g.n * g.m - n3 * n3, "triangle:valid", valid, " of the ", g.n * g.m, " nodes are valid instead of ", g.n * g.m - n3 * n3);
        if (straight)
        {
            for (auto& x : g.nodes)
            {
                auto left = [&](P u, P v)
                { return ((v - u).x * (x - u).y - (v - u).y * (x - u).x) / dist(u, v) >= -tol; };
                PBT_CHECK(!x.valid() || (left(A, B) && left(B, C) && left(C, A)), "triangle:inside", "the node ", str(x), " is outside the triangle");
            }
            c.label("straight triangle");
        }
        for (int i = 0; i < K; ++i)
        {
            const int b = (i + 1) % K;
            PBT_CHECK(seen.count({std::min(i, b), std::max(i, b)}), "triangle:boundary", "the segment ", i, " of the polygon from ", str(l.p[static_cast<size_t>(i)]), " is not an edge of the grid");
        }
        // moving, turning and scaling the polygon does the same to the grid
        const double a = c.real(0, 6.28, 64), k = c.real(0.5, 3, 16);
        const P o{h * c.sym(50, 64), h * c.sym(50, 64)};
        auto f = [&](P q)
        { return P{o.x + k * (std::cos(a) * q.x - std::sin(a) * q.y), o.y + k * (std::sin(a) * q.x + std::cos(a) * q.y)}; };
        Loop q = l;
        for (auto& x : q.p)
        {
            x = f(x);
        }
        avoidMissing(q.p);
        PBT_LOG(c, "the same turned by ", a, ", scaled by ", k, " and moved by ", str(o));
        Curvi r;
        must(run(id, q, false, r, true), "curvilinear_compute_transfinite_from_triangle");
        PBT_CHECK(r.n == g.n && r.m == g.m, "triangle:similar-size", "another size");
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            PBT_CHECK(r.nodes[i].valid() == g.nodes[i].valid(), "triangle:similar-valid", "node ", i);
            PBT_CHECK(!g.nodes[i].valid() || dist(r.nodes[i], f(g.nodes[i])) <= 1e-6 * h * k, "triangle:similar", "node ", i, " is ", str(r.nodes[i]), " instead of ", str(f(g.nodes[i])));
        }
        // the polygon from another start point gives the same grid
        Loop s = l;
        const int shift2 = c.range(0, K - 1);
        for (int i = 0; i < K; ++i)
        {
            s.p[static_cast<size_t>((i + shift2) % K)] = l.p[static_cast<size_t>(i)];
        }
        s.first = (l.first + shift2) % K;
        s.second = (l.second + shift2) % K;
        s.third = (l.third + shift2) % K;
        PBT_LOG(c, "the same from start ", shift2);
        must(run(id, s, false, r, true), "curvilinear_compute_transfinite_from_triangle");
        PBT_CHECK(r.n == g.n && r.m == g.m, "triangle:start-size", "another size");
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            PBT_CHECK(r.nodes[i].valid() == g.nodes[i].valid() && (!g.nodes[i].valid() || dist(r.nodes[i], g.nodes[i]) <= tol), "triangle:start", "node ", i, " is ", str(r.nodes[i]), " instead of ", str(g.nodes[i]));
        }
        c.nontrivial();
    }

    // ------------------------------------------------------------------------------ from splines
    int runSplines(int id, const std::vector<std::vector<P>>& s, int nM, int nN, Curvi& g)
    {
        Geo in;
        for (size_t k = 0; k < s.size(); ++k)
        {
            if (k > 0)
            {
                in.add({missing, missing});
            }
            for (auto& x : s[k])
            {
                in.add(x);
            }
        }
        auto list = in.list();
        meshkernel::CurvilinearParameters p;
        p.m_refinement = nM;
        p.n_refinement = nN;
        p.smoothing_iterations = 10;
        p.smoothing_parameter = 0.5;
        p.attraction_parameter = 0.0;
        const int rc = api::mkernel_curvilinear_compute_transfinite_from_splines(id, list, p);
        if (rc == 0)
        {
            g = getCurvi(id);
        }
        return rc;
    }

    /// The grid with its M and N direction reversed where asked
    Curvi oriented(const Curvi& g, bool flipN, bool flipM)
    {
        Curvi r = g;
        for (int i = 0; i < g.n; ++i)
        {
            for (int j = 0; j < g.m; ++j)
            {
                r.at(i, j) = g.at(flipN ? g.n - 1 - i : i, flipM ? g.m - 1 - j : j);
            }
        }
        return r;
    }

    /// A lattice of splines: the grid has the crossings as nodes, follows the splines and divides each cell.
    void fromSplines(Case& c)
    {
        const double h = c.real(0.5, 200, 64);
        const int rows = c.range(2, 4), cols = c.range(2, 4), fM = c.range(1, 5), fN = c.range(1, 5);
        const double a = c.real(0, 6.28, 64), shear = c.real(-0.5, 0.5, 16), stretch = c.real(0.6, 1.6, 16);
        const bool equal = c.coin(0.4), curved = c.coin(0.4);
        const P o{h * c.sym(50, 64), h * c.sym(50, 64)};
        auto place = [&](double u, double v)
        {
            const double x = u + shear * v, y = stretch * v;
            return P{o.x + h * (std::cos(a) * x - std::sin(a) * y), o.y + h * (std::sin(a) * x + std::cos(a) * y)};
        };
        auto ticks = [&](int n)
        {
            std::vector<double> t{0};
            for (int i = 1; i < n; ++i)
            {
                t.push_back(t.back() + (equal ? 1.0 : c.real(0.5, 2.0, 16)));
            }
            return t;
        };
        const auto us = ticks(cols), vs = ticks(rows);
        // the splines: 0..rows-1 along u, then along v
        std::vector<std::vector<P>> base;
        for (int k = 0; k < rows + cols; ++k)
        {
            const bool alongU = k < rows;
            const auto& t = alongU ? us : vs;
            const double at = alongU ? vs[static_cast<size_t>(k)] : us[static_cast<size_t>(k - rows)];
            const double from = t.front() - c.real(0.1, 0.9, 16), to = t.back() + c.real(0.1, 0.9, 16);
            const int n = curved ? c.range(3, 5) : c.range(2, 4);
            std::vector<P> p;
            for (int i = 0; i < n; ++i)
            {
                const double s = from + (to - from) * i / (n - 1), w = at + (curved ? 0.08 * c.sym(1, 16) : 0.0);
                p.push_back(alongU ? place(s, w) : place(w, s));
                for (double x : t)
                {
                    // a crossing at a control point belongs to two segments, or by rounding to none: not claimed
                    if (std::abs(s - x) < 1e-3)
                    {
                        throw pbt::Discard{"a control point at a crossing"};
                    }
                }
                const P q = notMissing(p.back());
                if (q.x != p.back().x || q.y != p.back().y)
                {
                    throw pbt::Discard{"a coordinate near the missing value"};
                }
            }
            base.push_back(p);
        }
        struct Variant
        {
            std::vector<std::vector<P>> s;
            bool alongU;
        };
        auto variant = [&]
        {
            std::vector<int> order(static_cast<size_t>(rows + cols));
            for (size_t i = 0; i < order.size(); ++i)
            {
                order[i] = static_cast<int>(i);
            }
            for (size_t i = order.size(); i-- > 1;)
            {
                std::swap(order[i], order[static_cast<size_t>(c.range(0, static_cast<int>(i)))]);
            }
            Variant v;
            v.alongU = order[0] < rows;
            for (int k : order)
            {
                v.s.push_back(base[static_cast<size_t>(k)]);
                if (c.coin(0.5))
                {
                    std::reverse(v.s.back().begin(), v.s.back().end());
                }
            }
            return v;
        };
        const int id = newState(0);
        auto compute = [&](const Variant& v, Curvi& g)
        {
            // refinement fM is meant along u, fN along v
            const int nM = v.alongU ? fM : fN, nN = v.alongU ? fN : fM;
            for (auto& x : v.s)
            {
                PBT_LOG(c, "spline ", str(x));
            }
            PBT_LOG(c, "transfinite_from_splines with m_refinement ", nM, " n_refinement ", nN);
            c.op("curvilinear_compute_transfinite_from_splines");
            must(runSplines(id, v.s, nM, nN, g), "curvilinear_compute_transfinite_from_splines");
            ++c.evaluations;
            const int wantM = v.alongU ? (cols - 1) * fM : (rows - 1) * fN, wantN = v.alongU ? (rows - 1) * fN : (cols - 1) * fM;
            PBT_CHECK(g.m == wantM + 1 && g.n == wantN + 1, "fromSplines:size", "the grid has ", g.n, "x", g.m, " nodes instead of ", wantN + 1, "x", wantM + 1);
            // as a grid whose columns run along u
            if (!v.alongU)
            {
                Curvi t;
                t.n = g.m;
                t.m = g.n;
                t.nodes.resize(g.nodes.size());
                for (int i = 0; i < t.n; ++i)
                {
                    for (int j = 0; j < t.m; ++j)
                    {
                        t.at(i, j) = g.at(j, i);
                    }
                }
                g = t;
            }
            for (auto& q : g.nodes)
            {
                PBT_CHECK(std::isfinite(q.x) && std::isfinite(q.y) && q.valid(), "fromSplines:finite", "a node is ", str(q));
            }
            const P org = place(us.front(), vs.front());
            Curvi best = g;
            for (int k = 1; k < 4; ++k)
            {
                Curvi r = oriented(g, k & 1, k & 2);
                auto err = [&](const Curvi& q)
                { return dist(q.at(0, 0), org) + dist(q.at(q.n - 1, q.m - 1), place(us.back(), vs.back())) + dist(q.at(0, q.m - 1), place(us.back(), vs.front())); };
                if (err(r) < err(best))
                {
                    best = r;
                }
            }
            g = best;
        };
        Variant v = variant();
        Curvi g;
        compute(v, g);
        const double tol = 1e-4 * h;
        if (!curved)
        {
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    const bool onRow = i % fN == 0, onCol = j % fM == 0;
                    const size_t r = static_cast<size_t>(std::min(i / fN, rows - 2)), q = static_cast<size_t>(std::min(j / fM, cols - 2));
                    if (onRow && onCol)
                    {
                        const P want = place(us[static_cast<size_t>(j / fM)], vs[static_cast<size_t>(i / fN)]);
                        PBT_CHECK(dist(g.at(i, j), want) <= tol, "fromSplines:crossing", "the node (", i, ",", j, ") is ", str(g.at(i, j)), " but its two splines cross at ", str(want));
                    }
                    else if (equal)
                    {
                        const P want = place(us.front() + static_cast<double>(j) / fM, vs.front() + static_cast<double>(i) / fN);
                        PBT_CHECK(dist(g.at(i, j), want) <= tol, "fromSplines:uniform", "the node (", i, ",", j, ") of a regular lattice is ", str(g.at(i, j)), " instead of ", str(want));
                    }
                    else
                    {
                        // in lattice coordinates
                        const double dx = (g.at(i, j).x - o.x) / h, dy = (g.at(i, j).y - o.y) / h;
                        const double x = std::cos(a) * dx + std::sin(a) * dy, y = -std::sin(a) * dx + std::cos(a) * dy;
                        const double vv = y / stretch, uu = x - shear * vv;
                        const double e = 1e-4;
                        PBT_CHECK(!onRow || std::abs(vv - vs[static_cast<size_t>(i / fN)]) <= e, "fromSplines:on-spline", "the node (", i, ",", j, ") ", str(g.at(i, j)), " is not on its spline");
                        PBT_CHECK(!onCol || std::abs(uu - us[static_cast<size_t>(j / fM)]) <= e, "fromSplines:on-spline", "the node (", i, ",", j, ") ", str(g.at(i, j)), " is not on its spline");
                        PBT_CHECK(uu >= us[q] - e && uu <= us[q + 1] + e && vv >= vs[r] - e && vv <= vs[r + 1] + e, "fromSplines:cell", "the node (", i, ",", j, ") ", str(g.at(i, j)), " is outside its cell");
                    }
                }
            }
            c.label(equal ? "regular lattice of splines" : "lattice of splines");
        }
        // the order of the splines and their directions do not matter
        Variant w = variant();
        PBT_LOG(c, "the same in another order");
        Curvi r;
        compute(w, r);
        for (int i = 0; i < g.n; ++i)
        {
            for (int j = 0; j < g.m; ++j)
            {
                const bool spline = i % fN == 0 || j % fM == 0;
                PBT_CHECK(!spline || dist(g.at(i, j), r.at(i, j)) <= (curved ? 3e-2 : 1e-3) * h, "fromSplines:order", "the node (", i, ",", j, ") is ", str(g.at(i, j)), " and with the splines in another order ", str(r.at(i, j)));
            }
        }
        c.label(curved ? "curved splines" : "straight splines");
        c.nontrivial();
    }

    pbt::Register reg("C22",
                      "a case is non-trivial if splines were evaluated, or a grid has nodes with two neighbours on their grid line, or a transfinite grid has interior nodes",
                      600000, 12000000,
                      {{"splines", splines, 2},
                       {"metrics", metrics, 2},
                       {"transfinite", transfinite, 3},
                       {"corners", corners, 1},
                       {"triangle", triangle, 2},
                       {"fromSplines", fromSplines, 2}});
} // namespace
