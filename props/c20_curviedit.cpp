// C20: editing a curvilinear grid changes exactly what the edit says: stateful comparison with a model of the grid.
#include "../harness/gen.hpp"
#include <optional>
using namespace mk;

namespace
{
    bool has(const Curvi& g, int i, int j) { return i >= 0 && j >= 0 && i < g.n && j < g.m && g.at(i, j).valid(); }
    bool cell(const Curvi& g, int i, int j) { return has(g, i, j) && has(g, i + 1, j) && has(g, i, j + 1) && has(g, i + 1, j + 1); }

    /// drops the rows and columns without nodes at the borders
    Curvi trim(const Curvi& g, bool normalise)
    {
        Curvi h = g;
        if (normalise && !normaliseCurvi(h))
        {
            return {};
        }
        int i0 = h.n, i1 = -1, j0 = h.m, j1 = -1;
        for (int i = 0; i < h.n; ++i)
        {
            for (int j = 0; j < h.m; ++j)
            {
                if (h.at(i, j).valid())
                {
                    i0 = std::min(i0, i);
                    i1 = std::max(i1, i);
                    j0 = std::min(j0, j);
                    j1 = std::max(j1, j);
                }
            }
        }
        Curvi r;
        if (i1 < 0)
        {
            return r;
        }
        r.n = i1 - i0 + 1;
        r.m = j1 - j0 + 1;
        for (int i = i0; i <= i1; ++i)
        {
            for (int j = j0; j <= j1; ++j)
            {
                r.nodes.push_back(h.at(i, j));
            }
        }
        return r;
    }

    double extent(const Curvi& g)
    {
        double lx = 1e300, hx = -1e300, ly = 1e300, hy = -1e300, m = 0;
        for (auto& p : g.nodes)
        {
            if (p.valid())
            {
                lx = std::min(lx, p.x);
                hx = std::max(hx, p.x);
                ly = std::min(ly, p.y);
                hy = std::max(hy, p.y);
                m = std::max({m, std::abs(p.x), std::abs(p.y)});
            }
        }
        return std::max({hx - lx, hy - ly, 1e-3 * m});
    }

    void same(const std::string& key, const Curvi& want0, const Curvi& have0, double eps)
    {
        const auto want = trim(want0, true), have = trim(have0, true);
        PBT_CHECK(want.n == have.n && want.m == have.m, key + ":size", "the grid is ", have.n, "x", have.m, ", should be ", want.n, "x", want.m, "; have ", str(have), " want ", str(want));
        for (int i = 0; i < want.n; ++i)
        {
            for (int j = 0; j < want.m; ++j)
            {
                const P a = want.at(i, j), b = have.at(i, j);
                PBT_CHECK(a.valid() == b.valid(), key + ":valid", "node (", i, ",", j, ") is ", str(b), ", should be ", str(a));
                PBT_CHECK(!a.valid() || dist(a, b) <= eps, key + ":position", "node (", i, ",", j, ") is ", str(b), ", should be ", str(a), " of ", want.n, "x", want.m);
            }
        }
    }

    /// second derivatives of the natural cubic spline through p, parameter = index
    std::vector<P> second(const std::vector<P>& p)
    {
        const size_t n = p.size();
        std::vector<P> d(n, P{0, 0}), rhs(n, P{0, 0});
        std::vector<double> diag(n, 4.0);
        for (size_t i = 1; i + 1 < n; ++i)
        {
            rhs[i] = (p[i + 1] - p[i] * 2.0 + p[i - 1]) * 6.0;
            if (i > 1)
            {
                const double w = 1.0 / diag[i - 1];
                diag[i] -= w;
                rhs[i] = rhs[i] - rhs[i - 1] * w;
            }
        }
        for (size_t i = n - 1; i-- > 1;)
        {
            d[i] = (rhs[i] - d[i + 1]) * (1.0 / diag[i]);
        }
        return d;
    }
    P evalSpline(const std::vector<P>& p, const std::vector<P>& d, size_t i, double t)
    {
        if (i + 1 >= p.size())
        {
            return p.back();
        }
        const double a = 1 - t, b = t;
        return p[i] * a + p[i + 1] * b + d[i] * ((a * a * a - a) / 6.0) + d[i + 1] * ((b * b * b - b) / 6.0);
    }

    struct Run
    {
        Case& c;
        int id;
        Curvi g;          // the model
        bool affine;      // nodes are org + i*u + j*v
        P u{}, v{};       // row and column steps when affine
        bool done = false;

        bool nodeNear(P q, int i, int j) const
        {
            const double d = dist(q, g.at(i, j));
            for (int a = 0; a < g.n; ++a)
            {
                for (int b = 0; b < g.m; ++b)
                {
                    if ((a != i || b != j) && has(g, a, b) && dist(q, g.at(a, b)) < 1.001 * d + 1e-9 * extent(g))
                    {
                        return false;
                    }
                }
            }
            return true;
        }
        /// a point that has (i,j) as its nearest node
        P near(int i, int j)
        {
            const P p = g.at(i, j);
            if (c.coin(0.4))
            {
                const double h = 0.3 * extent(g) / std::max(g.n, g.m);
                const P q{p.x + c.sym(h, 64), p.y + c.sym(h, 64)};
                if (q.valid() && nodeNear(q, i, j))
                {
                    return q;
                }
            }
            if (!nodeNear(p, i, j))
            {
                throw pbt::Discard{};
            }
            return p;
        }
        std::array<int, 2> anyNode()
        {
            std::vector<std::array<int, 2>> s;
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    if (has(g, i, j))
                    {
                        s.push_back({i, j});
                    }
                }
            }
            return s[c.draw(s.size())];
        }
        struct Block
        {
            int i0, j0, i1, j1;
            P a, b;
            bool in(int i, int j) const { return i >= i0 && i <= i1 && j >= j0 && j <= j1; }
        };
        Block block()
        {
            const auto s = anyNode(), t = anyNode();
            Block k{std::min(s[0], t[0]), std::min(s[1], t[1]), std::max(s[0], t[0]), std::max(s[1], t[1]), {}, {}};
            k.a = near(s[0], s[1]);
            k.b = near(t[0], t[1]);
            return k;
        }
        /// two different nodes on one grid line
        Block line()
        {
            const auto s = anyNode();
            std::vector<std::array<int, 2>> o;
            for (int i = 0; i < g.n; ++i)
            {
                if (i != s[0] && has(g, i, s[1]))
                {
                    o.push_back({i, s[1]});
                }
            }
            for (int j = 0; j < g.m; ++j)
            {
                if (j != s[1] && has(g, s[0], j))
                {
                    o.push_back({s[0], j});
                }
            }
            if (o.empty())
            {
                throw pbt::Discard{};
            }
            const auto t = o[c.draw(o.size())];
            Block k{std::min(s[0], t[0]), std::min(s[1], t[1]), std::max(s[0], t[0]), std::max(s[1], t[1]), {}, {}};
            k.a = near(s[0], s[1]);
            k.b = near(t[0], t[1]);
            return k;
        }
        /// adopts the grid of the library as the model
        void adopt(const Curvi& h)
        {
            Curvi k = h;
            const bool any = normaliseCurvi(k);
            done = !any || k.nodes != h.nodes; // nothing left, or nodes that the library has yet to drop
            g = h;
            c.evaluations += g.nodes.size();
        }

        void compare(const std::string& key, const Curvi& want, double e)
        {
            const auto have = getCurvi(id);
            same(key, want, have, e);
            c.nontrivial();
            adopt(have);
        }

        void move()
        {
            const auto s = anyNode();
            const P from = near(s[0], s[1]);
            const double h = extent(g) / std::max(g.n, g.m);
            const P to = notMissing({g.at(s[0], s[1]).x + c.sym(h, 64), g.at(s[0], s[1]).y + c.sym(h, 64)});
            PBT_LOG(c, "move_node ", str(from), " -> ", str(to));
            c.op("move_node");
            must(api::mkernel_curvilinear_move_node(id, from.x, from.y, to.x, to.y), "curvilinear_move_node");
            Curvi want = g;
            want.at(s[0], s[1]) = to;
            affine = false;
            compare("move_node", want, 0);
        }
        void deleteNode()
        {
            const auto s = anyNode();
            const P from = near(s[0], s[1]);
            PBT_LOG(c, "delete_node ", str(from));
            c.op("delete_node");
            must(api::mkernel_curvilinear_delete_node(id, from.x, from.y), "curvilinear_delete_node");
            Curvi want = g;
            want.at(s[0], s[1]) = {missing, missing};
            compare("delete_node", want, 0);
        }
        void deleteBlock(bool interior)
        {
            const auto k = block();
            PBT_LOG(c, interior ? "delete_interior " : "delete_exterior ", str(k.a), " ", str(k.b));
            const std::string key = interior ? "delete_interior" : "delete_exterior";
            c.op(key.c_str());
            const int rc = interior ? api::mkernel_curvilinear_delete_interior(id, k.a.x, k.a.y, k.b.x, k.b.y) : api::mkernel_curvilinear_delete_exterior(id, k.a.x, k.a.y, k.b.x, k.b.y);
            if (k.i0 == k.i1 && k.j0 == k.j1)
            {
                if (rc != 0)
                {
                    return; // no area selected
                }
            }
            must(rc, key.c_str());
            Curvi want = g;
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    const bool inside = i > k.i0 && i < k.i1 && j > k.j0 && j < k.j1;
                    if (interior ? inside : !k.in(i, j))
                    {
                        want.at(i, j) = {missing, missing};
                    }
                }
            }
            compare(key, want, 0);
        }
        void derefine()
        {
            const auto k = block();
            PBT_LOG(c, "derefine ", str(k.a), " ", str(k.b));
            c.op("derefine");
            const int rc = api::mkernel_curvilinear_derefine(id, k.a.x, k.a.y, k.b.x, k.b.y);
            if (rc != 0 && k.i0 == k.i1 && k.j0 == k.j1)
            {
                return;
            }
            must(rc, "curvilinear_derefine");
            Curvi want;
            for (int i = 0; i < g.n; ++i)
            {
                if (i > k.i0 && i < k.i1)
                {
                    continue;
                }
                ++want.n;
                want.m = 0;
                for (int j = 0; j < g.m; ++j)
                {
                    if (j > k.j0 && j < k.j1)
                    {
                        continue;
                    }
                    ++want.m;
                    want.nodes.push_back(g.at(i, j));
                }
            }
            affine = false;
            compare("derefine", want, 0);
        }
        /// factors per row interval and per column interval
        void checkRefined(const std::string& key, const std::vector<int>& fi, const std::vector<int>& fj)
        {
            std::vector<int> ri(static_cast<size_t>(g.n), 0), rj(static_cast<size_t>(g.m), 0);
            for (int i = 1; i < g.n; ++i)
            {
                ri[static_cast<size_t>(i)] = ri[static_cast<size_t>(i - 1)] + fi[static_cast<size_t>(i - 1)];
            }
            for (int j = 1; j < g.m; ++j)
            {
                rj[static_cast<size_t>(j)] = rj[static_cast<size_t>(j - 1)] + fj[static_cast<size_t>(j - 1)];
            }
            Curvi want;
            want.n = ri.back() + 1;
            want.m = rj.back() + 1;
            want.nodes.assign(static_cast<size_t>(want.n * want.m), P{missing, missing});
            std::vector<char> known(want.nodes.size(), 0);
            const bool complete = std::all_of(g.nodes.begin(), g.nodes.end(), [](const P& p)
                                              { return p.valid(); });
            // the curves through the runs of nodes along each grid line
            auto onLine = [&](int i, int j, bool alongRows, double t)
            {
                // along rows: the index i varies at constant j
                std::vector<P> p;
                size_t at = 0;
                int a = alongRows ? i : j;
                while (a > 0 && (alongRows ? has(g, a - 1, j) : has(g, i, a - 1)))
                {
                    --a;
                }
                for (int b = a; alongRows ? has(g, b, j) : has(g, i, b); ++b)
                {
                    if (b == (alongRows ? i : j))
                    {
                        at = p.size();
                    }
                    p.push_back(alongRows ? g.at(b, j) : g.at(i, b));
                }
                return evalSpline(p, second(p), at, t);
            };
            for (int i = 0; i + 1 < g.n; ++i)
            {
                for (int j = 0; j + 1 < g.m; ++j)
                {
                    if (!cell(g, i, j))
                    {
                        continue;
                    }
                    const int a = fi[static_cast<size_t>(i)], b = fj[static_cast<size_t>(j)];
                    for (int r = 0; r <= a; ++r)
                    {
                        for (int s = 0; s <= b; ++s)
                        {
                            const int R = ri[static_cast<size_t>(i)] + r, S = rj[static_cast<size_t>(j)] + s;
                            const double tr = double(r) / a, ts = double(s) / b;
                            const bool rowLine = s == 0 || s == b, colLine = r == 0 || r == a;
                            P p;
                            bool k = true;
                            if (rowLine && colLine)
                            {
                                p = g.at(i + (r == a), j + (s == b));
                            }
                            else if (affine)
                            {
                                p = g.at(i, j) + u * tr + v * ts;
                            }
                            else if (rowLine)
                            {
                                p = onLine(i, j + (s == b), true, tr);
                            }
                            else if (colLine)
                            {
                                p = onLine(i + (r == a), j, false, ts);
                            }
                            else
                            {
                                // inside a cell: somewhere between the lines
                                p = g.at(i, j) * ((1 - tr) * (1 - ts)) + g.at(i + 1, j) * (tr * (1 - ts)) + g.at(i, j + 1) * ((1 - tr) * ts) + g.at(i + 1, j + 1) * (tr * ts);
                                k = false;
                            }
                            want.at(R, S) = p;
                            known[static_cast<size_t>(R * want.m + S)] = k;
                        }
                    }
                }
            }
            const auto have = getCurvi(id);
            PBT_CHECK(have.n == want.n && have.m == want.m, key + ":size", "the refined grid is ", have.n, "x", have.m, ", should be ", want.n, "x", want.m);
            for (int i = 0; i < want.n; ++i)
            {
                for (int j = 0; j < want.m; ++j)
                {
                    const P a = want.at(i, j), b = have.at(i, j);
                    PBT_CHECK(a.valid() == b.valid(), key + ":valid", "refined node (", i, ",", j, ") is ", str(b), ", should be ", str(a), complete ? "" : " (grid with missing nodes)");
                    if (!a.valid())
                    {
                        continue;
                    }
                    const double tol = known[static_cast<size_t>(i * want.m + j)] ? 1e-7 * extent(g) : 2.0 * extent(g) / std::min(g.n - 1, g.m - 1);
                    PBT_CHECK(dist(a, b) <= tol, key + ":position", "refined node (", i, ",", j, ") is ", str(b), ", should be ", str(a), complete ? "" : " (grid with missing nodes)");
                }
            }
            c.nontrivial();
            c.label(complete ? "refined complete grid" : "refined grid with missing nodes");
            adopt(have);
            affine = false;
        }
        void refine()
        {
            const auto k = line();
            const int f = c.range(2, 4);
            if ((g.n + (k.i1 - k.i0) * (f - 1)) * (g.m + (k.j1 - k.j0) * (f - 1)) > 400)
            {
                return;
            }
            PBT_LOG(c, "refine ", str(k.a), " ", str(k.b), " by ", f);
            c.op("refine");
            must(api::mkernel_curvilinear_refine(id, k.a.x, k.a.y, k.b.x, k.b.y, f), "curvilinear_refine");
            std::vector<int> fi(static_cast<size_t>(g.n - 1), 1), fj(static_cast<size_t>(g.m - 1), 1);
            for (int i = k.i0; i < k.i1; ++i)
            {
                fi[static_cast<size_t>(i)] = f;
            }
            for (int j = k.j0; j < k.j1; ++j)
            {
                fj[static_cast<size_t>(j)] = f;
            }
            checkRefined("refine", fi, fj);
        }
        void fullRefine()
        {
            const int fm = c.range(1, 3), fn = c.range(1, 3);
            if (g.n * fn * g.m * fm > 400)
            {
                return;
            }
            PBT_LOG(c, "full_refine m ", fm, " n ", fn);
            c.op("full_refine");
            must(api::mkernel_curvilinear_full_refine(id, fm, fn), "curvilinear_full_refine");
            checkRefined("full_refine", std::vector<int>(static_cast<size_t>(g.n - 1), fn), std::vector<int>(static_cast<size_t>(g.m - 1), fm));
        }
        void insertFace()
        {
            // the grid edge of which the centre is nearest
            struct E
            {
                int i, j, di, dj;
                P mid;
            };
            std::vector<E> es;
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    if (has(g, i, j) && has(g, i + 1, j))
                    {
                        es.push_back({i, j, 1, 0, (g.at(i, j) + g.at(i + 1, j)) * 0.5});
                    }
                    if (has(g, i, j) && has(g, i, j + 1))
                    {
                        es.push_back({i, j, 0, 1, (g.at(i, j) + g.at(i, j + 1)) * 0.5});
                    }
                }
            }
            std::vector<E> boundary;
            for (auto& e : es)
            {
                if (cell(g, e.i, e.j) != (e.di ? cell(g, e.i, e.j - 1) : cell(g, e.i - 1, e.j)))
                {
                    boundary.push_back(e);
                }
            }
            const bool inner = c.coin(0.15) || boundary.empty();
            const auto e = inner ? es[c.draw(es.size())] : boundary[c.draw(boundary.size())];
            const double h = 0.1 * extent(g) / std::max(g.n, g.m);
            const P q = notMissing({e.mid.x + c.sym(h, 64), e.mid.y + c.sym(h, 64)});
            for (auto& o : es)
            {
                if ((o.i != e.i || o.j != e.j || o.di != e.di) && dist(q, o.mid) < 1.001 * dist(q, e.mid) + 1e-9 * extent(g))
                {
                    throw pbt::Discard{};
                }
            }
            const bool c1 = cell(g, e.i, e.j), c0 = e.di ? cell(g, e.i, e.j - 1) : cell(g, e.i - 1, e.j);
            PBT_LOG(c, "insert_face at ", str(q), " edge (", e.i, ",", e.j, ")-(", e.i + e.di, ",", e.j + e.dj, ") cells ", c0, c1);
            if (!c0 && !c1)
            {
                return; // belongs to no cell: there is no direction to extrapolate in
            }
            c.op("insert_face");
            const int rc = api::mkernel_curvilinear_insert_face(id, q.x, q.y);
            if (c0 && c1)
            {
                PBT_CHECK(rc != 0, "insert_face:inside", "a face is inserted at an edge that has a cell at both sides");
                compare("insert_face:refused", g, 0);
                c.label("insert_face refused");
                return;
            }
            for (int t = 0; t < 2 && rc != 0; ++t)
            {
                const int i = e.i + t * e.di, j = e.j + t * e.dj;
                if (cell(g, i, j) == cell(g, i - 1, j - 1) && cell(g, i - 1, j) == cell(g, i, j - 1))
                {
                    compare("insert_face:refused", g, 0);
                    c.label("insert_face refused where cells meet in a node only");
                    return;
                }
            }
            must(rc, "curvilinear_insert_face");
            // one row and column around the model
            Curvi want;
            want.n = g.n + 2;
            want.m = g.m + 2;
            want.nodes.assign(static_cast<size_t>(want.n * want.m), P{missing, missing});
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    want.at(i + 1, j + 1) = g.at(i, j);
                }
            }
            const int s = c1 ? 1 : -1; // side of the existing cell
            for (int t = 0; t < 2; ++t)
            {
                const int i = e.i + t * e.di, j = e.j + t * e.dj;
                const int ni = i - s * e.dj, nj = j - s * e.di;
                P& p = want.at(ni + 1, nj + 1);
                if (!p.valid())
                {
                    p = g.at(i, j) * 2.0 - g.at(i + s * e.dj, j + s * e.di);
                    if (!p.valid())
                    {
                        throw pbt::Discard{};
                    }
                }
                else
                {
                    c.label("insert_face at an existing node");
                }
            }
            compare("insert_face", want, 1e-12 * extent(g) * 10);
        }
        void mirror()
        {
            auto k = line();
            if (c.coin(0.6))
            {
                // along a border of the grid
                const bool rows = c.coin(), last = c.coin();
                const int at = last ? (rows ? g.m : g.n) - 1 : 0;
                std::vector<int> s;
                for (int q = 0; q < (rows ? g.n : g.m); ++q)
                {
                    if (rows ? has(g, q, at) : has(g, at, q))
                    {
                        s.push_back(q);
                    }
                }
                if (s.size() < 2)
                {
                    return;
                }
                int a = s[c.draw(s.size())], b = s[c.draw(s.size())];
                if (a == b)
                {
                    return;
                }
                k = rows ? Block{std::min(a, b), at, std::max(a, b), at, {}, {}} : Block{at, std::min(a, b), at, std::max(a, b), {}, {}};
                k.a = near(k.i0, k.j0);
                k.b = near(k.i1, k.j1);
            }
            const double f = c.real(0.25, 2.0, 7);
            const bool rows = k.j0 == k.j1; // i varies
            // every cell along one side, none along the other
            int c0 = 0, c1 = 0, free0 = 0, free1 = 0;
            const int n = rows ? k.i1 - k.i0 : k.j1 - k.j0;
            for (int t = 0; t <= n; ++t)
            {
                const int i = k.i0 + (rows ? t : 0), j = k.j0 + (rows ? 0 : t);
                if (t < n)
                {
                    c1 += cell(g, i, j);
                    c0 += rows ? cell(g, i, j - 1) : cell(g, i - 1, j);
                }
                free1 += !has(g, i + (rows ? 0 : 1), j + (rows ? 1 : 0));
                free0 += !has(g, i - (rows ? 0 : 1), j - (rows ? 1 : 0));
            }
            const bool up = c1 == n && free0 == n + 1, down = c0 == n && free1 == n + 1;
            PBT_LOG(c, "line_mirror ", str(k.a), " ", str(k.b), " factor ", f, " cells ", c0, " ", c1, " of ", n);
            c.op("line_mirror");
            const int rc = api::mkernel_curvilinear_line_mirror(id, f, k.a.x, k.a.y, k.b.x, k.b.y);
            if (!up && !down)
            {
                if (rc != 0)
                {
                    compare("line_mirror:refused", g, 0);
                    c.label("line_mirror refused");
                    return;
                }
                // a line with cells at both sides, or partly missing: the nodes that exist stay where they are
                const auto have = getCurvi(id);
                std::multiset<std::pair<double, double>> hs;
                for (auto& p : have.nodes)
                {
                    hs.insert({p.x, p.y});
                }
                for (auto& p : g.nodes)
                {
                    PBT_CHECK(!p.valid() || hs.contains({p.x, p.y}), "line_mirror:overwrites", "the node ", str(p), " is gone after mirroring a line that is not a border");
                }
                affine = false;
                adopt(have);
                return;
            }
            must(rc, "curvilinear_line_mirror");
            Curvi want;
            want.n = g.n + 2;
            want.m = g.m + 2;
            want.nodes.assign(static_cast<size_t>(want.n * want.m), P{missing, missing});
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    want.at(i + 1, j + 1) = g.at(i, j);
                }
            }
            const int s = up ? 1 : -1;
            for (int t = 0; t <= n; ++t)
            {
                const int i = k.i0 + (rows ? t : 0), j = k.j0 + (rows ? 0 : t);
                const int di = rows ? 0 : s, dj = rows ? s : 0;
                const P p = g.at(i, j) * (1 + f) - g.at(i + di, j + dj) * f;
                if (!p.valid())
                {
                    throw pbt::Discard{};
                }
                want.at(i - di + 1, j - dj + 1) = p;
            }
            const bool border = rows ? (k.j0 == 0 || k.j0 == g.m - 1) : (k.i0 == 0 || k.i0 == g.n - 1);
            c.label(border ? "line_mirror at a border" : "line_mirror at an inner boundary");
            affine = false;
            compare("line_mirror", want, 1e-11 * extent(g));
        }
        bool internal(int i, int j) const { return cell(g, i, j) && cell(g, i - 1, j) && cell(g, i, j - 1) && cell(g, i - 1, j - 1); }
        static bool near0(double a, double s) { return std::abs(a) <= 1e-9 * s; }
        void smoothing()
        {
            const auto k = block();
            const int iterations = c.range(1, 3);
            PBT_LOG(c, "smoothing ", iterations, " ", str(k.a), " ", str(k.b));
            if (k.i0 == k.i1 && k.j0 == k.j1)
            {
                return;
            }
            c.op("smoothing");
            must(api::mkernel_curvilinear_smoothing(id, iterations, k.a.x, k.a.y, k.b.x, k.b.y), "curvilinear_smoothing");
            Curvi want = g;
            std::vector<char> unknown(g.nodes.size(), 0);
            auto at = [&](int i, int j)
            { return static_cast<size_t>(i * g.m + j); };
            for (int it = 0; it < iterations; ++it)
            {
                const Curvi o = want;
                const auto ou = unknown;
                for (int i = k.i0; i <= k.i1; ++i)
                {
                    for (int j = k.j0; j <= k.j1; ++j)
                    {
                        if (!has(g, i, j))
                        {
                            continue;
                        }
                        if (internal(i, j))
                        {
                            want.at(i, j) = o.at(i, j) * 0.5 + (o.at(i - 1, j) + o.at(i + 1, j) + o.at(i, j - 1) + o.at(i, j + 1)) * 0.125;
                            unknown[at(i, j)] = ou[at(i, j)] || ou[at(i - 1, j)] || ou[at(i + 1, j)] || ou[at(i, j - 1)] || ou[at(i, j + 1)];
                            continue;
                        }
                        // cells around
                        const bool a = cell(g, i - 1, j - 1), b = cell(g, i - 1, j), d = cell(g, i, j - 1), e = cell(g, i, j);
                        const int n = a + b + d + e;
                        const bool straight = n == 2 && a != e; // two adjacent cells
                        if (!straight)
                        {
                            continue; // a corner stays
                        }
                        P prev, next, inner;
                        size_t up, un, ui;
                        if (a == d) // cells at one side in j: the boundary runs along i
                        {
                            prev = o.at(i - 1, j), next = o.at(i + 1, j), inner = o.at(i, j + (a ? -1 : 1));
                            up = at(i - 1, j), un = at(i + 1, j), ui = at(i, j + (a ? -1 : 1));
                        }
                        else
                        {
                            prev = o.at(i, j - 1), next = o.at(i, j + 1), inner = o.at(i + (a ? -1 : 1), j);
                            up = at(i, j - 1), un = at(i, j + 1), ui = at(i + (a ? -1 : 1), j);
                        }
                        const P p = o.at(i, j);
                        const P w = p * 0.5 + (prev + next + inner) * (0.5 / 3.0);
                        const double L = dist(prev, next);
                        if (ou[at(i, j)] || ou[up] || ou[un] || ou[ui] || L < 1e-6 * extent(g) || std::abs(cross(next - prev, p - prev)) > 1e-9 * L * L)
                        {
                            unknown[at(i, j)] = 1; // a bent boundary: the node is kept on it, the place is not modelled
                            continue;
                        }
                        want.at(i, j) = prev + (next - prev) * (dot(w - prev, next - prev) / (L * L));
                    }
                }
            }
            const auto have = getCurvi(id);
            PBT_CHECK(have.n == g.n && have.m == g.m, "smoothing:size", "the size has changed");
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    const P a = want.at(i, j), b = have.at(i, j);
                    PBT_CHECK(a.valid() == b.valid(), "smoothing:valid", "node (", i, ",", j, ") is ", str(b));
                    if (!a.valid())
                    {
                        continue;
                    }
                    if (!k.in(i, j))
                    {
                        PBT_CHECK(a == b, "smoothing:outside", "node (", i, ",", j, ") outside the block moved from ", str(a), " to ", str(b));
                    }
                    else if (!unknown[at(i, j)])
                    {
                        PBT_CHECK(dist(a, b) <= 1e-8 * extent(g), "smoothing:position", "node (", i, ",", j, ") is ", str(b), ", should be ", str(a));
                    }
                    else
                    {
                        PBT_CHECK(std::isfinite(b.x) && std::isfinite(b.y) && dist(a, b) < 10 * extent(g), "smoothing:boundary", "node (", i, ",", j, ") went to ", str(b));
                    }
                }
            }
            c.nontrivial();
            affine = false;
            adopt(have);
        }
        /// cosine weight of a node at distance d from the line when the block ends at distance D
        static double weight(int d, int D) { return D == 0 ? 1.0 : 0.5 * (1 + std::cos(M_PI * d / D)); }

        void directional()
        {
            const auto l = line();
            const auto k = block();
            const bool rows = l.j0 == l.j1; // i varies along the line
            PBT_LOG(c, "smoothing_directional line ", str(l.a), " ", str(l.b), " block ", str(k.a), " ", str(k.b));
            const bool flat = rows ? k.j0 == k.j1 : k.i0 == k.i1;
            c.op("smoothing_directional");
            const int rc = api::mkernel_curvilinear_smoothing_directional(id, 1, l.a.x, l.a.y, l.b.x, l.b.y, k.a.x, k.a.y, k.b.x, k.b.y);
            if (flat)
            {
                PBT_CHECK(rc != 0, "directional:flat", "a block without extent across the line is accepted");
                compare("directional:refused", g, 0);
                return;
            }
            must(rc, "curvilinear_smoothing_directional");
            const int i0 = rows ? l.i0 : k.i0, i1 = rows ? l.i1 : k.i1, j0 = rows ? k.j0 : l.j0, j1 = rows ? k.j1 : l.j1;
            const auto have = getCurvi(id);
            PBT_CHECK(have.n == g.n && have.m == g.m, "directional:size", "the size has changed");
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    const P a = g.at(i, j), b = have.at(i, j);
                    PBT_CHECK(a.valid() == b.valid(), "directional:valid", "node (", i, ",", j, ") is ", str(b));
                    if (!a.valid() || a == b)
                    {
                        continue;
                    }
                    PBT_CHECK(i >= i0 && i <= i1 && j >= j0 && j <= j1, "directional:outside", "node (", i, ",", j, ") outside the area moved from ", str(a), " to ", str(b));
                    const int di = rows ? 1 : 0, dj = rows ? 0 : 1;
                    PBT_CHECK(has(g, i - di, j - dj) && has(g, i + di, j + dj), "directional:end", "node (", i, ",", j, ") at the end of its grid line moved from ", str(a), " to ", str(b));
                    // towards the farther of both neighbours along the line, by at most half
                    const P p = g.at(i - di, j - dj), q = g.at(i + di, j + dj);
                    const double lp = dist(a, p), lq = dist(a, q);
                    const P far = lp > lq ? p : q;
                    const double L = std::max(lp, lq);
                    const int d = rows ? std::abs(j - l.j0) : std::abs(i - l.i0);
                    const int D = rows ? (j > l.j0 ? k.j1 - l.j0 : l.j0 - k.j0) : (i > l.i0 ? k.i1 - l.i0 : l.i0 - k.i0);
                    const double w = weight(d, D);
                    const P e = a + (far - a) * (w * 0.25 * std::abs(lq * lq - lp * lp) / (L * L));
                    PBT_CHECK(dist(e, b) <= 1e-8 * extent(g), "directional:position", "node (", i, ",", j, ") went from ", str(a), " to ", str(b), ", should be ", str(e));
                }
            }
            c.nontrivial();
            affine = false;
            adopt(have);
        }
        void attraction()
        {
            const auto l = line();
            const auto k = block();
            const bool rows = l.j0 == l.j1; // i varies along the line
            const double f = c.sym(0.4, 16);
            PBT_LOG(c, "line_attraction_repulsion factor ", f, " line ", str(l.a), " ", str(l.b), " block ", str(k.a), " ", str(k.b));
            if (rows ? k.j0 == k.j1 : k.i0 == k.i1)
            {
                return;
            }
            c.op("line_attraction_repulsion");
            must(api::mkernel_curvilinear_line_attraction_repulsion(id, f, l.a.x, l.a.y, l.b.x, l.b.y, k.a.x, k.a.y, k.b.x, k.b.y), "curvilinear_line_attraction_repulsion");
            const int i0 = rows ? l.i0 : k.i0, i1 = rows ? l.i1 : k.i1, j0 = rows ? k.j0 : l.j0, j1 = rows ? k.j1 : l.j1;
            const auto have = getCurvi(id);
            const double hu = len(u), hv = len(v);
            const bool square = affine && near0(hu - hv, hu) && near0(dot(u, v), hu * hv);
            PBT_CHECK(have.n == g.n && have.m == g.m, "attraction:size", "the size has changed");
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    const P a = g.at(i, j), b = have.at(i, j);
                    PBT_CHECK(a.valid() == b.valid(), "attraction:valid", "node (", i, ",", j, ") is ", str(b));
                    if (!a.valid())
                    {
                        continue;
                    }
                    const bool area = i >= i0 && i <= i1 && j >= j0 && j <= j1;
                    const bool onLine = l.in(i, j);
                    if (!area || onLine)
                    {
                        PBT_CHECK(a == b, onLine ? "attraction:line" : "attraction:outside", "node (", i, ",", j, ") moved from ", str(a), " to ", str(b));
                        continue;
                    }
                    if (square)
                    {
                        const int d = rows ? j - l.j0 : i - l.i0;
                        const int D = d > 0 ? (rows ? k.j1 - l.j0 : k.i1 - l.i0) : (rows ? l.j0 - k.j0 : l.i0 - k.i0);
                        const double w = weight(std::abs(d), D) * f * (d > 0 ? -1 : 1) * (rows && cross(u, v) < 0 ? -1 : 1); // the repository's tests pin the sign for grids of either handedness
                        const P e = a + (rows ? v : u) * w;
                        bool lonely = !has(g, i - 1, j) && !has(g, i + 1, j);
                        lonely = lonely || (!has(g, i, j - 1) && !has(g, i, j + 1));
                        PBT_CHECK(lonely || dist(e, b) <= 1e-8 * extent(g), "attraction:position", "node (", i, ",", j, ") went from ", str(a), " to ", str(b), ", should be ", str(e));
                    }
                }
            }
            c.label(square ? "attraction, square grid" : "attraction, other grid");
            c.nontrivial();
            affine = false;
            adopt(have);
        }
        void lineShift()
        {
            const auto l = line();
            const auto k = block();
            if (k.i0 == k.i1 && k.j0 == k.j1)
            {
                return;
            }
            const bool rows = l.j0 == l.j1;
            must(api::mkernel_curvilinear_initialize_line_shift(id), "initialize_line_shift");
            must(api::mkernel_curvilinear_set_line_line_shift(id, l.a.x, l.a.y, l.b.x, l.b.y), "set_line_line_shift");
            must(api::mkernel_curvilinear_set_block_line_shift(id, k.a.x, k.a.y, k.b.x, k.b.y), "set_block_line_shift");
            PBT_LOG(c, "line_shift line ", str(l.a), " ", str(l.b), " block ", str(k.a), " ", str(k.b));
            const int n = rows ? l.i1 - l.i0 : l.j1 - l.j0;
            std::vector<std::optional<P>> shift(static_cast<size_t>(n + 1));
            const double h = extent(g) / std::max(g.n, g.m);
            const int moves = c.range(1, 3);
            Curvi now = g;
            for (int q = 0; q < moves; ++q)
            {
                const int t = c.range(0, n);
                const int i = l.i0 + (rows ? t : 0), j = l.j0 + (rows ? 0 : t);
                if (!has(g, i, j) || shift[static_cast<size_t>(t)])
                {
                    continue;
                }
                const P from = now.at(i, j);
                bool clear = true; // no other node there
                for (size_t z = 0; z < now.nodes.size(); ++z)
                {
                    clear = clear && (z == static_cast<size_t>(i * g.m + j) || !now.nodes[z].valid() || dist(now.nodes[z], from) > 1e-6 * extent(g));
                }
                if (!clear)
                {
                    continue;
                }
                const P d{c.sym(0.4 * h, 32), c.sym(0.4 * h, 32)};
                const P to = from + d;
                if (!to.valid() || (std::abs(d.x) < 1e-3 && std::abs(d.y) < 1e-3))
                {
                    continue;
                }
                PBT_LOG(c, "  move ", str(from), " -> ", str(to));
                must(api::mkernel_curvilinear_move_node_line_shift(id, from.x, from.y, to.x, to.y), "move_node_line_shift");
                shift[static_cast<size_t>(t)] = to - from;
                now.at(i, j) = to;
            }
            c.op("line_shift");
            must(api::mkernel_curvilinear_line_shift(id), "curvilinear_line_shift");
            must(api::mkernel_curvilinear_finalize_line_shift(id), "finalize_line_shift");
            const auto have = getCurvi(id);
            PBT_CHECK(have.n == g.n && have.m == g.m, "line_shift:size", "the size has changed");
            // the shift along the line: linear between the moved nodes and the ends of the line
            std::vector<P> delta(static_cast<size_t>(n + 1), P{0, 0});
            int last = 0;
            P lastD = shift[0].value_or(P{0, 0});
            for (int t = 1; t <= n; ++t)
            {
                if (shift[static_cast<size_t>(t)] || t == n)
                {
                    const P d = shift[static_cast<size_t>(t)].value_or(P{0, 0});
                    for (int q = last; q <= t; ++q)
                    {
                        const double w = double(q - last) / (t - last);
                        delta[static_cast<size_t>(q)] = lastD * (1 - w) + d * w;
                    }
                    last = t;
                    lastD = d;
                }
            }
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    const P a = g.at(i, j), b = have.at(i, j);
                    PBT_CHECK(a.valid() == b.valid(), "line_shift:valid", "node (", i, ",", j, ") is ", str(b));
                    if (!a.valid())
                    {
                        continue;
                    }
                    const bool along = rows ? (i >= l.i0 && i <= l.i1) : (j >= l.j0 && j <= l.j1);
                    const bool across = rows ? (j >= k.j0 && j <= k.j1) : (i >= k.i0 && i <= k.i1);
                    const int t = rows ? i - l.i0 : j - l.j0;
                    if (l.in(i, j))
                    {
                        bool lonely = !has(g, i - 1, j) && !has(g, i + 1, j);
                        const P e = a + delta[static_cast<size_t>(t)];
                        PBT_CHECK(lonely || dist(e, b) <= 1e-8 * extent(g), "line_shift:line", "node (", i, ",", j, ") of the line went from ", str(a), " to ", str(b), ", should be ", str(e));
                    }
                    else if (!along || !across)
                    {
                        PBT_CHECK(a == b, "line_shift:outside", "node (", i, ",", j, ") outside the area moved from ", str(a), " to ", str(b));
                    }
                    else if (affine)
                    {
                        const int li = rows ? i : l.i0, lj = rows ? l.j0 : j;
                        if (!has(g, li, lj))
                        {
                            PBT_CHECK(a == b, "line_shift:missing", "node (", i, ",", j, ") beside a missing node of the line moved");
                            continue;
                        }
                        const int d = rows ? j - l.j0 : i - l.i0;
                        const int D = d > 0 ? (rows ? k.j1 - l.j0 : k.i1 - l.i0) : (rows ? l.j0 - k.j0 : l.i0 - k.i0);
                        const P e = a + delta[static_cast<size_t>(t)] * weight(std::abs(d), D);
                        bool lonely = (!has(g, i - 1, j) && !has(g, i + 1, j)) || (!has(g, li - 1, lj) && !has(g, li + 1, lj));
                        PBT_CHECK(lonely || dist(e, b) <= 1e-8 * extent(g), "line_shift:influence", "node (", i, ",", j, ") went from ", str(a), " to ", str(b), ", should be ", str(e));
                    }
                }
            }
            c.nontrivial();
            affine = false;
            adopt(have);
        }
        void orthogonalize()
        {
            const auto k = block();
            if (k.i0 == k.i1 || k.j0 == k.j1)
            {
                return;
            }
            meshkernel::OrthogonalizationParameters o;
            o.outer_iterations = c.range(1, 2);
            o.boundary_iterations = c.range(1, 4);
            o.inner_iterations = c.range(1, 4);
            PBT_LOG(c, "orthogonalize ", str(k.a), " ", str(k.b), " iterations ", o.outer_iterations, " ", o.boundary_iterations, " ", o.inner_iterations);
            must(api::mkernel_curvilinear_initialize_orthogonalize(id, o), "initialize_orthogonalize");
            must(api::mkernel_curvilinear_set_block_orthogonalize(id, k.a.x, k.a.y, k.b.x, k.b.y), "set_block_orthogonalize");
            std::optional<Block> frozen;
            if (c.coin(0.3))
            {
                const auto l = line();
                PBT_LOG(c, "  frozen ", str(l.a), " ", str(l.b));
                must(api::mkernel_curvilinear_set_frozen_lines_orthogonalize(id, l.a.x, l.a.y, l.b.x, l.b.y), "set_frozen_lines_orthogonalize");
                frozen = l;
            }
            c.op("orthogonalize");
            must(api::mkernel_curvilinear_orthogonalize(id), "curvilinear_orthogonalize");
            must(api::mkernel_curvilinear_finalize_orthogonalize(id), "finalize_orthogonalize");
            const auto have = getCurvi(id);
            PBT_CHECK(have.n == g.n && have.m == g.m, "orthogonalize:size", "the size has changed");
            for (int i = 0; i < g.n; ++i)
            {
                for (int j = 0; j < g.m; ++j)
                {
                    const P a = g.at(i, j), b = have.at(i, j);
                    PBT_CHECK(a.valid() == b.valid(), "orthogonalize:valid", "node (", i, ",", j, ") is ", str(b));
                    if (!k.in(i, j))
                    {
                        PBT_CHECK(a == b, "orthogonalize:outside", "node (", i, ",", j, ") outside the block moved from ", str(a), " to ", str(b));
                    }
                    if (a.valid() && affine && near0(dot(u, v), len(u) * len(v)) && std::all_of(g.nodes.begin(), g.nodes.end(), [](const P& p)
                                                                                                { return p.valid(); }))
                    {
                        // nothing to improve
                        PBT_CHECK(dist(a, b) <= 1e-3 * std::min(len(u), len(v)), "orthogonalize:orthogonal", "node (", i, ",", j, ") of an orthogonal grid moved from ", str(a), " to ", str(b));
                    }
                    if (frozen && frozen->in(i, j) && internal(i, j)) // at the boundary of the grid it may move along the boundary
                    {
                        PBT_CHECK(a == b, "orthogonalize:frozen", "node (", i, ",", j, ") of a frozen line moved from ", str(a), " to ", str(b));
                    }
                }
            }
            for (auto& p : have.nodes)
            {
                if (!std::isfinite(p.x) || !std::isfinite(p.y))
                {
                    pbt::fail("orthogonalize:nan", "nan");
                }
            }
            c.nontrivial();
            affine = false;
            adopt(have);
        }
    };

    Curvi affineGrid(Case& c, P& u, P& v)
    {
        Curvi g;
        g.n = c.range(2, 7);
        g.m = c.range(2, 7);
        const double h = std::array<double, 3>{1.0, 10.0, 100.0}[c.weighted({3, 2, 2})];
        const double rot = c.coin(0.4) ? c.sym(1.5, 32) : 0.0;
        const bool square = c.coin(0.5);
        const double hv = square ? h : h * c.real(0.5, 2.0, 8);
        // rows are i, columns j; the row step is turned clockwise or counter-clockwise from the column step
        v = {hv * std::cos(rot), hv * std::sin(rot)};
        u = {-h * std::sin(rot), h * std::cos(rot)};
        if (c.coin(0.3))
        {
            std::swap(u, v);
        }
        const P org = c.coin(0.3) ? P{c.sym(20, 100) * h, c.sym(20, 100) * h} : P{0, 0};
        for (int i = 0; i < g.n; ++i)
        {
            for (int j = 0; j < g.m; ++j)
            {
                P p = org + u * i + v * j;
                if (std::abs(p.x - missing) < 2 || std::abs(p.y - missing) < 2)
                {
                    throw pbt::Discard{};
                }
                g.nodes.push_back(p);
            }
        }
        if (c.coin(0.3))
        {
            Curvi h2 = g;
            for (int q = c.range(1, 3); q > 0; --q)
            {
                h2.nodes[c.draw(h2.nodes.size())] = {missing, missing};
            }
            if (normaliseCurvi(h2))
            {
                g = h2;
            }
        }
        return g;
    }

    void history(Case& c, const std::vector<int>& weights, int maxOps)
    {
        reset();
        const int id = newState(0);
        P u{}, v{};
        bool affine = c.coin(0.5);
        const auto g = affine ? affineGrid(c, u, v) : genCurvi(c, 7, 2, true);
        PBT_LOG(c, str(g));
        must(setCurvi(id, g), "curvilinear_set");
        Run r{c, id, g, affine, u, v};
        const int n = c.range(1, maxOps);
        for (int q = 0; q < n && !r.done && r.g.n * r.g.m <= 300; ++q)
        {
            switch (c.weighted(weights))
            {
            case 0:
                r.move();
                break;
            case 1:
                r.deleteNode();
                break;
            case 2:
                r.deleteBlock(true);
                break;
            case 3:
                r.deleteBlock(false);
                break;
            case 4:
                r.derefine();
                break;
            case 5:
                r.refine();
                break;
            case 6:
                r.fullRefine();
                break;
            case 7:
                r.insertFace();
                break;
            case 8:
                r.mirror();
                break;
            case 9:
                r.smoothing();
                break;
            case 10:
                r.directional();
                break;
            case 11:
                r.attraction();
                break;
            case 12:
                r.lineShift();
                break;
            default:
                r.orthogonalize();
                break;
            }
        }
    }
    void mixed(Case& c) { history(c, {3, 2, 2, 1, 2, 2, 1, 3, 2, 2, 2, 2, 2, 1}, 5); }
    void shape(Case& c) { history(c, {1, 3, 3, 2, 2, 1, 0, 6, 4, 0, 0, 0, 0, 0}, 8); }
    void refining(Case& c) { history(c, {1, 1, 1, 0, 2, 5, 4, 0, 0, 0, 0, 0, 0, 0}, 3); }
    void moving(Case& c) { history(c, {1, 1, 0, 0, 0, 0, 0, 0, 0, 3, 3, 3, 4, 2}, 3); }

    const pbt::Register reg("C20", "an edit of a generated grid was carried out and the resulting grid compared with the model", 150000, 4000000,
                            {{"mixed", mixed, 3}, {"shape", shape, 3}, {"refining", refining, 2}, {"moving", moving, 3}});
} // namespace
