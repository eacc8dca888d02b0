// C18: the 1d mesh made from a network follows the polylines and their chainages.
#include "../harness/gen.hpp"
#include "../harness/geo.hpp"
#include <set>
using namespace mk;

namespace
{
    using Line = std::vector<P>;

    double lengthOf(const Line& l)
    {
        double r = 0;
        for (size_t i = 0; i + 1 < l.size(); ++i)
        {
            r += dist(l[i], l[i + 1]);
        }
        return r;
    }
    P pointAt(const Line& l, double s)
    {
        for (size_t i = 0; i + 1 < l.size(); ++i)
        {
            const double d = dist(l[i], l[i + 1]);
            if (s <= d || i + 2 == l.size())
            {
                return l[i] + (l[i + 1] - l[i]) * (s / d);
            }
            s -= d;
        }
        return l[0];
    }
    /// exact: axis-parallel segments of whole length, so that all chainages are exact
    std::vector<Line> genLines(Case& c, bool exact = false)
    {
        std::vector<Line> r;
        const int n = static_cast<int>(c.weighted({3, 3, 3, 2, 1})) + 1;
        for (int k = 0; k < n; ++k)
        {
            Line l;
            P p{exact ? c.range(0, 200) : c.sym(100, 200), exact ? c.range(0, 200) : c.sym(100, 200)};
            if (k > 0 && c.coin(0.4))
            {
                p = c.coin(0.5) ? r.back().back() : r[c.draw(r.size())].front();
                c.label("junction");
            }
            double angle = c.real(0, 6.28, 360);
            const int m = c.range(2, 7);
            const bool ragged = c.coin(0.4);
            for (int i = 0; i < m; ++i)
            {
                l.push_back(notMissing(p));
                if (exact)
                {
                    const P d[3] = {{1, 0}, {0, 1}, {0, -1}};
                    p = p + d[c.range(0, 2)] * static_cast<double>(c.range(1, 20));
                    continue;
                }
                angle += c.sym(0.8, 40);
                const double d = ragged && c.coin(0.6) ? c.real(0.01, 1.0, 99) : c.real(1.0, 40.0, 390);
                p = {p.x + d * std::cos(angle), p.y + d * std::sin(angle)};
            }
            r.push_back(l);
        }
        return r;
    }
    struct Net
    {
        std::vector<Line> lines;
        std::vector<std::vector<double>> chain;
        bool exact = false; ///< all chainages are multiples of 1/64
    };
    Geo geoOf(const std::vector<Line>& lines)
    {
        Geo g;
        for (size_t k = 0; k < lines.size(); ++k)
        {
            if (k)
            {
                g.add({missing, missing}, missing);
            }
            for (auto& p : lines[k])
            {
                g.add(p);
            }
        }
        return g;
    }
    void stillExact(Net& n, const std::vector<double>& ch)
    {
        for (double v : ch)
        {
            n.exact = n.exact && v * 64 == std::round(v * 64);
        }
    }
    /// false if a decision lies within rounding
    bool modelOffset(Net& n, double offset)
    {
        for (auto& ch : n.chain)
        {
            std::sort(ch.begin(), ch.end());
            std::vector<double> add;
            for (size_t i = 1; i < ch.size(); ++i)
            {
                const double d = ch[i] - ch[i - 1], q = d / offset;
                if (!n.exact && std::abs(q - std::round(q)) < 1e-6)
                {
                    return false;
                }
                const int parts = static_cast<int>(std::ceil(q));
                for (int j = 1; j < parts; ++j)
                {
                    add.push_back(ch[i - 1] + d * j / parts);
                }
            }
            ch.insert(ch.end(), add.begin(), add.end());
            std::sort(ch.begin(), ch.end());
            stillExact(n, ch);
        }
        return true;
    }
    bool modelFixed(Net& n, const std::vector<std::vector<double>>& fixed, double minSize, double offset, bool& equal)
    {
        bool sure = true;
        auto atLeast = [&](double a, double b)
        {
            sure = sure && (n.exact || std::abs(a - b) > 1e-6);
            equal |= a == b;
            return a >= b;
        };
        for (size_t k = 0; k < n.lines.size(); ++k)
        {
            const double end = lengthOf(n.lines[k]);
            double previous = 0;
            std::vector<double> add;
            for (double f : fixed[k])
            {
                if (const double before = f - offset; atLeast(before - previous, minSize) && before > 0)
                {
                    add.push_back(before);
                    previous = before;
                }
                else if (!add.empty())
                {
                    // too close to the node after the previous fixed point: one node in between
                    add.back() = 0.5 * (before + previous);
                    previous = add.back();
                }
                if (const double after = f + offset; atLeast(after - previous, minSize) && !atLeast(after, end))
                {
                    add.push_back(after);
                    previous = after;
                }
            }
            n.chain[k].insert(n.chain[k].end(), add.begin(), add.end());
            std::sort(n.chain[k].begin(), n.chain[k].end());
            stillExact(n, n.chain[k]);
        }
        return sure;
    }

    void network(Case& c)
    {
        reset();
        const int id = newState(0);
        Net n;
        n.exact = c.coin(0.3);
        const bool whole = n.exact;
        n.lines = genLines(c, whole);
        for (auto& l : n.lines)
        {
            PBT_LOG(c, "polyline ", str(l));
            n.chain.push_back({0.0, lengthOf(l)});
        }
        Mesh1 before;
        const bool existing = c.coin(0.2);
        if (existing)
        {
            must(setMesh1(id, {{500, 0}, {510, 0}, {520, 5}}, {{0, 1}, {1, 2}}), "mesh1d_set");
            before = getMesh1(id);
        }
        if (c.coin(0.2))
        {
            auto other = geoOf(genLines(c));
            auto ol = other.list();
            must(api::mkernel_network1d_set(id, ol), "network1d_set");
            api::mkernel_network1d_compute_offsetted_chainages(id, 3.0);
        }
        auto g = geoOf(n.lines);
        auto gl = g.list();
        must(api::mkernel_network1d_set(id, gl), "network1d_set");
        const int steps = c.range(0, 3);
        int fixedSteps = 0, offsetSteps = 0;
        for (int s = 0; s < steps; ++s)
        {
            if (c.coin(0.5))
            {
                const double offset = whole ? c.range(1, 40) * 0.5 : c.real(0.5, 30.0, 9973);
                PBT_LOG(c, "offsetted chainages ", offset);
                c.op("network1d_compute_offsetted_chainages");
                must(api::mkernel_network1d_compute_offsetted_chainages(id, offset), "network1d_compute_offsetted_chainages");
                if (!modelOffset(n, offset))
                {
                    return;
                }
                ++offsetSteps;
            }
            else
            {
                const double minSize = whole ? c.range(1, 10) * 0.5 : c.real(0.01, 5.0, 499), offset = whole ? c.range(1, 12) * 0.5 : c.real(0.01, 8.0, 797);
                bool equal = false;
                std::vector<std::vector<double>> fixed;
                std::vector<double> flat;
                for (auto& l : n.lines)
                {
                    const double total = lengthOf(l);
                    std::vector<double> f;
                    const int k = static_cast<int>(c.weighted({2, 3, 3, 2, 1}));
                    for (int i = 0; i < k; ++i)
                    {
                        f.push_back(whole ? 0.5 * c.range(0, static_cast<int>(2 * total) - 1) : total * c.real(0.0, 0.999, 4999));
                    }
                    std::sort(f.begin(), f.end());
                    if (!f.empty() && c.coin(0.1))
                    {
                        f[0] = 0.0;
                        c.label("fixed point at the start");
                    }
                    // fixed points closer than twice the offset would swap the nodes between them
                    for (size_t i = 1; i < f.size();)
                    {
                        if (f[i] - f[i - 1] < 2.0 * offset)
                        {
                            f.erase(f.begin() + static_cast<std::ptrdiff_t>(i));
                        }
                        else
                        {
                            ++i;
                        }
                    }
                    fixed.push_back(f);
                    flat.insert(flat.end(), f.begin(), f.end());
                    flat.push_back(missing);
                }
                if (!fixed.back().empty() && c.coin(0.5))
                {
                    flat.pop_back();
                }
                PBT_LOG(c, "fixed chainages ", pbt::cat("min size ", minSize, " offset ", offset, ": "));
                for (double f : flat)
                {
                    PBT_LOG(c, "  ", f);
                }
                c.op("network1d_compute_fixed_chainages");
                must(api::mkernel_network1d_compute_fixed_chainages(id, flat.data(), static_cast<int>(flat.size()), minSize, offset), "network1d_compute_fixed_chainages");
                if (!modelFixed(n, fixed, minSize, offset, equal))
                {
                    return;
                }
                if (equal)
                {
                    c.label("a distance equal to the minimum size");
                }
                ++fixedSteps;
            }
        }
        // the points wanted
        std::vector<P> pts;
        std::vector<std::array<int, 2>> segs;
        for (size_t k = 0; k < n.lines.size(); ++k)
        {
            int last = -1;
            for (double s : n.chain[k])
            {
                pts.push_back(pointAt(n.lines[k], s));
                const int me = static_cast<int>(pts.size()) - 1;
                if (last >= 0)
                {
                    segs.push_back({last, me});
                }
                last = me;
            }
        }
        double closest = 1e300; // of points that do not coincide
        const double eps = 1e-6;
        for (size_t i = 0; i < pts.size(); ++i)
        {
            if (std::abs(pts[i].x + 998.5) < 1 || std::abs(pts[i].y + 998.5) < 1)
            {
                return;
            }
            for (size_t j = 0; j < i; ++j)
            {
                const double d = dist(pts[i], pts[j]);
                if (d > eps)
                {
                    closest = std::min(closest, d);
                }
            }
        }
        if (closest < 2e-3)
        {
            return;
        }
        const bool merging = c.coin(0.4);
        const double minFace = merging ? c.real(0.1, 15.0, 1499) : std::min(0.5 * closest, 0.01);
        PBT_LOG(c, "to mesh1d, minimum face size ", minFace);
        c.op("network1d_to_mesh1d");
        must(api::mkernel_network1d_to_mesh1d(id, minFace), "network1d_to_mesh1d");
        auto m = getMesh1(id);
        PBT_LOG(c, "mesh1d nodes ", str(m.nodes), " edges ", str(m.edges));
        // what was there stays
        for (size_t i = 0; i < before.nodes.size(); ++i)
        {
            PBT_CHECK(i < m.nodes.size() && sameP(m.nodes[i], before.nodes[i]), "existing", "node ", i, " of the existing 1d mesh has changed");
        }
        for (size_t e = 0; e < before.edges.size(); ++e)
        {
            PBT_CHECK(e < m.edges.size() && m.edges[e] == before.edges[e], "existing", "edge ", e, " of the existing 1d mesh has changed");
        }
        const size_t n0 = before.nodes.size(), e0 = before.edges.size();
        auto same = [&](P a, P b)
        { return dist(a, b) < eps * (1 + len(a)); };
        // each node is one of the points
        std::vector<int> pointOf(m.nodes.size(), -1);
        for (size_t i = n0; i < m.nodes.size(); ++i)
        {
            if (!m.nodes[i].valid())
            {
                continue;
            }
            for (size_t q = 0; q < pts.size() && pointOf[i] < 0; ++q)
            {
                if (same(pts[q], m.nodes[i]))
                {
                    pointOf[i] = static_cast<int>(q);
                }
            }
            PBT_CHECK(pointOf[i] >= 0, "node", "node ", i, " ", str(m.nodes[i]), " is not a point of the discretized network");
            for (size_t j = n0; j < i; ++j)
            {
                PBT_CHECK(!m.nodes[j].valid() || dist(m.nodes[i], m.nodes[j]) > minFace * (1 - 1e-9), "merge", "nodes ", j, " and ", i, " are closer than the minimum face size ", minFace);
            }
        }
        // groups of points connected by steps up to the minimum size
        std::vector<int> group(pts.size(), -1);
        int groups = 0;
        bool unsure = false;
        for (size_t i = 0; i < pts.size(); ++i)
        {
            if (group[i] >= 0)
            {
                continue;
            }
            std::vector<size_t> todo{i};
            group[i] = groups;
            while (!todo.empty())
            {
                const size_t a = todo.back();
                todo.pop_back();
                for (size_t b = 0; b < pts.size(); ++b)
                {
                    const double d = dist(pts[a], pts[b]);
                    unsure |= std::abs(d - minFace) < 1e-7;
                    if (group[b] < 0 && d <= minFace)
                    {
                        group[b] = groups;
                        todo.push_back(b);
                    }
                }
            }
            ++groups;
        }
        if (unsure)
        {
            return;
        }
        std::vector<int> nodesInGroup(static_cast<size_t>(groups), 0), segsOfGroup(static_cast<size_t>(groups), 0);
        for (size_t i = n0; i < m.nodes.size(); ++i)
        {
            if (pointOf[i] >= 0)
            {
                ++nodesInGroup[static_cast<size_t>(group[static_cast<size_t>(pointOf[i])])];
            }
        }
        std::set<std::pair<int, int>> want, got;
        for (auto& s : segs)
        {
            const int a = group[static_cast<size_t>(s[0])], b = group[static_cast<size_t>(s[1])];
            if (a != b)
            {
                want.insert({std::min(a, b), std::max(a, b)});
                ++segsOfGroup[static_cast<size_t>(a)];
                ++segsOfGroup[static_cast<size_t>(b)];
            }
        }
        for (int q = 0; q < groups; ++q)
        {
            if (segsOfGroup[static_cast<size_t>(q)])
            {
                PBT_CHECK(nodesInGroup[static_cast<size_t>(q)] >= 1, "lost", "a point of the network has no node");
            }
        }
        for (size_t e = e0; e < m.edges.size(); ++e)
        {
            const auto [a, b] = m.edges[e];
            if (a < 0 || b < 0)
            {
                continue;
            }
            PBT_CHECK(static_cast<size_t>(a) >= n0 && static_cast<size_t>(b) >= n0 && a < static_cast<int>(m.nodes.size()) && b < static_cast<int>(m.nodes.size()) && pointOf[static_cast<size_t>(a)] >= 0 && pointOf[static_cast<size_t>(b)] >= 0, "edge-nodes", "edge ", e, " has no existing nodes");
            const int x = group[static_cast<size_t>(pointOf[static_cast<size_t>(a)])], y = group[static_cast<size_t>(pointOf[static_cast<size_t>(b)])];
            if (x != y)
            {
                PBT_CHECK(want.count({std::min(x, y), std::max(x, y)}), "edge-extra", "edge ", e, " ", str(m.nodes[static_cast<size_t>(a)]), str(m.nodes[static_cast<size_t>(b)]), " connects points that are not neighbours on a polyline");
                got.insert({std::min(x, y), std::max(x, y)});
            }
        }
        PBT_CHECK(got.size() == want.size(), "edge-missing", "the 1d mesh connects ", got.size(), " pairs of neighbours instead of ", want.size());
        c.label(merging ? "merging" : "only coinciding nodes merged");
        c.label(pbt::cat(n.lines.size(), " polylines"));
        c.label(pbt::cat(fixedSteps, " fixed ", offsetSteps, " offsetted"));
        if (pts.size() > 4 && steps > 0)
        {
            c.nontrivial();
        }
    }

    void add(Case& c)
    {
        reset();
        const int id = newState(0);
        std::vector<P> nodes;
        std::vector<std::array<int, 2>> edges;
        const int k = c.range(1, 4);
        for (int i = 0; i < k; ++i)
        {
            std::vector<P> p;
            std::vector<std::array<int, 2>> e;
            const int n = c.range(2, 5);
            for (int j = 0; j < n; ++j)
            {
                p.push_back(notMissing(P{c.sym(100, 1000), c.sym(100, 1000)}));
                if (j)
                {
                    e.push_back({static_cast<int>(c.draw(static_cast<uint64_t>(j))), j});
                }
            }
            const int shift = static_cast<int>(nodes.size());
            if (i == 0 && c.coin(0.6))
            {
                c.op("mesh1d_set");
                must(setMesh1(id, p, e), "mesh1d_set");
            }
            else
            {
                std::vector<double> x, y;
                std::vector<int> en;
                for (auto& q : p)
                {
                    x.push_back(q.x);
                    y.push_back(q.y);
                }
                for (auto& q : e)
                {
                    en.push_back(q[0]);
                    en.push_back(q[1]);
                }
                api::Mesh1D m{};
                m.num_nodes = n;
                m.num_edges = n - 1;
                m.node_x = x.data();
                m.node_y = y.data();
                m.edge_nodes = en.data();
                c.op("mesh1d_add");
                must(api::mkernel_mesh1d_add(id, m), "mesh1d_add");
            }
            nodes.insert(nodes.end(), p.begin(), p.end());
            for (auto& q : e)
            {
                edges.push_back({q[0] + shift, q[1] + shift});
            }
            if (c.coin(0.5))
            {
                getMesh1(id);
            }
        }
        const auto m = getMesh1(id);
        PBT_CHECK(m.nodes.size() == nodes.size() && m.edges.size() == edges.size(), "add:size", "the 1d mesh has ", m.nodes.size(), " nodes and ", m.edges.size(), " edges instead of ", nodes.size(), " and ", edges.size());
        for (size_t i = 0; i < nodes.size(); ++i)
        {
            PBT_CHECK(sameP(nodes[i], m.nodes[i]), "add:node", "node ", i, " is ", str(m.nodes[i]), " instead of ", str(nodes[i]));
        }
        for (size_t i = 0; i < edges.size(); ++i)
        {
            PBT_CHECK(edges[i] == m.edges[i], "add:edge", "edge ", i, " is ", m.edges[i][0], "-", m.edges[i][1], " instead of ", edges[i][0], "-", edges[i][1]);
        }
        if (k > 1)
        {
            c.nontrivial();
        }
    }

    pbt::Register reg("C18",
                      "a case is non-trivial if chainages were computed and the network has more than four points, or several 1d meshes were joined",
                      400000, 8000000,
                      {{"network", network, 8},
                       {"add", add, 1}});
} // namespace
