// Reference topology: consistency of the published connectivity, planar faces by walking around them.
#pragma once
#include "geo.hpp"
#include <cmath>

namespace mk
{
    using EdgeKey = std::pair<int, int>;
    inline EdgeKey edgeKey(int a, int b) { return {std::min(a, b), std::max(a, b)}; }

    /// the connectivity arrays of a mesh agree with each other
    /// (simple: also no loops and no duplicate edges)
    inline void checkConnectivity(const Mesh2& m, bool simple, const std::string& after)
    {
        int validNodes = 0, validEdges = 0;
        const int nn = static_cast<int>(m.nodes.size()), ne = static_cast<int>(m.edges.size()), nf = static_cast<int>(m.faceNodes.size());
        for (auto& p : m.nodes)
        {
            validNodes += p.valid() ? 1 : 0;
        }
        std::map<EdgeKey, int> seen;
        for (int e = 0; e < ne; ++e)
        {
            const auto [a, b] = m.edges[static_cast<size_t>(e)];
            if (a < 0 && b < 0)
            {
                PBT_CHECK(m.edgeFaces[static_cast<size_t>(e)][0] < 0 && m.edgeFaces[static_cast<size_t>(e)][1] < 0, "deleted-edge-face", "after ", after, ": deleted edge ", e, " has faces");
                continue;
            }
            PBT_CHECK(a >= 0 && b >= 0 && a < nn && b < nn, "edge-range", "after ", after, ": edge ", e, " joins nodes ", a, ",", b, " of ", nn);
            PBT_CHECK(m.nodes[static_cast<size_t>(a)].valid() && m.nodes[static_cast<size_t>(b)].valid(), "edge-deleted-node", "after ", after, ": edge ", e, " joins nodes ", a, ",", b, " of which one is deleted");
            PBT_CHECK(!simple || a != b, "edge-loop:" + after, "after ", after, ": edge ", e, " joins node ", a, " to itself");
            ++validEdges;
            auto [it, fresh] = seen.insert({edgeKey(a, b), e});
            PBT_CHECK(!simple || fresh, "edge-duplicate:" + after, "after ", after, ": edges ", it->second, " and ", e, " both join nodes ", a, ",", b);
        }
        PBT_CHECK(validNodes == m.numValidNodes, "num-valid-nodes", "after ", after, ": num_valid_nodes ", m.numValidNodes, " but ", validNodes, " nodes have coordinates");
        PBT_CHECK(validEdges == m.numValidEdges, "num-valid-edges", "after ", after, ": num_valid_edges ", m.numValidEdges, " but ", validEdges, " edges have nodes");
        std::vector<std::set<int>> facesOfEdge(static_cast<size_t>(ne));
        std::set<std::vector<int>> distinct;
        for (int f = 0; f < nf; ++f)
        {
            const auto& fn = m.faceNodes[static_cast<size_t>(f)];
            const auto& fe = m.faceEdges[static_cast<size_t>(f)];
            const int k = static_cast<int>(fn.size());
            PBT_CHECK(k >= 3 && k <= 6, "face-size", "after ", after, ": face ", f, " has ", k, " nodes");
            auto sorted = fn;
            std::sort(sorted.begin(), sorted.end());
            PBT_CHECK(std::adjacent_find(sorted.begin(), sorted.end()) == sorted.end(), "face-repeats-node", "after ", after, ": face ", f, " repeats a node: ", str(fn));
            PBT_CHECK(distinct.insert(sorted).second || !simple, "face-duplicate", "after ", after, ": face ", f, " has the nodes of another face: ", str(fn));
            std::set<int> es(fe.begin(), fe.end());
            PBT_CHECK(static_cast<int>(es.size()) == k, "face-repeats-edge", "after ", after, ": face ", f, " repeats an edge: ", str(fe));
            for (int i = 0; i < k; ++i)
            {
                const int a = fn[static_cast<size_t>(i)], b = fn[static_cast<size_t>((i + 1) % k)], e = fe[static_cast<size_t>(i)];
                PBT_CHECK(a >= 0 && a < nn, "face-node-range", "after ", after, ": face ", f, " has node ", a, " of ", nn);
                PBT_CHECK(e >= 0 && e < ne, "face-edge-range", "after ", after, ": face ", f, " has edge ", e, " of ", ne);
                PBT_CHECK(edgeKey(a, b) == edgeKey(m.edges[static_cast<size_t>(e)][0], m.edges[static_cast<size_t>(e)][1]), "face-edge-nodes", "after ", after, ": face ", f, " nodes ", str(fn), " edges ", str(fe), ": edge ", e, " joins ",
                          m.edges[static_cast<size_t>(e)][0], ",", m.edges[static_cast<size_t>(e)][1], " not ", a, ",", b);
                facesOfEdge[static_cast<size_t>(e)].insert(f);
            }
        }
        for (int e = 0; e < ne; ++e)
        {
            std::set<int> listed;
            for (int f : m.edgeFaces[static_cast<size_t>(e)])
            {
                if (f >= 0)
                {
                    PBT_CHECK(f < nf, "edge-face-range", "after ", after, ": edge ", e, " lists face ", f, " of ", nf);
                    PBT_CHECK(listed.insert(f).second, "edge-face-twice", "after ", after, ": edge ", e, " lists face ", f, " twice");
                }
            }
            PBT_CHECK(listed == facesOfEdge[static_cast<size_t>(e)], "edge-faces", "after ", after, ": edge ", e, " lists faces ", m.edgeFaces[static_cast<size_t>(e)][0], ",", m.edgeFaces[static_cast<size_t>(e)][1], " but belongs to ",
                      facesOfEdge[static_cast<size_t>(e)].size(), " faces", facesOfEdge[static_cast<size_t>(e)].empty() ? std::string() : pbt::cat(" (", *facesOfEdge[static_cast<size_t>(e)].begin(), "..)"));
        }
    }

    /// whether the drawn mesh is a planar map: no crossing, touching or overlapping edges
    inline bool planarMesh(const Mesh2& m, double relTol = 1e-6)
    {
        const double tol = relTol * meshScale(m);
        std::vector<int> degree(m.nodes.size(), 0);
        std::vector<size_t> es;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                es.push_back(e);
                for (int n : m.edges[e])
                {
                    if (++degree[static_cast<size_t>(n)] > 15) // the library keeps track of a limited number of edges per node
                    {
                        return false;
                    }
                }
            }
        }
        auto pt = [&](int n)
        { return m.nodes[static_cast<size_t>(n)]; };
        for (size_t i = 0; i < es.size(); ++i)
        {
            const auto [a, b] = m.edges[es[i]];
            const P pa = pt(a), pb = pt(b);
            if (!(dist(pa, pb) > tol))
            {
                return false;
            }
            for (size_t j = i + 1; j < es.size(); ++j)
            {
                const auto [u, v] = m.edges[es[j]];
                const P pu = pt(u), pv = pt(v);
                if (std::max(pu.x, pv.x) < std::min(pa.x, pb.x) - tol || std::max(pa.x, pb.x) < std::min(pu.x, pv.x) - tol ||
                    std::max(pu.y, pv.y) < std::min(pa.y, pb.y) - tol || std::max(pa.y, pb.y) < std::min(pu.y, pv.y) - tol)
                {
                    continue;
                }
                const bool au = a == u, av = a == v, bu = b == u, bv = b == v;
                if ((au && bv) || (av && bu))
                {
                    return false;
                }
                if ((!au && !bu && segDist(pu, pa, pb) <= tol) || (!av && !bv && segDist(pv, pa, pb) <= tol) ||
                    (!au && !av && segDist(pa, pu, pv) <= tol) || (!bu && !bv && segDist(pb, pu, pv) <= tol))
                {
                    return false;
                }
                if (!au && !av && !bu && !bv && properCross(pa, pb, pu, pv))
                {
                    return false;
                }
            }
        }
        return true;
    }

    /// smallest angle between two edges at a node
    inline double minAngle(const Mesh2& m)
    {
        std::vector<std::vector<double>> around(m.nodes.size());
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                const auto a = static_cast<size_t>(m.edges[e][0]), b = static_cast<size_t>(m.edges[e][1]);
                const P d = m.nodes[b] - m.nodes[a];
                around[a].push_back(std::atan2(d.y, d.x));
                around[b].push_back(std::atan2(-d.y, -d.x));
            }
        }
        double r = 10;
        for (auto& v : around)
        {
            std::sort(v.begin(), v.end());
            for (size_t i = 0; i + 1 < v.size(); ++i)
            {
                r = std::min(r, v[i + 1] - v[i]);
            }
            if (v.size() > 1)
            {
                r = std::min(r, v.front() + 2 * M_PI - v.back());
            }
        }
        return r;
    }

    /// faces of a planar mesh: closed walks that always take the next edge clockwise, rotated to start at the smallest node
    /// (strict: the walk also closes with the next clockwise edge at its start node, so nothing dangles inside the face)
    inline std::set<std::vector<int>> referenceFaces(const Mesh2& m, bool strict = true, size_t maxEdges = 6)
    {
        std::vector<std::vector<std::pair<double, int>>> around(m.nodes.size());
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (!m.edgeValid(e))
            {
                continue;
            }
            for (int s = 0; s < 2; ++s)
            {
                const int a = m.edges[e][static_cast<size_t>(s)], b = m.edges[e][static_cast<size_t>(1 - s)];
                const P d = m.nodes[static_cast<size_t>(b)] - m.nodes[static_cast<size_t>(a)];
                around[static_cast<size_t>(a)].push_back({std::atan2(d.y, d.x), b});
            }
        }
        for (auto& v : around)
        {
            std::sort(v.begin(), v.end());
        }
        std::set<std::vector<int>> faces;
        for (size_t s = 0; s < around.size(); ++s)
        {
            for (auto& [ang, first] : around[s])
            {
                std::vector<int> walk{static_cast<int>(s)};
                int prev = static_cast<int>(s), cur = first;
                bool closed = false;
                while (walk.size() <= maxEdges)
                {
                    if (cur == static_cast<int>(s))
                    {
                        closed = true;
                        break;
                    }
                    walk.push_back(cur);
                    const auto& v = around[static_cast<size_t>(cur)];
                    size_t i = 0;
                    while (v[i].second != prev)
                    {
                        ++i;
                    }
                    const int next = v[(i + v.size() - 1) % v.size()].second; // next clockwise
                    prev = cur;
                    cur = next;
                }
                if (!closed || walk.size() < 3 || walk.size() > maxEdges)
                {
                    continue;
                }
                // the walk must really be a face: it closes with the next clockwise edge at s too
                {
                    const auto& v = around[s];
                    size_t i = 0;
                    while (v[i].second != prev)
                    {
                        ++i;
                    }
                    if (strict && v[(i + v.size() - 1) % v.size()].second != first)
                    {
                        continue;
                    }
                }
                auto sorted = walk;
                std::sort(sorted.begin(), sorted.end());
                if (std::adjacent_find(sorted.begin(), sorted.end()) != sorted.end())
                {
                    continue;
                }
                std::vector<P> pts;
                for (int n : walk)
                {
                    pts.push_back(m.nodes[static_cast<size_t>(n)]);
                }
                if (signedArea(pts) <= 0)
                {
                    continue;
                }
                std::rotate(walk.begin(), std::min_element(walk.begin(), walk.end()), walk.end());
                faces.insert(walk);
            }
        }
        return faces;
    }
    inline std::set<std::vector<int>> publishedFaces(const Mesh2& m)
    {
        std::set<std::vector<int>> r;
        for (auto f : m.faceNodes)
        {
            std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end());
            r.insert(f);
        }
        return r;
    }
    inline std::vector<P> facePoints(const Mesh2& m, const std::vector<int>& f)
    {
        std::vector<P> r;
        for (int n : f)
        {
            r.push_back(m.nodes[static_cast<size_t>(n)]);
        }
        return r;
    }
    /// compares the published faces of a planar mesh with the drawn ones
    inline std::string diffFaces(const Mesh2& m, double minArea = 1e-7)
    {
        const auto got = publishedFaces(m);
        const auto strict = referenceFaces(m, true), loose = referenceFaces(m, false);
        std::map<EdgeKey, int> index;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                index[edgeKey(m.edges[e][0], m.edges[e][1])] = static_cast<int>(e);
            }
        }
        for (auto& f : strict)
        {
            if (got.count(f))
            {
                continue;
            }
            // an enclosure of which all edges have a face already is only taken as a face if those faces all differ (it may be a hole)
            // a sliver may be turned over by rounding and by the curvature of the sphere
            std::vector<P> pts;
            double ext = 0;
            for (int n : f)
            {
                pts.push_back(m.nodes[static_cast<size_t>(n)]);
                ext = std::max(ext, dist(pts.back(), pts[0]));
            }
            if (signedArea(pts) < minArea * ext * ext)
            {
                continue;
            }
            std::set<int> other;
            bool all = true;
            for (size_t i = 0; i < f.size(); ++i)
            {
                const auto& ef = m.edgeFaces[static_cast<size_t>(index[edgeKey(f[i], f[(i + 1) % f.size()])])];
                const int o = std::max(ef[0], ef[1]);
                all = all && o >= 0;
                other.insert(o);
            }
            if (!all || other.size() == f.size())
            {
                return pbt::cat("face ", str(f), " ", str(facePoints(m, f)), " is missing");
            }
        }
        for (auto& f : got)
        {
            if (!loose.count(f))
            {
                return pbt::cat("face ", str(f), " ", str(facePoints(m, f)), " is not a face of the drawn mesh");
            }
        }
        return {};
    }
} // namespace mk
