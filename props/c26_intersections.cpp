// C26: the intersections of polygons with the mesh are exactly the crossed edges.
#include "../harness/gen.hpp"
#include "../harness/geo.hpp"
#include "../harness/history.hpp"
#include "../harness/topo.hpp"

using namespace mk;

namespace
{
    void intersections(Case& c)
    {
        reset();
        MeshOpts o;
        o.maxN = 6;
        const GenMesh g = genMesh(c, o);
        logMesh(c, g);
        const int id = newState(0);
        must(setMesh2(id, g.nodes, g.edges), "set");
        // gaps in the numbering
        const int deletions = c.coin(0.4) ? c.range(1, 4) : 0;
        for (int i = 0; i < deletions; ++i)
        {
            const Mesh2 now = getMesh2(id);
            std::vector<int> valid;
            for (size_t e = 0; e < now.edges.size(); ++e)
            {
                if (now.edges[e][0] >= 0)
                {
                    valid.push_back(static_cast<int>(e));
                }
            }
            if (valid.size() < 6)
            {
                break;
            }
            const int e = valid[c.draw(valid.size())];
            if (c.coin(0.5))
            {
                PBT_LOG(c, "delete node ", now.edges[static_cast<size_t>(e)][0]);
                must(api::mkernel_mesh2d_delete_node(id, now.edges[static_cast<size_t>(e)][0]), "delete_node");
            }
            else
            {
                PBT_LOG(c, "delete edge ", e);
                must(api::mkernel_mesh2d_delete_edge_by_index(id, e), "delete_edge");
            }
        }
        // polygons
        std::vector<std::vector<P>> rings;
        Geo geo;
        const int n = static_cast<int>(c.weighted({0, 6, 2})); // 1 or 2
        const double size = std::max(g.hi.x - g.lo.x, g.hi.y - g.lo.y);
        for (int i = 0; i < n; ++i)
        {
            std::vector<P> ring = c.coin(0.3) ? genBoxPolygon(c, g.lo, g.hi) : genStarPolygon(c, g.lo, g.hi, 0.1 * size, (c.coin(0.2) ? 2.0 : 0.8) * size);
            if (c.coin(0.3))
            {
                // many short segments
                std::vector<P> fine;
                const int k = c.range(2, 6);
                for (size_t j = 0; j + 1 < ring.size(); ++j)
                {
                    for (int s = 0; s < k; ++s)
                    {
                        fine.push_back(ring[j] + (ring[j + 1] - ring[j]) * (static_cast<double>(s) / k));
                    }
                }
                fine.push_back(fine.front());
                ring = fine;
            }
            for (auto& p : ring)
            {
                p = notMissing(p);
            }
            if (i > 0)
            {
                geo.add({missing, missing});
            }
            for (auto& p : ring)
            {
                geo.add(p);
            }
            rings.push_back(ring);
        }
        PBT_LOG(c, "polygons ", str(geo.pts()));
        const Mesh2 m = getMesh2(id);
        if (m.faceNodes.empty())
        {
            throw pbt::Discard();
        }
        // brute force
        struct Hit
        {
            int segment;
            double onSegment, onEdge;
            bool firstLeft;
        };
        std::map<int, std::vector<Hit>> expected;
        const double tol = 1e-7 * size;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edges[e][0] < 0 || m.edges[e][1] < 0)
            {
                continue;
            }
            if (m.edgeFaces[e][0] < 0 && m.edgeFaces[e][1] < 0)
            {
                continue; // not on a face
            }
            const P a = m.nodes[static_cast<size_t>(m.edges[e][0])], b = m.nodes[static_cast<size_t>(m.edges[e][1])];
            for (auto& ring : rings)
            {
                for (size_t s = 0; s + 1 < ring.size(); ++s)
                {
                    const P p = ring[s], q = ring[s + 1];
                    // touching is not judged
                    if (segDist(a, p, q) < tol || segDist(b, p, q) < tol || segDist(p, a, b) < tol || segDist(q, a, b) < tol)
                    {
                        throw pbt::Discard();
                    }
                    if (properCross(a, b, p, q))
                    {
                        const double den = cross(b - a, q - p);
                        expected[static_cast<int>(e)].push_back({static_cast<int>(s), cross(p - a, b - a) / den, cross(p - a, q - p) / den, orient(p, q, a) > 0});
                    }
                }
            }
        }
        const size_t ne = m.edges.size() * rings.size() + 10;
        std::vector<int> edgeNodes(2 * ne, -77), edgeIndex(ne, -77), segmentIndexes(ne, -77), faceIndexes(8 * ne, -77), faceNumEdges(8 * ne, -77), faceEdgeIndex(8 * ne, -77);
        std::vector<double> edgeDistances(ne, -77), segmentDistances(ne, -77);
        c.op("intersections_from_polygon");
        must(api::mkernel_mesh2d_intersections_from_polygon(id, geo.list(), edgeNodes.data(), edgeIndex.data(), edgeDistances.data(), segmentDistances.data(), segmentIndexes.data(), faceIndexes.data(), faceNumEdges.data(), faceEdgeIndex.data()), "intersections_from_polygon");
        std::set<int> found;
        double last = -1.0;
        for (size_t i = 0; i < ne && edgeIndex[i] != -77; ++i)
        {
            const int e = edgeIndex[i];
            PBT_CHECK(found.insert(e).second, "twice", "edge ", e, " is reported twice");
            PBT_CHECK(expected.contains(e), "not-crossed", "edge ", e, " is reported and is not crossed");
            const auto& ed = m.edges[static_cast<size_t>(e)];
            bool ok = false;
            for (auto& h : expected[e])
            {
                const int left = h.firstLeft ? ed[0] : ed[1], right = h.firstLeft ? ed[1] : ed[0]; // the first node is the one to the right
                ok = ok || (h.segment == segmentIndexes[i] && std::abs(h.onSegment - segmentDistances[i]) < 1e-6 && std::abs(h.onEdge - edgeDistances[i]) < 1e-6 &&
                            edgeNodes[2 * i] == right && edgeNodes[2 * i + 1] == left);
            }
            PBT_CHECK(ok, "wrong-data", "edge ", e, " ", ed[0], "-", ed[1], ": segment ", segmentIndexes[i], " at ", segmentDistances[i], " of the segment and ", edgeDistances[i], " of the edge, nodes ", edgeNodes[2 * i], " and ", edgeNodes[2 * i + 1],
                      "; expected for example segment ", expected[e][0].segment, " at ", expected[e][0].onSegment, " and ", expected[e][0].onEdge, ", first node left ", expected[e][0].firstLeft);
        }
        if (rings.size() == 1)
        {
            std::vector<double> cum(1, 0.0);
            for (size_t i = 1; i < rings[0].size(); ++i)
            {
                cum.push_back(cum.back() + dist(rings[0][i - 1], rings[0][i]));
            }
            for (size_t i = 0; i < found.size(); ++i)
            {
                const auto k = static_cast<size_t>(segmentIndexes[i]);
                const double pos = cum[k] + segmentDistances[i] * (cum[k + 1] - cum[k]);
                PBT_CHECK(pos >= last - 1e-9 * cum.back(), "order", "the intersections are not in the order along the polygon: ", pos, " after ", last);
                last = pos;
            }
        }
        for (auto& [e, h] : expected)
        {
            PBT_CHECK(found.contains(e), "missed", "edge ", e, " is crossed by segment ", h[0].segment, " and is not reported");
        }
        // faces
        std::map<int, std::multiset<int>> faces, reported;
        for (int e : found)
        {
            for (int f : m.edgeFaces[static_cast<size_t>(e)])
            {
                if (f >= 0)
                {
                    faces[f].insert(e);
                }
            }
        }
        size_t at = 0;
        for (size_t i = 0; i < faceNumEdges.size() && faceNumEdges[i] != -77; ++i)
        {
            for (int k = 0; k < faceNumEdges[i]; ++k, ++at)
            {
                PBT_CHECK(faceIndexes[at] != -77, "face-count", "fewer faces than announced");
                PBT_CHECK(k == 0 || faceIndexes[at] == faceIndexes[at - 1], "face-mixed", "the edges of face ", faceIndexes[at - 1], " are mixed with those of face ", faceIndexes[at]);
                reported[faceIndexes[at]].insert(faceEdgeIndex[at]);
            }
        }
        for (auto& [f, es] : reported)
        {
            PBT_CHECK(faces.contains(f), "face-not-crossed", "face ", f, " is reported and no edge of it is crossed");
            for (int e : es)
            {
                PBT_CHECK(faces[f].contains(e), "face-edge", "edge ", e, " is reported for face ", f, " and is not a crossed edge of it");
                if (rings.size() == 1)
                {
                    PBT_CHECK(es.count(e) == 1, "face-edge-twice", "edge ", e, " is reported twice for face ", f);
                }
            }
        }
        for (auto& [f, es] : faces)
        {
            PBT_CHECK(reported.contains(f), "face-missed", "face ", f, " has crossed edges and is not reported");
            for (int e : es)
            {
                PBT_CHECK(reported[f].contains(e), "face-edge-missed", "edge ", e, " of face ", f, " is crossed and not reported for the face");
            }
        }
        ++c.evaluations;
        c.label(pbt::cat("polygons-", rings.size()));
        if (!found.empty())
        {
            c.nontrivial();
        }
        if (deletions > 0)
        {
            c.label("gaps");
        }
    }

    const pbt::Register reg("C26", "at least one edge of the mesh is crossed", 60000, 2000000, {{"polygons", intersections, 1}});
} // namespace
