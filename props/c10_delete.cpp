// C10: deleting with a polygon removes exactly what the deletion option selects.
#include "../harness/circum.hpp"
#include "../harness/ops.hpp"
#include "../harness/polyset.hpp"
using namespace mk;

namespace
{
    enum Sel
    {
        no = 0,
        yes = 1,
        unsure = 2
    };
    Sel negate(Sel s) { return s == unsure ? unsure : s == yes ? no
                                                               : yes; }
    Sel both(Sel a, Sel b) { return a == no || b == no ? no : a == yes && b == yes ? yes
                                                                                  : unsure; }
    Sel either(Sel a, Sel b) { return negate(both(negate(a), negate(b))); }

    Sel segmentsCross(P a, P b, P u, P v, double tol)
    {
        const double d = std::min({segDist(a, u, v), segDist(b, u, v), segDist(u, a, b), segDist(v, a, b)});
        if (d <= tol)
        {
            return unsure;
        }
        return properCross(a, b, u, v) ? yes : no;
    }

    void deletion(Case& c, int projection)
    {
        reset();
        const int id = newState(projection);
        MeshOpts o;
        o.maxN = c.thorough ? 8 : 6;
        o.projection = projection;
        auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const int ops = static_cast<int>(c.weighted({5, 2, 1}));
        for (int k = 0; k < ops; ++k)
        {
            Ctx x(c);
            x.id = id;
            x.refresh();
            if (x.validNodes.size() > 200 || x.validNodes.empty() || x.projection != projection)
            {
                break;
            }
            int rc = 0;
            try
            {
                runRandomOp(x, "mesh2d", rc);
            }
            catch (pbt::Discard&)
            {
            }
        }
        const auto m = getMesh2(id);
        P lo{1e300, 1e300}, hi{-1e300, -1e300};
        int valid = 0;
        for (auto& p : m.nodes)
        {
            if (p.valid())
            {
                ++valid;
                lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
                hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
            }
        }
        int now = -1;
        must(api::mkernel_get_projection(id, now), "get_projection");
        if (now != projection || valid < 2 || m.faceNodes.empty() || !m.validNodeBox(1e8) || !(hi.x - lo.x > 1e-9) || !(hi.y - lo.y > 1e-9) || (projection > 0 && (hi.x - lo.x > 8 || hi.y - lo.y > 8 || std::max(std::abs(lo.y), std::abs(hi.y)) > 75)))
        {
            return;
        }
        std::set<std::pair<int, int>> seen;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            const auto [a, b] = m.edges[e];
            if (m.edgeValid(e) && (a == b || !seen.insert({std::min(a, b), std::max(a, b)}).second))
            {
                return; // loops and duplicate edges are not judged
            }
        }
        const int option = c.range(0, 2), invert = c.range(0, 1);
        const auto s = genPolySet(c, lo, hi, true);
        PBT_LOG(c, "mesh2d_delete option ", option, " invert ", invert, " polygons ", str(s.points()));
        const double tol = (projection == 0 ? 1e-6 : 1e-2) * std::max(s.extent(), meshScale(m));
        auto pointIn = [&](P p, double t)
        { return s.empty() ? yes : s.distToBoundary(p) <= t ? unsure
                               : s.contains(p)              ? yes
                                                            : no; };
        // which faces are selected
        const size_t nf = m.faceNodes.size();
        std::vector<Sel> nodeIn(m.nodes.size(), no), edgeCut(m.edges.size(), no), face(nf, unsure);
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            if (m.nodeValid(i))
            {
                nodeIn[i] = pointIn(m.nodes[i], tol);
            }
        }
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                s.eachSegment([&](P a, P b)
                              { edgeCut[e] = either(edgeCut[e], segmentsCross(a, b, m.nodes[static_cast<size_t>(m.edges[e][0])], m.nodes[static_cast<size_t>(m.edges[e][1])], tol)); });
            }
        }
        std::vector<P> cc;
        const bool defined = option == 2 && projection == 0 && circumcentresDefined(m);
        if (defined)
        {
            cc = refCircumcentres(m);
        }
        for (size_t f = 0; f < nf; ++f)
        {
            if (option == 2)
            {
                if (s.empty())
                {
                    face[f] = yes;
                }
                else if (defined)
                {
                    double ext = 0;
                    const auto p = facePts(m, f);
                    for (auto& q : p)
                    {
                        ext = std::max(ext, dist(q, p[0]));
                    }
                    face[f] = pointIn(cc[f], p.size() == 3 ? 1e-6 * ext + tol : 5e-3 + 0.01 * ext);
                }
            }
            else
            {
                Sel all = yes, cut = no;
                for (int n : m.faceNodes[f])
                {
                    all = both(all, nodeIn[static_cast<size_t>(n)]);
                }
                for (int e : m.faceEdges[f])
                {
                    cut = either(cut, edgeCut[static_cast<size_t>(e)]);
                }
                face[f] = option == 0 ? both(all, negate(cut)) : either(all, cut);
            }
            if (invert)
            {
                face[f] = negate(face[f]);
            }
        }
        c.op("mesh2d_delete");
        Geo poly(s.points());
        auto pl = poly.list();
        must(api::mkernel_mesh2d_delete(id, pl, option, invert), "mesh2d_delete");
        const auto r = getMesh2(id);
        const auto how = pbt::cat("option ", option, invert ? " inverted" : "");
        int removed = 0, kept = 0;
        std::vector<char> hasEdge(m.nodes.size(), 0);
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            ++c.evaluations;
            const bool there = e < r.edges.size() && r.edgeValid(e);
            if (!m.edgeValid(e))
            {
                PBT_CHECK(!there, "revived-edge", how, ": deleted edge ", e, " exists again");
                continue;
            }
            PBT_CHECK(!there || r.edges[e] == m.edges[e], "edge-changed", how, ": edge ", e, " joins other nodes");
            if (there)
            {
                hasEdge[static_cast<size_t>(m.edges[e][0])] = hasEdge[static_cast<size_t>(m.edges[e][1])] = 1;
            }
            Sel gone = yes;
            int faces = 0;
            for (int f : m.edgeFaces[e])
            {
                if (f >= 0)
                {
                    ++faces;
                    gone = both(gone, face[static_cast<size_t>(f)]);
                }
            }
            if (faces == 0)
            {
                if (option != 2)
                {
                    continue; // edges without faces are not covered by these options
                }
                gone = pointIn((m.nodes[static_cast<size_t>(m.edges[e][0])] + m.nodes[static_cast<size_t>(m.edges[e][1])]) * 0.5, tol);
                gone = invert ? negate(gone) : gone;
            }
            if (gone == unsure)
            {
                continue;
            }
            (gone == yes ? removed : kept)++;
            PBT_CHECK((gone == yes) == !there, there ? "edge-kept" : "edge-removed", how, ": edge ", e, " ", str(m.nodes[static_cast<size_t>(m.edges[e][0])]), str(m.nodes[static_cast<size_t>(m.edges[e][1])]), " has ", faces, " faces, ",
                      gone == yes ? "all selected, but was kept" : "not all selected, but was removed", "; polygons ", str(s.points()), " faces ", m.edgeFaces[e][0] >= 0 ? str(facePts(m, static_cast<size_t>(m.edgeFaces[e][0]))) : std::string(), m.edgeFaces[e][1] >= 0 ? str(facePts(m, static_cast<size_t>(m.edgeFaces[e][1]))) : std::string());
        }
        for (size_t e = m.edges.size(); e < r.edges.size(); ++e)
        {
            PBT_CHECK(!r.edgeValid(e), "new-edge", how, ": deletion made edge ", e);
        }
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            const bool there = i < r.nodes.size() && r.nodeValid(i);
            PBT_CHECK(there == (hasEdge[i] != 0), there ? "node-kept" : "node-removed", how, ": node ", i, " ", str(m.nodes[i]), there ? " is kept without edges" : " was removed although an edge is left");
            PBT_CHECK(!there || sameP(r.nodes[i], m.nodes[i]), "node-moved", how, ": node ", i, " moved from ", str(m.nodes[i]), " to ", str(r.nodes[i]));
        }
        for (size_t i = m.nodes.size(); i < r.nodes.size(); ++i)
        {
            PBT_CHECK(!r.nodeValid(i), "new-node", how, ": deletion made node ", i);
        }
        c.label(how);
        if (removed > 0 && kept > 0)
        {
            c.nontrivial();
        }
        c.label(removed == 0 ? "nothing removed" : kept == 0 ? "everything removed" : "part removed");
    }

    pbt::Register reg("C10",
                      "a case is non-trivial if at least one edge had to be removed and one kept",
                      300000, 5000000,
                      {{"cartesian", [](Case& c)
                        { deletion(c, 0); },
                        5},
                       {"spherical", [](Case& c)
                        { deletion(c, 1); },
                        1}});
} // namespace
