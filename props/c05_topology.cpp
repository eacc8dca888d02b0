// C05: after any history of mesh2d operations the published mesh is a consistent unstructured mesh.
#include "../harness/ops.hpp"
#include "../harness/topo.hpp"
using namespace mk;

namespace
{
    /// wellFormed: the mesh before the operation was a planar map; returns whether this one is
    bool checkMesh(Case& c, const Mesh2& m, int projection, const std::string& after, bool wellFormed)
    {
        ++c.evaluations;
        checkConnectivity(m, wellFormed, after);
        const bool planar = m.validNodeBox(1e7) && planarMesh(m) && (projection == 0 || (meshScale(m) < 20 && minAngle(m) > 0.03));
        if (planar)
        {
            c.label("planar");
            auto d = diffFaces(m, projection == 0 ? 1e-7 : 0.02);
            PBT_CHECK(d.empty(), "faces:" + after, "after ", after, ": ", d);
            if (projection == 0)
            {
                const double scale = meshScale(m);
                for (size_t e = 0; e < m.edges.size(); ++e)
                {
                    if (m.edgeValid(e))
                    {
                        const P want = (m.nodes[static_cast<size_t>(m.edges[e][0])] + m.nodes[static_cast<size_t>(m.edges[e][1])]) * 0.5;
                        PBT_CHECK(dist(want, m.edgeCentres[e]) <= 1e-7 * scale, "edge-centre", "after ", after, ": centre of edge ", e, " is ", str(m.edgeCentres[e]), " not ", str(want));
                    }
                }
                for (size_t f = 0; f < m.faceNodes.size(); ++f)
                {
                    const auto pts = facePts(m, f);
                    const P want = centroid(pts);
                    double ext = 0;
                    for (auto& p : pts)
                    {
                        ext = std::max(ext, dist(p, pts[0]));
                    }
                    if (std::abs(signedArea(pts)) < 1e-6 * ext * ext || ext < 1e-4 * scale || std::abs(signedArea(pts)) < 1e-6)
                    {
                        continue; // sliver or collapsed face: the centre of mass is ill conditioned
                    }
                    PBT_CHECK(dist(want, m.faceCentres[f]) <= 1e-5 * ext, "face-centre", "after ", after, ": centre of mass of face ", f, " is ", str(m.faceCentres[f]), " not ", str(want));
                }
            }
        }
        return planar;
    }

    bool convexFaces(const Mesh2& m)
    {
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            const auto p = facePts(m, f);
            for (size_t i = 0; i < p.size(); ++i)
            {
                const P a = p[i], b = p[(i + 1) % p.size()], d = p[(i + 2) % p.size()];
                if (!(orient(a, b, d) > 1e-3 * dist(a, b) * dist(b, d)))
                {
                    return false;
                }
            }
        }
        return true;
    }

    void history(Case& c, const std::string& groups, int projection, int maxOps, bool hard)
    {
        reset();
        const int id = newState(projection);
        MeshOpts o;
        o.maxN = 5;
        o.projection = projection;
        o.maxJitter = hard ? 0.6 : 0.25;
        auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        bool wellFormed = checkMesh(c, getMesh2(id), projection, "mesh2d_set", true);
        const int nOps = c.range(0, maxOps);
        int applied = 0;
        std::string last = "mesh2d_set";
        for (int k = 0; k < nOps; ++k)
        {
            Ctx x(c);
            x.id = id;
            x.refresh();
            if (x.validNodes.size() > 400)
            {
                break;
            }
            std::string name;
            if (applied > 0 && c.coin(0.12))
            {
                bool done = false;
                int rid = -1;
                const bool redo = c.coin(0.4);
                PBT_LOG(c, redo ? "redo" : "undo");
                must(redo ? api::mkernel_redo_state(done, rid) : api::mkernel_undo_state(done, rid), "undo/redo");
                name = redo ? "redo" : "undo";
            }
            else
            {
                int rc = 0;
                const Op* op = nullptr;
                try
                {
                    op = runRandomOp(x, groups, rc);
                }
                catch (pbt::Discard&)
                {
                    continue;
                }
                if (!op || rc != 0)
                {
                    continue;
                }
                name = op->name;
                ++applied;
            }
            int p = projection;
            must(api::mkernel_get_projection(id, p), "get_projection");
            // triangulating a face with nodes on a straight line gives degenerate triangles
            const bool simple = wellFormed && name != "undo" && name != "redo" && name != "mesh2d_connect_meshes" && (name != "mesh2d_flip_edges" || convexFaces(x.m2));
            wellFormed = checkMesh(c, getMesh2(id), p, name, simple);
        }
        if (applied > 0)
        {
            c.nontrivial();
        }
    }
    pbt::Register reg("C05",
                      "a case is non-trivial if at least one editing operation after the initial mesh2d_set succeeded (in facet 'set': if the mesh has at least one face)",
                      120000, 2000000,
                      {{"cartesian", [](Case& c)
                        { history(c, "mesh2d", 0, c.thorough ? 12 : 6, false); },
                        4},
                       {"spherical", [](Case& c)
                        { history(c, "mesh2d", c.range(1, 2), c.thorough ? 8 : 4, false); },
                        1},
                       {"distorted", [](Case& c)
                        { history(c, "mesh2d", 0, c.thorough ? 8 : 4, true); },
                        2},
                       {"create", [](Case& c)
                        { history(c, "mesh2d,mesh2dset", 0, c.thorough ? 12 : 6, false); },
                        2}});
} // namespace
