// C04: what an operation does depends on the edits made to its state, not on what was read in between or in which state it is done.
#include "../harness/ops.hpp"
using namespace mk;

namespace
{
    /// questions that must not change anything
    void question(Case& c, int id, const Ctx& x)
    {
        const P p{x.lo.x + c.real(-0.1, 1.1, 40) * (x.hi.x - x.lo.x), x.lo.y + c.real(-0.1, 1.1, 40) * (x.hi.y - x.lo.y)};
        int n = 0;
        switch (c.range(0, 9))
        {
        case 0:
        case 1:
        {
            meshkernelapi::BoundingBox b{-1e10, -1e10, 1e10, 1e10};
            const int loc = c.range(0, 2);
            PBT_LOG(c, "ask: mesh2d_get_location_index ", loc, " ", str(p));
            api::mkernel_mesh2d_get_location_index(id, p.x, p.y, loc, b, n);
            break;
        }
        case 2:
            PBT_LOG(c, "ask: mesh2d_get_node_index ", str(p));
            api::mkernel_mesh2d_get_node_index(id, p.x, p.y, x.h, -1e10, -1e10, 1e10, 1e10, n);
            break;
        case 3:
            PBT_LOG(c, "ask: mesh2d_get_edge ", str(p));
            api::mkernel_mesh2d_get_edge(id, p.x, p.y, -1e10, -1e10, 1e10, 1e10, n);
            break;
        case 4:
            PBT_LOG(c, "ask: mesh2d_count_hanging_edges");
            api::mkernel_mesh2d_count_hanging_edges(id, n);
            break;
        case 5:
            PBT_LOG(c, "ask: mesh2d_count_small_flow_edge_centers, obtuse triangles");
            api::mkernel_mesh2d_count_small_flow_edge_centers(id, 0.3, n);
            api::mkernel_mesh2d_count_obtuse_triangles(id, n);
            break;
        case 6:
            PBT_LOG(c, "ask: mesh2d_count_mesh_boundaries_as_polygons");
            api::mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, n);
            break;
        case 7:
            PBT_LOG(c, "ask: mesh2d_get_orthogonality");
            if (api::mkernel_mesh2d_get_property_dimension(id, 1, n) == 0 && n > 0)
            {
                Geo g(static_cast<size_t>(n));
                auto l = g.list();
                api::mkernel_mesh2d_get_orthogonality(id, l);
            }
            break;
        case 8:
            PBT_LOG(c, "ask: mesh2d_get_face_polygons_dimension, filtered");
            api::mkernel_mesh2d_get_face_polygons_dimension(id, 4, n);
            api::mkernel_mesh2d_get_filtered_face_polygons_dimension(id, 0, 0.0, 0.5, n);
            break;
        default:
            PBT_LOG(c, "ask: mesh2d_count_nodes_in_polygons");
            {
                Geo g;
                for (auto& q : {x.lo, P{x.hi.x, x.lo.y}, p, x.lo})
                {
                    g.add(q);
                }
                auto l = g.list();
                api::mkernel_mesh2d_count_nodes_in_polygons(id, l, 1, n);
            }
            break;
        }
    }

    void history(Case& c, const std::string& groups, int projection, int maxOps)
    {
        reset();
        const bool between = c.coin(0.3); // another state between the two
        const int watched = newState(projection);
        const int other = between ? newState(projection) : -1;
        const int silent = newState(projection);
        std::vector<int> pair{watched, silent};
        MeshOpts o;
        o.maxN = 4;
        o.projection = projection;
        auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        for (int id : pair)
        {
            must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        }
        if (between)
        {
            auto h = genMesh(c, o);
            must(setMesh2(other, h.nodes, h.edges), "mesh2d_set");
        }
        if (groups.find("curvi") != std::string::npos)
        {
            auto q = genCurvi(c, 6, 2, true);
            PBT_LOG(c, "initial ", str(q));
            for (int id : pair)
            {
                must(setCurvi(id, q), "curvilinear_set");
            }
        }
        must(api::mkernel_clear_undo_state(), "clear_undo_state");
        const int nOps = c.range(1, maxOps);
        int applied = 0, sinceRead = 0;
        std::string last;
        for (int k = 0; k < nOps; ++k)
        {
            Ctx x(c);
            x.id = watched;
            x.refresh();
            if (x.validNodes.size() > 600 || x.cg.nodes.size() > 900)
            {
                break;
            }
            for (auto& p : x.m2.nodes)
            {
                if (!std::isfinite(p.x) || !std::isfinite(p.y))
                {
                    throw pbt::Discard{"coordinates that are not numbers"};
                }
            }
            const int asks = static_cast<int>(c.weighted({3, 2, 1}));
            for (int q = 0; q < asks && !x.validEdges.empty(); ++q)
            {
                question(c, watched, x);
            }
            int c0 = 0, c1 = 0, r0 = 0;
            must(api::mkernel_undo_state_count(c0, r0), "undo_state_count");
            const size_t at = c.choices.size();
            int rc = 0, rc2 = 0;
            const Op* op = nullptr;
            bool discarded = false;
            try
            {
                op = runRandomOp(x, groups, rc);
            }
            catch (pbt::Discard&)
            {
                discarded = true;
            }
            // the same call on the other state
            Case again;
            again.replaying = true;
            again.thorough = c.thorough;
            again.prefix.assign(c.choices.begin() + static_cast<std::ptrdiff_t>(at), c.choices.end());
            const std::string err = rc != 0 ? lastError() : std::string();
            Ctx y(again);
            y.wild = x.wild;
            y.id = silent;
            y.projection = x.projection;
            y.m2 = x.m2;
            y.m1 = x.m1;
            y.cg = x.cg;
            y.validNodes = x.validNodes;
            y.validEdges = x.validEdges;
            y.lo = x.lo;
            y.hi = x.hi;
            y.h = x.h;
            y.box = x.box;
            bool discarded2 = false;
            const Op* op2 = nullptr;
            try
            {
                op2 = runRandomOp(y, groups, rc2);
            }
            catch (pbt::Discard&)
            {
                discarded2 = true;
            }
            if (discarded || discarded2 || !op || op != op2)
            {
                break;
            }
            ++c.evaluations;
            ++sinceRead;
            PBT_CHECK((rc == 0) == (rc2 == 0), "outcome:" + op->name, op->name, " returned ", rc, " (", err, ") where the state was read before it, and ", rc2, " (", lastError(), ") where it was not");
            if (rc != 0)
            {
                break; // what a failing call leaves behind is another property
            }
            last = op->name;
            ++applied;
            // nodes without edges may be dropped whenever the mesh is read: then both are read
            const auto after = getMesh2(watched);
            bool dropped = false;
            for (size_t i = 0; i < after.nodes.size(); ++i)
            {
                dropped |= !after.nodeValid(i) && (i >= x.m2.nodes.size() || x.m2.nodeValid(i));
            }
            if (dropped)
            {
                c.label("nodes dropped");
            }
            // undo in both (the last first), and redo
            must(api::mkernel_undo_state_count(c1, r0), "undo_state_count");
            if (!dropped && c1 == c0 + 2 && c.coin(0.3))
            {
                const bool redo = c.coin(0.5);
                PBT_LOG(c, redo ? "undo and redo in both" : "undo in both");
                for (int turn = 0; turn < (redo ? 4 : 2); ++turn)
                {
                    bool ok = false;
                    int rid = -1;
                    c.op(turn < 2 ? "undo_state" : "redo_state");
                    must(turn < 2 ? api::mkernel_undo_state(ok, rid) : api::mkernel_redo_state(ok, rid), "undo_state");
                    PBT_CHECK(ok && rid == (turn == 0 || turn == 3 ? silent : watched), "undo-id:" + op->name, "undo or redo of ", op->name, " reported ", ok, " and state ", rid);
                }
                last = (redo ? "redo of " : "undo of ") + op->name;
                c.label(redo ? "redone unread" : "undone unread");
            }
            if (dropped || c.coin(0.25))
            {
                auto d = diffSnapshot(snapshot(watched), snapshot(silent));
                PBT_CHECK(d.empty(), "state:" + last, "after ", last, " the state that was read in between differs from the one that was not (read vs not read): ", d);
                ++c.evaluations;
                sinceRead = 0;
            }
        }
        auto d = diffSnapshot(snapshot(watched), snapshot(silent));
        ++c.evaluations;
        PBT_CHECK(d.empty(), "state:" + last, "after ", last, " the state that was read in between differs from the one that was not (read vs not read): ", d);
        if (applied >= 2)
        {
            c.nontrivial();
        }
        if (between)
        {
            c.label("another state in between");
        }
    }

    pbt::Register reg("C04",
                      "A case is a history of API calls with generated arguments that is applied to two states, of which one is read and asked questions before every call and the other is not; the outcomes and in the end the full observable states are compared bit for bit. Non-trivial: at least two operations took effect.",
                      120000, 3000000,
                      {{"mesh2d", [](Case& c)
                        { history(c, "mesh2d", 0, c.thorough ? 12 : 6); },
                        5},
                       {"mesh2d-mixed", [](Case& c)
                        { history(c, "mesh2d,mesh2dset,mesh1d,contacts", 0, c.thorough ? 12 : 6); },
                        2},
                       {"spherical", [](Case& c)
                        { history(c, "mesh2d,mesh2dset", c.range(1, 2), c.thorough ? 8 : 5); },
                        1},
                       {"curvilinear", [](Case& c)
                        { history(c, "curvi,curviset", 0, c.thorough ? 12 : 6); },
                        2}});
} // namespace
