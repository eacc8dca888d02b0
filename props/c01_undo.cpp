// C01: undo restores exactly, redo reproduces exactly, for every history of undoable operations.
#include "../harness/ops.hpp"
using namespace mk;

namespace
{
    struct Entry
    {
        int id;
        std::string op;
        Snapshot before, after;
    };

    bool finite(const Snapshot& s)
    {
        auto ok = [](const std::vector<P>& v)
        { return std::all_of(v.begin(), v.end(), [](P p)
                             { return std::isfinite(p.x) && std::isfinite(p.y); }); };
        // in spherical coordinates the nodes have to stay on the globe
        auto globe = [](const std::vector<P>& v)
        { return std::all_of(v.begin(), v.end(), [](P p)
                             { return !p.valid() || (std::abs(p.x) <= 540.0 && std::abs(p.y) <= 90.0); }); };
        return ok(s.m2.nodes) && ok(s.m1.nodes) && ok(s.cg.nodes) && (s.projection == 0 || globe(s.m2.nodes));
    }

    void history(Case& c, const std::string& groups, int projection, int maxOps)
    {
        reset();
        const int nStates = c.coin(0.3) ? 2 : 1;
        std::vector<int> ids;
        for (int i = 0; i < nStates; ++i)
        {
            ids.push_back(newState(projection));
        }
        std::map<int, Snapshot> cur;
        for (int id : ids)
        {
            if (!c.coin(0.05))
            {
                MeshOpts o;
                o.maxN = 4;
                o.projection = projection;
                auto g = genMesh(c, o);
                logMesh(c, g, "initial mesh2d");
                must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
            }
            if (groups.find("curvi") != std::string::npos)
            {
                auto g = genCurvi(c, 6, 2, true);
                PBT_LOG(c, "initial ", str(g));
                must(setCurvi(id, g), "curvilinear_set");
            }
            if (groups.find("contacts") != std::string::npos)
            {
                Ctx x(c);
                x.id = id;
                x.refresh();
                for (auto& o : allOps())
                {
                    if (o.name == "mesh1d_set")
                    {
                        must(o.run(x), "mesh1d_set");
                    }
                }
            }
            cur[id] = snapshot(id);
        }
        must(api::mkernel_clear_undo_state(), "clear_undo_state");
        std::vector<Entry> done, undone;
        const int nOps = c.range(1, maxOps);
        int applied = 0;
        bool hasUndo = false, hasRedo = false;
        auto checkOthers = [&](int id, const char* what, const std::string& op)
        {
            for (int o : ids)
            {
                if (o == id)
                {
                    continue;
                }
                auto d = diffSnapshot(cur[o], snapshot(o));
                PBT_CHECK(d.empty(), std::string("other-state-changed:") + what, what, " of ", op, " on state ", id, " changed state ", o, ": ", d);
            }
        };
        auto doUndo = [&]
        {
            bool ok = false;
            int rid = -1;
            c.op("undo_state");
            must(api::mkernel_undo_state(ok, rid), "undo_state");
            auto e = done.back();
            done.pop_back();
            PBT_LOG(c, "undo ", e.op);
            PBT_CHECK(ok && rid == e.id, "undo-id:" + e.op, "undo of ", e.op, " on id ", e.id, " reported undone=", ok, " id=", rid);
            auto s = snapshot(e.id);
            ++c.evaluations;
            auto d = diffSnapshot(e.before, s);
            PBT_CHECK(d.empty(), "undo:" + e.op, "state after undo of ", e.op, " differs from the state before it (before vs after undo): ", d);
            cur[e.id] = s;
            checkOthers(e.id, "undo", e.op);
            undone.push_back(e);
            hasUndo = true;
        };
        auto doRedo = [&]
        {
            bool ok = false;
            int rid = -1;
            c.op("redo_state");
            must(api::mkernel_redo_state(ok, rid), "redo_state");
            auto e = undone.back();
            undone.pop_back();
            PBT_LOG(c, "redo ", e.op);
            PBT_CHECK(ok && rid == e.id, "redo-id:" + e.op, "redo of ", e.op, " on id ", e.id, " reported redone=", ok, " id=", rid);
            auto s = snapshot(e.id);
            ++c.evaluations;
            auto d = diffSnapshot(e.after, s);
            PBT_CHECK(d.empty(), "redo:" + e.op, "state after redo of ", e.op, " differs from the state after it was first done (first vs redo): ", d);
            cur[e.id] = s;
            checkOthers(e.id, "redo", e.op);
            done.push_back(e);
            hasRedo = true;
        };
        for (int k = 0; k < nOps; ++k)
        {
            const int what = static_cast<int>(c.weighted({6, 2, 1}));
            if (what == 1 && !done.empty())
            {
                doUndo();
                continue;
            }
            if (what == 2 && !undone.empty())
            {
                doRedo();
                continue;
            }
            Ctx x(c);
            x.id = c.pick(ids);
            x.refresh();
            // the size of the mesh is kept small so that histories can be long
            if (x.validNodes.size() > 600 || x.cg.nodes.size() > 900)
            {
                break;
            }
            int c0, r0, c1, r1, rc = 0;
            must(api::mkernel_undo_state_count(c0, r0), "undo_state_count");
            const Op* op = nullptr;
            try
            {
                op = runRandomOp(x, groups, rc);
            }
            catch (pbt::Discard&)
            {
                continue;
            }
            if (!op)
            {
                continue;
            }
            must(api::mkernel_undo_state_count(c1, r1), "undo_state_count");
            if (rc != 0)
            {
                // atomicity of failing calls is another property (C03); the history goes on only if nothing happened
                PBT_LOG(c, "   -> error ", rc, " ", lastError());
                if (c1 != c0 || !diffSnapshot(cur[x.id], snapshot(x.id)).empty())
                {
                    c.label("failed-op-changed-state");
                    return;
                }
                continue;
            }
            auto s = snapshot(x.id);
            // orthogonalization of a degenerate mesh gives coordinates that are not numbers, which the library then drops
            if (!finite(s) || (op->name.find("orthogonaliz") != std::string::npos && s.m2.numValidNodes != cur[x.id].m2.numValidNodes))
            {
                c.label("not-a-number");
                return; // a degenerate result, out of scope here
            }
            // an operation with k undo actions is undone by k undos; only single-action operations are used as history steps
            const int added = c1 - c0;
            PBT_CHECK(added == 1 || op->name == "network1d_to_mesh1d" || op->name == "mesh2d_convert_projection" || op->name == "curvilinear_line_shift" || op->name == "curvilinear_orthogonalize" || added == 0,
                      "not-recorded:" + op->name, op->name, " succeeded and added ", added, " undo actions");
            if (added != 1)
            {
                auto d = diffSnapshot(cur[x.id], s);
                if (added == 0)
                {
                    PBT_CHECK(d.empty(), "not-recorded:" + op->name, op->name, " succeeded and changed the state (", d, ") without an undo action");
                    continue;
                }
                // undo all of its actions, redo them all
                for (int i = 0; i < added; ++i)
                {
                    bool ok;
                    int rid;
                    must(api::mkernel_undo_state(ok, rid), "undo_state");
                    PBT_CHECK(ok && rid == x.id, "undo-id:" + op->name, "undo reported undone=", ok, " id=", rid);
                }
                auto b = snapshot(x.id);
                d = diffSnapshot(cur[x.id], b);
                ++c.evaluations;
                PBT_CHECK(d.empty(), "undo:" + op->name, "state after undo of ", op->name, " (", added, " actions) differs: ", d);
                for (int i = 0; i < added; ++i)
                {
                    bool ok;
                    int rid;
                    must(api::mkernel_redo_state(ok, rid), "redo_state");
                }
                auto a = snapshot(x.id);
                d = diffSnapshot(s, a);
                ++c.evaluations;
                PBT_CHECK(d.empty(), "redo:" + op->name, "state after redo of ", op->name, " (", added, " actions) differs: ", d);
                for (int i = 0; i < added; ++i)
                {
                    bool ok;
                    int rid;
                    must(api::mkernel_undo_state(ok, rid), "undo_state");
                }
                d = diffSnapshot(cur[x.id], snapshot(x.id));
                PBT_CHECK(d.empty(), "undo-after-redo:" + op->name, "state after the second undo of ", op->name, " differs: ", d);
                undone.clear();
                // the redo list now holds the actions of this operation: leave them, a new action clears them
                ++applied;
                // drop them by performing a recorded no-change translate is not available for all states; forget them instead
                break;
            }
            // a new action on a state drops what could be redone on that state (and only there)
            std::erase_if(undone, [&](const Entry& e)
                          { return e.id == x.id; });
            PBT_CHECK(r1 == static_cast<int>(undone.size()), "redo-not-cleared", op->name, " succeeded but ", r1, " redo actions are left instead of ", undone.size());
            done.push_back({x.id, op->name, cur[x.id], s});
            checkOthers(x.id, "execution", op->name);
            cur[x.id] = s;
            ++applied;
        }
        // walk all the way back, then forward again
        int steps = 0;
        while (!done.empty())
        {
            doUndo();
            ++steps;
        }
        const bool fullRedo = c.coin(0.6);
        while (fullRedo && !undone.empty() && steps-- > 0)
        {
            doRedo();
        }
        while (!done.empty())
        {
            doUndo();
        }
        if (applied >= 2 && hasUndo)
        {
            c.nontrivial();
        }
        if (hasRedo)
        {
            c.label("has-redo");
        }
        if (nStates > 1)
        {
            c.label("two-states");
        }
    }

    pbt::Register reg("C01",
                      "A case is a history of undoable API calls with generated arguments on one or two states, interleaved with undo and redo, followed by undoing everything, redoing everything and undoing it again; "
                      "the full observable state (nodes, edges, faces, centres, mesh1d, contacts, curvilinear grid, projection) is compared bit for bit. Non-trivial: at least two operations took effect and at least one undo was compared.",
                      150000, 4000000,
                      {{"mesh2d-edits", [](Case& c)
                        { history(c, "mesh2d", 0, c.thorough ? 20 : 10); },
                        4},
                       {"mesh2d-mixed", [](Case& c)
                        { history(c, "mesh2d,mesh2dset,mesh1d,contacts", 0, c.thorough ? 16 : 8); },
                        3},
                       {"mesh2d-spherical", [](Case& c)
                        { history(c, "mesh2d,mesh2dset", c.range(1, 2), c.thorough ? 12 : 6); },
                        1},
                       {"curvilinear", [](Case& c)
                        { history(c, "curvi,curviset", 0, c.thorough ? 16 : 8); },
                        3}});
} // namespace
