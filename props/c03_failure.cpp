// C03: a call that reports an error leaves every state and the undo history as they were.
#include "../harness/ops.hpp"
#include <limits>
#include <set>
using namespace mk;
using pbt::cat;

namespace
{
    /// operations of the library that consist of several API calls, of which the first ones may have succeeded
    const std::set<std::string> composed{"network1d_to_mesh1d", "mesh2d_convert_projection", "curvilinear_line_shift", "curvilinear_orthogonalize"};

    struct Call
    {
        const char* name;
        int (*run)(int, Geo&, Geo&, int*, double*, const std::array<int, 4>&, const std::array<double, 4>&);
    };
    const std::vector<Call> calls{
#include "../harness/allcalls.inc"
    };

    /// every API function that takes the id of a state, called with the id of a state that does not exist
    void unknownId(Case& c)
    {
        reset();
        const int projection = c.range(0, 2);
        std::vector<int> ids;
        const int n = c.range(0, 3);
        for (int i = 0; i < n; ++i)
        {
            ids.push_back(newState(projection));
            MeshOpts o;
            o.maxN = 3;
            o.projection = projection;
            auto g = genMesh(c, o);
            must(setMesh2(ids.back(), g.nodes, g.edges), "mesh2d_set");
        }
        std::vector<int> bad{-1, n == 0 ? 5 : ids.back() + 1, n == 0 ? 6 : ids.back() + 17, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), -2};
        if (n > 1 && c.coin())
        {
            must(api::mkernel_deallocate_state(ids[0]), "deallocate_state");
            must(api::mkernel_expunge_state(ids[0]), "expunge_state");
            bad.push_back(ids[0]);
            bad.push_back(ids[0]);
            ids.erase(ids.begin());
        }
        std::vector<Snapshot> before;
        for (int id : ids)
        {
            before.push_back(snapshot(id));
        }
        int c0, r0, c1, r1;
        must(api::mkernel_undo_state_count(c0, r0), "undo_state_count");
        const int k = c.range(1, 12);
        for (int i = 0; i < k; ++i)
        {
            const auto& call = calls[c.draw(calls.size())];
            if (std::string(call.name).find("undo_state") != std::string::npos)
            {
                continue; // questions about the undo history are answered for any id: a state without history has none
            }
            const int id = c.pick(bad);
            Geo g, out(64);
            for (int j = c.range(0, 5); j > 0; --j)
            {
                g.add({c.real(0, 30), c.real(0, 30)}, 1.0);
            }
            if (g.size() > 0 && c.coin())
            {
                g.add(g.at(0), 1.0);
            }
            std::vector<int> ints(4096, 0);
            std::vector<double> dbls(4096, 0.0);
            std::array<int, 4> ii{c.range(-1, 3), c.range(-1, 3), c.range(-1, 3), c.range(-1, 3)};
            std::array<double, 4> dd{c.sym(20), c.sym(20), c.sym(20), c.sym(20)};
            PBT_LOG(c, call.name, " with id ", id, " ints ", ii[0], " ", ii[1], " ", ii[2], " ", ii[3], " reals ", dd[0], " ", dd[1], " ", dd[2], " ", dd[3]);
            c.op(call.name);
            const int rc = call.run(id, g, out, ints.data(), dbls.data(), ii, dd);
            ++c.evaluations;
            PBT_CHECK(rc != 0, cat("accepted:", call.name), call.name, " succeeded for state ", id, " that does not exist");
            PBT_CHECK(!lastError().empty(), cat("no-message:", call.name), call.name, " failed without an error message");
            bool valid = true;
            int rv = api::mkernel_is_valid_state(id, valid);
            PBT_CHECK(rv != 0 || !valid, cat("created:", call.name), call.name, " made state ", id, " exist");
            must(api::mkernel_undo_state_count(c1, r1), "undo_state_count");
            PBT_CHECK(c0 == c1 && r0 == r1, cat("recorded:", call.name), call.name, " failed but changed the undo history");
        }
        for (size_t i = 0; i < ids.size(); ++i)
        {
            auto d = diffSnapshot(before[i], snapshot(ids[i]));
            PBT_CHECK(d.empty(), "changed:unknown-id", "calls with the id of another state changed state ", ids[i], ": ", d);
        }
        int id2 = newState(projection);
        for (int b : ids)
        {
            PBT_CHECK(b != id2, "reused-id", "a new state got the id ", id2, " of an existing state");
        }
        c.nontrivial();
    }

    /// indices outside the mesh have to be refused
    void badIndex(Case& c)
    {
        reset();
        const int projection = c.range(0, 2);
        const int id = newState(projection);
        MeshOpts o;
        o.maxN = 4;
        o.projection = projection;
        auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        for (int k = c.range(0, 2); k > 0; --k)
        {
            Ctx x(c);
            x.id = id;
            x.refresh();
            int rc = 0;
            try
            {
                runRandomOp(x, "mesh2d", rc);
            }
            catch (pbt::Discard&)
            {
            }
        }
        auto before = snapshot(id);
        const int nn = static_cast<int>(before.m2.nodes.size()), ne = static_cast<int>(before.m2.edges.size());
        if (nn == 0 || ne == 0)
        {
            return;
        }
        int c0, r0, c1, r1;
        must(api::mkernel_undo_state_count(c0, r0), "undo_state_count");
        for (int k = c.range(1, 8); k > 0; --k)
        {
            auto bad = [&](int n)
            {
                switch (c.range(0, 4))
                {
                case 0:
                    return n;
                case 1:
                    return -1;
                case 2:
                    return n + c.range(1, 3);
                case 3:
                    return std::numeric_limits<int>::max();
                default:
                    return -c.range(2, 1000);
                }
            };
            const int what = c.range(0, 8);
            const int good = c.range(0, nn - 1);
            const int b = bad(what == 3 ? ne : nn);
            int i1 = good, i2 = b, out = 0, rc = 0;
            if (c.coin())
            {
                std::swap(i1, i2);
            }
            const char* name = "";
            Geo none;
            switch (what)
            {
            case 0:
                name = "mesh2d_delete_node";
                rc = api::mkernel_mesh2d_delete_node(id, b);
                break;
            case 1:
                name = "mesh2d_move_node";
                rc = api::mkernel_mesh2d_move_node(id, g.lo.x, g.lo.y, b);
                break;
            case 2:
                name = "mesh2d_insert_edge";
                rc = api::mkernel_mesh2d_insert_edge(id, i1, i2, out);
                break;
            case 3:
                name = "mesh2d_delete_edge_by_index";
                rc = api::mkernel_mesh2d_delete_edge_by_index(id, b);
                break;
            case 4:
                name = "mesh2d_merge_two_nodes";
                rc = api::mkernel_mesh2d_merge_two_nodes(id, i1, i2);
                break;
            case 5:
                name = "mesh2d_split_row";
                rc = api::mkernel_mesh2d_split_row(id, i1, i2);
                break;
            case 6:
                name = "mesh2d_delete";
                rc = api::mkernel_mesh2d_delete(id, none.list(), c.coin() ? c.range(3, 50) : -c.range(1, 50), c.range(0, 1));
                break;
            case 7:
                name = "mesh2d_get_property_dimension";
                rc = api::mkernel_mesh2d_get_property_dimension(id, c.coin() ? c.range(20, 50) : -c.range(1, 50), out);
                break;
            default:
            {
                name = "allocate_state";
                int nid = -1;
                rc = api::mkernel_allocate_state(c.coin() ? c.range(3, 50) : -c.range(1, 50), nid);
                break;
            }
            }
            PBT_LOG(c, name, " with index ", b, " (other ", good, ") of ", what == 3 ? ne : nn, " -> ", rc);
            ++c.evaluations;
            PBT_CHECK(rc != 0, cat("accepted-index:", name), name, " accepted index ", b, " outside [0, ", what == 3 ? ne : nn, ") (other node ", good, ") or an unknown option");
            PBT_CHECK(!lastError().empty(), cat("no-message:", name), name, " failed without an error message");
            auto s = snapshot(id);
            auto d = diffSnapshot(before, s);
            PBT_CHECK(d.empty(), cat("changed:", name), name, " failed but changed the state: ", d);
            must(api::mkernel_undo_state_count(c1, r1), "undo_state_count");
            PBT_CHECK(c0 == c1 && r0 == r1, cat("recorded:", name), name, " failed but changed the undo history");
        }
        c.nontrivial();
    }

    void run(Case& c, const std::string& groups, int projection, int maxOps)
    {
        reset();
        const int id = newState(projection);
        if (!c.coin(0.1))
        {
            MeshOpts o;
            o.maxN = 4;
            o.projection = projection;
            auto g = genMesh(c, o);
            logMesh(c, g, "initial mesh2d");
            must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        }
        if (groups.find("curvi") != std::string::npos)
        {
            auto g = genCurvi(c, 6, 2, true);
            PBT_LOG(c, "initial ", str(g));
            must(setCurvi(id, g), "curvilinear_set");
        }
        if (groups.find("contacts") != std::string::npos)
        {
            Ctx x(c);
            x.id = id;
            x.refresh();
            for (auto& o : allOps())
            {
                if (o.name == "mesh1d_set" || (o.name == "contacts_compute_single" && c.coin()))
                {
                    x.refresh();
                    o.run(x);
                }
            }
        }
        auto cur = snapshot(id);
        const int nOps = c.range(1, maxOps);
        int failed = 0;
        for (int k = 0; k < nOps; ++k)
        {
            Ctx x(c);
            x.id = id;
            x.wild = true;
            x.refresh();
            if (x.validNodes.size() > 600 || x.cg.nodes.size() > 900)
            {
                break;
            }
            int c0, r0, c1, r1, rc = 0;
            must(api::mkernel_undo_state_count(c0, r0), "undo_state_count");
            const Op* op = nullptr;
            try
            {
                op = runRandomOp(x, groups, rc);
            }
            catch (pbt::Discard&)
            {
                continue;
            }
            if (!op)
            {
                continue;
            }
            std::string err = lastError();
            auto s = snapshot(id);
            if (rc != 0 && composed.count(op->name))
            {
                cur = s;
                continue;
            }
            if (rc == 0)
            {
                cur = s;
                continue;
            }
            PBT_LOG(c, "   -> error ", rc, " ", err);
            ++failed;
            must(api::mkernel_undo_state_count(c1, r1), "undo_state_count");
            ++c.evaluations;
            auto d = diffSnapshot(cur, s);
            PBT_CHECK(d.empty(), "changed:" + op->name, op->name, " failed (", err, ") but changed the state (before vs after): ", d);
            PBT_CHECK(c0 == c1 && r0 == r1, "recorded:" + op->name, op->name, " failed (", err, ") but changed the numbers of undo and redo actions from ", c0, ",", r0, " to ", c1, ",", r1);
            PBT_CHECK(!err.empty(), "no-message:" + op->name, op->name, " failed without an error message");
        }
        if (failed > 0)
        {
            c.nontrivial();
        }
    }
    pbt::Register reg("C03",
                      "a case is non-trivial if at least one generated call was refused (all cases of the unknown-id and bad-index facets)",
                      150000, 4000000,
                      {{"mesh2d", [](Case& c)
                        { run(c, "mesh2d,mesh2dset,mesh1d,contacts", 0, c.thorough ? 16 : 8); },
                        4},
                       {"spherical", [](Case& c)
                        { run(c, "mesh2d,mesh2dset", c.range(1, 2), c.thorough ? 12 : 6); },
                        1},
                       {"curvilinear", [](Case& c)
                        { run(c, "curvi,curviset", 0, c.thorough ? 16 : 8); },
                        3},
                       {"unknown-id", unknownId, 1},
                       {"bad-index", badIndex, 1}});
} // namespace
