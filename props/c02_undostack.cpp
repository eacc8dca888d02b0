// C02: the undo history behaves like a bounded linear history shared by all states (model-based testing).
#include "../harness/ops.hpp"
#include <deque>
using namespace mk;

namespace
{
    struct Entry
    {
        int id;
        std::string op;
        Snapshot before, after;
    };
    struct Model
    {
        std::deque<Entry> done;     ///< oldest first
        std::vector<Entry> undone;  ///< the last one is redone first
        size_t maxSize = 50;
        std::map<int, Snapshot> cur; ///< existing states
        int nextId = 0;
        void add(Entry e)
        {
            if (maxSize == 0)
            {
                return;
            }
            std::erase_if(undone, [&](const Entry& u)
                          { return u.id == e.id; });
            done.push_back(std::move(e));
            trim();
        }
        void trim()
        {
            while (done.size() > maxSize)
            {
                done.pop_front();
            }
        }
    };
    const std::set<std::string> severalActions{"network1d_to_mesh1d", "mesh2d_convert_projection", "curvilinear_line_shift", "curvilinear_orthogonalize"};

    void checkCounts(Case& c, const Model& m, const std::string& after)
    {
        int a = -7, b = -7;
        must(api::mkernel_undo_state_count(a, b), "undo_state_count");
        ++c.evaluations;
        PBT_CHECK(a == static_cast<int>(m.done.size()) && b == static_cast<int>(m.undone.size()), "count:" + after,
                  "after ", after, " the numbers of actions that can be undone and redone are ", a, ",", b, " instead of ", m.done.size(), ",", m.undone.size());
        for (int id = -1; id <= m.nextId; ++id)
        {
            const bool exists = m.cur.count(id) > 0;
            const auto na = exists ? std::count_if(m.done.begin(), m.done.end(), [&](auto& e)
                                                   { return e.id == id; })
                                   : 0,
                       nb = exists ? std::count_if(m.undone.begin(), m.undone.end(), [&](auto& e)
                                                   { return e.id == id; })
                                   : 0;
            must(api::mkernel_undo_state_count_for_id(id, a, b), "undo_state_count_for_id");
            PBT_CHECK(a == na && b == nb, "count-for-id:" + after, "after ", after, " state ", id, " has ", a, ",", b, " actions to undo and redo instead of ", na, ",", nb);
            bool valid = !exists;
            must(api::mkernel_is_valid_state(id, valid), "is_valid_state");
            PBT_CHECK(valid == exists, "is_valid:" + after, "after ", after, " is_valid_state(", id, ") is ", valid);
        }
    }
    void checkStates(Case& c, const Model& m, const std::string& after)
    {
        for (auto& [id, s] : m.cur)
        {
            auto d = diffSnapshot(s, snapshot(id));
            ++c.evaluations;
            PBT_CHECK(d.empty(), "state:" + after, "after ", after, " state ", id, " differs from the model: ", d);
        }
    }

    void run(Case& c)
    {
        reset();
        Model m;
        m.maxSize = static_cast<size_t>(c.coin(0.7) ? c.range(1, 6) : c.range(0, 60));
        must(api::mkernel_set_undo_size(static_cast<int>(m.maxSize)), "set_undo_size");
        PBT_LOG(c, "set_undo_size ", m.maxSize);
        bool sawUndo = false, sawRedo = false, sawLimit = false;
        int applied = 0;
        auto allocate = [&]
        {
            const int proj = c.coin(0.15) ? c.range(1, 2) : 0;
            int id = -1;
            c.op("allocate_state");
            must(api::mkernel_allocate_state(proj, id), "allocate_state");
            PBT_LOG(c, "allocate_state projection=", proj, " -> ", id);
            PBT_CHECK(m.cur.count(id) == 0, "allocate-id", "allocate_state gave the id ", id, " of an existing state");
            auto s = snapshot(id);
            PBT_CHECK(s.valid && s.projection == proj && s.m2.numNodes == 0 && s.m1.nodes.empty() && s.cg.nodes.empty() && s.ct.m1.empty(), "allocate-empty", "a new state is not empty");
            m.cur[id] = s;
            m.nextId = std::max(m.nextId, id + 1);
        };
        allocate();
        if (c.coin(0.7))
        {
            allocate();
        }
        const int nOps = c.range(4, c.thorough ? 40 : 20);
        for (int k = 0; k < nOps; ++k)
        {
            const int what = static_cast<int>(c.weighted({50, 18, 14, 3, 4, 2, 3, 3, 3, 1}));
            std::vector<int> ids;
            for (auto& [id, s] : m.cur)
            {
                ids.push_back(id);
            }
            std::string name;
            if (what == 0 && !ids.empty())
            {
                Ctx x(c);
                x.id = c.pick(ids);
                x.refresh();
                if (x.validNodes.size() > 150 || x.cg.nodes.size() > 300)
                {
                    break;
                }
                const Op* op = nullptr;
                int rc = 0;
                try
                {
                    op = runRandomOp(x, x.validNodes.empty() && x.cg.nodes.empty() ? "mesh2dset,curviset,mesh1d" : "mesh2d,mesh2dset,mesh1d,contacts,curvi,curviset", rc);
                }
                catch (pbt::Discard&)
                {
                    continue;
                }
                if (!op)
                {
                    continue;
                }
                auto s = snapshot(x.id);
                const auto d = diffSnapshot(m.cur[x.id], s);
                if (severalActions.count(op->name))
                {
                    return;
                }
                if (rc != 0)
                {
                    // failing calls are the subject of C03
                    int a, b;
                    must(api::mkernel_undo_state_count(a, b), "undo_state_count");
                    if (!d.empty() || a != static_cast<int>(m.done.size()) || b != static_cast<int>(m.undone.size()) || m.done.size() >= m.maxSize)
                    {
                        return;
                    }
                    continue;
                }
                auto bad = [](const std::vector<P>& v)
                { return std::any_of(v.begin(), v.end(), [](P p)
                                     { return !std::isfinite(p.x) || !std::isfinite(p.y); }); };
                if (bad(s.m2.nodes) || bad(s.cg.nodes) || (op->name == "mesh2d_compute_orthogonalization" && s.m2.numValidNodes != m.cur[x.id].m2.numValidNodes))
                {
                    return;
                }
                if (d.empty())
                {
                    // an operation that changes nothing may or may not be recorded
                    int a, b, a2, b2;
                    must(api::mkernel_undo_state_count(a, b), "undo_state_count");
                    must(api::mkernel_undo_state_count_for_id(x.id, a2, b2), "undo_state_count_for_id");
                    if (a == static_cast<int>(m.done.size()) && (m.done.size() >= m.maxSize))
                    {
                        return; // cannot tell
                    }
                    if (a == static_cast<int>(m.done.size()))
                    {
                        checkCounts(c, m, op->name);
                        continue;
                    }
                }
                sawLimit |= m.done.size() >= m.maxSize;
                m.add({x.id, op->name, m.cur[x.id], s});
                m.cur[x.id] = s;
                name = op->name;
                ++applied;
            }
            else if (what == 1)
            {
                bool ok = true;
                int rid = -7;
                c.op("undo_state");
                must(api::mkernel_undo_state(ok, rid), "undo_state");
                PBT_LOG(c, "undo -> ", ok, " ", rid);
                PBT_CHECK(ok == !m.done.empty(), "undo-result", "undo reported ", ok, " with ", m.done.size(), " actions to undo");
                if (ok)
                {
                    auto e = m.done.back();
                    m.done.pop_back();
                    PBT_CHECK(rid == e.id, "undo-id", "undo of ", e.op, " on state ", e.id, " reported state ", rid);
                    m.cur[e.id] = e.before;
                    m.undone.push_back(e);
                    sawUndo = true;
                }
                else
                {
                    PBT_CHECK(rid < 0, "undo-id", "undo of nothing reported state ", rid);
                }
                name = "undo";
            }
            else if (what == 2)
            {
                bool ok = true;
                int rid = -7;
                c.op("redo_state");
                must(api::mkernel_redo_state(ok, rid), "redo_state");
                PBT_LOG(c, "redo -> ", ok, " ", rid);
                PBT_CHECK(ok == !m.undone.empty(), "redo-result", "redo reported ", ok, " with ", m.undone.size(), " actions to redo");
                if (ok)
                {
                    auto e = m.undone.back();
                    m.undone.pop_back();
                    PBT_CHECK(rid == e.id, "redo-id", "redo of ", e.op, " on state ", e.id, " reported state ", rid);
                    m.cur[e.id] = e.after;
                    m.done.push_back(e);
                    m.trim();
                    sawRedo = true;
                }
                else
                {
                    PBT_CHECK(rid < 0, "redo-id", "redo of nothing reported state ", rid);
                }
                name = "redo";
            }
            else if (what == 3 && ids.size() < 4)
            {
                allocate();
                name = "allocate_state";
            }
            else if (what == 4)
            {
                m.maxSize = static_cast<size_t>(c.range(0, 8));
                PBT_LOG(c, "set_undo_size ", m.maxSize);
                c.op("set_undo_size");
                must(api::mkernel_set_undo_size(static_cast<int>(m.maxSize)), "set_undo_size");
                if (m.maxSize == 0)
                {
                    m.done.clear();
                    m.undone.clear();
                }
                m.trim();
                name = "set_undo_size";
            }
            else if (what == 5)
            {
                PBT_LOG(c, "clear_undo_state");
                must(api::mkernel_clear_undo_state(), "clear_undo_state");
                m.done.clear();
                m.undone.clear();
                name = "clear_undo_state";
            }
            else if (what == 6)
            {
                const int id = c.range(0, m.nextId);
                PBT_LOG(c, "clear_undo_state_for_id ", id);
                must(api::mkernel_clear_undo_state_for_id(id), "clear_undo_state_for_id");
                auto p = [&](const Entry& e)
                { return e.id == id; };
                std::erase_if(m.done, p);
                std::erase_if(m.undone, p);
                name = "clear_undo_state_for_id";
            }
            else if (what == 7 && !ids.empty())
            {
                const int id = c.pick(ids);
                PBT_LOG(c, "deallocate_state ", id);
                c.op("deallocate_state");
                must(api::mkernel_deallocate_state(id), "deallocate_state");
                auto s = snapshot(id);
                PBT_CHECK(s.valid && s.projection == m.cur[id].projection && s.m2.numNodes == 0 && s.m1.nodes.empty() && s.cg.nodes.empty() && s.ct.m1.empty(), "deallocate-empty", "a deallocated state is not empty");
                m.add({id, "deallocate_state", m.cur[id], s});
                m.cur[id] = s;
                name = "deallocate_state";
            }
            else if (what == 8 && ids.size() > 1)
            {
                const int id = c.pick(ids);
                PBT_LOG(c, "expunge_state ", id);
                c.op("expunge_state");
                must(api::mkernel_expunge_state(id), "expunge_state");
                m.cur.erase(id);
                auto p = [&](const Entry& e)
                { return e.id == id; };
                std::erase_if(m.done, p);
                std::erase_if(m.undone, p);
                name = "expunge_state";
            }
            else if (what == 9)
            {
                PBT_LOG(c, "clear_state");
                must(api::mkernel_clear_state(), "clear_state");
                m.cur.clear();
                m.done.clear();
                m.undone.clear();
                m.nextId = 0;
                name = "clear_state";
                allocate();
            }
            else
            {
                continue;
            }
            checkCounts(c, m, name);
            checkStates(c, m, name);
        }
        if (applied >= 2 && sawUndo)
        {
            c.nontrivial();
        }
        if (sawRedo)
        {
            c.label("has-redo");
        }
        if (sawLimit)
        {
            c.label("reached-the-limit");
        }
    }

    pbt::Register reg("C02",
                      "A case is a history of editing calls, undo, redo, allocate, deallocate, expunge, clear, clear-for-id and set_undo_size calls on up to four states, mirrored by a list model of the history; after every call the reported flags and ids, "
                      "the global and per-state counts, the existence of the states and the full contents of every state are compared with the model. Non-trivial: at least two edits took effect and at least one undo succeeded.",
                      150000, 4000000,
                      {{"model", run, 1}});
} // namespace
