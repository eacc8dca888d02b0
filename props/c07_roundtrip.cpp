// C07: what is set is what is got.
#include "../harness/history.hpp"
#include "../harness/topo.hpp"
using namespace mk;

namespace
{
    bool same(const Mesh2& a, const Mesh2& b)
    {
        if (a.nodes.size() != b.nodes.size() || a.edges != b.edges || a.edgeFaces != b.edgeFaces || a.faceNodes != b.faceNodes || a.faceEdges != b.faceEdges || a.numValidNodes != b.numValidNodes || a.numValidEdges != b.numValidEdges)
        {
            return false;
        }
        for (size_t i = 0; i < a.nodes.size(); ++i)
        {
            if (!sameP(a.nodes[i], b.nodes[i]))
            {
                return false;
            }
        }
        for (size_t i = 0; i < a.edgeCentres.size(); ++i)
        {
            if (!sameP(a.edgeCentres[i], b.edgeCentres[i]))
            {
                return false;
            }
        }
        for (size_t i = 0; i < a.faceCentres.size(); ++i)
        {
            if (!sameP(a.faceCentres[i], b.faceCentres[i]))
            {
                return false;
            }
        }
        return true;
    }
    /// without deleted nodes and edges, as mesh2d_set removes them
    Mesh2 compact(const Mesh2& m)
    {
        Mesh2 r;
        std::vector<bool> used(m.nodes.size(), false);
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                used[static_cast<size_t>(m.edges[e][0])] = used[static_cast<size_t>(m.edges[e][1])] = true;
            }
        }
        std::vector<int> number(m.nodes.size(), -1);
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            if (used[i] && m.nodes[i].valid())
            {
                number[i] = static_cast<int>(r.nodes.size());
                r.nodes.push_back(m.nodes[i]);
            }
        }
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (m.edgeValid(e))
            {
                r.edges.push_back({number[static_cast<size_t>(m.edges[e][0])], number[static_cast<size_t>(m.edges[e][1])]});
            }
        }
        for (auto f : m.faceNodes)
        {
            for (auto& n : f)
            {
                n = number[static_cast<size_t>(n)];
            }
            r.faceNodes.push_back(f);
        }
        return r;
    }
    void checkNodeEdge(int id, const Mesh2& m)
    {
        std::vector<double> x(m.nodes.size() + 1, -12345.0), y(x);
        std::vector<int> e(2 * m.edges.size() + 1, -777);
        api::Mesh2D d{};
        d.num_nodes = m.numNodes;
        d.num_edges = m.numEdges;
        d.node_x = x.data();
        d.node_y = y.data();
        d.edge_nodes = e.data();
        must(api::mkernel_mesh2d_get_node_edge_data(id, d), "mesh2d_get_node_edge_data");
        PBT_CHECK(x.back() == -12345.0 && y.back() == -12345.0 && e.back() == -777, "node-edge:overrun", "mesh2d_get_node_edge_data writes beyond the dimensions");
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            PBT_CHECK(sameP({x[i], y[i]}, m.nodes[i]), "node-edge:node", "node ", i, " of get_node_edge_data is ", str(P{x[i], y[i]}), ", of get_data ", str(m.nodes[i]));
        }
        for (size_t i = 0; i < m.edges.size(); ++i)
        {
            PBT_CHECK(e[2 * i] == m.edges[i][0] && e[2 * i + 1] == m.edges[i][1], "node-edge:edge", "edge ", i, " of get_node_edge_data differs from that of get_data");
        }
    }
    int otherState(Case& c, Mesh2& before)
    {
        const int id = newState(0);
        MeshOpts o;
        o.maxN = 3;
        const auto g = genMesh(c, o);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        before = getMesh2(id);
        return id;
    }

    void mesh2d(Case& c)
    {
        reset();
        Mesh2 otherBefore;
        const int other = otherState(c, otherBefore);
        const int projection = static_cast<int>(c.weighted({6, 2, 1}));
        const int id = newState(projection);
        int got = -1;
        must(api::mkernel_get_projection(id, got), "get_projection");
        PBT_CHECK(got == projection, "projection", "the state was allocated with projection ", projection, " but has ", got);
        MeshOpts o;
        o.maxN = 6;
        o.projection = projection;
        const auto g = genMesh(c, o);
        logMesh(c, g, "mesh2d");
        c.op("mesh2d_set");
        if (c.coin(0.3))
        {
            // replaces another mesh
            const auto h = genMesh(c, o);
            must(setMesh2(id, h.nodes, h.edges), "mesh2d_set");
            runHistory(c, id, projection, {1, 1}, 100);
        }
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        PBT_CHECK(m.nodes.size() == g.nodes.size() && m.edges == g.edges, "mesh2d:edges", "the edges read are not the edges set");
        std::vector<bool> used(g.nodes.size(), false);
        for (auto& e : g.edges)
        {
            used[static_cast<size_t>(e[0])] = used[static_cast<size_t>(e[1])] = true;
        }
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            PBT_CHECK(!used[i] || sameP(m.nodes[i], g.nodes[i]), "mesh2d:nodes", "node ", i, " is ", str(m.nodes[i]), " instead of ", str(g.nodes[i]));
        }
        PBT_CHECK(same(m, getMesh2(id)), "mesh2d:again", "reading the mesh again gives other data");
        checkNodeEdge(id, m);
        // also after edits: what is read can be set in another state and gives the same mesh
        const int done = runHistory(c, id, projection, {3, 3, 1}, 120);
        const auto a = getMesh2(id);
        checkNodeEdge(id, a);
        PBT_CHECK(same(a, getMesh2(id)), "mesh2d:again", "reading the mesh again gives other data");
        bool anyEdge = false, allFinite = true;
        for (size_t e = 0; e < a.edges.size(); ++e)
        {
            anyEdge |= a.edgeValid(e);
        }
        for (auto& p : a.nodes)
        {
            allFinite &= std::isfinite(p.x) && std::isfinite(p.y);
        }
        int after = -1;
        must(api::mkernel_get_projection(id, after), "get_projection");
        if (anyEdge && allFinite && after == projection)
        {
            const int copy = newState(projection);
            must(setMesh2(copy, a.nodes, a.edges), "mesh2d_set");
            const auto b = getMesh2(copy);
            const auto want = compact(a);
            PBT_CHECK(want.edges == b.edges && want.nodes.size() == b.nodes.size(), "mesh2d:copy", "setting the data read gives other edges");
            for (size_t i = 0; i < b.nodes.size(); ++i)
            {
                PBT_CHECK(sameP(want.nodes[i], b.nodes[i]), "mesh2d:copy-node", "node ", i, " of the copy is ", str(b.nodes[i]), " instead of ", str(want.nodes[i]));
            }
            if (simpleEdges(a))
            {
                PBT_CHECK(want.faceNodes == b.faceNodes, "mesh2d:copy-faces", "setting the data read gives other faces: ", a.numFaces, " before, ", b.numFaces, " after");
            }
            c.label(done ? "copied after operations" : "copied");
        }
        PBT_CHECK(same(otherBefore, getMesh2(other)), "isolation", "the mesh of another state has changed");
        if (done || m.numFaces > 2)
        {
            c.nontrivial();
        }
    }

    /// faces given with the mesh are taken over as they are
    void faces(Case& c)
    {
        reset();
        const int projection = c.coin(0.2) ? 1 : 0;
        const int id = newState(projection);
        MeshOpts o;
        o.maxN = 6;
        o.projection = projection;
        const auto g = genMesh(c, o);
        logMesh(c, g, "mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const auto m = getMesh2(id);
        if (m.faceNodes.empty() || !simpleEdges(m))
        {
            return;
        }
        std::vector<std::vector<int>> want;
        for (auto f : m.faceNodes)
        {
            if (c.coin(0.9))
            {
                std::rotate(f.begin(), f.begin() + static_cast<std::ptrdiff_t>(c.draw(f.size())), f.end());
                want.push_back(f);
            }
        }
        if (want.empty())
        {
            return;
        }
        if (c.coin(0.5))
        {
            c.shuffle(want);
        }
        std::vector<double> x, y;
        std::vector<int> en, fn, npf;
        for (auto& p : g.nodes)
        {
            x.push_back(p.x);
            y.push_back(p.y);
        }
        for (auto& e : g.edges)
        {
            en.push_back(e[0]);
            en.push_back(e[1]);
        }
        for (auto& f : want)
        {
            npf.push_back(static_cast<int>(f.size()));
            fn.insert(fn.end(), f.begin(), f.end());
            PBT_LOG(c, "face ", str(f));
        }
        api::Mesh2D d{};
        d.num_nodes = static_cast<int>(x.size());
        d.num_edges = static_cast<int>(g.edges.size());
        d.num_faces = static_cast<int>(want.size());
        d.num_face_nodes = static_cast<int>(fn.size());
        d.node_x = x.data();
        d.node_y = y.data();
        d.edge_nodes = en.data();
        d.face_nodes = fn.data();
        d.nodes_per_face = npf.data();
        c.op("mesh2d_set");
        must(api::mkernel_mesh2d_set(id, d), "mesh2d_set with faces");
        // read without get_dimensions, which finds the faces anew
        const size_t nn = x.size(), ne = g.edges.size(), nf = want.size(), nfn = fn.size();
        std::vector<double> nx(nn), ny(nn), ex(ne), ey(ne), fx(nf), fy(nf);
        std::vector<int> en2(2 * ne), ef(2 * ne), fe(nfn + 1, -777), fn2(nfn + 1, -777), npf2(nf + 1, -777);
        api::Mesh2D r{};
        r.node_x = nx.data();
        r.node_y = ny.data();
        r.edge_x = ex.data();
        r.edge_y = ey.data();
        r.face_x = fx.data();
        r.face_y = fy.data();
        r.edge_nodes = en2.data();
        r.edge_faces = ef.data();
        r.face_edges = fe.data();
        r.face_nodes = fn2.data();
        r.nodes_per_face = npf2.data();
        c.op("mesh2d_get_data");
        must(api::mkernel_mesh2d_get_data(id, r), "mesh2d_get_data");
        PBT_CHECK(r.num_faces == static_cast<int>(nf) && npf2.back() == -777, "faces:count", "the mesh has ", r.num_faces, " faces instead of the ", nf, " given");
        PBT_CHECK(en2 == en, "faces:edges", "the edges read are not the edges set");
        size_t k = 0;
        std::vector<std::vector<int>> of(ne);
        for (size_t f = 0; f < nf; ++f)
        {
            PBT_CHECK(npf2[f] == npf[f], "faces:size", "face ", f, " has ", npf2[f], " nodes instead of ", npf[f]);
            std::vector<P> pts;
            for (int i = 0; i < npf[f]; ++i, ++k)
            {
                PBT_CHECK(fn2[k] == fn[k], "faces:nodes", "node ", i, " of face ", f, " is ", fn2[k], " instead of ", fn[k]);
                const int a = want[f][static_cast<size_t>(i)], b = want[f][static_cast<size_t>((i + 1) % npf[f])];
                PBT_CHECK(fe[k] >= 0 && fe[k] < static_cast<int>(ne), "faces:edge-range", "edge ", i, " of face ", f, " is ", fe[k]);
                const auto& e = g.edges[static_cast<size_t>(fe[k])];
                PBT_CHECK(edgeKey(e[0], e[1]) == edgeKey(a, b), "faces:edge", "edge ", i, " of face ", f, " connects ", e[0], "-", e[1], " instead of the nodes ", a, "-", b);
                of[static_cast<size_t>(fe[k])].push_back(static_cast<int>(f));
                pts.push_back(g.nodes[static_cast<size_t>(a)]);
            }
            if (projection == 0)
            {
                const P mc = centroid(pts);
                PBT_CHECK(dist(mc, {fx[f], fy[f]}) < 1e-6 * (1 + len(mc)), "faces:centre", "the centre of face ", f, " is ", str(P{fx[f], fy[f]}), " instead of ", str(mc));
            }
        }
        for (size_t e = 0; e < ne; ++e)
        {
            std::vector<int> got;
            for (int i = 0; i < 2; ++i)
            {
                if (ef[2 * e + static_cast<size_t>(i)] >= 0)
                {
                    got.push_back(ef[2 * e + static_cast<size_t>(i)]);
                }
            }
            std::sort(got.begin(), got.end());
            std::sort(of[e].begin(), of[e].end());
            PBT_CHECK(got == of[e], "faces:edge-faces", "edge ", e, " lies between the faces ", str(got), " instead of ", str(of[e]));
        }
        if (want.size() > 2)
        {
            c.nontrivial();
        }
    }

    void mesh2dAdd(Case& c)
    {
        reset();
        const int id = newState(0);
        MeshOpts o;
        o.maxN = 4;
        const auto g = genMesh(c, o);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        logMesh(c, g, "mesh2d");
        runHistory(c, id, 0, {4, 2, 1}, 80);
        const auto a = getMesh2(id);
        const auto h = genMesh(c, o);
        logMesh(c, h, "added");
        std::vector<double> x, y;
        std::vector<int> en;
        for (auto& p : h.nodes)
        {
            x.push_back(p.x);
            y.push_back(p.y);
        }
        for (auto& e : h.edges)
        {
            en.push_back(e[0]);
            en.push_back(e[1]);
        }
        api::Mesh2D d{};
        d.num_nodes = static_cast<int>(x.size());
        d.num_edges = static_cast<int>(h.edges.size());
        d.node_x = x.data();
        d.node_y = y.data();
        d.edge_nodes = en.data();
        c.op("mesh2d_add");
        must(api::mkernel_mesh2d_add(id, d), "mesh2d_add");
        const auto m = getMesh2(id);
        PBT_CHECK(m.nodes.size() == a.nodes.size() + h.nodes.size() && m.edges.size() == a.edges.size() + h.edges.size(), "add:size", "the joined mesh has ", m.nodes.size(), " nodes and ", m.edges.size(), " edges instead of ", a.nodes.size() + h.nodes.size(), " and ", a.edges.size() + h.edges.size());
        std::vector<bool> used(h.nodes.size(), false);
        for (auto& e : h.edges)
        {
            used[static_cast<size_t>(e[0])] = used[static_cast<size_t>(e[1])] = true;
        }
        for (size_t i = 0; i < m.nodes.size(); ++i)
        {
            if (i >= a.nodes.size() && !used[i - a.nodes.size()])
            {
                continue;
            }
            const P want = i < a.nodes.size() ? a.nodes[i] : h.nodes[i - a.nodes.size()];
            PBT_CHECK(sameP(m.nodes[i], want), "add:node", "node ", i, " of the joined mesh is ", str(m.nodes[i]), " instead of ", str(want));
        }
        const int shift = static_cast<int>(a.nodes.size());
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (e < a.edges.size())
            {
                PBT_CHECK(m.edges[e] == a.edges[e], "add:edge", "edge ", e, " of the existing mesh has changed");
            }
            else
            {
                const auto& w = h.edges[e - a.edges.size()];
                PBT_CHECK(m.edges[e][0] == w[0] + shift && m.edges[e][1] == w[1] + shift, "add:edge", "edge ", e, " of the added mesh is ", m.edges[e][0], "-", m.edges[e][1], " instead of ", w[0] + shift, "-", w[1] + shift);
            }
        }
        c.nontrivial();
    }

    void rest(Case& c)
    {
        reset();
        const int id = newState(0);
        // curvilinear grid
        const auto g = genCurvi(c, 7, 2, true);
        PBT_LOG(c, "curvilinear grid ", str(g));
        bool usable = true;
        {
            Curvi n = g;
            usable = normaliseCurvi(n) && n.n == g.n && n.m == g.m;
            for (size_t i = 0; usable && i < g.nodes.size(); ++i)
            {
                usable = sameP(n.nodes[i], g.nodes[i]);
            }
        }
        if (usable)
        {
            c.op("curvilinear_set");
            must(setCurvi(id, g), "curvilinear_set");
            for (int k = 0; k < 2; ++k)
            {
                const auto r = getCurvi(id);
                PBT_CHECK(r.n == g.n && r.m == g.m, "curvilinear:size", "the grid has ", r.n, " by ", r.m, " nodes instead of ", g.n, " by ", g.m);
                for (size_t i = 0; i < g.nodes.size(); ++i)
                {
                    PBT_CHECK(sameP(r.nodes[i], g.nodes[i]), "curvilinear:node", "node ", i, " is ", str(r.nodes[i]), " instead of ", str(g.nodes[i]));
                }
            }
        }
        // 1d mesh
        std::vector<P> n1;
        std::vector<std::array<int, 2>> e1;
        const int k1 = c.range(2, 8);
        for (int i = 0; i < k1; ++i)
        {
            n1.push_back(notMissing(P{c.sym(100, 1000), c.sym(100, 1000)}));
            if (i)
            {
                const int to = static_cast<int>(c.draw(static_cast<uint64_t>(i)));
                e1.push_back(c.coin(0.3) ? std::array<int, 2>{i, to} : std::array<int, 2>{to, i});
            }
        }
        c.shuffle(e1);
        c.op("mesh1d_set");
        must(setMesh1(id, n1, e1), "mesh1d_set");
        const auto m1 = getMesh1(id);
        PBT_CHECK(m1.edges == e1 && m1.nodes.size() == n1.size() && m1.numValidNodes == k1 && m1.numValidEdges == k1 - 1, "mesh1d:edges", "the 1d edges read are not those set");
        for (size_t i = 0; i < n1.size(); ++i)
        {
            PBT_CHECK(sameP(n1[i], m1.nodes[i]), "mesh1d:nodes", "1d node ", i, " is ", str(m1.nodes[i]), " instead of ", str(n1[i]));
        }
        // contacts
        Conts k;
        const int nk = c.range(1, 6);
        for (int i = 0; i < nk; ++i)
        {
            k.m1.push_back(c.range(0, 1000));
            k.m2.push_back(c.range(0, 1000));
        }
        api::Contacts d{};
        d.num_contacts = nk;
        d.mesh1d_indices = k.m1.data();
        d.mesh2d_indices = k.m2.data();
        c.op("contacts_set");
        must(api::mkernel_contacts_set(id, d), "contacts_set");
        PBT_CHECK(getContacts(id) == k, "contacts", "the contacts read are not those set");
        // nothing of this touches the other parts
        const auto again = getMesh1(id);
        PBT_CHECK(again.edges == e1, "mesh1d:kept", "the 1d mesh changes with the contacts");
        PBT_CHECK(getMesh2(id).nodes.empty(), "mesh2d:kept", "a mesh2d appears");
        c.nontrivial();
    }

    pbt::Register reg("C07",
                      "a case is non-trivial if the mesh has more than two faces or was edited before it was read, or two parts were joined",
                      300000, 6000000,
                      {{"mesh2d", mesh2d, 3},
                       {"faces", faces, 2},
                       {"mesh2d-add", mesh2dAdd, 2},
                       {"others", rest, 1}});
} // namespace
