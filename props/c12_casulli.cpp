// C12: Casulli refinement.
#include "../harness/gen.hpp"
#include "../harness/circum.hpp"
#include "../harness/geo.hpp"

using namespace mk;

namespace
{
    using Key = std::array<int, 3>; // {0, node, 0}: an old node; {1, face, node}; {2, edge, node}

    struct Expected
    {
        std::map<Key, P> nodes;
        std::map<std::vector<Key>, const char*> faces;
    };

    void refine(Case& c)
    {
        reset();
        MeshOpts o;
        o.maxN = 5;
        o.maxJitter = 0.15;
        o.allowHanging = false;
        GenMesh g = genMesh(c, o);
        if (c.coin(0.3))
        {
            // acute triangles: a sheared lattice
            o.allowHoles = false;
            const int nx = c.range(1, 5), ny = c.range(1, 4);
            const double jit = c.coin(0.5) ? 0.08 : 0.0;
            g = GenMesh{};
            auto id = [&](int i, int j)
            { return j * (nx + 1) + i; };
            for (int j = 0; j <= ny; ++j)
            {
                for (int i = 0; i <= nx; ++i)
                {
                    g.nodes.push_back(P{10.0 * (i + 0.5 * j) + c.sym(10.0 * jit, 64), 8.7 * j + c.sym(10.0 * jit, 64)});
                }
            }
            // some triangles left out: boundaries that touch themselves in a node
            std::set<std::array<int, 2>> kept;
            const bool some = c.coin(0.4);
            if (some)
            {
                auto tri = [&](int p, int q, int r)
                {
                    if (c.coin(0.6))
                    {
                        for (auto [u, v] : {std::pair{p, q}, {q, r}, {r, p}})
                        {
                            kept.insert({std::min(u, v), std::max(u, v)});
                        }
                    }
                };
                for (int j = 0; j < ny; ++j)
                {
                    for (int i = 0; i < nx; ++i)
                    {
                        tri(id(i, j), id(i + 1, j), id(i, j + 1));
                        tri(id(i + 1, j), id(i + 1, j + 1), id(i, j + 1));
                    }
                }
            }
            for (int j = 0; j <= ny; ++j)
            {
                for (int i = 0; i <= nx; ++i)
                {
                    if (i < nx)
                    {
                        g.edges.push_back({id(i, j), id(i + 1, j)});
                    }
                    if (j < ny)
                    {
                        g.edges.push_back({id(i, j), id(i, j + 1)});
                    }
                    if (i > 0 && j < ny)
                    {
                        g.edges.push_back({id(i, j), id(i - 1, j + 1)});
                    }
                }
            }
            if (some)
            {
                std::erase_if(g.edges, [&](const auto& e)
                              { return !kept.contains({std::min(e[0], e[1]), std::max(e[0], e[1])}); });
                if (g.edges.empty())
                {
                    throw pbt::Discard{"no triangle"};
                }
                c.label("triangles left out");
            }
            g.lo = {-10, -10};
            g.hi = {10.0 * (nx + 0.5 * ny) + 10, 8.7 * ny + 10};
            c.label("triangles");
        }
        const int id = newState(0);
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        const int deletions = c.coin(0.2) ? c.range(1, 3) : 0;
        for (int i = 0; i < deletions; ++i)
        {
            const int n = static_cast<int>(c.draw(g.nodes.size()));
            if (const Mesh2 now = getMesh2(id); n < static_cast<int>(now.nodes.size()) && now.nodeValid(static_cast<size_t>(n)))
            {
                must(api::mkernel_mesh2d_delete_node(id, n), "mesh2d_delete_node");
            }
        }
        const Mesh2 m = getMesh2(id);
        logMesh(c, g);
        std::vector<P> poly;
        if (c.coin(0.6))
        {
            poly = genPolygon(c, g);
        }
        PBT_LOG(c, "deletions=", deletions, " polygon=", str(poly));
        const double scale = meshScale(m), tol = 1e-6 * (scale + std::max({std::abs(g.lo.x), std::abs(g.lo.y), std::abs(g.hi.x), std::abs(g.hi.y)}));
        // selection
        const size_t nn = m.nodes.size();
        std::vector<char> selected(nn, 0);
        size_t numSelected = 0, numValid = 0;
        for (size_t i = 0; i < nn; ++i)
        {
            if (!m.nodeValid(i))
            {
                continue;
            }
            ++numValid;
            if (!poly.empty() && boundaryDist(m.nodes[i], poly) < 1e-6 * scale)
            {
                throw pbt::Discard{"node on the polygon"};
            }
            selected[i] = poly.empty() || inside(m.nodes[i], poly);
            numSelected += static_cast<size_t>(selected[i]);
        }
        // neighbourhood
        std::vector<std::vector<int>> facesOf(nn), boundaryEdgesOf(nn), interiorEdgesOf(nn);
        std::vector<int> numEdgesOf(nn, 0);
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (!m.edgeValid(e))
            {
                continue;
            }
            const int k = (m.edgeFaces[e][0] >= 0 ? 1 : 0) + (m.edgeFaces[e][1] >= 0 ? 1 : 0);
            if (k == 0)
            {
                throw pbt::Discard{"edge without face"};
            }
            for (int n : m.edges[e])
            {
                numEdgesOf[static_cast<size_t>(n)]++;
                (k == 1 ? boundaryEdgesOf : interiorEdgesOf)[static_cast<size_t>(n)].push_back(static_cast<int>(e));
            }
        }
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            for (int n : m.faceNodes[f])
            {
                facesOf[static_cast<size_t>(n)].push_back(static_cast<int>(f));
            }
        }
        auto otherBoundary = [&](int face, int edge, int node)
        {
            for (int e : m.faceEdges[static_cast<size_t>(face)])
            {
                if (e != edge && (m.edges[static_cast<size_t>(e)][0] == node || m.edges[static_cast<size_t>(e)][1] == node))
                {
                    return (m.edgeFaces[static_cast<size_t>(e)][0] >= 0) != (m.edgeFaces[static_cast<size_t>(e)][1] >= 0);
                }
            }
            return false;
        };
        auto faceOf = [&](int e)
        { return std::max(m.edgeFaces[static_cast<size_t>(e)][0], m.edgeFaces[static_cast<size_t>(e)][1]); };
        std::vector<char> corner(nn, 0);
        for (size_t n = 0; n < nn; ++n)
        {
            const size_t b = boundaryEdgesOf[n].size();
            corner[n] = b > 2 || (b > 0 && numEdgesOf[n] == 2);
            for (int e : boundaryEdgesOf[n])
            {
                corner[n] |= otherBoundary(faceOf(e), e, static_cast<int>(n));
            }
            if (b > 2)
            {
                c.label("node in more than one boundary");
            }
        }
        if (!circumcentresDefined(m))
        {
            throw pbt::Discard{"circumcentres not defined"};
        }
        const std::vector<P> centre = refCircumcentres(m);
        // the expected mesh
        Expected x;
        auto old = [&](int n)
        {
            const Key k{0, n, 0};
            x.nodes[k] = m.nodes[static_cast<size_t>(n)];
            return k;
        };
        auto F = [&](int f, int n)
        {
            if (!selected[static_cast<size_t>(n)])
            {
                return old(n);
            }
            const Key k{1, f, n};
            x.nodes[k] = (centre[static_cast<size_t>(f)] + m.nodes[static_cast<size_t>(n)]) * 0.5;
            return k;
        };
        auto E = [&](int e, int n)
        {
            if (!selected[static_cast<size_t>(n)])
            {
                return old(n);
            }
            const Key k{2, e, n};
            const auto& ed = m.edges[static_cast<size_t>(e)];
            x.nodes[k] = ((m.nodes[static_cast<size_t>(ed[0])] + m.nodes[static_cast<size_t>(ed[1])]) * 0.5 + m.nodes[static_cast<size_t>(n)]) * 0.5;
            return k;
        };
        auto face = [&](const char* what, std::vector<Key> k)
        {
            std::sort(k.begin(), k.end());
            k.erase(std::unique(k.begin(), k.end()), k.end());
            if (k.size() >= 3)
            {
                x.faces[k] = what;
            }
        };
        for (size_t f = 0; f < m.faceNodes.size(); ++f)
        {
            std::vector<Key> k;
            for (int n : m.faceNodes[f])
            {
                k.push_back(F(static_cast<int>(f), n));
            }
            face("of a face", k);
        }
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            if (!m.edgeValid(e))
            {
                continue;
            }
            const int a = m.edges[e][0], b = m.edges[e][1], i = static_cast<int>(e);
            if (m.edgeFaces[e][0] >= 0 && m.edgeFaces[e][1] >= 0)
            {
                const int f = m.edgeFaces[e][0], h = m.edgeFaces[e][1];
                face("of an interior edge", {F(f, a), F(f, b), F(h, a), F(h, b)});
            }
            else
            {
                face("of a boundary edge", {F(faceOf(i), a), F(faceOf(i), b), E(i, a), E(i, b)});
            }
        }
        for (size_t n = 0; n < nn; ++n)
        {
            if (!m.nodeValid(n) || !selected[n])
            {
                continue;
            }
            const int i = static_cast<int>(n);
            std::vector<Key> k;
            for (int f : facesOf[n])
            {
                k.push_back(F(f, i));
            }
            for (int e : boundaryEdgesOf[n])
            {
                k.push_back(E(e, i));
            }
            if (corner[n])
            {
                if (interiorEdgesOf[n].empty())
                {
                    k.push_back(old(i));
                    face("of a corner", k);
                }
                else
                {
                    for (int e : interiorEdgesOf[n])
                    {
                        face("of a corner with more faces", {old(i), F(m.edgeFaces[static_cast<size_t>(e)][0], i), F(m.edgeFaces[static_cast<size_t>(e)][1], i)});
                    }
                    for (int e : boundaryEdgesOf[n])
                    {
                        face("of a corner with more faces", {old(i), E(e, i), F(faceOf(e), i)});
                    }
                }
            }
            else
            {
                face(boundaryEdgesOf[n].empty() ? "of an interior node" : "of a boundary node", k);
            }
        }
        // only judge meshes where the expected nodes are apart
        std::vector<std::pair<Key, P>> all(x.nodes.begin(), x.nodes.end());
        for (size_t i = 0; i < all.size(); ++i)
        {
            for (size_t j = 0; j < i; ++j)
            {
                if (std::abs(all[i].second.x - all[j].second.x) < 1e2 * tol && std::abs(all[i].second.y - all[j].second.y) < 1e2 * tol)
                {
                    throw pbt::Discard{"coinciding new nodes"};
                }
            }
        }
        for (auto& [k, what] : x.faces)
        {
            if (k.size() > 6)
            {
                throw pbt::Discard{"face with many nodes"};
            }
            // convex and counter-clockwise when sorted around its centre
            std::vector<P> p;
            P mid{0, 0};
            for (auto& q : k)
            {
                p.push_back(x.nodes.at(q));
                mid = mid + p.back() * (1.0 / static_cast<double>(k.size()));
            }
            std::sort(p.begin(), p.end(), [&](P a, P b)
                      { return std::atan2(a.y - mid.y, a.x - mid.x) < std::atan2(b.y - mid.y, b.x - mid.x); });
            for (size_t i = 0; i < p.size(); ++i)
            {
                if (orient(p[i], p[(i + 1) % p.size()], p[(i + 2) % p.size()]) < -1e-9 * scale * scale)
                {
                    throw pbt::Discard{"new face not convex"};
                }
            }
            if (signedArea(p) < 1e-6 * scale * scale * 0.01)
            {
                throw pbt::Discard{"new face without area"};
            }
        }
        Geo gp(poly);
        auto l = gp.list();
        if (poly.empty())
        {
            c.op("mesh2d_casulli_refinement");
            must(api::mkernel_mesh2d_casulli_refinement(id), "mesh2d_casulli_refinement");
        }
        else
        {
            c.op("mesh2d_casulli_refinement_on_polygon");
            must(api::mkernel_mesh2d_casulli_refinement_on_polygon(id, l), "mesh2d_casulli_refinement_on_polygon");
        }
        const Mesh2 r = getMesh2(id);
        // match the nodes
        std::map<size_t, Key> keyOf;
        std::set<Key> found;
        for (size_t i = 0; i < r.nodes.size(); ++i)
        {
            if (!r.nodeValid(i))
            {
                continue;
            }
            const Key* k = nullptr;
            for (auto& [kk, p] : all)
            {
                if (std::abs(p.x - r.nodes[i].x) <= tol && std::abs(p.y - r.nodes[i].y) <= tol)
                {
                    k = &kk;
                    break;
                }
            }
            PBT_CHECK(k, "casulli-node-unexpected", "node ", i, " at ", str(r.nodes[i]), " is not one of the expected nodes");
            PBT_CHECK(found.insert(*k).second, "casulli-node-twice", "two nodes at ", str(r.nodes[i]));
            keyOf[i] = *k;
        }
        for (auto& [k, p] : all)
        {
            PBT_CHECK(found.contains(k), "casulli-node-missing", "the ", (k[0] == 0 ? "old" : (k[0] == 1 ? "face" : "edge")), " node ", str(p), " is missing");
        }
        std::set<std::vector<Key>> faces;
        for (auto& f : r.faceNodes)
        {
            std::vector<Key> k;
            for (int n : f)
            {
                k.push_back(keyOf.at(static_cast<size_t>(n)));
            }
            std::sort(k.begin(), k.end());
            std::string s;
            for (int n : f)
            {
                s += str(r.nodes[static_cast<size_t>(n)]);
            }
            PBT_CHECK(x.faces.contains(k), "casulli-face-unexpected", "the face ", s, " is not expected");
            PBT_CHECK(faces.insert(k).second, "casulli-face-twice", "two faces ", s);
        }
        for (auto& [k, what] : x.faces)
        {
            std::string s;
            for (auto& q : k)
            {
                s += str(x.nodes.at(q));
            }
            PBT_CHECK(faces.contains(k), "casulli-face-missing", "the face ", what, " ", s, " is missing");
        }
        // every edge is part of a face
        for (size_t e = 0; e < r.edges.size(); ++e)
        {
            PBT_CHECK(!r.edgeValid(e) || r.edgeFaces[e][0] >= 0 || r.edgeFaces[e][1] >= 0, "casulli-edge-left", "edge ", str(r.nodes[static_cast<size_t>(r.edges[e][0])]), "-", str(r.nodes[static_cast<size_t>(r.edges[e][1])]), " belongs to no face");
        }
        ++c.evaluations;
        c.label(poly.empty() ? "whole mesh" : (numSelected == 0 ? "nothing selected" : (numSelected == numValid ? "all selected" : "part selected")));
        if (numSelected > 0 && m.faceNodes.size() > 1)
        {
            c.nontrivial();
        }
    }

    const pbt::Register reg("C12", "a mesh with more than one face and at least one node to refine", 60000, 2000000,
                            {{"refine", refine, 1}});
} // namespace
