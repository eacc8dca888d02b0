// C06: the derived quantities of a mesh2d agree with their definition on the current mesh.
#include "../harness/circum.hpp"
#include "../harness/ops.hpp"
using namespace mk;

namespace
{
    struct Answers
    {
        int propDim[2] = {-7, -7};
        std::vector<double> ortho, orthoProp, lengths, smooth;
        std::vector<int> hanging;
        double threshold = 0;
        int nSmall = -7, nObtuse = -7;
        std::vector<P> small, obtuse;
        int faceSize = 3, faceDim = -7;
        std::vector<P> facePolygons;
        double fmin = 0, fmax = 1;
        int filterDim = -7;
        std::vector<P> filtered;
        std::vector<bool> asked = std::vector<bool>(8, false);
    };

    void ask(Case& c, int id, Answers& a, int what)
    {
        a.asked[static_cast<size_t>(what)] = true;
        switch (what)
        {
        case 0: // edge properties
        {
            c.op("mesh2d_get_property");
            must(api::mkernel_mesh2d_get_property_dimension(id, 0, a.propDim[0]), "get_property_dimension");
            PBT_CHECK(a.propDim[0] >= 0, "property-dimension", "the dimension of the orthogonality is ", a.propDim[0]);
            Geo g(static_cast<size_t>(a.propDim[0]));
            auto l = g.list();
            must(api::mkernel_mesh2d_get_property(id, 0, l), "get_property");
            a.orthoProp = g.v;
            break;
        }
        case 1:
        {
            c.op("mesh2d_get_property length");
            must(api::mkernel_mesh2d_get_property_dimension(id, 1, a.propDim[1]), "get_property_dimension");
            PBT_CHECK(a.propDim[1] >= 0, "property-dimension", "the dimension of the edge length is ", a.propDim[1]);
            Geo g(static_cast<size_t>(a.propDim[1]));
            auto l = g.list();
            must(api::mkernel_mesh2d_get_property(id, 1, l), "get_property");
            a.lengths = g.v;
            break;
        }
        case 2:
        {
            c.op("mesh2d_get_orthogonality");
            int dim = -1;
            must(api::mkernel_mesh2d_get_property_dimension(id, 1, dim), "get_property_dimension");
            Geo g(static_cast<size_t>(dim));
            auto l = g.list();
            must(api::mkernel_mesh2d_get_orthogonality(id, l), "get_orthogonality");
            a.ortho = g.v;
            break;
        }
        case 3:
        {
            c.op("mesh2d_get_smoothness");
            int dim = -1;
            must(api::mkernel_mesh2d_get_property_dimension(id, 1, dim), "get_property_dimension");
            Geo g(static_cast<size_t>(dim));
            auto l = g.list();
            must(api::mkernel_mesh2d_get_smoothness(id, l), "get_smoothness");
            a.smooth = g.v;
            break;
        }
        case 4:
        {
            c.op("mesh2d_count_hanging_edges");
            int n = -7;
            must(api::mkernel_mesh2d_count_hanging_edges(id, n), "count_hanging_edges");
            PBT_CHECK(n >= 0, "hanging-count", "there are ", n, " hanging edges");
            a.hanging.assign(static_cast<size_t>(n) + 1, -77);
            must(api::mkernel_mesh2d_get_hanging_edges(id, a.hanging.data()), "get_hanging_edges");
            PBT_CHECK(a.hanging.back() == -77, "hanging-overrun", "more hanging edges were returned than counted");
            a.hanging.pop_back();
            break;
        }
        case 5:
        {
            c.op("mesh2d_small_flow_edges");
            must(api::mkernel_mesh2d_count_small_flow_edge_centers(id, a.threshold, a.nSmall), "count_small_flow_edge_centers");
            Geo g(static_cast<size_t>(a.nSmall));
            auto l = g.list();
            must(api::mkernel_mesh2d_get_small_flow_edge_centers(id, a.threshold, l), "get_small_flow_edge_centers");
            a.small = g.pts();
            must(api::mkernel_mesh2d_count_obtuse_triangles(id, a.nObtuse), "count_obtuse_triangles");
            Geo o(static_cast<size_t>(a.nObtuse));
            auto ol = o.list();
            must(api::mkernel_mesh2d_get_obtuse_triangles_mass_centers(id, ol), "get_obtuse_triangles_mass_centers");
            a.obtuse = o.pts();
            break;
        }
        case 6:
        {
            c.op("mesh2d_get_face_polygons");
            must(api::mkernel_mesh2d_get_face_polygons_dimension(id, a.faceSize, a.faceDim), "get_face_polygons_dimension");
            PBT_CHECK(a.faceDim >= 0, "face-polygons-dimension", "the dimension of the face polygons is ", a.faceDim);
            if (a.faceDim > 0)
            {
                Geo g(static_cast<size_t>(a.faceDim));
                auto l = g.list();
                must(api::mkernel_mesh2d_get_face_polygons(id, a.faceSize, l), "get_face_polygons");
                a.facePolygons = g.pts();
            }
            break;
        }
        case 7:
        {
            c.op("mesh2d_get_filtered_face_polygons");
            must(api::mkernel_mesh2d_get_filtered_face_polygons_dimension(id, 0, a.fmin, a.fmax, a.filterDim), "get_filtered_face_polygons_dimension");
            PBT_CHECK(a.filterDim >= 0, "filtered-dimension", "the dimension of the filtered face polygons is ", a.filterDim);
            if (a.filterDim > 0)
            {
                Geo g(static_cast<size_t>(a.filterDim));
                auto l = g.list();
                must(api::mkernel_mesh2d_get_filtered_face_polygons(id, 0, a.fmin, a.fmax, l), "get_filtered_face_polygons");
                a.filtered = g.pts();
            }
            break;
        }
        default:
            break;
        }
    }

    /// faces as a separated list of closed polygons
    std::vector<P> polygonsOf(const Mesh2& m, const std::vector<size_t>& faces)
    {
        std::vector<P> r;
        for (size_t f : faces)
        {
            if (!r.empty())
            {
                r.push_back({missing, missing});
            }
            for (auto& p : facePts(m, f))
            {
                r.push_back(p);
            }
            r.push_back(facePts(m, f)[0]);
        }
        return r;
    }
    /// the polygons as a set, each rotated to start at its smallest point
    std::multiset<std::vector<std::pair<double, double>>> polygonSet(const std::vector<P>& v, const std::string& key)
    {
        std::multiset<std::vector<std::pair<double, double>>> r;
        std::vector<std::pair<double, double>> cur;
        auto flush = [&]()
        {
            PBT_CHECK(cur.size() >= 4 && cur.front() == cur.back(), key, "a face polygon is not closed");
            cur.pop_back();
            std::rotate(cur.begin(), std::min_element(cur.begin(), cur.end()), cur.end());
            r.insert(cur);
            cur.clear();
        };
        for (auto& p : v)
        {
            if (p.x == missing)
            {
                flush();
            }
            else
            {
                cur.push_back({p.x, p.y});
            }
        }
        if (!v.empty())
        {
            flush();
        }
        return r;
    }

    double haversine(P a, P b)
    {
        const double d = M_PI / 180.0, s1 = std::sin((b.y - a.y) * d / 2), s2 = std::sin((b.x - a.x) * d / 2);
        return 6378137.0 * 2.0 * std::asin(std::min(1.0, std::sqrt(s1 * s1 + std::cos(a.y * d) * std::cos(b.y * d) * s2 * s2)));
    }

    void judge(Case& c, const Answers& a, const Mesh2& m, int projection, const std::string& after)
    {
        ++c.evaluations;
        const size_t ne = m.edges.size(), nf = m.faceNodes.size();
        const bool cartesian = projection == 0;
        auto faceCount = [&](size_t e)
        { return (m.edgeFaces[e][0] >= 0 ? 1 : 0) + (m.edgeFaces[e][1] >= 0 ? 1 : 0); };
        if (a.asked[1])
        {
            PBT_CHECK(a.lengths.size() == ne, "length-size:" + after, "after ", after, ": ", a.lengths.size(), " edge lengths for ", ne, " edges");
            for (size_t e = 0; e < ne; ++e)
            {
                if (!m.edgeValid(e))
                {
                    PBT_CHECK(a.lengths[e] == missing, "length-deleted:" + after, "after ", after, ": deleted edge ", e, " has length ", a.lengths[e]);
                    continue;
                }
                const P p = m.nodes[static_cast<size_t>(m.edges[e][0])], q = m.nodes[static_cast<size_t>(m.edges[e][1])];
                const double want = cartesian ? dist(p, q) : haversine(p, q);
                if (!cartesian && (std::abs(p.x - q.x) > 5 || std::abs(p.y - q.y) > 5 || std::max(std::abs(p.y), std::abs(q.y)) > 80))
                {
                    continue;
                }
                PBT_CHECK(std::abs(a.lengths[e] - want) <= (cartesian ? 1e-9 : 0.01) * want + 1e-9, "length:" + after, "after ", after, ": edge ", e, " has length ", a.lengths[e], " instead of ", want);
            }
        }
        if (a.asked[4])
        {
            std::vector<int> degree(m.nodes.size(), 0);
            for (size_t e = 0; e < ne; ++e)
            {
                if (m.edgeValid(e))
                {
                    ++degree[static_cast<size_t>(m.edges[e][0])];
                    ++degree[static_cast<size_t>(m.edges[e][1])];
                }
            }
            std::set<int> want;
            bool limit = false;
            for (size_t e = 0; e < ne; ++e)
            {
                if (m.edgeValid(e))
                {
                    const int x = degree[static_cast<size_t>(m.edges[e][0])], y = degree[static_cast<size_t>(m.edges[e][1])];
                    limit |= x > 15 || y > 15;
                    if (x <= 1 || y <= 1)
                    {
                        want.insert(static_cast<int>(e));
                    }
                }
            }
            std::set<int> got(a.hanging.begin(), a.hanging.end());
            PBT_CHECK(limit || (got.size() == a.hanging.size() && got == want), "hanging:" + after, "after ", after, ": the hanging edges are ", str(a.hanging), " instead of ", str(std::vector<int>(want.begin(), want.end())));
            c.label(want.empty() ? "no hanging edges" : "hanging edges");
        }
        // areas and circumcentres
        const bool defined = cartesian && circumcentresDefined(m) && m.validNodeBox(1e7);
        std::vector<double> area, unc, ext;
        std::vector<P> cc;
        if (defined)
        {
            cc = refCircumcentres(m);
            for (size_t f = 0; f < nf; ++f)
            {
                const auto p = facePts(m, f);
                double e = 0;
                for (auto& q : p)
                {
                    e = std::max(e, dist(q, p[0]));
                }
                ext.push_back(e);
                area.push_back(signedArea(p));
                unc.push_back(p.size() == 3 ? 1e-6 * e : 5e-3 + 0.01 * e);
            }
        }
        for (const auto* vp : {a.asked[2] ? &a.ortho : nullptr, a.asked[0] ? &a.orthoProp : nullptr})
        {
            if (!vp)
            {
                continue;
            }
            const auto& v = *vp;
            PBT_CHECK(v.size() == ne, "ortho-size:" + after, "after ", after, ": ", v.size(), " orthogonality values for ", ne, " edges");
            for (size_t e = 0; e < ne; ++e)
            {
                const bool inner = m.edgeValid(e) && faceCount(e) == 2;
                if (!inner)
                {
                    PBT_CHECK(v[e] == missing, "ortho-boundary:" + after, "after ", after, ": edge ", e, " does not lie between two faces but has orthogonality ", v[e]);
                    continue;
                }
                PBT_CHECK(v[e] == missing || (v[e] >= 0 && v[e] <= 1), "ortho-range:" + after, "after ", after, ": the orthogonality of edge ", e, " is ", v[e]);
                if (!defined)
                {
                    continue;
                }
                const size_t f = static_cast<size_t>(m.edgeFaces[e][0]), g = static_cast<size_t>(m.edgeFaces[e][1]);
                const P t = m.nodes[static_cast<size_t>(m.edges[e][1])] - m.nodes[static_cast<size_t>(m.edges[e][0])], u = cc[g] - cc[f];
                const double l = len(u), tol = (unc[f] + unc[g]) / std::max(l, 1e-300);
                if (tol > 0.2 || !(len(t) > 1e-6 * ext[f]))
                {
                    continue;
                }
                const double want = std::abs(dot(t, u)) / (len(t) * l);
                PBT_CHECK(v[e] != missing && std::abs(v[e] - want) <= 2 * tol + 1e-9, "ortho:" + after, "after ", after, ": the orthogonality of edge ", e, " is ", v[e], " instead of ", want, " (circumcentres ", str(cc[f]), " ", str(cc[g]), " of the faces ", str(facePts(m, f)), " ", str(facePts(m, g)), ")");
                c.label("orthogonality judged");
            }
        }
        if (a.asked[3])
        {
            PBT_CHECK(a.smooth.size() == ne, "smooth-size:" + after, "after ", after, ": ", a.smooth.size(), " smoothness values for ", ne, " edges");
            for (size_t e = 0; e < ne; ++e)
            {
                const bool inner = m.edgeValid(e) && faceCount(e) == 2;
                if (!inner)
                {
                    PBT_CHECK(a.smooth[e] == missing, "smooth-boundary:" + after, "after ", after, ": edge ", e, " does not lie between two faces but has smoothness ", a.smooth[e]);
                    continue;
                }
                PBT_CHECK(a.smooth[e] == missing || a.smooth[e] >= 1, "smooth-range:" + after, "after ", after, ": the smoothness of edge ", e, " is ", a.smooth[e]);
                if (defined)
                {
                    const double x = area[static_cast<size_t>(m.edgeFaces[e][0])], y = area[static_cast<size_t>(m.edgeFaces[e][1])];
                    const double want = std::max(x / y, y / x);
                    PBT_CHECK(std::min(x, y) < 1e-6 || std::abs(a.smooth[e] - want) <= 1e-6 * want, "smooth:" + after, "after ", after, ": the smoothness of edge ", e, " is ", a.smooth[e], " instead of ", want);
                }
            }
        }
        if (a.asked[5] && defined)
        {
            // small flow edges: surely, possibly
            std::vector<P> sure, possible;
            double maxUnc = 0;
            for (size_t e = 0; e < ne; ++e)
            {
                if (!m.edgeValid(e) || faceCount(e) != 2)
                {
                    continue;
                }
                const size_t f = static_cast<size_t>(m.edgeFaces[e][0]), g = static_cast<size_t>(m.edgeFaces[e][1]);
                const double d = dist(cc[f], cc[g]), cut = a.threshold * 0.5 * (std::sqrt(area[f]) + std::sqrt(area[g])), u = unc[f] + unc[g] + 1e-9 * cut;
                maxUnc = std::max(maxUnc, u);
                const P mid = (cc[f] + cc[g]) * 0.5;
                if (d < cut - u)
                {
                    sure.push_back(mid);
                }
                if (d < cut + u)
                {
                    possible.push_back(mid);
                }
            }
            const auto n = static_cast<int>(a.small.size());
            PBT_CHECK(n == a.nSmall && n >= static_cast<int>(sure.size()) && n <= static_cast<int>(possible.size()), "small-flow-edges:" + after, "after ", after, ": ", n, " small flow edges with threshold ", a.threshold, ", expected between ", sure.size(), " and ", possible.size());
            auto near = [&](const std::vector<P>& v, P p)
            {
                return std::any_of(v.begin(), v.end(), [&](const P& q)
                                   { return dist(p, q) <= maxUnc + 1e-9; });
            };
            for (auto& p : sure)
            {
                PBT_CHECK(near(a.small, p), "small-flow-centre:" + after, "after ", after, ": the small flow edge with centre ", str(p), " is missing");
            }
            for (auto& p : a.small)
            {
                PBT_CHECK(near(possible, p), "small-flow-centre:" + after, "after ", after, ": there is no small flow edge with centre ", str(p));
            }
            c.label(n > 0 ? "small flow edges" : "no small flow edges");
        }
        if (a.asked[5] && cartesian && m.validNodeBox(1e7))
        {
            std::vector<P> sure, possible;
            double scale = meshScale(m);
            for (size_t f = 0; f < nf; ++f)
            {
                const auto p = facePts(m, f);
                if (p.size() != 3)
                {
                    continue;
                }
                double cosMin = 2;
                for (size_t i = 0; i < 3; ++i)
                {
                    const P u = p[(i + 1) % 3] - p[i], v = p[(i + 2) % 3] - p[i];
                    cosMin = std::min(cosMin, dot(u, v) / std::max(len(u) * len(v), 1e-300));
                }
                if (!(std::abs(signedArea(p)) > 1e-5 * scale * scale + 1e-6))
                {
                    sure.clear();
                    possible.clear();
                    cosMin = 0; // degenerate: do not judge this mesh
                    scale = -1;
                    break;
                }
                const P mid = centroid(p);
                if (cosMin < -1e-6)
                {
                    sure.push_back(mid);
                }
                if (cosMin < 1e-6)
                {
                    possible.push_back(mid);
                }
            }
            if (scale > 0)
            {
                const auto n = a.obtuse.size();
                PBT_CHECK(n >= sure.size() && n <= possible.size(), "obtuse:" + after, "after ", after, ": ", n, " obtuse triangles, expected between ", sure.size(), " and ", possible.size());
                for (auto& p : sure)
                {
                    PBT_CHECK(std::any_of(a.obtuse.begin(), a.obtuse.end(), [&](const P& q)
                                          { return dist(p, q) <= 1e-5 * scale; }),
                              "obtuse-centre:" + after, "after ", after, ": the obtuse triangle with centre ", str(p), " is missing in ", str(a.obtuse));
                }
                c.label(n > 0 ? "obtuse triangles" : "no obtuse triangles");
            }
        }
        if (a.asked[6])
        {
            std::vector<size_t> faces;
            for (size_t f = 0; f < nf; ++f)
            {
                if (static_cast<int>(m.faceNodes[f].size()) == a.faceSize)
                {
                    faces.push_back(f);
                }
            }
            const auto want = polygonsOf(m, faces);
            PBT_CHECK(want.size() == static_cast<size_t>(a.faceDim), "face-polygons-size:" + after, "after ", after, ": the dimension of the polygons of the faces with ", a.faceSize, " edges is ", a.faceDim, " instead of ", want.size());
            PBT_CHECK(polygonSet(a.facePolygons, "face-polygons-closed") == polygonSet(want, "x"), "face-polygons:" + after, "after ", after, ": the polygons of the faces with ", a.faceSize, " edges are ", str(a.facePolygons), " instead of ", str(want));
        }
        if (a.asked[7] && a.asked[2])
        {
            std::vector<size_t> faces;
            for (size_t f = 0; f < nf; ++f)
            {
                if (std::all_of(m.faceEdges[f].begin(), m.faceEdges[f].end(), [&](int e)
                                { return a.ortho[static_cast<size_t>(e)] >= a.fmin && a.ortho[static_cast<size_t>(e)] <= a.fmax; }))
                {
                    faces.push_back(f);
                }
            }
            const auto want = polygonsOf(m, faces);
            PBT_CHECK(want.size() == static_cast<size_t>(a.filterDim), "filtered-size:" + after, "after ", after, ": the dimension of the filtered face polygons is ", a.filterDim, " instead of ", want.size());
            PBT_CHECK(polygonSet(a.filtered, "filtered-closed") == polygonSet(want, "x"), "filtered:" + after, "after ", after, ": the faces with orthogonality in [", a.fmin, ",", a.fmax, "] are ", str(a.filtered), " instead of ", str(want));
            c.label(faces.empty() ? "no filtered faces" : faces.size() == nf ? "all faces filtered" : "some faces filtered");
        }
    }

    void derived(Case& c, int projection, int maxOps)
    {
        reset();
        const int id = newState(projection);
        MeshOpts o;
        o.maxN = 5;
        o.projection = projection;
        o.maxJitter = c.coin(0.3) ? 0.45 : 0.25;
        auto g = genMesh(c, o);
        logMesh(c, g, "initial mesh2d");
        must(setMesh2(id, g.nodes, g.edges), "mesh2d_set");
        std::string after = "mesh2d_set";
        const int steps = c.range(0, maxOps);
        for (int k = 0; k <= steps; ++k)
        {
            if (getMesh2(id).nodes.empty())
            {
                return;
            }
            Answers a;
            a.threshold = c.real(0.0, 1.2, 100);
            a.faceSize = c.range(3, 6);
            a.fmin = c.coin(0.5) ? 0.0 : c.coin(0.5) ? c.real(0.0, 0.3, 100) : -1000.0; // -1000 lets edges on the boundary pass
            a.fmax = c.coin(0.2) ? 1.0 : c.real(0.0, 0.6, 1000);
            std::vector<int> order{0, 1, 2, 3, 4, 5, 6, 7};
            c.shuffle(order);
            const int n = c.range(1, 8);
            for (int i = 0; i < n; ++i)
            {
                PBT_LOG(c, "ask ", order[static_cast<size_t>(i)], " threshold ", a.threshold, " face size ", a.faceSize, " filter ", a.fmin, "..", a.fmax);
                ask(c, id, a, order[static_cast<size_t>(i)]);
            }
            auto m = getMesh2(id);
            judge(c, a, m, projection, after);
            if (m.faceNodes.size() > 1)
            {
                c.nontrivial();
            }
            if (k == steps)
            {
                break;
            }
            Ctx x(c);
            x.id = id;
            x.refresh();
            if (x.validNodes.size() > 300 || x.validNodes.empty() || x.projection != projection)
            {
                return;
            }
            if (k > 0 && c.coin(0.2))
            {
                bool done = false;
                int rid = -1;
                const bool redo = c.coin(0.4);
                PBT_LOG(c, redo ? "redo" : "undo");
                must(redo ? api::mkernel_redo_state(done, rid) : api::mkernel_undo_state(done, rid), "undo/redo");
                after = redo ? "redo" : "undo";
                continue;
            }
            try
            {
                int rc = 0;
                const Op* op = runRandomOp(x, "mesh2d", rc);
                if (op && rc == 0)
                {
                    after = op->name;
                    c.label("edited");
                }
            }
            catch (pbt::Discard&)
            {
            }
        }
    }
    pbt::Register reg("C06",
                      "a case is non-trivial if derived quantities were judged on a mesh with at least two faces",
                      100000, 2000000,
                      {{"cartesian", [](Case& c)
                        { derived(c, 0, c.thorough ? 5 : 3); },
                        5},
                       {"spherical", [](Case& c)
                        { derived(c, c.range(1, 2), c.thorough ? 4 : 2); },
                        1}});
} // namespace
