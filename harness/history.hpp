// A generated mesh2d followed by a short random history of operations, undos and redos.
#pragma once
#include "ops.hpp"

namespace mk
{
    /// returns the number of operations done; the last of them leaves the mesh unread, so that nothing refreshes it
    inline int runHistory(Case& c, int id, int projection, const std::vector<int>& weights = {5, 2, 1}, size_t maxNodes = 200)
    {
        const int ops = static_cast<int>(c.weighted(weights));
        int done = 0;
        for (int k = 0; k < ops; ++k)
        {
            Ctx x(c);
            x.id = id;
            x.refresh();
            if (x.validNodes.size() > maxNodes || x.validNodes.empty() || x.projection != projection)
            {
                break;
            }
            int rc = 0;
            try
            {
                runRandomOp(x, "mesh2d", rc);
                ++done;
            }
            catch (pbt::Discard&)
            {
            }
        }
        return done;
    }
    /// extent of the valid nodes
    inline bool extentOf(const Mesh2& m, P& lo, P& hi)
    {
        lo = {1e300, 1e300};
        hi = {-1e300, -1e300};
        int valid = 0;
        for (auto& p : m.nodes)
        {
            if (p.valid())
            {
                ++valid;
                lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
                hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
            }
        }
        return valid >= 2 && hi.x - lo.x > 1e-9 && hi.y - lo.y > 1e-9;
    }
    /// no loops and no duplicate edges
    inline bool simpleEdges(const Mesh2& m)
    {
        std::set<std::pair<int, int>> seen;
        for (size_t e = 0; e < m.edges.size(); ++e)
        {
            const auto [a, b] = m.edges[e];
            if (m.edgeValid(e) && (a == b || !seen.insert({std::min(a, b), std::max(a, b)}).second))
            {
                return false;
            }
        }
        return true;
    }
} // namespace mk
