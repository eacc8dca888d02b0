// Library of state-changing API operations with generated arguments, and full observable snapshots of a state.
#pragma once
#include "gen.hpp"
#include "geo.hpp"
#include <optional>

namespace mk
{
    /// everything a client can observe about one state id
    struct Snapshot
    {
        bool exists = false, valid = false;
        int projection = -1;
        Mesh2 m2;
        Mesh1 m1;
        Curvi cg;
        Conts ct;
    };
    Snapshot snapshot(int id);
    /// empty string if the two are observably the same; trailing invalid (deleted) nodes and edges do not count
    std::string diffMesh2(const Mesh2& a, const Mesh2& b, bool exactTopology = true, double lonTol = 0.0);
    std::string diffSnapshot(const Snapshot& a, const Snapshot& b);

    struct Ctx
    {
        Case& c;
        bool wild = false; ///< also generate arguments that have to be rejected
        int id = -1;
        int projection = 0;
        Mesh2 m2;
        Mesh1 m1;
        Curvi cg;
        std::vector<int> validNodes, validEdges;
        P lo, hi; ///< bounding box of the mesh2d
        double h = 10;
        GenMesh box; ///< lo/hi in the form polygon generators take
        explicit Ctx(Case& cc) : c(cc) {}
        void refresh(bool all = true);
    };

    struct Op
    {
        std::string name;
        int weight;
        std::string group; ///< mesh2d, mesh2dset, mesh1d, contacts, curvi, curviset, state
        std::function<bool(Ctx&)> applicable;
        std::function<int(Ctx&)> run;
    };
    const std::vector<Op>& allOps();
    /// picks and runs an applicable operation from the groups (comma separated list); returns nullptr if there is none
    const Op* runRandomOp(Ctx& x, const std::string& groups, int& rc);
} // namespace mk
