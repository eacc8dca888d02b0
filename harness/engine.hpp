// A small choice-sequence property-based testing engine (in the style of Hypothesis):
// every random decision of a case is a recorded integer choice, so the case can be
// replayed exactly and shrunk by editing the list of choices.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
    struct Violation
    {
        std::string key; ///< stable identification of what failed (used for shrinking and known findings)
        std::string msg;
    };
    struct Discard
    {
        std::string why;
    };
    struct Overrun
    {
    };

    struct Shared; // per worker shared memory block

    class Case
    {
    public:
        /// uniform choice in [0, n)
        uint64_t draw(uint64_t n);
        int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(static_cast<int64_t>(hi) - lo + 1))); }
        /// true with probability p; the simplest value is false
        bool coin(double p = 0.5) { return draw(1000) >= 1000 - static_cast<uint64_t>(p * 1000.0 + 0.5); }
        /// real number in [lo, hi] on a grid of `steps` cells; shrinks to lo
        double real(double lo, double hi, uint64_t steps = 1u << 20) { return lo + (hi - lo) * (static_cast<double>(draw(steps + 1)) / static_cast<double>(steps)); }
        /// real in [-a, a]; shrinks to zero
        double sym(double a, uint64_t steps = 1u << 16)
        {
            const auto k = draw(2 * steps + 1);
            const double m = static_cast<double>((k + 1) / 2) / static_cast<double>(steps) * a;
            return k % 2 == 0 ? m : -m;
        }
        size_t weighted(const std::vector<int>& w);
        template <typename T>
        const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
        template <typename T>
        void shuffle(std::vector<T>& v)
        {
            for (size_t i = v.size(); i > 1; --i)
            {
                std::swap(v[i - 1], v[i - 1 - draw(i)]);
            }
        }
        /// classification of the case, for the evidence
        void label(const std::string& s) { labels[s]++; }
        /// marks the case as non-trivial
        void nontrivial() { isNontrivial = true; }
        /// the operation under way (so that a crash can be attributed)
        void op(const char* name);
        bool verbose() const { return isVerbose; }

        std::vector<uint64_t> choices;
        std::map<std::string, int> labels;
        std::ostringstream log; ///< human-readable description, only filled if verbose()
        void logLine(const std::string& s);
        int logFd = -1; ///< the description is also written here as it grows, so that it survives a crash
        bool isNontrivial = false;
        bool thorough = false;
        uint64_t evaluations = 0; ///< number of oracle evaluations

        // engine internals
        bool isVerbose = false;
        bool replaying = false;
        std::vector<uint64_t> prefix;
        uint64_t rng[4];
        Shared* shared = nullptr;
        void seed(uint64_t s);
        uint64_t next();
    };

    struct Facet
    {
        std::string name;
        std::function<void(Case&)> fn;
        int weight; ///< share of the cases
    };

    struct Property
    {
        std::string id;
        std::string rule;
        int quickCases;
        int thoroughCases;
        std::vector<Facet> facets;
    };

    std::vector<Property>& registry();
    struct Register
    {
        Register(std::string id, std::string rule, int quickCases, int thoroughCases, std::vector<Facet> facets)
        {
            registry().push_back({std::move(id), std::move(rule), quickCases, thoroughCases, std::move(facets)});
        }
    };

    template <typename... A>
    std::string cat(const A&... a)
    {
        std::ostringstream s;
        s.precision(17);
        (s << ... << a);
        return s.str();
    }
    template <typename... A>
    [[noreturn]] void fail(const std::string& key, const A&... a)
    {
        throw Violation{key, cat(a...)};
    }
#define PBT_LOG(c, ...)                                    \
    do                                                     \
    {                                                      \
        if ((c).verbose())                                 \
        {                                                  \
            (c).logLine(::pbt::cat(__VA_ARGS__));          \
        }                                                  \
    } while (0)
#define PBT_CHECK(cond, key, ...)                          \
    do                                                     \
    {                                                      \
        if (!(cond))                                       \
        {                                                  \
            ::pbt::fail(key, __VA_ARGS__);                 \
        }                                                  \
    } while (0)
} // namespace pbt
