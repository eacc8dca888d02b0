#include "engine.hpp"
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
    constexpr size_t maxChoices = 60000;
    struct Shared
    {
        volatile int64_t caseIndex;
        volatile int64_t startedMs;
        volatile uint64_t numChoices;
        char op[128];
        uint64_t choices[maxChoices];
    };

    std::vector<Property>& registry()
    {
        static std::vector<Property> r;
        return r;
    }

    static uint64_t splitmix(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        auto b = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i)
        {
            h = (h ^ b[i]) * 1099511628211ull;
        }
        return h;
    }
    static int64_t nowMs()
    {
        return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    void Case::seed(uint64_t s)
    {
        for (auto& r : rng)
        {
            r = splitmix(s);
        }
    }
    uint64_t Case::next()
    {
        auto rotl = [](uint64_t x, int k)
        { return (x << k) | (x >> (64 - k)); };
        const uint64_t result = rotl(rng[1] * 5, 7) * 9;
        const uint64_t t = rng[1] << 17;
        rng[2] ^= rng[0];
        rng[3] ^= rng[1];
        rng[1] ^= rng[2];
        rng[0] ^= rng[3];
        rng[2] ^= t;
        rng[3] = rotl(rng[3], 45);
        return result;
    }
    uint64_t Case::draw(uint64_t n)
    {
        if (n <= 1)
        {
            return 0;
        }
        if (choices.size() >= maxChoices)
        {
            throw Overrun{};
        }
        uint64_t v;
        if (replaying)
        {
            v = choices.size() < prefix.size() ? std::min(prefix[choices.size()], n - 1) : 0;
        }
        else
        {
            v = next() % n;
        }
        if (shared)
        {
            shared->choices[choices.size()] = v;
            shared->numChoices = choices.size() + 1;
        }
        choices.push_back(v);
        return v;
    }
    size_t Case::weighted(const std::vector<int>& w)
    {
        uint64_t total = 0;
        for (auto x : w)
        {
            total += static_cast<uint64_t>(x);
        }
        uint64_t k = draw(total);
        for (size_t i = 0; i < w.size(); ++i)
        {
            if (k < static_cast<uint64_t>(w[i]))
            {
                return i;
            }
            k -= static_cast<uint64_t>(w[i]);
        }
        return 0;
    }
    void Case::op(const char* name)
    {
        if (shared)
        {
            std::strncpy(shared->op, name, sizeof(shared->op) - 1);
        }
    }

    void Case::logLine(const std::string& s)
    {
        log << s << "\n";
        if (logFd >= 0)
        {
            const std::string t = s + "\n";
            if (write(logFd, t.data(), t.size()) < 0)
            {
                logFd = -1;
            }
        }
    }

    struct Outcome
    {
        enum Kind
        {
            pass,
            discard,
            violation,
            crash,
            hang
        } kind = pass;
        std::string key;
        std::string msg;
        std::vector<uint64_t> choices;
    };

    static const Property* prop;
    static bool thorough = false;
    static uint64_t baseSeed = 1;
    static std::string onlyFacet;
    static std::string tmpDir;
    static int cpuLimit = 30;

    static const Facet& facetOf(uint64_t idx)
    {
        int total = 0;
        for (auto& f : prop->facets)
        {
            total += f.weight;
        }
        int k = static_cast<int>(idx % static_cast<uint64_t>(total));
        // spread facets: interleave by stepping
        for (auto& f : prop->facets)
        {
            if (k < f.weight)
            {
                return f;
            }
            k -= f.weight;
        }
        return prop->facets.front();
    }
    static const Facet* facetByName(const std::string& n)
    {
        for (auto& f : prop->facets)
        {
            if (f.name == n)
            {
                return &f;
            }
        }
        return nullptr;
    }
    static uint64_t seedFor(uint64_t idx)
    {
        uint64_t s = baseSeed * 0x9e3779b97f4a7c15ull + fnv(prop->id.data(), prop->id.size());
        splitmix(s);
        s ^= idx * 0xd1342543de82ef95ull;
        splitmix(s);
        return s;
    }

    static Outcome runBody(Case& c, const Facet& f)
    {
        Outcome o;
        try
        {
            f.fn(c);
        }
        catch (const Violation& v)
        {
            o.kind = Outcome::violation;
            o.key = f.name + "/" + v.key;
            o.msg = v.msg;
        }
        catch (const Discard&)
        {
            o.kind = Outcome::discard;
        }
        catch (const Overrun&)
        {
            o.kind = Outcome::discard;
        }
        catch (const std::exception& e)
        {
            o.kind = Outcome::violation;
            o.key = f.name + "/exception:" + (c.shared ? c.shared->op : "");
            o.msg = std::string("unexpected exception: ") + e.what();
        }
        o.choices = c.choices;
        return o;
    }

    static void childLimits(int cpuSeconds)
    {
        rlimit r{};
        getrlimit(RLIMIT_CORE, &r);
        r.rlim_cur = 0;
        setrlimit(RLIMIT_CORE, &r);
#ifndef MK_VARIANT_ASAN
        r.rlim_cur = r.rlim_max = 3ull << 30;
        setrlimit(RLIMIT_AS, &r);
#endif
        if (cpuSeconds > 0)
        {
            r.rlim_cur = cpuSeconds;
            r.rlim_max = cpuSeconds + 5;
            setrlimit(RLIMIT_CPU, &r);
        }
    }

    static std::string readFile(const std::string& p, size_t limit = 6000)
    {
        std::ifstream f(p);
        std::stringstream s;
        s << f.rdbuf();
        auto r = s.str();
        if (r.size() > limit)
        {
            r.resize(limit);
        }
        return r;
    }

    static Shared* newShared()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
        {
            std::perror("mmap");
            std::exit(3);
        }
        return static_cast<Shared*>(p);
    }

    static std::string crashKind(int status, const std::string& err)
    {
        std::string what;
        auto pos = err.find("ERROR: AddressSanitizer: ");
        if (pos != std::string::npos)
        {
            auto s = err.substr(pos + 25, 60);
            what = "asan-" + s.substr(0, s.find_first_of(" \n("));
        }
        else if (err.find("runtime error: ") != std::string::npos)
        {
            what = "ubsan";
        }
        else if (WIFSIGNALED(status))
        {
            what = "signal-" + std::to_string(WTERMSIG(status));
        }
        else
        {
            what = "exit-" + std::to_string(WEXITSTATUS(status));
        }
        return what;
    }

    /// Run one case (given by its choices) in a process of its own
    static Outcome runIsolated(const Facet& f, const std::vector<uint64_t>& choices, bool verbose, std::string* logOut = nullptr)
    {
        static Shared* sh = newShared();
        sh->numChoices = 0;
        sh->op[0] = 0;
        const std::string errFile = tmpDir + "/iso.err";
        int fd[2];
        if (pipe(fd) != 0)
        {
            std::perror("pipe");
            std::exit(3);
        }
        std::fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            childLimits(cpuLimit);
            int e = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(e, 2);
            dup2(e, 1);
            Case c;
            c.shared = sh;
            c.replaying = true;
            c.prefix = choices;
            c.isVerbose = verbose;
            c.thorough = thorough;
            if (verbose)
            {
                c.logFd = open((tmpDir + "/iso.log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            }
            Outcome o = runBody(c, f);
            std::string s;
            auto put = [&](const std::string& x)
            {
                uint64_t n = x.size();
                s.append(reinterpret_cast<char*>(&n), 8);
                s += x;
            };
            s.push_back(static_cast<char>(o.kind));
            put(o.key);
            put(o.msg);
            put(std::string(reinterpret_cast<const char*>(o.choices.data()), o.choices.size() * 8));
            put(c.log.str());
            size_t off = 0;
            while (off < s.size())
            {
                ssize_t w = write(fd[1], s.data() + off, s.size() - off);
                if (w <= 0)
                {
                    break;
                }
                off += static_cast<size_t>(w);
            }
            close(fd[1]);
            _exit(0);
        }
        close(fd[1]);
        std::string s;
        char buf[65536];
        for (;;)
        {
            ssize_t r = read(fd[0], buf, sizeof buf);
            if (r < 0 && errno == EINTR)
            {
                continue;
            }
            if (r <= 0)
            {
                break;
            }
            s.append(buf, static_cast<size_t>(r));
        }
        close(fd[0]);
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        {
        }
        Outcome o;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !s.empty())
        {
            size_t p = 1;
            o.kind = static_cast<Outcome::Kind>(s[0]);
            auto get = [&]()
            {
                uint64_t n;
                std::memcpy(&n, s.data() + p, 8);
                p += 8;
                auto r = s.substr(p, n);
                p += n;
                return r;
            };
            o.key = get();
            o.msg = get();
            auto ch = get();
            o.choices.resize(ch.size() / 8);
            std::memcpy(o.choices.data(), ch.data(), ch.size());
            if (logOut)
            {
                *logOut = get();
            }
            return o;
        }
        if (logOut && verbose)
        {
            *logOut = readFile(tmpDir + "/iso.log", 20000);
        }
        o.choices.assign(sh->choices, sh->choices + sh->numChoices);
        if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL))
        {
            o.kind = Outcome::hang;
            o.key = f.name + "/hang:" + sh->op;
            o.msg = cat("no answer within ", cpuLimit, " s of CPU time during ", sh->op);
            return o;
        }
        const auto err = readFile(errFile);
        o.kind = Outcome::crash;
        o.key = f.name + "/crash:" + sh->op + ":" + crashKind(status, err);
        o.msg = "the process died during " + std::string(sh->op) + "\n" + err;
        return o;
    }

    static bool isFailure(const Outcome& o)
    {
        return o.kind == Outcome::violation || o.kind == Outcome::crash || o.kind == Outcome::hang;
    }

    static bool shortlexLess(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
    {
        if (a.size() != b.size())
        {
            return a.size() < b.size();
        }
        return a < b;
    }

    static Outcome shrink(const Facet& f, Outcome best, double seconds)
    {
        if (best.kind == Outcome::hang)
        {
            return best;
        }
        const auto end = nowMs() + static_cast<int64_t>(seconds * 1000);
        int runs = 0;
        std::set<uint64_t> seen;
        auto attempt = [&](const std::vector<uint64_t>& ch)
        {
            if (nowMs() > end)
            {
                return false;
            }
            const auto h = fnv(ch.data(), ch.size() * 8);
            if (!seen.insert(h).second)
            {
                return false;
            }
            ++runs;
            auto o = runIsolated(f, ch, false);
            if (isFailure(o) && o.key == best.key && shortlexLess(o.choices, best.choices))
            {
                best = o;
                return true;
            }
            return false;
        };
        bool improved = true;
        while (improved && nowMs() < end)
        {
            improved = false;
            for (size_t k : {64ul, 32ul, 16ul, 8ul, 4ul, 3ul, 2ul, 1ul})
            {
                for (size_t i = best.choices.size(); i-- > 0 && nowMs() < end;)
                {
                    if (i + k > best.choices.size())
                    {
                        continue;
                    }
                    auto ch = best.choices;
                    ch.erase(ch.begin() + static_cast<long>(i), ch.begin() + static_cast<long>(i + k));
                    improved |= attempt(ch);
                }
                for (size_t i = 0; i + k <= best.choices.size() && nowMs() < end; i += k)
                {
                    auto ch = best.choices;
                    std::fill(ch.begin() + static_cast<long>(i), ch.begin() + static_cast<long>(i + k), 0);
                    if (ch != best.choices)
                    {
                        improved |= attempt(ch);
                    }
                }
            }
            for (size_t i = 0; i < best.choices.size() && nowMs() < end; ++i)
            {
                uint64_t lo = 0;
                while (i < best.choices.size() && lo < best.choices[i] && nowMs() < end)
                {
                    auto ch = best.choices;
                    ch[i] = lo + (ch[i] - lo) / 2;
                    const auto mid = ch[i];
                    if (attempt(ch))
                    {
                        improved = true;
                    }
                    else
                    {
                        lo = mid + 1;
                    }
                }
                // delete-and-decrement: reduce a length choice together with the data it governs
                if (i < best.choices.size() && best.choices[i] > 0 && best.choices[i] < 64)
                {
                    for (size_t k = 1; k <= 6 && i + 1 + k <= best.choices.size(); ++k)
                    {
                        auto ch = best.choices;
                        ch[i]--;
                        ch.erase(ch.begin() + static_cast<long>(i + 1), ch.begin() + static_cast<long>(i + 1 + k));
                        if (attempt(ch))
                        {
                            improved = true;
                            break;
                        }
                        if (i >= best.choices.size() || best.choices[i] == 0)
                        {
                            break;
                        }
                    }
                }
            }
        }
        std::fprintf(stderr, "shrink: %d runs, %zu choices\n", runs, best.choices.size());
        return best;
    }

    static std::string jsonEscape(const std::string& s)
    {
        std::string r;
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\')
            {
                r += '\\';
                r += static_cast<char>(ch);
            }
            else if (ch == '\n')
            {
                r += "\\n";
            }
            else if (ch < 0x20 || ch > 0x7e)
            {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", ch);
                r += b;
            }
            else
            {
                r += static_cast<char>(ch);
            }
        }
        return r;
    }

    struct Stats
    {
        uint64_t cases = 0, discarded = 0, evaluations = 0, nontrivial = 0;
        std::map<std::string, uint64_t> labels;
        std::vector<std::pair<uint64_t, uint64_t>> hashes; // (hash, caseindex) of non-trivial cases
        struct Failure
        {
            uint64_t idx;
            Outcome o;
        };
        std::vector<Failure> failures;
    };

    static void writeReplay(const std::string& path, const Facet& f, const Outcome& o, const std::string& log)
    {
        std::ofstream out(path);
        out << "# replay file: property=" << prop->id << "\n";
        out << "property " << prop->id << "\nfacet " << f.name << "\ntier " << (thorough ? "thorough" : "quick") << "\nkey " << o.key << "\nchoices " << o.choices.size();
        for (auto ch : o.choices)
        {
            out << " " << ch;
        }
        out << "\n# failure: ";
        std::string m = o.msg;
        std::string l = log;
        auto comment = [](std::string s)
        {
            std::string r;
            for (char ch : s)
            {
                r += ch;
                if (ch == '\n')
                {
                    r += "#   ";
                }
            }
            return r;
        };
        out << comment(m) << "\n# case:\n#   " << comment(l) << "\n";
    }

    static int mainImpl(int argc, char** argv)
    {
        std::map<std::string, std::string> opt;
        std::vector<std::string> known;
        std::string id;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            if (a == "--known")
            {
                known.push_back(argv[++i]);
            }
            else if (a.rfind("--", 0) == 0)
            {
                const auto eq = a.find('=');
                opt[a.substr(2, eq - 2)] = eq == std::string::npos ? "1" : a.substr(eq + 1);
            }
            else
            {
                id = a;
            }
        }
        if (opt.count("list"))
        {
            for (auto& p : registry())
            {
                for (auto& f : p.facets)
                {
                    std::cout << p.id << " " << f.name << "\n";
                }
            }
            return 0;
        }
        for (auto& p : registry())
        {
            if (p.id == id)
            {
                prop = &p;
            }
        }
        if (!prop)
        {
            std::cerr << "unknown property " << id << "\n";
            return 3;
        }
        thorough = opt["tier"] == "thorough";
        if (opt.count("seed"))
        {
            baseSeed = std::stoull(opt["seed"]);
        }
        tmpDir = opt.count("tmp") ? opt["tmp"] : "/tmp";
        const int jobs = opt.count("jobs") ? std::stoi(opt["jobs"]) : 8;
        onlyFacet = opt["facet"];
        if (opt.count("cpu"))
        {
            cpuLimit = std::stoi(opt["cpu"]);
        }

        if (opt.count("replay"))
        {
            std::ifstream in(opt["replay"]);
            std::string w, fname;
            std::vector<uint64_t> ch;
            while (in >> w)
            {
                if (w == "facet")
                {
                    in >> fname;
                }
                else if (w == "choices")
                {
                    size_t n;
                    in >> n;
                    ch.resize(n);
                    for (auto& x : ch)
                    {
                        in >> x;
                    }
                }
                else if (w == "tier")
                {
                    in >> w;
                    thorough = w == "thorough";
                }
                else
                {
                    std::getline(in, w);
                }
            }
            const Facet* f = facetByName(fname);
            if (!f)
            {
                std::cerr << "unknown facet " << fname << "\n";
                return 3;
            }
            std::string log;
            auto o = runIsolated(*f, ch, true, &log);
            std::cout << log << "\n";
            if (isFailure(o))
            {
                std::cout << "FAILED key=" << o.key << "\n"
                          << o.msg << "\n";
                return 1;
            }
            std::cout << (o.kind == Outcome::discard ? "DISCARDED\n" : "PASSED\n");
            return 0;
        }

        uint64_t total = static_cast<uint64_t>(thorough ? prop->thoroughCases : prop->quickCases);
        if (opt.count("cases"))
        {
            total = std::stoull(opt["cases"]);
        }
        const double budget = opt.count("budget") ? std::stod(opt["budget"]) : 1e9;
        const bool all = opt.count("all") > 0;
        const auto started = nowMs();

        // deterministic list of case indices
        std::vector<uint64_t> indices;
        for (uint64_t i = 0; indices.size() < total; ++i)
        {
            if (onlyFacet.empty() || facetOf(i).name == onlyFacet)
            {
                indices.push_back(i);
            }
        }

        struct Slot
        {
            pid_t pid = 0;
            size_t begin = 0, end = 0;
            Shared* sh = nullptr;
            std::string file, err;
            bool killedHang = false;
        };
        std::vector<Slot> slots(static_cast<size_t>(jobs));
        for (size_t i = 0; i < slots.size(); ++i)
        {
            slots[i].sh = newShared();
            slots[i].file = tmpDir + "/blk" + std::to_string(i);
            slots[i].err = tmpDir + "/err" + std::to_string(i);
        }
        const size_t block = std::max<size_t>(1, std::min<size_t>(64, total / (static_cast<size_t>(jobs) * 8) + 1));
        std::vector<std::pair<size_t, size_t>> pending; // re-queued ranges
        size_t nextIdx = 0;
        Stats st;
        std::unordered_set<uint64_t> distinct;
        std::vector<uint64_t> sampleIdx;
        std::map<std::string, int> facetSamples;
        std::map<std::string, uint64_t> facetCases, facetNontrivial;
        bool stop = false, timedOut = false;
        std::map<std::string, uint64_t> knownHits;

        auto launch = [&](Slot& s)
        {
            s.sh->caseIndex = -1;
            s.sh->startedMs = nowMs();
            s.killedHang = false;
            std::fflush(nullptr);
            s.pid = fork();
            if (s.pid != 0)
            {
                return;
            }
            childLimits(0);
            int e = open(s.err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(e, 2);
            dup2(e, 1);
            std::ofstream out(s.file, std::ios::binary | std::ios::trunc);
            auto put64 = [&](uint64_t v)
            { out.write(reinterpret_cast<char*>(&v), 8); };
            auto putS = [&](const std::string& x)
            {
                put64(x.size());
                out.write(x.data(), static_cast<long>(x.size()));
            };
            for (size_t k = s.begin; k < s.end; ++k)
            {
                const auto idx = indices[k];
                s.sh->numChoices = 0;
                s.sh->op[0] = 0;
                s.sh->startedMs = nowMs();
                s.sh->caseIndex = static_cast<int64_t>(k);
                Case c;
                c.shared = s.sh;
                c.thorough = thorough;
                c.seed(seedFor(idx));
                const Facet& f = facetOf(idx);
                Outcome o = runBody(c, f);
                put64(k);
                put64(o.kind);
                put64(c.isNontrivial);
                put64(std::max<uint64_t>(c.evaluations, c.isNontrivial ? 1 : 0));
                put64(fnv(c.choices.data(), c.choices.size() * 8, fnv(f.name.data(), f.name.size())));
                put64(c.labels.size());
                for (auto& l : c.labels)
                {
                    putS(l.first);
                }
                putS(o.key);
                putS(o.msg);
                if (isFailure(o))
                {
                    put64(o.choices.size());
                    for (auto ch : o.choices)
                    {
                        put64(ch);
                    }
                }
                else
                {
                    put64(0);
                }
                out.flush();
            }
            out.close();
            _exit(0);
        };
        int unreproduced = 0;
        auto handleFailure = [&](uint64_t k, Outcome o)
        {
            bool isKnown = false;
            for (auto& kn : known)
            {
                if (o.key == kn)
                {
                    isKnown = true;
                    knownHits[kn]++;
                }
            }
            if (isKnown)
            {
                return;
            }
            if (!all)
            {
                // stop only for a failure that reproduces on its own; the others are noted and the run goes on
                int confirmed = 0;
                for (int r = 0; r < 3; ++r)
                {
                    confirmed += isFailure(runIsolated(facetOf(indices[k]), o.choices, false)) ? 1 : 0;
                }
                if (confirmed < 3)
                {
                    st.labels["unreproduced-failure"]++;
                    if (++unreproduced <= 3)
                    {
                        std::cerr << "note: failure " << o.key << " reproduced " << confirmed << "/3 times; not reported\n"
                                  << o.msg.substr(0, 1000) << "\n";
                    }
                    return;
                }
            }
            st.failures.push_back({k, std::move(o)});
            if (!all)
            {
                stop = true;
            }
            else if (opt.count("stats"))
            {
                std::cerr << "[" << (nowMs() - started) / 1000 << " s, case " << k << "] " << st.failures.back().o.key << std::endl;
            }
        };
        auto collect = [&](Slot& s, int status)
        {
            std::ifstream in(s.file, std::ios::binary);
            auto get64 = [&](uint64_t& v)
            { return static_cast<bool>(in.read(reinterpret_cast<char*>(&v), 8)); };
            auto getS = [&](std::string& x)
            {
                uint64_t n = 0;
                if (!get64(n))
                {
                    return false;
                }
                x.resize(n);
                return n == 0 || static_cast<bool>(in.read(x.data(), static_cast<long>(n)));
            };
            size_t done = s.begin;
            uint64_t k, kind, nt, ev, h, nl;
            while (get64(k))
            {
                get64(kind);
                get64(nt);
                get64(ev);
                get64(h);
                get64(nl);
                std::vector<std::string> ls(nl);
                for (auto& l : ls)
                {
                    getS(l);
                }
                Outcome o;
                o.kind = static_cast<Outcome::Kind>(kind);
                getS(o.key);
                getS(o.msg);
                uint64_t nc = 0;
                if (!get64(nc))
                {
                    break;
                }
                o.choices.resize(nc);
                for (auto& ch : o.choices)
                {
                    get64(ch);
                }
                done = k + 1;
                st.cases++;
                st.evaluations += ev;
                const auto& fn = facetOf(indices[k]).name;
                facetCases[fn]++;
                if (o.kind == Outcome::discard)
                {
                    st.discarded++;
                }
                for (auto& l : ls)
                {
                    st.labels[l]++;
                }
                if (nt && o.kind == Outcome::pass)
                {
                    st.nontrivial++;
                    facetNontrivial[fn]++;
                    if (distinct.insert(h).second && facetSamples[fn] < 2)
                    {
                        facetSamples[fn]++;
                        sampleIdx.push_back(indices[k]);
                    }
                }
                if (isFailure(o))
                {
                    handleFailure(k, o);
                }
            }
            if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
            {
                const auto ci = s.sh->caseIndex;
                if (ci < 0)
                {
                    std::cerr << "worker died before its first case\n" << readFile(s.err);
                    std::exit(3);
                }
                Outcome o;
                o.choices.assign(s.sh->choices, s.sh->choices + s.sh->numChoices);
                const Facet& f = facetOf(indices[static_cast<size_t>(ci)]);
                // re-run in isolation to classify it
                Outcome iso = runIsolated(f, o.choices, false);
                st.cases++;
                if (isFailure(iso))
                {
                    handleFailure(static_cast<uint64_t>(ci), iso);
                }
                else if (!s.killedHang)
                {
                    // not reproducible on its own: an effect of earlier cases in this process; report it only
                    // if the block reproduces it, which would mean a case leaks into the next one.
                    std::cerr << "note: worker died at case " << ci << " (" << f.name << ", " << s.sh->op << ") but the case passes in isolation\n"
                              << readFile(s.err, 1500) << "\n";
                    st.labels["unreproduced-worker-death"]++;
                }
                done = static_cast<size_t>(ci) + 1;
                if (done < s.end)
                {
                    pending.push_back({done, s.end});
                }
            }
        };

        size_t active = 0;
        for (;;)
        {
            if (!timedOut && static_cast<double>(nowMs() - started) / 1000.0 > budget)
            {
                timedOut = true;
            }
            for (auto& s : slots)
            {
                if (s.pid == 0 && !stop && !timedOut)
                {
                    if (!pending.empty())
                    {
                        s.begin = pending.back().first;
                        s.end = pending.back().second;
                        pending.pop_back();
                    }
                    else if (nextIdx < indices.size())
                    {
                        s.begin = nextIdx;
                        s.end = std::min(nextIdx + block, indices.size());
                        nextIdx = s.end;
                    }
                    else
                    {
                        continue;
                    }
                    launch(s);
                    ++active;
                }
            }
            if (active == 0)
            {
                break;
            }
            int status = 0;
            const pid_t p = waitpid(-1, &status, WNOHANG);
            if (p > 0)
            {
                for (auto& s : slots)
                {
                    if (s.pid == p)
                    {
                        s.pid = 0;
                        --active;
                        collect(s, status);
                    }
                }
                continue;
            }
            usleep(3000);
            for (auto& s : slots)
            {
                if (s.pid != 0 && nowMs() - s.sh->startedMs > cpuLimit * 2000)
                {
                    s.killedHang = true;
                    kill(s.pid, SIGKILL);
                }
            }
        }
        const double searchSeconds = static_cast<double>(nowMs() - started) / 1000.0;

        std::sort(st.failures.begin(), st.failures.end(), [](auto& a, auto& b)
                  { return a.idx < b.idx; });
        int rc = 0;
        std::string violationLine;
        if (all)
        {
            std::map<std::string, std::vector<const Stats::Failure*>> byKey;
            for (auto& f : st.failures)
            {
                byKey[f.o.key].push_back(&f);
            }
            for (auto& [k, v] : byKey)
            {
                std::cout << "FAIL " << v.size() << "x key=" << k << "  first case " << v[0]->idx << ": " << v[0]->o.msg.substr(0, 600) << "\n";
                if (opt.count("shrinkall"))
                {
                    const Facet& f = facetOf(indices[v[0]->idx]);
                    auto o = shrink(f, v[0]->o, 15);
                    std::string log;
                    auto fin = runIsolated(f, o.choices, true, &log);
                    std::string name = k;
                    for (auto& ch : name)
                    {
                        if (!isalnum(static_cast<unsigned char>(ch)))
                        {
                            ch = '_';
                        }
                    }
                    writeReplay(tmpDir + "/" + prop->id + "-" + name + ".replay", f, fin, log);
                    std::cout << "   replay " << tmpDir << "/" << prop->id << "-" << name << ".replay\n";
                }
                rc = 1;
            }
        }
        else
        {
            for (auto& fl : st.failures)
            {
                const Facet& f = facetOf(indices[fl.idx]);
                // confirm: the failure has to reproduce every time
                int confirmed = 0;
                Outcome first;
                for (int r = 0; r < 3; ++r)
                {
                    auto o = runIsolated(f, fl.o.choices, false);
                    if (isFailure(o))
                    {
                        ++confirmed;
                        first = o;
                    }
                }
                if (confirmed < 3)
                {
                    std::cerr << "note: failure " << fl.o.key << " reproduced " << confirmed << "/3 times; not reported\n"
                              << fl.o.msg << "\n";
                    st.labels["unreproduced-failure"]++;
                    continue;
                }
                auto o = shrink(f, first, 25);
                std::string log;
                auto fin = runIsolated(f, o.choices, true, &log);
                if (!isFailure(fin))
                {
                    fin = first;
                }
                const std::string path = opt.count("replay-out") ? opt["replay-out"] : tmpDir + "/" + prop->id + ".replay";
                writeReplay(path, f, fin, log);
                std::cout << "failure key=" << fin.key << "\n"
                          << fin.msg.substr(0, 3000) << "\ncase:\n"
                          << log.substr(0, 4000) << "\n";
                violationLine = "VIOLATION property=" + prop->id + " replay=" + path;
                std::cout << violationLine << std::endl;
                rc = 1;
                break;
            }
        }

        // samples, written out
        std::string samples;
        int ns = 0;
        for (auto idx : sampleIdx)
        {
            if (ns >= 8)
            {
                break;
            }
            const Facet& f = facetOf(idx);
            Case c;
            c.seed(seedFor(idx));
            c.thorough = thorough;
            // generate the choices once, in a process of its own, then replay verbosely
            int fd[2];
            if (pipe(fd) != 0)
            {
                break;
            }
            std::fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0)
            {
                close(fd[0]);
                childLimits(cpuLimit);
                c.isVerbose = true;
                runBody(c, f);
                auto s = c.log.str().substr(0, 1500);
                if (write(fd[1], s.data(), s.size()) < 0)
                {
                }
                _exit(0);
            }
            close(fd[1]);
            std::string s;
            char buf[4096];
            ssize_t r;
            while ((r = read(fd[0], buf, sizeof buf)) > 0)
            {
                s.append(buf, static_cast<size_t>(r));
            }
            close(fd[0]);
            int status;
            waitpid(pid, &status, 0);
            samples += cat(ns ? "," : "", "{\"case\":", idx, ",\"facet\":\"", jsonEscape(f.name), "\",\"input\":\"", jsonEscape(s), "\"}");
            ++ns;
        }

        if (opt.count("out"))
        {
            std::ofstream out(opt["out"]);
            out << "{\"cases\":" << st.cases << ",\"planned\":" << total << ",\"discarded\":" << st.discarded << ",\"evaluations\":" << st.evaluations
                << ",\"nontrivial\":" << st.nontrivial << ",\"distinct_nontrivial\":" << distinct.size() << ",\"timed_out\":" << (timedOut ? "true" : "false")
                << ",\"search_s\":" << searchSeconds << ",\"failures\":" << (rc ? 1 : 0) << ",\"rule\":\"" << jsonEscape(prop->rule) << "\",\"labels\":{";
            bool firstLabel = true;
            for (auto& [l, n] : st.labels)
            {
                out << (firstLabel ? "" : ",") << "\"" << jsonEscape(l) << "\":" << n;
                firstLabel = false;
            }
            out << "},\"facets\":{";
            firstLabel = true;
            for (auto& [l, n] : facetCases)
            {
                out << (firstLabel ? "" : ",") << "\"" << jsonEscape(l) << "\":{\"cases\":" << n << ",\"nontrivial\":" << facetNontrivial[l] << "}";
                firstLabel = false;
            }
            out << "},\"known_hits\":{";
            firstLabel = true;
            for (auto& [l, n] : knownHits)
            {
                out << (firstLabel ? "" : ",") << "\"" << jsonEscape(l) << "\":" << n;
                firstLabel = false;
            }
            out << "},\"samples\":[" << samples << "]}\n";
        }
        std::cout << prop->id << ": " << st.cases << " cases, " << st.discarded << " discarded, " << st.nontrivial << " non-trivial (" << distinct.size() << " distinct), "
                  << searchSeconds << " s" << (timedOut ? " (budget reached)" : "") << (rc ? " FAILED" : " ok") << "\n";
        if (opt.count("stats"))
        {
            for (auto& [l, n] : facetCases)
            {
                std::cout << "  facet " << l << ": " << n << " cases, " << facetNontrivial[l] << " non-trivial\n";
            }
            for (auto& [l, n] : st.labels)
            {
                std::cout << "  label " << l << ": " << n << "\n";
            }
        }
        return rc;
    }
} // namespace pbt

int main(int argc, char** argv)
{
    return pbt::mainImpl(argc, argv);
}
