// A small property-based testing engine.
//
// Every case is a pure function of a *choice sequence*: the harness draws all its
// randomness through pbt::Gen, each draw is recorded, and a failing sequence is shrunk
// (chunks deleted, values minimised) and saved as the replay file.  Cases run in forked
// workers that share a page with the parent, so a crash, a sanitizer abort, an exit() or
// an endless loop inside the code under test is an ordinary, shrinkable failure.
#pragma once

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{

struct Failure
{
    std::string msg;
};

// thrown by a harness whose generated case turned out to be outside the domain
struct Discard
{
};

constexpr size_t MAX_CHOICES = 1 << 15;
constexpr size_t MAX_LOG = 1 << 16;

enum State : int
{
    IDLE = 0,
    RUNNING = 1,
    FAILED = 2,
    DONE = 3
};

struct Shm
{
    std::atomic<int> state;
    std::atomic<uint64_t> caseIndex;
    std::atomic<uint64_t> heartbeat;
    uint64_t evaluations;
    uint64_t discarded;
    uint64_t nontrivial;
    uint32_t nChoices;
    uint32_t logLen;
    uint64_t choices[MAX_CHOICES];
    char log[MAX_LOG];
    char msg[8192];
};

class Gen
{
public:

    Gen(Shm* shm, uint64_t seed) : shm_(shm), replay_(nullptr), state_(seed) { reset(); }

    Gen(Shm* shm, const std::vector<uint64_t>* replay) : shm_(shm), replay_(replay), state_(0)
    {
        reset();
    }

    // ---- primitive draw: uniform in [0, n), 0 is the simplest value
    uint64_t below(uint64_t n)
    {
        if (n <= 1) return 0;
        uint64_t v;
        if (replay_)
        {
            v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
            if (v >= n) v = n - 1;
        }
        else if (pos_ >= MAX_CHOICES)
        {
            v = 0;
        }
        else
        {
            v = next() % n;
        }
        if (pos_ < MAX_CHOICES)
        {
            shm_->choices[pos_] = v;
            shm_->nChoices = static_cast<uint32_t>(pos_ + 1);
        }
        pos_++;
        return v;
    }

    // uniform in [lo, hi]; shrinks towards lo
    int64_t range(int64_t lo, int64_t hi)
    {
        if (hi <= lo) return lo;
        return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
    }

    size_t index(size_t n) { return static_cast<size_t>(below(n)); }

    // true with probability num/den; shrinks to false
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }

    bool boolean() { return chance(1, 2); }

    // a size in [lo, hi]: mostly small, sometimes anywhere in the range
    size_t size(size_t lo, size_t hi)
    {
        if (hi <= lo) return lo;
        switch (below(4))
        {
        case 0:
            return static_cast<size_t>(range(int64_t(lo), int64_t(std::min(hi, lo + 3))));
        case 1:
            return static_cast<size_t>(range(int64_t(lo), int64_t(std::min(hi, lo + 8))));
        case 2:
            return static_cast<size_t>(range(int64_t(lo), int64_t(std::min(hi, lo + 24))));
        default:
            return static_cast<size_t>(range(int64_t(lo), int64_t(hi)));
        }
    }

    // picks a weighted alternative; 0 is the simplest
    size_t weighted(std::initializer_list<unsigned> w)
    {
        uint64_t total = 0;
        for (auto x : w) total += x;
        uint64_t v = below(total);
        size_t i = 0;
        for (auto x : w)
        {
            if (v < x) return i;
            v -= x;
            i++;
        }
        return 0;
    }

    template<typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[index(v.size())];
    }

    // a permutation of 0..n-1; the identity is the simplest
    std::vector<size_t> permutation(size_t n)
    {
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; i++) p[i] = i;
        for (size_t i = 0; i + 1 < n; i++) std::swap(p[i], p[i + index(n - i)]);
        return p;
    }

    // a moderate floating point number; a small integer is the simplest
    double real(double mag = 10.0)
    {
        switch (below(5))
        {
        case 0:
            return double(range(0, 4));
        case 1:
            return double(range(-8, 8));
        case 2:
            return double(range(-64, 64)) / 8.0;
        default:
            return (double(below(2000001)) - 1000000.0) / 1000000.0 * mag;
        }
    }

    // strictly positive, well scaled
    double positive(double lo = 0.1, double hi = 4.0)
    {
        switch (below(3))
        {
        case 0:
            return lo <= 1.0 && 1.0 <= hi ? 1.0 : lo;
        default:
            return lo + (hi - lo) * double(below(1000001)) / 1000000.0;
        }
    }

    // any double, including extremes (never NaN unless asked for)
    double anyDouble()
    {
        switch (below(8))
        {
        case 0:
            return double(range(-3, 3));
        case 1:
            return -0.0;
        case 2:
            return std::numeric_limits<double>::max();
        case 3:
            return std::numeric_limits<double>::denorm_min();
        case 4:
            return -std::numeric_limits<double>::infinity();
        default:
            return real(1e6);
        }
    }

    // a string: short identifier mostly, sometimes arbitrary bytes, possibly empty
    std::string text(size_t maxLen = 12)
    {
        static const char* alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
        std::string s;
        size_t mode = weighted({6, 2, 1});
        size_t n = size(mode == 0 ? 1 : 0, maxLen);
        for (size_t i = 0; i < n; i++)
        {
            if (mode == 0) s.push_back(alpha[below(26)]);
            else if (mode == 1) s.push_back(alpha[below(63)]);
            else s.push_back(static_cast<char>(below(256)));
        }
        return s;
    }

    // ---- bookkeeping
    void nontrivial() { nontrivial_ = true; }

    void label(const std::string& l) { labels_.insert(l); }

    template<typename... A>
    void note(const A&... a)
    {
        std::ostringstream os;
        os.precision(17);
        (os << ... << a);
        os << "\n";
        std::string s = os.str();
        for (auto& c : s)
            if ((static_cast<unsigned char>(c) < 32 && c != '\n')
                || static_cast<unsigned char>(c) >= 127)
                c = '?';
        if (shm_->logLen + s.size() < MAX_LOG)
        {
            std::memcpy(shm_->log + shm_->logLen, s.data(), s.size());
            shm_->logLen += static_cast<uint32_t>(s.size());
        }
    }

    bool isNontrivial() const { return nontrivial_; }
    const std::set<std::string>& labels() const { return labels_; }
    size_t used() const { return pos_; }

private:

    void reset()
    {
        pos_ = 0;
        shm_->nChoices = 0;
        shm_->logLen = 0;
        shm_->msg[0] = 0;
    }

    uint64_t next()
    {
        state_ += 0x9E3779B97F4A7C15ull;
        uint64_t z = state_;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    Shm* shm_;
    const std::vector<uint64_t>* replay_;
    uint64_t state_;
    size_t pos_ = 0;
    bool nontrivial_ = false;
    std::set<std::string> labels_;
};

template<typename... A>
[[noreturn]] void fail(const A&... a)
{
    std::ostringstream os;
    os.precision(17);
    (os << ... << a);
    throw Failure {os.str()};
}

#define PBT_CHECK(cond, ...)                                                                       \
    do                                                                                             \
    {                                                                                              \
        if (!(cond)) ::pbt::fail("[" #cond "] ", __VA_ARGS__);                                     \
    }                                                                                              \
    while (false)

// runs f and requires it to throw exactly-or-derived E
#define PBT_THROWS(E, expr, ...)                                                                   \
    do                                                                                             \
    {                                                                                              \
        bool pbtThrown_ = false;                                                                   \
        try                                                                                        \
        {                                                                                          \
            (void)(expr);                                                                          \
        }                                                                                          \
        catch (const E&)                                                                           \
        {                                                                                          \
            pbtThrown_ = true;                                                                     \
        }                                                                                          \
        if (!pbtThrown_) ::pbt::fail("[" #expr "] did not throw " #E ": ", __VA_ARGS__);           \
    }                                                                                              \
    while (false)

struct Property
{
    std::string name;
    std::string rule;
    uint64_t quick;
    uint64_t thorough;
    std::function<void(Gen&)> fn;
    int workers; // 0: all
};

inline std::vector<Property>& registry()
{
    static std::vector<Property> r;
    return r;
}

struct Registrar
{
    Registrar(
        std::string name,
        std::string rule,
        uint64_t quick,
        uint64_t thorough,
        std::function<void(Gen&)> fn,
        int workers = 0
    )
    {
        registry().push_back({name, rule, quick, thorough, fn, workers});
    }
};

// PBT(name, cases in the quick tier, cases in the thorough tier, "what makes a case non-trivial")
#define PBT(NAME, QUICK, THOROUGH, RULE)                                                           \
    static void pbt_##NAME(::pbt::Gen& g);                                                         \
    static ::pbt::Registrar pbt_reg_##NAME(#NAME, RULE, QUICK, THOROUGH, pbt_##NAME);              \
    static void pbt_##NAME([[maybe_unused]] ::pbt::Gen& g)

// a confirmed defect that is not repaired: `present` returns true while it still shows
struct Known
{
    std::string id;
    std::function<bool(std::string&)> present;
};

inline std::vector<Known>& knownRegistry()
{
    static std::vector<Known> r;
    return r;
}

struct KnownRegistrar
{
    KnownRegistrar(std::string id, std::function<bool(std::string&)> f)
    {
        knownRegistry().push_back({id, f});
    }
};

#define PBT_KNOWN(ID)                                                                              \
    static bool pbtk_##ID(std::string& what);                                                      \
    static ::pbt::KnownRegistrar pbtk_reg_##ID(#ID, pbtk_##ID);                                    \
    static bool pbtk_##ID([[maybe_unused]] std::string& what)

// called in every worker before its first case (start a runtime, say)
inline std::function<void()>& workerSetup()
{
    static std::function<void()> f;
    return f;
}

inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline uint64_t hashString(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

inline std::string jsonEscape(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else o += static_cast<char>(c);
    }
    return o;
}

// ---------------------------------------------------------------- execution

inline Shm* newShm()
{
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        std::_Exit(3);
    }
    return new (p) Shm();
}

// runs one case; returns false and fills shm->msg on failure
inline bool runCase(const Property& p, Gen& g, Shm* shm)
{
    auto bad = [&](const std::string& m)
    {
        std::snprintf(shm->msg, sizeof shm->msg, "%s", m.c_str());
        return false;
    };
    try
    {
        p.fn(g);
    }
    catch (const Failure& f)
    {
        return bad(f.msg);
    }
    catch (const Discard&)
    {
        shm->discarded++;
        return true;
    }
    catch (const std::exception& e)
    {
        return bad(std::string("unexpected exception: ") + e.what());
    }
    catch (...)
    {
        return bad("unexpected exception of unknown type");
    }
    return true;
}

inline void quiet(const char* errFile)
{
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    if (errFile)
    {
        int e = open(errFile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (e >= 0) dup2(e, 2);
    }
    else dup2(n, 2);
}

constexpr int CODE_FAIL = 77;
constexpr double CASE_CPU_LIMIT = 60.0;   // CPU seconds in one case: it does not terminate
constexpr double CASE_WALL_LIMIT = 240.0; // no progress at all: blocked for ever

struct Outcome
{
    bool failed = false;
    std::string msg;
};

inline double cpuOf(pid_t pid)
{
    clockid_t c;
    if (clock_getcpuclockid(pid, &c)) return 0;
    timespec t;
    if (clock_gettime(c, &t)) return 0;
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

inline std::string describe(int status, Shm* shm)
{
    if (WIFEXITED(status))
    {
        if (WEXITSTATUS(status) == CODE_FAIL && shm->msg[0]) return shm->msg;
        if (WEXITSTATUS(status) == 99) return "sanitizer report (memory error or undefined behaviour)";
        return "the process exited unexpectedly with status " + std::to_string(WEXITSTATUS(status));
    }
    if (WIFSIGNALED(status))
        return std::string("the process died from signal ") + std::to_string(WTERMSIG(status)) + " ("
             + strsignal(WTERMSIG(status)) + ")";
    return "unknown end";
}

// runs one recorded choice sequence in a process of its own
inline Outcome
runIsolated(const Property& p, const std::vector<uint64_t>& ch, Shm* shm, const char* errFile)
{
    shm->state = RUNNING;
    shm->msg[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        quiet(errFile);
        if (workerSetup()) workerSetup()();
        Gen g(shm, &ch);
        bool ok = runCase(p, g, shm);
        fflush(nullptr);
        shm->state = ok ? DONE : FAILED;
        _exit(ok ? 0 : CODE_FAIL);
    }
    int st = 0;
    double start = now();
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        double lim = now() - start;
        if (cpuOf(pid) > CASE_CPU_LIMIT || lim > CASE_WALL_LIMIT)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return {true, "the case does not terminate"};
        }
        usleep(lim < 0.05 ? 300 : 5000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->state == DONE) return {};
    return {true, describe(st, shm)};
}

struct Result
{
    std::string name, rule;
    uint64_t evaluations = 0, discarded = 0, nontrivialEvals = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    bool failed = false;
    std::string failMsg;
    std::string replayPath;
    bool timedOut = false;
    uint64_t shrinkRuns = 0;
    bool unreproducible = false;
    std::string unconfirmed; // seen once, never again: reported in the evidence, not as a violation
};

struct Options
{
    std::string prop = "X00";
    std::string tier = "quick";
    uint64_t seed = 1;
    std::string out;
    std::string replayDir = ".";
    std::string only;
    std::string replay;
    int jobs = 8;
    double budget = 600;
    double scale = 1.0;
};

inline std::vector<uint64_t>
shrink(const Property& p, std::vector<uint64_t> best, Shm* shm, Result& res, double deadline)
{
    uint64_t budget = 3000;
    auto tryIt = [&](const std::vector<uint64_t>& c)
    {
        if (budget == 0 || now() > deadline) return false;
        budget--;
        res.shrinkRuns++;
        auto o = runIsolated(p, c, shm, nullptr);
        if (!o.failed) return false;
        // what the failing run really consumed
        size_t n = std::min<size_t>(shm->nChoices, c.size());
        best.assign(shm->choices, shm->choices + n);
        while (!best.empty() && best.back() == 0) best.pop_back();
        return true;
    };
    bool progress = true;
    int rounds = 0;
    while (progress && budget && rounds++ < 6)
    {
        progress = false;
        for (size_t k : {256u, 64u, 16u, 8u, 4u, 3u, 2u, 1u})
        {
            if (k > best.size()) continue;
            for (int64_t i = int64_t(best.size()) - int64_t(k); i >= 0 && budget;)
            {
                if (size_t(i) + k > best.size())
                {
                    i = int64_t(best.size()) - int64_t(k);
                    if (i < 0) break;
                }
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + int64_t(k));
                if (tryIt(c))
                {
                    progress = true;
                    i -= 1;
                }
                else i -= std::max<int64_t>(1, int64_t(k) / 2);
            }
        }
        for (size_t i = 0; i < best.size() && budget; i++)
        {
            if (best[i] == 0) continue;
            auto c = best;
            c[i] = 0;
            if (tryIt(c))
            {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            while (lo + 1 < hi && budget && i < best.size())
            {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best;
                c[i] = mid;
                if (tryIt(c))
                {
                    progress = true;
                    hi = mid;
                }
                else lo = mid;
            }
        }
    }
    return best;
}

inline void writeReplay(
    const std::string& path,
    const Options& o,
    const Property& p,
    const std::vector<uint64_t>& ch,
    const std::string& msg,
    const std::string& log,
    const std::string& err
)
{
    std::ofstream f(path);
    f << "property " << o.prop << "\ncheck " << p.name << "\nseed " << o.seed << "\ntier " << o.tier
      << "\nchoices " << ch.size();
    for (auto c : ch) f << " " << c;
    f << "\n# " << "replay with: python3 vp/run.py " << o.prop << " --replay " << path << "\n";
    std::istringstream m(msg), l(log), e(err);
    std::string line;
    while (std::getline(m, line)) f << "# failure: " << line << "\n";
    while (std::getline(l, line)) f << "# trace: " << line << "\n";
    int k = 0;
    while (std::getline(e, line) && k++ < 60) f << "# stderr: " << line << "\n";
}

// the cases of one worker, in order, in this process
inline bool workerBody(
    const Property& p,
    uint64_t n,
    uint64_t base,
    int w,
    int jobs,
    Shm* shm,
    double deadline,
    const std::string& dir
)
{
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    bool ok = true;
    for (uint64_t i = uint64_t(w); i < n; i += uint64_t(jobs))
    {
        if (now() > deadline) break;
        shm->caseIndex = i;
        shm->heartbeat++;
        shm->state = RUNNING;
        Gen g(shm, mix(base, i));
        ok = runCase(p, g, shm);
        if (!ok) break;
        shm->evaluations++;
        if (g.isNontrivial())
        {
            shm->nontrivial++;
            distinct.insert(hashString(std::string(
                reinterpret_cast<const char*>(shm->choices), shm->nChoices * sizeof(uint64_t)
            )));
            if (samples.size() < 2 && w < 3)
                samples.push_back(std::string(shm->log, std::min<size_t>(shm->logLen, 1500)));
        }
        for (auto& l : g.labels()) labels[l]++;
    }
    if (!ok)
    {
        shm->state = FAILED;
        return false;
    }
    std::ofstream f(dir + "/w" + std::to_string(w), std::ios::binary);
    f << distinct.size() << " " << labels.size() << " " << samples.size() << "\n";
    for (auto h : distinct) f << h << "\n";
    for (auto& [k, v] : labels) f << v << " " << k << "\n";
    for (auto& s : samples)
    {
        f << s.size() << "\n";
        f.write(s.data(), std::streamsize(s.size()));
        f << "\n";
    }
    f.close();
    shm->state = DONE;
    return true;
}

inline Result runProperty(const Property& p, const Options& o, double deadline)
{
    Result res;
    res.name = p.name;
    res.rule = p.rule;
    const uint64_t n = std::max<uint64_t>(
        1, uint64_t(double(o.tier == "thorough" ? p.thorough : p.quick) * o.scale)
    );
    int jobs = p.workers > 0 ? std::min(p.workers, o.jobs) : o.jobs;
    jobs = int(std::min<uint64_t>(uint64_t(jobs), n));
    const uint64_t base = mix(mix(o.seed, hashString(o.prop)), hashString(p.name));
    char dirTemplate[] = "/tmp/pbtXXXXXX";
    std::string dir = mkdtemp(dirTemplate);

    std::vector<Shm*> shms;
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < jobs; w++)
    {
        Shm* shm = newShm();
        shms.push_back(shm);
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            quiet(nullptr);
            if (workerSetup()) workerSetup()();
            _exit(workerBody(p, n, base, w, jobs, shm, deadline, dir) ? 0 : CODE_FAIL);
        }
        pids.push_back(pid);
    }

    // wait, watching for failures and for cases that never end
    std::vector<bool> alive(size_t(jobs), true);
    std::vector<uint64_t> beat(size_t(jobs), 0);
    std::vector<double> cpuAt(size_t(jobs), 0), wallAt(size_t(jobs), now());
    int failedWorker = -1;
    std::string failMsg;
    bool hang = false;
    int left = jobs;
    while (left > 0 && failedWorker < 0)
    {
        for (int w = 0; w < jobs && failedWorker < 0; w++)
        {
            auto W = size_t(w);
            if (!alive[W]) continue;
            int st = 0;
            pid_t r = waitpid(pids[W], &st, WNOHANG);
            if (r == pids[W])
            {
                alive[W] = false;
                left--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && shms[W]->state == DONE))
                {
                    failedWorker = w;
                    failMsg = describe(st, shms[W]);
                }
                continue;
            }
            uint64_t b = shms[W]->heartbeat;
            double c = cpuOf(pids[W]);
            if (b != beat[W])
            {
                beat[W] = b;
                cpuAt[W] = c;
                wallAt[W] = now();
            }
            else if (b > 0 && (c - cpuAt[W] > CASE_CPU_LIMIT || now() - wallAt[W] > CASE_WALL_LIMIT))
            {
                failedWorker = w;
                failMsg = "the case does not terminate";
                hang = true;
            }
        }
        if (left > 0 && failedWorker < 0) usleep(5000);
    }
    for (int w = 0; w < jobs; w++)
        if (alive[size_t(w)])
        {
            kill(pids[size_t(w)], SIGKILL);
            int st;
            waitpid(pids[size_t(w)], &st, 0);
        }

    for (int w = 0; w < jobs; w++)
    {
        res.evaluations += shms[size_t(w)]->evaluations;
        res.discarded += shms[size_t(w)]->discarded;
        res.nontrivialEvals += shms[size_t(w)]->nontrivial;
        std::ifstream f(dir + "/w" + std::to_string(w), std::ios::binary);
        size_t nd, nl, ns;
        if (f >> nd >> nl >> ns)
        {
            for (size_t i = 0; i < nd; i++)
            {
                uint64_t h;
                f >> h;
                res.distinct.insert(h);
            }
            for (size_t i = 0; i < nl; i++)
            {
                uint64_t c;
                f >> c;
                f.get();
                std::string l;
                std::getline(f, l);
                res.labels[l] += c;
            }
            for (size_t i = 0; i < ns; i++)
            {
                size_t len;
                f >> len;
                f.get();
                std::string s(len, ' ');
                f.read(s.data(), std::streamsize(len));
                res.samples.push_back(s);
            }
        }
        unlink((dir + "/w" + std::to_string(w)).c_str());
    }
    if (res.evaluations < n) res.timedOut = failedWorker < 0;

    if (failedWorker >= 0)
    {
        Shm* fs = shms[size_t(failedWorker)];
        std::vector<uint64_t> ch(fs->choices, fs->choices + fs->nChoices);
        std::string log(fs->log, fs->logLen);
        const uint64_t failCase = fs->caseIndex;
        Shm* shm = newShm();
        res.failed = true;
        res.failMsg = failMsg;
        std::string errFile = dir + "/stderr";
        // does the recorded case fail on its own?
        int again = 0;
        const int tries = hang ? 1 : 3;
        for (int i = 0; i < tries; i++)
        {
            auto r = runIsolated(p, ch, shm, errFile.c_str());
            if (r.failed)
            {
                again++;
                res.failMsg = r.msg;
            }
        }
        std::vector<uint64_t> best = ch;
        if (again == tries && !hang)
        {
            best = shrink(p, ch, shm, res, now() + 90);
            // the shrunk case must fail three times over, else keep the original
            int k = 0;
            for (int i = 0; i < 3; i++) k += runIsolated(p, best, shm, nullptr).failed;
            if (k < 3) best = ch;
        }
        if (again > 0)
        {
            auto fin = runIsolated(p, best, shm, errFile.c_str());
            if (fin.failed)
            {
                res.failMsg = fin.msg;
                log.assign(shm->log, shm->logLen);
            }
        }
        else
        {
            // not on its own: does it need the cases run before it in the same process?
            res.unreproducible = true;
            int back = 0;
            for (int t = 0; t < 2 && !back; t++)
            {
                Shm* h = newShm();
                fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    quiet(nullptr);
                    alarm(300);
                    if (workerSetup()) workerSetup()();
                    _exit(workerBody(p, n, base, failedWorker, jobs, h, now() + 250, dir) ? 0 : CODE_FAIL);
                }
                int st;
                waitpid(pid, &st, 0);
                unlink((dir + "/w" + std::to_string(failedWorker)).c_str());
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                {
                    back++;
                    res.failMsg = describe(st, h);
                    log.assign(h->log, h->logLen);
                }
                munmap(h, sizeof(Shm));
            }
            if (!back)
            {
                res.failed = false;
                res.unconfirmed = failMsg;
            }
            log += "\n(the case fails only after the cases before it in its worker: seed "
                 + std::to_string(o.seed) + ", worker " + std::to_string(failedWorker) + " of "
                 + std::to_string(jobs) + ", case " + std::to_string(failCase) + ")";
        }
        std::string err;
        {
            std::ifstream f(errFile);
            std::stringstream ss;
            ss << f.rdbuf();
            err = ss.str();
        }
        if (res.failed) mkdir(o.replayDir.c_str(), 0755);
        if (res.failed) res.replayPath = o.replayDir + "/" + o.prop + "-" + p.name + ".replay";
        if (res.failed) writeReplay(res.replayPath, o, p, best, res.failMsg, log, err);
        unlink(errFile.c_str());
        munmap(shm, sizeof(Shm));
    }
    for (auto* s : shms) munmap(s, sizeof(Shm));
    rmdir(dir.c_str());
    return res;
}

inline int replayMain(const Options& o)
{
    std::ifstream f(o.replay);
    std::string key, prop, check, tier;
    uint64_t seed;
    size_t n;
    if (!(f >> key >> prop >> key >> check >> key >> seed >> key >> tier >> key >> n))
    {
        std::cerr << "cannot read " << o.replay << "\n";
        return 2;
    }
    std::vector<uint64_t> ch(n);
    for (auto& c : ch) f >> c;
    for (auto& p : registry())
        if (p.name == check)
        {
            Shm* shm = newShm();
            auto r = runIsolated(p, ch, shm, "/dev/stderr");
            std::cout << std::string(shm->log, shm->logLen);
            std::cout << (r.failed ? "FAILS: " + r.msg : std::string("passes")) << "\n";
            return r.failed ? 1 : 0;
        }
    return 3; // not this binary
}

inline int mainImpl(int argc, char** argv)
{
    Options o;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") o.prop = v;
        else if (k == "--tier") o.tier = v;
        else if (k == "--seed") o.seed = std::stoull(v);
        else if (k == "--out") o.out = v;
        else if (k == "--replay-dir") o.replayDir = v;
        else if (k == "--only") o.only = v;
        else if (k == "--replay") o.replay = v;
        else if (k == "--jobs") o.jobs = std::stoi(v);
        else if (k == "--budget") o.budget = std::stod(v);
        else if (k == "--scale") o.scale = std::stod(v);
    }
    signal(SIGPIPE, SIG_IGN);
    if (!o.replay.empty()) return replayMain(o);

    double start = now();
    std::vector<Result> results;
    bool failed = false;
    size_t left = registry().size();
    for (auto& p : registry())
    {
        if (!o.only.empty() && o.only != p.name)
        {
            left--;
            continue;
        }
        double rest = o.budget - (now() - start);
        // every property gets a fair share of what is left
        double share = std::max(5.0, rest / double(left) * (left > 1 ? 1.5 : 1.0));
        auto t0 = now();
        results.push_back(runProperty(p, o, now() + std::min(share, std::max(5.0, rest))));
        left--;
        auto& r = results.back();
        std::cerr << o.prop << " " << p.name << ": " << r.evaluations << " cases, "
                  << r.distinct.size() << " distinct non-trivial, " << (now() - t0) << " s"
                  << (r.failed ? "  FAILED: " + r.failMsg : std::string())
                  << (r.timedOut ? " (time share used up)" : "") << "\n";
        if (r.failed)
        {
            failed = true;
            break;
        }
    }
    std::vector<std::pair<std::string, std::string>> known;
    if (o.only.empty())
        for (auto& k : knownRegistry())
        {
            int fd[2];
            if (pipe(fd)) continue;
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                alarm(60);
                close(fd[0]);
                quiet(nullptr);
                if (workerSetup()) workerSetup()();
                std::string what;
                bool present = true;
                try
                {
                    present = k.present(what);
                }
                catch (const std::exception& e)
                {
                    what = std::string("exception: ") + e.what();
                }
                std::string m = (present ? "P" : "A") + what;
                (void)!write(fd[1], m.data(), m.size());
                _exit(0);
            }
            close(fd[1]);
            std::string m;
            char b[512];
            ssize_t r;
            while ((r = read(fd[0], b, sizeof b)) > 0) m.append(b, size_t(r));
            close(fd[0]);
            int st;
            waitpid(pid, &st, 0);
            if (m.empty()) m = "Pthe process ended abnormally";
            if (m[0] == 'P') known.push_back({k.id, m.substr(1)});
        }

    std::ofstream f(o.out.empty() ? "/dev/stdout" : o.out);
    f << "{\"checks\":[";
    bool first = true;
    for (auto& r : results)
    {
        f << (first ? "" : ",") << "\n{\"name\":\"" << r.name << "\",\"rule\":\"" << jsonEscape(r.rule)
          << "\",\"evaluations\":" << r.evaluations << ",\"discarded\":" << r.discarded
          << ",\"nontrivial_evaluations\":" << r.nontrivialEvals
          << ",\"distinct_nontrivial\":" << r.distinct.size()
          << ",\"timed_out\":" << (r.timedOut ? "true" : "false")
          << ",\"failed\":" << (r.failed ? "true" : "false") << ",\"message\":\""
          << jsonEscape(r.failMsg) << "\",\"replay\":\"" << jsonEscape(r.replayPath)
          << "\",\"shrink_runs\":" << r.shrinkRuns
          << ",\"needs_history\":" << (r.unreproducible ? "true" : "false") << ",\"unconfirmed\":\"" << jsonEscape(r.unconfirmed)
          << "\",\"labels\":{";
        bool fl = true;
        for (auto& [k, v] : r.labels)
        {
            f << (fl ? "" : ",") << "\"" << jsonEscape(k) << "\":" << v;
            fl = false;
        }
        f << "},\"samples\":[";
        fl = true;
        for (auto& s : r.samples)
        {
            f << (fl ? "" : ",") << "\"" << jsonEscape(s) << "\"";
            fl = false;
        }
        f << "]}";
        first = false;
    }
    f << "],\n\"known\":[";
    first = true;
    for (auto& [id, w] : known)
    {
        f << (first ? "" : ",") << "{\"id\":\"" << jsonEscape(id) << "\",\"what\":\"" << jsonEscape(w)
          << "\"}";
        first = false;
    }
    f << "]}\n";
    return failed ? 1 : 0;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
#endif
