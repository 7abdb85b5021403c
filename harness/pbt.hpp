// A small property-based testing core (choice-sequence style, in the manner of Hypothesis).
//
// Every random decision of a case is one entry of a "tape" of integers. A case is a pure function of the
// code under test and its tape, so a tape is a complete reproduction, and shrinking edits the tape.
// The tape is written through to a shared memory mapped file, so it survives crashes and hangs.
// Orchestration (sharding over processes, shrinking, replay, evidence) is done by /verif/check.py.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <iterator>
#include <type_traits>
#include <limits>
#include <unordered_set>
#include <chrono>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace pbt
{
    using u64 = std::uint64_t;

    struct Failure { std::string msg; };

    inline u64 splitmix(u64& s) { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    inline u64 hash_str(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }

    // Coverage of a case (guided search only): how often the blocks of the code under test were entered, by hash.
    #ifdef PBT_COV
    inline unsigned char g_cov[1u << 17];
    #endif

    constexpr size_t TAPE_CAP = 1u << 20;
    struct State { u64 magic; volatile u64 index; volatile u64 len; volatile u64 done; u64 tape[TAPE_CAP]; };
    inline State* g_state = nullptr;

    class Case
    {
    public:
        bool replay = false;
        std::vector<u64> tape;      // replay: the tape to follow
        bool extend = false;        // after the end of the tape: random choices (guided search), not the simplest ones
        size_t pos = 0;
        u64 prng = 0;
        u64 h = 0xcbf29ce484222325ull;
        bool is_nontrivial = false;
        std::vector<std::string> labels;
        std::ostringstream os;

        // A choice in [0, n), or any 64 bit value if n == 0. 0 is the simplest choice.
        u64 raw(u64 n)
        {
            u64 v;
            if (replay) v = pos < tape.size() ? tape[pos] : extend ? splitmix(prng) : 0;
            else v = splitmix(prng);
            if (n) v %= n;
            if (g_state && pos < TAPE_CAP) { g_state->tape[pos] = v; g_state->len = pos + 1; }
            pos++;
            h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29;
            return v;
        }

        template<typename Int> Int range(Int lo, Int hi) // inclusive, simplest is lo
        {
            if (hi <= lo) return lo;
            const u64 n = u64(hi) - u64(lo) + 1; // 0 for the full 64 bit range
            return Int(u64(lo) + raw(n));
        }
        bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; } // simplest is false
        bool flip() { return raw(2); }

        // A size in [lo, hi], small sizes being more likely, all sizes being possible.
        // Like size(lo, hi), but once in a while up to far.
        size_t wide(size_t lo, size_t hi, size_t far) { return chance(1, 48) ? range<size_t>(hi, far) : size(lo, hi); }
        size_t size(size_t lo, size_t hi)
        {
            if (hi <= lo) return lo;
            const size_t span = hi - lo;
            switch (raw(4))
            {
                case 0:  return lo + raw(std::min<u64>(span, 4) + 1);
                case 1:  return lo + raw(std::min<u64>(span, 12) + 1);
                case 2:  return lo + raw(std::min<u64>(span, 40) + 1);
                default: return lo + raw(span + 1);
            }
        }

        double unit() { return double(raw(u64(1) << 53)) * 0x1p-53; }       // [0, 1)
        double real(double lo, double hi) { return lo + (hi - lo) * unit(); }

        template<typename C> auto& pick(C& c) { return c[raw(c.size())]; }
        template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size())); }

        template<typename T = size_t> std::vector<T> perm(size_t n) // simplest is the identity
        {
            std::vector<T> v(n);
            for (size_t i = 0; i < n; i++) v[i] = T(i);
            for (size_t i = 0; i + 1 < n; i++) std::swap(v[i], v[i + raw(n - i)]);
            return v;
        }

        void nontrivial(bool b = true) { is_nontrivial |= b; }
        void label(std::string s) { labels.push_back(std::move(s)); }
        template<typename T> Case& show(const char* name, const T& v) { os << name << '=' << v << ' '; return *this; }
        template<typename T> Case& showv(const char* name, const T& v) { os << name << "=["; size_t k = 0; for (const auto& e : v) { if (k++ > 60) { os << "..."; break; } os << +e << ' '; } os << "] "; return *this; }
    };

    template<typename... A> [[noreturn]] void fail(const A&... a) { std::ostringstream s; s.precision(17); (s << ... << a); throw Failure{ s.str() }; }

    template<typename V> std::string str(const V& v) { std::ostringstream s; s.precision(17); s << '['; size_t k = 0; for (const auto& e : v) { if (k++ > 100) { s << "..."; break; } s << +e << ' '; } s << ']'; return s.str(); }

    #define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail("check failed: " #cond "; " __VA_OPT__(,) __VA_ARGS__); } while (0)

    struct Prop { std::string name; u64 quick; u64 thorough; std::function<void(Case&)> fn; };
    inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
    struct Reg { Reg(const char* n, u64 q, u64 t, std::function<void(Case&)> f) { props().push_back({ n, q, t, std::move(f) }); } };

    inline std::string& rule() { static std::string r; return r; }
    struct RuleReg { RuleReg(const char* r) { rule() = r; } };
    inline std::vector<std::string>& assumptions() { static std::vector<std::string> a; return a; }
    struct AssumeReg { AssumeReg(const char* r) { assumptions().push_back(r); } };

    // Called before every case (reset of global state of the code under test).
    inline std::function<void()>& before_case() { static std::function<void()> f; return f; }
    struct BeforeReg { BeforeReg(std::function<void()> f) { before_case() = std::move(f); } };

    #define PBT_PROP(name, quick, thorough) \
        static void pbt_prop_##name(::pbt::Case& c); \
        static ::pbt::Reg pbt_reg_##name(#name, quick, thorough, pbt_prop_##name); \
        static void pbt_prop_##name([[maybe_unused]] ::pbt::Case& c)
    #define PBT_RULE(text) static ::pbt::RuleReg pbt_rule_reg(text)
    #define PBT_CAT2(a, b) a##b
    #define PBT_CAT(a, b) PBT_CAT2(a, b)
    #define PBT_ASSUME(text) static ::pbt::AssumeReg PBT_CAT(pbt_assume_reg, __LINE__)(text)

    inline std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); } else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += char(ch); }
        return o + "\"";
    }

    // Runs one case. Returns true if it passed, the message in msg otherwise.
    inline bool run_case(const Prop& p, Case& c, std::string& msg)
    {
        if (before_case()) before_case()();
        try { p.fn(c); return true; }
        catch (const Failure& f) { msg = f.msg; }
        catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
        catch (...) { msg = "unexpected exception of unknown type"; }
        if (msg.size() > 4000) msg.resize(4000);
        return false;
    }

    // Guided search: tapes that reached something new, and mutations of them.
    struct Corpus
    {
        std::vector<std::vector<u64>> tapes;
        std::vector<unsigned char> seen = std::vector<unsigned char>(1u << 17);
        u64 features = 0, prng = 1;
        u64 rnd(u64 n) { return splitmix(prng) % n; }

        void clear()
        {
        #ifdef PBT_COV
            std::memset(g_cov, 0, sizeof g_cov);
        #endif
        }
        void note() // after a case: keeps its tape if it entered a block for the first time, or a new number of times
        {
        #ifdef PBT_COV
            bool fresh = false;
            for (size_t i = 0; i < sizeof g_cov; i += 8)
            {
                u64 w; std::memcpy(&w, g_cov + i, 8); if (!w) continue;
                for (size_t j = i; j < i + 8; j++)
                {
                    const unsigned n = g_cov[j]; if (!n) continue;
                    const unsigned char bit = n < 4 ? 1u << (n - 1) : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32 : n < 128 ? 64 : 128;
                    if (!(seen[j] & bit)) { seen[j] |= bit; features++; fresh = true; }
                }
            }
            if (fresh && g_state && g_state->len < 20000)
            {
                std::vector<u64> t(g_state->tape, g_state->tape + g_state->len);
                if (tapes.size() < 3000) tapes.push_back(std::move(t)); else tapes[rnd(tapes.size())] = std::move(t);
            }
        #endif
        }
        std::vector<u64> mutant()
        {
            const size_t m = tapes.size();
            std::vector<u64> t = tapes[rnd(2) ? m - 1 - rnd(std::min<size_t>(m, 50)) : rnd(m)];
            for (u64 k = 1 + (rnd(3) ? rnd(3) : rnd(12)); k--;)
            {
                if (t.empty()) break;
                const size_t i = rnd(t.size()), len = 1 + rnd(std::min<size_t>(t.size() - i, rnd(4) ? 8 : 64));
                switch (rnd(9))
                {
                    case 0: t[i] = splitmix(prng); break;
                    case 1: t[i] += 1 + rnd(4); break;
                    case 2: t[i] -= std::min<u64>(t[i], 1 + rnd(4)); break;
                    case 3: t[i] = rnd(2) ? 0 : ~u64(0); break;
                    case 4: t[i] = t[rnd(t.size())]; break;
                    case 5: t.erase(t.begin() + i, t.begin() + i + len); break;
                    case 6: { const std::vector<u64> b(t.begin() + i, t.begin() + i + len); const size_t at = rnd(t.size() + 1); t.insert(t.begin() + at, b.begin(), b.end()); break; }
                    case 7: t.resize(i); break; // goes on with random choices
                    default: { const auto& o = tapes[rnd(m)]; const size_t j = rnd(2) ? std::min(i, o.size()) : rnd(o.size() + 1); t.resize(i); t.insert(t.end(), o.begin() + j, o.end()); break; }
                }
            }
            return t;
        }
    };

    inline State* map_state(const std::string& path)
    {
        int fd = ::open(path.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ::ftruncate(fd, sizeof(State))) { std::perror("state"); std::exit(70); }
        void* p = ::mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) { std::perror("mmap"); std::exit(70); }
        ::close(fd);
        return static_cast<State*>(p);
    }

    // What a process started by a case does (with PBT_CHILD=number in its environment), before anything else.
    inline std::function<void(u64)>& child_fn() { static std::function<void(u64)> f; return f; }
    struct ChildReg { ChildReg(std::function<void(u64)> f) { child_fn() = std::move(f); } };
    // Starts this program in a new process, returns what it prints.
    inline std::string run_child(u64 k)
    {
        char self[4096]; const auto n = ::readlink("/proc/self/exe", self, sizeof self - 1); if (n <= 0) return {}; self[n] = 0;
        FILE* f = ::popen(("PBT_CHILD=" + std::to_string(k) + " exec '" + self + "'").c_str(), "r"); if (!f) return {};
        std::string r; char buf[4096]; while (const size_t m = std::fread(buf, 1, sizeof buf, f)) r.append(buf, m);
        ::pclose(f); return r;
    }

    inline int worker_main(int argc, char** argv)
    {
        std::map<std::string, std::string> a;
        for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
        auto num = [&](const char* k, u64 d) { return a.count(k) ? std::strtoull(a[k].c_str(), nullptr, 10) : d; };

        if (const char* k = std::getenv("PBT_CHILD"); k && child_fn()) { child_fn()(std::strtoull(k, nullptr, 10)); std::fflush(stdout); std::_Exit(0); }

        if (a.count("--list"))
        {
            std::printf("{\"rule\":%s,\"assumptions\":[", jstr(rule()).c_str());
            for (size_t i = 0; i < assumptions().size(); i++) std::printf("%s%s", i ? "," : "", jstr(assumptions()[i]).c_str());
            std::printf("],\"props\":[");
            for (size_t i = 0; i < props().size(); i++) std::printf("%s{\"name\":%s,\"quick\":%llu,\"thorough\":%llu}", i ? "," : "", jstr(props()[i].name).c_str(), (unsigned long long)props()[i].quick, (unsigned long long)props()[i].thorough);
            std::printf("]}\n");
            return 0;
        }

        const std::string name = a["--prop"];
        const Prop* p = nullptr;
        for (const auto& q : props()) if (q.name == name) p = &q;
        if (!p) { std::fprintf(stderr, "no such property %s\n", name.c_str()); return 70; }
        if (a.count("--state")) g_state = map_state(a["--state"]);

        if (a.count("--replay"))
        {
            Case c; c.replay = true;
            std::ifstream in(a["--replay"]);
            u64 v; while (in >> v) c.tape.push_back(v);
            std::string msg;
            const bool ok = run_case(*p, c, msg);
            std::printf("{\"ok\":%s,\"msg\":%s,\"desc\":%s,\"used\":%zu}\n", ok ? "true" : "false", jstr(msg).c_str(), jstr(c.os.str().substr(0, 6000)).c_str(), c.pos);
            std::fflush(stdout);
            std::_Exit(ok ? 0 : 10);
        }

        const u64 seed = num("--seed", 1), from = num("--from", 0), to = num("--to", 0), step = num("--step", 1);
        const u64 max_s = num("--max-s", 1000000);
        const auto t0 = std::chrono::steady_clock::now();
        u64 done = 0, nontriv = 0;
        std::unordered_set<u64> distinct;
        std::map<std::string, u64> labels;
        std::vector<std::string> samples;
        std::ofstream out(a["--out"]);
        bool failed = false;
        const bool guided = num("--guided", 0);
        Corpus corpus; corpus.prng = seed * 1000003 + from;
        for (u64 i = from; i < to && !failed; i += step)
        {
            // A time cap only bounds how much is explored, it never decides a verdict.
            if ((done & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > double(max_s)) break;
            if (g_state) { g_state->len = 0; g_state->index = i; }
            Case c;
            u64 s = seed * 0x2545f4914f6cdd1dull ^ hash_str(name); s ^= splitmix(s) + i * 0x9e3779b97f4a7c15ull; splitmix(s);
            c.prng = s;
            if (guided && !corpus.tapes.empty() && corpus.rnd(5)) { c.replay = c.extend = true; c.tape = corpus.mutant(); }
            std::string msg;
            if (guided) corpus.clear();
            const bool ok = run_case(*p, c, msg);
            if (guided) corpus.note();
            done++;
            if (g_state) g_state->done = done;
            for (auto& l : c.labels) labels[l]++;
            if (c.is_nontrivial)
            {
                nontriv++; distinct.insert(c.h);
                if (samples.size() < 2) samples.push_back(name + " #" + std::to_string(i) + ": " + c.os.str().substr(0, 700));
            }
            if (!ok)
            {
                failed = true;
                out << "{\"type\":\"fail\",\"index\":" << i << ",\"msg\":" << jstr(msg) << ",\"desc\":" << jstr(c.os.str().substr(0, 6000)) << "}\n";
            }
        }
        out << "{\"type\":\"summary\",\"done\":" << done << ",\"nontrivial\":" << nontriv << ",\"features\":" << corpus.features << ",\"corpus\":" << corpus.tapes.size() << ",\"distinct\":[";
        bool first = true;
        for (u64 x : distinct) { out << (first ? "" : ",") << x; first = false; }
        out << "],\"labels\":{";
        first = true;
        for (auto& [k, v] : labels) { out << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
        out << "},\"samples\":[";
        first = true;
        for (auto& s : samples) { out << (first ? "" : ",") << jstr(s); first = false; }
        out << "]}\n";
        out.close();
        std::fflush(stdout);
        std::_Exit(0);
    }

    // ---- statistics helpers -------------------------------------------------------------------------------------

    // Upper tail bound of |observed - n p| for a binomial count, true if the observation is plausible at
    // level ~ exp(-L). With L = 30 a false alarm has probability < 1e-12 per test.
    inline bool plausible_count(double observed, double n, double p, double L = 30.0)
    {
        if (p < 0) p = 0;
        if (p > 1) p = 1;
        // The Chernoff bound: a deviation this large has a probability of at most exp(-L).
        const double mean = n * p, slack = 1e-9 * n + 1e-9, dev = std::abs(observed - mean) - slack;
        if (dev <= 0 || n <= 0) return true;
        const double q = std::clamp((observed > mean ? mean + dev : mean - dev) / n, 0.0, 1.0);
        if (p == 0 || p == 1) return false;
        double kl = 0;
        if (q > 0) kl += q * std::log(q / p);
        if (q < 1) kl += (1 - q) * std::log((1 - q) / (1 - p));
        return n * kl <= L;
    }
}

#ifdef PBT_COV
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc()
{
    const auto pc = reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)) - reinterpret_cast<std::uintptr_t>(&pbt::worker_main);
    unsigned char& n = pbt::g_cov[(pc * 0x9e3779b97f4a7c15ull) >> 47];
    if (n != 255) n++;
}
#endif

int main(int argc, char** argv) { return pbt::worker_main(argc, argv); }
