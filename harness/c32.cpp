#include "pbt.hpp"
#include "runs.hpp"
#include "utility/thread_pool.hpp"
#include "utility/concurrent_queue.hpp"
#include "utility/latch.hpp"
#include "utility/spinlock.hpp"
#include "utility/rcu.hpp"
#include "utility/shared_spinlock.hpp"
#include <list>
#include <numeric>
#include <set>
#include <shared_mutex>
#include <thread>
using namespace gapp; using namespace runs;
PBT_RULE("A case is a run, a set of parallel loops, or a hand-over of plain data between threads, with no synchronization other than that of the library; it is non-trivial if more than one thread took part.");
PBT_ASSUME("ThreadSanitizer reports every pair of conflicting accesses that the observed synchronization does not order, AddressSanitizer and UBSan every invalid access of the executed paths; schedules are sampled.");
#ifdef NO_TSAN
constexpr size_t F = 1;
#else
constexpr size_t F = 2; // threads sanitized runs are slower
#endif
static unsigned mixu(unsigned a, unsigned b) { a ^= b + 0x9e3779b9u + (a << 6) + (a >> 2); a *= 0x85ebca6bu; return a ^ (a >> 15); }
static void stall(unsigned k) { if (k % 7 == 3) std::this_thread::yield(); else if (k % 7 == 4) for (volatile int i = 0; i < 300; i = i + 1); else if (k % 31 == 6) std::this_thread::sleep_for(std::chrono::microseconds(20)); }

using namespace gapp::metrics;
// Operators that read what the library gives them: the algorithm, the candidates, the random generators.
static double peek(const GaInfo& ga) { double s = double(ga.population_size() + ga.generation_cntr() + ga.max_gen() + ga.num_objectives()) + double(ga.num_fitness_evals()); const auto& f = ga.fitness_matrix(); if (!f.empty()) s += f[f.size() - 1][0] + f[0][0]; return s; }
template<typename T> static void check_run(pbt::Case& c, Limits L)
{
    L.max_pop = 24 / F + 8; L.max_len = 12; L.max_gen = 10 / F + 1; L.max_threads = 6; L.thread_den = 1; L.dynamic = true; L.evaluated_init = true;
    auto g = gen_config<T>(c, L); if (g.nthreads == 1) g.nthreads = c.range<size_t>(2, 6); auto ga = g.make(); c.show("threads", g.nthreads); c.nontrivial(g.pop >= 4);
    const unsigned obs = unsigned(c.raw(2)); std::atomic<size_t> sink = 0; const GaInfo& info = *ga; c.show("observers", obs);
    const auto inner = g.fit; std::shared_ptr<Log<T>> log; // no log: it would order the evaluations
    if (obs & 1) g.fit = [inner, &info, &sink](const Chromosome<T>& x) { if (info.num_fitness_evals() > 1000000) sink++; return inner(x); };
    if (c.chance(1, 3)) { ga->crossover_method([&sink](const GaInfo& gi, const Candidate<T>& a, const Candidate<T>& b) { if (peek(gi) + a.fitness[0] + b.fitness[0] > 1e300) sink++; CandidatePair<T> r{ a, b }; if (rng::randomBool()) std::swap(r.first, r.second); return r; }); c.label("peeking crossover"); }
    if (c.chance(1, 3)) { const auto how = c.raw(4); ga->mutation_method([&sink, how](const GaInfo& gi, const Candidate<T>&, Chromosome<T>& x) { if (peek(gi) > 1e300) sink++; const size_t n = x.size(); switch (how) { case 0: sink += rng::sampleUnique(size_t(0), n, (n + 1) / 2).size(); break; case 1: sink += size_t(rng::randomBinomial<size_t>(20, 0.3) + size_t(std::abs(rng::randomNormal(0.0, 1.0)))); break; case 2: sink += size_t(rng::randomPoisson<size_t>(2.0)); break; default: sink += rng::randomIndex(x); } if (n > 1 && !std::is_floating_point_v<T> && !std::is_same_v<T, IntegerGene>) std::swap(x[0], x[n - 1]); }); c.label("peeking mutation"); }
    if (c.chance(1, 3)) { switch (c.raw(3)) { case 0: ga->track(FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessVariance{}, FitnessStdDev{}, NadirPoint{}, FitnessEvaluations{}); break; case 1: ga->track(AutoHypervolume{}, NadirPoint{}); break; default: ga->track(NadirPoint{}, FitnessMax{}); } }
    if (c.chance(1, 2)) ga->on_generation_end([&sink](const GaInfo& gi) { if (peek(gi) > 1e300) sink++; });
    const size_t runs = c.range<size_t>(1, 2);
    for (size_t r = 0; r < runs; r++) { threads(g.nthreads); rng::prng.seed(g.seed + r); const auto sols = g.solve(*ga, log); PBT_CHECK(!sols.empty(), "no solutions"); for (auto& x : ga->population()) PBT_CHECK(g.invalid(x.chromosome).empty() && x.is_evaluated, "bad candidate: ", g.invalid(x.chromosome)); if (r + 1 < runs && c.flip()) g.nthreads = c.range<size_t>(1, 6); }
}
PBT_PROP(runs_single, 3600, 60000) { Limits L; L.multi = false; for_encoding(c, [&]<typename T>() { check_run<T>(c, L); }); }
PBT_PROP(runs_any, 5400, 80000) { for_encoding(c, [&]<typename T>() { check_run<T>(c, {}); }); }
PBT_PROP(runs_ties, 1800, 30000) { Limits L; L.tie_heavy = true; for_encoding(c, [&]<typename T>() { check_run<T>(c, L); }); }

// Different algorithms run at the same time: on threads of the user, or in the fitness function of another one.
template<typename T> static std::string one_run(const Config<T>& g)
{
    auto ga = g.make(); std::atomic<size_t> gens = 0; ga->on_generation_end([&](const GaInfo&) { gens++; });
    std::shared_ptr<Log<T>> log; const auto sols = g.solve(*ga, log);
    if (sols.empty()) return "no solutions";
    if (gens > g.gens) return "too many generations";
    if (ga->population().size() != g.pop) return "wrong population size";
    for (auto& x : ga->population()) { if (auto e = g.invalid(x.chromosome); !e.empty() || !x.is_evaluated) return "bad candidate: " + e; if (!g.dynamic && x.fitness != g.fit(x.chromosome)) return "a candidate's fitness belongs to another chromosome"; }
    for (auto& x : sols) { if (auto e = g.invalid(x.chromosome); !e.empty()) return "bad solution: " + e; if (!g.dynamic && x.fitness != g.fit(x.chromosome)) return "a solution's fitness belongs to another chromosome"; }
    return {};
}
template<typename T> static void check_together(pbt::Case& c)
{
    Limits L; L.max_pop = 12; L.max_len = 8; L.max_gen = 5; L.max_threads = 4; L.big = false;
    const size_t users = c.range<size_t>(2, 3); const bool nested = c.chance(1, 3); const size_t t = c.range<size_t>(1, 4), runs = c.range<size_t>(1, 2);
    std::vector<Config<T>> g; for (size_t u = 0; u < users; u++) g.push_back(gen_config<T>(c, L));
    c.show("threads", t).show("users", users).show("nested", nested); c.label(nested ? "nested" : "side by side"); c.nontrivial(nested || users > 1);
    Tol tol(true); threads(t); rng::prng.seed(g[0].seed); std::vector<std::string> bad(users);
    if (nested) // the first configuration, whose fitness function runs the second one before it does its own work
    {
        Config<T> o = g[0]; std::mutex m; const auto inner = o.fit; o.pop = std::min<size_t>(o.pop, 6); o.gens = std::min<size_t>(o.gens, 3); o.init.clear(); o.cache = 0; std::atomic<unsigned> n = 0;
        o.fit = [&](const Chromosome<T>& x) { if (n++ % 3 == 0) if (auto e = one_run(g[1]); !e.empty()) { std::scoped_lock l(m); bad[1] = e; } return inner(x); };
        auto ga = o.make(); std::shared_ptr<Log<T>> log; const auto sols = o.solve(*ga, log); if (sols.empty()) bad[0] = "no solutions";
        for (auto& x : ga->population()) if (auto e = o.invalid(x.chromosome); !e.empty() || (!o.dynamic && x.fitness != inner(x.chromosome))) bad[0] = "bad candidate: " + e;
    }
    else { std::vector<std::jthread> th; for (size_t u = 0; u < users; u++) th.emplace_back([&, u] { for (size_t r = 0; r < runs && bad[u].empty(); r++) bad[u] = one_run(g[u]); }); }
    for (auto& b : bad) PBT_CHECK(b.empty(), b);
}
PBT_PROP(runs_together, 8000, 120000) { for_encoding(c, [&]<typename T>() { check_together<T>(c); }); }

// Iterations write their own elements, loops and their callers read what earlier loops wrote.
struct Data { std::vector<int> x; std::vector<std::vector<int>> in; };
static void fill(pbt::Case& c, std::vector<size_t>& sizes, std::vector<size_t>& inner) { const size_t n = c.size(1, 40); sizes.push_back(n); inner.push_back(c.chance(1, 2) ? c.size(1, 8) : 0); }
static std::string use_loops(const std::vector<size_t>& sizes, const std::vector<size_t>& inner, unsigned salt, unsigned block)
{
    std::vector<int> prev;
    for (size_t k = 0; k < sizes.size(); k++)
    {
        const size_t n = sizes[k], m = inner[k]; std::vector<int> a(n), b(n, 1); std::list<size_t> l(n); std::iota(l.begin(), l.end(), size_t(0)); std::vector<std::vector<int>> in(n, std::vector<int>(m)); int sum = 0; for (int x : prev) sum += x;
        auto body = [&](size_t i)
        {
            stall(mixu(salt, unsigned(i + 100 * k))); int s = int(i); for (int x : prev) s += x;
            if (m) { if (mixu(salt, unsigned(i)) % 3) { detail::parallel_for(detail::iota_iterator<size_t>(0), detail::iota_iterator<size_t>(m), [&, i](size_t j) { in[i][j] = int(j) + b[i]; }); } else for (size_t j = 0; j < m; j++) in[i][j] = int(j) + 1; for (size_t j = 0; j < m; j++) s += in[i][j]; }
            a[i] = s;
        };
        if (block) detail::parallel_for(l.begin(), l.end(), block, body); else detail::parallel_for(l.begin(), l.end(), body);
        for (size_t i = 0; i < n; i++) { const int want = int(i) + sum + int(m * (m + 1) / 2); if (a[i] != want) return "iteration " + std::to_string(i) + " left " + std::to_string(a[i]) + " instead of " + std::to_string(want); for (size_t j = 0; j < m; j++) b[i] += in[i][j]; }
        prev.assign(a.begin(), a.begin() + std::min<size_t>(n, 5)); for (int& x : prev) x %= 100;
    }
    return {};
}
PBT_PROP(loops, 4500, 60000)
{
    const size_t t = c.range<size_t>(1, 6), users = c.chance(1, 3) ? c.range<size_t>(2, 4) : 1; threads(t); std::vector<size_t> s, in; const size_t k = c.size(1, 6); for (size_t i = 0; i < k; i++) fill(c, s, in); const unsigned salt = unsigned(c.raw(1u << 30)), block = c.chance(1, 2) ? unsigned(c.range(1, 20)) : 0;
    c.show("threads", t).show("users", users).show("block", block).showv("sizes", s).showv("inner", in); c.nontrivial(t > 1 || users > 1);
    std::vector<std::string> bad(users); if (users == 1) bad[0] = use_loops(s, in, salt, block); else { std::vector<std::jthread> th; for (size_t u = 0; u < users; u++) th.emplace_back([&, u] { bad[u] = use_loops(s, in, salt + unsigned(u), block); }); }
    for (auto& b : bad) PBT_CHECK(b.empty(), b);
    if (c.chance(1, 4)) threads(c.range<size_t>(1, 6));
}
PBT_PROP(random_utilities, 1200, 20000)
{
    const size_t t = c.range<size_t>(1, 6), users = c.range<size_t>(1, 4); threads(t); if (c.flip()) rng::prng.seed(c.raw(1000)); const unsigned salt = unsigned(c.raw(1u << 30)); c.show("threads", t).show("users", users); c.nontrivial(t > 1 || users > 1);
    auto draw = [salt](unsigned k)
    {
        double s = 0; std::vector<double> cdf{ 0.2, 0.5, 1.0 };
        for (unsigned i = 0; i < 12; i++) switch (mixu(salt + i, k) % 12)
        {
            case 0: s += rng::randomBool(); break; case 1: s += rng::randomInt(-5, 5); break; case 2: s += rng::randomReal(); break; case 3: s += rng::randomReal(1.0, 2.0); break; case 4: s += rng::randomNormal(0.0, 1.0); break; case 5: s += double(rng::randomBinomial<size_t>(30, 0.2)); break;
            case 6: s += double(rng::randomPoisson<size_t>(3.0)); break; case 7: s += double(rng::sampleUnique(size_t(0), size_t(40), size_t(3 + k % 20)).size()); break; case 8: s += double(rng::randomIndex(cdf)); break; case 9: s += double(rng::prng() & 1); break; case 10: s += *rng::randomElement(cdf.begin(), cdf.end()); break; default: s += double(rng::sampleCdf(std::span<const double>(cdf)));
        }
        return s;
    };
    std::vector<double> out(users), pool(60); const size_t pooled = c.range<size_t>(0, 60);
    { std::vector<std::jthread> th; for (size_t u = 0; u < users; u++) th.emplace_back([&, u] { for (unsigned r = 0; r < 4; r++) { out[u] += draw(unsigned(u * 10 + r)); if (r == 2) std::jthread([&, u] { out[u] += draw(unsigned(u)); }).join(); } }); detail::parallel_for(detail::iota_iterator<size_t>(0), detail::iota_iterator<size_t>(pooled), [&](size_t i) { pool[i] = draw(unsigned(1000 + i)); }); }
    for (double x : out) PBT_CHECK(std::isfinite(x), "not a number");
    for (double x : pool) PBT_CHECK(std::isfinite(x), "not a number");
}
PBT_PROP(handovers, 2400, 40000)
{
    const unsigned n = unsigned(c.range(2, 5)), N = unsigned(c.size(1, 40)), salt = unsigned(c.raw(1u << 30)); const auto kind = c.raw(4); c.show("threads", n).show("rounds", N).show("kind", kind); c.nontrivial(); std::string bad;
    switch (kind)
    {
        case 0: { detail::spinlock l; std::vector<int> data; { std::vector<std::jthread> th; for (unsigned k = 0; k < n; k++) th.emplace_back([&, k] { for (unsigned i = 0; i < N; i++) { if (mixu(k, i) % 3) l.lock(); else while (!l.try_lock()) std::this_thread::yield(); data.push_back(int(k)); l.unlock(); stall(mixu(salt, i * 7 + k)); } }); } PBT_CHECK(data.size() == size_t(n) * N, "lost updates"); break; }
        case 1: { detail::shared_spinlock l; std::vector<int> data{ 0 }; std::atomic<size_t> sum = 0; { std::vector<std::jthread> th; for (unsigned k = 0; k < n; k++) th.emplace_back([&, k] { for (unsigned i = 0; i < N; i++) { const bool tr = mixu(salt, i * n + k) % 4 == 0; if (k % 2 == 0) { if (tr) { while (!l.try_lock()) std::this_thread::yield(); } else l.lock(); data.push_back(int(i)); l.unlock(); } else { if (tr) { while (!l.try_lock_shared()) std::this_thread::yield(); } else l.lock_shared(); sum.fetch_add(data.size() + size_t(data.back() >= 0), std::memory_order_relaxed); l.unlock_shared(); } } }); } PBT_CHECK(data.size() == 1 + size_t((n + 1) / 2) * N, "lost updates"); break; }
        case 2: { detail::latch l(n); std::vector<int> data(n); std::atomic<int> wrong = 0; { std::vector<std::jthread> th; for (unsigned k = 0; k < n; k++) th.emplace_back([&, k] { stall(mixu(salt, k)); data[k] = int(k) + 1; l.count_down(); if (k % 2) { l.wait(); for (unsigned j = 0; j < n; j++) if (data[j] != int(j) + 1) wrong++; } }); if (salt % 2) l.wait(); else while (!l.try_wait()) std::this_thread::yield(); for (unsigned j = 0; j < n; j++) if (data[j] != int(j) + 1) wrong++; } PBT_CHECK(!wrong, "the latch opened early"); break; }
        default: { detail::concurrent_queue<std::unique_ptr<std::vector<int>>> q; std::atomic<size_t> got = 0; { std::vector<std::jthread> cons, prod; for (unsigned k = 0; k < n / 2; k++) cons.emplace_back([&] { while (auto x = q.take()) { (*x)->push_back(1); got += (*x)->size(); } }); for (unsigned k = 0; k < n - n / 2; k++) prod.emplace_back([&, k] { for (unsigned i = 0; i < N; i++) { auto v = std::make_unique<std::vector<int>>(1, int(i)); if (!q.emplace(std::move(v))) return; if (i % 8 == 3 && q.empty() && q.closed()) return; stall(mixu(salt, i + k)); } }); prod.clear(); q.close(); } PBT_CHECK(got == 2 * size_t(n - n / 2) * N, "lost elements"); }
    }
}
// What a reader of an rcu object got stays valid and unchanged until it unlocks, and readers that come later don't get older values.
PBT_PROP(rcu_objects, 1200, 20000)
{
    struct Obj { std::vector<unsigned> v; Obj(unsigned writer, unsigned k, size_t len) : v(len, k) { v[0] = writer; } };
    const unsigned readers = unsigned(c.range(1, 4)), writers = unsigned(c.range(1, 2)), N = unsigned(c.size(1, 40)), salt = unsigned(c.raw(1u << 30)); const size_t len = c.range<size_t>(2, 20);
    c.show("readers", readers).show("writers", writers).show("updates", N).show("length", len); c.nontrivial();
    std::vector<std::string> bad(readers); std::atomic<unsigned> left = writers;
    {
        detail::rcu_obj<Obj> o(0u, 0u, len);
        {
            std::vector<std::jthread> th;
            for (unsigned k = 0; k < readers; k++) th.emplace_back([&, k]
            {
                std::vector<unsigned> last(writers); unsigned i = 0;
                auto read = [&](unsigned count) // until the writers are done, or count times
                {
                    for (unsigned from = i; (left && i - from < count) || i - from < 3; i++)
                    {
                        const bool tr = mixu(salt, i) % 4 == 0; if (tr) { if (!o.try_lock_shared()) { bad[k] = "try_lock_shared failed"; return; } } else o.lock_shared();
                        {
                            const Obj& x = *o; const std::vector<unsigned> a = x.v; stall(mixu(salt, i * 13 + k)); const std::vector<unsigned>& b = x.v;
                            if (a.size() != len || a != b || std::any_of(b.begin() + 1, b.end(), [&](unsigned e) { return e != b[1]; }) || b[0] >= writers) bad[k] = "a value changed while it was read";
                            else if (b[1] && b[1] < last[b[0]]) bad[k] = "a reader got an older value than before";
                            else if (b[1]) last[b[0]] = b[1];
                        }
                        o.unlock_shared();
                        if (!bad[k].empty()) return;
                    }
                };
                if (mixu(salt, k) % 2) read(~0u); else do { std::jthread([&] { read(1 + mixu(salt, i) % 10); }); } while (left && bad[k].empty()); // reading threads come and go
            });
            for (unsigned w = 0; w < writers; w++) th.emplace_back([&, w] { for (unsigned i = 1; i <= N; i++) { o = Obj(w, i, len); if (mixu(salt, i + w) % 9 == 0) o.wait_for_readers(); stall(mixu(salt, i * 5 + w)); } left--; });
        }
        PBT_CHECK(o->v[1] == N && o.get().v.size() == len, "the last value is ", o->v[1], " instead of ", N);
    }
    for (auto& b : bad) PBT_CHECK(b.empty(), b);
}
