#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case compares two or more seeded runs of identically configured objects (or two seeded sequences of direct draws) separated by generated activity; it is non-trivial if the run had at least two generations and draws were made in between, or the sequence has at least three draws.");

struct Metrics
{
    std::vector<std::vector<FitnessVector>> fm; std::vector<std::vector<double>> hv; std::vector<size_t> ev;
    static bool eq(double a, double b) { return a == b || (a != a && b != b); }
    bool operator==(const Metrics& o) const
    {
        if (ev != o.ev || fm.size() != o.fm.size() || hv.size() != o.hv.size()) return false;
        for (size_t i = 0; i < fm.size(); i++) { if (fm[i].size() != o.fm[i].size()) return false; for (size_t j = 0; j < fm[i].size(); j++) if (!std::equal(fm[i][j].begin(), fm[i][j].end(), o.fm[i][j].begin(), o.fm[i][j].end(), eq)) return false; }
        for (size_t i = 0; i < hv.size(); i++) if (!std::equal(hv[i].begin(), hv[i].end(), o.hv[i].begin(), o.hv[i].end(), eq)) return false;
        return true;
    }
};
template<typename T> static void track(GA<T>& ga)
{
    using namespace metrics;
    ga.track(FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessStdDev{}, NadirPoint{}, FitnessEvaluations{}, AutoHypervolume{});
}
template<typename T> static Metrics collect(const GA<T>& ga)
{
    using namespace metrics; Metrics m;
    auto add = [&](const FitnessMatrix& f) { m.fm.push_back(rows<T>(f)); };
    add(ga.template get_metric<FitnessMin>().data()); add(ga.template get_metric<FitnessMax>().data()); add(ga.template get_metric<FitnessMean>().data());
    add(ga.template get_metric<FitnessStdDev>().data()); add(ga.template get_metric<NadirPoint>().data());
    const auto& h = ga.template get_metric<AutoHypervolume>().data(); m.hv.push_back({ h.begin(), h.end() });
    const auto& e = ga.template get_metric<FitnessEvaluations>().data(); m.ev.assign(e.begin(), e.end());
    return m;
}

static void activity(pbt::Case& c, size_t nthreads)
{
    const size_t n = c.range<size_t>(0, 3);
    for (size_t i = 0; i < n; i++)
    {
        switch (c.raw(5))
        {
            case 0: c.os << "| draws"; for (size_t k = c.range<size_t>(1, 5); k--;) { rng::randomReal(); rng::randomNormal(0.0, 1.0); rng::randomPoisson(15.0); rng::randomBool(); } break;
            case 1: { c.os << "| run{"; Limits L; L.max_gen = 4; for_encoding(c, [&]<typename U>() { auto h = gen_config<U>(c, L); h.nthreads = nthreads; auto o = h.make(); run<U>(*o, h); }); c.os << "}"; break; }
            case 2: { c.os << "| aborted run{"; Limits L; L.max_gen = 4; for_encoding(c, [&]<typename U>()
                {
                    auto h = gen_config<U>(c, L); h.nthreads = nthreads; auto o = h.make();
                    auto cnt = std::make_shared<std::atomic<size_t>>(0); const size_t at = c.range<size_t>(0, h.pop * 2); auto f = h.fit;
                    h.fit = [=](const Chromosome<U>& x) { if (cnt->fetch_add(1) == at) throw 3; return f(x); };
                    try { run<U>(*o, h); } catch (int) {}
                }); c.os << "}"; break; }
            case 3: { const size_t k = c.range<size_t>(1, 6); c.os << "| threads " << k; execution_threads(k); if (c.flip()) { std::vector<int> v(50); detail::parallel_for(v.begin(), v.end(), [](int& x) { x = rng::randomInt(0, 100); }); } execution_threads(nthreads); break; }
            default: { c.os << "| parallel draws"; threads(nthreads); std::vector<double> v(c.range<size_t>(1, 100)); detail::parallel_for(v.begin(), v.end(), [](double& x) { x = rng::randomReal() + rng::randomNormal<double>(0, 1) + rng::randomBool(); }); break; }
        }
    }
}

template<typename T>
static void two_runs(pbt::Case& c, Limits L)
{
    auto g = gen_config<T>(c, L);
    Tol tol(g.exact);
    auto a = g.make(); track<T>(*a);
    activity(c, g.nthreads);
    auto ta = run<T>(*a, g); auto ma = collect<T>(*a);
    const size_t n = c.range<size_t>(1, 2);
    for (size_t i = 0; i < n; i++)
    {
        activity(c, g.nthreads);
        auto b = g.make(); track<T>(*b);
        auto tb = run<T>(*b, g);
        auto d = diff<T>(ta, tb);
        PBT_CHECK(d.empty(), "runs with the same seed differ: ", d);
        PBT_CHECK(ma == collect<T>(*b), "metrics of runs with the same seed differ");
        if (g.nthreads == 1) PBT_CHECK(ta.log->calls == tb.log->calls, "evaluated chromosomes of runs with the same seed differ");
    }
    c.nontrivial(ta.gens.size() >= 2);
}
PBT_PROP(runs_multi_threaded, 3000, 120000) { Limits L; L.thread_den = 1; L.max_threads = 8; for_encoding(c, [&]<typename T>() { two_runs<T>(c, L); }); }
PBT_PROP(runs_mixed, 5000, 150000) { Limits L; L.dynamic = true; for_encoding(c, [&]<typename T>() { two_runs<T>(c, L); }); }
PBT_PROP(near_ties, 2000, 80000) { Limits L; L.thread_den = 1; L.max_threads = 8; L.near_ties = true; L.max_pop = 60; L.max_len = 10; for_encoding(c, [&]<typename T>() { two_runs<T>(c, L); }); }
PBT_PROP(larger_runs, 400, 20000) { Limits L; L.thread_den = 1; L.max_threads = 8; L.max_pop = 150; L.max_len = 60; L.huge = false; for_encoding(c, [&]<typename T>() { two_runs<T>(c, L); }); }

PBT_PROP(direct_draws, 8000, 300000)
{
    struct Op { int k; double p; long a, b; };
    std::vector<Op> ops;
    const size_t n = c.size(1, 40);
    for (size_t i = 0; i < n; i++) { long a = c.range<long>(-50, 50); ops.push_back({ int(c.raw(10)), c.unit(), a, a + c.range<long>(0, 100) }); }
    const auto seed = c.raw(0);
    c.show("seed", seed).show("ops", n);
    auto draw = [&]
    {
        std::vector<double> r;
        for (auto& o : ops) switch (o.k)
        {
            case 0: r.push_back(rng::randomBool()); break;
            case 1: r.push_back(rng::randomInt(o.a, o.b)); break;
            case 2: r.push_back(rng::randomReal()); break;
            case 3: r.push_back(rng::randomReal(double(o.a), double(o.b))); break;
            case 4: r.push_back(rng::randomNormal(double(o.a), o.p)); break;
            case 5: r.push_back(rng::randomPoisson(o.p * 30 + 0.1)); break;
            case 6: r.push_back(rng::randomBinomial(o.b - o.a, o.p)); break;
            case 7: for (auto x : rng::sampleUnique(o.a, o.b, size_t(o.p * (o.b - o.a)))) r.push_back(x); break;
            case 8: { std::vector<double> cdf{ o.p / 2, 0.6, 1.0 }; r.push_back(rng::sampleCdf(std::span<const double>(cdf))); break; }
            default: r.push_back(double(rng::prng())); break;
        }
        return r;
    };
    const size_t nt = c.chance(1, 4) ? c.range<size_t>(2, 4) : 1;
    threads(nt);
    if (c.flip()) activity(c, nt);
    rng::prng.seed(seed);
    auto r1 = draw();
    activity(c, nt);
    if (c.flip()) { draw(); }
    rng::prng.seed(seed);
    auto r2 = draw();
    for (size_t i = 0; i < r1.size(); i++) PBT_CHECK(r1[i] == r2[i], "draw ", i, " is ", r1[i], " and then ", r2[i], " from the same seed");
    c.nontrivial(n >= 3);
    // Different seeds must not all give the same sequence.
    rng::prng.seed(seed + 1);
    std::vector<std::uint64_t> x, y; for (int i = 0; i < 4; i++) x.push_back(rng::prng());
    rng::prng.seed(seed); for (int i = 0; i < 4; i++) y.push_back(rng::prng());
    PBT_CHECK(x != y, "two seeds give the same raw sequence");
}
// The threads of a run must not share their random streams: the draws of different iterations are distinct.
PBT_PROP(streams, 1000, 30000)
{
    const size_t nt = c.range<size_t>(1, 8), n = c.size(2, 400);
    threads(nt);
    activity(c, nt);
    const std::uint64_t seed = c.raw(1 << 20), other = seed + 1 + c.raw(1000); const bool two = c.flip();
    rng::prng.seed(seed);
    std::vector<std::uint64_t> v(n);
    detail::parallel_for(v.begin(), v.end(), [](std::uint64_t& x) { x = rng::prng(); });
    std::set<std::uint64_t> s(v.begin(), v.end());
    PBT_CHECK(s.size() == n, "equal 64 bit draws in one parallel loop");
    if (two) // nor do the streams of another seed repeat any of them
    {
        rng::prng.seed(other);
        std::vector<std::uint64_t> w(n);
        detail::parallel_for(w.begin(), w.end(), [](std::uint64_t& x) { x = rng::prng(); });
        for (auto x : w) PBT_CHECK(!s.count(x), "the seeds ", seed, " and ", other, " give the same random numbers on some thread");
    }
    c.show("threads", nt).show("n", n);
    c.nontrivial(nt > 1 && n > 8);
}

// A new process behaves as if it had been seeded with GAPP_SEED, and uses as many threads as there are hardware threads.
template<typename T> static void digest(std::ostream& os, const Trace<T>& t)
{
    auto pop = [&](const Population<T>& p) { for (const auto& x : p) { for (const auto& g : x.chromosome) os << +g << ','; os << ':'; for (double f : x.fitness) os << f << ','; os << ';'; } os << '\n'; };
    for (const auto& g : t.gens) { pop(g.pop); pop(g.sols); os << g.evals << '\n'; }
    pop(t.result);
}
static std::string fresh(pbt::u64 k, bool child)
{
    pbt::Case c; c.prng = k; std::ostringstream os; os.precision(17);
    const size_t nt = c.chance(1, 3) ? c.range<size_t>(1, 6) : 0, hw = std::max(1u, std::thread::hardware_concurrency());
    Limits L; L.max_gen = 6; L.huge = false;
    for_encoding(c, [&]<typename T>()
    {
        auto g = gen_config<T>(c, L); Tol tol(g.exact); g.nthreads = nt ? nt : hw;
        const size_t ndraws = c.range<size_t>(0, 3); const bool first = c.flip();
        if (!child) { threads(g.nthreads); rng::prng.seed(GAPP_SEED); } else if (nt) execution_threads(nt);
        os << execution_threads() << '\n';
        auto draws = [&] { for (size_t i = 0; i < ndraws; i++) os << rng::prng() << ' ' << rng::randomReal() << ' ' << rng::randomBool() << ' ' << rng::randomNormal() << ' ' << rng::randomPoisson(3.0) << '\n'; };
        if (first) draws();
        auto o = g.make(); Trace<T> t; record<T>(*o, t); t.result = g.solve(*o, t.log); digest<T>(os, t);
        if (!first) draws();
    });
    return os.str();
}
static pbt::ChildReg child([](pbt::u64 k) { const auto s = fresh(k, true); std::fwrite(s.data(), 1, s.size(), stdout); });
PBT_PROP(fresh_process, 240, 12000)
{
    const auto k = c.raw(pbt::u64(1) << 62); c.show("configuration", k); activity(c, 1);
    const auto a = pbt::run_child(k); if (a.empty()) return; // no process could be started
    const auto b = fresh(k, false);
    size_t at = 0; while (at < a.size() && at < b.size() && a[at] == b[at]) at++;
    PBT_CHECK(a == b, "a new process and a run with the initial seed differ after ", at, " of ", b.size(), " characters: ", a.substr(at, 40), " / ", b.substr(at, 40));
    c.nontrivial();
}
