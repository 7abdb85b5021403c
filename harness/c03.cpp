#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case is one or two full runs of a generated configuration; it is non-trivial if the run had at least three generations and at least one later generation evaluated fewer chromosomes than the population size (or, for dynamic functions, at least two generations).");
PBT_ASSUME("The static fitness functions are pure; comparisons use zero tolerances; the initial population is not marked as evaluated.");

// The counter equals the calls made, generation by generation; dynamic functions are always evaluated.
template<typename T>
static void count_run(pbt::Case& c, Limits L)
{
    L.dynamic = true;
    auto g = gen_config<T>(c, L);
    Tol tol(true);
    auto ga = g.make();
    const int runs_ = c.chance(1, 4) ? 2 : 1;
    for (int r = 0; r < runs_; r++)
    {
        auto t = run<T>(*ga, g);
        for (size_t i = 0; i < t.gens.size(); i++)
        {
            auto& s = t.gens[i];
            PBT_CHECK(s.evals + 1 == s.calls, "run ", r, ", generation ", i, ": ", s.evals, " evaluations reported, ", s.calls, " calls made (including the probing call)");
            if (g.dynamic) PBT_CHECK(s.evals == g.pop * (i + 1), "run ", r, ", generation ", i, ": ", s.evals, " evaluations of a dynamic function for ", g.pop * (i + 1), " candidates");
            if (!i && !g.dynamic) { PBT_CHECK(s.evals == g.pop, "initial generation: ", s.evals, " evaluations"); }
            if (i) PBT_CHECK(s.evals - t.gens[i - 1].evals <= g.pop, "generation ", i, " made ", s.evals - t.gens[i - 1].evals, " evaluations for ", g.pop, " children");
        }
        PBT_CHECK(ga->num_fitness_evals() + 1 == t.log->count(), "at the end of the run");
        bool saved = g.dynamic;
        for (size_t i = 1; i < t.gens.size(); i++) saved |= t.gens[i].evals - t.gens[i - 1].evals < g.pop;
        c.nontrivial(t.gens.size() >= 2 && saved);
    }
    if (g.dynamic) c.label(g.cache ? "dynamic with cache" : "dynamic");
}
PBT_PROP(counter, 4000, 100000) { Limits L; for_encoding(c, [&]<typename T>() { count_run<T>(c, L); }); }

// Copies of parents that neither the mutation nor the repair changes are not evaluated, everything else is (without a cache).
template<typename T>
static void copies(pbt::Case& c)
{
    Limits L; L.cache = false; L.lambdas = false; L.max_len = 8;
    auto g = gen_config<T>(c, L);
    Tol tol(true);
    auto changed = std::make_shared<std::atomic<size_t>>(0);
    const auto lo = g.lo(0), hi = g.hi(0);
    const unsigned pch = c.range(0u, 10u);
    const double pc = c.pick({ 0.0, 0.0, 0.5, 1.0 });
    c.show("copy_pc", pc).show("pchange", pch);
    // A crossover that only returns copies of its parents (in either order).
    g.cx = [] { return std::make_unique<crossover::Lambda<T>>([](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { return rng::randomBool() ? CandidatePair<T>{ b, a } : CandidatePair<T>{ a, b }; }); };
    g.pc = pc;
    g.repair = nullptr;
    auto mut_changed = changed;
    g.mut = [=] { return std::make_unique<mutation::Lambda<T>>([=](const GA<T>&, const Candidate<T>&, Chromosome<T>& x)
    {
        const auto old = x;
        if (rng::randomInt(1, 10) <= int(pch))
        {
            if constexpr (is_perm<T>) std::swap(x.front(), x.back()); else x[0] = rng::randomBool() ? lo : hi;
        }
        if (x != old) mut_changed->fetch_add(1);
    }); };
    auto ga = g.make();
    Trace<T> t;
    std::vector<size_t> ch;
    ga->on_generation_end([&](const GaInfo& i) { t.gens.push_back(snapshot<T>(dynamic_cast<const GA<T>&>(i), *t.log)); ch.push_back(changed->load()); });
    threads(g.nthreads); rng::prng.seed(g.seed);
    g.solve(*ga, t.log);
    bool some = false;
    for (size_t i = 1; i < t.gens.size(); i++)
    {
        const size_t ev = t.gens[i].calls - t.gens[i - 1].calls, want = ch[i] - ch[i - 1];
        PBT_CHECK(ev == want, "generation ", i, ": ", ev, " evaluations for ", want, " children that are not copies of a parent");
        some |= ev < g.pop && t.gens.size() >= 3;
    }
    c.nontrivial(some);
}
PBT_PROP(copies_not_evaluated, 2500, 60000) { for_encoding(c, [&]<typename T>() { copies<T>(c); }); }

// Chromosomes of the last k generations are found in the cache; the cache does not change the run.
template<typename T>
static void cached(pbt::Case& c)
{
    Limits L; L.cache = false; L.max_len = 5; L.max_pop = 12; L.max_gen = 16; L.huge = false;
    auto g = gen_config<T>(c, L);
    Tol tol(true);
    const size_t k = c.range<size_t>(1, 5);
    c.show("k", k);
    auto ga0 = g.make();
    auto t0 = run<T>(*ga0, g);
    auto h = g; h.cache = k;
    auto ga1 = h.make();
    auto t1 = run<T>(*ga1, h);
    if (auto d = diff<T>(t0, t1, false); !d.empty()) pbt::fail("the run differs with and without cache: ", d);
    bool hit = false;
    for (size_t i = 0; i < t1.gens.size(); i++)
    {
        PBT_CHECK(t1.gens[i].evals <= t0.gens[i].evals, "generation ", i, ": more evaluations with the cache");
        hit |= t1.gens[i].evals < t0.gens[i].evals;
    }
    std::map<Chromosome<T>, size_t> first; // first generation whose population had the chromosome
    for (size_t i = 0; i < t1.gens.size(); i++)
    {
        if (i >= 2)
        {
            for (auto& x : t1.gens[i - 2].pop) first.try_emplace(x.chromosome, i - 2);
            for (size_t q = t1.gens[i - 1].calls; q < t1.gens[i].calls; q++)
            {
                auto it = first.find(t1.log->calls[q]);
                if (it != first.end() && it->second + k + 1 >= i) pbt::fail("generation ", i, " evaluated ", pbt::str(t1.log->calls[q]), " again, although it entered the population in generation ", it->second, " and ", k, " generations are cached");
            }
        }
    }
    c.nontrivial(hit && t1.gens.size() >= 3);
    c.label(hit ? "cache hits" : "no cache hits");
}
PBT_PROP(cache, 4000, 100000) { for_encoding(c, [&]<typename T>() { cached<T>(c); }); }

// Many cached generations and long runs, with a replacement that drops the parents, so that chromosomes leave the population and come back much later.
template<typename T>
static void long_cached(pbt::Case& c)
{
    Limits L; L.cache = false; L.max_len = 4; L.max_pop = 6; L.max_gen = 4; L.huge = false; L.repair = false;
    auto g = gen_config<T>(c, L);
    Tol tol(true);
    const size_t k = c.pick({ c.range<size_t>(1, 8), c.range<size_t>(5, 60), c.range<size_t>(50, 300) });
    g.gens = c.pick({ c.range<size_t>(k, 2 * k + 10), c.range<size_t>(k, k + 40), c.range<size_t>(250, 560) });
    g.cache = k; g.nthreads = 1; g.dynamic = false; g.nobj = 1; g.keep_all = false;
    // The number of different chromosomes is about as large as the number of the candidates in the cached generations.
    const size_t space = std::clamp<size_t>(g.pop * k / c.range<size_t>(1, 4) + 1, 2, 4000);
    size_t len = g.len; Config<T> h = g;
    if constexpr (is_perm<T>) { len = 2; for (size_t f = 2; f < space && len < 7; ) f *= ++len; }
    else if constexpr (!is_bounded<T>) { len = 1; while ((size_t(1) << len) < space && len < 12) len++; }
    else { len = 1; h.bounds.clear(); h.bounds.push_back(Bounds<T>{ T(0), T(space - 1) }); }
    h.len = len; h.init.clear(); h.repair = nullptr; h.desc = "long runs"; h.uniform_bounds = false;
    h.fit = [](const Chromosome<T>& x) { return FitnessVector{ double(chrom_hash<T>(x) % 64) }; };
    h.alg = [] { return std::make_unique<algorithm::SingleObjective>(selection::Tournament{}, replacement::KeepChildren{}); };
    h.cx = [] { return std::make_unique<crossover::Lambda<T>>([](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { return CandidatePair<T>{ a, b }; }); };
    const size_t one_in = c.range<size_t>(1, 4);
    h.mut = [=] { return std::make_unique<mutation::Lambda<T>>([=](const GA<T>&, const Candidate<T>&, Chromosome<T>& x)
    {
        if (rng::randomInt<size_t>(1, one_in) != 1) return;
        if constexpr (is_perm<T>) { for (size_t i = x.size(); i-- > 1;) std::swap(x[i], x[rng::randomInt<size_t>(0, i)]); }
        else for (auto& y : x) y = is_bounded<T> ? T(rng::randomInt<size_t>(0, space - 1)) : T(rng::randomBool());
    }); };
    h.pc = 0.5; h.pm = std::nullopt;
    c.show("k", k).show("gens", h.gens).show("len", len).show("space", space).show("one_in", one_in);
    auto ga = h.make();
    auto t = run<T>(*ga, h);
    std::map<Chromosome<T>, size_t> first; bool hit = false;
    for (size_t i = 1; i < t.gens.size(); i++)
    {
        if (i >= 2) for (auto& x : t.gens[i - 2].pop) first.try_emplace(x.chromosome, i - 2);
        for (size_t q = t.gens[i - 1].calls; q < t.gens[i].calls; q++)
        {
            auto& x = t.log->calls[q]; auto it = first.find(x);
            if (it == first.end()) continue;
            if (it->second + k + 1 >= i) pbt::fail("generation ", i, " evaluated ", pbt::str(x), " again, although it entered the population in generation ", it->second, " and ", k, " generations are cached");
            // No longer in the cache: it is added to it again when this generation's population is.
            first.erase(it);
        }
        hit |= t.gens[i].evals - t.gens[i - 1].evals < h.pop;
    }
    c.nontrivial(hit && t.gens.size() > k);
    c.label(k > 16 ? "more than 16 generations" : "up to 16 generations");
}
PBT_PROP(long_cache, 1200, 30000) { for_encoding(c, [&]<typename T>() { long_cached<T>(c); }); }
