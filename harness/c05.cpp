#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case is a history of one to three runs on one object; it is non-trivial if some run had at least two generations and either a stop was requested before the last generation, or an initial population was given, or the object was used for more than one run.");

struct Probe // What the stop condition object saw, shared with its copies.
{
    size_t inits = 0, calls = 0, stop_at = SIZE_MAX, throw_at = SIZE_MAX;
    std::vector<size_t> cntr, cb_before;
    size_t callbacks = 0;
    std::string bad;
};
struct Sched : stopping::StopCondition
{
    std::shared_ptr<Probe> p;
    explicit Sched(std::shared_ptr<Probe> q) : p(std::move(q)) {}
    void initialize(const GaInfo& ga) override
    {
        p->inits++;
        if (p->calls) p->bad = "initialized after the first query";
        if (ga.generation_cntr() != 0) p->bad = "initialized with generation_cntr() " + std::to_string(ga.generation_cntr());
    }
    bool stop_condition(const GaInfo& ga) override
    {
        p->cntr.push_back(ga.generation_cntr()); p->cb_before.push_back(p->callbacks);
        const size_t i = p->calls++;
        if (i == p->throw_at) throw 5;
        return i >= p->stop_at;
    }
};

template<typename T, typename Pop>
static Candidates<T> solve_any(pbt::Case& c, GA<T>& ga, const Config<T>& g, std::shared_ptr<Log<T>> log, bool with_gens, Pop init)
{
    Rec<T> byval(g.len, g.type(), log, g.fit);
    auto uptr = g.func(log);
    const bool v = c.flip();
    if constexpr (is_bounded<T>)
    {
        const bool single = g.uniform_bounds;
        if (with_gens)
        {
            if (single) return v ? ga.solve(std::move(byval), g.bounds[0], g.gens, std::move(init)) : ga.solve(std::move(uptr), g.bounds[0], g.gens, std::move(init));
            return v ? ga.solve(std::move(byval), g.bounds, g.gens, std::move(init)) : ga.solve(std::move(uptr), g.bounds, g.gens, std::move(init));
        }
        if (single) return v ? ga.solve(std::move(byval), g.bounds[0], std::move(init)) : ga.solve(std::move(uptr), g.bounds[0], std::move(init));
        return v ? ga.solve(std::move(byval), g.bounds, std::move(init)) : ga.solve(std::move(uptr), g.bounds, std::move(init));
    }
    else
    {
        if (with_gens) return v ? ga.solve(std::move(byval), g.gens, std::move(init)) : ga.solve(std::move(uptr), g.gens, std::move(init));
        return v ? ga.solve(std::move(byval), std::move(init)) : ga.solve(std::move(uptr), std::move(init));
    }
}

template<typename T>
static void history(pbt::Case& c, Limits L, bool throwing)
{
    auto g0 = gen_config<T>(c, L);
    Tol tol(g0.exact);
    auto ga = g0.make();
    const size_t nruns = c.range<size_t>(1, 3);
    size_t max_gen = 500; bool max_gen_set = false;
    for (size_t r = 0; r < nruns; r++)
    {
        auto g = r ? gen_config<T>(c, L) : g0;
        if (r) { g.explicit_operators(); g.apply(*ga); }
        const bool with_gens = c.chance(3, 4) || !max_gen_set;
        if (c.chance(1, 2)) { max_gen = c.range<size_t>(1, 15); ga->max_gen(max_gen); max_gen_set = true; }
        const bool wg = with_gens || !max_gen_set;
        const size_t limit = wg ? g.gens : max_gen;
        auto p = std::make_shared<Probe>();
        const bool lambda = c.chance(1, 3);
        if (c.flip()) p->stop_at = c.range<size_t>(0, limit + 1);
        const size_t expect = std::min(limit, p->stop_at == SIZE_MAX ? limit : p->stop_at + 1);
        size_t cb_throw = SIZE_MAX; std::shared_ptr<std::atomic<size_t>> fit_calls = std::make_shared<std::atomic<size_t>>(0); size_t fit_throw = SIZE_MAX;
        if (throwing && c.chance(1, 3)) switch (c.raw(3))
        {
            case 0: cb_throw = c.range<size_t>(0, expect - 1); break;
            case 1: p->throw_at = c.range<size_t>(0, expect - 1); break;
            default: fit_throw = c.range<size_t>(0, 3 * g.pop); break;
        }
        auto inner = g.fit;
        g.fit = [inner, fit_calls, fit_throw](const Chromosome<T>& x) { if (fit_calls->fetch_add(1) == fit_throw) throw 6; return inner(x); };
        if (lambda) ga->stop_condition([p](const GaInfo& info) { p->cntr.push_back(info.generation_cntr()); p->cb_before.push_back(p->callbacks); const size_t i = p->calls++; if (i == p->throw_at) throw 5; return i >= p->stop_at; });
        else if (c.flip()) ga->stop_condition(Sched(p));
        else ga->stop_condition(std::make_unique<Sched>(p));
        c.os << " run" << r << " limit=" << limit << " stop_at=" << long(p->stop_at) << " lambda=" << lambda << ";";

        std::string bad;
        auto note = [&](const std::string& s) { if (bad.empty()) bad = s; };
        auto log = std::make_shared<Log<T>>();
        ga->on_generation_end([&](const GaInfo& info)
        {
            const size_t i = p->callbacks++;
            auto& x = dynamic_cast<const GA<T>&>(info);
            if (info.generation_cntr() != i) note("callback " + std::to_string(i) + " sees generation_cntr() " + std::to_string(info.generation_cntr()));
            if (info.max_gen() != limit) note("max_gen() is " + std::to_string(info.max_gen()) + " during the run");
            if (info.population_size() != g.pop || x.population().size() != g.pop) note("population of size " + std::to_string(x.population().size()));
            if (info.fitness_matrix().size() != g.pop) note("fitness matrix with " + std::to_string(info.fitness_matrix().size()) + " rows");
            if (info.num_objectives() != g.nobj || info.chrom_len() != g.len) note("num_objectives() or chrom_len()");
            if (p->calls != i) note("callback " + std::to_string(i) + " after " + std::to_string(p->calls) + " queries of the stop condition");
            if (i == 0)
                for (size_t k = 0; k < std::min(g.pop, g.init.size()); k++)
                    if (x.population()[k].chromosome != g.init[k].chromosome) note("initial candidate " + std::to_string(k) + " is not the supplied one");
            if (i == cb_throw) throw 4;
        });
        threads(g.nthreads);
        rng::prng.seed(g.seed);
        bool threw = false;
        Candidates<T> res;
        try { res = solve_any<T>(c, *ga, g, log, wg, g.init); }
        catch (int) { threw = true; }
        PBT_CHECK(bad.empty(), "run ", r, ": ", bad);
        PBT_CHECK(p->bad.empty(), "run ", r, ": stop condition ", p->bad);
        PBT_CHECK(ga->max_gen() == max_gen, "max_gen() is ", ga->max_gen(), " after run ", r, threw ? " (aborted)" : "", " instead of ", max_gen);
        if (threw)
        {
            c.label("aborted run");
            PBT_CHECK(cb_throw != SIZE_MAX || p->throw_at != SIZE_MAX || fit_throw != SIZE_MAX, "unexpected exception");
            if (cb_throw != SIZE_MAX) PBT_CHECK(p->callbacks == cb_throw + 1, "callbacks ", p->callbacks);
            continue;
        }
        PBT_CHECK(cb_throw == SIZE_MAX && p->throw_at == SIZE_MAX, "an exception was swallowed");
        PBT_CHECK(p->callbacks == expect, "run ", r, ": ", p->callbacks, " generations instead of ", expect);
        PBT_CHECK(p->calls == expect, "run ", r, ": stop condition queried ", p->calls, " times in ", expect, " generations");
        if (!lambda) PBT_CHECK(p->inits == 1, "run ", r, ": stop condition initialized ", p->inits, " times");
        for (size_t i = 0; i < expect; i++) PBT_CHECK(p->cntr[i] == i && p->cb_before[i] == i + 1, "query ", i, " of the stop condition: generation_cntr() ", p->cntr[i], " after ", p->cb_before[i], " callbacks");
        PBT_CHECK(ga->generation_cntr() + 1 == expect, "generation_cntr() after the run is ", ga->generation_cntr());
        PBT_CHECK(!res.empty(), "no solutions");
        c.nontrivial(expect >= 2 && (p->stop_at + 1 < limit || !g.init.empty() || r));
        c.label(p->stop_at + 1 < limit && p->stop_at != SIZE_MAX ? "stopped early" : "all generations");
    }
}
PBT_PROP(protocol, 12000, 400000) { Limits L; for_encoding(c, [&]<typename T>() { history<T>(c, L, false); }); }
PBT_PROP(protocol_exceptions, 8000, 300000) { Limits L; L.max_gen = 8; for_encoding(c, [&]<typename T>() { history<T>(c, L, true); }); }
