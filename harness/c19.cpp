#include "stops.hpp"
using namespace gapp; using namespace stops;
PBT_RULE("A case is one or more runs with a scripted fitness history under one early-stop condition; it is non-trivial if some run had at least three generations and the model requests a stop in some but not all of them.");
PBT_ASSUME("Histories in which an improvement meets the required difference only up to rounding are not judged (mean fitness, or differences that are not exact in floating point).");
PBT_ASSUME("Threshold vectors have as many elements as there are objectives.");

// Observes the real condition in every generation, without stopping the run.
struct Spy final : stopping::StopCondition
{
    std::shared_ptr<stopping::StopCondition> inner; std::shared_ptr<std::vector<char>> got;
    Spy(std::unique_ptr<stopping::StopCondition> i, std::shared_ptr<std::vector<char>> g) : inner(std::move(i)), got(std::move(g)) {}
    void initialize(const GaInfo& ga) override { got->clear(); inner->initialize(ga); }
    bool stop_condition(const GaInfo& ga) override { got->push_back((*inner)(ga)); return false; }
};
struct Setup { size_t pop, nobj, gens; bool dynamic; double pc, pm; };
static Setup gen_setup(pbt::Case& c)
{
    Setup s; s.pop = c.pick({ 2, 1, 4, 3, 7 }); s.nobj = c.pick({ 1, 1, 2, 3 }); s.gens = c.wide(1, 25, 300); s.dynamic = c.flip(); s.pc = c.pick({ 0.8, 0.0, 1.0 }); s.pm = c.pick({ 0.5, 0.0, 1.0 });
    c.show("pop", s.pop).show("nobj", s.nobj).show("gens", s.gens).show("dynamic", s.dynamic).show("pc", s.pc).show("pm", s.pm);
    return s;
}
static void configure(IntegerGA& ga, const Setup& s)
{
    ga.population_size(s.pop); ga.algorithm(std::make_unique<KeepKids>()); ga.crossover_method(crossover::integer::Uniform{ s.pc }); ga.mutation_method(mutation::integer::Uniform{ s.pm });
}
static bool judge(pbt::Case& c, const Params& p, const std::vector<Seen>& seen, const Setup& s, std::vector<char>& want)
{
    Model m; m.p = p; m.start(s.nobj); want.clear();
    for (auto& g : seen) want.push_back(m.step(g.fit, g.evals) || want.size() + 1 == s.gens);
    size_t k = 0; for (size_t i = 0; i + 1 < want.size(); i++) k += want[i];
    c.nontrivial(!m.ambiguous && want.size() >= 3 && k > 0 && k < want.size());
    if (k) c.label(std::string(names[p.kind]) + " requested a stop");
    return !m.ambiguous;
}
PBT_PROP(every_generation, 30000, 1500000)
{
    ctx::one_thread();
    auto s = gen_setup(c); Params p = gen_params(c, s.nobj, s.pop, s.gens);
    IntegerGA ga(1); configure(ga, s);
    rng::prng.seed(c.raw(1u << 30));
    auto got = std::make_shared<std::vector<char>>();
    auto cond = make(p);
    // The parameters may also be set later.
    if (c.chance(1, 3))
    {
        if (p.kind == MeanStall) { auto x = std::make_unique<stopping::FitnessMeanStall>(); x->patience(p.n); x->delta(p.delta); PBT_CHECK(x->patience() == p.n && x->delta() == p.delta, "parameters"); cond = std::move(x); }
        if (p.kind == BestStall) { auto x = std::make_unique<stopping::FitnessBestStall>(); x->patience(p.n); x->delta(p.delta); PBT_CHECK(x->patience() == p.n && x->delta() == p.delta, "parameters"); cond = std::move(x); }
        if (p.kind == Evals) { auto x = std::make_unique<stopping::FitnessEvals>(1); x->max_fitness_evals(p.n); PBT_CHECK(x->max_fitness_evals() == p.n, "parameters"); cond = std::move(x); }
        if (p.kind == Value) { auto x = std::make_unique<stopping::FitnessValue>(FitnessVector{ 1.0 }); x->fitness_threshold(FitnessVector(p.threshold.begin(), p.threshold.end())); PBT_CHECK(std::equal(p.threshold.begin(), p.threshold.end(), x->fitness_threshold().begin(), x->fitness_threshold().end()), "parameters"); cond = std::move(x); }
    }
    ga.stop_condition(std::make_unique<Spy>(std::move(cond), got));
    const size_t runs = c.pick({ 1, 1, 2, 3 });
    for (size_t r = 0; r < runs; r++)
    {
        if (r) s.gens = c.size(1, 12);
        std::vector<Seen> seen; run(ga, std::make_shared<Rows>(gen_script(c, 2 * s.pop * (s.gens + 2), s.pop, s.nobj)), s.dynamic, s.gens, seen);
        PBT_CHECK(seen.size() == s.gens && got->size() == s.gens, "run of ", seen.size(), " generations, ", got->size(), " queries, instead of ", s.gens);
        std::vector<char> want; const bool sure = judge(c, p, seen, s, want);
        if (!sure) continue;
        for (size_t i = 0; i < s.gens; i++) PBT_CHECK(bool((*got)[i]) == bool(want[i]), names[p.kind], (*got)[i] ? " requests" : " does not request", " a stop in generation ", i, " of run ", r, "; history:", text(seen));
    }
}
PBT_PROP(runs_stop, 20000, 1000000)
{
    ctx::one_thread();
    auto s = gen_setup(c); Params p = gen_params(c, s.nobj, s.pop, s.gens);
    IntegerGA ga(1); configure(ga, s);
    rng::prng.seed(c.raw(1u << 30));
    const int how = c.raw(3);
    auto set = [&](IntegerGA& x) { if (how == 0) x.stop_condition(make(p)); else switch (p.kind) { case Evals: x.stop_condition(stopping::FitnessEvals{ p.n }); break; case Value: x.stop_condition(stopping::FitnessValue{ FitnessVector(p.threshold.begin(), p.threshold.end()) }); break; case MeanStall: x.stop_condition(stopping::FitnessMeanStall{ p.n, p.delta }); break; case BestStall: x.stop_condition(stopping::FitnessBestStall{ p.n, p.delta }); break; default: if (how == 1) x.stop_condition(nullptr); else x.stop_condition(stopping::NoEarlyStop{}); } };
    set(ga);
    const size_t runs = c.pick({ 1, 1, 2, 3 });
    for (size_t r = 0; r < runs; r++)
    {
        if (r) s.gens = c.size(1, 12);
        if (r && c.chance(1, 4)) { p = gen_params(c, s.nobj, s.pop, s.gens, c.raw(5)); set(ga); }
        std::vector<Seen> seen; run(ga, std::make_shared<Rows>(gen_script(c, 2 * s.pop * (s.gens + 2), s.pop, s.nobj)), s.dynamic, s.gens, seen);
        PBT_CHECK(seen.size() >= 1 && seen.size() <= s.gens, seen.size(), " generations");
        std::vector<char> want; const bool sure = judge(c, p, seen, s, want);
        if (!sure) continue;
        PBT_CHECK(want.back(), names[p.kind], ": run ", r, " ended after generation ", seen.size() - 1, " of at most ", s.gens, " although no stop was due; history:", text(seen));
        for (size_t i = 0; i + 1 < seen.size(); i++) PBT_CHECK(!want[i], names[p.kind], ": run ", r, " was not stopped in generation ", i, "; history:", text(seen));
        if (seen.size() < s.gens) { c.label("stopped early"); c.nontrivial(seen.size() >= 3); }
    }
}
