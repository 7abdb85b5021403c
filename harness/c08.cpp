#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case is one replacement step (or one run); it is non-trivial if the population has at least two members, not all fitness values are equal, and for elitism the number of elites is between 1 and the population size; a run counts if it has at least three generations.");
PBT_ASSUME("Fitness values are equal or differ by more than the floating-point tolerances, except in near_ties, where the order is only claimed up to the tolerances.");

static double gen_value(pbt::Case& c, int kind)
{
    switch (kind)
    {
        case 0: return double(c.range(-3, 3));
        case 1: return c.pick({ 0.0, 1.0, -1.0, 1e-6, -1e-6, 1e6, -1e6, 1e15, -1e300, 1e300, 1e-11 });
        case 2: return c.pick({ 0.0, 1.0, -1.0, 2.0, math::inf<double>, -math::inf<double> });
        case 3: return std::round(c.real(-1e6, 1e6)) / 64;
        default: return c.real(-1, 1); // differences below 1e-12 have negligible probability
    }
}

struct Step { size_t pop, nchild; std::vector<double> f; };
static Step gen_step(pbt::Case& c, bool more_children)
{
    Step s;
    s.pop = c.size(1, 80);
    s.nchild = s.pop + (more_children && c.chance(1, 4) ? c.size(0, 10) : 0);
    const int kind = c.raw(5);
    for (size_t i = 0; i < s.pop + s.nchild; i++) s.f.push_back(i && c.chance(1, 6) ? s.f[c.raw(i)] : gen_value(c, kind));
    if (c.chance(1, 4)) std::sort(s.f.begin(), s.f.end());
    if (c.chance(1, 6)) std::sort(s.f.begin(), s.f.end(), std::greater<>{});
    c.show("pop", s.pop).show("children", s.nchild).showv("f", s.f);
    return s;
}
static void check_step(pbt::Case& c, const Step& s, const std::vector<size_t>& idx, int method, size_t n, double slack)
{
    PBT_CHECK(idx.size() == s.pop, "next population of size ", idx.size());
    std::set<size_t> u(idx.begin(), idx.end());
    PBT_CHECK(u.size() == s.pop, "a candidate was selected twice: ", pbt::str(idx));
    PBT_CHECK(*u.rbegin() < s.f.size(), "index out of range");
    auto not_worse = [&](std::vector<double> kept, std::vector<double> best, const char* what)
    {
        std::sort(kept.begin(), kept.end(), std::greater<>{}); std::sort(best.begin(), best.end(), std::greater<>{});
        for (size_t i = 0; i < kept.size(); i++) PBT_CHECK(kept[i] == best[i] || (slack > 0 && kept[i] >= best[i] - slack), what, ": the ", i, "th best kept fitness is ", kept[i], " instead of ", best[i]);
    };
    std::vector<double> kept; for (auto i : idx) kept.push_back(s.f[i]);
    if (method == 0) not_worse(kept, s.f, "keep-best");
    else if (method == 1) for (size_t i = 0; i < s.pop; i++) PBT_CHECK(u.count(s.pop + i), "child ", i, " was not kept");
    else
    {
        const size_t e = std::min(n, s.pop);
        std::vector<double> par, elites; size_t children = 0;
        for (auto i : idx) if (i < s.pop) elites.push_back(s.f[i]); else children++;
        PBT_CHECK(elites.size() >= e, "only ", elites.size(), " parents were kept with ", n, " elites");
        PBT_CHECK(children >= s.pop - e, "only ", children, " children were kept with ", n, " elites");
        par.assign(s.f.begin(), s.f.begin() + s.pop);
        not_worse(elites, par, "elites");
    }
    const bool uneq = std::any_of(s.f.begin(), s.f.end(), [&](double x) { return x != s.f[0]; });
    c.nontrivial(s.pop >= 2 && uneq && (method != 2 || (n >= 1 && n < s.pop)));
    c.label(method == 0 ? "KeepBest" : method == 1 ? "KeepChildren" : "Elitism");
}
static std::unique_ptr<replacement::Replacement> make(int method, size_t n)
{
    if (method == 0) return std::make_unique<replacement::KeepBest>();
    if (method == 1) return std::make_unique<replacement::KeepChildren>();
    return std::make_unique<replacement::Elitism>(n);
}

PBT_PROP(replacement, 60000, 3000000)
{
    const int method = c.raw(3); auto s = gen_step(c, method != 2); const size_t n = c.pick({ size_t(0), size_t(1), size_t(c.range<size_t>(0, s.pop + 2)) });
    c.show("method", method).show("n", n);
    BinaryGA ga(s.pop);
    FitnessMatrix m; for (double f : s.f) m.append_row(FitnessVector{ f });
    auto r = make(method, n);
    auto v = r->nextPopulationImpl(ga, m);
    check_step(c, s, { v.begin(), v.end() }, method, n, 0);
}
PBT_PROP(near_ties, 8000, 300000)
{
    const int method = c.pick({ 0, 2 });
    Step s; s.pop = c.size(2, 60); s.nchild = s.pop;
    const double base = c.pick({ 0.0, 1.0, -3.0 }), d = c.pick({ 0.3e-12, 0.6e-12, 1.05e-12 });
    for (size_t i = 0; i < 2 * s.pop; i++) s.f.push_back(base + d * c.range(0, 6));
    const size_t n = c.range<size_t>(0, s.pop);
    c.show("method", method).show("n", n).showv("f", s.f);
    BinaryGA ga(s.pop);
    FitnessMatrix m; for (double f : s.f) m.append_row(FitnessVector{ f });
    auto v = make(method, n)->nextPopulationImpl(ga, m);
    check_step(c, s, { v.begin(), v.end() }, method, n, 7 * d); // all values are within a chain of 7 d
}

// Through the algorithm: the candidates themselves.
struct One final : FitnessFunctionBase<BinaryGene> { using FitnessFunctionBase::FitnessFunctionBase; FitnessVector invoke(const Chromosome<BinaryGene>&) const override { return { 0.0 }; } };
PBT_PROP(algorithm, 12000, 500000)
{
    const int method = c.raw(3); auto s = gen_step(c, method != 2); const size_t n = c.range<size_t>(0, s.pop + 2);
    threads(1);
    BinaryGA ga(s.pop);
    ga.solve(std::make_unique<One>(24), 1);
    algorithm::SingleObjective alg(std::make_unique<selection::Tournament>(), make(method, n));
    alg.initialize(ga);
    Population<BinaryGene> parents, children;
    for (size_t i = 0; i < s.f.size(); i++)
    {
        Chromosome<BinaryGene> x(24); for (int b = 0; b < 24; b++) x[b] = (i >> b) & 1;
        Candidate<BinaryGene> cand(x); cand.fitness = { s.f[i] }; cand.is_evaluated = true;
        (i < s.pop ? parents : children).push_back(cand);
    }
    auto next = alg.nextPopulation(ga, parents, children);
    std::vector<size_t> idx;
    for (auto& x : next)
    {
        PBT_CHECK(x.chromosome.size() == 24 && x.fitness.size() == 1 && x.is_evaluated, "a candidate of the next population is damaged");
        size_t i = 0; for (int b = 0; b < 24; b++) i |= size_t(x.chromosome[b]) << b;
        PBT_CHECK(i < s.f.size() && s.f[i] == x.fitness[0], "candidate ", i, " does not have its own fitness");
        idx.push_back(i);
    }
    check_step(c, s, idx, method, n, 0);
}
// The replacement of real runs, observed through a forwarding replacement.
struct Spy final : replacement::Replacement
{
    std::unique_ptr<replacement::Replacement> in; std::function<void(const FitnessMatrix&, const small_vector<size_t>&)> see;
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override { auto r = in->nextPopulationImpl(ga, f); see(f, r); return r; }
};
PBT_PROP(runs, 6000, 200000)
{
    Limits L; L.multi = false; L.dynamic = true;
    for_encoding(c, [&]<typename T>()
    {
        auto g = gen_config<T>(c, L);
        g.exact = true; Tol tol(true);
        const int method = c.raw(3); const size_t n = c.range<size_t>(0, g.pop + 1);
        auto sp = std::make_unique<Spy>(); sp->in = make(method, n);
        std::vector<std::pair<std::vector<FitnessVector>, small_vector<size_t>>> seen;
        sp->see = [&](const FitnessMatrix& f, const small_vector<size_t>& r) { seen.push_back({ rows<T>(f), r }); };
        auto ga = g.make();
        ga->algorithm(std::make_unique<algorithm::SingleObjective>(std::make_unique<selection::Tournament>(2), std::move(sp)));
        auto t = run<T>(*ga, g);
        PBT_CHECK(seen.size() + 1 == t.gens.size(), "replacement called ", seen.size(), " times in ", t.gens.size(), " generations");
        for (size_t k = 0; k < seen.size(); k++)
        {
            Step s; s.pop = g.pop; s.nchild = seen[k].first.size() - g.pop; for (auto& f : seen[k].first) s.f.push_back(f[0]);
            check_step(c, s, { seen[k].second.begin(), seen[k].second.end() }, method, n, 0);
            for (size_t i = 0; i < g.pop; i++)
            {
                PBT_CHECK(seen[k].first[i] == t.gens[k].fmat[i], "row ", i, " of the parents in generation ", k);
                PBT_CHECK(seen[k].first[seen[k].second[i]] == t.gens[k + 1].pop[i].fitness, "member ", i, " of generation ", k + 1, " is not the chosen candidate");
            }
            auto best = [](const Gen<T>& x) { double m = -math::inf<double>; for (auto& y : x.pop) m = std::max(m, y.fitness[0]); return m; };
            if (method == 0 || (method == 2 && n >= 1)) PBT_CHECK(best(t.gens[k + 1]) >= best(t.gens[k]), "the best fitness decreased from ", best(t.gens[k]), " to ", best(t.gens[k + 1]), " in generation ", k + 1);
        }
    });
}
// Every way of installing a user's selection and replacement: what they return is what the run uses.
PBT_PROP(user_defined, 1000, 40000)
{
    const size_t pop = c.size(1, 14), gens = c.range<size_t>(2, 6);
    const int way = c.raw(8), style = c.raw(3);
    const bool own_sel = way != 6, own_rep = way != 0;
    threads(c.range<size_t>(1, 3)); rng::prng.seed(c.raw(1u << 30));
    c.show("pop", pop).show("gens", gens).show("way", way).show("style", style);
    struct Ids : FitnessFunctionBase<BinaryGene> // distinct chromosomes have distinct values
    {
        using FitnessFunctionBase::FitnessFunctionBase;
        FitnessVector invoke(const Chromosome<BinaryGene>& x) const override { double v = 0; for (auto b : x) v = 2 * v + b; return { v }; }
    };
    size_t sel_calls = 0; bool bad_rows = false; std::mutex m;
    std::vector<std::pair<std::vector<double>, small_vector<size_t>>> steps;
    const size_t salt = c.raw(1u << 20);
    auto sel = [&](const GaInfo& g, const FitnessMatrix& f) -> size_t { std::scoped_lock lk(m); bad_rows |= f.size() != g.population_size(); return (salt + ++sel_calls) % f.size(); };
    auto rep = [&](const GaInfo& g, const FitnessMatrix& f) -> small_vector<size_t>
    {
        std::vector<size_t> o(f.size()); std::iota(o.begin(), o.end(), 0);
        if (style == 1) std::reverse(o.begin(), o.end());
        if (style == 2) { std::mt19937 e(salt + 17 * steps.size()); std::shuffle(o.begin(), o.end(), e); }
        small_vector<size_t> r(o.begin(), o.begin() + g.population_size()); // the parents, the children from the last, or any
        std::vector<double> v; for (size_t i = 0; i < f.size(); i++) v.push_back(f[i][0]);
        steps.push_back({ v, r });
        return r;
    };
    using SO = algorithm::SingleObjective;
    BinaryGA ga(pop);
    auto alg = [&]() -> std::unique_ptr<SO>
    {
        if (way == 0) return std::make_unique<SO>(sel);
        if (way == 1) return std::make_unique<SO>(sel, rep);
        if (way == 2) return std::make_unique<SO>(selection::Lambda(sel), replacement::Lambda(rep));
        if (way == 3) return std::make_unique<SO>(std::make_unique<selection::Lambda>(sel), std::make_unique<replacement::Lambda>(rep));
        auto a = std::make_unique<SO>();
        if (way == 4) { a->selection_method(sel); a->replacement_method(rep); }
        if (way == 5) { a->replacement_method(std::make_unique<replacement::Lambda>(rep)); a->selection_method(std::make_unique<selection::Lambda>(sel)); }
        if (way == 6) { a->replacement_method(replacement::Elitism(1)); a->replacement_method(rep); }
        if (way == 7) { a->selection_method(selection::Roulette()); a->replacement_method(replacement::Lambda(rep)); a->selection_method(selection::Lambda(sel)); }
        return a;
    }();
    PBT_CHECK(!own_sel || dynamic_cast<const selection::Lambda*>(&alg->selection_method()), "selection_method() is not the one that was set");
    PBT_CHECK(!own_rep || dynamic_cast<const replacement::Lambda*>(&alg->replacement_method()), "replacement_method() is not the one that was set");
    if (c.flip()) ga.algorithm(std::move(alg)); else ga.algorithm(std::move(*alg));
    ga.crossover_rate(c.pick<double>({ 0.0, 0.5, 1.0 }));
    std::vector<std::vector<double>> pops;
    ga.on_generation_end([&](const GaInfo& g) { std::vector<double> v; for (size_t i = 0; i < g.fitness_matrix().size(); i++) v.push_back(g.fitness_matrix()[i][0]); pops.push_back(v); });
    const bool moved = c.chance(1, 4);
    auto run = [&](BinaryGA& g) { g.solve(std::make_unique<Ids>(20), gens); };
    if (moved) { BinaryGA other(std::move(ga)); run(other); } else run(ga);
    const size_t nsels = pops.empty() ? 0 : (pops.size() - 1) * ((pop + 1) / 2) * 2;
    PBT_CHECK(pops.size() == gens, pops.size(), " generations");
    PBT_CHECK(!bad_rows, "the selection was given a matrix which is not that of the population");
    if (own_sel) PBT_CHECK(sel_calls == nsels, "the selection was called ", sel_calls, " times, expected ", nsels);
    if (!own_rep) { c.nontrivial(false); return; }
    PBT_CHECK(steps.size() + 1 == pops.size(), "the replacement was called ", steps.size(), " times");
    for (size_t k = 0; k < steps.size(); k++) for (size_t i = 0; i < pop; i++)
    {
        PBT_CHECK(steps[k].first[i] == pops[k][i], "row ", i, " given to the replacement is not parent ", i, " of generation ", k);
        PBT_CHECK(pops[k + 1][i] == steps[k].first[steps[k].second[i]], "member ", i, " of generation ", k + 1, " is not candidate ", steps[k].second[i]);
    }
    c.nontrivial(pop > 1 && style != 0);
}
