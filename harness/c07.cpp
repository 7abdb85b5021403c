#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case is a history of settings, runs, aborted runs and moves on one object; it is non-trivial if the object had been used in at least one earlier run (finished or aborted) before a compared run of at least two generations.");
PBT_ASSUME("Operators supplied as callables are valid for every problem of the history.");

// The settings of an object as a user sees them.
template<typename T>
struct Settings
{
    using Ga = typename Enc<T>::Ga;
    size_t pop = 100, cache = 0, max_gen = 500; bool keep_all = false, max_gen_set = false;
    std::function<void(GA<T>&)> cx, mut, stop, track, alg;  // null: default. Set by the same kind of call each time.
    std::optional<double> pc, pm;
    bool deduce_rate = true, deduce_alg = true; size_t alg_nobj = 0;
    double op_rate = 0; // the rate the mutation operator was given
    typename GA<T>::RepairCallable repair;
    bool tracking = false;

    std::unique_ptr<Ga> fresh() const
    {
        auto ga = std::make_unique<Ga>(pop);
        if (cx) cx(*ga);
        if (pc) ga->crossover_rate(*pc);
        if (mut) mut(*ga);
        if (pm) ga->mutation_rate(*pm);
        if (alg) alg(*ga);
        if (stop) stop(*ga);
        if (track) track(*ga);
        ga->cache_size(cache); ga->keep_all_optimal_solutions(keep_all); ga->repair_function(repair);
        if (max_gen_set) ga->max_gen(max_gen);
        return ga;
    }
};

template<typename T> static void set_crossover(pbt::Case& c, GA<T>& ga, Settings<T>& s, const Config<T>& g)
{
    if (!g.cx || c.chance(1, 5))
    {
        typename GA<T>::CrossoverCallable f = [](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { CandidatePair<T> r{ b, a }; if constexpr (is_perm<T>) { if (rng::randomBool()) std::reverse(r.first.chromosome.begin(), r.first.chromosome.end()); } else { const size_t k = rng::randomInt<size_t>(0, a.chromosome.size()); for (size_t i = 0; i < k; i++) std::swap(r.first.chromosome[i], r.second.chromosome[i]); } return r; };
        s.cx = [f](GA<T>& x) { x.crossover_method(f); };
        c.os << " cx(callable)";
    }
    else { auto f = g.cx; s.cx = [f](GA<T>& x) { x.crossover_method(f()); }; c.os << " cx(object)"; }
    s.cx(ga); s.pc.reset();
}
template<typename T> static void set_mutation(pbt::Case& c, GA<T>& ga, Settings<T>& s, const Config<T>& g)
{
    if (!g.mut || c.chance(1, 4))
    {
        typename GA<T>::MutationCallable f = [](const GA<T>& x, const Candidate<T>&, Chromosome<T>& y)
        {
            const size_t i = rng::randomIndex(y), j = rng::randomIndex(y);
            if constexpr (is_bounded<T>) y[i] = rng::randomBool() ? x.gene_bounds()[i].lower() : x.gene_bounds()[i].upper();
            else if constexpr (is_perm<T>) std::swap(y[i], y[j]);
            else y[i] = !y[i];
        };
        s.mut = [f](GA<T>& x) { x.mutation_method(f); };
        s.deduce_rate = true; c.os << " mut(callable)";
    }
    else { auto f = g.mut; s.mut = [f](GA<T>& x) { x.mutation_method(f()); }; s.op_rate = f()->mutation_rate(); s.deduce_rate = false; c.os << " mut(object)"; }
    s.mut(ga); s.pm.reset();
}
template<typename T> static void set_algorithm(pbt::Case& c, GA<T>& ga, Settings<T>& s, const Config<T>& g)
{
    if (!g.alg || c.chance(1, 4)) { const bool np = c.flip(); s.alg = [np](GA<T>& x) { if (np) x.algorithm(nullptr); else x.algorithm(std::unique_ptr<algorithm::Algorithm>{}); }; s.deduce_alg = true; c.os << " alg(deduced)"; }
    else { auto f = g.alg; s.alg = [f](GA<T>& x) { x.algorithm(f()); }; s.deduce_alg = false; s.alg_nobj = g.nobj; c.os << " alg(" << g.alg_name << ")"; }
    s.alg(ga);
}
template<typename T> static void set_stop(pbt::Case& c, GA<T>& ga, Settings<T>& s)
{
    using namespace stopping;
    const size_t k = c.range<size_t>(0, 3), e = c.range<size_t>(1, 100); const double d = c.pick({ 0.0, 1e-6, 0.5, 10.0 });
    switch (c.raw(6))
    {
        case 0: s.stop = [](GA<T>& x) { x.stop_condition(nullptr); }; break;
        case 1: s.stop = [=](GA<T>& x) { x.stop_condition(FitnessBestStall(k, d)); }; break;
        case 2: s.stop = [=](GA<T>& x) { x.stop_condition(std::make_unique<FitnessMeanStall>(k, d)); }; break;
        case 3: s.stop = [=](GA<T>& x) { x.stop_condition(FitnessEvals(e)); }; break;
        case 4: s.stop = [=](GA<T>& x) { x.stop_condition(FitnessBestStall(k, d) && FitnessMeanStall(k, d)); }; break;
        default: s.stop = [=](GA<T>& x) { x.stop_condition([e](const GaInfo& i) { return i.num_fitness_evals() >= e; }); }; break;
    }
    s.stop(ga); c.os << " stop";
}
template<typename T> static void set_track(pbt::Case& c, GA<T>& ga, Settings<T>& s)
{
    using namespace metrics;
    s.track = [](GA<T>& x) { x.track(FitnessMax{}, FitnessMean{}, NadirPoint{}, FitnessEvaluations{}, AutoHypervolume{}); };
    s.tracking = true; s.track(ga); c.os << " track";
}
template<typename T> static std::vector<double> metric_data(const GA<T>& ga)
{
    using namespace metrics; std::vector<double> r;
    auto add = [&](const FitnessMatrix& m) { for (auto& v : rows<T>(m)) { r.push_back(-777); for (double d : v) r.push_back(d); } };
    add(ga.template get_metric<FitnessMax>().data()); add(ga.template get_metric<FitnessMean>().data()); add(ga.template get_metric<NadirPoint>().data());
    for (double d : ga.template get_metric<AutoHypervolume>().data()) r.push_back(d);
    for (size_t d : ga.template get_metric<FitnessEvaluations>().data()) r.push_back(double(d));
    return r;
}
static bool same_data(const std::vector<double>& a, const std::vector<double>& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](double x, double y) { return x == y || (x != x && y != y); }); }

template<typename T>
static std::unique_ptr<typename Enc<T>::Ga> construct(pbt::Case& c, Settings<T>& s, const Config<T>& g)
{
    using Ga = typename Enc<T>::Ga;
    s.pop = g.pop;
    const int kind = c.raw(7);
    c.os << " ctor" << kind;
    switch (kind)
    {
        case 1: case 2:
            if (!g.alg || kind == 2) return std::make_unique<Ga>(g.pop, std::unique_ptr<algorithm::Algorithm>{});
            s.alg = [f = g.alg](GA<T>& x) { x.algorithm(f()); }; s.deduce_alg = false; s.alg_nobj = g.nobj;
            return std::make_unique<Ga>(g.pop, g.alg());
        case 3: case 4: case 5:
        {
            if (!g.cx || !g.mut) break;
            s.cx = [f = g.cx](GA<T>& x) { x.crossover_method(f()); };
            s.mut = [f = g.mut](GA<T>& x) { x.mutation_method(f()); }; s.op_rate = g.mut()->mutation_rate(); s.deduce_rate = false;
            const bool st = c.flip(); const size_t k = c.range<size_t>(0, 4);
            if (st) s.stop = [k](GA<T>& x) { x.stop_condition(stopping::FitnessBestStall(k)); };
            if (kind == 3)
            {
                if (st) return std::make_unique<Ga>(g.pop, g.cx(), g.mut(), std::make_unique<stopping::FitnessBestStall>(k));
                return std::make_unique<Ga>(g.pop, g.cx(), g.mut());
            }
            if (kind == 4 && g.alg) { s.alg = [f = g.alg](GA<T>& x) { x.algorithm(f()); }; s.deduce_alg = false; s.alg_nobj = g.nobj; }
            auto a = kind == 4 && g.alg ? g.alg() : std::unique_ptr<algorithm::Algorithm>{};
            if (st) return std::make_unique<Ga>(g.pop, std::move(a), g.cx(), g.mut(), std::make_unique<stopping::FitnessBestStall>(k));
            return std::make_unique<Ga>(g.pop, std::move(a), g.cx(), g.mut());
        }
        case 6: // by value
        {
            using CX = typename GaTraits<T>::DefaultCrossover; using MU = typename GaTraits<T>::DefaultMutation;
            const double p = c.unit(), q = c.unit();
            s.cx = [p](GA<T>& x) { x.crossover_method(CX(p)); }; s.mut = [q](GA<T>& x) { x.mutation_method(MU(q)); }; s.op_rate = q; s.deduce_rate = false;
            switch (c.raw(3))
            {
                case 0: return std::make_unique<Ga>(g.pop, CX(p), MU(q));
                case 1: s.stop = [](GA<T>& x) { x.stop_condition(stopping::FitnessBestStall(2)); }; return std::make_unique<Ga>(g.pop, CX(p), MU(q), stopping::FitnessBestStall(2));
                default:
                    if (g.nobj > 1) { s.alg = [](GA<T>& x) { x.algorithm(algorithm::NSGA2{}); }; s.deduce_alg = false; s.alg_nobj = g.nobj; return std::make_unique<Ga>(g.pop, algorithm::NSGA2{}, CX(p), MU(q)); }
                    s.alg = [](GA<T>& x) { x.algorithm(algorithm::SingleObjective{}); }; s.deduce_alg = false; s.alg_nobj = 1;
                    return std::make_unique<Ga>(g.pop, algorithm::SingleObjective{}, CX(p), MU(q));
            }
        }
        default: break;
    }
    return std::make_unique<Ga>(g.pop);
}

template<typename T>
static void history(pbt::Case& c, Limits L)
{
    using Ga = typename Enc<T>::Ga;
    L.lambdas = false; L.repair = false;
    Settings<T> s;
    auto g = gen_config<T>(c, L);
    Tol tol(g.exact);
    auto ga = construct<T>(c, s, g);
    const size_t rounds = c.range<size_t>(1, 4);
    bool used = false;
    size_t nthreads = 1;
    for (size_t r = 0; r < rounds; r++)
    {
        c.os << "\n round" << r << ":";
        if (r) g = gen_config<T>(c, L);
        // Settings.
        if (r) { s.pop = g.pop; ga->population_size(g.pop); }
        if (c.chance(1, 3)) set_crossover<T>(c, *ga, s, g);
        if (c.chance(1, 4)) { s.pc = c.unit(); ga->crossover_rate(*s.pc); c.os << " pc"; }
        if (c.chance(1, 3)) set_mutation<T>(c, *ga, s, g);
        if (c.chance(1, 5)) { s.pm = c.unit(); ga->mutation_rate(*s.pm); s.deduce_rate = false; c.os << " pm"; }
        if (c.chance(1, 3)) set_algorithm<T>(c, *ga, s, g);
        if (!s.deduce_alg && (s.alg_nobj > 1) != (g.nobj > 1)) set_algorithm<T>(c, *ga, s, g);
        if (c.chance(1, 3)) set_stop<T>(c, *ga, s);
        if (c.chance(1, 4)) set_track<T>(c, *ga, s);
        if (c.chance(1, 2)) { s.cache = g.cache; ga->cache_size(g.cache); }
        if (c.chance(1, 3)) { s.keep_all = g.keep_all; ga->keep_all_optimal_solutions(g.keep_all); }
        if (c.chance(1, 5)) { s.max_gen = c.range<size_t>(1, 8); s.max_gen_set = true; ga->max_gen(s.max_gen); }
        if (c.chance(1, 5))
        {
            if (c.flip()) s.repair = nullptr;
            else s.repair = [](const GA<T>& x, const Chromosome<T>& y) { auto z = y; if (chrom_hash<T>(y) % 3) return z; if constexpr (is_bounded<T>) z[0] = x.gene_bounds()[0].lower(); else std::reverse(z.begin(), z.end()); return z; };
            ga->repair_function(s.repair); c.os << " repair";
        }
        // Moves.
        switch (c.raw(6))
        {
            case 1: { auto o = std::make_unique<Ga>(std::move(*ga)); ga = std::move(o); c.os << " move-ctor"; c.label("moved"); break; }
            case 2:
            {
                auto o = std::make_unique<Ga>(c.range<size_t>(1, 20));
                if (c.flip()) { auto h = gen_config<T>(c, L); h.nthreads = nthreads; h.explicit_operators(); h.apply(*o); run<T>(*o, h); }
                *o = std::move(*ga); ga = std::move(o); c.os << " move-assign"; c.label("moved"); break;
            }
            default: break;
        }
        g.nthreads = nthreads = c.chance(1, 4) ? c.range<size_t>(2, 4) : 1;
        // An aborted run first, sometimes.
        if (c.chance(1, 4))
        {
            auto h = g; auto cnt = std::make_shared<std::atomic<size_t>>(0); const size_t at = c.range<size_t>(0, 4 * h.pop);
            h.fit = [cnt, at, f = g.fit](const Chromosome<T>& x) { if (cnt->fetch_add(1) == at) throw 3; return f(x); };
            threads(h.nthreads);
            bool threw = false;
            try { h.solve(*ga, nullptr); } catch (int) { threw = true; }
            if (threw) c.label("aborted run before");
            c.os << " aborted"; used = true;
        }
        // The compared run.
        auto go = [&](GA<T>& x)
        {
            Trace<T> t; record<T>(x, t); threads(g.nthreads); rng::prng.seed(g.seed);
            auto f = g.func(t.log);
            const bool mg = s.max_gen_set && g.seed % 2;
            if constexpr (is_bounded<T>) t.result = mg ? x.solve(std::move(f), g.bounds, g.init) : x.solve(std::move(f), g.bounds, g.gens, g.init);
            else t.result = mg ? x.solve(std::move(f), g.init) : x.solve(std::move(f), g.gens, g.init);
            x.on_generation_end(nullptr);
            return t;
        };
        auto ref = s.fresh();
        auto t1 = go(*ga);
        auto t2 = go(*ref);
        auto d = diff<T>(t1, t2);
        PBT_CHECK(d.empty(), "round ", r, ": the run differs from that of a fresh object with the same settings: ", d);
        PBT_CHECK(same_pop<T>(ga->solutions(), t1.result), "solutions() differs from the result");
        PBT_CHECK(ga->mutation_rate() == ref->mutation_rate() && ga->crossover_rate() == ref->crossover_rate(), "round ", r, ": rates");
        const double want = s.deduce_rate ? (is_perm<T> ? 0.6 : 1.0 / double(g.len)) : s.pm ? *s.pm : s.op_rate;
        PBT_CHECK(std::abs(double(ga->mutation_rate()) - want) < 1e-12, "round ", r, ": mutation rate ", double(ga->mutation_rate()), " instead of ", want, s.deduce_rate ? " (deduced)" : " (set)");
        if (s.pc) PBT_CHECK(ga->crossover_rate() == *s.pc, "crossover rate ", double(ga->crossover_rate()), " instead of ", *s.pc);
        const bool so = dynamic_cast<const algorithm::SingleObjective*>(&ga->algorithm()), n3 = dynamic_cast<const algorithm::NSGA3*>(&ga->algorithm());
        if (s.deduce_alg) PBT_CHECK(g.nobj == 1 ? so : n3, "round ", r, ": the deduced algorithm for ", g.nobj, " objectives is wrong");
        PBT_CHECK(typeid(ga->algorithm()) == typeid(ref->algorithm()), "algorithm type");
        PBT_CHECK(ga->population_size() == s.pop && ga->keep_all_optimal_solutions() == s.keep_all, "settings changed");
        PBT_CHECK(!s.max_gen_set || ga->max_gen() == s.max_gen, "max_gen() changed");
        if (s.tracking) PBT_CHECK(same_data(metric_data<T>(*ga), metric_data<T>(*ref)), "round ", r, ": the metrics differ from those of a fresh object");
        c.nontrivial(used && t1.gens.size() >= 2);
        if (r) c.label(s.deduce_rate ? "reuse, rate deduced" : "reuse, rate set");
        used = true;
    }
}
PBT_PROP(reuse, 16000, 400000) { Limits L; L.max_gen = 8; for_encoding(c, [&]<typename T>() { history<T>(c, L); }); }
PBT_PROP(reuse_cached_ties, 6000, 200000) { Limits L; L.max_gen = 8; L.max_len = 5; L.tie_heavy = true; L.max_pop = 12; for_encoding(c, [&]<typename T>() { history<T>(c, L); }); }
