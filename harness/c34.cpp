#include "pbt.hpp"
#include "runs.hpp"
#include <thread>
using namespace gapp; using namespace runs;
PBT_RULE("A case is one or two runs with recording selection, crossover, mutation, repair and replacement parts; it is non-trivial if a run had at least two generations, some crossover was performed and some member of a later generation was a new child.");
PBT_ASSUME("The indices returned by the user's replacement are unique and their number is the population size. Comparisons of fitness values use zero tolerances.");

// What the recording parts saw in one generation (the one that produces population i + 1 from population i).
template<typename T> struct Stage
{
    struct Sel { std::thread::id t; size_t idx; };
    struct Cx { std::thread::id t; size_t a, b; Chromosome<T> x, y; size_t nsel; };
    struct InOut { Chromosome<T> in, out; bool evaluated; };
    size_t preps = 0, sel_preps = 0, nexts = 0;
    std::vector<std::pair<char, size_t>> order; // the events by kind and position in the vector of their kind
    std::vector<Sel> sels; std::vector<Cx> cxs; std::vector<InOut> muts, reps; std::vector<Chromosome<T>> evals;
    std::vector<FitnessVector> fmat; std::vector<size_t> chosen;
};
template<typename T> struct Book
{
    std::mutex m; std::string bad; size_t inits = 0, optimals = 0, loose = 0; std::map<size_t, Stage<T>> gens; std::vector<std::vector<size_t>> opt; size_t opt_mode = 0;
    void note(const std::string& s) { if (bad.empty()) bad = s; }
    Stage<T>& at(const GaInfo& ga) { return gens[ga.generation_cntr()]; }
};
template<typename T> using BookPtr = std::shared_ptr<Book<T>>;
static bool same(const FitnessMatrix& m, const FitnessMatrix& n) { if (m.size() != n.size() || m.ncols() != n.ncols()) return false; for (size_t i = 0; i < m.size(); i++) for (size_t k = 0; k < m.ncols(); k++) if (m[i][k] != n[i][k]) return false; return true; }

template<typename T> static void on_init(Book<T>& b, const GaInfo& ga)
{
    std::scoped_lock l(b.m); b.inits++;
    auto& x = dynamic_cast<const GA<T>&>(ga);
    if (ga.generation_cntr() != 0) b.note("the algorithm was initialized in generation " + std::to_string(ga.generation_cntr()));
    if (x.population().size() != ga.population_size() || ga.fitness_matrix().size() != ga.population_size()) b.note("the algorithm was initialized before the initial population was there");
    for (auto& c : x.population()) if (!c.is_evaluated) b.note("the algorithm was initialized before the initial population was evaluated");
    if (!b.gens.empty()) b.note("the algorithm was initialized after other calls");
}
template<typename T> static void on_prepare(Book<T>& b, const GaInfo& ga, const FitnessMatrix& f)
{
    std::scoped_lock l(b.m); auto& s = b.at(ga); s.preps++;
    if (!s.sels.empty()) b.note("prepareSelections() was called after a selection");
    if (!same(f, ga.fitness_matrix())) b.note("prepareSelections() was given another fitness matrix");
}
template<typename T> static size_t on_select(Book<T>& b, const GaInfo& ga, const FitnessMatrix& f)
{
    const size_t i = rng::randomIndex(f);
    std::scoped_lock l(b.m); auto& s = b.at(ga);
    if (!same(f, ga.fitness_matrix())) b.note("select() was given another fitness matrix");
    if (f.size() != ga.population_size()) b.note("select() was given " + std::to_string(f.size()) + " rows");
    if (s.preps != 1) b.note("select() was called after " + std::to_string(s.preps) + " calls of prepareSelections()");
    s.order.push_back({ 's', s.sels.size() }); s.sels.push_back({ std::this_thread::get_id(), i });
    return i;
}
template<typename T> static small_vector<size_t> on_next(Book<T>& b, const GaInfo& ga, const FitnessMatrix& f, int mode)
{
    std::vector<size_t> idx(f.size()); std::iota(idx.begin(), idx.end(), size_t(0));
    if (mode == 0) for (size_t i = idx.size(); i-- > 1;) std::swap(idx[i], idx[rng::randomInt<size_t>(0, i)]);
    else if (mode == 1) std::rotate(idx.begin(), idx.begin() + ga.population_size(), idx.end()); // the children in their order
    else { std::rotate(idx.begin(), idx.begin() + ga.population_size() / 2, idx.end()); } // the second half of the parents, then children
    idx.resize(ga.population_size());
    if (mode == 3) std::reverse(idx.begin(), idx.end());
    std::scoped_lock l(b.m); auto& s = b.at(ga); s.nexts++; s.chosen = idx; s.fmat = rows<T>(f);
    return small_vector<size_t>(idx.begin(), idx.end());
}
template<typename T> struct RecAlg : algorithm::Algorithm
{
    BookPtr<T> b; int mode;
    RecAlg(BookPtr<T> p, int m) : b(std::move(p)), mode(m) {}
    void initializeImpl(const GaInfo& ga) override { on_init<T>(*b, ga); }
    void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix& f) override { on_prepare<T>(*b, ga, f); }
    size_t selectImpl(const GaInfo& ga, const FitnessMatrix& f) const override { return on_select<T>(*b, ga, f); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override { return on_next<T>(*b, ga, f, mode); }
    small_vector<size_t> optimalSolutionsImpl(const GaInfo& ga) const override
    {
        b->optimals++;
        if (b->opt_mode == 0) { b->opt.push_back({}); return {}; }
        auto& f = ga.fitness_matrix(); small_vector<size_t> r; // a Pareto set in reverse order: all of it, or its last member only
        for (size_t i = f.size(); i--;) { bool dom = false; for (size_t k = 0; k < f.size() && !dom; k++) { bool all = true, some = false; for (size_t j = 0; j < f.ncols(); j++) { all &= f[k][j] >= f[i][j]; some |= f[k][j] > f[i][j]; } dom = all && some; } if (!dom) r.push_back(i); }
        if (b->opt_mode == 2) r.resize(1);
        if (b->opt_mode >= 3) // all of the candidates, or some of them in any order, whatever their fitness is
        {
            r.clear(); for (size_t i = f.size(); i--;) r.push_back(i);
            for (size_t i = r.size(); i-- > 1;) std::swap(r[i], r[rng::randomInt<size_t>(0, i)]);
            if (b->opt_mode == 4) r.resize(rng::randomInt<size_t>(1, r.size()));
        }
        b->opt.push_back(std::vector<size_t>(r.begin(), r.end())); return r;
    }
};
template<typename T> struct RecSel : selection::Selection
{
    BookPtr<T> b; explicit RecSel(BookPtr<T> p) : b(std::move(p)) {}
    void initializeImpl(const GaInfo& ga) override { on_init<T>(*b, ga); }
    void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix& f) override { on_prepare<T>(*b, ga, f); }
    size_t selectImpl(const GaInfo& ga, const FitnessMatrix& f) const override { return on_select<T>(*b, ga, f); }
};
template<typename T> struct RecRep : replacement::Replacement
{
    BookPtr<T> b; int mode; RecRep(BookPtr<T> p, int m) : b(std::move(p)), mode(m) {}
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override { return on_next<T>(*b, ga, f, mode); }
};
template<typename T> struct RecCx : crossover::Crossover<T>
{
    BookPtr<T> b; std::unique_ptr<crossover::Crossover<T>> in;
    RecCx(double pc, BookPtr<T> p, std::unique_ptr<crossover::Crossover<T>> x) : crossover::Crossover<T>(pc), b(std::move(p)), in(std::move(x)) {}
    CandidatePair<T> crossover(const GA<T>& ga, const Candidate<T>& x, const Candidate<T>& y) const override
    {
        auto r = (*in)(ga, x, y);
        std::scoped_lock l(b->m); auto& s = b->at(ga); auto& p = ga.population();
        const size_t i = &x - p.data(), k = &y - p.data();
        if (i >= p.size() || k >= p.size()) b->note("the crossover was given a parent that is no member of the population");
        s.order.push_back({ 'c', s.cxs.size() });
        s.cxs.push_back({ std::this_thread::get_id(), i, k, r.first.chromosome, r.second.chromosome, 0 });
        return r;
    }
};
template<typename T> struct RecMut : mutation::Mutation<T>
{
    BookPtr<T> b; std::unique_ptr<mutation::Mutation<T>> in;
    RecMut(double pm, BookPtr<T> p, std::unique_ptr<mutation::Mutation<T>> x) : mutation::Mutation<T>(pm), b(std::move(p)), in(std::move(x)) { in->mutation_rate(pm); }
    void mutate(const GA<T>& ga, const Candidate<T>& cand, Chromosome<T>& x) const override
    {
        const bool ev = cand.is_evaluated; const Chromosome<T> before = x;
        if (&cand.chromosome != &x) { std::scoped_lock l(b->m); b->note("the mutated chromosome is not that of the candidate"); }
        Candidate<T> t(x); (*in)(ga, t); x = t.chromosome;
        std::scoped_lock l(b->m); auto& s = b->at(ga); s.order.push_back({ 'm', s.muts.size() }); s.muts.push_back({ before, x, ev });
    }
};

template<typename T> static void pipeline(pbt::Case& c)
{
    Limits L; L.huge = false; L.repair = false; L.dynamic = true; L.lambdas = true;
    auto g = gen_config<T>(c, L);
    if (c.chance(1, 3)) g.nthreads = c.range<size_t>(2, 6);
    g.explicit_operators(); g.exact = true;
    const double pc = c.chance(1, 2) ? 1.0 : gen_rate(c, true), pm = gen_rate(c, true); const int mode = c.range(0, 3); const bool rep = c.flip();
    const bool soga = g.nobj == 1 && c.flip(); const size_t opt_mode = soga ? 0 : g.keep_all ? c.raw(2) : c.raw(5); const int nruns = c.chance(1, 4) ? 2 : 1;
    c.os << g.desc; c.show("pop", g.pop).show("len", g.len).show("gens", g.gens).show("nobj", g.nobj).show("threads", g.nthreads).show("cache", g.cache).show("keep_all", g.keep_all).show("dynamic", g.dynamic).show("pc", pc).show("pm", pm).show("replacement", mode).show("repair", rep).show("soga", soga).show("opt", opt_mode).show("init", g.init.size()).show("runs", nruns);
    c.label(soga ? "selection and replacement objects" : "algorithm object"); c.label(g.nthreads > 1 ? "several threads" : "one thread"); if (rep) c.label("repair");
    Tol tol(true);
    auto b = std::make_shared<Book<T>>(); b->opt_mode = opt_mode;
    g.alg = [b, mode, soga]() -> std::unique_ptr<algorithm::Algorithm> { if (soga) return std::make_unique<algorithm::SingleObjective>(std::make_unique<RecSel<T>>(b), std::make_unique<RecRep<T>>(b, mode)); return std::make_unique<RecAlg<T>>(b, mode); };
    auto icx = g.cx; auto imut = g.mut; g.pc = g.pm = std::nullopt;
    g.cx = [b, icx, pc] { return std::make_unique<RecCx<T>>(pc, b, icx()); };
    g.mut = [b, imut, pm] { return std::make_unique<RecMut<T>>(pm, b, imut()); };
    if (rep)
    {
        const auto lim = g; const size_t n = g.len; const int tiny = is_real<T> ? c.range(0, 2) : 0;
        g.repair = [b, lim, n, tiny](const GA<T>& ga, const Chromosome<T>& x)
        {
            auto y = x; const auto h = chrom_hash<T>(x);
            if constexpr (is_real<T>) { if (h % 2) { const size_t i = (h >> 8) % n; y[i] = tiny == 0 ? lim.lo(i) : std::clamp(tiny == 1 ? std::nextafter(x[i], 1e300) : x[i] + 1e-13, lim.lo(i), lim.hi(i)); } }
            else if (h % 2) { if constexpr (is_perm<T>) std::rotate(y.begin(), y.begin() + (h >> 8) % n, y.end()); else y[(h >> 8) % n] = (h >> 40) % 2 ? lim.lo((h >> 8) % n) : lim.hi((h >> 8) % n); }
            std::scoped_lock l(b->m); auto& s = b->at(ga); s.order.push_back({ 'r', s.reps.size() }); s.reps.push_back({ x, y, false });
            return y;
        };
    }
    if (is_real<T> && rep && c.flip()) { tol.t.reset(); } // the default tolerances: a repair that changes less than the tolerances counts as well
    auto ga = g.make();
    for (int r = 0; r < nruns; r++)
    {
        b->inits = b->optimals = 0; b->gens.clear(); b->opt.clear();
        auto t = run<T>(*ga, g);
        PBT_CHECK(b->bad.empty(), b->bad);
        PBT_CHECK(b->inits == 1, "the algorithm was initialized ", b->inits, " times");
        if (!soga) PBT_CHECK(b->optimals == (g.keep_all ? g.gens : 1), "optimalSolutions() was called ", b->optimals, " times in ", g.gens, " generations");
        PBT_CHECK(b->gens.size() + 1 == t.gens.size(), "calls in ", b->gens.size(), " generations of ", t.gens.size());
        bool crossed = false, fresh = false;
        for (size_t i = 0; i + 1 < t.gens.size(); i++)
        {
            auto& s = b->gens[i]; auto& P = t.gens[i].pop; auto& N = t.gens[i + 1].pop; const std::string in = "generation " + std::to_string(i + 1) + ": ";
            const size_t pairs = (g.pop + 1) / 2;
            PBT_CHECK(s.preps == 1 && s.nexts == 1, in, s.preps, " calls of prepareSelections(), ", s.nexts, " of nextPopulation()");
            PBT_CHECK(s.sels.size() == 2 * pairs, in, s.sels.size(), " selections");
            PBT_CHECK(s.muts.size() == g.pop, in, s.muts.size(), " mutations");
            if (rep) PBT_CHECK(s.reps.size() == g.pop, in, s.reps.size(), " repairs");
            // Stages in the order selections and crossovers, then mutations, repairs; per thread, the selections come in pairs that go to one crossover.
            struct Open { std::vector<size_t> sel; }; std::map<std::thread::id, Open> open; std::multiset<Chromosome<T>> made; bool later = false;
            std::vector<std::pair<Chromosome<T>, Chromosome<T>>> uncrossed; size_t pair_no = 0; std::optional<Chromosome<T>> dropped; bool drop_any = false; std::pair<Chromosome<T>, Chromosome<T>> last_plain;
            auto close = [&](Open& o, const typename Stage<T>::Cx* x)
            {
                const size_t u = o.sel[0], v = o.sel[1]; o.sel.clear(); pair_no++;
                if (x)
                {
                    PBT_CHECK((x->a == u && x->b == v) || (x->a == v && x->b == u), in, "the crossover was given candidates ", x->a, " and ", x->b, " instead of the selected ", u, " and ", v);
                    PBT_CHECK(!(P[u] == P[v]), in, "the crossover was performed on equal parents");
                    PBT_CHECK(pc > 0, in, "crossover at rate 0");
                    made.insert(x->x); made.insert(x->y); crossed = true; dropped = x->y; drop_any = false;
                }
                else
                {
                    PBT_CHECK(pc < 1 || P[u] == P[v], in, "no crossover of the different selected candidates ", u, " and ", v, " at rate 1");
                    made.insert(P[u].chromosome); made.insert(P[v].chromosome); dropped.reset(); drop_any = true; last_plain = { P[u].chromosome, P[v].chromosome };
                }
            };
            std::thread::id last;
            for (auto [k, at] : s.order)
            {
                if (k == 's') { PBT_CHECK(!later, in, "a selection after a mutation"); auto& o = open[s.sels[at].t]; if (o.sel.size() == 2) close(o, nullptr); o.sel.push_back(s.sels[at].idx); last = s.sels[at].t; }
                else if (k == 'c') { PBT_CHECK(!later, in, "a crossover after a mutation"); auto& o = open[s.cxs[at].t]; PBT_CHECK(o.sel.size() == 2, in, "a crossover after ", o.sel.size(), " selections"); close(o, &s.cxs[at]); }
                else later = true;
            }
            for (auto& [id, o] : open) if (id != last && !o.sel.empty()) { PBT_CHECK(o.sel.size() == 2, in, "an odd number of selections on a thread"); const auto keep = std::tuple(dropped, drop_any, last_plain); close(o, nullptr); std::tie(dropped, drop_any, last_plain) = keep; }
            if (pairs && !open[last].sel.empty()) { PBT_CHECK(open[last].sel.size() == 2, in, "an odd number of selections"); close(open[last], nullptr); }
            std::multiset<Chromosome<T>> given; for (auto& m : s.muts) given.insert(m.in);
            if (g.pop % 2)
            {
                // The second child of the last pair is not used (of an uncrossed pair: either of the two).
                if (!drop_any) { auto it = made.find(*dropped); PBT_CHECK(it != made.end(), "model"); made.erase(it); PBT_CHECK(made == given, in, "the mutation was not given exactly the children of the crossovers"); }
                else { auto m1 = made, m2 = made; m1.erase(m1.find(last_plain.first)); m2.erase(m2.find(last_plain.second)); PBT_CHECK(m1 == given || m2 == given, in, "the mutation was not given exactly the children of the crossovers"); }
            }
            else PBT_CHECK(made == given, in, "the mutation was not given exactly the children of the crossovers");
            std::multiset<Chromosome<T>> mutated; for (auto& m : s.muts) mutated.insert(m.out);
            std::multiset<Chromosome<T>> children = mutated;
            if (rep)
            {
                std::multiset<Chromosome<T>> ri; children.clear(); for (auto& m : s.reps) { ri.insert(m.in); children.insert(m.out); }
                PBT_CHECK(ri == mutated, in, "the repair function was not given exactly the mutated children");
            }
            // The replacement: the parents in their order, then the evaluated children.
            PBT_CHECK(s.fmat.size() == 2 * g.pop, in, "the replacement was given ", s.fmat.size(), " candidates");
            for (size_t k = 0; k < g.pop; k++) PBT_CHECK(s.fmat[k] == P[k].fitness, in, "row ", k, " given to the replacement is not the fitness of parent ", k);
            const bool loose = !tol.t && is_real<T>; // equal to within the tolerances: the fitness may be that of the parent or the cached one
            if (!loose)
            {
                std::multiset<std::vector<double>> want, got; for (auto& x : children) { auto f = g.fit(x); want.insert(std::vector<double>(f.begin(), f.end())); } for (size_t k = g.pop; k < 2 * g.pop; k++) got.insert(std::vector<double>(s.fmat[k].begin(), s.fmat[k].end()));
                PBT_CHECK(want == got, in, "the replacement was not given the fitness values of the children");
                if (g.nthreads == 1) for (size_t k = 0; k < g.pop; k++) PBT_CHECK(s.fmat[g.pop + k] == g.fit(rep ? s.reps[k].out : s.muts[k].out), in, "row ", g.pop + k, " given to the replacement is not the fitness of child ", k);
            }
            auto rest = children;
            for (size_t k = 0; k < g.pop; k++)
            {
                const size_t at = s.chosen[k];
                PBT_CHECK(N[k].fitness == s.fmat[at], in, "candidate ", k, " has not the fitness of the chosen candidate ", at);
                if (at < g.pop) PBT_CHECK(N[k].chromosome == P[at].chromosome, in, "candidate ", k, " is not the chosen parent ", at);
                else
                {
                    auto it = rest.find(N[k].chromosome); PBT_CHECK(it != rest.end(), in, "candidate ", k, " is not one of the children: ", pbt::str(N[k].chromosome)); rest.erase(it); fresh = true;
                    if (g.nthreads == 1) PBT_CHECK(N[k].chromosome == (rep ? s.reps : s.muts)[at - g.pop].out, in, "candidate ", k, " is not child ", at - g.pop);
                }
            }
        }
        if (opt_mode && !soga && tol.t) // the solutions that the algorithm names
        {
            auto check = [&](const Candidates<T>& sols, const std::set<Chromosome<T>>& want, size_t i) { std::set<Chromosome<T>> got; for (auto& x : sols) PBT_CHECK(got.insert(x.chromosome).second, "a solution is listed twice in generation ", i); PBT_CHECK(got == want, got.size(), " solutions instead of the ", want.size(), " named by the algorithm in generation ", i); };
            if (!g.keep_all) { std::set<Chromosome<T>> want; for (size_t k : b->opt.back()) want.insert(t.gens.back().pop[k].chromosome); check(t.result, want, t.gens.size() - 1); }
            else { std::set<Chromosome<T>> want; for (size_t k : b->opt[0]) want.insert(t.gens[0].pop[k].chromosome); check(t.gens[0].sols, want, 0); }
        }
        c.nontrivial(t.gens.size() >= 2 && crossed && fresh);
    }
}
PBT_PROP(binary, 3000, 100000) { pipeline<BinaryGene>(c); }
PBT_PROP(integer, 3000, 100000) { pipeline<IntegerGene>(c); }
PBT_PROP(permutation, 3000, 100000) { pipeline<PermutationGene>(c); }
PBT_PROP(real, 4000, 130000) { pipeline<RealGene>(c); }
