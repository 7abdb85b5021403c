#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case is one full run of a generated configuration with a static fitness function; it is non-trivial if the run had at least two generations and some candidate of a later generation kept its fitness without a call of the fitness function in that generation (so that carrying over was exercised).");
PBT_ASSUME("The fitness function is a pure function of the chromosome; user supplied initial candidates that are marked as evaluated carry their true fitness.");
PBT_ASSUME("Real-encoded candidates are compared with zero tolerances here (with non-zero tolerances a child that compares equal to its parent inherits the fitness of the parent by design).");

template<typename T>
static void check_run(pbt::Case& c, Limits L)
{
    L.evaluated_init = true;
    auto g = gen_config<T>(c, L);
    Tol tol(is_real<T> || g.exact);
    auto ga = g.make();
    auto t = run<T>(*ga, g);
    auto chk = [&](const Candidate<T>& x, auto... what)
    {
        if (!x.is_evaluated) pbt::fail(what..., ": candidate is not marked as evaluated");
        const auto f = g.fit(x.chromosome);
        if (!(x.fitness == f)) pbt::fail(what..., ": candidate ", pbt::str(x.chromosome), " carries fitness ", pbt::str(x.fitness), " but its fitness is ", pbt::str(f));
    };
    size_t carried = 0;
    for (size_t i = 0; i < t.gens.size(); i++)
    {
        auto& s = t.gens[i];
        for (size_t k = 0; k < s.pop.size(); k++) chk(s.pop[k], "generation ", i, " candidate ", k);
        for (size_t k = 0; k < s.sols.size(); k++) chk(s.sols[k], "generation ", i, " solution ", k);
        PBT_CHECK(s.fmat.size() == s.pop.size(), "fitness matrix has ", s.fmat.size(), " rows for ", s.pop.size(), " candidates in generation ", i);
        for (size_t k = 0; k < s.pop.size(); k++) PBT_CHECK(s.fmat[k] == s.pop[k].fitness, "row ", k, " of the fitness matrix in generation ", i);
        if (i) carried += s.calls - t.gens[i - 1].calls < g.pop;
    }
    for (auto& x : t.result) chk(x, "returned solution");
    for (auto& x : ga->solutions()) chk(x, "solutions()");
    for (auto& x : ga->population()) chk(x, "final population");
    c.nontrivial(t.gens.size() >= 2 && carried);
    if (g.cache) c.label("cached"); if (g.repair) c.label("repair");
}
PBT_PROP(binary, 3000, 80000) { check_run<BinaryGene>(c, {}); }
PBT_PROP(integer, 3000, 60000) { check_run<IntegerGene>(c, {}); }
PBT_PROP(permutation, 3000, 60000) { check_run<PermutationGene>(c, {}); }
PBT_PROP(real, 3000, 60000) { check_run<RealGene>(c, {}); }
PBT_PROP(short_chromosomes, 6000, 150000) // many repeated chromosomes
{
    Limits L; L.max_len = 5; L.max_pop = 14; L.max_gen = 20; L.huge = false;
    for_encoding(c, [&]<typename T>() { check_run<T>(c, L); });
}
