#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case is one full run of a generated configuration (encoding x operators x algorithm x bounds x sizes x threads x initial population); it is non-trivial if the run had at least two generations, at least two genes or a population of at least two, and at least one chromosome other than those of the initial generation was seen.");
PBT_ASSUME("Real bounds have magnitude at most 1e100; user supplied initial candidates and repair functions are valid for the encoding.");

template<typename T>
static void check_run(pbt::Case& c, const Limits& L)
{
    auto g = gen_config<T>(c, L);
    Tol tol(g.exact);
    auto ga = g.make();
    auto t = run<T>(*ga, g);
    auto chk = [&](const Chromosome<T>& x, auto... what) { if (auto e = g.invalid(x); !e.empty()) pbt::fail(what..., ": ", e, " in ", pbt::str(x)); };
    for (size_t i = 0; i < t.log->calls.size(); i++) chk(t.log->calls[i], "argument of the fitness function, call ", i);
    std::set<Chromosome<T>> first;
    bool fresh = false;
    for (size_t i = 0; i < t.gens.size(); i++)
    {
        for (auto& x : t.gens[i].pop) { chk(x.chromosome, "population of generation ", i); if (!i) first.insert(x.chromosome); else fresh |= !first.count(x.chromosome); }
        for (auto& x : t.gens[i].sols) chk(x.chromosome, "solutions in generation ", i);
    }
    for (auto& x : t.result) chk(x.chromosome, "returned solution");
    for (auto& x : ga->population()) chk(x.chromosome, "final population");
    c.nontrivial(t.gens.size() >= 2 && (g.len > 1 || g.pop > 1) && fresh);
}

PBT_PROP(binary, 2500, 60000) { check_run<BinaryGene>(c, {}); }
PBT_PROP(integer, 2500, 60000) { check_run<IntegerGene>(c, {}); }
PBT_PROP(permutation, 3500, 80000) { check_run<PermutationGene>(c, {}); }
PBT_PROP(real, 4000, 80000) { check_run<RealGene>(c, {}); }
PBT_PROP(long_chromosomes, 300, 6000)
{
    Limits L; L.max_len = 300; L.max_pop = 12; L.max_gen = 6;
    for_encoding(c, [&]<typename T>() { check_run<T>(c, L); });
}
