// A GA object that was run once, as the context for calling operators directly.
#pragma once
#include "pbt.hpp"
#include "gapp.hpp"
namespace ctx
{
    using namespace gapp;
    template<typename T> struct Dummy final : FitnessFunctionBase<T> { size_t nobj; Dummy(size_t len, size_t n = 1) : FitnessFunctionBase<T>(len), nobj(n) {} FitnessVector invoke(const Chromosome<T>&) const override { return FitnessVector(nobj, 0.0); } };
    inline void run(BinaryGA& ga, size_t len, size_t nobj = 1) { ga.solve(std::make_unique<Dummy<BinaryGene>>(len, nobj), 1); }
    inline void run(PermutationGA& ga, size_t len, size_t nobj = 1) { ga.solve(std::make_unique<Dummy<PermutationGene>>(len, nobj), 1); }
    inline void run(IntegerGA& ga, BoundsVector<IntegerGene> b, size_t nobj = 1) { const size_t n = b.size(); ga.solve(std::make_unique<Dummy<IntegerGene>>(n, nobj), std::move(b), 1); }
    inline void run(RCGA& ga, BoundsVector<RealGene> b, size_t nobj = 1) { const size_t n = b.size(); ga.solve(std::make_unique<Dummy<RealGene>>(n, nobj), std::move(b), 1); }
    template<typename T> Candidate<T> cand(Chromosome<T> x, FitnessVector f = { 0.0 }) { Candidate<T> k(std::move(x)); k.fitness = std::move(f); k.is_evaluated = true; return k; }
    inline void one_thread() { if (execution_threads() != 1) execution_threads(1); }
    template<typename V> std::string vs(const V& v) { std::ostringstream s; s << '['; for (const auto& e : v) s << +e << ' '; s << ']'; return s.str(); }
}
