// Runs a multi-objective algorithm on candidates with prescribed fitness vectors.
// A candidate is its id (an IntegerGA chromosome of length 1); every child gets a new id by the mutation.
#pragma once
#include "fmats.hpp"
#include <atomic>
#include <mutex>

namespace nsga
{
    using namespace gapp;
    using fm::Row; using fm::Rows;

    struct Fit final : FitnessFunctionBase<IntegerGene>
    {
        const Rows& rows; mutable std::mutex m; mutable std::vector<size_t> log; // not called from threads at once unless threads are used
        Fit(const Rows& r) : FitnessFunctionBase(1), rows(r) {}
        FitnessVector invoke(const Chromosome<IntegerGene>& x) const override
        {
            const size_t id = size_t(x[0]) % rows.size();
            { std::lock_guard l(m); log.push_back(id); }
            return FitnessVector(rows[id].begin(), rows[id].end());
        }
    };
    struct View
    {
        size_t gen;
        std::vector<size_t> ids;        // the population of this generation
        std::vector<size_t> considered; // parents and children it was chosen from (empty in the first generation)
        std::function<size_t()> select; // index in the population
        std::vector<size_t> optimal;    // indices in the population
    };
    // rows must have pop * (gens + 1) + 2 * gens elements at least.
    template<typename Alg> void drive(Alg alg, const Rows& rows, size_t pop, size_t gens, const std::function<void(const View&)>& see)
    {
        std::atomic<size_t> next = pop;
        IntegerGA ga(pop);
        ga.algorithm(std::move(alg));
        ga.crossover_rate(0.0);
        ga.mutation_method([&](const GA<IntegerGene>&, const Candidate<IntegerGene>&, Chromosome<IntegerGene>& x) { x[0] = IntegerGene(next++); });
        auto fit = std::make_unique<Fit>(rows); Fit* f = fit.get();
        Population<IntegerGene> init; for (size_t i = 0; i < pop; i++) init.push_back(Candidate<IntegerGene>(Chromosome<IntegerGene>{ IntegerGene(i) }));
        std::vector<size_t> prev; std::string err;
        ga.on_generation_end([&](const GaInfo& info)
        {
            View v; v.gen = info.generation_cntr();
            const auto& p = ga.population();
            const auto& fmat = info.fitness_matrix();
            PBT_CHECK(p.size() == pop, "population of size ", p.size(), " instead of ", pop);
            for (auto& x : p)
            {
                PBT_CHECK(x.chromosome.size() == 1, "chromosome length"); const size_t id = size_t(x.chromosome[0]);
                PBT_CHECK(id < next && id < rows.size(), "unknown candidate ", id);
                PBT_CHECK(x.is_evaluated && std::equal(x.fitness.begin(), x.fitness.end(), rows[id].begin(), rows[id].end()), "candidate ", id, " does not have its own fitness");
                v.ids.push_back(id);
            }
            if (v.gen) { v.considered = prev; v.considered.insert(v.considered.end(), f->log.begin(), f->log.end()); }
            std::sort(v.considered.begin(), v.considered.end());
            PBT_CHECK(std::adjacent_find(v.considered.begin(), v.considered.end()) == v.considered.end(), "a candidate was evaluated twice");
            f->log.clear(); prev = v.ids;
            v.select = [&] { return size_t(&info.algorithm().template select<IntegerGene>(ga, p, fmat) - &p[0]); };
            { std::map<size_t, size_t> at; for (size_t i = 0; i < pop; i++) at[v.ids[i]] = i; for (auto& x : info.algorithm().template optimalSolutions<IntegerGene>(ga, p)) { PBT_CHECK(at.count(size_t(x.chromosome[0])), "an optimal solution is not in the population"); v.optimal.push_back(at[size_t(x.chromosome[0])]); } }
            see(v);
        });
        try { ga.solve(std::move(fit), Bounds<IntegerGene>{ 0, IntegerGene(rows.size() + 10) }, gens, std::move(init)); }
        catch (const pbt::Failure&) { throw; }
    }
    inline Rows sub(const Rows& r, const std::vector<size_t>& ids) { Rows s; for (size_t i : ids) s.push_back(r[i]); return s; }

    // Distinct members, size, no discarded candidate of a better rank. Returns the ranks of the considered candidates.
    inline std::map<size_t, size_t> check_fronts(const View& v, const Rows& rows)
    {
        std::set<size_t> kept(v.ids.begin(), v.ids.end());
        PBT_CHECK(kept.size() == v.ids.size(), "a candidate occurs twice in the next population: ", pbt::str(v.ids));
        auto rk = fm::ranks(sub(rows, v.considered));
        std::map<size_t, size_t> r; for (size_t i = 0; i < rk.size(); i++) r[v.considered[i]] = rk[i];
        size_t worst = 0;
        for (size_t id : v.ids) { PBT_CHECK(r.count(id), "candidate ", id, " of the next population is neither a parent nor a child"); worst = std::max(worst, r[id]); }
        for (auto& [id, k] : r) PBT_CHECK(kept.count(id) || k >= worst, "generation ", v.gen, ": candidate ", id, " of rank ", k, " was discarded but one of rank ", worst, " was kept");
        return r;
    }
    inline void check_optimal(const View& v, const Rows& rows)
    {
        auto rk = fm::ranks(sub(rows, v.ids)); std::set<size_t> got(v.optimal.begin(), v.optimal.end()), want;
        for (size_t i = 0; i < rk.size(); i++) if (!rk[i]) want.insert(i);
        PBT_CHECK(got == want, "generation ", v.gen, ": reported optimal solutions ", pbt::str(got), " instead of ", pbt::str(want));
    }
    // Observed selection frequencies against intervals [lo, hi] of the selection probability.
    inline void check_freq(const View& v, const std::vector<std::pair<double, double>>& p, size_t N, const char* what)
    {
        std::vector<size_t> cnt(v.ids.size());
        for (size_t i = 0; i < N; i++) { const size_t k = v.select(); PBT_CHECK(k < cnt.size(), "selected index ", k); cnt[k]++; }
        for (size_t i = 0; i < cnt.size(); i++)
        {
            const double f = double(cnt[i]) / N;
            if (f < p[i].first) PBT_CHECK(pbt::plausible_count(double(cnt[i]), double(N), p[i].first), what, " generation ", v.gen, ": candidate ", v.ids[i], " at index ", i, " selected ", cnt[i], " times in ", N, ", expected at least ", p[i].first * N);
            if (f > p[i].second) PBT_CHECK(pbt::plausible_count(double(cnt[i]), double(N), p[i].second), what, " generation ", v.gen, ": candidate ", v.ids[i], " at index ", i, " selected ", cnt[i], " times in ", N, ", expected at most ", p[i].second * N);
        }
    }
}
