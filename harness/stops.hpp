// Runs with scripted fitness histories, and models of the early-stop conditions.
#pragma once
#include "ctx.hpp"
#include <memory>
namespace stops
{
    using namespace gapp;
    using Rows = std::vector<std::vector<double>>;

    // The next generation is the children.
    struct KeepKids final : algorithm::Algorithm
    {
        small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& fmat) override { small_vector<size_t> v; for (size_t i = fmat.size() - ga.population_size(); i < fmat.size(); i++) v.push_back(i); return v; }
        size_t selectImpl(const GaInfo& ga, const FitnessMatrix&) const override { return rng::randomInt<size_t>(0, ga.population_size() - 1); }
    };
    // Evaluation k gets row k of the script, whatever the chromosome is.
    struct Script final : FitnessFunctionBase<IntegerGene>
    {
        std::shared_ptr<Rows> rows; std::shared_ptr<size_t> next;
        Script(std::shared_ptr<Rows> r, bool dynamic) : FitnessFunctionBase<IntegerGene>(2, dynamic ? FitnessFunctionBase<IntegerGene>::Type::Dynamic : FitnessFunctionBase<IntegerGene>::Type::Static), rows(std::move(r)), next(std::make_shared<size_t>(0)) {}
        FitnessVector invoke(const Chromosome<IntegerGene>&) const override { const auto& r = (*rows)[(*next)++ % rows->size()]; return FitnessVector(r.begin(), r.end()); }
    };

    enum Kind { Evals, Value, MeanStall, BestStall, Never };
    inline const char* names[] = { "FitnessEvals", "FitnessValue", "FitnessMeanStall", "FitnessBestStall", "NoEarlyStop" };
    struct Params { Kind kind = Never; size_t n = 0; double delta = 0; std::vector<double> threshold; };

    struct Model
    {
        Params p; std::vector<double> best; size_t stalled = 0; bool ambiguous = false;
        void start(size_t nobj) { best.assign(nobj, -math::inf<double>); stalled = 0; }
        bool step(const Rows& f, size_t evals)
        {
            const size_t m = best.size();
            switch (p.kind)
            {
                case Never: return false;
                case Evals: return evals >= p.n;
                case Value:
                    for (auto& r : f) { bool all = true; for (size_t j = 0; j < m; j++) { if (std::abs(r[j] - p.threshold[j]) < 1e-9 && r[j] != p.threshold[j]) ambiguous = true; all = all && r[j] >= p.threshold[j]; } if (all) return true; }
                    return false;
                default:
                {
                    bool improved = false;
                    for (size_t j = 0; j < m; j++)
                    {
                        double v = p.kind == BestStall ? -math::inf<double> : 0;
                        for (auto& r : f) v = p.kind == BestStall ? std::max(v, r[j]) : v + r[j] / double(f.size());
                        // Values that meet the limit up to rounding may be counted either way.
                        if (best[j] > -1e300 && std::abs(v - (best[j] + p.delta)) <= 1e-9 * (1 + std::abs(v)) && !(p.kind == BestStall && (v - best[j]) == p.delta && v == best[j] + p.delta)) ambiguous = true;
                        if (std::isnan(v) || (std::isinf(v) && v == best[j])) ambiguous = true; // a difference of infinities
                        if (v >= best[j] + p.delta) { best[j] = v; improved = true; }
                    }
                    stalled = improved ? 0 : stalled + 1;
                    return stalled > p.n;
                }
            }
        }
    };
    inline std::unique_ptr<stopping::StopCondition> make(const Params& p)
    {
        switch (p.kind)
        {
            case Evals: return std::make_unique<stopping::FitnessEvals>(p.n);
            case Value: return std::make_unique<stopping::FitnessValue>(FitnessVector(p.threshold.begin(), p.threshold.end()));
            case MeanStall: return std::make_unique<stopping::FitnessMeanStall>(p.n, p.delta);
            case BestStall: return std::make_unique<stopping::FitnessBestStall>(p.n, p.delta);
            default: return std::make_unique<stopping::NoEarlyStop>();
        }
    }
    inline Params gen_params(pbt::Case& c, size_t nobj, size_t pop, size_t gens, int kind = -1)
    {
        Params p; p.kind = kind >= 0 ? Kind(kind) : Kind(c.raw(4));
        switch (p.kind)
        {
            case Evals: p.n = c.pick({ c.range<size_t>(0, pop * gens + 2), pop, size_t(0), std::numeric_limits<size_t>::max() }); break;
            case Value: for (size_t j = 0; j < nobj; j++) p.threshold.push_back(c.pick({ 4.0, 2.0, 6.0, -1.0, 3.5, math::inf<double>, -math::inf<double> })); if (!c.chance(1, 6)) for (auto& t : p.threshold) if (std::isinf(t)) t = 5.0; break;
            case MeanStall: case BestStall: p.n = c.pick({ size_t(c.raw(4)), size_t(c.raw(4)), c.range<size_t>(0, gens), std::numeric_limits<size_t>::max(), std::numeric_limits<size_t>::max() - 1 }); p.delta = c.pick({ 0.3, 1e-6, 0.0, 1.0, -0.7, -2.0, 2.3 }); break;
            default: break;
        }
        c.show("cond", names[p.kind]).show("n", p.n).show("delta", p.delta).showv("threshold", p.threshold);
        return p;
    }
    // A script for the given number of rows: improving slowly, oscillating, jumping or constant.
    inline Rows gen_script(pbt::Case& c, size_t rows, size_t pop, size_t nobj)
    {
        Rows r; std::vector<double> base(nobj, 0.0); std::vector<int> shape(nobj); for (auto& s : shape) s = c.raw(6);
        for (size_t i = 0; i < rows; i++)
        {
            if (i % pop == 0) for (size_t j = 0; j < nobj; j++) switch (shape[j]) { case 0: break; case 1: base[j] += c.pick({ 0.0, 0.25, 0.5 }); break; case 2: base[j] = double(c.range(0, 4)); break; case 3: if (c.chance(1, 4)) base[j] += 1; break; case 4: base[j] -= c.pick({ 0.0, 0.5 }); break; default: base[j] = (i / pop) % 2 ? 3 : 0; }
            r.emplace_back(); for (size_t j = 0; j < nobj; j++) r.back().push_back(base[j] + (c.chance(1, 2) ? 0.0 : double(c.range(-4, 4)) / 4));
        }
        if (c.chance(1, 12)) for (auto& x : r) for (auto& y : x) if (c.chance(1, 8)) y = c.flip() ? math::inf<double> : -math::inf<double>;
        return r;
    }
    struct Seen { Rows fit; size_t evals; };
    inline Seen look(const GaInfo& ga) { Seen s; for (const auto& r : ga.fitness_matrix()) s.fit.emplace_back(r.begin(), r.end()); s.evals = ga.num_fitness_evals(); return s; }
    inline std::string text(const std::vector<Seen>& h) { std::string o; for (auto& s : h) { o += " ["; for (auto& r : s.fit) o += pbt::str(r); o += "] evals " + std::to_string(s.evals) + ";"; } return o; }

    // The script is consumed by one run. The condition set on the GA is used.
    inline void run(IntegerGA& ga, std::shared_ptr<Rows> script, bool dynamic, size_t gens, std::vector<Seen>& seen)
    {
        seen.clear();
        ga.on_generation_end([&](const GaInfo& info) { seen.push_back(look(info)); });
        ga.solve(std::make_unique<Script>(script, dynamic), Bounds<IntegerGene>{ 0, 50 }, gens);
    }
}
