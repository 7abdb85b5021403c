// Generation of complete GA configurations and recording of whole runs.
#pragma once
#include "gapp.hpp"
#include <mutex>
#include <atomic>
#include <memory>
#include <optional>

namespace runs
{
    using namespace gapp;

    template<typename T> struct Enc;
    template<> struct Enc<BinaryGene>      { using Ga = BinaryGA;      static constexpr const char* name = "binary"; };
    template<> struct Enc<RealGene>        { using Ga = RCGA;          static constexpr const char* name = "real"; };
    template<> struct Enc<PermutationGene> { using Ga = PermutationGA; static constexpr const char* name = "perm"; };
    template<> struct Enc<IntegerGene>     { using Ga = IntegerGA;     static constexpr const char* name = "integer"; };

    template<typename T> constexpr bool is_real = std::is_same_v<T, RealGene>;
    template<typename T> constexpr bool is_perm = std::is_same_v<T, PermutationGene>;
    template<typename T> constexpr bool is_int = std::is_same_v<T, IntegerGene>;
    template<typename T> constexpr bool is_bin = std::is_same_v<T, BinaryGene>;

    inline void threads(size_t n) { if (execution_threads() != n) execution_threads(n); }

    inline pbt::u64 mix(pbt::u64 h, pbt::u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull ^ (h >> 31); }
    template<typename T> pbt::u64 gene_bits(T g) { if constexpr (is_real<T>) { pbt::u64 b; double d = g + 0.0; std::memcpy(&b, &d, 8); return b; } else return pbt::u64(g); }
    template<typename T> pbt::u64 chrom_hash(const Chromosome<T>& x) { pbt::u64 h = 77; for (auto g : x) h = mix(h, gene_bits(g)); return h; }

    template<typename T> using Fit = std::function<FitnessVector(const Chromosome<T>&)>;

    // What the fitness function of a run saw. Shared with the function object that is moved into the GA.
    template<typename T>
    struct Log
    {
        std::mutex m;
        std::vector<Chromosome<T>> calls;
        size_t count() { std::scoped_lock l(m); return calls.size(); }
    };

    template<typename T>
    class Rec : public FitnessFunctionBase<T>
    {
    public:
        Rec(size_t len, FitnessFunctionInfo::Type type, std::shared_ptr<Log<T>> log, Fit<T> f) : FitnessFunctionBase<T>(len, type), log_(std::move(log)), f_(std::move(f)) {}
    private:
        std::shared_ptr<Log<T>> log_;
        Fit<T> f_;
        FitnessVector invoke(const Chromosome<T>& x) const override
        {
            if (log_) { std::scoped_lock l(log_->m); log_->calls.push_back(x); }
            return f_(x);
        }
    };

    // One complete configuration. All factories create a fresh identical object at every call.
    template<typename T>
    struct Config
    {
        using Ga = typename Enc<T>::Ga;
        size_t pop = 10, len = 1, nobj = 1, gens = 1, nthreads = 1, cache = 0;
        pbt::u64 seed = 0;
        bool dynamic = false, keep_all = false, exact = true;
        BoundsVector<T> bounds;
        bool uniform_bounds = false;
        Fit<T> fit;
        std::function<std::unique_ptr<crossover::Crossover<T>>()> cx;   // null: default
        std::function<std::unique_ptr<mutation::Mutation<T>>()> mut;    // null: default
        std::function<std::unique_ptr<algorithm::Algorithm>()> alg;     // null: default
        std::optional<double> pc, pm;
        typename GA<T>::RepairCallable repair;
        Population<T> init;
        std::string desc, alg_name, sel_name, rep_name;

        FitnessFunctionInfo::Type type() const { return dynamic ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static; }
        std::unique_ptr<FitnessFunctionBase<T>> func(std::shared_ptr<Log<T>> log) const { return std::make_unique<Rec<T>>(len, type(), std::move(log), fit); }

        void apply(GA<T>& ga) const
        {
            ga.population_size(pop);
            if (cx) ga.crossover_method(cx());
            if (mut) ga.mutation_method(mut());
            if (pc) ga.crossover_rate(*pc);
            if (pm) ga.mutation_rate(*pm);
            if (alg) ga.algorithm(alg()); else ga.algorithm(nullptr);
            ga.cache_size(cache);
            ga.keep_all_optimal_solutions(keep_all);
            ga.repair_function(repair);
        }
        // For objects that already have other operators: replaces the null factories by the default operators.
        void explicit_operators()
        {
            if (!cx) cx = [] { return std::make_unique<typename GaTraits<T>::DefaultCrossover>(); };
            if (!mut) { const double p = GaTraits<T>::defaultMutationRate(len); mut = [p] { return std::make_unique<typename GaTraits<T>::DefaultMutation>(p); }; }
        }
        std::unique_ptr<Ga> make() const { auto ga = std::make_unique<Ga>(pop); apply(*ga); return ga; }

        Candidates<T> solve(GA<T>& ga, std::shared_ptr<Log<T>> log) const
        {
            if constexpr (is_bounded<T>) return ga.solve(func(std::move(log)), bounds, gens, init);
            else return ga.solve(func(std::move(log)), gens, init);
        }
        T lo(size_t i) const { if constexpr (is_bounded<T>) return bounds[i].lower(); else return T(0); }
        T hi(size_t i) const { if constexpr (is_bounded<T>) return bounds[i].upper(); else if constexpr (is_bin<T>) return T(1); else return T(len - 1); }

        std::string invalid(const Chromosome<T>& x) const
        {
            if (x.size() != len) return "length " + std::to_string(x.size()) + " instead of " + std::to_string(len);
            for (size_t i = 0; i < len; i++)
            {
                if (!(lo(i) <= x[i] && x[i] <= hi(i))) { std::ostringstream s; s.precision(17); s << "gene " << i << " = " << +x[i] << " outside of [" << +lo(i) << ", " << +hi(i) << "]"; return s.str(); }
            }
            if constexpr (is_perm<T>)
            {
                std::vector<bool> seen(len);
                for (auto g : x) { if (seen[g]) return "gene " + std::to_string(g) + " is repeated"; seen[g] = true; }
            }
            return {};
        }
    };

    struct Limits
    {
        size_t max_pop = 30, max_len = 24, max_gen = 12, max_obj = 4, max_threads = 4;
        bool dynamic = false, init = true, repair = true, cache = true, huge = true, extreme_rates = true, multi = true, lambdas = true, evaluated_init = false;
        bool big = true; // now and then a much larger population, chromosome, generation number, ...
        bool tie_heavy = false, near_ties = false; // near ties: values that differ by about the tolerances
        unsigned thread_den = 3; // one in thread_den cases uses several threads
    };

    template<typename T>
    Chromosome<T> gen_chrom(pbt::Case& c, const Config<T>& g)
    {
        Chromosome<T> x(g.len);
        if constexpr (is_perm<T>) x = c.perm<T>(g.len);
        else for (size_t i = 0; i < g.len; i++)
        {
            if constexpr (is_real<T>)
            {
                const double lo = g.lo(i), hi = g.hi(i);
                switch (c.raw(4)) { case 0: x[i] = lo; break; case 1: x[i] = hi; break; default: x[i] = std::clamp(lo + (hi - lo) * c.unit(), lo, hi); }
            }
            else x[i] = c.range<T>(g.lo(i), g.hi(i));
        }
        return x;
    }

    template<typename T>
    void gen_bounds(pbt::Case& c, Config<T>& g, bool huge)
    {
        if constexpr (is_bounded<T>)
        {
            g.bounds.clear();
            g.uniform_bounds = c.chance(1, 2);
            for (size_t i = 0; i < g.len; i++)
            {
                if (i && g.uniform_bounds) { g.bounds.push_back(g.bounds[0]); continue; }
                if constexpr (is_real<T>)
                {
                    double a, b;
                    switch (c.raw(huge ? 7 : 5))
                    {
                        case 0: a = 0; b = 1; break;
                        case 1: a = -1; b = 1; break;
                        case 2: a = c.real(-100, 100); b = a + c.real(0, 50); break;
                        case 3: a = b = c.real(-10, 10); break;
                        case 4: a = c.real(-5, 5); b = a + c.pick({ 1e-3, 1e-9, 1e-12, 10.0 }); break;
                        case 5: a = -1e100 * c.unit(); b = 1e100 * c.unit(); break;
                        default: a = 1e9; b = 1e9 + c.real(0, 1); break;
                    }
                    g.bounds.push_back({ a, std::max(a, b) });
                }
                else
                {
                    std::int64_t a, b;
                    switch (c.raw(huge ? 6 : 4))
                    {
                        case 0: a = 0; b = c.range<std::int64_t>(1, 3); break;
                        case 1: a = c.range<std::int64_t>(-10, 10); b = a + c.range<std::int64_t>(0, 5); break;
                        case 2: a = b = c.range<std::int64_t>(-5, 5); break;
                        case 3: a = c.range<std::int64_t>(-1000, 1000); b = a + c.range<std::int64_t>(1, 100000); break;
                        case 4: a = -(std::int64_t(1) << 60); b = std::int64_t(1) << 60; break;
                        default: a = INT64_MAX - c.range<std::int64_t>(0, 5); b = INT64_MAX; break;
                    }
                    g.bounds.push_back({ a, b });
                }
            }
        }
    }

    // A deterministic fitness function, finite for every valid chromosome.
    template<typename T>
    Fit<T> gen_fit(pbt::Case& c, const Config<T>& g, std::string& desc, bool tie_heavy, bool near_ties = false)
    {
        const size_t m = g.nobj;
        const pbt::u64 salt = c.raw(1000);
        const int kind = tie_heavy ? c.pick({ 1, 1, 1, 2, 0 }) : c.pick({ 0, 1, 2, 3, 4, 0, 3 });
        if (near_ties && c.flip())
        {
            const int K = c.range(2, 8); const double base = c.pick({ 0.0, 1.0, -5.0, 1e6 }), step = c.pick({ 0.4e-12, 0.7e-12, 1.1e-12 }) * std::max(1.0, std::abs(base) * 1e-3);
            desc += "fit=nearties ";
            return [K, m, salt, base, step](const Chromosome<T>& x) { FitnessVector f(m); const auto h = chrom_hash<T>(x); for (size_t k = 0; k < m; k++) f[k] = base + step * double(mix(h + salt, k * 31 + 7) % K); return f; };
        }
        switch (kind)
        {
            case 0:
            {
                std::vector<std::vector<double>> w(m, std::vector<double>(g.len));
                for (auto& r : w) for (auto& v : r) v = double(c.range(-3, 3));
                desc += "fit=linear ";
                return [w, m](const Chromosome<T>& x) { FitnessVector f(m); for (size_t k = 0; k < m; k++) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += w[k][i % w[k].size()] * double(x[i]); f[k] = s; } return f; };
            }
            case 1:
            {
                const int K = c.range(2, 6);
                desc += "fit=hash%" + std::to_string(K) + " ";
                return [K, m, salt](const Chromosome<T>& x) { FitnessVector f(m); const auto h = chrom_hash<T>(x); for (size_t k = 0; k < m; k++) f[k] = double(mix(h + salt, k * 31 + 7) % K); return f; };
            }
            case 2:
            {
                const double v = double(c.range(-2, 2));
                desc += "fit=const ";
                return [v, m](const Chromosome<T>&) { return FitnessVector(m, v); };
            }
            case 3:
            {
                std::vector<Chromosome<T>> t; for (size_t k = 0; k < m; k++) t.push_back(gen_chrom<T>(c, g));
                desc += "fit=dist ";
                return [t, m](const Chromosome<T>& x) { FitnessVector f(m); for (size_t k = 0; k < m; k++) { double s = 0; for (size_t i = 0; i < x.size(); i++) { const double d = double(x[i]) - double(t[k][i % t[k].size()]); s -= d * d; } f[k] = s; } return f; };
            }
            default:
            {
                const double sc = c.pick({ 1.0, 1e-6, 1e6, 1e12 }), off = c.pick({ 0.0, -1.0, 100.0 });
                desc += "fit=hashreal ";
                return [sc, off, m, salt](const Chromosome<T>& x) { FitnessVector f(m); const auto h = chrom_hash<T>(x); for (size_t k = 0; k < m; k++) f[k] = off + sc * double(mix(h + salt, k * 31 + 7) >> 11) * 0x1p-53; return f; };
            }
        }
    }

    inline double gen_rate(pbt::Case& c, bool extreme) { if (extreme) switch (c.raw(5)) { case 0: return 1.0; case 1: return 0.0; default: break; } return c.unit(); }

    template<typename T>
    void gen_operators(pbt::Case& c, Config<T>& g, const Limits& L)
    {
        using std::make_unique;
        const double pc = gen_rate(c, L.extreme_rates), pm = c.chance(1, 2) ? std::min(1.0, 1.0 / double(g.len)) : gen_rate(c, L.extreme_rates);
        auto& d = g.desc;
        auto set_cx = [&](const char* n, auto f) { d += std::string("cx=") + n + " "; c.label(std::string(Enc<T>::name) + " cx " + n); g.cx = f; };
        auto set_mut = [&](const char* n, auto f) { d += std::string("mut=") + n + " "; c.label(std::string(Enc<T>::name) + " mut " + n); g.mut = f; };
        std::ostringstream s; s << "pc=" << pc << " pm=" << pm << " "; d += s.str();
        if constexpr (is_bin<T> || is_int<T>)
        {
            const size_t n = c.range<size_t>(1, g.len + 3); const double ps = gen_rate(c, true);
            auto cxs = [&]<typename SP, typename TP, typename NP, typename UN>()
            {
                switch (c.raw(4))
                {
                    case 0: set_cx("SinglePoint", [pc] { return make_unique<SP>(pc); }); break;
                    case 1: set_cx("TwoPoint", [pc] { return make_unique<TP>(pc); }); break;
                    case 2: set_cx("NPoint", [pc, n] { return make_unique<NP>(pc, n); }); break;
                    default: set_cx("Uniform", [pc, ps] { return make_unique<UN>(pc, ps); }); break;
                }
            };
            if constexpr (is_bin<T>)
            {
                namespace x = crossover::binary;
                cxs.template operator()<x::SinglePoint, x::TwoPoint, x::NPoint, x::Uniform>();
                set_mut("Flip", [pm] { return make_unique<mutation::binary::Flip>(pm); });
            }
            else
            {
                namespace x = crossover::integer;
                cxs.template operator()<x::SinglePoint, x::TwoPoint, x::NPoint, x::Uniform>();
                set_mut("Uniform", [pm] { return make_unique<mutation::integer::Uniform>(pm); });
            }
        }
        else if constexpr (is_perm<T>)
        {
            namespace x = crossover::perm; namespace m = mutation::perm;
            switch (c.raw(6))
            {
                case 0: set_cx("Order1", [pc] { return make_unique<x::Order1>(pc); }); break;
                case 1: set_cx("Order2", [pc] { return make_unique<x::Order2>(pc); }); break;
                case 2: set_cx("Position", [pc] { return make_unique<x::Position>(pc); }); break;
                case 3: set_cx("Cycle", [pc] { return make_unique<x::Cycle>(pc); }); break;
                case 4: set_cx("Edge", [pc] { return make_unique<x::Edge>(pc); }); break;
                default: set_cx("PMX", [pc] { return make_unique<x::PMX>(pc); }); break;
            }
            const double r = gen_rate(c, true);
            switch (c.raw(5))
            {
                case 0: set_mut("Inversion", [pm, r] { return make_unique<m::Inversion>(pm, r); }); break;
                case 1: set_mut("Swap2", [pm] { return make_unique<m::Swap2>(pm); }); break;
                case 2: set_mut("Swap3", [pm] { return make_unique<m::Swap3>(pm); }); break;
                case 3: set_mut("Shuffle", [pm, r] { return make_unique<m::Shuffle>(pm, r); }); break;
                default: set_mut("Shift", [pm, r] { return make_unique<m::Shift>(pm, r); }); break;
            }
        }
        else
        {
            namespace x = crossover::real; namespace m = mutation::real;
            const double a = c.pick({ 0.0, 0.5, 1.0, 3.0 }), eta = c.pick({ 0.0, 0.5, 4.0, 20.0 });
            switch (c.raw(4))
            {
                case 0: set_cx("Arithmetic", [pc] { return make_unique<x::Arithmetic>(pc); }); break;
                case 1: set_cx("BLXa", [pc, a] { return make_unique<x::BLXa>(pc, a); }); break;
                case 2: set_cx("SimulatedBinary", [pc, eta] { return make_unique<x::SimulatedBinary>(pc, eta); }); break;
                default: set_cx("Wright", [pc] { return make_unique<x::Wright>(pc); }); break;
            }
            const double beta = c.pick({ 0.0, 0.5, 2.0, 6.0 }), sigma = c.pick({ 0.5, 6.0, 100.0 }), peta = c.pick({ 0.0, 5.0, 40.0 });
            switch (c.raw(5))
            {
                case 0: set_mut("Uniform", [pm] { return make_unique<m::Uniform>(pm); }); break;
                case 1: set_mut("NonUniform", [pm, beta] { return make_unique<m::NonUniform>(pm, beta); }); break;
                case 2: set_mut("Gauss", [pm, sigma] { return make_unique<m::Gauss>(pm, sigma); }); break;
                case 3: set_mut("Polynomial", [pm, peta] { return make_unique<m::Polynomial>(pm, peta); }); break;
                default: set_mut("Boundary", [pm] { return make_unique<m::Boundary>(pm); }); break;
            }
        }
        if (L.lambdas && c.chance(1, 10)) // user supplied operators
        {
            d += "(lambda cx) ";
            g.cx = [] { return std::make_unique<crossover::Lambda<T>>([](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b)
            {
                CandidatePair<T> r{ b, a };
                if constexpr (!is_perm<T>) { const size_t k = rng::randomInt<size_t>(0, a.chromosome.size()); for (size_t i = 0; i < k; i++) std::swap(r.first.chromosome[i], r.second.chromosome[i]); }
                else if (rng::randomBool()) std::reverse(r.first.chromosome.begin(), r.first.chromosome.end());
                return r;
            }); };
        }
        if (L.lambdas && c.chance(1, 10))
        {
            d += "(lambda mut) ";
            std::vector<T> lo, hi; for (size_t i = 0; i < g.len; i++) { lo.push_back(g.lo(i)); hi.push_back(g.hi(i)); }
            g.mut = [lo, hi] { return std::make_unique<mutation::Lambda<T>>([lo, hi](const GA<T>&, const Candidate<T>&, Chromosome<T>& x)
            {
                const size_t i = rng::randomIndex(x), j = rng::randomIndex(x);
                if (rng::randomBool()) return;
                if constexpr (is_perm<T>) std::swap(x[i], x[j]); else x[i] = rng::randomBool() ? lo[i] : hi[i];
            }); };
        }
        if (c.chance(1, 6)) { g.cx = nullptr; d += "(default cx) "; }
        if (c.chance(1, 6)) { g.mut = nullptr; d += "(default mut) "; }
    }

    template<typename T>
    void gen_algorithm(pbt::Case& c, Config<T>& g)
    {
        auto& d = g.desc;
        if (c.chance(1, 6)) { g.alg = nullptr; g.alg_name = "default"; d += "alg=default "; return; }
        if (g.nobj > 1)
        {
            if (c.flip()) { g.alg = [] { return std::make_unique<algorithm::NSGA2>(); }; g.alg_name = "NSGA2"; }
            else
            {
                namespace r = algorithm::reflines;
                FitnessMatrix (*gens[])(size_t, size_t) = { r::quasirandomSimplexPointsMirror, r::quasirandomSimplexPointsSort, r::quasirandomSimplexPointsRoot, r::quasirandomSimplexPointsLog };
                auto rg = gens[c.raw(4)];
                g.alg = [rg] { return std::make_unique<algorithm::NSGA3>(rg); }; g.alg_name = "NSGA3";
            }
        }
        else
        {
            std::function<std::unique_ptr<selection::Selection>()> sel;
            std::function<std::unique_ptr<replacement::Replacement>()> rep;
            const size_t k = c.range<size_t>(1, 6), ne = c.range<size_t>(0, g.pop + 1);
            switch (c.raw(6))
            {
                case 0: sel = [k] { return std::make_unique<selection::Tournament>(k); }; g.sel_name = "Tournament"; break;
                case 1: sel = [] { return std::make_unique<selection::Roulette>(); }; g.sel_name = "Roulette"; break;
                case 2: sel = [] { return std::make_unique<selection::Rank>(0.1, 1.1); }; g.sel_name = "Rank"; break;
                case 3: sel = [] { return std::make_unique<selection::Sigma>(2.0); }; g.sel_name = "Sigma"; break;
                case 4: sel = [] { return std::make_unique<selection::Boltzmann>(); }; g.sel_name = "Boltzmann"; break;
                default: sel = [] { return std::make_unique<selection::Lambda>([](const GaInfo&, const FitnessMatrix& f) { return rng::randomIndex(f); }); }; g.sel_name = "Lambda"; break;
            }
            switch (c.raw(3))
            {
                case 0: rep = [] { return std::make_unique<replacement::KeepBest>(); }; g.rep_name = "KeepBest"; break;
                case 1: rep = [] { return std::make_unique<replacement::KeepChildren>(); }; g.rep_name = "KeepChildren"; break;
                default: rep = [ne] { return std::make_unique<replacement::Elitism>(ne); }; g.rep_name = "Elitism" + std::to_string(ne); break;
            }
            g.alg = [sel, rep] { return std::make_unique<algorithm::SingleObjective>(sel(), rep()); };
            g.alg_name = g.sel_name + "+" + g.rep_name;
        }
        d += "alg=" + g.alg_name + " ";
        c.label("alg " + (g.nobj > 1 ? g.alg_name : g.sel_name));
    }

    template<typename T>
    typename GA<T>::RepairCallable gen_repair(pbt::Case& c, const Config<T>& g, std::string& d)
    {
        switch (c.raw(3))
        {
            case 0: d += "repair=identity "; return [](const GA<T>&, const Chromosome<T>& x) { return x; };
            case 1: d += "repair=first "; // canonicalizes the first gene
                if constexpr (is_perm<T>) return [](const GA<T>&, const Chromosome<T>& x) { auto y = x; std::rotate(y.begin(), std::find(y.begin(), y.end(), T(0)), y.end()); return y; };
                else { const T v = g.lo(0); return [v](const GA<T>&, const Chromosome<T>& x) { auto y = x; y[0] = v; return y; }; }
            default: d += "repair=some "; // changes some chromosomes only
                if constexpr (is_perm<T>) return [](const GA<T>&, const Chromosome<T>& x) { auto y = x; if (chrom_hash<T>(x) % 3 == 0) std::reverse(y.begin(), y.end()); return y; };
                else { const auto b = g; const size_t n = g.len; return [n, b](const GA<T>&, const Chromosome<T>& x) { auto y = x; const auto h = chrom_hash<T>(x); if (h % 3 == 0) y[(h >> 8) % n] = (h >> 40) % 2 ? b.lo((h >> 8) % n) : b.hi((h >> 8) % n); return y; }; }
        }
    }

    template<typename T>
    Config<T> gen_config(pbt::Case& c, const Limits& limits)
    {
        Limits L = limits; Config<T> g;
        size_t max_cache = 4;
        if (L.big && c.chance(1, 40)) // one dimension far larger than in the other cases
        {
            c.label("large");
            switch (c.raw(6))
            {
                case 0: L.max_pop *= 10; break;
                case 1: L.max_len *= 10; break;
                case 2: L.max_gen *= 8; break;
                case 3: L.max_obj = 12; break;
                case 4: L.max_threads = 20; break;
                default: max_cache = 30; L.max_gen *= 3; break;
            }
        }
        g.pop = c.size(1, L.max_pop);
        g.len = c.size(1, L.max_len);
        size_t far_gens = 0;
        if (L.big && c.chance(1, 400)) // or still larger, with the other dimensions kept small
        {
            c.label("huge");
            L.max_obj = std::min<size_t>(L.max_obj, 3);
            switch (c.raw(3))
            {
                case 0: g.pop = c.range<size_t>(256, 2100); g.len = std::min<size_t>(g.len, 8); L.max_gen = 3; break;
                case 1: g.len = c.range<size_t>(256, 3000); g.pop = std::min<size_t>(g.pop, 6); L.max_gen = 4; break;
                default: far_gens = c.range<size_t>(200, 1100); g.pop = std::min<size_t>(g.pop, 8); g.len = std::min<size_t>(g.len, 8); break;
            }
        }
        g.nobj = (L.multi && c.chance(2, 5)) ? c.range<size_t>(2, L.max_obj) : 1;
        g.gens = far_gens ? far_gens : c.size(1, L.max_gen);
        g.nthreads = c.chance(1, L.thread_den) ? c.range<size_t>(2, L.max_threads) : 1;
        g.seed = c.raw(1 << 20);
        g.desc = std::string("enc=") + Enc<T>::name + " ";
        g.exact = c.chance(3, 4);
        gen_bounds<T>(c, g, L.huge);
        gen_algorithm<T>(c, g);
        gen_operators<T>(c, g, L);
        g.fit = gen_fit<T>(c, g, g.desc, L.tie_heavy, L.near_ties);
        g.keep_all = c.chance(1, 3);
        g.dynamic = L.dynamic && c.chance(1, 4);
        g.cache = (L.cache && c.chance(1, 2)) ? c.range<size_t>(1, max_cache) : 0;
        if (L.repair && c.chance(1, 4)) g.repair = gen_repair<T>(c, g, g.desc);
        if (L.init && c.chance(1, 3))
        {
            const size_t n = c.size(1, g.pop + 3);
            for (size_t i = 0; i < n; i++)
            {
                Candidate<T> x(i && c.chance(1, 4) ? g.init[c.raw(i)].chromosome : gen_chrom<T>(c, g));
                if (L.evaluated_init && !g.dynamic && c.chance(1, 3)) { x.fitness = g.fit(x.chromosome); x.is_evaluated = true; }
                g.init.push_back(x);
            }
        }
        std::ostringstream s;
        s << "pop=" << g.pop << " len=" << g.len << " nobj=" << g.nobj << " gens=" << g.gens << " threads=" << g.nthreads << " seed=" << g.seed << " cache=" << g.cache << (g.keep_all ? " keep_all" : "") << (g.dynamic ? " dynamic" : "") << (g.exact ? " exact" : "") << " init=" << g.init.size() << " ";
        if constexpr (is_bounded<T>) { s << "bounds="; for (size_t i = 0; i < std::min<size_t>(g.len, 6); i++) s << "[" << g.bounds[i].lower() << "," << g.bounds[i].upper() << "]"; }
        g.desc += s.str();
        c.os << g.desc;
        if (std::getenv("PBT_TRACE")) std::fprintf(stderr, "config: %s\n", g.desc.c_str());
        c.label(std::string("enc ") + Enc<T>::name);
        if (g.nthreads > 1) c.label("multi-threaded");
        return g;
    }

    // Calls f.template operator()<T>() for one of the encodings.
    template<typename F> void for_encoding(pbt::Case& c, F&& f)
    {
        switch (c.raw(4))
        {
            case 0: f.template operator()<BinaryGene>(); break;
            case 1: f.template operator()<IntegerGene>(); break;
            case 2: f.template operator()<PermutationGene>(); break;
            default: f.template operator()<RealGene>(); break;
        }
    }

    struct Tol { std::optional<math::ScopedTolerances> t; Tol(bool exact) { if (exact) t.emplace(0.0, 0.0); } };

    template<typename T> struct Gen { Population<T> pop; std::vector<FitnessVector> fmat; size_t evals, cntr, calls; Candidates<T> sols; };

    template<typename T> std::vector<FitnessVector> rows(const FitnessMatrix& m) { std::vector<FitnessVector> r; for (size_t i = 0; i < m.size(); i++) { FitnessVector v; for (size_t j = 0; j < m.ncols(); j++) v.push_back(m[i][j]); r.push_back(v); } return r; }

    // Everything observable about one run.
    template<typename T>
    struct Trace
    {
        std::vector<Gen<T>> gens;
        Candidates<T> result;
        std::shared_ptr<Log<T>> log = std::make_shared<Log<T>>();
    };

    template<typename T>
    Gen<T> snapshot(const GA<T>& ga, Log<T>& log) { return { ga.population(), rows<T>(ga.fitness_matrix()), ga.num_fitness_evals(), ga.generation_cntr(), log.count(), ga.solutions() }; }

    template<typename T>
    void record(GA<T>& ga, Trace<T>& t) { ga.on_generation_end([&t](const GaInfo& info) { t.gens.push_back(snapshot<T>(dynamic_cast<const GA<T>&>(info), *t.log)); }); }

    template<typename T>
    Trace<T> run(GA<T>& ga, const Config<T>& g) // Seeds and runs.
    {
        Trace<T> t;
        record<T>(ga, t);
        threads(g.nthreads);
        rng::prng.seed(g.seed);
        t.result = g.solve(ga, t.log);
        ga.on_generation_end(nullptr);
        return t;
    }

    template<typename T> bool same_cand(const Candidate<T>& a, const Candidate<T>& b) { return a.chromosome == b.chromosome && a.fitness == b.fitness && a.is_evaluated == b.is_evaluated; }
    template<typename T> bool same_pop(const Population<T>& a, const Population<T>& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), same_cand<T>); }
    template<typename T> std::vector<Chromosome<T>> chroms(const Population<T>& a) { std::vector<Chromosome<T>> r; for (auto& x : a) r.push_back(x.chromosome); return r; }

    template<typename T>
    std::string diff(const Trace<T>& a, const Trace<T>& b, bool evals = true)
    {
        if (a.gens.size() != b.gens.size()) return "number of generations " + std::to_string(a.gens.size()) + " / " + std::to_string(b.gens.size());
        for (size_t i = 0; i < a.gens.size(); i++)
        {
            if (!same_pop<T>(a.gens[i].pop, b.gens[i].pop)) return "population of generation " + std::to_string(i);
            if (a.gens[i].fmat != b.gens[i].fmat) return "fitness matrix of generation " + std::to_string(i);
            if (!same_pop<T>(a.gens[i].sols, b.gens[i].sols)) return "solutions of generation " + std::to_string(i);
            if (evals && a.gens[i].evals != b.gens[i].evals) return "evaluations of generation " + std::to_string(i);
        }
        if (!same_pop<T>(a.result, b.result)) return "returned solutions";
        return {};
    }

    // Strict dominance with plain comparisons (for runs with zero tolerances).
    inline bool dominates(const FitnessVector& a, const FitnessVector& b)
    {
        bool some = false;
        for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; if (a[i] > b[i]) some = true; }
        return some;
    }
}
