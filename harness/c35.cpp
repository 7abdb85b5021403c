#include "pbt.hpp"
#include "ctx.hpp"
#include "runs.hpp"
#include <typeinfo>
#include <typeindex>
using namespace gapp; using namespace runs;
PBT_RULE("A case is non-trivial if a setting that differs from its default took effect in a compared run or call: a run of at least two generations with a component that was made or passed in another form, or an operator whose parameter was changed after its construction and which changed the candidates it was given.");
PBT_ASSUME("Objects are moved, not shared, between GAs; settings are only made through the public interface.");

// ---------------------------------------------------------------- components, each with two ways of making the same object

// rate and parameters; set: made with other values first and then changed with the setters, in either order.
struct Op { int kind = 0; double rate = 0.5, a = 0, a0 = 0; size_t n = 1, n0 = 1; bool rate_first = false; };

template<typename X, typename F> void form_plain_cx(const Op& s, bool set, F&& f) { if (!set) f(X{ s.rate }); else { X x{}; x.crossover_rate(s.rate); f(std::move(x)); } }
template<typename X, typename F> void form_npoint(const Op& s, bool set, F&& f)
{
    if (!set) f(X{ s.rate, s.n });
    else { X x{ s.n0 }; if (s.rate_first) x.crossover_rate(s.rate); x.num_crossover_points(s.n); if (!s.rate_first) x.crossover_rate(s.rate); f(std::move(x)); }
}
template<typename X, typename F, typename S> void form_param_cx(const Op& s, bool set, F&& f, S&& setter)
{
    if (!set) f(X{ s.rate, s.a });
    else { X x{}; if (s.rate_first) x.crossover_rate(s.rate); setter(x, s.a0); setter(x, s.a); if (!s.rate_first) x.crossover_rate(s.rate); f(std::move(x)); }
}
template<typename X, typename F> void form_plain_mut(const Op& s, bool set, F&& f) { if (!set) f(X{ s.rate }); else { X x{ s.a0 > 1 ? 1.0 : s.a0 }; x.mutation_rate(s.rate); f(std::move(x)); } }
template<typename X, typename F, typename S> void form_param_mut(const Op& s, bool set, F&& f, S&& setter)
{
    if (!set) f(X{ s.rate, s.a });
    else { X x{ 0.123 }; if (s.rate_first) x.mutation_rate(s.rate); setter(x, s.a0); setter(x, s.a); if (!s.rate_first) x.mutation_rate(s.rate); f(std::move(x)); }
}

template<typename T> constexpr int n_cx = is_perm<T> ? 6 : 4;
template<typename T> constexpr int n_mut = is_real<T> || is_perm<T> ? 5 : 1;

template<typename T, typename F> void visit_cx(const Op& s, bool set, F&& f)
{
    if constexpr (is_bin<T> || is_int<T>)
    {
        auto all = [&]<typename A, typename B, typename N, typename U>()
        {
            switch (s.kind) { case 0: form_npoint<N>(s, set, f); break; case 1: form_param_cx<U>(s, set, f, [](U& x, double v) { x.swap_probability(v); }); break; case 2: form_plain_cx<A>(s, set, f); break; default: form_plain_cx<B>(s, set, f); break; }
        };
        if constexpr (is_bin<T>) { namespace x = crossover::binary; all.template operator()<x::SinglePoint, x::TwoPoint, x::NPoint, x::Uniform>(); }
        else { namespace x = crossover::integer; all.template operator()<x::SinglePoint, x::TwoPoint, x::NPoint, x::Uniform>(); }
    }
    else if constexpr (is_perm<T>)
    {
        namespace x = crossover::perm;
        switch (s.kind) { case 0: form_plain_cx<x::Order1>(s, set, f); break; case 1: form_plain_cx<x::Cycle>(s, set, f); break; case 2: form_plain_cx<x::Order2>(s, set, f); break; case 3: form_plain_cx<x::Position>(s, set, f); break; case 4: form_plain_cx<x::Edge>(s, set, f); break; default: form_plain_cx<x::PMX>(s, set, f); break; }
    }
    else
    {
        namespace x = crossover::real;
        switch (s.kind)
        {
            case 0: form_param_cx<x::BLXa>(s, set, f, [](x::BLXa& o, double v) { o.alpha(v); }); break;
            case 1: form_param_cx<x::SimulatedBinary>(s, set, f, [](x::SimulatedBinary& o, double v) { o.eta(v); }); break;
            case 2: form_plain_cx<x::Arithmetic>(s, set, f); break;
            default: form_plain_cx<x::Wright>(s, set, f); break;
        }
    }
}
template<typename T, typename F> void visit_mut(const Op& s, bool set, F&& f)
{
    if constexpr (is_bin<T>) form_plain_mut<mutation::binary::Flip>(s, set, f);
    else if constexpr (is_int<T>) form_plain_mut<mutation::integer::Uniform>(s, set, f);
    else if constexpr (is_perm<T>)
    {
        namespace m = mutation::perm; auto range = [](auto& o, double v) { o.range_max(v); };
        switch (s.kind) { case 0: form_param_mut<m::Inversion>(s, set, f, range); break; case 1: form_param_mut<m::Shuffle>(s, set, f, range); break; case 2: form_param_mut<m::Shift>(s, set, f, range); break; case 3: form_plain_mut<m::Swap2>(s, set, f); break; default: form_plain_mut<m::Swap3>(s, set, f); break; }
    }
    else
    {
        namespace m = mutation::real;
        switch (s.kind)
        {
            case 0: form_param_mut<m::NonUniform>(s, set, f, [](m::NonUniform& o, double v) { o.beta(v); }); break;
            case 1: form_param_mut<m::Gauss>(s, set, f, [](m::Gauss& o, double v) { o.sigma(v); }); break;
            case 2: form_param_mut<m::Polynomial>(s, set, f, [](m::Polynomial& o, double v) { o.eta(v); }); break;
            case 3: form_plain_mut<m::Uniform>(s, set, f); break;
            default: form_plain_mut<m::Boundary>(s, set, f); break;
        }
    }
}
template<typename T> std::unique_ptr<crossover::Crossover<T>> build_cx(const Op& s, bool set) { std::unique_ptr<crossover::Crossover<T>> r; visit_cx<T>(s, set, [&]<typename X>(X x) { r = std::make_unique<X>(std::move(x)); }); return r; }
template<typename T> std::unique_ptr<mutation::Mutation<T>> build_mut(const Op& s, bool set) { std::unique_ptr<mutation::Mutation<T>> r; visit_mut<T>(s, set, [&]<typename X>(X x) { r = std::make_unique<X>(std::move(x)); }); return r; }

template<typename T> Op gen_op(pbt::Case& c, bool cx, size_t len)
{
    Op s; s.kind = c.raw(cx ? n_cx<T> : n_mut<T>); s.rate = gen_rate(c, true); s.rate_first = c.flip();
    s.n = c.range<size_t>(1, len + 3); s.n0 = c.range<size_t>(1, len + 3);
    auto par = [&] { if (!is_real<T>) return c.unit(); if (!cx && s.kind == 1) return c.pick({ 6.0, 0.5, 3.0, 100.0 }); return c.pick({ 0.5, 0.0, 2.0, 4.0, 20.0, 1.0 }); };
    s.a = par(); s.a0 = par();
    c.os << (cx ? "cx" : "mut") << s.kind << "(rate " << s.rate << ", a " << s.a << ", n " << s.n << ") ";
    return s;
}

enum { S_None, S_Evals, S_Value, S_Mean, S_Best, S_Call };
struct Stop { int kind = S_None; size_t n = 0, n0 = 0; double d = 0; FitnessVector th; bool first = false; };
template<typename F> void visit_stop(const Stop& s, bool set, F&& f)
{
    auto stall = [&]<typename X>()
    {
        if (!set) f(X{ s.n, s.d });
        else { X x; if (s.first) x.delta(s.d); x.patience(s.n0); x.patience(s.n); if (!s.first) x.delta(s.d); f(std::move(x)); }
    };
    switch (s.kind)
    {
        case S_Evals: if (!set) f(stopping::FitnessEvals{ s.n }); else { stopping::FitnessEvals x{ s.n0 }; x.max_fitness_evals(s.n); f(std::move(x)); } break;
        case S_Value: if (!set) f(stopping::FitnessValue{ s.th }); else { stopping::FitnessValue x{ FitnessVector(s.n0 % 5 + 1, -1.0) }; x.fitness_threshold(s.th); f(std::move(x)); } break;
        case S_Mean: stall.template operator()<stopping::FitnessMeanStall>(); break;
        case S_Best: stall.template operator()<stopping::FitnessBestStall>(); break;
        default: f(stopping::NoEarlyStop{}); break;
    }
}
template<typename T> void put_stop(GA<T>& ga, const Stop& s, int form)
{
    if (s.kind == S_Call) { const size_t k = s.n % 6; ga.stop_condition([k](const GaInfo& info) { return info.generation_cntr() >= k; }); }
    else if (s.kind == S_None && form % 4 == 0) ga.stop_condition(nullptr);
    else if (s.kind == S_None && form % 4 == 1) ga.stop_condition(std::unique_ptr<stopping::StopCondition>());
    else visit_stop(s, form & 1, [&]<typename X>(X x) { if (form & 2) ga.stop_condition(std::make_unique<X>(std::move(x))); else ga.stop_condition(std::move(x)); });
}
static Stop gen_stop(pbt::Case& c, size_t pop, size_t gens)
{
    Stop s; s.kind = c.raw(6); s.first = c.flip(); s.n = s.kind == S_Evals ? c.range<size_t>(0, pop * gens + 1) : c.range<size_t>(0, 4); s.n0 = c.range<size_t>(0, 5); s.d = c.pick({ 1e-6, 0.0, 0.5, 100.0 });
    c.os << "stop" << s.kind << "(" << s.n << ", " << s.d << ") ";
    return s;
}

struct Alg { int kind = 0; int sel = 0, rep = 0; size_t k = 2, k0 = 1, ne = 1, ne0 = 0; double w0 = 0.1, w1 = 1.1, sc = 3; int temp = 0, rg = 0; size_t nobj() const { return kind == 0 ? 0 : kind == 1 ? 1 : 2; } };
// kind 0: default, 1: single objective, 2: NSGA2, 3: NSGA3.   nobj: 0: any, 2: at least two.
static const char* alg_names[] = { "default", "single", "NSGA2", "NSGA3" };
template<typename F> void visit_sel(const Alg& s, bool set, F&& f)
{
    using namespace selection;
    switch (s.sel)
    {
        case 0: if (!set) f(Tournament{ s.k }); else { Tournament x{ s.k0 }; x.size(s.k); f(std::move(x)); } break;
        case 1: f(Roulette{}); break;
        case 2: if (!set) f(Rank{ s.w0, s.w1 }); else { Rank x{ 0.5, 0.75 }; x.weights(s.w0, s.w1); f(std::move(x)); } break;
        case 3: if (!set) f(Sigma{ s.sc }); else { Sigma x{ 0.7 }; x.scale(s.sc); f(std::move(x)); } break;
        default: if (s.temp == 0) f(Boltzmann{}); else { const double t = s.temp; f(Boltzmann{ [t](size_t gen, size_t max) { return t + double(max - gen); } }); } break;
    }
}
template<typename F> void visit_rep(const Alg& s, bool set, F&& f)
{
    using namespace replacement;
    switch (s.rep)
    {
        case 0: f(KeepBest{}); break;
        case 1: f(KeepChildren{}); break;
        default: if (!set) f(Elitism{ s.ne }); else { Elitism x{ s.ne0 }; x.elite_num(s.ne); f(std::move(x)); } break;
    }
}
static std::function<size_t(const GaInfo&, const FitnessMatrix&)> sel_call() { return [](const GaInfo&, const FitnessMatrix& f) { return rng::randomIndex(f); }; }
static std::function<small_vector<size_t>(const GaInfo&, const FitnessMatrix&)> rep_call() { return [](const GaInfo& ga, const FitnessMatrix& f) { small_vector<size_t> v; for (size_t i = 0; i < ga.population_size(); i++) v.push_back(f.size() - 1 - i); return v; }; }
// form: 0: whole objects passed to the constructor by value, 1: as pointers, 2: set one after the other, 3: a mixture
static algorithm::SingleObjective make_single(const Alg& s, int form, bool set)
{
    using algorithm::SingleObjective;
    std::unique_ptr<selection::Selection> sp; std::unique_ptr<replacement::Replacement> rp;
    if (s.sel < 5) visit_sel(s, set, [&]<typename X>(X x) { sp = std::make_unique<X>(std::move(x)); });
    if (s.rep < 3) visit_rep(s, set, [&]<typename X>(X x) { rp = std::make_unique<X>(std::move(x)); });
    if (form == 0 && sp && rp)
    {
        std::optional<SingleObjective> r;
        visit_sel(s, set, [&]<typename X>(X x) { visit_rep(s, set, [&]<typename Y>(Y y) { r.emplace(std::move(x), std::move(y)); }); });
        return std::move(*r);
    }
    if (form == 0 && !sp && !rp) return SingleObjective{ sel_call(), rep_call() };
    if (form <= 1 && sp && rp) return SingleObjective{ std::move(sp), std::move(rp) };
    if (form <= 1 && sp && s.rep == 0) return SingleObjective{ std::move(sp) };
    if (form <= 1 && !sp && s.rep == 0) return SingleObjective{ sel_call() };
    SingleObjective r;
    if (form == 3 && set) r = SingleObjective{ selection::Sigma{ 2.0 }, replacement::Elitism{ 2 } };
    // The same operators with other parameters were set before.
    else if (form >= 2 && (set || form == 3)) { Alg o = s; o.k = s.k0; o.ne = s.ne0; o.w0 = 0.5; o.w1 = 0.75; o.sc = 0.7; o.temp = (s.temp + 1) % 3; r = make_single(o, 1, false); }
    auto sel = [&] { if (s.sel >= 5) r.selection_method(sel_call()); else if (form == 3) r.selection_method(std::move(sp)); else visit_sel(s, set, [&](auto x) { r.selection_method(std::move(x)); }); };
    auto rep = [&] { if (s.rep >= 3) r.replacement_method(rep_call()); else if (form == 3) r.replacement_method(std::move(rp)); else visit_rep(s, set, [&](auto x) { r.replacement_method(std::move(x)); }); };
    if (set) { sel(); rep(); } else { rep(); sel(); }
    return r;
}
template<typename F> void visit_alg(const Alg& s, int form, bool set, F&& f)
{
    namespace r = algorithm::reflines;
    if (s.kind == 1) f(make_single(s, form, set));
    else if (s.kind == 2) f(algorithm::NSGA2{});
    else if (s.rg == 0) f(algorithm::NSGA3{});
    else f(algorithm::NSGA3{ s.rg == 1 ? r::quasirandomSimplexPointsSort : r::quasirandomSimplexPointsRoot });
}
static std::unique_ptr<algorithm::Algorithm> build_alg(const Alg& s, int form, bool set) { std::unique_ptr<algorithm::Algorithm> r; if (s.kind) visit_alg(s, form, set, [&]<typename X>(X x) { r = std::make_unique<X>(std::move(x)); }); return r; }
template<typename T> void put_alg(GA<T>& ga, const Alg& s, int form)
{
    if (s.kind == 0 && (form & 1)) ga.algorithm(nullptr);
    else if (s.kind == 0 || (form & 1)) ga.algorithm(build_alg(s, (form >> 2) & 3, form & 2));
    else visit_alg(s, (form >> 2) & 3, form & 2, [&](auto x) { ga.algorithm(std::move(x)); });
}
static Alg gen_alg(pbt::Case& c, size_t pop)
{
    Alg s; s.kind = c.pick({ 0, 1, 1, 1, 2, 3 }); s.sel = c.raw(6); s.rep = c.raw(4); s.k = c.range<size_t>(1, 5); s.k0 = c.range<size_t>(1, 5); s.ne = c.range<size_t>(0, pop); s.ne0 = c.range<size_t>(0, 5);
    s.w0 = c.unit(); s.w1 = s.w0 + c.unit() + 0.01; s.sc = c.pick({ 3.0, 1.0, 2.5, 8.0 }); s.temp = c.raw(3); s.rg = c.raw(3);
    c.os << "alg " << alg_names[s.kind] << "(sel " << s.sel << " rep " << s.rep << " k " << s.k << " ne " << s.ne << ") "; c.label(alg_names[s.kind]);
    return s;
}

// ---------------------------------------------------------------- the settings of a GA

template<typename T>
struct Set
{
    using Ga = typename Enc<T>::Ga;
    size_t pop = 100, max_gen = 500, cache = 0; bool keep_all = false;
    std::optional<Op> cx, mut; bool cx_call = false, mut_call = false;  // nothing: the default operator
    double pc = 0.8; std::optional<double> pm;                          // no rate: the deduced one
    std::optional<double> pm_now;                                       // what the getter returns, if that is known
    Stop stop; Alg alg; int repair = 0;
    std::optional<std::type_index> alg_now;

    static typename GA<T>::CrossoverCallable cx_fn()
    {
        return [](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { CandidatePair<T> r{ b, a }; if constexpr (is_perm<T>) { if (rng::randomBool()) std::reverse(r.first.chromosome.begin(), r.first.chromosome.end()); } else { const size_t k = rng::randomInt<size_t>(0, a.chromosome.size()); for (size_t i = 0; i < k; i++) std::swap(r.first.chromosome[i], r.second.chromosome[i]); } return r; };
    }
    static typename GA<T>::MutationCallable mut_fn() // The rate of the GA is the probability of the change.
    {
        return [](const GA<T>& ga, const Candidate<T>&, Chromosome<T>& y)
        {
            if (rng::randomReal() >= double(ga.mutation_rate())) return;
            const size_t i = rng::randomIndex(y), j = rng::randomIndex(y);
            if constexpr (is_bounded<T>) y[i] = rng::randomBool() ? ga.gene_bounds()[i].lower() : ga.gene_bounds()[i].upper();
            else if constexpr (is_perm<T>) std::swap(y[i], y[j]);
            else y[i] = !y[i];
        };
    }
    static typename GA<T>::RepairCallable repair_fn(int kind)
    {
        if (kind == 0) return nullptr;
        return [kind](const GA<T>&, const Chromosome<T>& x) { auto y = x; if (chrom_hash<T>(x) % 4 >= pbt::u64(kind)) return y; if constexpr (is_perm<T>) std::reverse(y.begin(), y.end()); else if constexpr (is_bin<T>) y[0] = !y[0]; return y; };
    }
    void put_cx(GA<T>& ga, int form) const
    {
        if (cx_call) ga.crossover_method(cx_fn());
        else if (form & 1) ga.crossover_method(build_cx<T>(*cx, form & 2));
        else visit_cx<T>(*cx, form & 2, [&](auto x) { ga.crossover_method(std::move(x)); });
    }
    void put_mut(GA<T>& ga, int form) const
    {
        if (mut_call) ga.mutation_method(mut_fn());
        else if (form & 1) ga.mutation_method(build_mut<T>(*mut, form & 2));
        else visit_mut<T>(*mut, form & 2, [&](auto x) { ga.mutation_method(std::move(x)); });
    }

    // A new object with these settings, with as many of them as possible given to the constructor.
    std::unique_ptr<Ga> fresh(pbt::Case& c) const
    {
        std::unique_ptr<Ga> ga; auto form = [&] { return int(c.raw(16)); };
        const bool ops = cx && mut && !cx_call && !mut_call && pm; Op x, m; if (ops) { x = *cx; m = *mut; x.rate = pc; m.rate = *pm; }
        const bool st = stop.kind != S_Call;
        std::unique_ptr<stopping::StopCondition> sp; if (st) visit_stop(stop, form() & 1, [&]<typename X>(X v) { sp = std::make_unique<X>(std::move(v)); });
        const int how = c.raw(8); bool did_ops = false, did_alg = false, did_stop = false; c.os << "ctor" << how << " ";
        if (how == 0 && ops && st) { ga = std::make_unique<Ga>(pop, build_alg(alg, form() & 3, form() & 1), build_cx<T>(x, form() & 1), build_mut<T>(m, form() & 1), std::move(sp)); did_ops = did_alg = did_stop = true; }
        else if (how == 1 && ops) { ga = std::make_unique<Ga>(pop, build_alg(alg, form() & 3, form() & 1), build_cx<T>(x, form() & 1), build_mut<T>(m, form() & 1)); did_ops = did_alg = true; }
        else if (how == 2 && ops && st) { ga = std::make_unique<Ga>(pop, build_cx<T>(x, form() & 1), build_mut<T>(m, form() & 1), std::move(sp)); did_ops = did_stop = true; }
        else if (how == 3 && ops && x.kind < 2 && m.kind == 0) // by value, without the algorithm
        {
            const bool s1 = form() & 1, s2 = form() & 1;
            by_value_cx(x, s1, [&](auto a) { by_value_mut(m, s2, [&](auto b) {
                if (stop.kind == S_Evals) { ga = std::make_unique<Ga>(pop, std::move(a), std::move(b), stopping::FitnessEvals{ stop.n }); did_stop = true; }
                else ga = std::make_unique<Ga>(pop, std::move(a), std::move(b)); }); });
            did_ops = true;
        }
        else if (how == 4 && ops && x.kind < 2 && m.kind == 0 && (alg.kind == 1 || alg.kind == 2)) // everything by value
        {
            const bool s1 = form() & 1, s2 = form() & 1; const int af = form() & 3;
            auto go = [&]<typename A>(A al) { by_value_cx(x, s1, [&](auto a) { by_value_mut(m, s2, [&](auto b) {
                if (stop.kind == S_Best) { ga = std::make_unique<Ga>(pop, std::move(al), std::move(a), std::move(b), stopping::FitnessBestStall{ stop.n, stop.d }); did_stop = true; }
                else ga = std::make_unique<Ga>(pop, std::move(al), std::move(a), std::move(b)); }); }); };
            if (alg.kind == 1) go(make_single(alg, af, s1)); else go(algorithm::NSGA2{});
            did_ops = did_alg = true;
        }
        else if (how == 5) { ga = std::make_unique<Ga>(pop, build_alg(alg, form() & 3, form() & 1)); did_alg = true; }
        else if (how == 6 && alg.kind) { visit_alg(alg, form() & 3, form() & 1, [&](auto a) { ga = std::make_unique<Ga>(pop, std::move(a)); }); did_alg = true; }
        else if (pop == 100 && c.flip()) ga = std::make_unique<Ga>();
        else ga = std::make_unique<Ga>(pop);
        if (!did_ops)
        {
            if (cx || cx_call) put_cx(*ga, form());
            if (mut || mut_call) put_mut(*ga, form());
            if (double(ga->crossover_rate()) != pc) ga->crossover_rate(pc);
            if (pm) ga->mutation_rate(*pm);
        }
        if (!did_alg && alg.kind) put_alg(*ga, alg, form());
        if (!did_stop && stop.kind != S_None) put_stop<T>(*ga, stop, form());
        ga->max_gen(max_gen); if (cache) ga->cache_size(cache); if (keep_all) ga->keep_all_optimal_solutions(true); if (repair) ga->repair_function(repair_fn(repair));
        return ga;
    }
    template<typename F> static void by_value_cx(const Op& s, bool set, F&& f)
    {
        if constexpr (is_bin<T>) { if (s.kind == 0) form_npoint<crossover::binary::NPoint>(s, set, f); else form_param_cx<crossover::binary::Uniform>(s, set, f, [](auto& x, double v) { x.swap_probability(v); }); }
        else if constexpr (is_int<T>) { if (s.kind == 0) form_npoint<crossover::integer::NPoint>(s, set, f); else form_param_cx<crossover::integer::Uniform>(s, set, f, [](auto& x, double v) { x.swap_probability(v); }); }
        else if constexpr (is_perm<T>) { if (s.kind == 0) form_plain_cx<crossover::perm::Order1>(s, set, f); else form_plain_cx<crossover::perm::Cycle>(s, set, f); }
        else { if (s.kind == 0) form_param_cx<crossover::real::BLXa>(s, set, f, [](auto& x, double v) { x.alpha(v); }); else form_param_cx<crossover::real::SimulatedBinary>(s, set, f, [](auto& x, double v) { x.eta(v); }); }
    }
    template<typename F> static void by_value_mut(const Op& s, bool set, F&& f)
    {
        if constexpr (is_bin<T>) form_plain_mut<mutation::binary::Flip>(s, set, f);
        else if constexpr (is_int<T>) form_plain_mut<mutation::integer::Uniform>(s, set, f);
        else if constexpr (is_perm<T>) form_param_mut<mutation::perm::Inversion>(s, set, f, [](auto& x, double v) { x.range_max(v); });
        else form_param_mut<mutation::real::NonUniform>(s, set, f, [](auto& x, double v) { x.beta(v); });
    }

    void check(const GA<T>& ga, const char* when, bool unused = false) const // unused: not run yet
    {
        PBT_CHECK(ga.population_size() == pop, when, ": population_size() is ", ga.population_size(), " instead of ", pop);
        PBT_CHECK(ga.max_gen() == max_gen, when, ": max_gen() is ", ga.max_gen(), " instead of ", max_gen);
        PBT_CHECK(ga.keep_all_optimal_solutions() == keep_all, when, ": keep_all_optimal_solutions() is ", ga.keep_all_optimal_solutions());
        PBT_CHECK(double(ga.crossover_rate()) == pc && double(ga.crossover_method().crossover_rate()) == pc, when, ": the crossover rate is ", double(ga.crossover_rate()), " instead of ", pc);
        const auto p = pm || unused ? pm : pm_now;
        if (p) PBT_CHECK(double(ga.mutation_rate()) == *p && double(ga.mutation_method().mutation_rate()) == *p, when, ": the mutation rate is ", double(ga.mutation_rate()), " instead of ", *p);
        auto is = [&](const std::type_info& got, const std::type_info& want, const char* what) { PBT_CHECK(got == want, when, ": the ", what, " is a ", got.name(), " instead of a ", want.name()); };
        const auto& gcx = ga.crossover_method(); const auto& gm = ga.mutation_method(); const auto& gs = ga.stop_condition(); const auto& gal = ga.algorithm();
        if (cx_call) is(typeid(gcx), typeid(crossover::Lambda<T>), "crossover");
        else if (!cx) is(typeid(gcx), typeid(typename GaTraits<T>::DefaultCrossover), "crossover");
        else visit_cx<T>(*cx, false, [&](const auto& x) { is(typeid(gcx), typeid(x), "crossover"); });
        if (mut_call) is(typeid(gm), typeid(mutation::Lambda<T>), "mutation");
        else if (!mut) is(typeid(gm), typeid(typename GaTraits<T>::DefaultMutation), "mutation");
        else visit_mut<T>(*mut, false, [&](const auto& x) { is(typeid(gm), typeid(x), "mutation"); });
        if (stop.kind == S_Call) is(typeid(gs), typeid(stopping::Lambda), "stop condition");
        else visit_stop(stop, false, [&](const auto& x) { is(typeid(gs), typeid(x), "stop condition"); });
        auto stall = [&](const auto* x) { if (x) PBT_CHECK(x->patience() == stop.n && x->delta() == stop.d, when, ": the stall condition has patience ", x->patience(), " delta ", x->delta()); };
        stall(dynamic_cast<const stopping::FitnessMeanStall*>(&gs)); stall(dynamic_cast<const stopping::FitnessBestStall*>(&gs));
        if (auto* x = dynamic_cast<const stopping::FitnessEvals*>(&gs)) PBT_CHECK(x->max_fitness_evals() == stop.n, when, ": max_fitness_evals() is ", x->max_fitness_evals());
        if (auto* x = dynamic_cast<const stopping::FitnessValue*>(&gs)) PBT_CHECK(x->fitness_threshold() == stop.th, when, ": fitness_threshold() differs");
        if (alg.kind == 0) { if (alg_now && !unused) PBT_CHECK(std::type_index(typeid(gal)) == *alg_now, when, ": the default algorithm is a ", typeid(gal).name()); }
        else if (alg.kind == 1)
        {
            is(typeid(gal), typeid(algorithm::SingleObjective), "algorithm");
            const auto& so = dynamic_cast<const algorithm::SingleObjective&>(gal); const auto& se = so.selection_method(); const auto& re = so.replacement_method();
            if (alg.sel < 5) visit_sel(alg, false, [&](const auto& x) { is(typeid(se), typeid(x), "selection"); }); else is(typeid(se), typeid(selection::Lambda), "selection");
            if (alg.rep < 3) visit_rep(alg, false, [&](const auto& x) { is(typeid(re), typeid(x), "replacement"); }); else is(typeid(re), typeid(replacement::Lambda), "replacement");
            if (auto* x = dynamic_cast<const selection::Tournament*>(&se)) PBT_CHECK(x->size() == alg.k, when, ": the tournament size is ", x->size());
            if (auto* x = dynamic_cast<const selection::Rank*>(&se)) PBT_CHECK(x->weights() == std::pair(alg.w0, alg.w1), when, ": rank weights ", x->min_weight(), " ", x->max_weight());
            if (auto* x = dynamic_cast<const selection::Sigma*>(&se)) PBT_CHECK(x->scale() == alg.sc, when, ": sigma scale ", x->scale());
            if (auto* x = dynamic_cast<const replacement::Elitism*>(&re)) PBT_CHECK(x->elite_num() == alg.ne, when, ": elite_num() is ", x->elite_num());
        }
        else is(typeid(gal), alg.kind == 2 ? typeid(algorithm::NSGA2) : typeid(algorithm::NSGA3), "algorithm");
    }
};

// One of the forms of the same call of solve(). The maximum number of generations is set on the object for the forms without it.
template<typename T>
static Candidates<T> solve_form(GA<T>& ga, const Config<T>& g, std::shared_ptr<Log<T>> log, int form)
{
    const bool gens_in_call = form & 1, by_value = form & 2, one_bound = (form & 4) && g.uniform_bounds, no_init = (form & 8) && g.init.empty();
    const size_t before = ga.max_gen();
    auto end = [&](Candidates<T> r) { if (!gens_in_call) { PBT_CHECK(ga.max_gen() == g.gens, "max_gen() is ", ga.max_gen(), " after a run of the set number of generations, ", g.gens); ga.max_gen(before); } PBT_CHECK(ga.max_gen() == before, "max_gen() is ", ga.max_gen(), " after the run, it was ", before); return r; };
    if (!gens_in_call) ga.max_gen(g.gens);
    Rec<T> f(g.len, g.type(), log, g.fit); auto p = [&] { return std::make_unique<Rec<T>>(g.len, g.type(), log, g.fit); };
    if constexpr (!is_bounded<T>)
    {
        if (by_value) { if (gens_in_call) return end(no_init ? ga.solve(f, g.gens) : ga.solve(f, g.gens, g.init)); return end(no_init ? ga.solve(f) : ga.solve(f, g.init)); }
        if (gens_in_call) return end(no_init ? ga.solve(p(), g.gens) : ga.solve(p(), g.gens, g.init));
        return end(no_init ? ga.solve(p()) : ga.solve(p(), g.init));
    }
    else
    {
        auto with = [&](auto b)
        {
            if (by_value) { if (gens_in_call) return end(no_init ? ga.solve(f, b, g.gens) : ga.solve(f, b, g.gens, g.init)); return end(no_init ? ga.solve(f, b) : ga.solve(f, b, g.init)); }
            if (gens_in_call) return end(no_init ? ga.solve(p(), b, g.gens) : ga.solve(p(), b, g.gens, g.init));
            return end(no_init ? ga.solve(p(), b) : ga.solve(p(), b, g.init));
        };
        return one_bound ? with(g.bounds[0]) : with(g.bounds);
    }
}
template<typename T> static Trace<T> run_form(GA<T>& ga, const Config<T>& g, int form)
{
    Trace<T> t; size_t max_seen = 0; bool len_ok = true, bounds_ok = true, fit_ok = true;
    ga.on_generation_end([&](const GaInfo& info)
    {
        const auto& x = dynamic_cast<const GA<T>&>(info); t.gens.push_back(snapshot<T>(x, *t.log)); max_seen = std::max(max_seen, info.max_gen());
        len_ok = len_ok && info.chrom_len() == g.len && info.num_objectives() == g.nobj; fit_ok = fit_ok && info.fitness_function() && info.fitness_function()->chrom_len() == g.len && info.fitness_function()->is_dynamic() == g.dynamic;
        if constexpr (is_bounded<T>) { bounds_ok = bounds_ok && x.gene_bounds().size() == g.len; for (size_t i = 0; bounds_ok && i < g.len; i++) bounds_ok = x.gene_bounds()[i].lower() == g.bounds[i].lower() && x.gene_bounds()[i].upper() == g.bounds[i].upper(); }
    });
    threads(g.nthreads); rng::prng.seed(g.seed);
    t.result = solve_form<T>(ga, g, t.log, form);
    ga.on_generation_end(nullptr);
    PBT_CHECK(max_seen == g.gens, "max_gen() during the run is ", max_seen, " instead of ", g.gens);
    PBT_CHECK(len_ok, "chrom_len() or num_objectives() during the run"); PBT_CHECK(fit_ok, "fitness_function() during the run"); PBT_CHECK(bounds_ok, "gene_bounds() during the run");
    return t;
}

template<typename T>
static Config<T> gen_problem(pbt::Case& c, size_t pop, size_t nobj)
{
    Config<T> g; g.pop = pop; g.nobj = nobj; g.len = c.size(1, 12); g.gens = c.size(1, 7); g.nthreads = c.chance(1, 6) ? c.range<size_t>(2, 4) : 1; g.seed = c.raw(1 << 20);
    gen_bounds<T>(c, g, false); g.fit = gen_fit<T>(c, g, g.desc, false); g.exact = true; g.dynamic = c.chance(1, 6);
    if (c.chance(1, 3)) { const size_t n = c.size(1, pop + 2); for (size_t i = 0; i < n; i++) g.init.push_back(Candidate<T>(gen_chrom<T>(c, g))); }
    c.os << "[" << g.desc << "len " << g.len << " nobj " << nobj << " gens " << g.gens << " threads " << g.nthreads << " seed " << g.seed << " init " << g.init.size() << (g.dynamic ? " dynamic" : "") << "] ";
    return g;
}

// A history of settings on one object against a model of its settings; every now and then a run, which must be the one of
// a new object with the settings of the model.
template<typename T>
static void settings_history(pbt::Case& c)
{
    Tol tol(true);
    Set<T> s; using Ga = typename Enc<T>::Ga; std::unique_ptr<Ga> ga;
    size_t alg_lo = 0; // the number of objectives that the algorithm needs
    c.os << Enc<T>::name << ": ";
    if (c.chance(1, 3)) { ga = std::make_unique<Ga>(); c.os << "default constructed "; } else { s.pop = c.size(1, 16); ga = std::make_unique<Ga>(s.pop); }
    s.check(*ga, "after construction");
    const size_t steps = c.size(2, 14); size_t set_since = 0;
    for (size_t k = 0; k <= steps; k++)
    {
        const int op = k == steps ? 20 : c.raw(24); const int form = c.raw(16);
        switch (op)
        {
            case 0: case 1: s.pop = c.size(1, 16); ga->population_size(s.pop); c.os << "pop " << s.pop << "; "; break;
            case 2: s.max_gen = c.size(1, 1000); ga->max_gen(s.max_gen); c.os << "max_gen " << s.max_gen << "; "; break;
            case 3: s.keep_all = c.flip(); ga->keep_all_optimal_solutions(s.keep_all); c.os << "keep_all " << s.keep_all << "; "; break;
            case 4: s.cache = c.range<size_t>(0, 3); ga->cache_size(s.cache); c.os << "cache " << s.cache << "; "; break;
            case 5: s.repair = is_bounded<T> ? 0 : c.raw(4); ga->repair_function(Set<T>::repair_fn(s.repair)); c.os << "repair " << s.repair << "; "; break;
            case 6: case 7: s.cx = gen_op<T>(c, true, 8); s.cx_call = false; s.put_cx(*ga, form); s.pc = s.cx->rate; c.os << "form " << form << "; "; break;
            case 8: s.cx.reset(); s.cx_call = true; s.put_cx(*ga, form); s.pc = 0.8; c.os << "cx callable; "; break;
            case 9: s.pc = c.chance(1, 4) ? s.pc : gen_rate(c, true); ga->crossover_rate(s.pc); c.os << "pc " << s.pc << "; "; break;
            case 10: case 11: s.mut = gen_op<T>(c, false, 8); s.mut_call = false; s.put_mut(*ga, form); s.pm = s.mut->rate; c.os << "form " << form << "; "; break;
            case 12: s.mut.reset(); s.mut_call = true; s.put_mut(*ga, form); s.pm.reset(); s.pm_now.reset(); c.os << "mut callable; "; break;
            case 13: s.pm = c.chance(1, 3) ? double(ga->mutation_rate()) : gen_rate(c, true); // also the rate that it has anyway
                ga->mutation_rate(*s.pm); c.os << "pm " << *s.pm << "; "; break;
            case 14: case 15: s.stop = gen_stop(c, s.pop, 6); if (s.stop.kind == S_Value) s.stop.th = FitnessVector(1, c.pick({ 2.0, 0.0, -3.0 })); put_stop<T>(*ga, s.stop, form); c.os << "form " << form << "; "; break;
            case 16: case 17: case 18: s.alg = gen_alg(c, s.pop); put_alg<T>(*ga, s.alg, form); s.alg_now.reset(); c.os << "form " << form << "; "; break;
            case 19: { auto b = std::make_unique<Ga>(std::move(*ga)); if (c.flip()) { ga = std::make_unique<Ga>(3); *ga = std::move(*b); } else ga = std::move(b); c.os << "move; "; break; }
            default:
            {
                const bool value = s.stop.kind == S_Value; // needs as many objectives as it has thresholds
                const size_t nobj = s.alg.kind == 1 ? 1 : s.alg.kind >= 2 ? c.range<size_t>(2, 3) : c.pick({ 1, 1, 2, 3 });
                if (value && s.stop.th.size() != nobj) { s.stop.th = FitnessVector(nobj, c.pick({ 2.0, 0.0, -3.0 })); put_stop<T>(*ga, s.stop, form); }
                Config<T> g = gen_problem<T>(c, s.pop, nobj);
                // Fewer candidates than the elites of the replacement: not what is tested here.
                if (s.alg.kind == 1 && s.alg.rep == 2 && s.alg.ne > s.pop) { s.alg.ne = s.pop; put_alg<T>(*ga, s.alg, form); }
                auto twin = s.fresh(c);
                s.check(*twin, "new object", true);
                const int f1 = c.raw(16), f2 = c.raw(16); c.os << "run (forms " << f1 << " " << f2 << "); ";
                auto a = run_form<T>(*ga, g, f1); auto b = run_form<T>(*twin, g, f2);
                const auto d = diff<T>(a, b);
                PBT_CHECK(d.empty(), "the run differs from that of a new object with the same settings: ", d);
                if (!s.pm) s.pm_now = double(GaTraits<T>::defaultMutationRate(g.len));
                if (s.alg.kind == 0) s.alg_now = nobj == 1 ? std::type_index(typeid(algorithm::SingleObjective)) : std::type_index(typeid(algorithm::NSGA3));
                s.check(*twin, "new object after the run");
                if (a.gens.size() >= 2 && set_since) c.nontrivial();
                break;
            }
        }
        if (op < 20) set_since++;
        s.check(*ga, op < 20 ? "after a setting" : "after a run");
    }
    (void)alg_lo;
}
PBT_PROP(settings_binary, 4000, 120000) { settings_history<BinaryGene>(c); }
PBT_PROP(settings_integer, 4000, 120000) { settings_history<IntegerGene>(c); }
PBT_PROP(settings_permutation, 4000, 120000) { settings_history<PermutationGene>(c); }
PBT_PROP(settings_real, 4000, 120000) { settings_history<RealGene>(c); }

// All forms of the call of solve() make the same run.
template<typename T, size_t N> struct Fixed final : FitnessFunction<T, N>
{
    std::shared_ptr<Log<T>> log; Fit<T> f; Fixed(std::shared_ptr<Log<T>> l, Fit<T> fn, typename FitnessFunction<T, N>::Type t) : FitnessFunction<T, N>(t), log(std::move(l)), f(std::move(fn)) {}
    FitnessVector invoke(const Chromosome<T>& x) const override { if (log) { std::scoped_lock l(log->m); log->calls.push_back(x); } return f(x); }
};
template<typename T> static void solve_forms(pbt::Case& c)
{
    Limits L; L.dynamic = true; L.max_pop = 14; L.max_len = c.pick({ 12, 4 }); L.max_gen = 8; L.huge = false;
    Config<T> g = gen_config<T>(c, L); Tol tol(g.exact);
    auto ga = g.make(); const auto base = run<T>(*ga, g);
    const size_t n = c.size(1, 4);
    for (size_t k = 0; k < n; k++)
    {
        const int form = c.raw(16); c.os << "form " << form << " "; c.label("form " + std::to_string(form & 7));
        auto other = g.make(); if (c.flip()) other->max_gen(c.range<size_t>(1, 40));
        const auto t = run_form<T>(*other, g, form);
        const auto d = diff<T>(base, t);
        PBT_CHECK(d.empty(), "the form ", form, " of solve() makes another run: ", d);
        PBT_CHECK(t.log->calls.size() == base.log->calls.size(), "calls of the fitness function: ", t.log->calls.size(), " instead of ", base.log->calls.size());
    }
    if (g.len <= 4) // a fitness function with the length in its type
    {
        Trace<T> t; auto other = g.make(); record<T>(*other, t); threads(g.nthreads); rng::prng.seed(g.seed);
        std::unique_ptr<FitnessFunctionBase<T>> f;
        switch (g.len) { case 1: f = std::make_unique<Fixed<T, 1>>(t.log, g.fit, g.type()); break; case 2: f = std::make_unique<Fixed<T, 2>>(t.log, g.fit, g.type()); break; case 3: f = std::make_unique<Fixed<T, 3>>(t.log, g.fit, g.type()); break; default: f = std::make_unique<Fixed<T, 4>>(t.log, g.fit, g.type()); break; }
        PBT_CHECK(f->chrom_len() == g.len && f->is_dynamic() == g.dynamic, "chrom_len() or is_dynamic() of a fitness function");
        if constexpr (is_bounded<T>) t.result = other->solve(std::move(f), g.bounds, g.gens, g.init); else t.result = other->solve(std::move(f), g.gens, g.init);
        other->on_generation_end(nullptr);
        const auto d = diff<T>(base, t); PBT_CHECK(d.empty(), "a fitness function of fixed length makes another run: ", d); c.label("fixed length");
    }
    if (base.gens.size() >= 2) c.nontrivial();
}
PBT_PROP(solve_forms, 8000, 240000) { for_encoding(c, [&]<typename T>() { solve_forms<T>(c); }); }

// An operator whose parameters were changed makes what one that was made with them makes.
template<typename T> static void operators(pbt::Case& c)
{
    ctx::one_thread(); using Ga = typename Enc<T>::Ga; Ga ga(4);
    Config<T> g; g.len = c.size(1, 14); gen_bounds<T>(c, g, false);
    if constexpr (is_bounded<T>) ctx::run(ga, g.bounds); else ctx::run(ga, g.len);
    const pbt::u64 seed = c.raw(1 << 20); const bool cx = c.flip(); Op s = gen_op<T>(c, cx, g.len); if (c.chance(3, 4)) s.rate = c.pick({ 1.0, 0.6 });
    const auto a = ctx::cand<T>(gen_chrom<T>(c, g)), b = ctx::cand<T>(gen_chrom<T>(c, g));
    c.os << Enc<T>::name << " len " << g.len << " seed " << seed; const size_t times = c.size(1, 6); bool changed = false;
    std::vector<Chromosome<T>> out[2];
    for (int set = 0; set < 2; set++)
    {
        rng::prng.seed(seed);
        if (cx) { auto op = build_cx<T>(s, set); PBT_CHECK(double(op->crossover_rate()) == s.rate, "the crossover rate is ", double(op->crossover_rate())); for (size_t k = 0; k < times; k++) { auto r = (*op)(ga, a, b); changed = changed || (r.first.chromosome != a.chromosome && r.first.chromosome != b.chromosome); out[set].push_back(r.first.chromosome); out[set].push_back(r.second.chromosome); } }
        else { auto op = build_mut<T>(s, set); PBT_CHECK(double(op->mutation_rate()) == s.rate, "the mutation rate is ", double(op->mutation_rate())); for (size_t k = 0; k < times; k++) { auto x = a; (*op)(ga, x); changed = changed || x.chromosome != a.chromosome; out[set].push_back(x.chromosome); } }
    }
    PBT_CHECK(out[0] == out[1], "the ", cx ? "crossover" : "mutation", " with changed parameters makes other candidates than one that was made with these parameters");
    if (changed) c.nontrivial();
}
PBT_PROP(operators_changed, 60000, 3000000) { for_encoding(c, [&]<typename T>() { operators<T>(c); }); }

// What is not given is what the documentation says.
template<typename T> static void defaults(pbt::Case& c)
{
    Tol tol(true); using Ga = typename Enc<T>::Ga;
    Config<T> g = gen_problem<T>(c, c.size(2, 12), c.pick({ 1, 1, 2 }));
    const bool multi = g.nobj > 1; const int what = c.raw(10); c.os << Enc<T>::name << " what " << what;
    Ga a(g.pop), b(g.pop);
    auto both = [&](auto f) { f(a); f(b); };
    auto single = [](auto s, auto r) { return algorithm::SingleObjective(std::move(s), std::move(r)); };
    switch (what)
    {
        case 0: // the operators and the algorithm of a default object
            b.crossover_method(typename GaTraits<T>::DefaultCrossover{ 0.8 }); b.mutation_method(typename GaTraits<T>::DefaultMutation{ GaTraits<T>::defaultMutationRate(g.len) });
            if (multi) b.algorithm(algorithm::NSGA3{}); else b.algorithm(algorithm::SingleObjective{});
            b.stop_condition(stopping::NoEarlyStop{}); b.keep_all_optimal_solutions(false); b.cache_size(0); b.repair_function(nullptr); break;
        case 1: if (!multi) { a.algorithm(algorithm::SingleObjective{}); b.algorithm(single(selection::Tournament{ 2 }, replacement::KeepBest{})); } break;
        case 2: if (!multi) { a.algorithm(single(selection::Rank{}, replacement::Elitism{})); b.algorithm(single(selection::Rank{ 0.1, 1.1 }, replacement::Elitism{ 1 })); } break;
        case 3: if (!multi) { a.algorithm(algorithm::SingleObjective{ selection::Sigma{} }); b.algorithm(single(selection::Sigma{ 3.0 }, replacement::KeepBest{})); } break;
        case 4: if (!multi) { a.algorithm(algorithm::SingleObjective{ sel_call() }); b.algorithm(single(selection::Lambda{ sel_call() }, replacement::KeepBest{})); } break;
        case 5: both([&](Ga& x) { x.algorithm(nullptr); }); if (!multi) { a.stop_condition(stopping::FitnessBestStall{ 2 }); b.stop_condition(stopping::FitnessBestStall{ 2, 1e-6 }); } break;
        case 6: if (!multi) { a.stop_condition(stopping::FitnessMeanStall{}); b.stop_condition(stopping::FitnessMeanStall{ 0, 1e-6 }); } break;
        case 7: if constexpr (is_real<T>)
        {
            namespace x = crossover::real; namespace m = mutation::real; const double p = c.unit();
            switch (c.raw(5)) { case 0: a.crossover_method(x::BLXa{}); b.crossover_method(x::BLXa{ 0.8, 0.5 }); break; case 1: a.crossover_method(x::SimulatedBinary{ p }); b.crossover_method(x::SimulatedBinary{ p, 4.0 }); break; case 2: a.mutation_method(m::NonUniform{ p }); b.mutation_method(m::NonUniform{ p, 2.0 }); break; case 3: a.mutation_method(m::Gauss{ p }); b.mutation_method(m::Gauss{ p, 6.0 }); break; default: a.mutation_method(m::Polynomial{ p }); b.mutation_method(m::Polynomial{ p, 40.0 }); break; }
        }
        else if constexpr (is_perm<T>)
        {
            namespace m = mutation::perm; const double p = c.unit();
            switch (c.raw(3)) { case 0: a.mutation_method(m::Inversion{ p }); b.mutation_method(m::Inversion{ p, 0.75 }); break; case 1: a.mutation_method(m::Shuffle{ p }); b.mutation_method(m::Shuffle{ p, 0.5 }); break; default: a.mutation_method(m::Shift{ p }); b.mutation_method(m::Shift{ p, 0.75 }); break; }
        }
        else if constexpr (is_bin<T>) { a.crossover_method(crossover::binary::Uniform{}); b.crossover_method(crossover::binary::Uniform{ 0.8, 0.5 }); }
        else { a.crossover_method(crossover::integer::NPoint{ 3 }); b.crossover_method(crossover::integer::NPoint{ 0.8, 3 }); }
            break;
        case 8: // a crossover without a rate has the default one, whatever rate was set before
            both([&](Ga& x) { x.crossover_rate(0.1); x.crossover_method(Set<T>::cx_fn()); }); b.crossover_rate(0.8); break;
        default: // a mutation without a rate has the deduced one, whatever rate was set before
            both([&](Ga& x) { x.mutation_rate(0.9); x.mutation_method(Set<T>::mut_fn()); }); b.mutation_rate(GaTraits<T>::defaultMutationRate(g.len)); break;
    }
    { Ga d; PBT_CHECK(d.population_size() == 100 && d.max_gen() == 500 && double(d.crossover_rate()) == 0.8 && !d.keep_all_optimal_solutions() && d.generation_cntr() == 0 && d.num_fitness_evals() == 0 && d.chrom_len() == 0 && !d.fitness_function(), "the settings of a default constructed object"); }
    auto x = run_form<T>(a, g, 15), y = run_form<T>(b, g, 15);
    const auto d = diff<T>(x, y);
    PBT_CHECK(d.empty(), "the default differs from what it is documented to be: ", d);
    if (x.gens.size() >= 2) c.nontrivial();
}
PBT_PROP(defaults, 8000, 240000) { for_encoding(c, [&]<typename T>() { defaults<T>(c); }); }

// Rates that are changed during a run are those of the following generations. With the next population made of the children,
// every member comes from a member of the population before it: unchanged if both rates are zero, with every gene
// flipped if the mutation rate is one and there is no crossover.
PBT_PROP(rates_during_run, 6000, 200000)
{
    const size_t pop = c.size(1, 14), len = c.size(1, 12), gens = c.size(2, 12); const pbt::u64 seed = c.raw(1 << 20); threads(c.chance(1, 4) ? 3 : 1);
    c.show("pop", pop).show("len", len).show("gens", gens).show("seed", seed);
    BinaryGA ga(pop); ga.algorithm(algorithm::SingleObjective(selection::Tournament{ 2 }, replacement::KeepChildren{})); ga.crossover_rate(0.5); ga.mutation_rate(0.5);
    std::vector<int> plan; for (size_t i = 0; i < gens; i++) plan.push_back(c.raw(3)); // 0: anything, 1: copies, 2: complements
    c.showv("plan", plan);
    std::vector<Chromosome<BinaryGene>> before; int expect = 0; bool useful = false;
    ga.on_generation_end([&](const GaInfo& info)
    {
        const size_t gen = info.generation_cntr(); std::vector<Chromosome<BinaryGene>> now; for (auto& x : ga.population()) now.push_back(x.chromosome);
        if (expect) for (auto x : now)
        {
            if (expect == 2) for (auto& b : x) b = !b;
            PBT_CHECK(std::find(before.begin(), before.end(), x) != before.end(), "generation ", gen, ": a member is not a ", expect == 1 ? "copy" : "complement", " of a member of the generation before it"); useful = true;
        }
        expect = plan[gen];
        switch (expect) { case 1: ga.crossover_rate(0.0); ga.mutation_rate(0.0); break; case 2: ga.crossover_rate(0.0); ga.mutation_rate(1.0); break; default: ga.crossover_rate(0.9); ga.mutation_rate(0.3); break; }
        before = now;
    });
    rng::prng.seed(seed);
    ga.solve(std::make_unique<Rec<BinaryGene>>(len, FitnessFunctionInfo::Type::Static, nullptr, [](const Chromosome<BinaryGene>& x) { return FitnessVector{ double(chrom_hash<BinaryGene>(x) % 7) }; }), gens);
    if (useful && pop > 1) c.nontrivial();
}
