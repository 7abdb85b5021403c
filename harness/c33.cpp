#include "pbt.hpp"
#include "runs.hpp"
#include <variant>
using namespace gapp;
PBT_RULE("A case is one or two runs of a user-defined encoding (gene type, GaTraits, GA class, operators) or of a built-in one with operators that change the chromosome length; it is non-trivial if a run had at least two generations and a later generation contained a chromosome that was not in the initial one.");
PBT_ASSUME("The gene types are copyable, comparable and hashable; user-supplied operators, repair functions and generateCandidate are pure apart from their random draws, which come from the library's generator. Tolerances are zero (they matter for floating-point genes only).");

// ---- the encodings ------------------------------------------------------------------------------------------------
struct Word { std::string s; friend auto operator<=>(const Word&, const Word&) = default; friend std::ostream& operator<<(std::ostream& o, const Word& w) { return o << '"' << w.s.substr(0, 3) << '"'; } }; // owns memory
template<> struct std::hash<Word> { size_t operator()(const Word& w) const noexcept { return std::hash<std::string>{}(w.s); } };
using Mix = std::variant<int, double, std::string>;
enum class Level : unsigned char {};
static std::ostream& operator<<(std::ostream& o, Level l) { return o << int(l); }
static std::ostream& operator<<(std::ostream& o, const Mix& m) { std::visit([&](auto& x) { o << x; }, m); return o; }

template<typename T> struct Enc2;
template<> struct Enc2<Word>       { static constexpr bool var = true;  static constexpr const char* name = "words";      static Word make(size_t x) { return { std::string(x % 3 ? 1 + x % 7 : 30, char('a' + x % 5)) }; } };
template<> struct Enc2<Mix>        { static constexpr bool var = false; static constexpr const char* name = "variants";   static Mix make(size_t x) { switch (x % 3) { case 0: return int(x / 3 % 4); case 1: return double(x / 3 % 4); default: return std::string(x / 3 % 40, 'm'); } } };
template<> struct Enc2<Level>      { static constexpr bool var = false; static constexpr const char* name = "bounded enums"; static Level make(size_t x) { return Level(x % 6); } };
template<> struct Enc2<float>      { static constexpr bool var = true;  static constexpr const char* name = "floats";     static float make(size_t x) { return float(x % 9) / 4; } };
template<> struct Enc2<BinaryGene> { static constexpr bool var = true;  static constexpr const char* name = "bits";       static BinaryGene make(size_t x) { return x % 2; } };

struct Obs // what the user's parts of one case have seen
{
    std::atomic<size_t> generated = 0, inits = 0, cx = 0, mut = 0, rep = 0, default_cx = 0, default_mut = 0; size_t max_len = 1; bool full = false;
    std::mutex m; std::string bad; void note(const std::string& s) { std::scoped_lock l(m); if (bad.empty()) bad = s; }
};
static Obs* obs;
static size_t rnd(size_t n) { return rng::randomInt<size_t>(0, n - 1); }

template<typename T> static bool member(const GA<T>& ga, const Candidate<T>& x) { for (auto& y : ga.population()) if (&x == &y) return true; return false; }
template<typename T, bool Default = false> struct Cx : crossover::Crossover<T>
{
    using crossover::Crossover<T>::Crossover;
    constexpr bool allow_variable_chrom_length() const noexcept override { return Enc2<T>::var; }
    CandidatePair<T> crossover(const GA<T>& ga, const Candidate<T>& a, const Candidate<T>& b) const override
    {
        obs->cx++; if (Default) obs->default_cx++;
        if (!member(ga, a) || !member(ga, b)) obs->note("a parent is not a member of the population");
        if (!a.is_evaluated || !b.is_evaluated) obs->note("a parent is not marked as evaluated");
        if (a.chromosome == b.chromosome) obs->note("crossover of equal parents");
        size_t i = rnd(a.chromosome.size() + 1), j = Enc2<T>::var ? rnd(b.chromosome.size() + 1) : i;
        auto join = [](const Chromosome<T>& x, size_t i, const Chromosome<T>& y, size_t j) { Chromosome<T> z(x.begin(), x.begin() + i); z.insert(z.end(), y.begin() + j, y.end()); if (z.empty()) z.push_back(x[0]); if (z.size() > obs->max_len) z.resize(obs->max_len); return Candidate<T>(std::move(z)); };
        return { join(a.chromosome, i, b.chromosome, j), join(b.chromosome, j, a.chromosome, i) };
    }
};
template<typename T, bool Default = false> struct Mut : mutation::Mutation<T>
{
    using mutation::Mutation<T>::Mutation;
    constexpr bool allow_variable_chrom_length() const noexcept override { return Enc2<T>::var; }
    void mutate(const GA<T>&, const Candidate<T>& cand, Chromosome<T>& x) const override
    {
        obs->mut++; if (Default) obs->default_mut++;
        if (&cand.chromosome != &x && cand.chromosome != x) obs->note("the mutation was given a chromosome that is not the candidate's");
        for (auto& g : x) if (rng::randomReal() < this->mutation_rate()) g = Enc2<T>::make(rng::randomInt<size_t>(0, 1000));
        if constexpr (Enc2<T>::var)
        {
            if (rng::randomReal() < 0.2 && x.size() < obs->max_len) x.insert(x.begin() + rnd(x.size() + 1), Enc2<T>::make(rng::randomInt<size_t>(0, 1000)));
            if (rng::randomReal() < 0.2 && x.size() > 1) x.erase(x.begin() + rnd(x.size()));
        }
    }
};
template<typename T> static constexpr double def_rate(size_t len) { return 0.5 / double(len + 1); }
#define TRAITS(T) template<> struct gapp::GaTraits<T> { using DefaultCrossover = Cx<T, true>; using DefaultMutation = Mut<T, true>; static Probability defaultMutationRate(size_t len) { return def_rate<T>(len); } };
TRAITS(Word) TRAITS(Mix) TRAITS(Level) TRAITS(float)
template<> inline constexpr bool gapp::is_bounded<Level> = true;

template<typename T> class Own final : public GA<T>
{
public:
    using GA<T>::GA;
private:
    void initialize() override
    {
        if (obs->inits++ != 0) obs->note("initialize() was called more than once in a run"); if (obs->generated) obs->note("a candidate was generated before initialize()");
        if (!this->fitness_function()) obs->note("no fitness function is set in initialize()");
        if constexpr (is_bounded<T>) if (this->gene_bounds().size() != this->chrom_len()) obs->note("the bounds are not set in initialize()");
    }
    Candidate<T> generateCandidate() const override
    {
        obs->generated++; Candidate<T> x(this->chrom_len());
        for (size_t i = 0; i < x.chromosome.size(); i++) { const size_t r = rng::randomInt<size_t>(0, 1000); if constexpr (is_bounded<T>) { const int lo = int(this->gene_bounds()[i].lower()), hi = int(this->gene_bounds()[i].upper()); x.chromosome[i] = T(lo + int(r) % (hi - lo + 1)); } else x.chromosome[i] = Enc2<T>::make(r); }
        return x;
    }
};
template<> struct runs::Enc<Word>  { using Ga = Own<Word>;  static constexpr const char* name = "words"; };
template<> struct runs::Enc<Mix>   { using Ga = Own<Mix>;   static constexpr const char* name = "variants"; };
template<> struct runs::Enc<Level> { using Ga = Own<Level>; static constexpr const char* name = "levels"; };
template<> struct runs::Enc<float> { using Ga = Own<float>; static constexpr const char* name = "floats"; };
using namespace runs;

template<typename T> static size_t hash_of(const Chromosome<T>& x) { size_t h = 5; for (auto& g : x) h = mix(h, std::hash<T>{}(g)); return h; }

template<typename T> static std::set<Chromosome<T>> optimal(const std::vector<Gen<T>>& gens, size_t from, size_t to)
{
    std::vector<const Candidate<T>*> all; for (size_t i = from; i < to; i++) for (auto& x : gens[i].pop) all.push_back(&x);
    std::set<Chromosome<T>> r; for (auto* x : all) { bool dom = false; for (auto* y : all) if (dominates(y->fitness, x->fitness)) { dom = true; break; } if (!dom) r.insert(x->chromosome); } return r;
}
template<typename T> static void own(pbt::Case& c)
{
    constexpr bool custom = !is_bin<T>, var = Enc2<T>::var;
    Config<T> g; Limits L;
    g.pop = c.wide(1, 14, 100); g.len = c.wide(1, 6, 40); g.gens = c.wide(1, 10, 60); g.nobj = c.chance(2, 5) ? c.range<size_t>(2, 3) : 1; g.seed = c.raw(1 << 20); g.nthreads = c.chance(1, 4) ? c.range<size_t>(2, 4) : 1;
    g.cache = c.flip() ? c.range<size_t>(1, 3) : 0; g.keep_all = c.chance(1, 3); g.dynamic = c.chance(1, 5);
    Obs o; obs = &o; o.max_len = var ? g.len + c.range<size_t>(0, 6) : g.len;
    gen_algorithm<T>(c, g);
    const bool dcx = custom && c.chance(1, 3), dmut = custom && c.chance(1, 3); const double pc = gen_rate(c, true), pm = gen_rate(c, true); const bool flip = !custom && c.flip(), ops_first = c.flip();
    if (!dcx) g.cx = [pc] { return std::make_unique<Cx<T>>(pc); };
    if (!dmut) { if constexpr (!custom) { if (flip) g.mut = [pm] { return std::make_unique<mutation::binary::Flip>(pm); }; } if (!g.mut) g.mut = [pm] { return std::make_unique<Mut<T>>(pm); }; }
    const int K = c.range(2, 60); const size_t salt = c.raw(1000), m = g.nobj; const bool by_len = var && c.flip();
    g.fit = [K, salt, m, by_len](const Chromosome<T>& x) { FitnessVector f(m); const size_t h = hash_of<T>(x); for (size_t k = 0; k < m; k++) f[k] = double(mix(h + salt, k) % K) + (by_len ? double(x.size()) : 0.0); return f; };
    if (c.chance(1, 3)) g.repair = [](const GA<T>& ga, const Chromosome<T>& x) { obs->rep++; auto y = x; if (hash_of<T>(x) % 3 == 0) { std::reverse(y.begin(), y.end()); if (var && y.size() > 1 && hash_of<T>(x) % 6 == 0) y.pop_back(); } (void)ga; return y; };
    if constexpr (is_bounded<T>) for (size_t i = 0; i < g.len; i++) { const int lo = c.range(0, 5), hi = c.range(lo, 5); g.bounds.push_back({ T(lo), T(hi) }); }
    if (c.chance(1, 3)) for (size_t n = c.size(1, g.pop + 2); n--;) { Candidate<T> x(var ? c.range<size_t>(1, o.max_len) : g.len); for (size_t i = 0; i < x.chromosome.size(); i++) x.chromosome[i] = is_bounded<T> && !custom ? T{} : Enc2<T>::make(c.raw(1000)); if constexpr (is_bounded<T>) for (size_t i = 0; i < g.len; i++) x.chromosome[i] = g.bounds[i].lower(); if (!g.dynamic && c.chance(1, 3)) { x.fitness = g.fit(x.chromosome); x.is_evaluated = true; } g.init.push_back(x); }
    c.os << Enc2<T>::name << ' ' << g.desc; c.show("pop", g.pop).show("len", g.len).show("max_len", o.max_len).show("gens", g.gens).show("nobj", g.nobj).show("threads", g.nthreads).show("cache", g.cache).show("keep_all", g.keep_all).show("dynamic", g.dynamic).show("pc", pc).show("pm", pm).show("default cx", dcx).show("default mut", dmut).show("init", g.init.size()).show("repair", bool(g.repair)).show("K", K);
    c.label(std::string("encoding ") + Enc2<T>::name);
    Tol tol(true);
    auto build = [&]() -> std::unique_ptr<typename Config<T>::Ga>
    {
        if (ops_first || dcx || dmut) return g.make();
        std::unique_ptr<typename Config<T>::Ga> ga; // operators given to the constructor
        ga = std::make_unique<typename Config<T>::Ga>(g.pop, g.alg ? g.alg() : nullptr, g.cx(), g.mut(), nullptr);
        ga->cache_size(g.cache); ga->keep_all_optimal_solutions(g.keep_all); ga->repair_function(g.repair); return ga;
    };
    auto ga = build();
    auto once = [&](GA<T>& ga)
    {
        o.generated = o.inits = o.cx = o.mut = o.rep = o.default_cx = o.default_mut = 0;
        auto t = run<T>(ga, g);
        PBT_CHECK(o.bad.empty(), o.bad);
        PBT_CHECK(t.gens.size() == g.gens, t.gens.size(), " generations instead of ", g.gens);
        if (custom)
        {
            PBT_CHECK(o.inits == 1, "initialize() was called ", o.inits.load(), " times");
            const size_t want = g.pop - std::min(g.pop, g.init.size()); // and one for finding the number of objectives
            PBT_CHECK(o.generated == want + 1, o.generated.load(), " candidates were generated instead of ", want, " and a probe");
            if (dcx) PBT_CHECK(o.cx == o.default_cx, "the default crossover was not used"); else PBT_CHECK(!o.default_cx, "the default crossover was used");
            if (dmut) { PBT_CHECK(o.mut == o.default_mut, "the default mutation was not used"); PBT_CHECK(double(ga.mutation_rate()) == def_rate<T>(g.len), "default mutation rate ", double(ga.mutation_rate())); }
            else { PBT_CHECK(!o.default_mut, "the default mutation was used"); PBT_CHECK(double(ga.mutation_rate()) == pm, "the mutation rate became ", double(ga.mutation_rate())); }
        }
        const size_t later = g.gens - 1;
        if (!flip) PBT_CHECK(o.mut == later * g.pop, "mutate() was called ", o.mut.load(), " times for ", later * g.pop, " children");
        if (g.repair) PBT_CHECK(o.rep == later * g.pop, "repair was called ", o.rep.load(), " times for ", later * g.pop, " children");
        PBT_CHECK(o.cx <= later * ((g.pop + 1) / 2), "the crossover was performed ", o.cx.load(), " times");
        const auto ok = [&](const Candidate<T>& x, const auto&... what)
        {
            if (var ? x.chromosome.empty() || x.chromosome.size() > o.max_len : x.chromosome.size() != g.len) pbt::fail(what..., ": chromosome of length ", x.chromosome.size());
            if (!x.is_evaluated || !(x.fitness == g.fit(x.chromosome))) pbt::fail(what..., ": a candidate has the fitness ", pbt::str(x.fitness), " instead of ", pbt::str(g.fit(x.chromosome)));
        };
        std::set<Chromosome<T>> first; bool fresh = false;
        for (size_t i = 0; i < t.gens.size(); i++)
        {
            auto& s = t.gens[i]; PBT_CHECK(s.pop.size() == g.pop && s.cntr == i, "generation ", i, ": size ", s.pop.size(), " number ", s.cntr);
            for (auto& x : s.pop) { ok(x, "generation ", i); if (!i) first.insert(x.chromosome); else fresh |= !first.count(x.chromosome); }
            for (size_t k = 0; k < g.pop; k++) PBT_CHECK(s.fmat[k] == s.pop[k].fitness, "row ", k, " of the fitness matrix in generation ", i);
            PBT_CHECK(s.evals + 1 == s.calls, "generation ", i, ": ", s.evals, " evaluations reported, ", s.calls, " calls made");
            if (g.dynamic) PBT_CHECK(s.evals == g.pop * (i + 1), "generation ", i, ": ", s.evals, " evaluations of a dynamic function");
        }
        for (size_t k = 0; k < std::min(g.pop, g.init.size()); k++) PBT_CHECK(t.gens[0].pop[k].chromosome == g.init[k].chromosome, "candidate ", k, " of the initial generation is not the given one");
        auto sols = [&](const Candidates<T>& got, const std::set<Chromosome<T>>& want, size_t i) { std::set<Chromosome<T>> r; for (auto& x : got) { ok(x, "solutions in generation ", i); PBT_CHECK(r.insert(x.chromosome).second, "a solution is listed twice in generation ", i); } PBT_CHECK(r == want, r.size(), " solutions instead of ", want.size(), " in generation ", i); };
        if (g.keep_all) for (size_t i = 0; i < t.gens.size(); i++) sols(t.gens[i].sols, optimal<T>(t.gens, 0, i + 1), i);
        sols(t.result, optimal<T>(t.gens, g.keep_all ? 0 : t.gens.size() - 1, t.gens.size()), t.gens.size() - 1);
        if (!g.dynamic && g.cache && g.nthreads == 1) // chromosomes that first entered the population in the generation before that of the parents are in the cache
        {
            std::set<Chromosome<T>> before;
            for (size_t i = 2; i < t.gens.size(); i++)
            {
                std::set<Chromosome<T>> known; for (auto& x : t.gens[i - 2].pop) if (!before.count(x.chromosome)) known.insert(x.chromosome);
                for (size_t k = t.gens[i - 1].calls; k < t.gens[i].calls; k++) PBT_CHECK(!known.count(t.log->calls[k]), "a cached chromosome was evaluated again in generation ", i);
                for (auto& x : t.gens[i - 2].pop) before.insert(x.chromosome);
            }
        }
        c.nontrivial(t.gens.size() >= 2 && fresh);
        return t;
    };
    auto a = once(*ga);
    if (c.chance(1, 3)) // the same object again, or another one after moving it
    {
        std::unique_ptr<typename Config<T>::Ga> other; GA<T>* next = ga.get();
        if (c.flip()) next = (other = build()).get(); else if (c.flip()) next = (other = std::make_unique<typename Config<T>::Ga>(std::move(*ga))).get();
        auto b = once(*next); if (auto d = diff<T>(a, b); !d.empty()) pbt::fail("the repeated run differs: ", d);
    }
    obs = nullptr;
}
PBT_PROP(words, 3000, 120000) { own<Word>(c); }
PBT_PROP(variants, 3000, 120000) { own<Mix>(c); }
PBT_PROP(bounded_enums, 3000, 120000) { own<Level>(c); }
PBT_PROP(floats, 3000, 120000) { own<float>(c); }
PBT_PROP(bits, 3000, 120000) { own<BinaryGene>(c); }
