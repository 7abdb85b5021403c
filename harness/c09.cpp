#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case is one population's fitness values with one operator and its parameters; it is non-trivial if at least two different fitness values occur.");
PBT_ASSUME("Frequencies are tested with Chernoff bounds at a false-alarm probability below 1e-12 per comparison; a deviation smaller than the bound (a few percent for the large samples) is not noticed.");

using Weights = std::vector<double>;
struct Sel { int kind; size_t k = 1; double a = 0, b = 0; int temp = 0; std::string name; };
static double temp_value(int t, size_t gen, size_t max_gen)
{
    switch (t)
    {
        case 0: return -4.0 / (1.0 + std::exp(-10.0 * (double(gen) / double(max_gen)) + 3.0)) + 4.2; // default: from about 4 down to 0.2
        case 1: return 1.0;
        case 2: return 0.25;
        default: return 10.0 / double(gen + 1);
    }
}
static std::unique_ptr<selection::Selection> make(const Sel& s)
{
    switch (s.kind)
    {
        case 0: return std::make_unique<selection::Roulette>();
        case 1: return std::make_unique<selection::Tournament>(s.k);
        case 2: return std::make_unique<selection::Rank>(s.a, s.b);
        case 3: return std::make_unique<selection::Sigma>(s.a);
        default: { if (s.temp == 0) return std::make_unique<selection::Boltzmann>(); const int t = s.temp; return std::make_unique<selection::Boltzmann>([t](size_t g, size_t m) { return temp_value(t, g, m); }); }
    }
}
static Sel gen_sel(pbt::Case& c)
{
    Sel s; s.kind = c.raw(5);
    static const char* names[] = { "Roulette", "Tournament", "Rank", "Sigma", "Boltzmann" };
    s.name = names[s.kind];
    switch (s.kind)
    {
        case 1: s.k = c.pick({ 1, 2, 2, 3, 5, 10 }); c.show("k", s.k); break;
        case 2: s.a = c.pick({ 0.0, 0.1, 1.0, 2.0 }); s.b = s.a + c.pick({ 1.0, 0.1, 3.0, 0.0 }); if (s.b == 0) s.b = 1; c.show("min", s.a).show("max", s.b); break;
        case 3: s.a = c.pick({ 3.0, 1.0, 0.5, 2.0, 10.0 }); c.show("scale", s.a); break;
        case 4: s.temp = c.raw(4); c.show("temp", s.temp); break;
        default: break;
    }
    c.os << s.name << ' '; c.label(s.name);
    return s;
}
// Expected selection probability of each class of equal fitness values.
static std::map<double, double> expected(const Sel& s, const std::vector<double>& f, size_t gen, size_t max_gen)
{
    const size_t n = f.size();
    std::vector<long double> w(n);
    auto sorted = f; std::sort(sorted.begin(), sorted.end());
    std::map<double, double> r;
    if (s.kind == 1)
    {
        std::map<double, size_t> cnt; for (double x : f) cnt[x]++;
        size_t below = 0; double prev = 0;
        for (auto& [x, k] : cnt) { below += k; const double p = std::pow(double(below) / n, double(s.k)); r[x] = p - prev; prev = p; }
        return r;
    }
    if (s.kind == 2)
    {
        double sum = 0;
        for (size_t i = 0; i < n; i++) { const double t = n > 1 ? double(i) / double(n - 1) : 0; const double v = s.a + (s.b - s.a) * t; r[sorted[i]] += v; sum += v; }
        for (auto& [x, p] : r) p = sum > 0 ? p / sum : double(std::count(f.begin(), f.end(), x)) / n;
        return r;
    }
    long double sum = 0, mean = 0, var = 0;
    for (double x : f) mean += x; mean /= n;
    for (double x : f) var += (x - mean) * (x - mean); var /= n;
    const long double sd = n == 1 ? 0 : std::sqrt(var);
    const double lo = sorted.front(), hi = sorted.back();
    for (size_t i = 0; i < n; i++)
    {
        if (s.kind == 0) w[i] = lo >= 0 ? f[i] : (f[i] - 2.0L * lo) / 3;
        else if (s.kind == 3) w[i] = sd == 0 ? 1 : std::max(0.0L, 1 + (f[i] - mean) / (s.a * sd));
        else w[i] = hi == lo ? 1 : std::exp(((long double)f[i] - lo) / ((long double)hi - lo) / temp_value(s.temp, gen, max_gen));
        sum += w[i];
    }
    for (size_t i = 0; i < n; i++) r[f[i]] += double(sum > 0 ? w[i] / sum : 1.0L / n);
    return r;
}
static void check_counts(const Sel& s, const std::vector<double>& f, const std::vector<size_t>& cnt, size_t N, const std::map<double, double>& exp)
{
    std::map<double, size_t> cls, mult; for (size_t i = 0; i < f.size(); i++) { cls[f[i]] += cnt[i]; mult[f[i]]++; }
    double cum = 0; size_t ccum = 0;
    for (auto& [x, p] : exp)
    {
        PBT_CHECK(pbt::plausible_count(double(cls[x]), double(N), p), s.name, ": candidates with fitness ", x, " selected ", cls[x], " times in ", N, " instead of ", p * N);
        cum += p; ccum += cls[x];
        PBT_CHECK(pbt::plausible_count(double(ccum), double(N), cum), s.name, ": candidates with fitness up to ", x, " selected ", ccum, " times in ", N, " instead of ", cum * N);
    }
    if (s.kind != 2) // equal fitness, equal probability (ranks of equal candidates are arbitrary)
        for (size_t i = 0; i < f.size(); i++) PBT_CHECK(pbt::plausible_count(double(cnt[i]), double(N), exp.at(f[i]) / mult[f[i]]), s.name, ": candidate ", i, " selected ", cnt[i], " times in ", N, " instead of ", exp.at(f[i]) / mult[f[i]] * N);
}
static std::vector<double> gen_fitness(pbt::Case& c, size_t maxn)
{
    const size_t n = c.size(1, maxn);
    std::vector<double> f;
    const int kind = c.raw(6);
    for (size_t i = 0; i < n; i++)
    {
        if (i && c.chance(1, 5)) { f.push_back(f[c.raw(i)]); continue; }
        switch (kind)
        {
            case 0: f.push_back(double(c.range(0, 5))); break;
            case 1: f.push_back(double(c.range(-5, 5))); break;
            case 2: f.push_back(c.real(0, 100)); break;
            case 3: f.push_back(c.real(-1e-3, 1e-3)); break;
            case 4: f.push_back(-c.real(1e5, 1e6)); break;
            default: f.push_back(c.pick({ 0.0, 1.0, 10.0, 1000.0, -1.0 })); break;
        }
    }
    if (c.chance(1, 4)) { const double k = std::pow(10.0, double(c.range<int>(-14, 14))); for (double& x : f) x *= k; } // the weights do not depend on the unit of the fitness
    c.showv("f", f);
    return f;
}
static FitnessMatrix mat(const std::vector<double>& f) { FitnessMatrix m; for (double x : f) m.append_row(FitnessVector{ x }); return m; }

static void distribution(pbt::Case& c, size_t maxn, size_t N)
{
    auto s = gen_sel(c);
    auto f = gen_fitness(c, maxn);
    rng::prng.seed(c.raw(1u << 30));
    BinaryGA ga(f.size()); ga.max_gen(c.range<size_t>(1, 50));
    auto sel = make(s);
    if (c.chance(1, 3)) // used for another population before
    {
        auto g = gen_fitness(c, maxn); auto m = mat(g); BinaryGA other(g.size());
        sel->initializeImpl(other); sel->prepareSelectionsImpl(other, m); sel->selectImpl(other, m);
    }
    auto m = mat(f);
    sel->initializeImpl(ga);
    sel->prepareSelectionsImpl(ga, m);
    std::vector<size_t> cnt(f.size());
    for (size_t i = 0; i < N; i++) { const size_t k = sel->selectImpl(ga, m); PBT_CHECK(k < f.size(), s.name, " selected index ", k, " of ", f.size()); cnt[k]++; }
    check_counts(s, f, cnt, N, expected(s, f, 0, ga.max_gen()));
    c.nontrivial(std::any_of(f.begin(), f.end(), [&](double x) { return x != f[0]; }));
}
PBT_PROP(distribution, 4000, 150000) { distribution(c, 40, 4000); }
PBT_PROP(distribution_small, 600, 20000) { distribution(c, 5, 100000); }
PBT_PROP(distribution_fine, 60, 2000) { distribution(c, 8, 2000000); }

// The same in later generations of a real run: the temperature follows the generation.
struct Flat final : FitnessFunctionBase<BinaryGene> { using FitnessFunctionBase::FitnessFunctionBase; FitnessVector invoke(const Chromosome<BinaryGene>&) const override { return { 0.0 }; } };
PBT_PROP(during_run, 600, 20000)
{
    auto s = gen_sel(c);
    const size_t pop = c.size(2, 12), gens = c.chance(1, 4) ? c.range<size_t>(30, 400) : c.range<size_t>(2, 30), at = c.range<size_t>(0, gens - 1);
    std::vector<double> f; for (size_t i = 0; i < pop; i++) f.push_back(double(c.range(-4, 8)));
    c.show("gens", gens).show("at", at).showv("f", f);
    threads(1);
    rng::prng.seed(c.raw(1u << 30));
    auto sel = make(s);
    BinaryGA ga(pop);
    auto m = mat(f);
    std::vector<size_t> cnt(pop); const size_t N = 4000; bool done = false;
    ga.on_generation_end([&](const GaInfo& info)
    {
        if (info.generation_cntr() != at) return;
        sel->initializeImpl(info);
        sel->prepareSelectionsImpl(info, m);
        for (size_t i = 0; i < N; i++) cnt.at(sel->selectImpl(info, m))++;
        done = true;
    });
    ga.solve(std::make_unique<Flat>(4), gens);
    PBT_CHECK(done, "generation ", at, " was not reached");
    check_counts(s, f, cnt, N, expected(s, f, at, gens));
    c.nontrivial(std::any_of(f.begin(), f.end(), [&](double x) { return x != f[0]; }));
}
// Any supported values: a better candidate is never less likely to be selected, and the index is valid.
PBT_PROP(extreme_values, 6000, 200000)
{
    auto s = gen_sel(c);
    const bool inf_ok = s.kind == 1 || s.kind == 2;
    const size_t n = c.size(1, 12), N = 2000;
    std::vector<double> f;
    for (size_t i = 0; i < n; i++)
    {
        if (i && c.chance(1, 4)) { f.push_back(f[c.raw(i)]); continue; }
        double x = c.pick({ 0.0, 1.0, -1.0, math::small<double>, -math::small<double>, math::large<double>, -math::large<double>, 1e-300, 1e300, -1e300, 1e-12 });
        if (inf_ok && c.chance(1, 4)) x = c.flip() ? math::inf<double> : -math::inf<double>;
        f.push_back(x);
    }
    c.showv("f", f);
    rng::prng.seed(c.raw(1u << 30));
    BinaryGA ga(n);
    auto sel = make(s); auto m = mat(f);
    sel->initializeImpl(ga);
    sel->prepareSelectionsImpl(ga, m);
    std::vector<size_t> cnt(n);
    for (size_t i = 0; i < N; i++) { const size_t k = sel->selectImpl(ga, m); PBT_CHECK(k < n, s.name, " selected index ", k, " of ", n); cnt[k]++; }
    std::map<double, std::pair<size_t, size_t>> cls; for (size_t i = 0; i < n; i++) { cls[f[i]].first += cnt[i]; cls[f[i]].second++; }
    // per-candidate frequencies must not decrease with fitness
    for (auto a = cls.begin(); a != cls.end(); ++a) for (auto b = std::next(a); b != cls.end(); ++b)
    {
        const double pa = double(a->second.first) / a->second.second / N, pb = double(b->second.first) / b->second.second / N;
        const double slack = std::sqrt(2 * 30.0 * (pa + pb) / N) + 30.0 * 2 / N;
        PBT_CHECK(pb >= pa - slack, s.name, ": candidates with fitness ", a->first, " are selected with frequency ", pa, " each, those with ", b->first, " with ", pb);
    }
    if (inf_ok) check_counts(s, f, cnt, N, expected(s, f, 0, ga.max_gen()));
    c.nontrivial(cls.size() > 1);
}
// Selections made by a run: the algorithm hands the candidate of the selected index to the crossover.
PBT_PROP(parents_of_run, 3000, 100000)
{
    const size_t pop = c.size(1, 16), gens = c.range<size_t>(2, 5);
    const size_t best_of = c.range<size_t>(1, 3);
    threads(1); rng::prng.seed(c.raw(1u << 30));
    c.show("pop", pop).show("gens", gens);
    std::vector<size_t> picks;
    const Population<BinaryGene>* cur = nullptr; std::string bad;
    BinaryGA ga(pop);
    ga.algorithm(std::make_unique<algorithm::SingleObjective>(std::make_unique<selection::Lambda>([&](const GaInfo&, const FitnessMatrix& m) { size_t b = rng::randomIndex(m); for (size_t i = 1; i < best_of; i++) b = std::max(b, size_t(rng::randomIndex(m))); picks.push_back(b); return b; }), std::make_unique<replacement::KeepChildren>()));
    ga.crossover_method([&](const GA<BinaryGene>& g, const Candidate<BinaryGene>& a, const Candidate<BinaryGene>& b)
    {
        cur = &g.population();
        if (picks.size() < 2 || picks.size() % 2) bad = "crossover without two selections";
        else
        {
            const auto &x = (*cur)[picks[picks.size() - 2]], &y = (*cur)[picks.back()]; // the order of evaluation of the two arguments is unspecified
            if (!(a.chromosome == x.chromosome && b.chromosome == y.chromosome) && !(a.chromosome == y.chromosome && b.chromosome == x.chromosome)) bad = "the parents of a crossover are not the selected candidates";
        }
        return CandidatePair<BinaryGene>{ a, b };
    });
    ga.crossover_rate(1.0);
    ga.solve(std::make_unique<Flat>(16), gens);
    PBT_CHECK(bad.empty(), bad);
    const size_t pairs = (pop + 1) / 2 * (gens - 1);
    PBT_CHECK(picks.size() == 2 * pairs, "selected ", picks.size(), " parents for ", pairs, " crossovers");
    c.nontrivial(pop >= 2);
}
