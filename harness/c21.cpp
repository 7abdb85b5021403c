#include "pbt.hpp"
#include "runs.hpp"
#include <cmath>
using namespace gapp; using namespace runs;
PBT_RULE("A case is one or more runs of one object with a generated set of tracked metrics; it is non-trivial if at least three metrics were tracked and some run had at least three generations.");
PBT_ASSUME("Fitness values are finite and, for the exact statistics of Pareto fronts, are compared with zero tolerances or differ by more than the tolerances.");
PBT_ASSUME("The reference point of the Hypervolume metric is not better than any fitness value, as its documentation requires.");

PBT_ASSUME("With several execution threads a hypervolume metric may shift which thread does which later work, so there only the other metrics are required to leave a seeded run unchanged.");
using Row = std::vector<double>; using Rows2 = std::vector<Row>;
// Volume dominated by the points above the reference point: slicing along the last objective.
static double volume(Rows2 pts, const Row& ref, size_t dims)
{
    if (pts.empty()) return 0;
    if (dims == 1) { double b = ref[0]; for (auto& p : pts) b = std::max(b, p[0]); return b - ref[0]; }
    std::sort(pts.begin(), pts.end(), [&](auto& a, auto& b) { return a[dims - 1] > b[dims - 1]; });
    double v = 0; Rows2 above;
    for (size_t i = 0; i < pts.size(); i++)
    {
        above.push_back(pts[i]);
        const double lo = i + 1 < pts.size() ? std::max(pts[i + 1][dims - 1], ref[dims - 1]) : ref[dims - 1];
        if (pts[i][dims - 1] > lo) v += (pts[i][dims - 1] - lo) * volume(above, ref, dims - 1);
    }
    return v;
}
struct Stats { Row min, max, mean, var, nadir; };
static Stats stats(const Rows2& f)
{
    const size_t m = f[0].size(), n = f.size(); Stats s{ f[0], f[0], Row(m), Row(m), Row(m, math::inf<double>) };
    for (size_t j = 0; j < m; j++)
    {
        long double sum = 0, sq = 0;
        for (auto& r : f) { s.min[j] = std::min(s.min[j], r[j]); s.max[j] = std::max(s.max[j], r[j]); sum += r[j]; }
        const long double mean = sum / n;
        for (auto& r : f) sq += (r[j] - mean) * (r[j] - mean);
        s.mean[j] = double(mean); s.var[j] = n > 1 ? double(sq / (n - 1)) : 0.0;
    }
    for (auto& a : f)
    {
        bool dom = false;
        for (auto& b : f) { bool ge = true, gt = false; for (size_t j = 0; j < m; j++) { ge &= b[j] >= a[j]; gt |= b[j] > a[j]; } dom |= ge && gt; }
        if (!dom) for (size_t j = 0; j < m; j++) s.nadir[j] = std::min(s.nadir[j], a[j]);
    }
    return s;
}
static bool close(double a, double b, double scale, double eps = 1e-9) { return std::abs(a - b) <= eps * (std::abs(a) + std::abs(b) + scale); }

enum M { MMin, MMax, MMean, MVar, MSd, MNadir, MEvals, MHv, MAuto, MUser, MCount };
// A user defined metric: every call of initialize and update is counted.
struct UserMetric final : metrics::Monitor<UserMetric, std::vector<size_t>>
{
    void initialize(const GaInfo& ga) override { data_.clear(); inits++; gen_at_init = ga.generation_cntr(); }
    void update(const GaInfo& ga) override { data_.push_back(ga.generation_cntr()); }
    size_t inits = 0, gen_at_init = 99;
};
// One that leaves its initialization to the base class.
struct PlainMetric final : metrics::Monitor<PlainMetric, std::vector<double>> { void update(const GaInfo& ga) override { data_.push_back(ga.fitness_matrix()[0][0]); } };
template<typename Ga> void track(Ga& ga, unsigned set, const FitnessVector& ref)
{
    using namespace metrics;
    switch (set)
    {
        case 0: ga.track(); break;
        case 1: ga.track(FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessVariance{}, FitnessStdDev{}, NadirPoint{}, FitnessEvaluations{}, Hypervolume{ ref }, AutoHypervolume{}, UserMetric{}, PlainMetric{}); break;
        case 2: ga.track(UserMetric{}, PlainMetric{}, AutoHypervolume{}, NadirPoint{}, FitnessMin{}, FitnessEvaluations{}); break;
        case 3: ga.track(FitnessStdDev{}, Hypervolume{ ref }, FitnessMean{}); break;
        case 4: ga.track(FitnessVariance{}); break;
        case 5: ga.track(AutoHypervolume{}, FitnessEvaluations{}, FitnessMax{}, FitnessMean{}); break;
        case 6: ga.track(Hypervolume{ ref }, FitnessMin{}, FitnessVariance{}, NadirPoint{}, FitnessStdDev{}, UserMetric{}, PlainMetric{}); break;
        default: ga.track(FitnessMax{}, NadirPoint{}, FitnessStdDev{}, FitnessMean{}, FitnessMin{}, AutoHypervolume{}); break;
    }
}
static const std::vector<int> tracked[] = { {}, { MMin, MMax, MMean, MVar, MSd, MNadir, MEvals, MHv, MAuto, MUser }, { MUser, MAuto, MNadir, MMin, MEvals }, { MSd, MHv, MMean }, { MVar }, { MAuto, MEvals, MMax, MMean }, { MHv, MMin, MVar, MNadir, MSd, MUser }, { MMax, MNadir, MSd, MMean, MMin, MAuto } };

template<typename Metric> static void rows_metric(const GaInfo& ga, const char* name, bool want, const std::vector<Rows2>& gens, const std::vector<Stats>& st, auto&& field, double eps, auto&& scale)
{
    const Metric* m = ga.get_metric_if<Metric>();
    PBT_CHECK(bool(m) == want, name, want ? " is missing" : " is reported although it was not tracked");
    if (!m) return;
    PBT_CHECK(&ga.get_metric<Metric>() == m, name, ": get_metric and get_metric_if differ");
    PBT_CHECK(m->size() == gens.size() && size_t(m->end() - m->begin()) == gens.size() && m->data().size() == gens.size(), name, " has ", m->size(), " entries for ", gens.size(), " generations");
    for (size_t i = 0; i < gens.size(); i++)
    {
        const auto row = (*m)[i]; const Row& w = field(st[i]);
        PBT_CHECK(row.size() == w.size(), name, " has ", row.size(), " values in generation ", i);
        for (size_t j = 0; j < w.size(); j++)
        {
            PBT_CHECK(eps == 0 ? row[j] == w[j] : close(row[j], w[j], scale(i, j), eps), name, " of generation ", i, ", objective ", j, " is ", row[j], " instead of ", w[j]);
            PBT_CHECK(m->data()[i][j] == row[j] && (*(m->begin() + i))[j] == row[j], name, ": data and [] differ");
        }
    }
}
template<typename Metric> static const Metric* scalar_metric(const GaInfo& ga, const char* name, bool want, size_t n)
{
    const Metric* m = ga.get_metric_if<Metric>();
    PBT_CHECK(bool(m) == want, name, want ? " is missing" : " is reported although it was not tracked");
    if (m) PBT_CHECK(m->size() == n && size_t(m->end() - m->begin()) == n && m->data().size() == n, name, " has ", m->size(), " entries for ", n, " generations");
    return m;
}
struct Seen { std::vector<Rows2> fit; std::vector<size_t> calls; };
// The volumes are compared relative to the size of the box that contains everything.
static double box(const Rows2& f, const Row& ref) { double b = 1; for (size_t j = 0; j < ref.size(); j++) { double hi = ref[j]; for (auto& r : f) hi = std::max(hi, r[j]); b *= hi - ref[j]; } return b; }

static void check_metrics(const GaInfo& ga, unsigned set, const Seen& s, const FitnessVector& ref, bool volumes)
{
    using namespace metrics;
    const auto& tr = tracked[set]; auto on = [&](int k) { return std::find(tr.begin(), tr.end(), k) != tr.end(); };
    std::vector<Stats> st; for (auto& f : s.fit) st.push_back(stats(f));
    auto mag = [&](size_t i, size_t j) { return std::max(std::abs(st[i].min[j]), std::abs(st[i].max[j])); };
    rows_metric<FitnessMin>(ga, "FitnessMin", on(MMin), s.fit, st, [](auto& x) -> auto& { return x.min; }, 0, mag);
    rows_metric<FitnessMax>(ga, "FitnessMax", on(MMax), s.fit, st, [](auto& x) -> auto& { return x.max; }, 0, mag);
    rows_metric<FitnessMean>(ga, "FitnessMean", on(MMean), s.fit, st, [](auto& x) -> auto& { return x.mean; }, 1e-12, mag);
    rows_metric<FitnessVariance>(ga, "FitnessVariance", on(MVar), s.fit, st, [](auto& x) -> auto& { return x.var; }, 1e-10, [&](size_t i, size_t j) { return 1e-10 * mag(i, j) * mag(i, j); });
    std::vector<Stats> sd = st; for (auto& x : sd) for (auto& v : x.var) v = std::sqrt(v);
    rows_metric<FitnessStdDev>(ga, "FitnessStdDev", on(MSd), s.fit, sd, [](auto& x) -> auto& { return x.var; }, 1e-10, [&](size_t i, size_t j) { return 1e-4 * mag(i, j); });
    rows_metric<NadirPoint>(ga, "NadirPoint", on(MNadir), s.fit, st, [](auto& x) -> auto& { return x.nadir; }, 0, mag);
    if (auto* m = scalar_metric<FitnessEvaluations>(ga, "FitnessEvaluations", on(MEvals), s.fit.size()))
        for (size_t i = 0; i < s.fit.size(); i++) { const size_t w = s.calls[i] - (i ? s.calls[i - 1] : 0); PBT_CHECK((*m)[i] == w && m->data()[i] == w, "FitnessEvaluations of generation ", i, " is ", (*m)[i], " although ", w, " evaluations were made"); }
    if (auto* m = scalar_metric<UserMetric>(ga, "user metric", on(MUser), s.fit.size()))
    {
        PBT_CHECK(m->gen_at_init == 0, "the user metric was initialized in generation ", m->gen_at_init);
        for (size_t i = 0; i < s.fit.size(); i++) PBT_CHECK((*m)[i] == i, "the user metric was updated for generation ", (*m)[i], " at position ", i);
    }
    if (auto* m = scalar_metric<PlainMetric>(ga, "plain user metric", on(MUser), s.fit.size()))
        for (size_t i = 0; i < s.fit.size(); i++) PBT_CHECK((*m)[i] == s.fit[i][0][0], "the plain user metric has ", (*m)[i], " for generation ", i, " instead of ", s.fit[i][0][0]);
    const size_t nobj = s.fit[0][0].size();
    if (auto* m = scalar_metric<Hypervolume>(ga, "Hypervolume", on(MHv), s.fit.size()))
    {
        PBT_CHECK(m->ref_point() == ref, "the reference point of Hypervolume changed to ", pbt::str(m->ref_point()));
        const Row r(ref.begin(), ref.end());
        if (volumes) for (size_t i = 0; i < s.fit.size(); i++) { const double w = volume(s.fit[i], r, nobj); PBT_CHECK(close((*m)[i], w, box(s.fit[i], r)), "Hypervolume of generation ", i, " is ", (*m)[i], " instead of ", w); }
    }
    if (auto* m = scalar_metric<AutoHypervolume>(ga, "AutoHypervolume", on(MAuto), s.fit.size()))
    {
        Row worst = s.fit[0][0]; for (auto& f : s.fit) for (auto& r : f) for (size_t j = 0; j < nobj; j++) worst[j] = std::min(worst[j], r[j]);
        PBT_CHECK(std::equal(worst.begin(), worst.end(), m->ref_point().begin(), m->ref_point().end()), "the reference point of AutoHypervolume is ", pbt::str(m->ref_point()), " instead of the worst point ", pbt::str(worst));
        if (volumes) for (size_t i = 0; i < s.fit.size(); i++) { const double w = volume(s.fit[i], worst, nobj); PBT_CHECK(close((*m)[i], w, box(s.fit[i], worst)), "AutoHypervolume of generation ", i, " of ", s.fit.size(), " is ", (*m)[i], " instead of ", w, " relative to ", pbt::str(worst)); }
    }
}
static Rows2 to_rows(const FitnessMatrix& m) { Rows2 r; for (const auto& x : m) r.emplace_back(x.begin(), x.end()); return r; }

// The fitness of the generations follows a script: every objective drifts up, down or oscillates.
struct NextGen final : algorithm::Algorithm
{
    size_t selectImpl(const GaInfo& ga, const FitnessMatrix&) const override { return rng::randomInt<size_t>(0, ga.population_size() - 1); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override { small_vector<size_t> v; for (size_t i = f.size() - ga.population_size(); i < f.size(); i++) v.push_back(i); return v; }
};
struct Scripted final : FitnessFunctionBase<RealGene>
{
    std::shared_ptr<Rows2> rows; std::shared_ptr<std::atomic<size_t>> n;
    Scripted(std::shared_ptr<Rows2> r, std::shared_ptr<std::atomic<size_t>> k, bool dyn) : FitnessFunctionBase<RealGene>(2, dyn ? Type::Dynamic : Type::Static), rows(std::move(r)), n(std::move(k)) {}
    FitnessVector invoke(const Chromosome<RealGene>&) const override { const auto& r = (*rows)[(*n)++ % rows->size()]; return FitnessVector(r.begin(), r.end()); }
};
PBT_PROP(scripted, 6000, 250000)
{
    const size_t nthreads = c.chance(1, 4) ? c.range<size_t>(2, 4) : 1; runs::threads(nthreads); c.show("threads", nthreads);
    const size_t pop = c.wide(1, 12, 80), nobj = c.pick({ 1, 2, 3, 3, 4 }); const bool dyn = c.flip();
    const unsigned set = c.raw(8); const size_t nruns = c.pick({ 1, 1, 2, 3 });
    const double unit = c.pick({ 1.0, 1.0, 0.25, 1e6, 1e-3 }), offset = c.pick({ 0.0, 0.0, 100.0, -1000.0 });
    c.show("pop", pop).show("nobj", nobj).show("set", set).show("runs", nruns).show("unit", unit).show("offset", offset).show("dynamic", dyn);
    RCGA ga(pop); ga.algorithm(std::make_unique<NextGen>()); ga.mutation_rate(c.pick({ 0.0, 0.5, 1.0 })); ga.crossover_rate(c.pick({ 0.0, 0.5, 1.0 }));
    std::optional<math::ScopedTolerances> tol; tol.emplace(0.0, 0.0);
    rng::prng.seed(c.raw(1u << 20));
    FitnessVector ref; for (size_t j = 0; j < nobj; j++) ref.push_back(offset - 200 * unit - double(c.raw(3)) * unit);
    track(ga, set, ref);
    size_t longest = 0;
    for (size_t r = 0; r < nruns; r++)
    {
        const size_t gens = c.wide(1, 9, 80);
        auto rows = std::make_shared<Rows2>(); auto n = std::make_shared<std::atomic<size_t>>(0);
        std::vector<int> drift(nobj); for (auto& d : drift) d = int(c.range(-3, 3));
        const int spread = int(c.range(0, 9)); const bool simplex = c.chance(1, 4); // points of a simplex are mutually non-dominated
        for (size_t i = 0; i < 2 * pop * (gens + 1); i++)
        {
            rows->emplace_back(); double sum = 0;
            for (size_t j = 0; j < nobj; j++) { const double v = double(c.range(0, spread)) + double(drift[j]) * double(i / pop); rows->back().push_back(offset + unit * v); sum += v; }
            if (simplex && nobj > 1) rows->back()[nobj - 1] = offset + unit * (20 - sum);
            for (auto& v : rows->back()) v = std::max(v, offset - 200 * unit);
        }
        Seen s; ga.on_generation_end([&](const GaInfo& g) { s.fit.push_back(to_rows(g.fitness_matrix())); s.calls.push_back(g.num_fitness_evals()); });
        ga.solve(std::make_unique<Scripted>(rows, n, dyn), Bounds<RealGene>{ -1.0, 1.0 }, gens);
        PBT_CHECK(s.fit.size() == gens, "generations");
        check_metrics(ga, set, s, ref, true);
        longest = std::max(longest, gens);
    }
    c.nontrivial(tracked[set].size() >= 3 && longest >= 3);
}
// Complete runs: the metrics are right and tracking them doesn't change the run.
template<typename T> static void real_runs(pbt::Case& c)
{
    Limits L; L.max_pop = 14; L.max_gen = 10; L.max_len = 10; L.huge = false; L.dynamic = true; L.evaluated_init = true;
    auto g = gen_config<T>(c, L); g.explicit_operators();
    Tol tol(true);
    unsigned set = 1 + c.raw(7); const size_t reruns = c.chance(1, 4) ? 2 : 1;
    if (reruns == 2 || g.nthreads > 1) set = set == 1 ? 2 : set == 3 ? 4 : set == 6 ? 5 : set; // the reference point is only known to be bad enough for the same run
    c.show("set", set);
    auto plain = g.make(); auto ga = g.make();
    const auto base = run<T>(*plain, g);
    FitnessVector ref; for (size_t j = 0; j < g.nobj; j++) { double lo = 0; for (auto& s : base.gens) for (auto& r : s.fmat) lo = std::min(lo, r[j]); ref.push_back(lo - 1); }
    track(*ga, set, ref);
    for (size_t k = 0; k < reruns; k++)
    {
        const auto t = run<T>(*ga, g);
        const auto d = diff<T>(base, t); const bool spawns = g.nthreads > 1 && (std::find(tracked[set].begin(), tracked[set].end(), MHv) != tracked[set].end() || std::find(tracked[set].begin(), tracked[set].end(), MAuto) != tracked[set].end());
        PBT_CHECK(d.empty() || k || spawns, "tracking metrics changes the run: ", d);
        Seen s; bool finite = true; for (auto& x : t.gens) { s.fit.emplace_back(); for (auto& r : x.fmat) { s.fit.back().emplace_back(r.begin(), r.end()); for (double v : r) finite &= std::isfinite(v) && std::abs(v) < 1e100; } s.calls.push_back(x.evals); }
        if (!finite) return;
        check_metrics(*ga, set, s, ref, g.nobj <= 3 || g.pop <= 8);
        c.nontrivial(tracked[set].size() >= 3 && s.fit.size() >= 3);
    }
    // Tracking another set later drops the old ones.
    if (c.chance(1, 4)) { ga->track(metrics::FitnessMin{}); PBT_CHECK(ga->template get_metric_if<metrics::FitnessMin>() && !ga->template get_metric_if<metrics::AutoHypervolume>(), "metrics after tracking another set"); }
}
PBT_PROP(complete_runs, 3000, 100000) { for_encoding(c, [&]<typename T>() { real_runs<T>(c); }); }
