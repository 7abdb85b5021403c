#include "nsga.hpp"
using namespace gapp; using namespace nsga;
PBT_RULE("A case is one run of NSGA-III on generated fitness vectors; it is non-trivial if in some generation a front had to be split and the niches of its members were unambiguous.");
PBT_ASSUME("Fitness values are finite and equal or differ by more than the floating-point tolerances, or the tolerances are zero. The niches are only checked if the closest reference line of each candidate and the extreme points are unambiguous (no ties up to a relative difference of 1e-9).");
PBT_ASSUME("The objectives are normalised as in the paper of the algorithm: by the ideal point and by the nadir point of the extreme points (minimisers of the achievement scalarizing function with weights 1e-6) found so far.");
PBT_ASSUME("Selection frequencies are tested with Chernoff bounds at a false-alarm probability below 1e-12 per comparison.");

struct Model
{
    Rows lines, extreme; Row ideal; bool tainted = false;
    struct Info { size_t niche; double dist; bool unique; };
    void update(const Rows& rows)
    {
        if (ideal.empty()) ideal = rows[0];
        const size_t m = ideal.size();
        for (auto& r : rows) for (size_t k = 0; k < m; k++) ideal[k] = std::max(ideal[k], r[k]);
        Rows all = rows; all.insert(all.end(), extreme.begin(), extreme.end());
        Rows next;
        for (size_t ax = 0; ax < m; ax++)
        {
            std::vector<double> v;
            for (auto& r : all) { double d = -math::inf<double>; for (size_t k = 0; k < m; k++) d = std::max(d, (ideal[k] - r[k]) / (k == ax ? 1.0 : 1e-6)); v.push_back(d); }
            const size_t best = std::min_element(v.begin(), v.end()) - v.begin();
            for (size_t i = 0; i < all.size(); i++) if (all[i] != all[best] && v[i] <= v[best] * (1 + 1e-9) + 1e-12) tainted = true;
            next.push_back(all[best]);
        }
        extreme = next;
    }
    Info info(const Row& r) const
    {
        const size_t m = ideal.size();
        Row nadir = extreme[0]; for (auto& e : extreme) for (size_t k = 0; k < m; k++) nadir[k] = std::min(nadir[k], e[k]);
        Row f(m); for (size_t k = 0; k < m; k++) f[k] = (ideal[k] - r[k]) / std::max(ideal[k] - nadir[k], 1e-8);
        std::vector<double> dot; for (auto& l : lines) { double d = 0; for (size_t k = 0; k < m; k++) d += l[k] * f[k]; dot.push_back(d); }
        Info x; x.niche = std::max_element(dot.begin(), dot.end()) - dot.begin(); x.unique = true;
        for (size_t i = 0; i < dot.size(); i++) if (i != x.niche && dot[i] >= dot[x.niche] * (1 - 1e-9) - 1e-12) x.unique = false;
        x.dist = 0; for (size_t k = 0; k < m; k++) { const double y = f[k] - dot[x.niche] * lines[x.niche][k]; x.dist += y * y; }
        return x;
    }
};
static FitnessMatrix custom_lines(pbt::Case& c, size_t dim)
{
    FitnessMatrix m; const size_t n = c.range<size_t>(1, 12);
    for (size_t i = 0; i < n; i++) { FitnessVector v(dim); for (auto& x : v) x = c.chance(1, 5) ? 0.0 : c.unit(); v[c.raw(dim)] += 0.01; m.append_row(v); }
    return m;
}
static void run(pbt::Case& c, size_t max_pop, const std::function<fm::Gen(size_t)>& gen, size_t N)
{
    const size_t pop = c.size(1, max_pop), gens = c.range<size_t>(2, 4);
    auto g = gen(pop * gens + 2 * gens + 4);
    fm::Tol tol(g.exact);
    fm::threads(c.chance(1, 5) ? c.range<size_t>(2, 4) : 1);
    rng::prng.seed(c.raw(1u << 30));
    c.show("pop", pop).show("gens", gens);
    // The reference lines.
    std::function<FitnessMatrix(size_t, size_t)> lg; FitnessMatrix lm;
    size_t calls = 0, dim_asked = 0, n_asked = 0;
    const int lk = c.raw(7); c.show("lines", lk);
    switch (lk)
    {
        case 0: lm = algorithm::reflines::quasirandomSimplexPointsMirror(g.m, pop); break;
        case 1: lm = algorithm::reflines::quasirandomSimplexPointsSort(g.m, pop); break;
        case 2: lm = algorithm::reflines::quasirandomSimplexPointsRoot(g.m, pop); break;
        case 3: lm = algorithm::reflines::quasirandomSimplexPointsLog(g.m, pop); break;
        default: lm = custom_lines(c, g.m);
    }
    Model m;
    for (size_t i = 0; i < lm.size(); i++) { Row r(lm[i].begin(), lm[i].end()); double s = 0; for (double x : r) s += x * x; for (double& x : r) x /= std::sqrt(s); m.lines.push_back(r); }
    algorithm::NSGA3 alg = lk == 0 && c.flip() ? (calls = 1, dim_asked = g.m, n_asked = pop, algorithm::NSGA3{}) : algorithm::NSGA3([&](size_t d, size_t n) { calls++; dim_asked = d; n_asked = n; return lm; });
    if (c.chance(1, 4)) { algorithm::NSGA3 copy(alg); alg = copy; } // copies and moves are equivalent
    if (c.chance(1, 4)) { algorithm::NSGA3 other(std::move(alg)); alg = std::move(other); }
    bool split = false; size_t checked = 0;
    drive(std::move(alg), g.rows, pop, gens, [&](const View& v)
    {
        PBT_CHECK(calls >= 1 && dim_asked == g.m && n_asked == pop, "the reference lines were generated ", calls, " times, for dimension ", dim_asked, " and ", n_asked, " points");
        m.update(sub(g.rows, v.gen ? v.considered : v.ids));
        std::map<size_t, Model::Info> inf;
        if (v.gen)
        {
            auto r = check_fronts(v, g.rows);
            std::set<size_t> kept(v.ids.begin(), v.ids.end());
            size_t worst = 0; for (size_t id : v.ids) worst = std::max(worst, r[id]);
            bool clear = !m.tainted; for (auto& [id, k] : r) if (k <= worst) { inf[id] = m.info(g.rows[id]); clear = clear && inf[id].unique; }
            struct Niche { size_t n = 0, s = 0, c = 0; double kept = -1, lost = math::inf<double>; };
            std::map<size_t, Niche> niches; bool any = false;
            for (auto& [id, k] : r)
            {
                if (k > worst) continue;
                auto& x = niches[inf[id].niche];
                if (k < worst) { x.n++; continue; }
                x.c++;
                if (kept.count(id)) { x.s++; x.kept = std::max(x.kept, inf[id].dist); } else { any = true; x.lost = std::min(x.lost, inf[id].dist); }
            }
            if (clear && any)
            {
                split = true;
                for (auto& [a, x] : niches) for (auto& [b, y] : niches)
                    if (a != b && x.s < x.c && y.s > 0)
                        PBT_CHECK(y.n + y.s - 1 <= x.n + x.s, "generation ", v.gen, ": a candidate of the last front was kept in niche ", b, ", which has ", y.n + y.s, " members now, but the candidates left in niche ", a, " with ", x.n + x.s, " members were discarded");
                for (auto& [a, x] : niches) PBT_CHECK(x.kept <= x.lost * (1 + 1e-6) + 1e-9, "generation ", v.gen, ": in niche ", a, " a candidate at distance ", x.kept, " was kept and one at distance ", x.lost, " discarded");
            }
            c.label(m.tainted ? "extreme points ambiguous" : !clear ? "niches ambiguous" : any ? "split" : "no split");
        }
        else for (size_t id : v.ids) inf[id] = m.info(g.rows[id]);
        check_optimal(v, g.rows);
        bool clear = !m.tainted; for (size_t id : v.ids) clear = clear && inf[id].unique;
        if (!clear) return;
        auto rk = fm::ranks(sub(g.rows, v.ids));
        std::vector<std::pair<double, double>> p(pop);
        for (size_t i = 0; i < pop; i++) for (size_t j = 0; j < pop; j++)
        {
            const auto &a = inf[v.ids[i]], &b = inf[v.ids[j]];
            double lo, hi;
            if (i == j || a.niche != b.niche) lo = hi = 1;
            else if (rk[i] != rk[j]) lo = hi = rk[i] < rk[j] ? 2 : 0;
            else if (std::abs(a.dist - b.dist) <= 1e-6 * (a.dist + b.dist) + 1e-9) lo = 0, hi = 2;
            else lo = hi = a.dist < b.dist ? 2 : 0;
            p[i].first += lo / double(pop * pop); p[i].second += hi / double(pop * pop);
        }
        check_freq(v, p, N, "NSGA3 parents:");
    });
    c.nontrivial(split);
}
static fm::Gen continuous(pbt::Case& c, size_t n)
{
    fm::Gen g; g.n = n; g.m = c.range<size_t>(2, 5);
    const int kind = c.raw(4); const double scale = c.pick({ 1.0, 1.0, 1e-3, 1e6 }), shift = c.pick({ 0.0, 0.0, -3.0, 10.0 }); g.exact = kind > 0 || shift != 0 || c.flip();
    for (size_t i = 0; i < n; i++)
    {
        Row r(g.m); double s = 0;
        for (auto& x : r) { x = double(c.raw(1u << 24) + 1) / (1u << 24); s += x; }
        if (kind == 1) for (auto& x : r) x /= s; // one front
        if (kind == 2) for (size_t k = 0; k < g.m; k++) r[k] = r[k] / s + 0.02 * c.unit() - double(k);
        if (kind == 3) for (size_t k = 0; k < g.m; k++) r[k] = (r[k] / s + 0.05 * c.raw(3)) * std::pow(10.0, double(k)); // objectives of different scale, a few fronts
        for (auto& x : r) x = (x + shift) * scale;
        g.rows.push_back(r);
    }
    c.os << "continuous rows=" << n << " obj=" << g.m << ' ';
    return g;
}
PBT_PROP(continuous_values, 8000, 400000) { run(c, 24, [&](size_t n) { return continuous(c, n); }, 1000); }
PBT_PROP(small, 8000, 400000) { run(c, 6, [&](size_t n) { return continuous(c, n); }, 2000); }
PBT_PROP(tied_values, 3000, 150000) { run(c, 24, [&](size_t n) { return fm::gen(c, n, n, 2, 5, false); }, 500); }
PBT_PROP(large, 60, 3000) { run(c, 150, [&](size_t n) { return continuous(c, n); }, 3000); }
