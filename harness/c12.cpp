#include "nsga.hpp"
using namespace gapp; using namespace nsga;
PBT_RULE("A case is one run of NSGA-II on generated fitness vectors; it is non-trivial if in some generation a front had to be split.");
PBT_ASSUME("Fitness values are finite and equal or differ by more than the floating-point tolerances, or the tolerances are zero. Crowding distances of candidates with equal objective values depend on how equal values are ordered; they are only claimed to lie between the smallest and largest value that any order gives.");
PBT_ASSUME("Selection frequencies are tested with Chernoff bounds at a false-alarm probability below 1e-12 per comparison.");

struct Iv { double lo, hi; };
// The crowding distances in one front.
static std::map<size_t, Iv> crowding(const Rows& rows, const std::vector<size_t>& front)
{
    std::map<size_t, Iv> d; for (size_t i : front) d[i] = { 0, 0 };
    const double inf = math::inf<double>;
    for (size_t k = 0; k < rows[front[0]].size(); k++)
    {
        std::map<double, size_t> groups; for (size_t i : front) groups[rows[i][k]]++;
        const double range = std::max(groups.rbegin()->first - groups.begin()->first, 1e-8);
        for (size_t i : front)
        {
            auto it = groups.find(rows[i][k]);
            const bool first = it == groups.begin(), last = std::next(it) == groups.end();
            const double below = first ? inf : (it->first - std::prev(it)->first) / range, above = last ? inf : (std::next(it)->first - it->first) / range;
            double lo, hi;
            if (it->second == 1) lo = hi = below + above;
            else { lo = it->second >= 3 ? 0 : std::min(below, above); hi = std::max(below, above); }
            d[i].lo += lo; d[i].hi += hi;
        }
    }
    for (auto& [i, x] : d) { x.lo *= 1 - 1e-9; x.hi *= 1 + 1e-9; }
    return d;
}
static void run(pbt::Case& c, size_t max_pop, const std::function<fm::Gen(size_t)>& gen, size_t N)
{
    const size_t pop = c.size(1, max_pop), gens = c.range<size_t>(2, 4);
    auto g = gen(pop * gens + 2 * gens + 4);
    fm::Tol tol(g.exact);
    fm::threads(c.chance(1, 5) ? c.range<size_t>(2, 4) : 1);
    rng::prng.seed(c.raw(1u << 30));
    c.show("pop", pop).show("gens", gens);
    bool split = false;
    drive(algorithm::NSGA2{}, g.rows, pop, gens, [&](const View& v)
    {
        if (v.gen)
        {
            auto r = check_fronts(v, g.rows);
            std::set<size_t> kept(v.ids.begin(), v.ids.end());
            size_t worst = 0; for (size_t id : v.ids) worst = std::max(worst, r[id]);
            std::vector<size_t> last; for (auto& [id, k] : r) if (k == worst) last.push_back(id);
            auto d = crowding(g.rows, last);
            for (size_t a : last) for (size_t b : last) if (!kept.count(a) && kept.count(b)) { split = true; PBT_CHECK(!(d[a].lo > d[b].hi), "generation ", v.gen, ": candidate ", a, " with crowding distance ", d[a].lo, " was discarded but candidate ", b, " with ", d[b].hi, " in the same front was kept"); }
        }
        check_optimal(v, g.rows);
        auto rk = fm::ranks(sub(g.rows, v.ids));
        std::map<size_t, std::vector<size_t>> fronts; for (size_t i = 0; i < pop; i++) fronts[rk[i]].push_back(v.ids[i]);
        std::map<size_t, Iv> d; for (auto& [k, f] : fronts) for (auto& [id, x] : crowding(g.rows, f)) d[id] = x;
        std::vector<std::pair<double, double>> p(pop);
        for (size_t i = 0; i < pop; i++) for (size_t j = 0; j < pop; j++)
        {
            const auto &a = d[v.ids[i]], &b = d[v.ids[j]];
            double lo, hi; // wins of i in the two orders (i, j) and (j, i)
            if (i == j) lo = hi = 1;
            else if (rk[i] != rk[j]) lo = hi = rk[i] < rk[j] ? 2 : 0;
            else if (a.lo > b.hi) lo = hi = 2;
            else if (a.hi < b.lo) lo = hi = 0;
            else if (a.lo == math::inf<double> && b.lo == math::inf<double>) lo = hi = 1;
            else lo = 0, hi = 2;
            p[i].first += lo / double(pop * pop); p[i].second += hi / double(pop * pop);
        }
        check_freq(v, p, N, "NSGA2 parents:");
    });
    c.nontrivial(split);
}
static fm::Gen continuous(pbt::Case& c, size_t n)
{
    fm::Gen g; g.n = n; g.m = c.range<size_t>(2, 5);
    const int kind = c.raw(3); g.exact = kind > 0 || c.flip();
    for (size_t i = 0; i < n; i++)
    {
        Row r(g.m); double s = 0;
        for (auto& x : r) { x = double(c.raw(1u << 24) + 1) / (1u << 24); s += x; }
        if (kind == 1) for (auto& x : r) x /= s; // one front
        if (kind == 2) for (size_t k = 0; k < g.m; k++) r[k] = r[k] / s + 0.02 * c.unit() - double(k);
        g.rows.push_back(r);
    }
    if (g.exact && c.flip()) // objectives of very different magnitudes
    {
        Row scale(g.m); for (auto& x : scale) x = std::pow(10.0, double(c.range<int>(-5, 6)));
        for (auto& r : g.rows) for (size_t k = 0; k < g.m; k++) r[k] *= scale[k];
        c.show("scale", pbt::str(scale));
    }
    else if (g.exact && c.chance(1, 2)) // far from the origin (on a grid, so that differences stay exact)
    {
        Row off(g.m); for (auto& x : off) x = double(c.range<int>(-1, 1)) * std::ldexp(1.0, c.range<int>(0, 28));
        for (auto& r : g.rows) for (size_t k = 0; k < g.m; k++) r[k] = std::ldexp(std::round(std::ldexp(r[k], 24)), -24) + off[k];
        c.show("offset", pbt::str(off));
    }
    c.os << "continuous rows=" << n << " obj=" << g.m << ' ';
    return g;
}
PBT_PROP(continuous_values, 6000, 300000) { run(c, 24, [&](size_t n) { return continuous(c, n); }, 2000); }
PBT_PROP(tied_values, 6000, 300000) { run(c, 24, [&](size_t n) { return fm::gen(c, n, n, 2, 5, false); }, 1000); }
PBT_PROP(small, 6000, 300000) { run(c, 5, [&](size_t n) { return c.flip() ? fm::gen(c, n, n, 2, 3, false) : continuous(c, n); }, 4000); }
PBT_PROP(large, 60, 3000) { run(c, 150, [&](size_t n) { return continuous(c, n); }, 4000); }
