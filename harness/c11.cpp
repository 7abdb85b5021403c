#include "fmats.hpp"
#include "core/population.hpp"
using namespace gapp;
PBT_RULE("A case is one fitness matrix (or a pair of candidate sets); it is non-trivial if it has at least three rows of which one is dominated and two are not (or both sets have at least two members and some member is dominated by the other set).");
PBT_ASSUME("For front extraction: fitness values are equal or differ by more than the floating-point tolerances, or the tolerances are set to zero. Merging is also checked for approximately equal values, against its definition with the library's own tolerant comparison.");

static void check_idx(const small_vector<size_t>& got, const std::vector<size_t>& want, const char* name)
{
    std::vector<size_t> s(got.begin(), got.end()); std::sort(s.begin(), s.end());
    PBT_CHECK(s == want, name, " returned ", pbt::str(s), " instead of ", pbt::str(want));
}
static void fronts(pbt::Case& c, const fm::Gen& g)
{
    fm::Tol tol(g.exact);
    auto m = fm::mat(g.rows);
    std::vector<size_t> want;
    for (size_t i = 0; i < g.n; i++) { bool d = false; for (size_t j = 0; j < g.n && !d; j++) d = fm::dominates(g.rows[j], g.rows[i]); if (!d) want.push_back(i); }
    check_idx(detail::findParetoFront(m), want, "findParetoFront");
    check_idx(detail::findParetoFrontSort(m), want, "findParetoFrontSort");
    check_idx(detail::findParetoFrontBest(m), want, "findParetoFrontBest");
    if (g.m > 1) check_idx(detail::findParetoFrontKung(m), want, "findParetoFrontKung");
    else check_idx(detail::findParetoFront1D(m), want, "findParetoFront1D");
    Population<BinaryGene> pop;
    for (size_t i = 0; i < g.n; i++) { Chromosome<BinaryGene> x(10); for (int b = 0; b < 10; b++) x[b] = (i >> b) & 1; Candidate<BinaryGene> k(x); k.fitness = FitnessVector(g.rows[i].begin(), g.rows[i].end()); k.is_evaluated = true; pop.push_back(k); }
    std::vector<size_t> got;
    for (auto& k : detail::findParetoFront(pop)) { size_t i = 0; for (int b = 0; b < 10; b++) i |= size_t(k.chromosome[b]) << b; PBT_CHECK(i < g.n && k.fitness == pop[i].fitness && k.is_evaluated, "findParetoFront(population): damaged candidate"); got.push_back(i); }
    std::sort(got.begin(), got.end());
    PBT_CHECK(got == want, "findParetoFront(population) returned ", pbt::str(got), " instead of ", pbt::str(want));
    if (g.m >= 2)
    {
        FitnessVector nadir(g.rows[want[0]].begin(), g.rows[want[0]].end());
        for (size_t i : want) for (size_t k = 0; k < g.m; k++) nadir[k] = std::min(nadir[k], g.rows[i][k]);
        PBT_CHECK(detail::findNadirPoint(m) == nadir, "findNadirPoint");
    }
    c.nontrivial(g.n >= 3 && want.size() >= 2 && want.size() < g.n);
}
PBT_PROP(front, 40000, 2000000) { fronts(c, fm::gen(c, 1, 50, 1, 6)); }
PBT_PROP(front_small, 40000, 2000000) { fronts(c, fm::gen(c, 1, 6, 1, 3)); }
PBT_PROP(front_large, 400, 15000) { fronts(c, fm::gen(c, 50, 300, 2, 8)); }

static void merge(pbt::Case& c, std::vector<fm::Row> a, std::vector<fm::Row> b, const std::function<bool(const fm::Row&, const fm::Row&)>& dom)
{
    fm::threads(c.chance(1, 3) ? c.range<size_t>(2, 8) : 1);
    // Make the sets mutually non-dominated.
    auto reduce = [&](std::vector<fm::Row>& s) { std::vector<fm::Row> r; for (auto& x : s) { bool bad = false; for (auto& y : r) bad = bad || dom(y, x) || dom(x, y); if (!bad) r.push_back(x); } s = r; };
    reduce(a); reduce(b);
    auto cands = [](const std::vector<fm::Row>& s, size_t tag) { Candidates<RealGene> r; for (size_t i = 0; i < s.size(); i++) { Candidate<RealGene> k(Chromosome<RealGene>{ double(tag), double(i) }); k.fitness = FitnessVector(s[i].begin(), s[i].end()); k.is_evaluated = true; r.push_back(k); } return r; };
    auto res = detail::mergeParetoSets(cands(a, 0), cands(b, 1));
    std::multiset<std::pair<size_t, size_t>> got, want;
    bool lost = false;
    for (size_t i = 0; i < a.size(); i++) { bool d = false; for (auto& y : b) d = d || dom(y, a[i]); if (!d) want.insert({ 0, i }); lost |= d; }
    for (size_t i = 0; i < b.size(); i++) { bool d = false; for (auto& y : a) d = d || dom(y, b[i]); if (!d) want.insert({ 1, i }); lost |= d; }
    for (auto& k : res)
    {
        PBT_CHECK(k.chromosome.size() == 2 && k.is_evaluated, "damaged candidate");
        const size_t t = size_t(k.chromosome[0]), i = size_t(k.chromosome[1]);
        auto& src = t ? b : a; PBT_CHECK(i < src.size() && std::equal(k.fitness.begin(), k.fitness.end(), src[i].begin(), src[i].end()), "damaged fitness");
        got.insert({ t, i });
    }
    for (auto& x : want) PBT_CHECK(got.count(x) == 1, "member ", x.second, " of set ", x.first, " is optimal but occurs ", got.count(x), " times in the merged set");
    for (auto& x : got) PBT_CHECK(want.count(x), "member ", x.second, " of set ", x.first, " is dominated but is in the merged set");
    c.os << " |a|=" << a.size() << " |b|=" << b.size();
    c.nontrivial(a.size() >= 2 && b.size() >= 2 && lost);
}
PBT_PROP(merge_exact, 40000, 2000000)
{
    auto g = fm::gen(c, 1, 50, 1, 5); fm::Tol tol(g.exact);
    const size_t k = c.range<size_t>(0, g.n);
    merge(c, { g.rows.begin(), g.rows.begin() + k }, { g.rows.begin() + k, g.rows.end() }, fm::dominates);
}
PBT_PROP(merge_near_ties, 20000, 1000000)
{
    const size_t n = c.wide(2, 40, 300), m = c.range<size_t>(2, 4);
    const double base = c.pick({ 0.0, 1.0, -2.0 }), d = c.pick({ 0.4e-12, 0.7e-12, 0.9e-12 });
    fm::Rows r(n, fm::Row(m)); for (auto& x : r) for (auto& y : x) y = base + d * c.range(0, 4);
    c.show("n", n).show("m", m).show("d", d);
    const size_t k = c.range<size_t>(0, n);
    merge(c, { r.begin(), r.begin() + k }, { r.begin() + k, r.end() }, [](const fm::Row& a, const fm::Row& b) { return math::paretoCompareLess(b, a); });
}
// Large sets of which only few members are dominated by the other one.
PBT_PROP(merge_large, 200, 8000)
{
    const size_t n = c.range<size_t>(50, 400), m = c.range<size_t>(2, 4);
    fm::Rows r(n, fm::Row(m));
    for (auto& x : r) { const long S = 100000; long left = S; for (size_t k = 0; k + 1 < m; k++) { x[k] = double(c.range<long>(0, left / 2)); left -= long(x[k]); } x[m - 1] = double(left); }
    const size_t down = c.range<size_t>(0, 10); for (size_t i = 0; i < down; i++) { const size_t a = c.raw(unsigned(n)), b = c.raw(unsigned(n)); r[a] = r[b]; r[a][c.raw(unsigned(m))] -= 1; }
    for (size_t i = 0; i < n; i++) std::swap(r[i], r[c.range<size_t>(i, n - 1)]);
    c.show("n", n).show("m", m).show("down", down);
    const size_t k = c.flip() ? n / 2 : c.range<size_t>(0, n);
    merge(c, { r.begin(), r.begin() + k }, { r.begin() + k, r.end() }, fm::dominates);
}
// One objective: everything that is not less than the best one, approximately equal values included.
PBT_PROP(one_objective_near_ties, 20000, 1000000)
{
    const double ta = c.pick({ 1e-12, 0.0, 1e-3, 0.5 }), tr = c.pick({ 1e-9, 0.0, 1e-2 });
    math::ScopedTolerances tol(ta, tr);
    const size_t n = c.wide(1, 40, 300);
    const double base = c.pick({ 0.0, 1.0, -2.0, 1e6, -1e-6 }), d = c.pick({ 0.3, 0.05, 1.0 }) * std::max(ta, tr * std::abs(base));
    fm::Rows r(n, fm::Row(1)); for (auto& x : r) x[0] = base + d * c.range(-4, 4);
    c.show("n", n).show("tol", pbt::str(fm::Row{ ta, tr })).showv("r", [&] { fm::Row f; for (auto& x : r) f.push_back(x[0]); return f; }());
    double best = r[0][0]; for (auto& x : r) best = std::max(best, x[0]);
    std::vector<size_t> want; for (size_t i = 0; i < n; i++) if (!math::floatIsLess(r[i][0], best)) want.push_back(i);
    auto m = fm::mat(r);
    check_idx(detail::findParetoFront(m), want, "findParetoFront");
    check_idx(detail::findParetoFront1D(m), want, "findParetoFront1D");
    bool ties = false; for (size_t i : want) ties |= r[i][0] != best;
    c.nontrivial(ties && want.size() < n);
}
