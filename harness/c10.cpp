#include "fmats.hpp"
#include "algorithm/nd_sort.hpp"
using namespace gapp; using namespace gapp::algorithm;
PBT_RULE("A case is one fitness matrix; it is non-trivial if it has at least three rows and at least two fronts or two equal rows.");
PBT_ASSUME("Fitness values are equal or differ by more than the floating-point tolerances, or the tolerances are set to zero (dominance is not transitive for approximately equal values, so that fronts are not defined by it). For approximately equal values the result of nonDominatedSort is checked to respect clear dominance, and the pairwise methods against the fronts of groups of approximately equal values.");

using Sorter = std::vector<dtl::FrontElement>(*)(FitnessMatrix::const_iterator, FitnessMatrix::const_iterator);
static void check_elems(const fm::Gen& g, const std::vector<dtl::FrontElement>& f, const std::vector<size_t>& want, size_t lo, size_t n, const char* name)
{
    PBT_CHECK(f.size() == n, name, " returned ", f.size(), " elements for ", n, " rows");
    std::vector<bool> seen(n);
    size_t last = 0;
    for (auto& e : f)
    {
        PBT_CHECK(e.idx < n, name, ": index ", e.idx, " of ", n);
        PBT_CHECK(!seen[e.idx], name, ": row ", e.idx, " is listed twice"); seen[e.idx] = true;
        PBT_CHECK(e.rank == want[e.idx], name, ": row ", e.idx, " has rank ", e.rank, " instead of ", want[e.idx]);
        PBT_CHECK(e.rank >= last, name, ": the fronts are not in order"); last = e.rank;
    }
}
static void check_matrix(pbt::Case& c, fm::Gen g)
{
    fm::Tol tol(g.exact);
    fm::threads(c.chance(1, 4) ? c.range<size_t>(2, 6) : 1);
    auto m = fm::mat(g.rows);
    // A subrange, sometimes.
    size_t lo = 0, hi = g.n;
    if (c.chance(1, 6)) { lo = c.range<size_t>(0, g.n - 1); hi = c.range<size_t>(lo + 1, g.n); }
    fm::Rows sub(g.rows.begin() + lo, g.rows.begin() + hi); const size_t n = hi - lo;
    auto want = fm::ranks(sub);
    const auto b = m.begin() + lo, e = m.begin() + hi;
    check_elems(g, dtl::efficientNonDominatedSort(b, e), want, lo, n, "efficientNonDominatedSort");
    check_elems(g, dtl::fastNonDominatedSort(b, e), want, lo, n, "fastNonDominatedSort");
    check_elems(g, dtl::dominanceDegreeSort(b, e), want, lo, n, "dominanceDegreeSort");
    auto pf = dtl::nonDominatedSort(b, e);
    check_elems(g, { pf.begin(), pf.end() }, want, lo, n, "nonDominatedSort");
    PBT_CHECK(pf.ranks() == want, "ranks()");
    const size_t nf = *std::max_element(want.begin(), want.end()) + 1;
    {
        auto fs = pf.fronts();
        PBT_CHECK(fs.size() == nf, "fronts() returned ", fs.size(), " fronts instead of ", nf);
        for (size_t r = 0; r < nf; r++)
        {
            std::set<size_t> in; for (auto& x : fs[r]) { PBT_CHECK(x.rank == r, "fronts(): rank"); in.insert(x.idx); }
            PBT_CHECK(in.size() == size_t(std::count(want.begin(), want.end(), r)), "fronts(): front ", r, " has ", in.size(), " members");
        }
    }
    const size_t k = c.range<size_t>(1, n);
    {
        auto p = pf.partialFront(k);
        std::multiset<size_t> got; for (auto& x : p) got.insert(x.idx);
        auto sorted = want; std::sort(sorted.begin(), sorted.end());
        std::multiset<size_t> exp; if (k < n && sorted[k - 1] == sorted[k]) for (size_t i = 0; i < n; i++) if (want[i] == sorted[k]) exp.insert(i);
        PBT_CHECK(got == exp, "partialFront(", k, ") has ", got.size(), " members instead of ", exp.size());
    }
    bool dup = false; { auto s = sub; std::sort(s.begin(), s.end()); dup = std::adjacent_find(s.begin(), s.end()) != s.end(); }
    c.nontrivial(n >= 3 && (nf > 1 || dup));
    c.label("fronts " + std::to_string(std::min<size_t>(nf, 5)));
}
PBT_PROP(multi_objective, 30000, 2000000) { check_matrix(c, fm::gen(c, 1, 60, 2, 6)); }
PBT_PROP(small, 40000, 2000000) { check_matrix(c, fm::gen(c, 1, 7, 1, 3)); }
PBT_PROP(single_objective, 6000, 300000) { check_matrix(c, fm::gen(c, 1, 60, 1, 1)); }
PBT_PROP(large, 300, 10000) { check_matrix(c, fm::gen(c, 60, 300, 2, 8)); }
// Approximately equal values: clear dominance is respected, and nobody is put into a later front without a reason.
PBT_PROP(near_ties, 20000, 1000000)
{
    const double ta = c.pick({ 1e-12, 1e-3, 0.5 }), tr = c.pick({ 1e-9, 0.0, 1e-2 });
    math::ScopedTolerances tol(ta, tr);
    const size_t n = c.wide(2, 40, 200), m = c.range<size_t>(2, 5);
    const double base = c.pick({ 0.0, 1.0, -2.0, 1e6 }), d = c.pick({ 0.3, 0.9, 0.05 }) * std::max(ta, tr * std::abs(base));
    const int K = c.pick({ 4, 8, 30 });
    fm::Rows r(n, fm::Row(m)); for (auto& x : r) for (auto& y : x) y = base + d * c.range(0, K) + (c.chance(1, 3) ? std::max(1.0, std::abs(base)) * c.range(-2, 2) : 0);
    c.show("n", n).show("m", m).show("d", d).show("tol", pbt::str(fm::Row{ ta, tr })); for (size_t i = 0; i < std::min<size_t>(n, 8); i++) c.os << pbt::str(r[i]);
    auto mat = fm::mat(r);
    auto pf = dtl::nonDominatedSort(mat);
    const auto rank = pf.ranks();
    PBT_CHECK(rank.size() == n, "ranks of ", rank.size(), " rows");
    bool ties = false;
    for (size_t i = 0; i < n; i++)
    {
        bool reason = rank[i] == 0;
        for (size_t j = 0; j < n; j++)
        {
            if (i == j) continue;
            bool ge = true, gt = false;
            for (size_t k = 0; k < m; k++) { ge &= r[j][k] >= r[i][k]; gt |= math::floatIsLess(r[i][k], r[j][k]); ties |= r[i][k] != r[j][k] && math::floatIsEqual(r[i][k], r[j][k]); }
            PBT_CHECK(!(ge && gt && rank[j] >= rank[i]), "row ", j, " (rank ", rank[j], ") is nowhere worse and somewhere clearly better than row ", i, " (rank ", rank[i], ")");
            reason |= rank[j] + 1 == rank[i] && math::paretoCompareLess(r[i], r[j]);
        }
        PBT_CHECK(reason, "row ", i, " has rank ", rank[i], " but no row of the front before dominates it");
    }
    c.nontrivial(ties);
}

PBT_PROP(groups_of_equal_values, 10000, 500000)
{
    const double e = c.pick({ 1e-13, 1e-3, 0.1 });
    math::ScopedTolerances tol(e * 2.5, 0.0);
    fm::threads(c.chance(1, 4) ? c.range<size_t>(2, 6) : 1);
    const size_t n = c.size(2, 40), m = c.range<size_t>(2, 5); const int K = c.pick({ 2, 4, 9 });
    fm::Rows key(n, fm::Row(m)), r(n, fm::Row(m)); bool ties = false;
    for (size_t i = 0; i < n; i++) for (size_t k = 0; k < m; k++) { key[i][k] = c.range(0, K); r[i][k] = key[i][k] + e * c.range(-1, 1); ties |= r[i][k] != key[i][k]; }
    c.show("n", n).show("m", m).show("e", e); for (size_t i = 0; i < std::min<size_t>(n, 8); i++) c.os << pbt::str(key[i]);
    auto mat = fm::mat(r); auto want = fm::ranks(key); fm::Gen g;
    check_elems(g, dtl::fastNonDominatedSort(mat.begin(), mat.end()), want, 0, n, "fastNonDominatedSort");
    check_elems(g, dtl::dominanceDegreeSort(mat.begin(), mat.end()), want, 0, n, "dominanceDegreeSort");
    c.nontrivial(ties && n >= 3);
}
