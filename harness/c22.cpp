#include "pbt.hpp"
#include "fmats.hpp"
#include "metrics/pop_stats.hpp"
#include <cmath>
using namespace gapp; using fm::Row; using fm::Rows;
PBT_RULE("A case is one set of points with a reference point; it is non-trivial if at least three points are mutually non-dominated in at least two dimensions.");
PBT_ASSUME("No point is worse than the reference point in any dimension (required by the documentation and asserted by the code) and all coordinates are finite.");

// Volume of the union of the boxes, by slicing along the last dimension.
static long double slices(std::vector<const Row*> pts, const Row& ref, size_t dims)
{
    if (pts.empty()) return 0;
    if (dims == 1) { double b = ref[0]; for (auto* p : pts) b = std::max(b, (*p)[0]); return (long double)b - ref[0]; }
    std::sort(pts.begin(), pts.end(), [&](auto* a, auto* b) { return (*a)[dims - 1] > (*b)[dims - 1]; });
    long double v = 0; std::vector<const Row*> above;
    for (size_t i = 0; i < pts.size(); i++)
    {
        above.push_back(pts[i]);
        const double lo = i + 1 < pts.size() ? (*pts[i + 1])[dims - 1] : ref[dims - 1], hi = (*pts[i])[dims - 1];
        if (hi > lo) v += ((long double)hi - lo) * slices(above, ref, dims - 1);
    }
    return v;
}
static long double oracle(const Rows& r, const Row& ref) { std::vector<const Row*> p; for (auto& x : r) p.push_back(&x); return slices(p, ref, ref.size()); }
// The same volume by inclusion-exclusion.
static long double incl_excl(const Rows& r, const Row& ref)
{
    long double v = 0;
    for (size_t s = 1; s < (size_t(1) << r.size()); s++)
    {
        long double box = 1;
        for (size_t j = 0; j < ref.size(); j++) { double lo = math::inf<double>; for (size_t i = 0; i < r.size(); i++) if (s >> i & 1) lo = std::min(lo, r[i][j]); box *= (long double)lo - ref[j]; }
        v += __builtin_popcountll(s) % 2 ? box : -box;
    }
    return v;
}
static double hv(const Rows& r, const Row& ref) { return detail::hypervolume(fm::mat(r), ref); }
static size_t front_size(const Rows& r) { Rows u = r; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); size_t n = 0; for (auto& a : u) { bool d = false; for (auto& b : u) d |= fm::dominates(b, a); n += !d; } return n; }

struct In { Rows r; Row ref; bool exact; double box; std::optional<math::ScopedTolerances> tol; };
static void gen_into(In& g, pbt::Case& c, size_t max_n, size_t min_m, size_t max_m)
{
    const size_t m = c.range<size_t>(min_m, max_m), n = c.size(1, max_n);
    const int kind = c.raw(7); g.exact = kind <= 2;
    const double off = c.pick({ 0.0, 0.0, -7.0, 100.0 });
    g.ref.assign(m, off); if (c.flip()) for (auto& x : g.ref) x = off - double(c.range(0, 4));
    const int K = c.pick({ 2, 4, 9, 30 });
    const double step = kind == 5 ? 1e-13 : 1.0;
    for (size_t i = 0; i < n; i++)
    {
        Row x(m);
        if (i && c.chance(1, 10)) { x = g.r[c.raw(i)]; if (c.flip()) x[c.raw(m)] += step; g.r.push_back(x); continue; }
        switch (kind)
        {
            case 0: case 1: for (auto& v : x) v = off + double(c.range(0, K)); break;
            case 2: { int left = 24; for (size_t j = 0; j + 1 < m; j++) { const int k = int(c.range(0, left)); x[j] = off + k; left -= k; } x[m - 1] = off + left; break; } // all on a simplex
            case 3: { double s = 0; for (auto& v : x) { v = 0.01 + double(c.range(0, 1000)); s += v * v; } for (auto& v : x) v = off + v / std::sqrt(s); break; } // on a sphere
            case 4: for (auto& v : x) v = off + double(c.raw(1u << 24)) / (1 << 24); break;
            case 5: for (auto& v : x) v = off + 1 + 1e-13 * double(c.range(0, 5)); break; // differences below the tolerances
            default: for (size_t j = 0; j < m; j++) x[j] = off + double(c.range(0, 9)) * std::pow(10.0, double(j) * 3 - 4); break; // very different scales
        }
        for (size_t j = 0; j < m; j++) x[j] = std::max(x[j], g.ref[j]);
        g.r.push_back(x);
    }
    g.box = 1; for (size_t j = 0; j < m; j++) { double hi = g.ref[j]; for (auto& x : g.r) hi = std::max(hi, x[j]); g.box *= hi - g.ref[j]; }
    if (c.chance(1, 20)) fm::threads(c.range<size_t>(2, 4)); else fm::threads(1);
    if (c.chance(1, 6)) { const double a = c.pick({ 0.0, 1e-6, 0.5, 3.0 }), r = c.pick({ 0.0, 1e-6, 0.1 }); g.tol.emplace(a, r); c.show("absolute tolerance", a).show("relative tolerance", r); } // the volume does not depend on them
    c.os << "kind=" << kind << " n=" << n << " m=" << m << " ref="; for (double v : g.ref) c.os << v << " ";
    for (size_t i = 0; i < std::min<size_t>(n, 30); i++) { c.os << "("; c.os.precision(17); for (double v : g.r[i]) c.os << v << " "; c.os << ")"; }
    c.nontrivial(m >= 2 && n <= 60 && front_size(g.r) >= 3);
}
static void same(const In& g, double got, long double want, const char* what)
{
    const bool ok = g.exact ? got == double(want) : std::abs(got - double(want)) <= 1e-9 * g.box + 1e-300;
    PBT_CHECK(ok, what, ": the hypervolume is ", got, " instead of ", double(want));
}
PBT_PROP(union_of_boxes, 30000, 1500000)
{
    In g; gen_into(g, c, 10, 1, 6);
    const long double want = incl_excl(g.r, g.ref);
    same(g, hv(g.r, g.ref), g.exact ? want : oracle(g.r, g.ref), "inclusion-exclusion");
    if (g.exact && oracle(g.r, g.ref) != want) pbt::fail("the two oracles disagree");
}
PBT_PROP(larger_sets, 1500, 60000)
{
    In g; if (c.flip()) gen_into(g, c, 150, 1, 3); else gen_into(g, c, 25, 4, 5);
    same(g, hv(g.r, g.ref), oracle(g.r, g.ref), "slicing");
}
PBT_PROP(relations, 10000, 400000)
{
    In g; gen_into(g, c, 16, 1, 5); const size_t n = g.r.size(), m = g.ref.size();
    const double v = hv(g.r, g.ref);
    PBT_CHECK(v >= 0 || (!g.exact && v >= -1e-9 * g.box), "negative volume ", v);
    { Rows p; for (size_t i : c.perm(n)) p.push_back(g.r[i]); same(g, hv(p, g.ref), v, "other order of the points"); }
    { Rows p; const auto q = c.perm(m); Row ref; for (size_t j : q) ref.push_back(g.ref[j]); for (auto& x : g.r) { p.emplace_back(); for (size_t j : q) p.back().push_back(x[j]); } same(g, hv(p, ref), v, "other order of the objectives"); }
    { Rows p = g.r; p.insert(p.begin() + c.raw(n + 1), g.r[c.raw(n)]); Row x = g.r[c.raw(n)]; for (size_t j = 0; j < m; j++) if (c.flip()) x[j] = g.ref[j] + std::floor((x[j] - g.ref[j]) / 2); p.push_back(x); same(g, hv(p, g.ref), v, "a duplicate and a dominated point added"); }
    { Rows p = g.r; Row ref = g.ref; const size_t j = c.raw(m); for (auto& x : p) x[j] *= 2; ref[j] *= 2; const double box = g.box; g.box *= 2; same(g, hv(p, ref), 2 * (long double)v, "one objective doubled"); g.box = box; }
    { Rows p = g.r; Row x(m); for (size_t j = 0; j < m; j++) x[j] = c.chance(1, 3) ? g.ref[j] : g.r[c.raw(n)][j] + (c.flip() ? 1.0 : 0.0); p.insert(p.begin() + c.raw(n + 1), x); const double w = hv(p, g.ref); PBT_CHECK(g.exact ? w >= v : w >= v - 1e-9 * (g.box + w), "the volume drops from ", v, " to ", w, " when a point is added"); double inc = 1; for (size_t j = 0; j < m; j++) inc *= x[j] - g.ref[j]; PBT_CHECK(w <= v + inc + 1e-9 * (g.box + w) && w >= inc - 1e-9 * (g.box + w), "the volume goes from ", v, " to ", w, " when a point of volume ", inc, " is added"); }
    { const size_t t = execution_threads(); const double b = (fm::threads(1), hv(g.r, g.ref)); if (c.chance(1, 8)) fm::threads(c.range<size_t>(2, 5)); for (int k = 0; k < 3; k++) { const double w = hv(g.r, g.ref); PBT_CHECK(w == b, "the volume is ", w, " and ", b, " with different numbers of threads"); } if (t == 1) PBT_CHECK(b == v, "the volume is not reproducible"); }
}
