#include "fmats.hpp"
#include "algorithm/reference_lines.hpp"
#include "utility/qrng.hpp"
using namespace gapp; using namespace gapp::algorithm;
PBT_RULE("A case is one call of a generator with a dimension and a number of points, or one history of calls on a quasi-random generator; it is non-trivial if there are at least two points of at least two dimensions, or at least three calls of which one is a reset or discard.");
PBT_ASSUME("Even spread is checked by the distribution of single coordinates, for 2 to 20 dimensions; not for the Mirror method above 4 dimensions, which is documented only to map the points onto the simplex and favours some parts of it there.");
PBT_ASSUME("Seeds of the quasi-random sequence are at most 2^40 (larger ones leave no fractional digits).");

using PointFn = FitnessMatrix(*)(size_t, size_t);
static const std::pair<const char*, PointFn> fns[] = { { "Mirror", reflines::quasirandomSimplexPointsMirror }, { "Sort", reflines::quasirandomSimplexPointsSort }, { "Root", reflines::quasirandomSimplexPointsRoot }, { "Log", reflines::quasirandomSimplexPointsLog } };

static void check_points(const FitnessMatrix& p, size_t dim, size_t n, const char* name)
{
    PBT_CHECK(p.size() == n, name, ": ", p.size(), " points instead of ", n);
    for (size_t i = 0; i < n; i++)
    {
        PBT_CHECK(p[i].size() == dim, name, ": dimension ", p[i].size(), " instead of ", dim);
        long double s = 0;
        for (double x : p[i]) { PBT_CHECK(x >= 0 && x <= 1 + 1e-9, name, ": coordinate ", x, " of point ", i); s += x; }
        PBT_CHECK(std::abs(double(s - 1)) <= 1e-12 * double(dim + 1) * 10, name, ": the coordinates of point ", i, " add up to ", double(s));
    }
}
static void simplex(pbt::Case& c, size_t dim, size_t n)
{
    const auto& [name, f] = fns[c.raw(4)];
    c.show("gen", name).show("dim", dim).show("n", n); c.label(name);
    auto p = f(dim, n);
    check_points(p, dim, n, name);
    PBT_CHECK(p == f(dim, n), name, ": two calls give different points");
    if (dim >= 2) { std::set<fm::Row> u; for (size_t i = 0; i < n; i++) u.emplace(p[i].begin(), p[i].end()); PBT_CHECK(u.size() == n, name, ": only ", u.size(), " different points of ", n); }
    if (dim >= 2 && dim <= (name == std::string("Mirror") ? 4 : 20) && n >= 200)
    {
        // Spread evenly: a fraction of (1 - t)^(dim - 1) of the points has a k-th coordinate above t, for every k and t.
        const double tol = (dim == 2 ? 0.6 : dim <= 4 ? 1.6 : dim <= 12 ? 3.5 : 6.0) / std::sqrt(double(n));
        for (size_t k = 0; k < dim; k++)
        {
            std::vector<double> x; for (size_t i = 0; i < n; i++) x.push_back(p[i][k]);
            std::sort(x.begin(), x.end());
            for (size_t i = 0; i < n; i++)
            {
                const double F = 1 - std::pow(1 - std::min(x[i], 1.0), double(dim - 1));
                PBT_CHECK(std::abs(F - (i + 0.5) / n) <= tol + 0.5 / n, name, ": ", i + 1, " of the ", n, " points have a coordinate ", k, " of at most ", x[i], ", which a fraction of ", F, " of the simplex has");
            }
        }
        c.label("spread");
    }
    c.nontrivial(dim >= 2 && n >= 2);
}
PBT_PROP(simplex_points, 3000, 100000) { const size_t d = c.size(1, 20), n = c.size(0, 400); simplex(c, d, n); }
PBT_PROP(simplex_high_dim, 400, 10000) { const size_t d = c.range<size_t>(20, 120), n = c.range<size_t>(0, 60); simplex(c, d, n); }
PBT_PROP(simplex_very_many, 40, 800) { const size_t d = c.range<size_t>(2, 4), n = c.range<size_t>(10000, 30000); simplex(c, d, n); }
PBT_PROP(simplex_many, 300, 6000) { const size_t d = c.size(1, 20), n = c.range<size_t>(500, 5000); simplex(c, d, n); }

// Sparse subsets, also of a generator with arbitrary points.
static FitnessMatrix custom_pts; static size_t asked_dim, asked_n;
static FitnessMatrix custom(size_t dim, size_t n) { asked_dim = dim; asked_n = n; FitnessMatrix m; for (size_t i = 0; i < n && i < custom_pts.size(); i++) m.append_row(custom_pts[i]); return m; }
PBT_PROP(sparse_subset, 3000, 100000)
{
    const size_t dim = c.size(1, 10), n = c.size(0, 40), k = c.range<size_t>(1, 12);
    const int g = c.raw(6);
    c.show("dim", dim).show("n", n).show("k", k).show("gen", g);
    FitnessMatrix all, sub;
    if (g < 4) { all = fns[g].second(dim, n * k); sub = k == 10 && c.flip() ? reflines::pickSparseSubset(dim, n, fns[g].second) : reflines::pickSparseSubset(dim, n, fns[g].second, k); }
    else
    {
        custom_pts = {};
        for (size_t i = 0; i < n * k; i++)
        {
            if (i && c.chance(1, 4)) { custom_pts.append_row(FitnessVector(custom_pts[c.raw(i)])); continue; }
            FitnessVector v(dim); double s = 0; for (auto& x : v) { x = double(c.range(0, 6)); s += x; } if (s == 0) { v[0] = 1; s = 1; } for (auto& x : v) x /= s; custom_pts.append_row(v);
        }
        all = custom_pts; asked_n = n * k; asked_dim = dim;
        sub = reflines::pickSparseSubset(dim, n, custom, k);
        PBT_CHECK(asked_n == n * k && asked_dim == dim, "the generator was asked for ", asked_n, " points of dimension ", asked_dim);
    }
    check_points(sub, n ? dim : 0, n, "pickSparseSubset");
    std::map<fm::Row, size_t> left; for (size_t i = 0; i < all.size(); i++) left[fm::Row(all[i].begin(), all[i].end())]++;
    fm::Rows sel;
    for (size_t i = 0; i < n; i++)
    {
        fm::Row r(sub[i].begin(), sub[i].end());
        PBT_CHECK(left[r] > 0, "point ", i, " of the subset is not one of the (remaining) generated points");
        auto dist = [&](const fm::Row& x) { double d = math::inf<double>; for (auto& s : sel) { double t = 0; for (size_t j = 0; j < dim; j++) t += (x[j] - s[j]) * (x[j] - s[j]); d = std::min(d, t); } return d; };
        if (i) { const double d = dist(r); for (auto& [x, m] : left) if (m) PBT_CHECK(dist(x) <= d + 1e-9, "point ", i, " is at squared distance ", d, " of the points picked before, but another one at ", dist(x)); }
        left[r]--; sel.push_back(r);
    }
    c.nontrivial(dim >= 2 && n >= 2);
}
// Large subsets: each point is the furthest from those picked before, up to rounding (the distances are kept for all candidates, as in the greedy definition).
PBT_PROP(sparse_large, 60, 1500)
{
    const size_t dim = c.range<size_t>(2, 8), n = c.range<size_t>(40, 250), k = c.range<size_t>(1, 14); const int g = c.raw(4);
    c.show("dim", dim).show("n", n).show("k", k).show("gen", fns[g].first);
    const FitnessMatrix all = fns[g].second(dim, n * k), sub = reflines::pickSparseSubset(dim, n, fns[g].second, k);
    check_points(sub, dim, n, "pickSparseSubset");
    std::vector<double> d(all.size(), math::inf<double>); std::vector<char> used(all.size());
    std::map<fm::Row, std::vector<size_t>> at; for (size_t i = 0; i < all.size(); i++) at[fm::Row(all[i].begin(), all[i].end())].push_back(i);
    for (size_t i = 0; i < n; i++)
    {
        auto it = at.find(fm::Row(sub[i].begin(), sub[i].end())); PBT_CHECK(it != at.end() && !it->second.empty(), "point ", i, " of the subset is not one of the (remaining) generated points");
        const size_t p = it->second.back(); it->second.pop_back(); used[p] = 1;
        for (size_t q = 0; q < all.size(); q++)
        {
            if (used[q]) continue;
            if (i) PBT_CHECK(d[q] <= d[p] + 1e-9, "point ", i, " is at squared distance ", d[p], " of the points picked before, but another one at ", d[q]);
        }
        for (size_t q = 0; q < all.size(); q++) { double t = 0; for (size_t j = 0; j < dim; j++) t += (all[q][j] - all[p][j]) * (all[q][j] - all[p][j]); d[q] = std::min(d[q], t); }
    }
    c.nontrivial(true);
}
// The quasi-random sequence: n-th point is the fractional part of seed + n * alpha, alpha_i = phi^-(i + 1), phi^(d + 1) = phi + 1.
template<typename R> static void qrng(pbt::Case& c, const char* type)
{
    const size_t dim = c.size(0, 60);
    c.show("type", type).show("dim", dim); c.label(type);
    long double phi = 1; for (int i = 0; i < 400; i++) phi = std::pow(1 + phi, 1.0L / (dim + 1.0L));
    std::vector<long double> alpha; { long double p = phi; for (size_t i = 0; i < dim; i++) { alpha.push_back(1 / p); p *= phi; } }
    auto gen_seed = [&] { return R(c.pick({ 0.5, 0.0, 0.25, 0.9999, 1.0, 3.75, c.unit(), double(c.raw(1000000)) })); };
    R seed = R(0.5); 
    auto q = [&] { if (c.flip()) return rng::QuasiRandom<R>(dim); seed = gen_seed(); return rng::QuasiRandom<R>(dim, seed); }();
    size_t n = 0, ops = 0, calls = 0;
    const size_t steps = c.size(1, 40);
    for (size_t s = 0; s < steps; s++)
    {
        switch (c.raw(6))
        {
            case 0: { const size_t k = c.pick({ size_t(1), size_t(0), c.range<size_t>(0, 200), sizeof(R) > 4 && c.chance(1, 60) ? c.range<size_t>(0, 300000) : size_t(1) }); c.os << "discard(" << k << ") "; if (k == 1) q.discard(); else q.discard(k); n += k; ops++; break; }
            case 1: { if (c.flip()) { q.reset(); seed = R(0.5); } else { seed = gen_seed(); q.reset(seed); } c.os << "reset(" << seed << ") "; n = 0; ops++; break; }
            case 2: { auto r = q; q.discard(3); auto a = r(); q = r; auto b = q; PBT_CHECK(a.size() == dim, "size"); n++; calls++; break; } // copies are independent
            default:
            {
                auto p = q(); n++; calls++;
                PBT_CHECK(p.size() == dim && q.dim() == dim, "point of dimension ", p.size());
                const long double eps = std::max<long double>(std::numeric_limits<R>::epsilon(), std::numeric_limits<double>::epsilon()), tol = eps * (48 * n + 32 + 8 * double(seed));
                for (size_t i = 0; i < dim; i++)
                {
                    PBT_CHECK(p[i] >= 0 && p[i] < 1, "coordinate ", i, " of point ", n, " is ", double(p[i]));
                    long double e = (long double)seed + n * alpha[i]; e -= std::floor(e);
                    long double d = std::abs(e - p[i]); d = std::min(d, 1 - d);
                    PBT_CHECK(d <= tol, "coordinate ", i, " of point ", n, " is ", double(p[i]), " instead of ", double(e), " (seed ", double(seed), ")");
                }
            }
        }
    }
    c.nontrivial(dim >= 2 && calls >= 2 && ops >= 1);
}
PBT_PROP(quasi_random, 20000, 1000000) { switch (c.raw(4)) { case 0: case 1: qrng<double>(c, "double"); break; case 2: qrng<float>(c, "float"); break; default: qrng<long double>(c, "long double"); } }
