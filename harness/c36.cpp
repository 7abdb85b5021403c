// C36: the vector and statistics helpers compute what they are defined to be, for all inputs whose results are representable.
#include "pbt.hpp"
#include "gapp.hpp"
#include "utility/math.hpp"
#include "core/population.hpp"
#include "metrics/pop_stats.hpp"
#include <numbers>
using namespace gapp;
using Q = __float128;
PBT_RULE("A case is one generated set of vectors on which all the helpers of a group are compared with 113 bit references; it is non-trivial if the vectors have at least two elements and are not all zero.");

static Q qabs(Q x) { return x < 0 ? -x : x; }
static Q qsqrt(Q x) { if (x <= 0) return 0; Q r = std::sqrt(double(x)); if (r == 0) return 0; for (int i = 0; i < 4; i++) r = (r + x / r) / 2; return r; }
static constexpr Q eps = std::numeric_limits<double>::epsilon();

struct Gen
{
    int kind, lo, hi; double base;
    explicit Gen(pbt::Case& c) : kind(c.raw(6)), lo(0), hi(0), base(c.pick({ 1.0, 1e6, -3.0, 1e-8 })) { const int e = c.pick({ 0, 0, 20, -20, 100, -100 }); lo = e - c.pick({ 0, 3, 20 }); hi = e + c.pick({ 0, 3, 20 }); }
    double operator()(pbt::Case& c) const
    {
        switch (kind)
        {
            case 0: return double(c.range(-5, 5));                                            // small integers, many ties and zeros
            case 1: return c.real(-1.0, 1.0);
            case 2: return c.chance(1, 3) ? 0.0 : std::ldexp(c.real(-1.0, 1.0), c.range(lo, hi)); // mixed magnitudes
            case 3: return base + base * 1e-9 * c.unit();                                     // close to each other
            case 4: return c.chance(1, 8) ? std::ldexp(1.0, hi) : std::ldexp(c.unit(), lo);   // one dominating element
            default: return c.unit() * base;
        }
    }
    std::vector<double> vec(pbt::Case& c, size_t n) const { std::vector<double> v(n); for (double& x : v) x = (*this)(c); return v; }
};
static size_t gen_dim(pbt::Case& c) { return c.pick({ c.size(1, 6), c.size(1, 6), c.size(6, 40), c.range<size_t>(40, 300) }); }
static bool nonzero(const std::vector<double>& v) { return std::any_of(v.begin(), v.end(), [](double x) { return x != 0; }); }
static void near(double got, Q want, Q tol, const char* what, size_t n)
{
    PBT_CHECK(!std::isnan(got) && qabs(Q(got) - want) <= tol + Q(1e-290), what, " of ", n, " elements is ", got, " instead of ", double(want), " (tolerance ", double(tol), ")");
}

PBT_PROP(norms_and_distances, 40000, 2000000)
{
    const Gen g(c); const size_t n = gen_dim(c); const auto a = g.vec(c, n), b = c.chance(1, 10) ? a : g.vec(c, n); c.showv("a", a).showv("b", b);
    c.nontrivial(n >= 2 && nonzero(a) && nonzero(b));
    Q aa = 0, ab = 0, dd = 0; for (size_t i = 0; i < n; i++) { aa += Q(a[i]) * a[i]; ab += Q(a[i]) * b[i]; const Q d = Q(a[i]) - b[i]; dd += d * d; }
    const Q k = Q(n + 8) * eps;
    near(math::euclideanNorm(a), qsqrt(aa), k * qsqrt(aa), "euclideanNorm", n);
    near(math::euclideanDistanceSq(a, b), dd, k * dd, "euclideanDistanceSq", n);
    PBT_CHECK(math::euclideanDistanceSq(a, b) == math::euclideanDistanceSq(b, a) && math::euclideanDistanceSq(a, a) == 0, "the distance is not symmetric");
    // Scaling by a power of two is exact.
    { auto s = a; for (double& x : s) x *= 4; PBT_CHECK(math::euclideanNorm(s) == 4 * math::euclideanNorm(a), "the norm of 4 a is ", math::euclideanNorm(s), ", of a ", math::euclideanNorm(a)); }
    if (aa > 0)
    {
        auto u = a; math::normalizeVector(u); const Q len = qsqrt(aa);
        for (size_t i = 0; i < n; i++) near(u[i], Q(a[i]) / len, k * qabs(Q(a[i]) / len), "an element of the normalized vector", n);
        Q bb = 0, pp = 0; const Q t = ab / aa; for (size_t i = 0; i < n; i++) { bb += Q(b[i]) * b[i]; const Q d = Q(b[i]) - t * a[i]; pp += d * d; }
        // The foot of the perpendicular has a rounding error of about eps |b| in every direction.
        const Q e = k * qsqrt(bb);
        near(math::perpendicularDistanceSq(a, b), pp, 4 * e * qsqrt(pp) + 4 * e * e + k * pp, "perpendicularDistanceSq", n);
        // It doesn't depend on the length or the sign of the direction.
        auto s = a; const double f = c.pick({ -1.0, 2.0, 0.25, -8.0 }); for (double& x : s) x *= f;
        PBT_CHECK(math::perpendicularDistanceSq(s, b) == math::perpendicularDistanceSq(a, b), "perpendicularDistanceSq of the line times ", f, " is ", math::perpendicularDistanceSq(s, b), " instead of ", math::perpendicularDistanceSq(a, b));
    }
}
PBT_PROP(volumes, 20000, 1000000)
{
    const Gen g(c); const size_t n = g.kind == 0 || g.kind == 1 ? gen_dim(c) : c.size(1, 6); const auto a = g.vec(c, n), b = g.vec(c, n); c.showv("a", a).showv("b", b);
    Q v = 1, top = 1, low = 1; for (size_t i = 0; i < n; i++) { v *= Q(a[i]) - b[i]; top = std::max(top, qabs(v)); low = std::min(low, qabs(v)); }
    if (top > Q(1e290) || (low != 0 && low < Q(1e-270))) return; c.nontrivial(n >= 2 && v != 0);
    near(math::volumeBetween(a, b), qabs(v), Q(2 * n + 4) * eps * qabs(v), "volumeBetween", n);
    PBT_CHECK(math::volumeBetween(a, b) == math::volumeBetween(b, a), "volumeBetween is not symmetric");
}
PBT_PROP(means_and_deviations, 40000, 2000000)
{
    const Gen g(c); const size_t n = gen_dim(c); auto a = g.vec(c, n); c.showv("a", a); c.nontrivial(n >= 2 && nonzero(a));
    Q s = 0, sa = 0; for (double x : a) { s += x; sa += qabs(x); }
    const Q m = s / Q(n), k = Q(n + 8) * eps;
    const double mean = math::mean(a); near(mean, m, k * sa / Q(n), "mean", n);
    auto [lo, hi] = std::minmax_element(a.begin(), a.end()); PBT_CHECK(mean >= *lo - double(k * sa) && mean <= *hi + double(k * sa), "the mean is outside of the range");
    auto dev = [&](Q mu) { Q v = 0; for (double x : a) v += (Q(x) - mu) * (Q(x) - mu); return qsqrt(v / Q(n)); };
    if (n == 1) { PBT_CHECK(math::stdDev(a) == 0 && math::stdDev(a, 3.0) == 0, "the deviation of one element is ", math::stdDev(a)); return; }
    const Q me = k * sa / Q(n);
    near(math::stdDev(a), dev(m), k * dev(m) + me, "stdDev", n);
    for (double mu : { mean, a[0], g(c) }) near(math::stdDev(a, mu), dev(mu), k * dev(mu), "stdDev with a mean", n);
    // They don't depend on the order of the elements.
    std::reverse(a.begin(), a.end()); near(math::mean(a), m, me, "mean of the reversed range", n); near(math::stdDev(a), dev(m), k * dev(m) + me, "stdDev of the reversed range", n);
}
// The statistics of every objective of a population.
PBT_PROP(fitness_statistics, 20000, 1000000)
{
    const size_t n = c.pick({ c.size(1, 8), c.size(8, 60) }), m = c.size(1, 8); std::vector<Gen> gs; for (size_t j = 0; j < m; j++) gs.emplace_back(c);
    FitnessMatrix f; std::vector<std::vector<double>> col(m);
    const size_t first = c.chance(1, 3) ? c.range<size_t>(0, 3) : 0, after = c.chance(1, 3) ? c.range<size_t>(0, 3) : 0;
    for (size_t i = 0; i < first + n + after; i++) { FitnessVector v; for (size_t j = 0; j < m; j++) { v.push_back(gs[j](c)); if (i >= first && i < first + n) col[j].push_back(v[j]); } f.append_row(v); }
    for (auto& x : col) c.showv("objective", x);
    c.nontrivial(n >= 2);
    const auto b = f.cbegin() + std::ptrdiff_t(first), e = b + std::ptrdiff_t(n);
    const auto mn = detail::minFitness(b, e), mx = detail::maxFitness(b, e), mean = detail::fitnessMean(b, e), var = detail::fitnessVariance(b, e), sd = detail::fitnessStdDev(b, e), varm = detail::fitnessVariance(b, e, mean), sdm = detail::fitnessStdDev(b, e, mean);
    PBT_CHECK(mn.size() == m && mx.size() == m && mean.size() == m && var.size() == m && sd.size() == m, "the statistics don't have one element per objective");
    for (size_t j = 0; j < m; j++)
    {
        PBT_CHECK(mn[j] == *std::min_element(col[j].begin(), col[j].end()) && mx[j] == *std::max_element(col[j].begin(), col[j].end()), "the minimum of objective ", j, " is ", mn[j], ", the maximum ", mx[j]);
        Q s = 0, sa = 0, v = 0; for (double x : col[j]) { s += x; sa += qabs(x); } const Q mu = s / Q(n); for (double x : col[j]) v += (x - mu) * (x - mu); v = n == 1 ? 0 : v / Q(n - 1);
        const Q k = Q(n + 8) * eps, me = k * sa / Q(n), d = qsqrt(v);
        near(mean[j], mu, me, "fitnessMean", n);
        // An error of the mean adds its square.
        const Q tv = k * v + 4 * me * me + 4 * me * d;
        near(var[j], v, tv, "fitnessVariance", n); near(varm[j], v, tv, "fitnessVariance with the mean", n);
        near(sd[j], d, k * d + 4 * me, "fitnessStdDev", n); near(sdm[j], d, k * d + 4 * me, "fitnessStdDev with the mean", n);
    }
}
// The antiderivative of a power of the sine.
PBT_PROP(sine_powers, 8000, 400000)
{
    const size_t n = c.pick({ c.range<size_t>(0, 6), c.range<size_t>(0, 30), c.range<size_t>(30, 120) }); double a = c.real(-10.0, 10.0), b = c.real(-10.0, 10.0); if (c.chance(1, 4)) { a = 0; b = std::numbers::pi * c.pick({ 0.5, 1.0, 2.0, -0.5 }); }
    c.show("n", n).show("a", a).show("b", b); c.nontrivial(n >= 1 && a != b);
    // Gauss-Legendre of five points on short pieces.
    static const long double xs[] = { 0.0L, 0.53846931010568309103631442070020880L, 0.90617984593866399279762687829939297L }, ws[] = { 0.56888888888888888888888888888888889L, 0.47862867049936646804129151483563819L, 0.23692688505618908751426404071991736L };
    const int pieces = 400; long double sum = 0, h = ((long double)b - a) / pieces;
    auto f = [&](long double x) { return std::pow(std::sin(x), (long double)n); };
    for (int i = 0; i < pieces; i++) { const long double mid = a + (i + 0.5L) * h; sum += ws[0] * f(mid); for (int j = 1; j < 3; j++) sum += ws[j] * (f(mid - xs[j] * h / 2) + f(mid + xs[j] * h / 2)); }
    sum *= h / 2;
    const double got = math::integralSinPow(n, b) - math::integralSinPow(n, a);
    PBT_CHECK(std::abs((long double)got - sum) <= 1e-11L, "the integral of sin^", n, " from ", a, " to ", b, " is ", got, " instead of ", (double)sum);
}
