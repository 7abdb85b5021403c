#include "pbt.hpp"
#include "gapp.hpp"
#include "utility/rng.hpp"
#include <cmath>
#include <bitset>
#include <set>
#include <list>
#include <map>
#include <numeric>
using namespace gapp;
PBT_RULE("A case is one sampling function with generated arguments called repeatedly; it is non-trivial if the requested range or set has at least two elements.");
PBT_ASSUME("Frequencies are compared with a Chernoff bound at a false alarm probability below 1e-12 per comparison; deviations smaller than about 1/sqrt(number of draws) are not seen.");
PBT_ASSUME("The binomial sampler is documented as approximate: for n > 5 its range, mean, spread and the quantiles are compared with a slack.");
PBT_ASSUME("Bounds of random reals are finite.");
using u128 = unsigned __int128; using i128 = __int128;
using pbt::plausible_count;

template<typename F> static void for_int(pbt::Case& c, F&& f)
{
    switch (c.raw(8))
    {
        case 0: f.template operator()<int>(); break; case 1: f.template operator()<std::int8_t>(); break; case 2: f.template operator()<std::uint8_t>(); break; case 3: f.template operator()<std::int16_t>(); break;
        case 4: f.template operator()<std::uint16_t>(); break; case 5: f.template operator()<std::int64_t>(); break; case 6: f.template operator()<std::uint64_t>(); break; default: f.template operator()<unsigned>(); break;
    }
}
template<typename T> static T gen_int(pbt::Case& c)
{
    using L = std::numeric_limits<T>;
    switch (c.raw(6))
    {
        case 0: return T(c.range(0, 20)); case 1: return L::min(); case 2: return L::max(); case 3: return T(L::max() - T(c.range(0, 20))); case 4: return T(L::min() + T(c.range(0, 20)));
        default: return T(c.raw(~0ull));
    }
}
// A closed range of T, small or large, anywhere.
template<typename T> static std::pair<T, T> gen_range(pbt::Case& c, bool half_open)
{
    T a = gen_int<T>(c), b;
    if (c.flip()) { const int w = int(c.range(0, 40)); b = T(std::min<i128>(i128(std::numeric_limits<T>::max()), i128(a) + w)); }
    else b = gen_int<T>(c);
    if (b < a) std::swap(a, b);
    (void)half_open;
    c.os << "[" << +a << ", " << +b << "] of " << sizeof(T) << (std::is_signed_v<T> ? "i " : "u ");
    return { a, b };
}
static void seed(pbt::Case& c) { const auto s = c.raw(~0ull); rng::prng.seed(s); c.show("seed", s); }

template<typename T> static void ints(pbt::Case& c)
{
    const auto [a, b] = gen_range<T>(c, false); seed(c);
    const i128 len = i128(b) - i128(a) + 1; c.nontrivial(len >= 2);
    const size_t N = 1200; const int K = int(std::min<i128>(len, 16));
    std::vector<size_t> part(K), mod(K); 
    for (size_t k = 0; k < N; k++)
    {
        const T x = rng::randomInt<T>(a, b);
        PBT_CHECK(a <= x && x <= b, "randomInt returned ", +x);
        const i128 off = i128(x) - i128(a); part[size_t(u128(off) * u128(K) / u128(len))]++; mod[size_t(off % K)]++;
    }
    for (int k = 0; k < K; k++)
    {
        const auto lo = (u128(k) * u128(len) + K - 1) / K, hi = (u128(k + 1) * u128(len) + K - 1) / K;
        PBT_CHECK(plausible_count(double(part[k]), N, double(hi - lo) / double(len)), "randomInt: part ", k, " of ", K, " of the range was hit ", part[k], " of ", N, " times");
        const auto cnt = u128(len) / K + (u128(k) < u128(len) % K);
        PBT_CHECK(plausible_count(double(mod[k]), N, double(cnt) / double(len)), "randomInt: offsets congruent to ", k, " modulo ", K, " were hit ", mod[k], " of ", N, " times");
    }
}
PBT_PROP(integers, 4000, 150000) { for_int(c, [&]<typename T>() { ints<T>(c); }); }

template<typename T> static T gen_real(pbt::Case& c)
{
    using L = std::numeric_limits<T>;
    switch (c.raw(7))
    {
        case 0: return T(c.range(-10, 10)); case 1: return (c.flip() ? 1 : -1) * c.pick({ L::max(), L::min(), L::denorm_min(), L::epsilon(), L::max() / 2 }); case 2: return T(c.range(-1000, 1000)) / 64;
        case 3: return T(c.range(-99, 99)) * std::pow(T(10), T(int(c.range(-30, 30)))); default: return T(c.range(-100, 100)) / 10;
    }
}
template<typename T> static void reals(pbt::Case& c, const char* name)
{
    T a = gen_real<T>(c), b = gen_real<T>(c); c.os << name;
    if (c.chance(1, 4)) { b = a; const int k = int(c.range(0, 5)); for (int i = 0; i < k; i++) b = std::nextafter(b, std::numeric_limits<T>::infinity()); }
    if (b < a) std::swap(a, b);
    if (std::isinf(b)) b = a;
    c.os.precision(21); c.os << "[" << a << ", " << b << "] "; seed(c);
    c.nontrivial(a < b);
    const size_t N = 800; const T half = a / 2 + b / 2, quarter = half / 2 + a / 2; size_t lo = 0, q = 0, u = 0, e = 0, fine = 0;
    bool spread = b > a && (long double)b - a > 1000 * (long double)std::max(std::abs(a), std::abs(b)) * std::numeric_limits<T>::epsilon() && (long double)b - a > 1000 * (long double)std::numeric_limits<T>::denorm_min();
    for (size_t k = 0; k < N; k++)
    {
        const T x = rng::randomReal<T>(a, b);
        PBT_CHECK(a <= x && (x < b || a == b) && x <= b, "randomReal returned ", x);
        lo += x < half; q += x < quarter;
        const T y = rng::randomReal<T>();
        PBT_CHECK(T(0) <= y && y < T(1), "randomReal returned ", y, " instead of a value in [0, 1)");
        u += y < T(0.5); e += y < T(0.0625); { const T z = y * 1024; fine += z - std::floor(z) < T(0.5); }
    }
    if (spread) PBT_CHECK(plausible_count(double(lo), N, 0.5) && plausible_count(double(q), N, 0.25), "randomReal: ", lo, " of ", N, " values in the lower half, ", q, " in the lower quarter");
    PBT_CHECK(plausible_count(double(u), N, 0.5) && plausible_count(double(e), N, 0.0625) && plausible_count(double(fine), N, 0.5), "randomReal: ", u, " of ", N, " values below 1/2, ", e, " below 1/16, ", fine, " in the even fine cells");
}
PBT_PROP(real_numbers, 4000, 150000) { switch (c.raw(4)) { case 0: reals<float>(c, "float "); break; case 1: reals<long double>(c, "long double "); break; default: reals<double>(c, "double "); break; } }

static double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
PBT_PROP(bools_normals_poissons, 3000, 100000)
{
    seed(c); const size_t N = 1500;
    { size_t t = 0, same = 0; bool prev = rng::randomBool(); for (size_t k = 0; k < N; k++) { const bool b = rng::randomBool(); t += b; same += b == prev; prev = b; } PBT_CHECK(plausible_count(double(t), N, 0.5) && plausible_count(double(same), N, 0.5), "randomBool: ", t, " of ", N, " are true, ", same, " equal the one before"); }
    {
        const double m = gen_real<double>(c) , s = std::abs(gen_real<double>(c)); c.show("mean", m).show("sd", s);
        size_t cnt[7] = {};
        const bool sane = std::abs(m) < 1e100 && s < 1e100 && s > 1e-10 * std::abs(m) && s > 1e-100;
        for (size_t k = 0; k < N; k++) { const double x = rng::randomNormal(m, s); if (s == 0) PBT_CHECK(x == m, "randomNormal returned ", x); if (sane) for (int j = 0; j < 7; j++) cnt[j] += x < m + s * (j - 3); }
        if (sane) for (int j = 0; j < 7; j++) PBT_CHECK(plausible_count(double(cnt[j]), N, phi(j - 3)), "randomNormal: ", cnt[j], " of ", N, " values below mean + ", j - 3, " sd");
    }
    {
        size_t cnt[5] = {}, cm[5] = {}; const float m = float(c.range(-3, 3));
        const size_t N = c.chance(1, 8) ? 100000 : 1500;
        for (size_t k = 0; k < N; k++) { const double x = rng::randomNormal(); const float y = rng::randomNormal<float>(m); for (int j = 0; j < 5; j++) { cnt[j] += x < j - 2; cm[j] += y < m + float(j - 2); } }
        for (int j = 0; j < 5; j++) PBT_CHECK(plausible_count(double(cnt[j]), N, phi(j - 2)) && plausible_count(double(cm[j]), N, phi(j - 2)), "randomNormal with default parameters: ", cnt[j], " and ", cm[j], " of ", N, " values below ", j - 2, " sd");
    }
    {
        const double mean = c.pick({ 0.1, 1e-9, 1.0, 3.7, 9.9, 12.0, 40.0, 1000.0 }); c.show("poisson", mean);
        std::map<int, size_t> cnt; for (size_t k = 0; k < N; k++) { const int x = rng::randomPoisson<int>(mean); PBT_CHECK(x >= 0, "randomPoisson returned ", x); cnt[x]++; if (c.chance(1, 400)) rng::randomPoisson<unsigned>(2.5); }
        size_t below = 0; double p = 0;
        for (int x = 0; x < mean + 20 * std::sqrt(mean) + 20; x++) { p += std::exp(-mean + x * std::log(mean) - std::lgamma(x + 1.0)); below += cnt[x]; PBT_CHECK(plausible_count(double(below), N, p), "randomPoisson: ", below, " of ", N, " values are at most ", x, " for mean ", mean); }
    }
    c.nontrivial();
}
// Draws with different parameters don't influence each other: in any order of the calls, each of them has its own distribution.
PBT_PROP(interleaved_parameters, 1500, 50000)
{
    seed(c); const size_t k = c.range(2, 4), N = 1500; std::vector<double> means;
    for (size_t i = 0; i < k; i++)
    {
        if (i == 0 || c.chance(1, 3)) means.push_back(c.pick({ 0.01, 0.1, 1.0, 3.7, 9.9, 12.0, 40.0, 300.0 }));
        else means.push_back(c.pick(means) * c.pick({ 1.5, 0.6, 1.2, 3.0, 1.05 }) + c.pick({ 0.0, 0.04, 0.0 }));
    }
    const double nm = double(c.range(-3, 3)), ns = c.pick({ 1.0, 2.0, 0.1 }); c.showv("means", means);
    const int period = int(c.pick({ 0, 1, 7 })); // random order, round robin, blocks
    std::vector<std::map<int, size_t>> cnt(k); std::vector<size_t> total(k); size_t pos[3] = {}, normals = 0;
    for (size_t j = 0; j < N * k; j++)
    {
        const size_t i = period == 0 ? size_t((j * 2654435761u >> 7) % k) : (j / size_t(period)) % k;
        cnt[i][rng::randomPoisson<int>(means[i])]++; total[i]++;
        if (j % 3 == 0) { const double x = rng::randomNormal(nm + double(i), ns * double(i + 1)); normals++; for (int q = 0; q < 3; q++) pos[q] += (x - nm - double(i)) / (ns * double(i + 1)) < q - 1; }
    }
    for (int q = 0; q < 3; q++) PBT_CHECK(plausible_count(double(pos[q]), double(normals), phi(q - 1)), "randomNormal with changing parameters: ", pos[q], " of ", normals, " values below mean + ", q - 1, " sd");
    for (size_t i = 0; i < k; i++)
    {
        const double mean = means[i]; size_t below = 0; double p = 0;
        for (int x = 0; x < mean + 20 * std::sqrt(mean) + 20; x++) { p += std::exp(-mean + x * std::log(mean) - std::lgamma(x + 1.0)); below += cnt[i][x]; PBT_CHECK(plausible_count(double(below), double(total[i]), std::min(p, 1.0)), "randomPoisson with changing means: ", below, " of ", total[i], " values are at most ", x, " for mean ", mean); }
    }
    c.nontrivial();
}
template<typename T> static void binomials(pbt::Case& c)
{
    const T n = T(c.pick({ c.range(0, 6), c.range(5, 60), c.range(45, 60), c.range(60, 120), 5, 6, 50, 51 })); const double p = c.pick({ double(c.range(0, 100)) / 100, 0.0, 1.0, 0.2, 0.19, 1e-300, 1.0 - 1e-16, double(c.range(0, 100)) / 10000 });
    c.show("n", +n).show("p", p); seed(c); c.nontrivial(n >= 2 && p > 0 && p < 1);
    const size_t N = 1000; std::vector<size_t> cnt(size_t(n) + 1);
    for (size_t k = 0; k < N; k++) { const T x = rng::randomBinomial<T>(n, p); PBT_CHECK(T(0) <= x && x <= n, "randomBinomial returned ", +x); cnt[size_t(x)]++; if (p == 0) PBT_CHECK(x == 0, "p = 0 gives ", +x); if (p == 1) PBT_CHECK(x == n, "p = 1 gives ", +x); }
    if (p == 0 || p == 1) return;
    double cdf = 0; size_t below = 0; const double slack = n <= T(5) ? 0 : n <= T(50) ? 0.11 : 0.09;
    for (size_t x = 0; x < size_t(n); x++)
    {
        cdf += std::exp(std::lgamma(n + 1.0) - std::lgamma(x + 1.0) - std::lgamma(n - x + 1.0) + x * std::log(p) + (n - x) * std::log1p(-p)); below += cnt[x];
        const double f = double(below) / N;
        PBT_CHECK(std::abs(f - cdf) <= slack || plausible_count(double(below), N, f < cdf ? cdf - slack : cdf + slack), "randomBinomial: ", below, " of ", N, " values are at most ", x, " instead of ", cdf * N);
    }
}
PBT_PROP(binomial_numbers, 4000, 150000) { for_int(c, [&]<typename T>() { binomials<T>(c); }); }

PBT_PROP(elements, 3000, 100000)
{
    const size_t n = c.size(1, 40); seed(c); c.show("n", n); c.nontrivial(n >= 2);
    std::vector<size_t> v(n); std::iota(v.begin(), v.end(), 0); std::list<size_t> l(v.begin(), v.end()); const size_t N = 1000; std::vector<size_t> a(n), b(n), d(n);
    small_vector<size_t> sv(v.begin(), v.end());
    for (size_t k = 0; k < N; k++)
    {
        const size_t i = k % 2 ? rng::randomIndex(v) : rng::randomIndex(sv); PBT_CHECK(i < n, "randomIndex returned ", i); a[i]++;
        const auto it = rng::randomElement(v.begin(), v.end()); PBT_CHECK(it >= v.begin() && it < v.end(), "randomElement is outside"); b[*it]++;
        const auto li = rng::randomElement(l.begin(), l.end()); PBT_CHECK(li != l.end(), "randomElement returned the end"); d[*li]++;
    }
    for (size_t i = 0; i < n; i++) PBT_CHECK(plausible_count(double(a[i]), N, 1.0 / n) && plausible_count(double(b[i]), N, 1.0 / n) && plausible_count(double(d[i]), N, 1.0 / n), "element ", i, " of ", n, " was picked ", a[i], ", ", b[i], " and ", d[i], " times of ", N);
}

template<typename T> static void unique_sample(pbt::Case& c, bool check)
{
    auto [a, b] = gen_range<T>(c, true);
    const i128 len = i128(b) - i128(a);
    size_t count;
    switch (c.raw(5)) { case 0: count = size_t(std::min<i128>(len, 3)); break; case 1: count = size_t(std::min<i128>(len, 4000)); break; case 2: count = size_t(std::min<i128>(len, i128(c.range(0, 300)))); break; case 3: count = len < 70000 ? size_t(len * 6 / 10) + c.raw(2) : 50; break; default: count = len < 70000 ? size_t(c.raw(std::uint64_t(len) + 1)) : size_t(c.range(0, 2000)); break; }
    count = size_t(std::min<i128>(count, len));
    c.show("count", count); seed(c); c.nontrivial(count >= 2);
    const int reps = check ? 1 : 3;
    // Single values, among them the ends of the range and the limits of the sampling loops, are contained with probability count/length.
    std::vector<T> probes; size_t drawn = 0; if (len >= 1) for (i128 x : { i128(0), len - 1, len / 2, len - i128(count), i128(count) - 1, i128(c.raw(std::uint64_t(std::min<i128>(len, i128(1) << 62)))) }) if (x >= 0 && x < len) probes.push_back(T(i128(a) + x));
    std::sort(probes.begin(), probes.end()); probes.erase(std::unique(probes.begin(), probes.end()), probes.end()); std::vector<size_t> hits(probes.size());
    auto probe = [&](const auto& sample) { drawn++; for (T x : sample) for (size_t i = 0; i < probes.size(); i++) hits[i] += x == probes[i]; };
    for (int r = 0; r < reps; r++)
    {
        const auto s = rng::sampleUnique<T>(a, b, count);
        PBT_CHECK(s.size() == count, "the sample has ", s.size(), " elements instead of ", count);
        probe(s);
        std::vector<T> v(s.begin(), s.end()); std::sort(v.begin(), v.end());
        for (T x : v) PBT_CHECK(a <= x && x < b, "the sample contains ", +x);
        const auto dup = std::adjacent_find(v.begin(), v.end()); PBT_CHECK(dup == v.end(), "the sample of ", count, " contains ", +*dup, " more than once");
    }
    // Values of the sample are spread evenly over the range.
    if (len >= 2 && count >= 1)
    {
        const size_t N = std::max<size_t>(1, 1500 / (count + 20)); size_t low = 0; const u128 half = u128(len) / 2; 
        for (size_t k = 0; k < N; k++) { const auto s = rng::sampleUnique<T>(a, b, count); probe(s); for (T x : s) low += u128(i128(x) - i128(a)) < half; }
        for (size_t i = 0; i < probes.size(); i++) PBT_CHECK(plausible_count(double(hits[i]), double(drawn), double(count) / double(len)), "unique samples: ", +probes[i], " was contained in ", hits[i], " of ", drawn, " samples");
        PBT_CHECK(plausible_count(double(low), double(N * count), double(half) / double(len)), "unique samples: ", low, " of ", N * count, " sampled values lie in the lower half of the range");
    }
}
PBT_PROP(unique_samples, 6000, 200000) { for_int(c, [&]<typename T>() { unique_sample<T>(c, false); }); }
// Ranges around the size where the implementation switches; dense samples from them.
PBT_PROP(unique_samples_of_large_ranges, 400, 15000)
{
    const std::int64_t base = c.pick({ std::int64_t(0), std::int64_t(-40000), std::numeric_limits<std::int64_t>::min() }); const size_t len = c.pick({ 65535, 65536, 65537, 80000, 200000 });
    const size_t count = c.pick({ size_t(c.range(100, 2000)), len / 4, len * 6 / 10, len * 9 / 10, len, size_t(2) }); c.show("base", base).show("len", len).show("count", count); seed(c); c.nontrivial();
    auto go = [&](auto a, auto b) { const auto s = rng::sampleUnique(a, b, count); PBT_CHECK(s.size() == count, "size ", s.size()); std::vector<bool> seen(len); size_t low = 0; for (auto x : s) { PBT_CHECK(a <= x && x < b, "the sample contains ", x); const size_t i = size_t(x - a); PBT_CHECK(!seen[i], "the sample contains ", x, " more than once"); seen[i] = true; low += i < len / 2; } PBT_CHECK(plausible_count(double(low), double(count), double(len / 2) / double(len)), low, " of ", count, " sampled values in the lower half"); };
    if (base > -100000 && c.flip()) go(int(base), int(base + std::int64_t(len))); else go(base, std::int64_t(base + std::int64_t(len)));
}
// Every subset of a small range is equally likely.
PBT_PROP(unique_subsets, 600, 20000)
{
    const int n = int(c.range(1, 7)), k = int(c.range(0, n)), base = int(c.range(-3, 3)); c.show("n", n).show("k", k); seed(c); c.nontrivial(k && k < n);
    const size_t N = 4000; std::map<unsigned, size_t> cnt; for (size_t r = 0; r < N; r++) { unsigned m = 0; for (int x : rng::sampleUnique(base, base + n, size_t(k))) m |= 1u << (x - base); cnt[m]++; }
    double total = 1; for (int i = 0; i < k; i++) total = total * (n - i) / (i + 1);
    for (unsigned m = 0; m < (1u << n); m++) if (std::popcount(m) == k) PBT_CHECK(plausible_count(double(cnt[m]), N, 1 / total), "subset ", std::bitset<7>(m).to_string(), " was sampled ", cnt[m], " of ", N, " times, there are ", total);
}
template<typename T> static void weighted(pbt::Case& c)
{
    const size_t n = c.size(1, 20); std::vector<T> cdf; T sum = 0; std::vector<double> w; const T scale = c.pick({ T(1), T(1), T(0.001), T(1e6), T(1e-37) });
    for (size_t i = 0; i < n; i++) { const int x = c.chance(1, 3) ? 0 : int(c.range(1, 20)); w.push_back(x); sum += T(x) * scale; cdf.push_back(sum); }
    if (sum == 0) { cdf.back() = sum = scale; w.back() = 1; }
    if (c.flip()) { for (auto& x : cdf) x /= sum; }
    double total = 0; for (double x : w) total += x;
    c.showv("w", w).show("scale", scale); seed(c); size_t pos = 0; for (double x : w) pos += x > 0; c.nontrivial(pos >= 2);
    const size_t N = 1500; std::vector<size_t> cnt(n);
    for (size_t k = 0; k < N; k++) { const size_t i = rng::sampleCdf(std::span<const T>(cdf)); PBT_CHECK(i < n, "sampleCdf returned ", i, " of ", n); PBT_CHECK(w[i] > 0, "sampleCdf returned element ", i, " of weight zero"); cnt[i]++; }
    for (size_t i = 0; i < n; i++) PBT_CHECK(plausible_count(double(cnt[i]), N, w[i] / total), "sampleCdf: element ", i, " was picked ", cnt[i], " of ", N, " times with a weight of ", w[i], " of ", total);
}
PBT_PROP(weighted_samples, 4000, 150000) { if (c.chance(1, 4)) weighted<float>(c); else weighted<double>(c); }

// Generators: the published algorithms, and jumps as powers of the (linear) transition.
using Vec = std::bitset<128>; using Mat = std::array<Vec, 128>; // columns
static Vec mul(const Mat& m, const Vec& v) { Vec r; for (int i = 0; i < 128; i++) if (v[i]) r ^= m[i]; return r; }
static Mat mul(const Mat& a, const Mat& b) { Mat r; for (int i = 0; i < 128; i++) r[i] = mul(a, b[i]); return r; }
static Vec pack(std::uint64_t a, std::uint64_t b) { Vec v; for (int i = 0; i < 64; i++) { v[i] = a >> i & 1; v[64 + i] = b >> i & 1; } return v; }
static void step(std::uint64_t s[2]) { const std::uint64_t s0 = s[0]; std::uint64_t s1 = s[1]; s1 ^= s0; s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16); s[1] = (s1 << 37) | (s1 >> 27); }
static const std::vector<Mat>& powers() // T^(2^k)
{
    static const std::vector<Mat> p = [] { std::vector<Mat> v(97); for (int i = 0; i < 128; i++) { std::uint64_t s[2] = { i < 64 ? 1ull << i : 0, i < 64 ? 0 : 1ull << (i - 64) }; step(s); v[0][i] = pack(s[0], s[1]); } for (int k = 1; k <= 96; k++) v[k] = mul(v[k - 1], v[k - 1]); return v; }();
    return p;
}
static std::uint64_t splitmix_ref(std::uint64_t& x) { std::uint64_t z = (x += 0x9e3779b97f4a7c15); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9; z = (z ^ (z >> 27)) * 0x94d049bb133111eb; return z ^ (z >> 31); }
PBT_PROP(generators, 600, 20000)
{
    std::uint64_t s = c.pick<std::uint64_t>({ c.raw(~0ull), 0ull, ~0ull, 1ull }); c.show("seed", s); c.nontrivial();
    rng::Splitmix64 sm(s); rng::Xoroshiro128p x(s); const auto start = s;
    std::uint64_t r[2]; { std::uint64_t t = s; r[0] = splitmix_ref(t); r[1] = splitmix_ref(t); }
    for (int i = 0; i < 20; i++) { const auto w = splitmix_ref(s); const auto g = sm(); PBT_CHECK(g == w, "Splitmix64 output ", i, " is ", g, " instead of ", w); }
    for (int round = 0; round < 3; round++)
    {
        for (int i = 0; i < 10; i++) { const std::uint64_t w = r[0] + r[1]; step(r); const auto g = x(); PBT_CHECK(g == w, "Xoroshiro128+ output ", i, " of round ", round, " is ", g, " instead of ", w); }
        const int kind = c.raw(3); if (kind == 2) continue;
        const Vec v = mul(powers()[kind ? 96 : 64], pack(r[0], r[1])); r[0] = r[1] = 0; for (int i = 0; i < 64; i++) { r[0] |= std::uint64_t(v[i]) << i; r[1] |= std::uint64_t(v[64 + i]) << i; }
        if (kind) x.jump(); else x.short_jump(); c.os << (kind ? "jump " : "short_jump ");
    }
    rng::Xoroshiro128p y(1); y.seed(start); PBT_CHECK(y == rng::Xoroshiro128p(start), "seed() differs from construction");
}
// Seeding the library's generator determines everything that is drawn from it afterwards.
PBT_PROP(seeding, 3000, 100000)
{
    const auto s = c.raw(~0ull); const size_t n = c.size(1, 30), junk = c.size(0, 20); std::vector<int> ops(n); for (auto& o : ops) o = c.raw(7); c.show("seed", s).show("n", n).show("junk", junk); c.nontrivial(n >= 3);
    auto draw = [&](int o) -> double { switch (o) { case 0: return rng::randomBool(); case 1: return rng::randomInt(0, 1 << 20); case 2: return rng::randomReal(); case 3: return rng::randomNormal(); case 4: return rng::randomPoisson<int>(3.0); case 5: return rng::randomBinomial(100, 0.05); default: return double(rng::sampleUnique(0, 1000, 3)[1]); } };
    std::vector<double> a, b; rng::prng.seed(s); for (int o : ops) a.push_back(draw(o)); for (size_t i = 0; i < junk; i++) draw(c.raw(7));
    rng::prng.seed(s); for (int o : ops) b.push_back(draw(o)); PBT_CHECK(a == b, "the same seed gives ", pbt::str(a), " and then ", pbt::str(b));
    rng::prng.seed(s); const auto x = rng::prng(); rng::prng.seed(s + 1 + c.raw(100)); PBT_CHECK(x != rng::prng(), "different seeds give the same output");
}
