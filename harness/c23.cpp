#include "pbt.hpp"
#include "gapp.hpp"
#include "utility/math.hpp"
#include <cmath>
#include <optional>
#include <set>
#include <cstring>
using namespace gapp;
PBT_RULE("A case is a tolerance setting with pairs of numbers or vectors; it is non-trivial if some pair differs by an amount between zero and a thousand times the tolerance (so that the tolerance decides), or contains an infinity or a zero.");
PBT_ASSUME("No NaN is compared, the relative tolerance is at most 1, and no particular result is required for pairs whose difference equals the tolerance up to rounding (the comparisons still have to agree with each other).");

template<typename T> static T gen_num(pbt::Case& c)
{
    using L = std::numeric_limits<T>;
    switch (c.raw(10))
    {
        case 0: return T(c.range(-3, 3));
        case 1: return c.flip() ? T(0) : -T(0);
        case 2: return c.flip() ? L::infinity() : -L::infinity();
        case 3: return (c.flip() ? T(1) : T(-1)) * c.pick({ L::max(), L::min(), L::denorm_min(), L::epsilon(), L::max() / 2 });
        case 4: return T(c.range(-1000000, 1000000)) / T(1024);
        case 5: { const int e = int(c.range(-60, 60)); return T(c.range(-999, 999)) * std::pow(T(10), std::is_same_v<T, float> ? T(e) / 2 : T(e)); }
        default: return T(c.range(-20, 20)) * c.pick({ T(1), T(0.1), T(1e-12), T(1e-10), T(1e6) });
    }
}
template<typename T> static T near(pbt::Case& c, T a, double abs_tol, double rel_tol)
{
    if (!std::isfinite(a)) return c.flip() ? a : gen_num<T>(c);
    switch (c.raw(7))
    {
        case 0: return a;
        case 1: { T b = a; const int k = int(c.range(1, 6)); const T to = c.flip() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); for (int i = 0; i < k; i++) b = std::nextafter(b, to); return b; }
        case 2: return T(a + abs_tol * double(c.range(-40, 40)) / 16);
        case 3: return T(a + std::abs(double(a)) * rel_tol * double(c.range(-40, 40)) / 16);
        case 4: return T(a * (1 + (c.flip() ? 1 : -1) * std::pow(2.0, -double(c.range(1, 60)))));
        case 5: return -a;
        default: return gen_num<T>(c);
    }
}
struct Tols { double a, r; };
static Tols gen_tols(pbt::Case& c)
{
    Tols t = { 1e-12, 10 * std::numeric_limits<double>::epsilon() };
    switch (c.raw(4))
    {
        case 0: break;
        case 1: t = { 0, 0 }; break;
        case 2: t = { c.pick({ 0.0, 1e-12, 1e-3, 1.0, 100.0 }), c.pick({ 0.0, 1e-15, 1e-6, 0.1, 1.0 }) }; break;
        default: t = { std::pow(2.0, double(c.range(-50, 10))), std::pow(2.0, double(c.range(-52, 0))) }; break;
    }
    c.show("abs", t.a).show("rel", t.r);
    return t;
}
// 1: definitely greater, -1: definitely less, 0: equal, 9: too close to the limit to say.
template<typename T> static int expect(T a, T b, Tols t)
{
    if (t.a == 0 && t.r == 0) return a < b ? -1 : a > b;
    if (std::isinf(a) || std::isinf(b)) return a < b ? -1 : a > b;
    if (a == b) return 0;
    const long double d = (long double)a - b, m = std::max(std::abs((long double)a), std::abs((long double)b)), tol = std::max((long double)t.r * m, (long double)t.a);
    const long double e = std::numeric_limits<T>::epsilon();
    if (std::abs(std::abs(d) - tol) <= 4 * e * tol + 4 * std::numeric_limits<T>::denorm_min()) return 9;
    return std::abs(d) <= tol ? 0 : d > 0 ? 1 : -1;
}
template<typename T> static bool interesting(T a, T b, Tols t) { if (std::isinf(a) || std::isinf(b) || a == 0 || b == 0) return true; const long double d = std::abs((long double)a - b), tol = std::max((long double)t.r * std::max(std::abs((long double)a), std::abs((long double)b)), (long double)t.a); return d > 0 && d < 1000 * tol; }
template<typename T> static int cmp(T a, T b) { const auto o = math::floatCompare(a, b); return o < 0 ? -1 : o > 0 ? 1 : 0; }

template<typename T> static void pair(T a, T b, Tols t)
{
    auto say = [&](auto... x) { std::ostringstream s; s.precision(std::numeric_limits<T>::max_digits10); (s << ... << x); s << " for " << a << " and " << b; pbt::fail(s.str()); };
    const int k = cmp(a, b); const bool lt = math::floatIsLess(a, b), eq = math::floatIsEqual(a, b), gt = math::floatIsGreater(a, b), le = math::floatIsLessEq(a, b), ge = math::floatIsGreaterEq(a, b);
    if (lt + eq + gt != 1) say("not exactly one of less (", lt, "), equal (", eq, ") and greater (", gt, ") holds");
    if (k != (lt ? -1 : gt)) say("the three-way comparison is ", k, " but less=", lt, " equal=", eq, " greater=", gt);
    if (le != !gt || ge != !lt) say("less-or-equal ", le, " and greater-or-equal ", ge, " with less=", lt, " greater=", gt);
    if (cmp(b, a) != -k || math::floatIsLess(b, a) != gt || math::floatIsGreater(b, a) != lt || math::floatIsEqual(b, a) != eq || math::floatIsLessEq(b, a) != ge || math::floatIsGreaterEq(b, a) != le) say("swapping the arguments does not mirror the result");
    if (!gt && math::floatIsLessAssumeNotGreater(a, b) != lt) say("the less-than comparison that assumes not greater differs");
    if (!math::floatIsEqual(a, a) || cmp(a, a) != 0) say("a value is not equal to itself");
    const int w = expect(a, b, t);
    if (w != 9 && w != k) say("the comparison gives ", k, " instead of ", w);
}
template<typename T> static void numbers(pbt::Case& c)
{
    const Tols t = gen_tols(c); math::ScopedTolerances scope(t.a, t.r);
    for (int i = 0; i < 6; i++)
    {
        const T a = gen_num<T>(c), b = near<T>(c, a, t.a, t.r);
        c.os.precision(17); c.os << "(" << a << " " << b << ") ";
        if (std::isnan(a) || std::isnan(b)) continue;
        pair<T>(a, b, t);
        c.nontrivial(interesting(a, b, t));
    }
}
PBT_PROP(doubles, 100000, 5000000) { numbers<double>(c); }
PBT_PROP(floats, 30000, 1000000) { numbers<float>(c); }
PBT_PROP(vectors, 60000, 3000000)
{
    const Tols t = gen_tols(c); math::ScopedTolerances scope(t.a, t.r);
    const size_t n = c.wide(0, 8, 64);
    std::vector<double> a, b;
    const int mode = c.raw(4); // mostly one-sided vectors, so that dominance is decided by few elements
    for (size_t i = 0; i < n; i++)
    {
        double x = gen_num<double>(c), y = c.chance(1, 3) ? x : near<double>(c, x, t.a, t.r);
        if (std::isnan(x) || std::isnan(y)) x = y = 0;
        if (mode == 1 && cmp(x, y) < 0) std::swap(x, y);
        if (mode == 2 && cmp(x, y) > 0) std::swap(x, y);
        a.push_back(x); b.push_back(y); c.nontrivial(interesting(x, y, t));
    }
    c.os.precision(17); c.os << pbt::str(a) << " " << pbt::str(b);
    bool lower = false, higher = false, equal = true, sure = true;
    for (size_t i = 0; i < n; i++) { const int k = cmp(a[i], b[i]), w = expect(a[i], b[i], t); sure &= w != 9; const int use = w == 9 ? k : w; lower |= use < 0; higher |= use > 0; equal &= use == 0; }
    const int want = lower == higher ? 0 : lower ? -1 : 1;
    const int k = math::paretoCompare(a, b), r = math::paretoCompare(b, a);
    PBT_CHECK(k == want, "the pareto comparison is ", k, " instead of ", want);
    PBT_CHECK(r == -k, "the pareto comparison is ", k, " but ", r, " the other way round");
    PBT_CHECK(math::paretoCompareLess(a, b) == (want < 0) && math::paretoCompareLess(b, a) == (want > 0), "dominance: ", math::paretoCompareLess(a, b), " and ", math::paretoCompareLess(b, a), " with a pareto comparison of ", want);
    PBT_CHECK(math::paretoCompare(a, a) == 0 && !math::paretoCompareLess(a, a), "a vector dominates itself");
    PBT_CHECK(math::floatVecIsEqual<double>(a, b) == equal && math::floatVecIsEqual<double>(b, a) == equal, "vector equality is ", !equal);
    if (n) { auto d = a; d.pop_back(); PBT_CHECK(!math::floatVecIsEqual<double>(d, a) && !math::floatVecIsEqual<double>(a, d), "vectors of different lengths are equal"); }
}
struct Unwind {};
// Histories of nested tolerance scopes that end normally or by an exception.
static void nest(pbt::Case& c, int depth, Tols now)
{
    auto same = [&](const char* when) { for (double at : { 1.0, -3.0, 1e10 }) PBT_CHECK(math::Tolerances::abs() == now.a && math::Tolerances::rel(at) == now.r * at, "tolerances ", math::Tolerances::abs(), " ", math::Tolerances::rel(1.0), " instead of ", now.a, " ", now.r, " ", when); PBT_CHECK(math::floatIsEqual(0.0, now.a) && (now.a == 0 || !math::floatIsEqual(0.0, 3 * now.a) || 3 * now.a * now.r >= 3 * now.a), "comparison ", when); };
    same("at the start of a scope");
    const int k = depth > 4 ? 0 : int(c.range(0, 2));
    for (int i = 0; i < k; i++)
    {
        const Tols t = { c.pick({ 0.0, 1e-12, 0.5, 1e-3 }), c.pick({ 0.0, 1e-15, 0.25, 1e-6 }) }; c.os << "{" << t.a << " " << t.r; c.nontrivial();
        try { math::ScopedTolerances s(t.a, t.r); nest(c, depth + 1, t); if (c.chance(1, 4)) { c.os << "!"; throw Unwind{}; } } catch (const Unwind&) {}
        c.os << "}";
        same("after a scope");
    }
}
PBT_PROP(scopes, 10000, 300000) { nest(c, 0, { 1e-12, 10 * std::numeric_limits<double>::epsilon() }); }

// Candidates compare by their chromosomes (real genes within the tolerances), whatever their fitness; equal chromosomes have equal hashes.
template<typename T> static void candidates(pbt::Case& c)
{
    const Tols t = gen_tols(c); math::ScopedTolerances scope(t.a, t.r);
    const size_t n = c.wide(0, 8, 100);
    auto gene = [&]() -> T { if constexpr (std::is_floating_point_v<T>) { const T x = gen_num<T>(c); return std::isnan(x) ? T(0) : x; } else return T(c.raw(3)); };
    Chromosome<T> a, b; for (size_t i = 0; i < n; i++) a.push_back(gene());
    b = a;
    switch (c.raw(6))
    {
        case 0: break;
        case 1: if (n) { const size_t i = c.raw(n); if constexpr (std::is_floating_point_v<T>) { const T y = near<T>(c, b[i], t.a, t.r); b[i] = std::isnan(y) ? T(1) : y; } else b[i] = T(b[i] + 1); } break;
        case 2: if (n) b.pop_back(); break;
        case 3: b.push_back(gene()); break;
        case 4: std::reverse(b.begin(), b.end()); break;
        default: for (auto& x : b) x = gene(); break;
    }
    c.os.precision(17); c.os << pbt::str(a) << " " << pbt::str(b); c.nontrivial(n >= 1);
    bool equal = a.size() == b.size(), sure = true;
    if (equal) for (size_t i = 0; i < a.size(); i++) { if constexpr (std::is_floating_point_v<T>) { const int k = expect<T>(a[i], b[i], t); sure &= k != 9; equal &= k == 0 || k == 9; } else equal &= a[i] == b[i]; }
    Candidate<T> x(a), y(b), z(std::vector<T>(b.begin(), b.end())); const Candidate<T> w(a.size());
    PBT_CHECK(x.chromosome == a && y.chromosome == b && z.chromosome == b && w.chromosome == Chromosome<T>(a.size()) && x.fitness.empty() && !x.is_evaluated && !w.is_evaluated, "a new candidate");
    if (sure) PBT_CHECK((x == y) == equal && (y == x) == equal && (x != y) == !equal, "candidates are ", equal ? "not " : "", "equal");
    else PBT_CHECK((x == y) == (y == x) && (x == y) != (x != y), "candidate equality is not symmetric");
    PBT_CHECK(x == x && y == z, "a candidate differs from itself");
    const auto hx = std::hash<Candidate<T>>{}(x), hy = std::hash<Candidate<T>>{}(y);
    if (a == b) PBT_CHECK(hx == hy, "equal chromosomes have the hashes ", hx, " and ", hy);
    // Neither depends on anything else.
    x.fitness = { 1.0, c.unit() }; x.is_evaluated = c.flip(); if (c.flip()) y.fitness = { -1.0 };
    if (sure) PBT_CHECK((x == y) == equal, "the equality of candidates depends on their fitness");
    PBT_CHECK(std::hash<Candidate<T>>{}(x) == hx && CandidateHasher<T>{}(x) == hx, "the hash of a candidate depends on its fitness");
    // Copies and moves keep all of it.
    Candidate<T> copy = x, moved = std::move(copy), assigned; assigned = moved;
    PBT_CHECK(moved.chromosome == a && moved.fitness == x.fitness && moved.is_evaluated == x.is_evaluated && assigned.chromosome == a && assigned.fitness == x.fitness && assigned.is_evaluated == x.is_evaluated, "a copy differs from the candidate");
    // All candidates don't have the same hash.
    std::set<size_t> hashes; for (size_t i = 0; i < 32; i++) { Chromosome<T> v(8); for (size_t k = 0; k < 8; k++) v[k] = T((i >> (k % 5)) & 1); v[7] = T(1); hashes.insert(CandidateHasher<T>{}(Candidate<T>(v))); } PBT_CHECK(hashes.size() >= 8, "32 chromosomes have ", hashes.size(), " hashes");
}
PBT_PROP(candidate_equality, 20000, 500000) { switch (c.raw(4)) { case 0: candidates<BinaryGene>(c); break; case 1: candidates<IntegerGene>(c); break; case 2: candidates<PermutationGene>(c); break; default: candidates<RealGene>(c); break; } }
