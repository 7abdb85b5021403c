#include "ctx.hpp"
#include <csetjmp>
using namespace gapp;
PBT_RULE("A case is one operator with a rate applied to generated parents or candidates, or one parameter value given to a bounded parameter type; it is non-trivial if the parents or the mutated chromosome differ from the original ones, or if the parameter value is not a plain interior one.");
PBT_ASSUME("Rates are tested with Chernoff bounds at a false-alarm probability below 1e-12 per comparison.");
PBT_ASSUME("Acceptance of parameter values is observed as in a build with assertions (a value outside of the range fails an assertion).");

template<typename T> using V = std::vector<T>;
template<typename T> static V<T> vec(const Chromosome<T>& c) { return V<T>(c.begin(), c.end()); }
template<typename T> struct E;
template<> struct E<BinaryGene> { using GA_t = BinaryGA; static constexpr const char* name = "binary"; };
template<> struct E<IntegerGene> { using GA_t = IntegerGA; static constexpr const char* name = "integer"; };
template<> struct E<RealGene> { using GA_t = RCGA; static constexpr const char* name = "real"; };
template<> struct E<PermutationGene> { using GA_t = PermutationGA; static constexpr const char* name = "permutation"; };
template<typename T> static void prepare(typename E<T>::GA_t& ga, size_t n, size_t nobj)
{
    if constexpr (std::is_same_v<T, IntegerGene> || std::is_same_v<T, RealGene>) ctx::run(ga, BoundsVector<T>(n, Bounds<T>{ T(-4), T(4) }), nobj); else ctx::run(ga, n, nobj);
}
template<typename T> static V<T> gen_chrom(pbt::Case& c, size_t n)
{
    V<T> v(n);
    if constexpr (std::is_same_v<T, PermutationGene>) { auto p = c.perm(n); for (size_t i = 0; i < n; i++) v[i] = T(p[i]); }
    else if constexpr (std::is_same_v<T, BinaryGene>) for (auto& x : v) x = T(c.raw(2));
    else if constexpr (std::is_same_v<T, RealGene>) for (auto& x : v) x = T(c.range(-8, 8)) / 2;
    else for (auto& x : v) x = T(c.range(-4, 4));
    return v;
}
// Sometimes equal, sometimes nearly equal.
template<typename T> static V<T> gen_other(pbt::Case& c, const V<T>& a)
{
    switch (c.raw(4))
    {
        case 0: return a;
        case 1: { V<T> b = a; if (b.size() < 2) return gen_chrom<T>(c, a.size()); if constexpr (std::is_same_v<T, PermutationGene>) std::swap(b[c.raw(b.size())], b[c.raw(b.size())]); else b[c.raw(b.size())] = gen_chrom<T>(c, 1)[0]; return b; }
        default: return gen_chrom<T>(c, a.size());
    }
}
static FitnessVector gen_fit(pbt::Case& c, size_t nobj) { FitnessVector f(nobj); for (auto& x : f) x = double(c.range(-3, 3)) + 0.25; return f; }
static double gen_rate(pbt::Case& c) { const double p = c.pick({ 1.0, 0.0, 0.5, 0.1, 0.9, 0.003, 0.7 }); c.show("rate", p); return p; }

template<typename T> static std::unique_ptr<crossover::Crossover<T>> builtin_crossover(pbt::Case& c, double p)
{
    using namespace crossover;
    if constexpr (std::is_same_v<T, BinaryGene>) switch (c.raw(4)) { case 0: return std::make_unique<binary::SinglePoint>(p); case 1: return std::make_unique<binary::TwoPoint>(p); case 2: return std::make_unique<binary::NPoint>(p, 3); default: return std::make_unique<binary::Uniform>(p); }
    else if constexpr (std::is_same_v<T, IntegerGene>) switch (c.raw(4)) { case 0: return std::make_unique<integer::SinglePoint>(p); case 1: return std::make_unique<integer::TwoPoint>(p); case 2: return std::make_unique<integer::NPoint>(p, 3); default: return std::make_unique<integer::Uniform>(p); }
    else if constexpr (std::is_same_v<T, RealGene>) switch (c.raw(4)) { case 0: return std::make_unique<real::Arithmetic>(p); case 1: return std::make_unique<real::BLXa>(p); case 2: return std::make_unique<real::SimulatedBinary>(p); default: return std::make_unique<real::Wright>(p); }
    else switch (c.raw(6)) { case 0: return std::make_unique<perm::Order1>(p); case 1: return std::make_unique<perm::Order2>(p); case 2: return std::make_unique<perm::Position>(p); case 3: return std::make_unique<perm::Cycle>(p); case 4: return std::make_unique<perm::Edge>(p); default: return std::make_unique<perm::PMX>(p); }
}
template<typename T> static std::unique_ptr<mutation::Mutation<T>> builtin_mutation(pbt::Case& c, double p)
{
    using namespace mutation;
    if constexpr (std::is_same_v<T, BinaryGene>) return std::make_unique<binary::Flip>(p);
    else if constexpr (std::is_same_v<T, IntegerGene>) return std::make_unique<integer::Uniform>(p);
    else if constexpr (std::is_same_v<T, RealGene>) switch (c.raw(5)) { case 0: return std::make_unique<real::Uniform>(p); case 1: return std::make_unique<real::NonUniform>(p); case 2: return std::make_unique<real::Gauss>(p); case 3: return std::make_unique<real::Polynomial>(p); default: return std::make_unique<real::Boundary>(p); }
    else switch (c.raw(5)) { case 0: return std::make_unique<perm::Inversion>(p); case 1: return std::make_unique<perm::Swap2>(p); case 2: return std::make_unique<perm::Swap3>(p); case 3: return std::make_unique<perm::Shuffle>(p); default: return std::make_unique<perm::Shift>(p); }
}

// A user defined crossover: counts its calls and returns whatever it is told to, with any flags and fitness.
template<typename T> struct MyCrossover final : crossover::Crossover<T>
{
    using crossover::Crossover<T>::Crossover;
    CandidatePair<T> result; mutable size_t calls = 0;
    constexpr bool allow_variable_chrom_length() const noexcept override { return true; }
    CandidatePair<T> crossover(const GA<T>&, const Candidate<T>&, const Candidate<T>&) const override { calls++; return result; }
};
template<typename T> static bool same(const Candidate<T>& a, const Candidate<T>& b) { return vec(a.chromosome) == vec(b.chromosome); }
// A child must be evaluated exactly if it is a copy of a parent, and have the fitness of that parent.
template<typename T> static void check_child(const Candidate<T>& k, const Candidate<T>& p1, const Candidate<T>& p2, const char* what)
{
    if (k.is_evaluated) PBT_CHECK((same(k, p1) && k.fitness == p1.fitness) || (same(k, p2) && k.fitness == p2.fitness), what, ": a child is marked as evaluated with fitness ", pbt::str(k.fitness), " but is not a copy of a parent with that fitness: ", ctx::vs(k.chromosome));
    else PBT_CHECK(!same(k, p1) && !same(k, p2), what, ": a child equal to a parent is not marked as evaluated: ", ctx::vs(k.chromosome));
}
template<typename T> static void crossovers(pbt::Case& c)
{
    const size_t n = c.wide(1, 20, 300), nobj = c.pick({ 1, 2, 3 }); const double p = gen_rate(c);
    const auto a = gen_chrom<T>(c, n), b = gen_other(c, a);
    c.os << E<T>::name << " p1=" << ctx::vs(a) << " p2=" << ctx::vs(b) << ' ';
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    typename E<T>::GA_t ga(1); prepare<T>(ga, n, nobj);
    auto p1 = ctx::cand(Chromosome<T>(a.begin(), a.end()), gen_fit(c, nobj)), p2 = ctx::cand(Chromosome<T>(b.begin(), b.end()), gen_fit(c, nobj));
    if (a == b && c.flip()) p2.fitness = p1.fitness;
    const auto q1 = p1, q2 = p2; const bool own = c.flip();
    c.nontrivial(a != b);
    if (own)
    {
        MyCrossover<T> op(c.flip() ? p : 0.123); op.crossover_rate(p);
        PBT_CHECK(double(op.crossover_rate()) == p, "crossover rate ", double(op.crossover_rate()));
        auto child = [&] { Candidate<T> k; switch (c.raw(4)) { case 0: k = p1; break; case 1: k = p2; break; default: { auto v = gen_other(c, c.flip() ? a : b); k.chromosome.assign(v.begin(), v.end()); } } if (c.flip()) k.fitness = FitnessVector(nobj, 99.0); k.is_evaluated = c.flip(); return k; };
        op.result.first = child(); op.result.second = child();
        c.os << "result " << ctx::vs(op.result.first.chromosome) << ' ' << ctx::vs(op.result.second.chromosome);
        for (int t = 0; t < 6; t++)
        {
            const size_t before = op.calls;
            auto [k1, k2] = op(ga, p1, p2);
            if (op.calls == before)
            {
                PBT_CHECK(p < 1.0 || a == b, "not performed with rate 1");
                PBT_CHECK(same(k1, p1) && same(k2, p2), "the crossover was not performed, but the children are not the parents");
            }
            else
            {
                PBT_CHECK(op.calls == before + 1, "performed ", op.calls - before, " times"); PBT_CHECK(p > 0.0, "performed with rate 0");
                PBT_CHECK(same(k1, op.result.first) && same(k2, op.result.second), "not the children that the operator returned");
            }
            check_child(k1, p1, p2, "user defined crossover"); check_child(k2, p1, p2, "user defined crossover");
        }
    }
    else
    {
        auto op = builtin_crossover<T>(c, p);
        PBT_CHECK(double(op->crossover_rate()) == p, "crossover rate ", double(op->crossover_rate()));
        for (int t = 0; t < 3; t++)
        {
            auto [k1, k2] = (*op)(ga, p1, p2);
            if constexpr (!std::is_same_v<T, RealGene>) { check_child(k1, p1, p2, "crossover"); check_child(k2, p1, p2, "crossover"); }
            else for (auto* k : { &k1, &k2 }) if (k->is_evaluated) PBT_CHECK((*k == p1 && k->fitness == p1.fitness) || (*k == p2 && k->fitness == p2.fitness), "a child is marked as evaluated but is not a copy of a parent"); else PBT_CHECK(!same(*k, p1) && !same(*k, p2), "a child equal to a parent is not marked as evaluated");
            if (p == 0.0 || a == b) PBT_CHECK(same(k1, p1) && same(k2, p2) && k1.is_evaluated && k2.is_evaluated, "the children are not the parents");
        }
    }
    PBT_CHECK(same(p1, q1) && same(p2, q2) && p1.fitness == q1.fitness && p2.fitness == q2.fitness && p1.is_evaluated && p2.is_evaluated, "a parent was modified");
}
PBT_PROP(crossover_flags, 100000, 5000000) { switch (c.raw(4)) { case 0: crossovers<BinaryGene>(c); break; case 1: crossovers<IntegerGene>(c); break; case 2: crossovers<PermutationGene>(c); break; default: crossovers<RealGene>(c); } }

// How often the crossover is performed.
PBT_PROP(crossover_rates, 2000, 100000)
{
    const double p = gen_rate(c); const size_t N = 4000; const auto a = gen_chrom<IntegerGene>(c, 5); auto b = a; b[c.raw(5)] += c.pick({ 1, -1 });
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    IntegerGA ga(1); prepare<IntegerGene>(ga, 5, 1);
    auto p1 = ctx::cand(Chromosome<IntegerGene>(a.begin(), a.end())), p2 = ctx::cand(Chromosome<IntegerGene>(b.begin(), b.end()));
    MyCrossover<IntegerGene> op(p); op.result = { p1, p2 };
    if (c.flip()) { size_t calls = 0; ga.crossover_method([&](const GA<IntegerGene>&, const Candidate<IntegerGene>& x, const Candidate<IntegerGene>& y) { calls++; return CandidatePair<IntegerGene>{ x, y }; }); ga.crossover_rate(p); PBT_CHECK(double(ga.crossover_rate()) == p, "rate"); }
    for (size_t t = 0; t < N; t++) op(ga, p1, p2);
    PBT_CHECK(pbt::plausible_count(double(op.calls), double(N), p) && (p > 0 || op.calls == 0) && (p < 1 || op.calls == N), "performed ", op.calls, " times of ", N, " with rate ", p);
    c.nontrivial(p > 0 && p < 1);
}

// ---- mutation
template<typename T> struct MyMutation final : mutation::Mutation<T>
{
    using mutation::Mutation<T>::Mutation;
    std::function<void(const GA<T>&, const Candidate<T>&, Chromosome<T>&)> f; mutable size_t calls = 0;
    constexpr bool allow_variable_chrom_length() const noexcept override { return true; }
    void mutate(const GA<T>& ga, const Candidate<T>& k, Chromosome<T>& x) const override { calls++; f(ga, k, x); }
};
template<typename T> static void mutations(pbt::Case& c)
{
    const size_t n = c.wide(1, 20, 300), nobj = c.pick({ 1, 2, 3 }); const double p = gen_rate(c);
    const auto a = gen_chrom<T>(c, n); const bool evaluated = c.flip();
    c.os << E<T>::name << " chrom=" << ctx::vs(a) << ' '; c.show("evaluated", evaluated);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    typename E<T>::GA_t ga(1); prepare<T>(ga, n, nobj);
    Candidate<T> k(Chromosome<T>(a.begin(), a.end())); const auto f = gen_fit(c, nobj);
    if (evaluated) { k.fitness = f; k.is_evaluated = true; }
    V<T> want; bool known = false;
    const int how = c.raw(3); c.show("how", how);
    if (how == 0)
    {
        auto op = builtin_mutation<T>(c, p);
        PBT_CHECK(double(op->mutation_rate()) == p, "mutation rate ", double(op->mutation_rate()));
        (*op)(ga, k);
        if (p == 0.0) { want = a; known = true; }
    }
    else
    {
        want = gen_other(c, a); known = true;
        if (c.chance(1, 5)) want.resize(c.size(0, 24), T(0)); // a change of the length
        auto inner = builtin_mutation<T>(c, 1.0); auto idle = builtin_mutation<T>(c, 0.0);
        V<V<T>> others; for (size_t i = c.size(0, 3); i > 0; i--) others.push_back(gen_chrom<T>(c, n));
        MyMutation<T> op(p);
        op.f = [&](const GA<T>& g, const Candidate<T>& cand, Chromosome<T>& x)
        {
            PBT_CHECK(&cand.chromosome == &x && vec(x) == a, "the operator did not receive the candidate to mutate");
            // An operator may make use of other operators.
            if (how == 2) for (auto& o : others) { auto t = ctx::cand(Chromosome<T>(o.begin(), o.end()), FitnessVector(nobj, 7.0)); (c.flip() ? *inner : *idle)(g, t); if (t.is_evaluated) PBT_CHECK(vec(t.chromosome) == o, "nested mutation: changed but still marked as evaluated"); }
            if (how == 2 && !others.empty() && c.flip()) want = others.back();
            x.assign(want.begin(), want.end());
        };
        op(ga, k);
        PBT_CHECK(op.calls == 1, "the operator was called ", op.calls, " times");
    }
    const bool unchanged = vec(k.chromosome) == a;
    if (known) PBT_CHECK(vec(k.chromosome) == want, "the chromosome is ", ctx::vs(k.chromosome), " instead of ", ctx::vs(want));
    if (evaluated)
    {
        if (unchanged) PBT_CHECK(k.is_evaluated && k.fitness == f, "unchanged by the mutation, but not marked as evaluated any more");
        else if constexpr (!std::is_same_v<T, RealGene>) PBT_CHECK(!k.is_evaluated, "changed by the mutation to ", ctx::vs(k.chromosome), ", but still marked as evaluated");
        else PBT_CHECK(!k.is_evaluated || math::floatVecIsEqual<double>(vec(k.chromosome), a), "changed by the mutation to ", ctx::vs(k.chromosome), ", but still marked as evaluated");
    }
    else PBT_CHECK(!k.is_evaluated, "marked as evaluated by the mutation");
    c.nontrivial(!unchanged);
}
PBT_PROP(mutation_flags, 100000, 5000000) { switch (c.raw(4)) { case 0: mutations<BinaryGene>(c); break; case 1: mutations<IntegerGene>(c); break; case 2: mutations<PermutationGene>(c); break; default: mutations<RealGene>(c); } }

// ---- parameter types
static sigjmp_buf g_jump; static volatile bool g_armed = false;
extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept
{
    if (g_armed) { g_armed = false; siglongjmp(g_jump, 1); }
    std::fprintf(stderr, "%s:%u: Assertion `%s' failed.\n", file, line, e); std::abort();
}
template<typename F> __attribute__((noinline)) static bool accepts(F f)
{
    if (sigsetjmp(g_jump, 0)) return false;
    g_armed = true; f(); g_armed = false;
    return true;
}
static double gen_param(pbt::Case& c)
{
    const double tiny = std::numeric_limits<double>::denorm_min(), big = std::numeric_limits<double>::max(), inf = std::numeric_limits<double>::infinity();
    switch (c.raw(5))
    {
        case 0: return c.pick({ 0.5, 0.25, 0.999, 0.001 });
        case 1: return c.pick({ 0.0, -0.0, 1.0, tiny, -tiny, std::nextafter(1.0, 2.0), std::nextafter(1.0, 0.0), 1e-300, -1e-300 });
        case 2: return c.pick({ inf, -inf, big, -big, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::lowest() });
        case 3: return c.real(-2, 3);
        default: return std::ldexp(c.real(-1, 1), c.range(-60, 60));
    }
}
template<typename B> static void param(double x, bool ok, const char* name)
{
    volatile double held = 0;
    const bool got = accepts([&] { B b(x); held = double(b); });
    PBT_CHECK(got == ok, name, got ? " accepts " : " does not accept ", x);
    if (ok) PBT_CHECK(held == x, name, " holds ", double(held), " instead of ", x);
}
PBT_PROP(parameter_ranges, 100000, 5000000)
{
    const double x = gen_param(c); c.os << "value " << x << ' ';
    const bool fin = std::isfinite(x);
    switch (c.raw(9))
    {
        case 0: param<Probability>(x, x >= 0 && x <= 1, "Probability"); break;
        case 1: param<Normalized<double>>(x, x >= 0 && x <= 1, "Normalized"); break;
        case 2: param<NonNegative<double>>(x, fin && x >= 0, "NonNegative"); break;
        case 3: param<Positive<double>>(x, fin && x > 0, "Positive"); break;
        case 4: param<Negative<double>>(x, fin && x < 0, "Negative"); break;
        case 5: param<BoundedValue<double, -1.5, 2.0>>(x, x >= -1.5 && x <= 2.0, "BoundedValue<-1.5, 2>"); break;
        case 6: { const size_t n = c.pick({ size_t(0), size_t(1), size_t(2), size_t(-1), size_t(c.raw(0)) }); c.show("n", n); PBT_CHECK(accepts([&] { Positive<size_t> p(n); }) == (n > 0), "Positive<size_t> with ", n); if (n) PBT_CHECK(size_t(Positive<size_t>(n)) == n, "Positive<size_t> holds another value than ", n); PBT_CHECK(accepts([&] { NonNegative<size_t> p(n); }), "NonNegative<size_t> with ", n); break; }
        case 7: { const int n = c.pick({ 0, 1, -1, std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), int(c.range(-20, 20)) }); c.show("n", n); PBT_CHECK(accepts([&] { Positive<int> p(n); }) == (n > 0), "Positive<int> with ", n); PBT_CHECK(accepts([&] { NonNegative<int> p(n); }) == (n >= 0), "NonNegative<int> with ", n); PBT_CHECK(accepts([&] { Negative<int> p(n); }) == (n < 0), "Negative<int> with ", n); PBT_CHECK(accepts([&] { BoundedValue<int, -3, 7> p(n); }) == (n >= -3 && n <= 7), "BoundedValue<int, -3, 7> with ", n); break; }
        default: { const double y = gen_param(c); c.os << ".. " << y << ' '; PBT_CHECK(accepts([&] { Bounds<double> b(x, y); }) == (x <= y), "Bounds from ", x, " to ", y); if (x <= y) { Bounds<double> b(x, y); PBT_CHECK(b.lower() == x && b.upper() == y, "Bounds"); } }
    }
    c.nontrivial(!(x > 0.01 && x < 0.99));
}
// The parameters of operators are the ones last set, and are independent of each other.
PBT_PROP(parameters_kept, 20000, 1000000)
{
    const double p = c.unit(), q = c.unit(), u = c.real(0, 9) + 1e-3, w = c.unit(), z = c.real(0, 9) + 1e-3, w2 = c.unit(); const size_t k = c.range<size_t>(1, 99), k2 = c.range<size_t>(1, 99);
    const bool set = c.flip(); c.show("p", p).show("q", q).show("u", u).show("z", z).show("k", k).show("set", set);
    auto xr = [&](auto& op) { PBT_CHECK(double(op.crossover_rate()) == p, "crossover rate"); if (set) { op.crossover_rate(q); PBT_CHECK(double(op.crossover_rate()) == q, "crossover rate after setting it"); } };
    auto mr = [&](auto& op) { PBT_CHECK(double(op.mutation_rate()) == p, "mutation rate"); if (set) { op.mutation_rate(q); PBT_CHECK(double(op.mutation_rate()) == q, "mutation rate after setting it"); } };
    auto par = [&](double got, double want, const char* what) { PBT_CHECK(got == want, what, " is ", got, " instead of ", want); };
    const int kind = c.raw(16); c.show("kind", kind);
    switch (kind)
    {
        case 0: { crossover::binary::NPoint o(p, k); xr(o); par(double(o.num_crossover_points()), double(k), "binary NPoint"); o.num_crossover_points(k2); par(double(o.num_crossover_points()), double(k2), "binary NPoint"); par(double(o.crossover_rate()), set ? q : p, "rate"); break; }
        case 1: { crossover::integer::NPoint o(p, k); xr(o); par(double(o.num_crossover_points()), double(k), "integer NPoint"); o.num_crossover_points(k2); par(double(o.num_crossover_points()), double(k2), "integer NPoint"); par(double(o.crossover_rate()), set ? q : p, "rate"); break; }
        case 2: { crossover::binary::Uniform o(p, w); xr(o); par(o.swap_probability(), w, "binary Uniform"); o.swap_probability(w2); par(o.swap_probability(), w2, "binary Uniform"); par(double(o.crossover_rate()), set ? q : p, "rate"); break; }
        case 3: { crossover::integer::Uniform o(p, w); xr(o); par(o.swap_probability(), w, "integer Uniform"); o.swap_probability(w2); par(o.swap_probability(), w2, "integer Uniform"); par(double(o.crossover_rate()), set ? q : p, "rate"); break; }
        case 4: { crossover::real::BLXa o(p, u); xr(o); par(o.alpha(), u, "BLXa"); o.alpha(z); par(o.alpha(), z, "BLXa"); par(double(o.crossover_rate()), set ? q : p, "rate"); break; }
        case 5: { crossover::real::SimulatedBinary o(p, u); xr(o); par(o.eta(), u, "SimulatedBinary"); o.eta(z); par(o.eta(), z, "SimulatedBinary"); par(double(o.crossover_rate()), set ? q : p, "rate"); break; }
        case 6: { mutation::real::NonUniform o(p, u); mr(o); par(o.beta(), u, "NonUniform"); o.beta(z); par(o.beta(), z, "NonUniform"); par(double(o.mutation_rate()), set ? q : p, "rate"); break; }
        case 7: { mutation::real::Gauss o(p, u); mr(o); par(o.sigma(), u, "Gauss"); o.sigma(z); par(o.sigma(), z, "Gauss"); par(double(o.mutation_rate()), set ? q : p, "rate"); break; }
        case 8: { mutation::real::Polynomial o(p, u); mr(o); par(o.eta(), u, "Polynomial"); o.eta(z); par(o.eta(), z, "Polynomial"); par(double(o.mutation_rate()), set ? q : p, "rate"); break; }
        case 9: { mutation::perm::Inversion o(p, w); mr(o); par(o.range_max(), w, "Inversion"); o.range_max(w2); par(o.range_max(), w2, "Inversion"); break; }
        case 10: { mutation::perm::Shuffle o(p, w); mr(o); par(o.range_max(), w, "Shuffle"); o.range_max(w2); par(o.range_max(), w2, "Shuffle"); break; }
        case 11: { mutation::perm::Shift o(p, w); mr(o); par(o.range_max(), w, "Shift"); o.range_max(w2); par(o.range_max(), w2, "Shift"); break; }
        case 12: { selection::Tournament o(k); par(double(o.size()), double(k), "Tournament"); o.size(k2); par(double(o.size()), double(k2), "Tournament"); break; }
        case 13: { selection::Rank o(std::min(w, w2), std::max(w, w2)); par(o.min_weight(), std::min(w, w2), "Rank"); par(o.max_weight(), std::max(w, w2), "Rank"); o.weights(w, w + u); par(o.min_weight(), w, "Rank"); par(o.max_weight(), w + u, "Rank"); break; }
        case 14: { selection::Sigma o(u); par(o.scale(), u, "Sigma"); o.scale(z); par(o.scale(), z, "Sigma"); break; }
        default:
        {
            // Rates set on a GA are those of its operators.
            BinaryGA ga(1); ga.crossover_method(crossover::binary::TwoPoint{ p }); ga.mutation_method(mutation::binary::Flip{ q });
            par(ga.crossover_rate(), p, "GA crossover rate"); par(ga.mutation_rate(), q, "GA mutation rate");
            if (set) { ga.crossover_rate(w); ga.mutation_rate(w2); par(ga.crossover_rate(), w, "GA crossover rate"); par(ga.mutation_rate(), w2, "GA mutation rate"); }
        }
    }
    c.nontrivial();
}
