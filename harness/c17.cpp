#include "ctx.hpp"
#include <numeric>
using namespace gapp; using namespace gapp::mutation;
PBT_RULE("A case is one chromosome with one operator and its parameters, mutated one or more times; it is non-trivial if the operator can change the chromosome (length of at least 2 for permutations, a gene with more than one allowed value otherwise) and the rate is not 0.");
PBT_ASSUME("Frequencies are tested with Chernoff bounds at a false-alarm probability below 1e-12 per comparison; mutation counts come from an approximate binomial distribution, so a deviation of 5% of the rate (or of 1 - rate) is allowed for lengths above 5.");
PBT_ASSUME("Real gene bounds are within [-1e100, 1e100].");

template<typename T> using V = std::vector<T>;
template<typename T> static V<T> vec(const Chromosome<T>& c) { return V<T>(c.begin(), c.end()); }
template<typename T> static V<T> apply(const GA<T>& ga, const Mutation<T>& op, const V<T>& x)
{
    Candidate<T> k(Chromosome<T>(x.begin(), x.end()));
    op(ga, k);
    return vec(k.chromosome);
}
static bool near(double obs, double N, double p, double slack = 0)
{
    const double f = obs / N;
    return std::abs(f - p) <= slack || pbt::plausible_count(obs, N, f < p ? p - slack : p + slack);
}

// ---- permutations
using P = V<PermutationGene>;
struct PermOp { int kind; double rm; };
static const char* perm_names[] = { "Inversion", "Swap2", "Swap3", "Shuffle", "Shift" };
static std::unique_ptr<Mutation<PermutationGene>> make(const PermOp& o, double p)
{
    switch (o.kind)
    {
        case 0: return std::make_unique<perm::Inversion>(p, o.rm);
        case 1: return std::make_unique<perm::Swap2>(p);
        case 2: return std::make_unique<perm::Swap3>(p);
        case 3: return std::make_unique<perm::Shuffle>(p, o.rm);
        default: return std::make_unique<perm::Shift>(p, o.rm);
    }
}
static PermOp gen_perm_op(pbt::Case& c) { PermOp o; o.kind = c.raw(5); o.rm = c.pick({ 0.75, 0.5, 1.0, 0.0, 0.1, 0.26, 0.999 }); c.show("op", perm_names[o.kind]).show("range_max", o.rm); c.label(perm_names[o.kind]); return o; }
static size_t max_range(const PermOp& o, size_t n) { return o.kind == 4 ? std::clamp<size_t>(size_t(o.rm * n), 1, n - 1) : std::max<size_t>(size_t(o.rm * n), 2); }
static size_t min_len(const PermOp& o) { return o.kind == 2 ? 3 : 2; }
static void check_perm(const PermOp& o, const P& a, const P& b)
{
    const size_t n = a.size();
    PBT_CHECK(std::is_permutation(a.begin(), a.end(), b.begin(), b.end()), perm_names[o.kind], ": the genes are not the same ones any more: ", ctx::vs(b));
    size_t lo = n, hi = 0, diff = 0; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) { lo = std::min(lo, i); hi = i + 1; diff++; }
    if (!diff) return;
    const size_t len = hi - lo, mr = max_range(o, n);
    switch (o.kind)
    {
        case 0: { P w = a; std::reverse(w.begin() + lo, w.begin() + hi); PBT_CHECK(w == b, "Inversion: more than the reversal of a range"); PBT_CHECK(len <= mr, "Inversion: range of length ", len, ", maximum ", mr); break; }
        case 1: PBT_CHECK(diff == 2, "Swap2: ", diff, " genes moved"); break;
        case 2: PBT_CHECK(diff == 3, "Swap3: ", diff, " genes moved"); break;
        case 3: PBT_CHECK(len <= mr, "Shuffle: the genes moved span ", len, " positions, maximum ", mr); break;
        default:
        {
            size_t k = 1; for (; k < len; k++) { P w = a; std::rotate(w.begin() + lo, w.begin() + lo + k, w.begin() + hi); if (w == b) break; }
            PBT_CHECK(k < len, "Shift: more than the move of one range");
            PBT_CHECK(std::min(k, len - k) <= mr, "Shift: a range of length ", std::min(k, len - k), " was moved, maximum ", mr);
        }
    }
}
static P gen_perm_chrom(pbt::Case& c, size_t n) { P a; for (size_t x : c.perm(n)) a.push_back(PermutationGene(x)); c.os << "chrom=" << ctx::vs(a) << ' '; return a; }
PBT_PROP(permutation_structure, 120000, 6000000)
{
    const auto o = gen_perm_op(c); const size_t n = c.wide(0, 60, 600); const double p = c.pick({ 1.0, 0.5, 0.0 });
    const auto a = gen_perm_chrom(c, n); c.show("rate", p);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    PermutationGA ga(1); ctx::run(ga, std::max<size_t>(n, 1)); // these operators allow any chromosome length
    auto op = make(o, p);
    for (int t = 0; t < 4; t++)
    {
        const auto b = apply(ga, *op, a);
        check_perm(o, a, b);
        if (p == 0.0 || n < min_len(o)) PBT_CHECK(a == b, perm_names[o.kind], ": changed with rate ", p, " and length ", n);
        else if (p == 1.0 && o.kind != 3) PBT_CHECK(a != b, perm_names[o.kind], ": not changed with rate 1");
    }
    c.nontrivial(n >= min_len(o) && p > 0);
}
// The distribution over the results, enumerated exactly. The roles within the chosen positions of Swap3 and the direction of a
// shift are not promised to be equally likely, so there only the positions chosen and the part of the chromosome affected are compared.
PBT_PROP(permutation_distribution, 500, 25000)
{
    const auto o = gen_perm_op(c); const size_t n = c.range<size_t>(2, 6), N = 4000; const double p = c.pick({ 1.0, 0.5, 0.1, 0.9 });
    const auto a = gen_perm_chrom(c, n); c.show("rate", p);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    PermutationGA ga(1); ctx::run(ga, n);
    auto op = make(o, p);
    auto key = [&](const P& r) { if (o.kind != 2 && o.kind != 4) return r; P k; for (size_t i = 0; i < n; i++) if (a[i] != r[i]) k.push_back(PermutationGene(i)); return o.kind == 4 && !k.empty() ? P{ k.front(), k.back() } : k; };
    std::map<P, double> want; want[key(a)] = 1 - p;
    if (n < min_len(o)) want[key(a)] = 1;
    else if (o.kind == 1) { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) { P w = a; std::swap(w[i], w[j]); want[w] += p / (n * (n - 1) / 2); } }
    else if (o.kind == 2) { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) if (i != j && j != k && i != k) { P w = a; w[i] = a[k]; w[j] = a[i]; w[k] = a[j]; want[key(w)] += p / (n * (n - 1) * (n - 2)); } }
    else
    {
        const size_t l0 = o.kind == 4 ? 1 : 2, l1 = max_range(o, n);
        for (size_t L = l0; L <= l1; L++)
            for (size_t f = 0; f + L <= n; f++)
            {
                const double q = p / double(l1 - l0 + 1) / double(n - L + 1);
                if (o.kind == 0) { P w = a; std::reverse(w.begin() + f, w.begin() + f + L); want[w] += q; }
                else if (o.kind == 3) { P r(a.begin() + f, a.begin() + f + L); std::sort(r.begin(), r.end()); double m = 1; for (size_t i = 2; i <= L; i++) m *= double(i); do { P w = a; std::copy(r.begin(), r.end(), w.begin() + f); want[w] += q / m; } while (std::next_permutation(r.begin(), r.end())); }
                else for (size_t d = 0; d + L <= n; d++) if (d != f) { P w = a, r(a.begin() + f, a.begin() + f + L); w.erase(w.begin() + f, w.begin() + f + L); w.insert(w.begin() + d, r.begin(), r.end()); want[key(w)] += q / double(n - L); }
            }
    }
    std::map<P, size_t> got; for (size_t t = 0; t < N; t++) { auto r = apply(ga, *op, a); check_perm(o, a, r); got[key(r)]++; }
    for (auto& [k, m] : got) PBT_CHECK(want.count(k) && want[k] > 0, perm_names[o.kind], ": result ", ctx::vs(k), " is not possible by its definition");
    for (auto& [k, w] : want) PBT_CHECK(near(double(got[k]), double(N), w), perm_names[o.kind], ": ", ctx::vs(k), " is the result in ", got[k], " of ", N, " cases, expected ", w * N);
    c.nontrivial(n >= min_len(o));
}

// ---- gene-wise operators
static const char* gene_names[] = { "binary Flip", "integer Uniform", "real Uniform", "real NonUniform", "real Gauss", "real Polynomial", "real Boundary" };
static double gen_rate(pbt::Case& c) { const double p = c.pick({ 0.5, 1.0, 0.0, 0.1, 0.02, 0.9, 0.3 }); c.show("rate", p); return p; }
static Bounds<IntegerGene> int_bounds(pbt::Case& c)
{
    switch (c.raw(6))
    {
        case 0: return { 0, 1 };
        case 1: return { 0, 3 };
        case 2: { const int x = c.range(-3, 3); return { x, x }; }
        case 3: return { -5, 20 };
        case 4: return { std::numeric_limits<IntegerGene>::min(), std::numeric_limits<IntegerGene>::max() };
        default: return { std::numeric_limits<IntegerGene>::max() - 1, std::numeric_limits<IntegerGene>::max() };
    }
}
static Bounds<RealGene> real_bounds(pbt::Case& c)
{
    switch (c.raw(8))
    {
        case 0: case 1: return { 0.0, 1.0 };
        case 2: return { -10.0, 5.0 };
        case 3: { const double x = c.real(-3, 3); return { x, x }; }
        case 4: return { 2.0, 2.0 + 1e-9 };
        case 5: return { -1e6, 1e7 };
        case 6: return { -1e100, 1e100 };
        default: return { c.real(-2, 0), c.real(0, 2) };
    }
}
struct RealOp { int kind; double par; };
static RealOp gen_real_op(pbt::Case& c)
{
    RealOp o; o.kind = 2 + c.raw(5);
    o.par = o.kind == 3 ? c.pick({ 2.0, 0.0, 0.5, 5.0 }) : o.kind == 4 ? c.pick({ 6.0, 0.5, 2.0, 100.0 }) : c.pick({ 40.0, 0.0, 1.0, 20.0 });
    c.show("op", gene_names[o.kind]).show("par", o.par); c.label(gene_names[o.kind]);
    return o;
}
static std::unique_ptr<Mutation<RealGene>> make(const RealOp& o, double p)
{
    switch (o.kind)
    {
        case 2: return std::make_unique<real::Uniform>(p);
        case 3: return std::make_unique<real::NonUniform>(p, o.par);
        case 4: return std::make_unique<real::Gauss>(p, o.par);
        case 5: return std::make_unique<real::Polynomial>(p, o.par);
        default: return std::make_unique<real::Boundary>(p);
    }
}
// A context GA in generation g of m.
static void at_generation(RCGA& ga, BoundsVector<RealGene> b, size_t g, size_t m)
{
    const size_t n = b.size();
    ga.mutation_method(real::Uniform{ 0.0 });
    ga.solve(std::make_unique<ctx::Dummy<RealGene>>(n), std::move(b), g + 1);
    ga.max_gen(m);
    if (ga.generation_cntr() != g) pbt::fail("the context is in generation ", ga.generation_cntr(), " instead of ", g);
}
PBT_PROP(binary_genes, 40000, 2000000)
{
    const size_t n = c.size(1, 300); const double p = gen_rate(c);
    V<BinaryGene> a(n); for (auto& x : a) x = BinaryGene(c.raw(2));
    c.showv("chrom", a);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    BinaryGA ga(1); ctx::run(ga, n); binary::Flip op(p);
    for (int t = 0; t < 4; t++)
    {
        const auto b = apply(ga, op, a);
        PBT_CHECK(b.size() == n, "Flip: length ", b.size());
        for (size_t i = 0; i < n; i++)
        {
            PBT_CHECK(b[i] == 0 || b[i] == 1, "Flip: gene ", i, " became ", int(b[i]));
            if (p == 0.0) PBT_CHECK(a[i] == b[i], "Flip: gene ", i, " flipped with rate 0");
            if (p == 1.0) PBT_CHECK(a[i] != b[i], "Flip: gene ", i, " not flipped with rate 1");
        }
    }
    c.nontrivial(p > 0);
}
PBT_PROP(integer_genes, 40000, 2000000)
{
    const size_t n = c.size(1, 60); const double p = gen_rate(c);
    V<IntegerGene> a(n); BoundsVector<IntegerGene> bs; bool any = false;
    for (auto& x : a) { auto q = int_bounds(c); bs.push_back(q); x = c.pick({ q.lower(), q.upper(), c.range(q.lower(), q.upper()) }); any |= q.lower() != q.upper(); c.os << "(" << q.lower() << ".." << q.upper() << ": " << x << ")"; }
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    IntegerGA ga(1); ctx::run(ga, bs); integer::Uniform op(p);
    for (int t = 0; t < 4; t++)
    {
        const auto b = apply(ga, op, a);
        PBT_CHECK(b.size() == n, "Uniform: length ", b.size());
        for (size_t i = 0; i < n; i++)
        {
            PBT_CHECK(b[i] >= bs[i].lower() && b[i] <= bs[i].upper(), "integer Uniform: gene ", i, " became ", b[i]);
            if (p == 0.0) PBT_CHECK(a[i] == b[i], "integer Uniform: gene ", i, " changed with rate 0");
            if (p == 1.0 && bs[i].lower() != bs[i].upper()) PBT_CHECK(a[i] != b[i], "integer Uniform: gene ", i, " not changed with rate 1");
        }
    }
    c.nontrivial(p > 0 && any);
}
PBT_PROP(real_genes, 60000, 3000000)
{
    const auto o = gen_real_op(c); const size_t n = c.size(1, 40), m = c.range<size_t>(1, 6), g = c.raw(m); const double p = gen_rate(c);
    c.show("generation", g).show("max_gen", m);
    V<RealGene> a(n); BoundsVector<RealGene> bs; bool any = false;
    for (auto& x : a) { auto q = real_bounds(c); bs.push_back(q); x = c.pick({ q.lower(), q.upper(), std::clamp(c.real(q.lower(), q.upper()), q.lower(), q.upper()) }); any |= q.lower() != q.upper(); c.os << "(" << q.lower() << ".." << q.upper() << ": " << x << ")"; }
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    RCGA ga(1); at_generation(ga, bs, g, m); auto op = make(o, p);
    for (int t = 0; t < 4; t++)
    {
        const auto b = apply(ga, *op, a);
        PBT_CHECK(b.size() == n, gene_names[o.kind], ": length ", b.size());
        for (size_t i = 0; i < n; i++)
        {
            const double lo = bs[i].lower(), hi = bs[i].upper();
            PBT_CHECK(b[i] >= lo && b[i] <= hi, gene_names[o.kind], ": gene ", i, " became ", b[i], ", bounds ", lo, "..", hi);
            if (p == 0.0) PBT_CHECK(a[i] == b[i], gene_names[o.kind], ": gene ", i, " changed with rate 0");
            if (o.kind == 6) PBT_CHECK(b[i] == lo || b[i] == hi || (p < 1 && b[i] == a[i]), "Boundary: gene ", i, " became ", b[i], ", bounds ", lo, "..", hi);
        }
    }
    c.nontrivial(p > 0 && any);
}
// How many genes are mutated, and which.
template<typename T> static void counts(pbt::Case& c)
{
    const size_t n = c.pick({ c.range<size_t>(1, 5), c.range<size_t>(6, 30), c.range<size_t>(31, 120) }), N = 3000; const double p = gen_rate(c); c.show("n", n);
    int kind = 0;
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    V<double> hit(n); double joint = 0, total = 0, none = 0;
    auto tally = [&](const auto& a, const auto& b) { size_t k = 0; for (size_t i = 0; i < n; i++) { hit[i] += a[i] != b[i]; k += a[i] != b[i]; } joint += a[0] != b[0] && a[n - 1] != b[n - 1]; total += double(k); none += k == 0; };
    if constexpr (std::is_same_v<T, BinaryGene>) { BinaryGA ga(1); ctx::run(ga, n); binary::Flip op(p); V<T> a(n); for (size_t i = 0; i < n; i++) a[i] = i % 2; for (size_t t = 0; t < N; t++) tally(a, apply(ga, op, a)); }
    else if constexpr (std::is_same_v<T, IntegerGene>) { IntegerGA ga(1); ctx::run(ga, BoundsVector<IntegerGene>(n, Bounds<IntegerGene>{ -3, 3 })); integer::Uniform op(p); V<T> a(n, 1); for (size_t t = 0; t < N; t++) tally(a, apply(ga, op, a)); kind = 1; }
    else { auto o = gen_real_op(c); kind = o.kind; RCGA ga(1); at_generation(ga, BoundsVector<RealGene>(n, Bounds<RealGene>{ -3, 3 }), 0, 3); auto op = make(o, p); V<T> a(n, 0.7); for (size_t t = 0; t < N; t++) tally(a, apply(ga, *op, a)); }
    c.show("op", gene_names[kind]);
    const double slack = n > 5 ? 0.05 * std::min(p, 1 - p) : 0;
    for (size_t i = 0; i < n; i++) PBT_CHECK(near(hit[i], double(N), p, slack), gene_names[kind], ": gene ", i, " of ", n, " mutated ", hit[i], " times of ", N, " with rate ", p);
    PBT_CHECK(near(total / n, double(N), p, slack + 1e-3), gene_names[kind], ": ", total, " genes mutated of ", N * n, " with rate ", p);
    if (n >= 2 && n <= 5) { PBT_CHECK(near(joint, double(N), p * p), gene_names[kind], ": the first and the last gene mutated together ", joint, " times of ", N); PBT_CHECK(near(none, double(N), std::pow(1 - p, double(n))), gene_names[kind], ": no gene mutated ", none, " times of ", N); }
    c.nontrivial(p > 0);
}
PBT_PROP(counts_binary, 500, 25000) { counts<BinaryGene>(c); }
PBT_PROP(counts_integer, 500, 25000) { counts<IntegerGene>(c); }
PBT_PROP(counts_real, 700, 35000) { counts<RealGene>(c); }

// The new values of mutated genes.
PBT_PROP(integer_values, 500, 25000)
{
    const int lo = c.range(-4, 4), hi = lo + c.range(1, 7); const size_t n = c.range<size_t>(1, 4), N = 5000;
    c.show("lo", lo).show("hi", hi);
    V<IntegerGene> a(n); for (auto& x : a) x = c.range(lo, hi);
    c.showv("chrom", a);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    IntegerGA ga(1); ctx::run(ga, BoundsVector<IntegerGene>(n, Bounds<IntegerGene>{ lo, hi })); integer::Uniform op(1.0);
    V<std::map<int, double>> got(n);
    for (size_t t = 0; t < N; t++) { auto b = apply(ga, op, a); for (size_t i = 0; i < n; i++) got[i][b[i]]++; }
    for (size_t i = 0; i < n; i++) for (int v = lo; v <= hi; v++) PBT_CHECK(near(got[i][v], double(N), v == a[i] ? 0.0 : 1.0 / (hi - lo)), "integer Uniform: gene ", i, " with value ", a[i], " became ", v, " in ", got[i][v], " of ", N, " cases");
    c.nontrivial(hi - lo >= 2);
}
PBT_PROP(real_values, 900, 45000)
{
    const auto o = gen_real_op(c); const size_t n = c.range<size_t>(1, 4), m = c.range<size_t>(1, 12), g = c.raw(m), N = 4000;
    c.show("generation", g).show("max_gen", m);
    BoundsVector<RealGene> bs; V<double> a;
    for (size_t i = 0; i < n; i++) { const double lo = double(c.range(-5, 5)), hi = lo + c.pick({ 1.0, 4.0, 0.125, 1000.0 }); bs.push_back({ lo, hi }); a.push_back(lo + (hi - lo) * c.pick({ 0.5, 0.25, 0.875, 0.0, 1.0 })); c.os << "(" << lo << ".." << hi << ": " << a[i] << ")"; }
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    RCGA ga(1); at_generation(ga, bs, g, m); auto op = make(o, 1.0);
    // Thresholds on the new value, with the probability to be at most that.
    struct Th { double x, p; double tol; double le = 0, lt = 0; };
    V<V<Th>> th(n);
    for (size_t i = 0; i < n; i++)
    {
        const double lo = bs[i].lower(), hi = bs[i].upper(), x = a[i], w = hi - lo;
        switch (o.kind)
        {
            case 2: for (double q : { 0.05, 0.3, 0.5, 0.8 }) th[i].push_back({ lo + q * w, q, 0 }); break;
            case 3:
            {
                const double e = std::pow(1.0 - double(g) / double(m), o.par);
                for (double q : { 0.1, 0.5, 0.9 }) // P(rand <= q) = q, the step is 1 - rand^e of the distance to a bound
                {
                    const double s = 1 - std::pow(q, e);
                    if (s * (x - lo) > 1e-9 * w) th[i].push_back({ x - s * (x - lo), 0.5 * q, 0 });
                    if (s * (hi - x) > 1e-9 * w) th[i].push_back({ x + s * (hi - x), 1 - 0.5 * q, 0 });
                }
                break;
            }
            case 4: for (double z : { -2.0, -1.0, -0.25, 0.5, 1.5 }) { const double y = x + z * w / o.par; if (y > lo && y < hi) th[i].push_back({ y, 0.5 * std::erfc(-z / std::sqrt(2.0)), 0 }); } break;
            case 5:
                for (double q : { 0.05, 0.2, 0.4, 0.6, 0.8, 0.95 })
                {
                    const double d = q <= 0.5 ? std::pow(2 * q, 1 / (1 + o.par)) - 1 : 1 - std::pow(2 - 2 * q, 1 / (1 + o.par));
                    const double y = q <= 0.5 ? x + d * (x - lo) : x + d * (hi - x);
                    if (std::abs(y - x) > 1e-9 * w) th[i].push_back({ y, q, 0 });
                }
                break;
            default: th[i].push_back({ lo, 0.5, 0 }); break;
        }
    }
    for (size_t t = 0; t < N; t++) { auto b = apply(ga, *op, a); for (size_t i = 0; i < n; i++) for (auto& h : th[i]) h.le += b[i] <= h.x; }
    for (size_t i = 0; i < n; i++) for (auto& h : th[i]) PBT_CHECK(near(h.le, double(N), h.p), gene_names[o.kind], ": gene ", i, " with value ", a[i], " became at most ", h.x, " in ", h.le, " of ", N, " cases, expected ", h.p * N);
    size_t k = 0; for (auto& v : th) k += v.size();
    c.nontrivial(k > 0);
}
