#include "ctx.hpp"
#include "crossover/crossover_impl.hpp"
using namespace gapp; using namespace gapp::crossover;
PBT_RULE("A case is one pair of parents with one operator and its parameters, applied one or more times; it is non-trivial if the parents differ in at least two genes (one gene for length 1).");
PBT_ASSUME("Frequencies are tested with Chernoff bounds at a false-alarm probability below 1e-12 per comparison; swap counts of the uniform crossover come from an approximate binomial distribution, so a deviation of 0.05 of the rate is allowed for lengths above 5.");
PBT_ASSUME("Real gene bounds are within [-1e100, 1e100].");

template<typename T> using V = std::vector<T>;
template<typename T> static V<T> vec(const Chromosome<T>& c) { return V<T>(c.begin(), c.end()); }
template<typename T> struct Ops;
template<> struct Ops<BinaryGene> { using GA_t = BinaryGA; using Single = binary::SinglePoint; using Two = binary::TwoPoint; using N = binary::NPoint; using Uni = binary::Uniform; static constexpr const char* name = "binary"; };
template<> struct Ops<IntegerGene> { using GA_t = IntegerGA; using Single = integer::SinglePoint; using Two = integer::TwoPoint; using N = integer::NPoint; using Uni = integer::Uniform; static constexpr const char* name = "integer"; };
template<typename T> static void prepare(typename Ops<T>::GA_t& ga, size_t n) { if constexpr (std::is_same_v<T, BinaryGene>) ctx::run(ga, n); else ctx::run(ga, BoundsVector<IntegerGene>(n, Bounds<IntegerGene>{ -1000, 1000 })); }

struct Op { int kind; size_t npoints = 1; double ps = 0.5; };
template<typename T> static std::unique_ptr<Crossover<T>> make(const Op& o)
{
    using O = Ops<T>;
    switch (o.kind)
    {
        case 0: return std::make_unique<typename O::Single>(1.0);
        case 1: return std::make_unique<typename O::Two>(1.0);
        case 2: return std::make_unique<typename O::N>(1.0, o.npoints);
        default: return std::make_unique<typename O::Uni>(1.0, o.ps);
    }
}
static Op gen_op(pbt::Case& c, size_t n, int kind = -1)
{
    static const char* names[] = { "SinglePoint", "TwoPoint", "NPoint", "Uniform" };
    Op o; o.kind = kind >= 0 ? kind : int(c.raw(4));
    if (o.kind == 2) o.npoints = c.pick({ size_t(1), size_t(2), size_t(3), c.range<size_t>(1, n + 3) });
    if (o.kind == 3) o.ps = c.pick({ 0.5, 0.0, 1.0, 0.1, 0.9, 0.31 });
    c.show("op", names[o.kind]).show("npoints", o.npoints).show("ps", o.ps); c.label(names[o.kind]);
    return o;
}
template<typename T> static std::pair<V<T>, V<T>> gen_parents(pbt::Case& c, size_t n, bool all_differ)
{
    V<T> a(n), b(n);
    const int sim = c.raw(3);
    for (size_t i = 0; i < n; i++)
    {
        if constexpr (std::is_same_v<T, BinaryGene>) { a[i] = T(c.raw(2)); b[i] = all_differ ? T(!a[i]) : T(c.raw(2)); }
        else { a[i] = T(c.range(-4, 4)); b[i] = all_differ ? T(a[i] + c.pick({ 1, -1, 7 })) : sim == 0 ? a[i] : T(c.range(-4, 4)); if (sim == 0 && !all_differ && c.chance(1, 4)) b[i]++; }
    }
    c.os << Ops<T>::name << " n=" << n << " p1=" << ctx::vs(a) << " p2=" << ctx::vs(b) << ' ';
    return { a, b };
}
// Where child 1 has the gene of parent 2 (only if all genes differ).
template<typename T> static V<bool> pattern(const V<T>& a, const V<T>& b, const V<T>& x, const V<T>& y)
{
    V<bool> s(a.size());
    PBT_CHECK(x.size() == a.size() && y.size() == a.size(), "children of length ", x.size(), " and ", y.size());
    for (size_t i = 0; i < a.size(); i++)
    {
        PBT_CHECK((x[i] == a[i] && y[i] == b[i]) || (x[i] == b[i] && y[i] == a[i]), "at position ", i, " the children have ", +x[i], " and ", +y[i], " but the parents ", +a[i], " and ", +b[i]);
        s[i] = x[i] != a[i];
    }
    return s;
}
static size_t switches(const V<bool>& s) { size_t k = 0; for (size_t i = 1; i < s.size(); i++) k += s[i] != s[i - 1]; return k; }
static void check_pattern(const Op& o, const V<bool>& s)
{
    const size_t n = s.size(), sw = switches(s), np = std::min(o.npoints, n);
    if (n == 0) return;
    switch (o.kind)
    {
        case 0: PBT_CHECK(sw == 0 || (sw == 1 && s[0]), "single-point: the children do not consist of a swapped prefix and an unchanged rest: ", pbt::str(s)); break;
        case 1: PBT_CHECK(sw <= 2 && (sw < 2 || !s[0]), "two-point: not one contiguous range was swapped: ", pbt::str(s)); break;
        case 2: PBT_CHECK(sw == np || sw + 1 == np, "n-point: ", sw, " switches between the parents with ", np, " crossover points: ", pbt::str(s)); break;
        default: if (o.ps == 0.0) PBT_CHECK(sw == 0 && !s[0], "uniform: swapped genes with probability 0"); if (o.ps == 1.0) PBT_CHECK(sw == 0 && s[0], "uniform: genes not swapped with probability 1");
    }
}
template<typename T> static void structure(pbt::Case& c, size_t maxn, size_t times)
{
    const size_t n = c.wide(1, maxn, maxn * 10); const auto o = gen_op(c, n); const bool differ = c.chance(2, 3);
    auto [a, b] = gen_parents<T>(c, n, differ);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    typename Ops<T>::GA_t ga(1); prepare<T>(ga, n);
    auto p1 = ctx::cand(Chromosome<T>(a.begin(), a.end())), p2 = ctx::cand(Chromosome<T>(b.begin(), b.end()));
    auto op = make<T>(o);
    for (size_t t = 0; t < times; t++)
    {
        auto [k1, k2] = (*op)(ga, p1, p2);
        auto s = pattern(a, b, vec(k1.chromosome), vec(k2.chromosome));
        if (differ) check_pattern(o, s);
        else
        {
            // Some choice of the genes that are equal must be allowed.
            V<size_t> d; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) d.push_back(i);
            V<bool> r; for (size_t i : d) r.push_back(s[i]);
            const size_t sw = r.empty() ? 0 : switches(r);
            if (o.kind == 0) PBT_CHECK(sw == 0 || (sw == 1 && r[0]), "single-point: not a swapped prefix");
            if (o.kind == 1) PBT_CHECK(sw <= 2 && (sw < 2 || !r[0]), "two-point: not one contiguous range was swapped");
            if (o.kind == 2) PBT_CHECK(sw <= std::min(o.npoints, n), "n-point: ", sw, " switches");
        }
    }
    PBT_CHECK(vec(p1.chromosome) == a && vec(p2.chromosome) == b, "a parent was modified");
    size_t nd = 0; for (size_t i = 0; i < n; i++) nd += a[i] != b[i];
    c.nontrivial(nd >= 2 || (n == 1 && nd));
}
PBT_PROP(binary_structure, 60000, 3000000) { structure<BinaryGene>(c, 60, 3); }
PBT_PROP(integer_structure, 60000, 3000000) { structure<IntegerGene>(c, 60, 3); }
// How often each position is a crossover point, or swapped.
template<typename T> static void frequencies(pbt::Case& c)
{
    const size_t n = c.size(1, 14), N = 3000; const auto o = gen_op(c, n);
    auto [a, b] = gen_parents<T>(c, n, true);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    typename Ops<T>::GA_t ga(1); prepare<T>(ga, n);
    auto p1 = ctx::cand(Chromosome<T>(a.begin(), a.end())), p2 = ctx::cand(Chromosome<T>(b.begin(), b.end()));
    auto op = make<T>(o);
    V<size_t> cut(n), swapped(n); size_t joint = 0;
    for (size_t t = 0; t < N; t++)
    {
        auto [k1, k2] = (*op)(ga, p1, p2);
        auto s = pattern(a, b, vec(k1.chromosome), vec(k2.chromosome));
        for (size_t i = 0; i < n; i++) { swapped[i] += s[i]; if (i) cut[i] += s[i] != s[i - 1]; }
        joint += s[0] && s[n - 1];
    }
    auto near = [&](size_t obs, double p, double slack, const char* what, size_t i) { const double f = double(obs) / N; PBT_CHECK(std::abs(f - p) <= slack || pbt::plausible_count(double(obs), double(N), f < p ? p - slack : p + slack), what, " at position ", i, ": ", obs, " of ", N, " instead of ", p * N); };
    for (size_t i = 0; i < n; i++)
    {
        const double x = double(i), m = double(n);
        switch (o.kind)
        {
            case 0: near(swapped[i], (m - x) / (m + 1), 0, "single-point: swapped", i); break;
            case 1: near(swapped[i], 2 * (x + 1) * (m - x) / ((m + 1) * (m + 1)), 0, "two-point: swapped", i); break;
            case 2: if (i) near(cut[i], double(std::min(o.npoints, n)) / m, 0, "n-point: crossover point", i); break;
            default: near(swapped[i], o.ps, n > 5 ? 0.05 * std::min(o.ps, 1 - o.ps) : 0, "uniform: swapped", i); break;
        }
    }
    if (o.kind == 3 && n >= 2 && n <= 5) near(joint, o.ps * o.ps, 0, "uniform: first and last swapped together", 0);
    c.nontrivial(n >= 2);
}
PBT_PROP(frequencies_binary, 1200, 60000) { frequencies<BinaryGene>(c); }
PBT_PROP(frequencies_integer, 1200, 60000) { frequencies<IntegerGene>(c); }

// The implementations with given crossover points, for several gene types.
template<typename T> static void impl(pbt::Case& c)
{
    const size_t n = c.size(1, 40);
    V<T> a(n), b(n); for (size_t i = 0; i < n; i++) { a[i] = T(c.range(0, 9)); b[i] = T(c.range(0, 9)); }
    const Candidate<T> p1(Chromosome<T>(a.begin(), a.end())), p2(Chromosome<T>(b.begin(), b.end()));
    const int kind = c.raw(3); c.show("kind", kind); c.os << "p1=" << ctx::vs(a) << " p2=" << ctx::vs(b) << ' ';
    V<size_t> pts;
    if (kind == 0) pts = { c.range<size_t>(0, n) };
    else if (kind == 1) pts = { c.range<size_t>(0, n), c.range<size_t>(0, n) };
    else { const size_t k = c.range<size_t>(1, std::min<size_t>(n, 9)); for (size_t i = 0; i < k; i++) pts.push_back(c.raw(n)); std::set<size_t> u(pts.begin(), pts.end()); pts.assign(u.begin(), u.end()); auto o = c.perm(pts.size()); V<size_t> q; for (size_t i : o) q.push_back(pts[i]); pts = q; }
    c.showv("points", pts);
    V<T> wa(n), wb(n);
    auto swapped = [&](size_t i) { size_t k = 0; for (size_t p : pts) k += p > i; return k % 2 == 1; }; // consecutive single-point crossovers
    for (size_t i = 0; i < n; i++) { wa[i] = swapped(i) ? b[i] : a[i]; wb[i] = swapped(i) ? a[i] : b[i]; }
    auto [x, y] = kind == 0 ? dtl::singlePointCrossoverImpl(p1, p2, pts[0]) : kind == 1 ? dtl::twoPointCrossoverImpl(p1, p2, { pts[0], pts[1] }) : dtl::nPointCrossoverImpl(p1, p2, small_vector<size_t>(pts.begin(), pts.end()));
    const auto gx = vec(x.chromosome), gy = vec(y.chromosome);
    PBT_CHECK((gx == wa && gy == wb) || (kind == 2 && gx == wb && gy == wa), "children ", ctx::vs(gx), " and ", ctx::vs(gy), " instead of ", ctx::vs(wa), " and ", ctx::vs(wb));
    c.nontrivial(n >= 2 && a != b);
}
PBT_PROP(implementations, 60000, 3000000) { switch (c.raw(3)) { case 0: impl<int>(c); break; case 1: impl<char>(c); break; default: impl<double>(c); } }

// ---- real crossovers
struct Real { V<double> a, b; BoundsVector<RealGene> bounds; double scale = 0; };
static Real gen_real(pbt::Case& c, size_t maxn)
{
    Real r; const size_t n = c.wide(1, maxn, maxn * 10); const bool same = c.flip();
    auto bound = [&]() -> Bounds<RealGene>
    {
        switch (c.raw(8))
        {
            case 0: case 1: return { 0.0, 1.0 };
            case 2: return { -10.0, 5.0 };
            case 3: { const double x = c.real(-3, 3); return { x, x }; }
            case 4: return { 2.0, 2.0 + 1e-9 };
            case 5: return { -1e6, 1e7 };
            case 6: return { -1e100, 1e100 };
            default: return { c.real(-2, 0), c.real(0, 2) };
        }
    };
    auto g = bound();
    c.os << "real ";
    for (size_t i = 0; i < n; i++)
    {
        auto q = same ? g : bound(); r.bounds.push_back(q);
        auto gene = [&] { switch (c.raw(4)) { case 0: return q.lower(); case 1: return q.upper(); default: return std::clamp(c.real(q.lower(), q.upper()), q.lower(), q.upper()); } };
        r.a.push_back(gene()); r.b.push_back(c.chance(1, 6) ? r.a[i] : gene());
        c.os << "(" << q.lower() << ".." << q.upper() << ": " << r.a[i] << "," << r.b[i] << ")";
    }
    return r;
}
static double eps(double x) { return std::abs(x) * 1e-14 + 1e-300; }
static void in_bounds(const V<double>& x, const Real& r, const char* name) { PBT_CHECK(x.size() == r.a.size(), name, ": child of length ", x.size()); for (size_t i = 0; i < x.size(); i++) PBT_CHECK(x[i] >= r.bounds[i].lower() && x[i] <= r.bounds[i].upper(), name, ": gene ", i, " is ", x[i], ", bounds ", r.bounds[i].lower(), "..", r.bounds[i].upper()); }
PBT_PROP(real_definitions, 100000, 5000000)
{
    const int kind = c.raw(4); const double par = c.pick({ 0.5, 0.0, 1.0, 4.0, 0.1, 20.0 }); // alpha or eta
    static const char* names[] = { "Arithmetic", "BLXa", "SimulatedBinary", "Wright" };
    c.show("op", names[kind]).show("par", par); c.label(names[kind]);
    auto r = gen_real(c, 12); const size_t n = r.a.size();
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    RCGA ga(1); const size_t nobj = c.pick({ 1, 1, 2 }); ctx::run(ga, r.bounds, nobj);
    FitnessVector f1(nobj), f2(nobj); for (auto& x : f1) x = double(c.range(-2, 2)); for (auto& x : f2) x = double(c.range(-2, 2));
    auto p1 = ctx::cand(Chromosome<RealGene>(r.a.begin(), r.a.end()), f1), p2 = ctx::cand(Chromosome<RealGene>(r.b.begin(), r.b.end()), f2);
    auto op = [&]() -> std::unique_ptr<Crossover<RealGene>> { switch (kind) { case 0: return std::make_unique<real::Arithmetic>(1.0); case 1: return std::make_unique<real::BLXa>(1.0, par); case 2: return std::make_unique<real::SimulatedBinary>(1.0, par); default: return std::make_unique<real::Wright>(1.0); } }();
    auto [k1, k2] = (*op)(ga, p1, p2);
    const auto x = vec(k1.chromosome), y = vec(k2.chromosome);
    in_bounds(x, r, names[kind]); in_bounds(y, r, names[kind]);
    size_t nd = 0; for (size_t i = 0; i < n; i++) nd += r.a[i] != r.b[i];
    c.nontrivial(nd >= 2 || (n == 1 && nd));
    if (!nd) { PBT_CHECK(x == r.a && y == r.b, names[kind], ": equal parents, different children"); return; }
    if (kind == 0)
    {
        size_t big = 0; double rel = -1; for (size_t i = 0; i < n; i++) { const double t = std::abs(r.a[i] - r.b[i]) / std::max({ std::abs(r.a[i]), std::abs(r.b[i]), 1e-300 }); if (t > rel) rel = t, big = i; }
        const double al = (x[big] - r.b[big]) / (r.a[big] - r.b[big]), tol = 1e-13 / std::max(rel, 1e-13);
        if (tol < 0.1) PBT_CHECK(al >= -tol && al <= 1 + tol, "Arithmetic: weight ", al);
        for (size_t i = 0; i < n; i++)
        {
            const double m = std::max(std::abs(r.a[i]), std::abs(r.b[i])), t = m * 1e-14 + std::abs(r.a[i] - r.b[i]) * tol;
            PBT_CHECK(std::abs(x[i] - (al * r.a[i] + (1 - al) * r.b[i])) <= t, "Arithmetic: gene ", i, " of child 1 is ", x[i], " with weight ", al);
            PBT_CHECK(std::abs(y[i] - ((1 - al) * r.a[i] + al * r.b[i])) <= t, "Arithmetic: gene ", i, " of child 2 is ", y[i], " with weight ", 1 - al);
        }
    }
    else if (kind == 1)
    {
        for (size_t i = 0; i < n; i++)
        {
            const double lo = std::min(r.a[i], r.b[i]), hi = std::max(r.a[i], r.b[i]), I = hi - lo, t = eps(lo) + eps(hi) + eps(par * I);
            for (double g : { x[i], y[i] }) PBT_CHECK(g >= lo - par * I - t && g <= hi + par * I + t, "BLXa: gene ", i, " is ", g, ", parents ", lo, " and ", hi);
        }
    }
    else if (kind == 2)
    {
        for (size_t i = 0; i < n; i++)
        {
            const double mean = 0.5 * r.a[i] + 0.5 * r.b[i], t = eps(r.a[i]) + eps(r.b[i]);
            if (r.a[i] == r.b[i]) { PBT_CHECK(x[i] == r.a[i] && y[i] == r.a[i], "SimulatedBinary: the parents' genes are equal at ", i, " but the children's are not"); continue; }
            if (math::floatIsEqual(r.a[i], r.b[i])) { for (double g : { x[i], y[i] }) PBT_CHECK(g >= std::min(r.a[i], r.b[i]) && g <= std::max(r.a[i], r.b[i]), "SimulatedBinary: gene ", i, " is ", g); continue; }
            PBT_CHECK(x[i] <= mean + t && y[i] >= mean - t, "SimulatedBinary: genes ", x[i], " and ", y[i], " at ", i, " are not on either side of the parents' mean ", mean);
        }
    }
    else
    {
        auto dom = [&](const FitnessVector& u, const FitnessVector& v) { bool s = false; for (size_t i = 0; i < nobj; i++) { if (u[i] > v[i]) return false; s |= u[i] < v[i]; } return s; }; // u worse than v
        V<std::pair<const V<double>*, const V<double>*>> roles; // (better, worse)
        if (dom(f1, f2)) roles = { { &r.b, &r.a } }; else if (dom(f2, f1)) roles = { { &r.a, &r.b } }; else roles = { { &r.a, &r.b }, { &r.b, &r.a } };
        std::string why;
        bool any = false;
        for (auto [bt, ws] : roles)
        {
            bool ok = true;
            for (auto* ch : { &x, &y })
            {
                // The weight from the gene with the largest relative difference that is not at a bound.
                double w = -1, rel = 0, lo = 0;
                for (size_t i = 0; i < n; i++)
                {
                    const double d = (*bt)[i] - (*ws)[i]; if (d == 0) continue;
                    const double q = std::abs(d) / std::max({ std::abs((*bt)[i]), std::abs((*ws)[i]), 1e-300 });
                    const bool clamped = (*ch)[i] == r.bounds[i].lower() || (*ch)[i] == r.bounds[i].upper();
                    if (clamped) lo = std::max(lo, ((*ch)[i] - (*bt)[i]) / d - 1e-12 / q);
                    else if (q > rel) { rel = q; w = ((*ch)[i] - (*bt)[i]) / d; }
                }
                const double tol = rel > 0 ? 1e-13 / rel : 0;
                if (tol > 0.01) continue;
                if (rel == 0) { if (lo > 1) ok = false, why = "no weight in [0, 1] explains the clamped genes"; continue; }
                if (w < -tol || w > 1 + tol) { ok = false; why = "weight " + std::to_string(w); continue; }
                for (size_t i = 0; i < n; i++)
                {
                    const double d = (*bt)[i] - (*ws)[i], e = std::clamp((*bt)[i] + w * d, r.bounds[i].lower(), r.bounds[i].upper());
                    if (std::abs((*ch)[i] - e) > 1e-14 * (std::abs((*bt)[i]) + std::abs((*ws)[i])) * 4 + std::abs(d) * tol) { ok = false; why = "gene " + std::to_string(i) + " is " + std::to_string((*ch)[i]) + " instead of " + std::to_string(e) + " with weight " + std::to_string(w); }
                }
            }
            any = any || ok;
        }
        PBT_CHECK(any, "Wright: ", why);
    }
}
// Distributions of the random weights.
PBT_PROP(real_distributions, 600, 30000)
{
    const int kind = c.raw(4); const double par = c.pick({ 0.5, 0.1, 1.0, 2.0 });
    static const char* names[] = { "Arithmetic", "BLXa", "SimulatedBinary", "Wright" };
    c.show("op", names[kind]).show("par", par); c.label(names[kind]);
    const size_t n = c.range<size_t>(1, 4), N = 4000;
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    RCGA ga(1); ctx::run(ga, BoundsVector<RealGene>(n, Bounds<RealGene>{ -1e9, 1e9 }));
    V<double> a(n), b(n); for (size_t i = 0; i < n; i++) { a[i] = double(c.range(-5, 5)); b[i] = a[i] + c.pick({ 1.0, -2.0, 8.0 }); }
    c.showv("p1", a).showv("p2", b);
    auto p1 = ctx::cand(Chromosome<RealGene>(a.begin(), a.end()), { 2.0 }), p2 = ctx::cand(Chromosome<RealGene>(b.begin(), b.end()), { 1.0 });
    auto op = [&]() -> std::unique_ptr<Crossover<RealGene>> { switch (kind) { case 0: return std::make_unique<real::Arithmetic>(1.0); case 1: return std::make_unique<real::BLXa>(1.0, par); case 2: return std::make_unique<real::SimulatedBinary>(1.0, par); default: return std::make_unique<real::Wright>(1.0); } }();
    // u: the uniform variate behind each gene; it must be uniform, and independent between the children where two variates are drawn.
    V<V<size_t>> lt(2 * n, V<size_t>(4)); V<size_t> both(n), genes(n); const double qs[] = { 0.1, 0.5, 0.9 };
    for (size_t t = 0; t < N; t++)
    {
        auto [k1, k2] = (*op)(ga, p1, p2);
        for (size_t i = 0; i < n; i++)
        {
            const double x = k1.chromosome[i], y = k2.chromosome[i], lo = std::min(a[i], b[i]), I = std::abs(a[i] - b[i]);
            double u, v;
            switch (kind)
            {
                case 0: u = (x - b[i]) / (a[i] - b[i]); v = u; break;
                case 1: u = (x - lo + par * I) / ((1 + 2 * par) * I); v = (y - lo + par * I) / ((1 + 2 * par) * I); break;
                case 2: u = (lo + I / 2 - x) / (I / 2) > 1 ? 0.3 : 0.7; v = (y - lo - I / 2) / (I / 2) > 1 ? 0.3 : 0.7; break; // only the median of the spread factor is 1
                default: u = (x - a[i]) / (a[i] - b[i]); v = (y - a[i]) / (a[i] - b[i]); break;
            }
            for (int q = 0; q < 3; q++) { lt[2 * i][q] += u < qs[q]; lt[2 * i + 1][q] += v < qs[q]; }
            both[i] += u < 0.5 && v < 0.5;
        }
    }
    for (size_t i = 0; i < n; i++)
    {
        for (int q = 0; q < 3; q++)
        {
            if (kind == 2 && q != 1) continue;
            for (int k = 0; k < 2; k++) PBT_CHECK(pbt::plausible_count(double(lt[2 * i + k][q]), double(N), qs[q]), names[kind], ": the random weight for gene ", i, " of child ", k + 1, " is below ", qs[q], " in ", lt[2 * i + k][q], " of ", N, " cases");
        }
        if (kind != 0) PBT_CHECK(pbt::plausible_count(double(both[i]), double(N), 0.25), names[kind], ": the weights of the two children are not independent (", both[i], " of ", N, ")");
    }
    c.nontrivial();
}
// Simulated binary crossover: larger eta, children further away (as documented).
PBT_PROP(sbx_eta, 200, 10000)
{
    const double e1 = c.pick({ 0.5, 1.0, 2.0 }), e2 = e1 + c.pick({ 2.0, 3.0, 6.0 }); const size_t N = 20000;
    c.show("eta1", e1).show("eta2", e2);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    RCGA ga(1); ctx::run(ga, BoundsVector<RealGene>(1, Bounds<RealGene>{ -1e9, 1e9 }));
    const double x = double(c.range(-3, 3)), y = x + c.pick({ 1.0, -2.0 });
    auto p1 = ctx::cand(Chromosome<RealGene>{ x }), p2 = ctx::cand(Chromosome<RealGene>{ y });
    double far[2] = {}, far2[2] = {};
    for (int k = 0; k < 2; k++) { real::SimulatedBinary op(1.0, k ? e2 : e1); for (size_t t = 0; t < N; t++) { auto [a, b] = op(ga, p1, p2); far[k] += std::abs(a.chromosome[0] - (x + y) / 2) > std::abs(x - y) * 0.5 * 4; far2[k] += std::abs(b.chromosome[0] - (x + y) / 2) > std::abs(x - y) * 0.5 * 4; } }
    const double slack = 6 * std::sqrt(double(N));
    PBT_CHECK(far[1] > far[0] - slack && far2[1] > far2[0] - slack && far[1] + far2[1] > far[0] + far2[0], "SimulatedBinary: ", far[0] + far2[0], " of ", 2 * N, " genes are far away with eta ", e1, " but ", far[1] + far2[1], " with eta ", e2);
    c.nontrivial();
}
