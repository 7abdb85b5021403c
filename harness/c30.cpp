#include "pbt.hpp"
#include "problems/problems.hpp"
#include "c30_tours.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
#include <numbers>
#include <numeric>
#include <vector>
using namespace gapp; using namespace gapp::problems;
PBT_RULE("A case is a problem, a dimension (variables, objectives, bits per variable) and a set of points; it is non-trivial if at least one point differs from the stated optimum in at least two variables (for tours: at least 4 cities).");
PBT_ASSUME("Points lie inside the stated bounds; values agree up to 1e-9 relative rounding; ideal and nadir points documented as approximate (Kursawe, ZDT3, ZDT6) bound the front up to 1%.");
using LD = long double; using Vec = std::vector<LD>; constexpr LD PI = std::numbers::pi_v<LD>;
using RVec = Chromosome<RealGene>;
struct Real // a real-encoded benchmark, with its published definition and the shape of its optimal set
{
    std::string name; std::function<std::unique_ptr<BenchmarkFunction<RealGene>>(size_t n, size_t bits)> make;
    size_t lo, extra; // the smallest dimension and the number of variables = dimension + extra
    std::function<Vec(const Vec&, size_t m)> ref; // the objectives to maximise
};
static LD sq(LD x) { return x * x; }
static Vec dtlz(int which, const Vec& x, size_t m)
{
    const size_t k = x.size() - m + 1; LD g = 0;
    for (size_t i = m - 1; i < x.size(); i++)
        switch (which)
        {
            case 1: case 3: g += 100 * (1 + sq(x[i] - 0.5L) - std::cos(20 * PI * (x[i] - 0.5L))); break;
            case 2: case 4: case 5: g += sq(x[i] - 0.5L); break;
            case 6: g += std::pow(x[i], 0.1L); break;
            case 7: g += 9 * x[i] / LD(k); break;
        }
    if (which == 7) g += 1;
    Vec f(m), th(m - 1);
    for (size_t i = 0; i + 1 < m; i++) th[i] = (which == 4 ? std::pow(x[i], 100.0L) : (which == 5 || which == 6) && i > 0 ? (1 + 2 * g * x[i]) / (2 * (1 + g)) : x[i]);
    if (which == 7)
    {
        LD h = LD(m); for (size_t i = 0; i + 1 < m; i++) { f[i] = x[i]; h -= x[i] / (1 + g) * (1 + std::sin(3 * PI * x[i])); }
        f[m - 1] = (1 + g) * h;
    }
    else for (size_t j = 0; j < m; j++)
    {
        // objective j is the product over the first m-1-j position variables, times the complement of the next one
        LD v = (which == 1 ? 0.5L : 1.0L) * (1 + g);
        for (size_t i = 0; i < m - 1 - j; i++) v *= which == 1 ? th[i] : std::cos(th[i] * PI / 2);
        if (j > 0) v *= which == 1 ? 1 - th[m - 1 - j] : std::sin(th[m - 1 - j] * PI / 2);
        f[j] = v;
    }
    for (auto& v : f) v = -v;
    return f;
}
template<typename P> static auto maker() { return [](size_t n, size_t bits) -> std::unique_ptr<BenchmarkFunction<RealGene>> { return std::make_unique<P>(n, bits); }; }
static const std::vector<Real>& single()
{
    static const std::vector<Real> v = {
        { "Sphere", maker<Sphere>(), 1, 0, [](const Vec& x, size_t) { LD s = 0; for (LD a : x) s += a * a; return Vec{ -s }; } },
        { "Rastrigin", maker<Rastrigin>(), 1, 0, [](const Vec& x, size_t) { LD s = 10 * LD(x.size()); for (LD a : x) s += a * a - 10 * std::cos(2 * PI * a); return Vec{ -s }; } },
        { "Rosenbrock", maker<Rosenbrock>(), 1, 0, [](const Vec& x, size_t) { LD s = 0; for (size_t i = 0; i + 1 < x.size(); i++) s += 100 * sq(x[i + 1] - x[i] * x[i]) + sq(1 - x[i]); return Vec{ -s }; } },
        { "Schwefel", maker<Schwefel>(), 1, 0, [](const Vec& x, size_t) { LD s = 418.9828872724338L * LD(x.size()); for (LD a : x) s -= a * std::sin(std::sqrt(std::abs(a))); return Vec{ -s }; } },
        { "Griewank", maker<Griewank>(), 1, 0, [](const Vec& x, size_t) { LD s = 0, p = 1; for (size_t i = 0; i < x.size(); i++) { s += x[i] * x[i] / 4000; p *= std::cos(x[i] / std::sqrt(LD(i + 1))); } return Vec{ -(s - p + 1) }; } },
        { "Ackley", maker<Ackley>(), 1, 0, [](const Vec& x, size_t) { LD s = 0, q = 0; for (LD a : x) { s += a * a; q += std::cos(2 * PI * a); } const LD n = LD(x.size()); return Vec{ -(-20 * std::exp(-0.2L * std::sqrt(s / n)) - std::exp(q / n) + 20 + std::numbers::e_v<LD>) }; } },
        { "Levy", maker<Levy>(), 1, 0, [](const Vec& x, size_t) { auto w = [](LD a) { return 1 + (a - 1) / 4; }; LD s = sq(std::sin(PI * w(x[0]))); for (size_t i = 0; i + 1 < x.size(); i++) s += sq(w(x[i]) - 1) * (1 + 10 * sq(std::sin(PI * w(x[i]) + 1))); s += sq(w(x.back()) - 1) * (1 + sq(std::sin(2 * PI * w(x.back())))); return Vec{ -s }; } } };
    return v;
}
static LD zg(const Vec& x) { LD s = 0; for (size_t i = 1; i < x.size(); i++) s += x[i]; return s / LD(x.size() - 1); }
static const std::vector<Real>& multi()
{
    static const std::vector<Real> v = {
        { "Kursawe", maker<Kursawe>(), 2, 0, [](const Vec& x, size_t) { LD a = 0, b = 0; for (size_t i = 0; i + 1 < x.size(); i++) a += 10 * std::exp(-0.2L * std::sqrt(x[i] * x[i] + x[i + 1] * x[i + 1])); for (LD y : x) b -= std::pow(std::abs(y), 0.8L) + 5 * std::sin(y * y * y); return Vec{ a, b }; } },
        { "ZDT1", maker<ZDT1>(), 2, 0, [](const Vec& x, size_t) { const LD g = 1 + 9 * zg(x); return Vec{ -x[0], -g * (1 - std::sqrt(x[0] / g)) }; } },
        { "ZDT2", maker<ZDT2>(), 2, 0, [](const Vec& x, size_t) { const LD g = 1 + 9 * zg(x); return Vec{ -x[0], -g * (1 - sq(x[0] / g)) }; } },
        { "ZDT3", maker<ZDT3>(), 2, 0, [](const Vec& x, size_t) { const LD g = 1 + 9 * zg(x); return Vec{ -x[0], -g * (1 - std::sqrt(x[0] / g) - x[0] / g * std::sin(10 * PI * x[0])) }; } },
        { "ZDT4", maker<ZDT4>(), 2, 0, [](const Vec& x, size_t) { LD g = 1 + 10 * LD(x.size() - 1); for (size_t i = 1; i < x.size(); i++) g += x[i] * x[i] - 10 * std::cos(4 * PI * x[i]); return Vec{ -x[0], -g * (1 - std::sqrt(x[0] / g)) }; } },
        { "ZDT6", maker<ZDT6>(), 2, 0, [](const Vec& x, size_t) { const LD f = 1 - std::exp(-4 * x[0]) * std::pow(std::sin(6 * PI * x[0]), 6.0L), g = 1 + 9 * std::pow(zg(x), 0.25L); return Vec{ -f, -g * (1 - sq(f / g)) }; } } };
    return v;
}
static const std::vector<Real>& many()
{
    static const std::vector<Real> v = [] { std::vector<Real> r; auto add = [&](std::string n, auto mk, int w, size_t k) { r.push_back({ n, mk, 2, k - 1, [w](const Vec& x, size_t m) { return dtlz(w, x, m); } }); };
        add("DTLZ1", maker<DTLZ1>(), 1, 5); add("DTLZ2", maker<DTLZ2>(), 2, 10); add("DTLZ3", maker<DTLZ3>(), 3, 10); add("DTLZ4", maker<DTLZ4>(), 4, 10); add("DTLZ5", maker<DTLZ5>(), 5, 10); add("DTLZ6", maker<DTLZ6>(), 6, 10); add("DTLZ7", maker<DTLZ7>(), 7, 20); return r; }();
    return v;
}
static std::vector<double> dv(const FitnessVector& f) { return { f.begin(), f.end() }; }
static void close_to(const std::string& what, const std::vector<double>& got, const std::vector<LD>& want, size_t n)
{
    PBT_CHECK(got.size() == want.size(), what, ": ", got.size(), " objectives instead of ", want.size());
    LD top = 0; for (LD w : want) top = std::max(top, std::abs(w));
    for (size_t i = 0; i < got.size(); i++) PBT_CHECK(std::abs(got[i] - want[i]) <= 1e-9L * (1 + top) * (1 + LD(n)), what, ": objective ", i, " is ", got[i], " instead of ", double(want[i]));
}
static Vec wide(const RVec& x) { return Vec(x.begin(), x.end()); }

// Points: anywhere, on a coarse grid, at the corners, near the optimum, on the stated optimal set.
static RVec gen_point(pbt::Case& c, const BenchmarkFunction<RealGene>& f)
{
    const auto& b = f.bounds(); RVec x(b.size()); const unsigned k = unsigned(c.raw(6)); const auto& o = f.optimum();
    for (size_t i = 0; i < x.size(); i++)
    {
        const double lo = b[i].lower(), hi = b[i].upper();
        switch (k)
        {
            case 0: x[i] = lo + (hi - lo) * c.unit(); break;
            case 1: x[i] = lo + (hi - lo) * double(c.range(0, 20)) / 20; break;
            case 2: x[i] = c.pick({ lo, hi, o[i], (lo + hi) / 2 }); break;
            case 3: x[i] = c.chance(1, std::max<size_t>(1, x.size() / 3)) ? o[i] + (hi - lo) * (c.unit() - 0.5) * 1e-3 : o[i]; break;
            case 4: x[i] = c.chance(1, 3) ? lo + (hi - lo) * c.unit() : o[i]; break;
            default: x[i] = o[i] + (hi - lo) * (c.unit() - 0.5) * 0.05;
        }
        x[i] = std::clamp(x[i], lo, hi);
    }
    return x;
}
static bool nontriv(const BenchmarkFunction<RealGene>& f, const RVec& x) { size_t d = 0; for (size_t i = 0; i < x.size(); i++) d += x[i] != f.optimum()[i]; return d >= std::min<size_t>(2, x.size()); }
static bool dominates(const std::vector<double>& a, const std::vector<double>& b, double margin) { bool some = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; some |= a[i] > b[i] + margin; } return some; }

static void consistent(const BenchmarkFunction<RealGene>& f, size_t n, size_t bits, size_t m)
{
    using FR = FitnessFunctionBase<RealGene>; using FB = FitnessFunctionBase<BinaryGene>;
    PBT_CHECK(f.num_vars() == n && static_cast<const FR&>(f).chrom_len() == n, f.num_vars(), " variables instead of ", n);
    PBT_CHECK(static_cast<const FB&>(f).chrom_len() == n * bits, "the binary chromosomes have ", static_cast<const FB&>(f).chrom_len(), " bits instead of ", n * bits);
    PBT_CHECK(!static_cast<const FR&>(f).is_dynamic() && !static_cast<const FB&>(f).is_dynamic(), "the problem is dynamic");
    PBT_CHECK(f.bounds().size() == n && f.optimum().size() == n, f.bounds().size(), " bounds and an optimum of ", f.optimum().size(), " variables for ", n);
    PBT_CHECK(f.num_objectives() == m && f.optimal_value().size() == m && f.ideal_point().size() == m && f.nadir_point().size() == m, "inconsistent number of objectives");
    for (size_t i = 0; i < n; i++) PBT_CHECK(f.bounds()[i].lower() < f.bounds()[i].upper() && f.bounds()[i].lower() <= f.optimum()[i] && f.optimum()[i] <= f.bounds()[i].upper(), "variable ", i, " of the optimum, ", f.optimum()[i], ", is outside of its bounds");
    close_to("the optimum", dv(f(f.optimum())), [&] { Vec w; for (double v : f.optimal_value()) w.push_back(v); return w; }(), 10 * n * (n > 100 ? 3 : 1) + (f.name() == "Schwefel" ? 1000000 : 0)); // the stated location of Schwefel's optimum is rounded to 4 digits
    for (size_t i = 0; i < m; i++) PBT_CHECK(f.ideal_point()[i] >= f.nadir_point()[i] && f.ideal_point()[i] >= f.optimal_value()[i] && f.nadir_point()[i] <= f.optimal_value()[i], "the optimal value is not between the nadir and the ideal point in objective ", i);
}
static Chromosome<BinaryGene> gen_bits(pbt::Case& c, size_t n, size_t bits)
{
    Chromosome<BinaryGene> b(n * bits); const unsigned k = unsigned(c.raw(4));
    for (size_t i = 0; i < n; i++) { const unsigned kk = k == 3 ? unsigned(c.raw(4)) : k; for (size_t j = 0; j < bits; j++) b[i * bits + j] = BinaryGene(kk == 0 ? c.flip() : kk == 1 ? 0 : kk == 2 ? 1 : (j == 0 || j + 1 == bits) ? c.flip() : 0); }
    return b;
}
static Vec decode(const BenchmarkFunction<RealGene>& f, const Chromosome<BinaryGene>& b, size_t bits)
{
    Vec x(f.num_vars());
    for (size_t i = 0; i < x.size(); i++)
    {
        LD v = 0, w = 1, top = 0; for (size_t j = bits; j-- > 0; w *= 2) { v += w * b[i * bits + j]; top += w; }
        const LD lo = f.bounds()[i].lower(), hi = f.bounds()[i].upper(); x[i] = std::clamp(lo + (hi - lo) * (v / top), lo, hi);
    }
    return x;
}
static void evaluate(pbt::Case& c, const Real& R, const BenchmarkFunction<RealGene>& f, size_t m, size_t bits)
{
    const RVec x = gen_point(c, f); c.nontrivial(nontriv(f, x)); c.showv("x", std::vector<double>(x.begin(), x.end()));
    const auto v = dv(f(x)); close_to(R.name, v, R.ref(wide(x), m), x.size());
    PBT_CHECK(dv(f(x)) == v, "evaluating twice gives different values");
    const auto best = dv(f.optimal_value()), ideal = dv(f.ideal_point()); const double tol = 1e-8 * (1 + double(x.size()));
    if (m == 1) PBT_CHECK(v[0] <= best[0] + tol, "the value ", v[0], " exceeds the optimal value ", best[0]);
    else
    {
        PBT_CHECK(!dominates(v, best, 1e-6), pbt::str(v), " dominates the optimum ", pbt::str(best));
        for (size_t i = 0; i < m; i++) PBT_CHECK(v[i] <= ideal[i] + 1e-9 + (R.name == "Kursawe" ? 0.01 * std::abs(ideal[i]) : 0), "objective ", i, " is ", v[i], ", above the ideal point ", ideal[i]);
    }
    const auto b = gen_bits(c, f.num_vars(), bits); const Vec y = decode(f, b, bits); c.showv("bits", std::vector<int>(b.begin(), b.end()));
    const auto w = dv(f(b)); close_to(R.name + " with binary encoding", w, R.ref(y, m), y.size());
    { RVec z(y.begin(), y.end()); Vec ww(w.begin(), w.end()); close_to("binary and real encodings", dv(f(z)), ww, y.size()); }
}
PBT_PROP(single_objective, 6000, 300000)
{
    const auto& R = single()[c.raw(single().size())]; const size_t n = c.chance(1, 20) ? c.range<size_t>(50, 300) : c.size(1, 20), bits = c.chance(1, 10) ? c.range<size_t>(1, 70) : c.pick({ size_t(1), size_t(2), size_t(8), size_t(31), size_t(32), size_t(33) });
    c.show("problem", R.name).show("n", n).show("bits", bits); c.label(R.name);
    const auto f = R.make(n, bits); consistent(*f, n, bits, 1);
    PBT_CHECK(f->name() == R.name && dv(f->ideal_point()) == dv(f->optimal_value()) && dv(f->nadir_point()) == dv(f->optimal_value()), "the ideal, nadir and optimal values of a single-objective problem differ");
    for (int k = 0; k < 4; k++) evaluate(c, R, *f, 1, bits);
}
// The stated optimal set of the multi-objective problems (none is stated for Kursawe).
static RVec optimal_point(pbt::Case& c, const std::string& name, const BenchmarkFunction<RealGene>& f, size_t m)
{
    RVec x(f.num_vars());
    if (name[0] == 'Z') { x[0] = c.chance(1, 5) ? double(c.raw(2)) : c.unit(); if (name == "ZDT3") { static const double s[5][2] = { { 0, 0.0830015349 }, { 0.1822287280, 0.2577623634 }, { 0.4093136748, 0.4538821041 }, { 0.6183967944, 0.6525117038 }, { 0.8233317983, 0.8518328654 } }; const auto* r = s[c.raw(5)]; x[0] = r[0] + (r[1] - r[0]) * c.unit() * 0.999; } return x; }
    for (size_t i = 0; i < x.size(); i++) x[i] = i + 1 < m ? (c.chance(1, 4) ? double(c.raw(2)) : c.unit()) : name == "DTLZ6" || name == "DTLZ7" ? 0.0 : 0.5;
    return x;
}
static void front(pbt::Case& c, const Real& R, const BenchmarkFunction<RealGene>& f, size_t m)
{
    if (R.name == "Kursawe") return;
    const RVec p = optimal_point(c, R.name, f, m); const auto v = dv(f(p)); const bool approx = R.name == "ZDT3" || R.name == "ZDT6"; c.showv("optimal", std::vector<double>(p.begin(), p.end()));
    for (size_t i = 0; i < m; i++) PBT_CHECK(v[i] >= f.nadir_point()[i] * (1 + 1e-9 + 0.01 * approx) - 1e-9, "the optimal point ", pbt::str(v), " is below the nadir point in objective ", i, ": ", f.nadir_point()[i]);
    if (R.name.starts_with("DTLZ") && R.name != "DTLZ7") { double s = 0; for (double y : v) s += R.name == "DTLZ1" ? -y : y * y; PBT_CHECK(std::abs(s - (R.name == "DTLZ1" ? 0.5 : 1.0)) < 1e-9, "the optimal point ", pbt::str(v), " is not on the documented surface"); }
    if (R.name == "DTLZ7") return; // only a part of the stated set is optimal
    for (int k = 0; k < 3; k++)
    {
        RVec x = k == 0 ? gen_point(c, f) : p; if (k == 1) { const size_t a = c.raw(x.size()), b = c.raw(x.size()); for (size_t i : { a, b }) x[i] = std::clamp(x[i] + (c.unit() - 0.5) * c.pick({ 1.0, 0.1, 1e-3 }), double(f.bounds()[i].lower()), double(f.bounds()[i].upper())); } if (k == 2) x = optimal_point(c, R.name, f, m);
        const auto w = dv(f(x)); PBT_CHECK(!dominates(w, v, 1e-6), pbt::str(w), " at ", pbt::str(std::vector<double>(x.begin(), x.end())), " dominates the optimal point ", pbt::str(v));
    }
}
static void front_ends(const std::string& name, const BenchmarkFunction<RealGene>& f, size_t n) // published points are rounded
{
    if (name != "ZDT3" && name != "ZDT6") return;
    RVec x(n); x[0] = name == "ZDT3" ? 0.851832865436414 : 0.0809; const auto v = dv(f(x)); // the end of the front with the best second (ZDT3) or the best first objective (ZDT6)
    if (name == "ZDT3") PBT_CHECK(std::abs(v[0] - f.nadir_point()[0]) < 0.01 && std::abs(v[1] - f.ideal_point()[1]) < 0.03 && f.ideal_point()[0] == 0 && f.nadir_point()[1] == -1, "the nadir or ideal point is not at the ends of the front");
    else PBT_CHECK(std::abs(v[1] - f.nadir_point()[1]) < 0.01 && f.ideal_point()[1] == 0 && f.nadir_point()[0] == -1 && v[0] <= f.ideal_point()[0], "the nadir or ideal point is not at the ends of the front");
}
PBT_PROP(multi_objective, 5000, 300000)
{
    const auto& R = multi()[c.raw(multi().size())]; const size_t n = c.chance(1, 20) ? c.range<size_t>(50, 300) : c.size(2, 20), bits = c.chance(1, 10) ? c.range<size_t>(1, 70) : c.pick({ size_t(1), size_t(8), size_t(32) });
    c.show("problem", R.name).show("n", n).show("bits", bits); c.label(R.name);
    const auto f = R.make(n, bits); consistent(*f, n, bits, 2); PBT_CHECK(f->name() == R.name, "the problem is called ", f->name());
    for (int k = 0; k < 3; k++) { evaluate(c, R, *f, 2, bits); front(c, R, *f, 2); }
    front_ends(R.name, *f, n);
    if (R.name == "ZDT1" || R.name == "ZDT2" || R.name == "ZDT4")
    {
        RVec x(n); const auto a = dv((*f)(x)); x[0] = 1; const auto b = dv((*f)(x));
        for (size_t i = 0; i < 2; i++) PBT_CHECK(std::abs(std::max(a[i], b[i]) - f->ideal_point()[i]) < 1e-9 && std::abs(std::min(a[i], b[i]) - f->nadir_point()[i]) < 1e-9, "the ideal or nadir point is not attained at the ends of the front in objective ", i);
    }
}
PBT_PROP(many_objective, 5000, 300000)
{
    const auto& R = many()[c.raw(many().size())]; const size_t m = c.chance(1, 30) ? c.range<size_t>(20, 120) : c.size(2, 12), n = m + R.extra, bits = c.chance(1, 10) ? c.range<size_t>(1, 70) : c.pick({ size_t(1), size_t(8), size_t(32) });
    c.show("problem", R.name).show("objectives", m).show("bits", bits); c.label(R.name);
    const auto f = R.make(m, bits); consistent(*f, n, bits, m); PBT_CHECK(f->name() == R.name, "the problem is called ", f->name());
    for (int k = 0; k < 3; k++) { evaluate(c, R, *f, m, bits); front(c, R, *f, m); }
    if (R.name == "DTLZ7" && m <= 60) // each variable of the position at the best or at the worst point of the front
    {
        RVec x(n, 0.0); const auto worst = dv((*f)(x)); for (size_t i = 0; i + 1 < m; i++) x[i] = 0.859400856644724; const auto best = dv((*f)(x));
        PBT_CHECK(std::abs(best[m - 1] - f->ideal_point()[m - 1]) < 1e-4 * m && std::abs(worst[m - 1] - f->nadir_point()[m - 1]) < 1e-9 * m, "the last objective ranges over [", worst[m - 1], ", ", best[m - 1], "] on the front, but the nadir and ideal points say [", f->nadir_point()[m - 1], ", ", f->ideal_point()[m - 1], "]");
        for (size_t i = 0; i + 1 < m; i++) PBT_CHECK(f->ideal_point()[i] == 0, "the ideal point of objective ", i, " is ", f->ideal_point()[i]);
    }
    if (R.name != "DTLZ7" && m <= 12) // the corners of the front reach the nadir and the ideal point
    {
        std::vector<double> lo(m, INFINITY), hi(m, -INFINITY);
        for (size_t kind = 0; kind < 2; kind++) for (size_t j = 0; j < m; j++)
        {
            RVec x(n, R.name == "DTLZ6" ? 0.0 : 0.5); for (size_t i = 0; i + 1 < m; i++) x[i] = kind ? i < j : i == j;
            const auto v = dv((*f)(x)); for (size_t i = 0; i < m; i++) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); }
        }
        for (size_t i = 0; i < m; i++) PBT_CHECK(std::abs(lo[i] - f->nadir_point()[i]) < 1e-9 && std::abs(hi[i] - f->ideal_point()[i]) < 1e-9, "objective ", i, " ranges over [", lo[i], ", ", hi[i], "] on the front, but the nadir and ideal points say [", f->nadir_point()[i], ", ", f->ideal_point()[i], "]");
    }
}
PBT_PROP(zdt5, 1500, 60000)
{
    const size_t n = c.size(2, 30), len = 30 + 5 * (n - 1); ZDT5 f(n); c.show("n", n);
    PBT_CHECK(f.num_vars() == len && f.chrom_len() == len && f.bounds().size() == len && f.optimum().size() == len && f.num_objectives() == 2 && f.name() == "ZDT5", "inconsistent sizes");
    const auto opt = dv(f(f.optimum())); PBT_CHECK(std::abs(opt[0] - f.optimal_value()[0]) < 1e-12 && std::abs(opt[1] - f.optimal_value()[1]) < 1e-12, "the optimum evaluates to ", pbt::str(opt));
    for (int k = 0; k < 4; k++)
    {
        Chromosome<BinaryGene> b(len); const unsigned kind = unsigned(c.raw(4)); const unsigned num = unsigned(c.range(0, 8));
        for (size_t i = 0; i < len; i++) b[i] = BinaryGene(kind == 0 ? c.flip() : kind == 1 ? c.raw(8) < num : kind == 2 && i >= 30 ? 1 : c.chance(7, 8)); if (c.chance(1, 6)) std::fill(b.begin(), b.begin() + 30, BinaryGene(c.raw(2)));
        size_t d = 0; for (auto x : b) d += !x; c.nontrivial(d >= 2); c.showv("bits", std::vector<int>(b.begin(), b.end()));
        LD f1 = 1, g = 0; for (size_t i = 0; i < 30; i++) f1 += b[i]; bool all = true; for (size_t j = 0; j < n - 1; j++) { int u = 0; for (size_t i = 0; i < 5; i++) u += b[30 + 5 * j + i]; g += u == 5 ? 1 : 2 + u; all &= u == 5; }
        const auto v = dv(f(b)); close_to("ZDT5", v, { -f1, -g / f1 }, n);
        for (size_t i = 0; i < 2; i++) { PBT_CHECK(v[i] <= f.ideal_point()[i] + 1e-12, "above the ideal point"); if (all) PBT_CHECK(v[i] >= f.nadir_point()[i] - 1e-12, "an optimal point is below the nadir point"); }
        PBT_CHECK(!dominates(v, dv(f.optimal_value()), 1e-12), pbt::str(v), " dominates the optimum"); if (!all) { std::fill(b.begin() + 30, b.end(), BinaryGene(1)); PBT_CHECK(dominates(dv(f(b)), v, 1e-12), "setting every bit after the first variable does not improve the solution"); }
    }
}
PBT_PROP(string_finder, 1500, 60000)
{
    std::string s(c.size(1, 40), ' '); for (auto& x : s) x = char(c.range(32, 126)); StringFinder f(s); c.show("target", s);
    PBT_CHECK(f.num_vars() == s.size() && f.chrom_len() == s.size() && f.bounds().size() == s.size() && f.num_objectives() == 1, "inconsistent sizes");
    for (auto& b : f.bounds()) PBT_CHECK(b.lower() <= 32 && b.upper() >= 126, "the bounds do not cover the printable characters");
    PBT_CHECK(f.optimum().size() == s.size(), "the stated optimum has ", f.optimum().size(), " genes instead of ", s.size());
    PBT_CHECK(dv(f(f.optimum())) == dv(f.optimal_value()) && f.optimal_value()[0] == double(s.size()) && dv(f.ideal_point()) == dv(f.optimal_value()) && dv(f.nadir_point()) == dv(f.optimal_value()), "the optimum does not attain the optimal value");
    for (int k = 0; k < 4; k++)
    {
        Chromosome<IntegerGene> x(s.size()); size_t match = 0; const auto p = c.range<size_t>(0, 4);
        for (size_t i = 0; i < s.size(); i++) { x[i] = c.chance(p, 4) ? IntegerGene(s[i]) : IntegerGene(c.range(32, 127)); match += x[i] == s[i]; }
        c.nontrivial(match + 2 <= s.size()); const double v = f(x)[0]; PBT_CHECK(v == double(match), "a string matching ", match, " characters scores ", v);
    }
}
using City = TSP::Coords;
static LD length(const std::vector<City>& t) { LD s = 0; for (size_t i = 0; i < t.size(); i++) { const auto &a = t[i], &b = t[(i + 1) % t.size()]; s += std::sqrt(sq(LD(a[0]) - b[0]) + sq(LD(a[1]) - b[1])); } return s; }
PBT_PROP(tours, 3000, 150000)
{
    const size_t n = c.chance(1, 12) ? c.range<size_t>(40, 120) : c.size(2, 20); c.show("cities", n); c.nontrivial(n >= 4);
    std::vector<City> cities(n); const unsigned kind = unsigned(c.raw(3)); for (auto& [x, y] : cities) { x = kind == 0 ? double(c.range(-5, 5)) : kind == 1 ? c.unit() * 1000 : std::ldexp(c.unit() - 0.5, int(c.range(-10, 30))); y = kind == 0 ? double(c.range(-5, 5)) : kind == 1 ? c.unit() * 1000 : std::ldexp(c.unit() - 0.5, int(c.range(-10, 30))); }
    const double claimed = -double(c.range(1, 1000)); TSP f(cities, claimed);
    PBT_CHECK(f.num_vars() == n - 1 && f.chrom_len() == n - 1 && f.bounds().size() == n - 1 && f.num_objectives() == 1 && f.optimal_value()[0] == claimed && f.ideal_point()[0] == claimed && f.nadir_point()[0] == claimed, "inconsistent sizes or optimal value");
    for (auto& b : f.bounds()) PBT_CHECK(b.lower() == 0 && b.upper() == n - 2, "the bounds are [", b.lower(), ", ", b.upper(), "] for ", n, " cities");
    const auto p = c.perm(n - 1); Chromosome<PermutationGene> x(p.begin(), p.end()); std::vector<City> t; for (size_t i : p) t.push_back(cities[i]); t.push_back(cities[n - 1]); c.showv("tour", p);
    const LD L = length(t), tol = 1e-12L * (1 + L) * LD(n); const double v = f(x)[0];
    PBT_CHECK(f(x).size() == 1 && std::abs(v + L) <= tol, "the tour scores ", v, ", its length is ", double(L));
    std::reverse(x.begin(), x.end()); PBT_CHECK(std::abs(f(x)[0] - v) <= tol, "the reversed tour scores ", f(x)[0], " instead of ", v); std::reverse(x.begin(), x.end());
    // the same cyclic tour, starting from any of its cities
    const size_t r = c.raw(n); std::rotate(t.begin(), t.begin() + r, t.end()); TSP g(t, claimed); std::iota(x.begin(), x.end(), size_t(0)); PBT_CHECK(std::abs(g(x)[0] - v) <= tol, "the rotated tour scores ", g(x)[0], " instead of ", v);
    // translated, reflected and scaled cities
    if (kind != 2) { auto u = t; const double k = c.pick({ 0.5, 2.0, 4.0 }); for (auto& [a, b] : u) { std::swap(a, b); a = -a * k; b = b * k + 8; } TSP h(u, claimed); PBT_CHECK(std::abs(h(x)[0] - k * v) <= 10 * tol * LD(k), "scaling the cities by ", k, " changes the score from ", v, " to ", h(x)[0]); }
}
struct Inst { std::unique_ptr<TSP> f; size_t n; long opt; const std::vector<int>* tour; };
static const std::vector<Inst>& instances()
{
    static const std::vector<Inst> v = [] { std::vector<Inst> r; auto add = [&](auto f, size_t n, long o, const std::vector<int>& t) { r.push_back({ std::move(f), n, o, &t }); };
        add(std::make_unique<TSP52>(), 52, 7542, tour52); add(std::make_unique<TSP76>(), 76, 108159, tour76); add(std::make_unique<TSP124>(), 124, 59030, tour124); add(std::make_unique<TSP152>(), 152, 73682, tour152);
        add(std::make_unique<TSP226>(), 226, 80369, tour226); add(std::make_unique<TSP299>(), 299, 48191, tour299); add(std::make_unique<TSP439>(), 439, 107217, tour439); return r; }();
    return v;
}
PBT_PROP(known_instances, 300, 10000)
{
    // The published optima are of distances rounded to integers, so a tour of n cities may be shorter by up to n/2.
    const auto& I = instances()[c.raw(instances().size())]; const size_t n = I.n; c.show("cities", n); c.nontrivial();
    PBT_CHECK(I.f->num_vars() == n - 1 && I.f->chrom_len() == n - 1 && I.f->bounds().size() == n - 1 && I.f->name() == "TSP" + std::to_string(n), "inconsistent sizes");
    PBT_CHECK(I.f->optimal_value()[0] == -double(I.opt) && I.f->ideal_point()[0] == -double(I.opt), "the stated optimal value is ", I.f->optimal_value()[0]);
    auto score = [&](std::vector<int> t) { std::rotate(t.begin(), std::find(t.begin(), t.end(), int(n - 1)) + 1, t.end()); Chromosome<PermutationGene> x(t.begin(), t.end() - 1); return (*I.f)(x)[0]; };
    std::vector<int> t = *I.tour; { auto s = t; std::sort(s.begin(), s.end()); for (size_t i = 0; i < n; i++) PBT_CHECK(s.size() == n && s[i] == int(i), "bad stored tour"); }
    const double best = score(t); PBT_CHECK(std::abs(best + double(I.opt)) <= double(n) / 2, "the known optimal tour scores ", best, ", the optimal value is ", -I.opt);
    const size_t muts = c.size(1, 10); for (size_t k = 0; k < muts; k++) { size_t a = c.raw(n), b = c.raw(n); if (a > b) std::swap(a, b); if (c.flip()) std::reverse(t.begin() + a, t.begin() + b); else std::rotate(t.begin() + a, t.begin() + (a + b) / 2, t.begin() + b); }
    const double v = score(t); PBT_CHECK(v <= -double(I.opt) + double(n) / 2, "a tour scores ", v, ", above the optimal value ", -I.opt);
}
