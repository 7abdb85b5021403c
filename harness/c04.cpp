#include "pbt.hpp"
#include "runs.hpp"
using namespace gapp; using namespace runs;
PBT_RULE("A case is one full run; it is non-trivial if the expected set of solutions has at least two members or some candidate of the compared populations is dominated, and (for kept solutions) the run had at least two generations.");
PBT_ASSUME("Fitness comparisons use zero tolerances, or the default tolerances with fitness values that differ by at least 1 when they differ (zero tolerances for real genes: a child within the tolerances of its parent is a copy of it).");

template<typename T>
static std::map<Chromosome<T>, FitnessVector> optimal(const std::vector<const Population<T>*>& pops, bool& dominated)
{
    std::map<Chromosome<T>, FitnessVector> all, best;
    for (auto* p : pops) for (auto& x : *p) all.emplace(x.chromosome, x.fitness);
    std::set<std::vector<double>> fs; for (auto& [x, f] : all) fs.insert(std::vector<double>(f.begin(), f.end()));
    std::set<std::vector<double>> opt;
    auto dom = [](const std::vector<double>& a, const std::vector<double>& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; s |= a[i] > b[i]; } return s; };
    for (auto& f : fs) { bool d = false; for (auto& h : fs) if (dom(h, f)) { d = true; break; } if (!d) opt.insert(f); else dominated = true; }
    for (auto& [x, f] : all) if (opt.count(std::vector<double>(f.begin(), f.end()))) best.emplace(x, f);
    return best;
}
template<typename T>
static void compare(const Candidates<T>& sols, const std::map<Chromosome<T>, FitnessVector>& want, const std::string& where)
{
    std::set<Chromosome<T>> seen;
    for (auto& s : sols)
    {
        if (!seen.insert(s.chromosome).second) pbt::fail(where, ": ", pbt::str(s.chromosome), " is listed twice");
        auto it = want.find(s.chromosome);
        if (it == want.end()) pbt::fail(where, ": ", pbt::str(s.chromosome), " with fitness ", pbt::str(s.fitness), " is not optimal");
        if (!(it->second == s.fitness)) pbt::fail(where, ": wrong fitness of ", pbt::str(s.chromosome));
    }
    for (auto& [x, f] : want) if (!seen.count(x)) pbt::fail(where, ": optimal candidate ", pbt::str(x), " with fitness ", pbt::str(f), " is missing");
}
template<typename T>
static void check_run(pbt::Case& c, Limits L)
{
    auto g = gen_config<T>(c, L);
    if (is_real<T> || g.desc.find("fit=hash%") == std::string::npos && g.desc.find("fit=const") == std::string::npos) g.exact = true;
    Tol tol(g.exact);
    auto ga = g.make();
    auto t = run<T>(*ga, g);
    bool dom = false; size_t nopt = 0;
    if (g.keep_all)
    {
        std::vector<const Population<T>*> pops;
        for (size_t i = 0; i < t.gens.size(); i++)
        {
            pops.push_back(&t.gens[i].pop);
            auto want = optimal<T>(pops, dom); nopt = want.size();
            compare<T>(t.gens[i].sols, want, "solutions() in generation " + std::to_string(i));
        }
        compare<T>(t.result, optimal<T>(pops, dom), "kept solutions");
        c.nontrivial((nopt >= 2 || dom) && t.gens.size() >= 2);
        c.label("keep_all");
    }
    else
    {
        auto want = optimal<T>({ &t.gens.back().pop }, dom); nopt = want.size();
        compare<T>(t.result, want, "returned solutions");
        c.nontrivial(nopt >= 2 || dom);
    }
    PBT_CHECK(same_pop<T>(ga->solutions(), t.result), "solutions() differs from the returned list");
}
// With a dynamic fitness function the copies of a chromosome may have different fitness values.
template<typename T>
static void check_dynamic(pbt::Case& c)
{
    Limits L; L.dynamic = true; L.tie_heavy = true; L.max_len = 4;
    auto g = gen_config<T>(c, L); g.dynamic = true; g.exact = true; for (auto& x : g.init) x.is_evaluated = false;
    Tol tol(true);
    auto calls = std::make_shared<std::atomic<size_t>>(0); const size_t K = c.range<size_t>(1, 5), m = g.nobj, salt = c.raw(1000);
    g.fit = [calls, K, m, salt](const Chromosome<T>& x) { const size_t n = calls->fetch_add(1); FitnessVector f(m); for (size_t k = 0; k < m; k++) f[k] = double(mix(mix(chrom_hash<T>(x) + salt, k), n % K) % 4); return f; };
    auto ga = g.make(); auto t = run<T>(*ga, g); auto& P = t.gens.back().pop;
    std::map<Chromosome<T>, std::vector<FitnessVector>> want; size_t copies = 0;
    for (auto& x : P) { bool d = false; for (auto& y : P) d |= dominates(y.fitness, x.fitness); if (!d) { auto& w = want[x.chromosome]; copies += !w.empty(); w.push_back(x.fitness); } }
    c.label(copies ? "several optimal copies" : "no optimal copies"); c.nontrivial(copies || want.size() > 1); c.show("keep_all", g.keep_all);
    std::set<Chromosome<T>> seen;
    for (auto& x : t.result)
    {
        PBT_CHECK(seen.insert(x.chromosome).second, pbt::str(x.chromosome), " is listed twice");
        if (g.keep_all) continue; // which of the copies is kept decides what it dominates later
        auto it = want.find(x.chromosome); PBT_CHECK(it != want.end(), pbt::str(x.chromosome), " is not optimal");
        PBT_CHECK(std::count(it->second.begin(), it->second.end(), x.fitness), pbt::str(x.chromosome), " has a fitness that none of its optimal copies has");
    }
    if (!g.keep_all) PBT_CHECK(seen.size() == want.size(), seen.size(), " solutions instead of ", want.size());
}
PBT_PROP(dynamic_fitness, 2000, 40000) { for_encoding(c, [&]<typename T>() { check_dynamic<T>(c); }); }
PBT_PROP(single_objective, 3000, 60000) { Limits L; L.multi = false; L.tie_heavy = true; L.max_len = 8; for_encoding(c, [&]<typename T>() { check_run<T>(c, L); }); }
PBT_PROP(mixed, 4000, 80000) { Limits L; for_encoding(c, [&]<typename T>() { check_run<T>(c, L); }); }
PBT_PROP(multi_objective_ties, 4000, 80000) { Limits L; L.tie_heavy = true; L.max_len = 8; L.max_pop = 24; for_encoding(c, [&]<typename T>() { check_run<T>(c, L); }); }
