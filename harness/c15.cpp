#include "ctx.hpp"
#include "crossover/crossover_impl.hpp"
using namespace gapp; using namespace gapp::crossover;
PBT_RULE("A case is one application of an operator to a pair of permutations; it is non-trivial if the length is at least three and the parents differ.");

template<typename T> using V = std::vector<T>;
template<typename T> static V<T> vec(const Chromosome<T>& c) { return V<T>(c.begin(), c.end()); }

// Reference implementations, from the definitions.
template<typename T> static bool in(const V<T>& v, T x) { return std::find(v.begin(), v.end(), x) != v.end(); }
template<typename T> static size_t at(const V<T>& v, T x) { return std::find(v.begin(), v.end(), x) - v.begin(); }
template<typename T> static V<T> order1(const V<T>& a, const V<T>& b, size_t f, size_t l)
{
    const size_t n = a.size(); V<T> seg(a.begin() + f, a.begin() + l), c = a, rest;
    for (size_t i = 0; i < n; i++) if (const T g = b[(l + i) % n]; !in(seg, g)) rest.push_back(g);
    for (size_t i = 0; i < rest.size(); i++) c[(l + i) % n] = rest[i];
    return c;
}
template<typename T> static V<T> fill(const V<T>& a, const V<T>& b, const V<bool>& keep)
{
    V<T> kept, rest, c = a; for (size_t i = 0; i < a.size(); i++) if (keep[i]) kept.push_back(a[i]);
    for (T g : b) if (!in(kept, g)) rest.push_back(g);
    for (size_t i = 0, k = 0; i < a.size(); i++) if (!keep[i]) c[i] = rest[k++];
    return c;
}
static V<bool> segment(size_t n, size_t f, size_t l) { V<bool> k(n); for (size_t i = f; i < l; i++) k[i] = true; return k; }
template<typename T> static V<T> pmx(const V<T>& a, const V<T>& b, size_t f, size_t l)
{
    V<T> seg(a.begin() + f, a.begin() + l), c = b;
    for (size_t i = 0; i < a.size(); i++)
    {
        if (f <= i && i < l) { c[i] = a[i]; continue; }
        T g = b[i]; while (in(seg, g)) g = b[at(a, g)];
        c[i] = g;
    }
    return c;
}
template<typename T> static std::pair<V<T>, V<T>> cycle(const V<T>& a, const V<T>& b)
{
    V<T> x = a, y = b; V<bool> done(a.size()); bool odd = false;
    for (size_t s = 0; s < a.size(); s++)
    {
        if (done[s]) continue;
        for (size_t i = s; !done[i]; i = at(a, b[i])) { done[i] = true; if (odd) { x[i] = b[i]; y[i] = a[i]; } }
        odd = !odd;
    }
    return { x, y };
}
// Edge crossover: every next gene is an unused parental neighbour of the last one with the fewest unused neighbours of its own;
// another unused gene is only used if it has fewer unused neighbours than all of these.
template<typename T> static void check_edge(const V<T>& a, const V<T>& b, const V<T>& c, size_t& new_edges)
{
    const size_t n = a.size();
    auto nbs = [&](T g) { std::set<T> s; for (auto* p : { &a, &b }) { const size_t i = at(*p, g); if (i > 0) s.insert((*p)[i - 1]); if (i + 1 < n) s.insert((*p)[i + 1]); } return s; };
    PBT_CHECK(c[0] == a[0], "edge crossover: the child does not start with the first gene of its parent");
    std::set<T> used{ c[0] };
    for (size_t k = 1; k < n; k++)
    {
        auto free = [&](T g) { size_t r = 0; for (T x : nbs(g)) r += !used.count(x); return r; };
        auto nb = nbs(c[k - 1]); size_t best = SIZE_MAX; for (T x : nb) if (!used.count(x)) best = std::min(best, free(x));
        if (nb.count(c[k])) PBT_CHECK(free(c[k]) == best, "edge crossover: gene ", k, " has ", free(c[k]), " unused neighbours, another neighbour of the last gene has ", best);
        else { PBT_CHECK(free(c[k]) < best, "edge crossover: the edge to gene ", k, " is not in the parents, although a neighbour of the last gene with ", best, " unused neighbours was available (the gene used has ", free(c[k]), ")"); new_edges++; }
        used.insert(c[k]);
    }
}
template<typename T> static void same_elements(const V<T>& a, const V<T>& c, const char* name) { auto x = a, y = c; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); PBT_CHECK(x == y, name, ": the child is not a permutation: ", ctx::vs(c)); }

// Pairs of permutations: unrelated, or the second one obtained by a few moves.
template<typename T> static std::pair<V<T>, V<T>> gen_parents(pbt::Case& c, size_t maxn)
{
    const size_t n = c.wide(1, maxn, maxn * 10);
    auto p = c.perm<size_t>(n), q = p;
    switch (c.raw(6))
    {
        case 0: break;
        case 1: if (n > 1) std::swap(q[c.raw(n)], q[c.raw(n)]); break;
        case 2: std::rotate(q.begin(), q.begin() + c.raw(n), q.end()); break;
        case 3: { size_t f = c.raw(n + 1), l = c.raw(n + 1); if (f > l) std::swap(f, l); std::reverse(q.begin() + f, q.begin() + l); break; }
        default: q = c.perm<size_t>(n);
    }
    V<T> vals(n); for (size_t i = 0; i < n; i++) vals[i] = T(i);
    if constexpr (!std::is_unsigned_v<T>)
    {
        const T mul = T(c.pick({ 1, 7, -3 })), add = T(c.pick({ 0, -5, 1000 }));
        for (auto& v : vals) v = T(v * mul + add);
    }
    V<T> a(n), b(n); for (size_t i = 0; i < n; i++) a[i] = vals[p[i]], b[i] = vals[q[i]];
    c.os << "n=" << n << " p1=" << ctx::vs(a) << " p2=" << ctx::vs(b) << ' ';
    c.nontrivial(n >= 3 && a != b);
    return { a, b };
}
template<typename T> static Candidate<T> cd(const V<T>& v) { return Candidate<T>(Chromosome<T>(v.begin(), v.end())); }
template<typename T> static void eq(const Candidate<T>& got, const V<T>& want, const char* name) { PBT_CHECK(vec(got.chromosome) == want, name, " returned ", ctx::vs(got.chromosome), " instead of ", ctx::vs(want)); }

template<typename T> static void impl(pbt::Case& c, const char* type)
{
    auto [a, b] = gen_parents<T>(c, 40); const size_t n = a.size();
    const auto p1 = cd(a), p2 = cd(b);
    size_t f = c.range<size_t>(0, n), l = c.range<size_t>(0, n); if (f > l) std::swap(f, l);
    const int op = c.raw(6); c.show("type", type).show("op", op).show("first", f).show("last", l); c.label(type);
    switch (op)
    {
        case 0: if (l - f < n) eq(dtl::order1CrossoverImpl(p1, p2, f, l), order1(a, b, f, l), "order1"); break;
        case 1: eq(dtl::order2CrossoverImpl(p1, p2, f, l), fill(a, b, segment(n, f, l)), "order2"); break;
        case 2: { V<bool> k(n); V<size_t> idx; for (size_t i : c.perm(n)) if (c.flip()) { k[i] = true; idx.push_back(i); } c.showv("idx", idx); eq(dtl::positionCrossoverImpl(p1, p2, idx), fill(a, b, k), "position"); break; }
        case 3: { auto [x, y] = dtl::cycleCrossoverImpl(p1, p2); auto [wx, wy] = cycle(a, b); eq(x, wx, "cycle"); eq(y, wy, "cycle"); break; }
        case 4: { if (n < 2) break; auto x = vec(dtl::edgeCrossoverImpl(p1, p2).chromosome); same_elements(a, x, "edge"); size_t ne = 0; check_edge(a, b, x, ne); break; }
        default: eq(dtl::pmxCrossoverImpl(p1, p2, f, l), pmx(a, b, f, l), "pmx"); break;
    }
    PBT_CHECK(vec(p1.chromosome) == a && vec(p2.chromosome) == b, "a parent was modified");
}
PBT_PROP(implementations, 200000, 10000000) { switch (c.raw(3)) { case 0: impl<int>(c, "int"); break; case 1: impl<unsigned>(c, "unsigned"); break; default: impl<size_t>(c, "size_t"); } }

// The operators as used by the GA, with their own random choices.
static const char* names[] = { "Order1", "Order2", "Position", "Cycle", "Edge", "PMX" };
static std::unique_ptr<Crossover<PermutationGene>> make(int op)
{
    switch (op) { case 0: return std::make_unique<perm::Order1>(1.0); case 1: return std::make_unique<perm::Order2>(1.0); case 2: return std::make_unique<perm::Position>(1.0); case 3: return std::make_unique<perm::Cycle>(1.0); case 4: return std::make_unique<perm::Edge>(1.0); default: return std::make_unique<perm::PMX>(1.0); }
}
static void check_children(int op, const V<PermutationGene>& a, const V<PermutationGene>& b, const V<PermutationGene>& x, const V<PermutationGene>& y, size_t& new_edges)
{
    const size_t n = a.size();
    same_elements(a, x, names[op]); same_elements(a, y, names[op]);
    if (n < 2 || a == b) { PBT_CHECK((x == a && y == b) || (x == b && y == a), names[op], ": the children of equal (or one-element) parents differ from them"); return; }
    auto exists = [&](auto ref) { for (size_t f = 0; f < n; f++) for (size_t l = f + 1; l <= n; l++) if (l - f < n && ref(a, b, f, l) == x && ref(b, a, f, l) == y) return true; return false; };
    switch (op)
    {
        case 0: PBT_CHECK(exists(order1<PermutationGene>), "Order1: no segment explains the children ", ctx::vs(x), " and ", ctx::vs(y)); break;
        case 1: PBT_CHECK(exists([&](auto& p, auto& q, size_t f, size_t l) { return fill(p, q, segment(n, f, l)); }), "Order2: no segment explains the children ", ctx::vs(x), " and ", ctx::vs(y)); break;
        case 2:
        {
            V<bool> k(n); size_t cnt = 0; for (size_t i = 0; i < n; i++) if (x[i] == a[i] && y[i] == b[i]) { k[i] = true; cnt++; }
            PBT_CHECK(cnt >= 1 && fill(a, b, k) == x && fill(b, a, k) == y, "Position: no set of positions explains the children ", ctx::vs(x), " and ", ctx::vs(y)); break;
        }
        case 3: { auto [wx, wy] = cycle(a, b); PBT_CHECK(x == wx && y == wy, "Cycle: children ", ctx::vs(x), " and ", ctx::vs(y), " instead of ", ctx::vs(wx), " and ", ctx::vs(wy)); break; }
        case 4: check_edge(a, b, x, new_edges); check_edge(b, a, y, new_edges); break;
        default: PBT_CHECK(exists(pmx<PermutationGene>), "PMX: no segment explains the children ", ctx::vs(x), " and ", ctx::vs(y)); break;
    }
}
static void operators(pbt::Case& c, size_t maxn, size_t times)
{
    auto [a, b] = gen_parents<PermutationGene>(c, maxn); const size_t n = a.size();
    const int op = c.raw(6); c.show("op", names[op]); c.label(names[op]);
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    PermutationGA ga(1); ctx::run(ga, n);
    auto p1 = ctx::cand(Chromosome<PermutationGene>(a.begin(), a.end())), p2 = ctx::cand(Chromosome<PermutationGene>(b.begin(), b.end()));
    auto x = make(op); std::set<V<PermutationGene>> seen; size_t ne = 0;
    for (size_t t = 0; t < times; t++)
    {
        auto [k1, k2] = (*x)(ga, p1, p2);
        check_children(op, a, b, vec(k1.chromosome), vec(k2.chromosome), ne);
        seen.insert(vec(k1.chromosome));
    }
    if (ne) c.label("Edge: new edge");
    c.show("different children", seen.size());
}
PBT_PROP(operators_short, 40000, 2000000) { operators(c, 8, 4); }
PBT_PROP(operators_long, 12000, 500000) { operators(c, 30, 2); }
// The random choices vary: all segments (and position sets) of short chromosomes are used.
PBT_PROP(choices_vary, 300, 10000)
{
    const size_t n = c.range<size_t>(3, 6); const int op = c.pick({ 0, 1, 2, 5 });
    c.show("n", n).show("op", names[op]);
    auto a = c.perm<PermutationGene>(n), b = c.perm<PermutationGene>(n);
    if (a == b) std::reverse(b.begin(), b.end());
    c.os << "p1=" << ctx::vs(a) << " p2=" << ctx::vs(b) << ' ';
    rng::prng.seed(c.raw(1u << 30)); ctx::one_thread();
    PermutationGA ga(1); ctx::run(ga, n);
    auto p1 = ctx::cand(Chromosome<PermutationGene>(a.begin(), a.end())), p2 = ctx::cand(Chromosome<PermutationGene>(b.begin(), b.end()));
    std::set<V<PermutationGene>> want, got;
    if (op == 2) { for (size_t m = 1; m + 1 < (size_t(1) << n); m++) { V<bool> k(n); for (size_t i = 0; i < n; i++) k[i] = (m >> i) & 1; want.insert(fill(a, b, k)); } }
    else for (size_t f = 0; f < n; f++) for (size_t l = f + 1; l <= n; l++) if (l - f < n) want.insert(op == 0 ? order1(a, b, f, l) : op == 1 ? fill(a, b, segment(n, f, l)) : pmx(a, b, f, l));
    auto x = make(op);
    for (size_t t = 0; t < 6000; t++) got.insert(vec((*x)(ga, p1, p2).first.chromosome));
    for (auto& w : want) PBT_CHECK(got.count(w), names[op], ": the child ", ctx::vs(w), " was never produced in 6000 applications");
    PBT_CHECK(got == want, names[op], ": unexpected children");
    c.nontrivial();
}
