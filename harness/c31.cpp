#include "pbt.hpp"
#include "elems.hpp"
#include "utility/algorithm.hpp"
#include "utility/bit.hpp"
#include "utility/circular_buffer.hpp"
#include "utility/functional.hpp"
#include "utility/indestructible.hpp"
#include "utility/iterators.hpp"
#include "utility/matrix.hpp"
#include "utility/scope_exit.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <vector>
using namespace gapp;
PBT_RULE("A case is a sequence (or a pair of iterators, a callable, a word) and the operations on it; it is non-trivial if the sequence has at least 3 elements, or the word is neither all zeros nor all ones.");
PBT_ASSUME("Comparators are strict weak orders; sequences hold no NaN; selected indices are valid (and distinct when the elements are moved out).");
using V = std::vector<int>;
template<typename C> static V ints(const C& c) { V v; for (const auto& x : c) v.push_back(el::read(x)); return v; }
static V gen(pbt::Case& c, size_t lo = 0)
{
    const size_t n = c.chance(1, 6) ? c.range<size_t>(40, 300) : c.chance(1, 4) ? c.range<size_t>(lo, 70) : c.size(lo, 20); const int lim = int(c.pick({ 1, 3, 10, 1000 }));
    V v(n); for (auto& x : v) x = c.range(-lim, lim); if (c.chance(1, 6)) std::sort(v.begin(), v.end()); if (c.chance(1, 10)) std::sort(v.rbegin(), v.rend()); if (c.chance(1, 12) && n) std::fill(v.begin(), v.end(), v[0]);
    c.showv("v", v); c.nontrivial(n >= 3); return v;
}
static bool is_perm_of(const auto& idx, size_t n) { std::vector<size_t> s(idx.begin(), idx.end()); std::sort(s.begin(), s.end()); for (size_t i = 0; i < s.size(); i++) if (s[i] != i) return false; return s.size() == n; }
// A comparator with large classes of equivalent elements, called with its arguments from the range only.
struct Mod { int m; bool operator()(int a, int b) const { return ((a % m) + m) % m < ((b % m) + m) % m; } };
template<typename Comp> static void sorts(pbt::Case& c, const V& v, Comp comp, const char* name)
{
    const size_t n = v.size(), k = c.chance(1, 2) ? c.range<size_t>(0, n) : c.range<size_t>(0, n / 4); c.show("comp", name).show("k", k);
    auto judge = [&](const auto& idx, bool rev, size_t prefix, const char* what)
    {
        PBT_CHECK(is_perm_of(idx, n), what, " does not return a permutation of the indices: ", pbt::str(std::vector<size_t>(idx.begin(), idx.end())));
        auto before = [&](int a, int b) { return rev ? comp(b, a) : comp(a, b); };
        for (size_t i = 1; i < prefix; i++) PBT_CHECK(!before(v[idx[i]], v[idx[i - 1]]), what, " with ", name, rev ? " (reversed)" : "", " puts element ", v[idx[i - 1]], " before ", v[idx[i]], " at position ", i);
        if (prefix > 0) for (size_t i = prefix; i < n; i++) PBT_CHECK(!before(v[idx[i]], v[idx[prefix - 1]]), what, " with ", name, rev ? " (reversed)" : "", " leaves element ", v[idx[i]], " out of the first ", prefix, " although it precedes ", v[idx[prefix - 1]]);
    };
    const V orig = v;
    judge(detail::argsort(v.begin(), v.end(), comp), false, n, "argsort"); judge(detail::argsort(v.rbegin(), v.rend(), comp), true, n, "argsort");
    judge(detail::partial_argsort(v.begin(), v.begin() + k, v.end(), comp), false, k, "partial_argsort"); judge(detail::partial_argsort(v.rbegin(), v.rbegin() + k, v.rend(), comp), true, k, "partial_argsort");
    const std::deque<int> d(v.begin(), v.end()); judge(detail::argsort(d.begin(), d.end(), comp), false, n, "argsort of a deque"); judge(detail::argsort(d.crbegin(), d.crend(), comp), true, n, "argsort of a reversed deque");
    if (n) { // inside of a larger sequence
        const size_t a = c.raw(n), b = c.range<size_t>(a, n); const auto idx = detail::argsort(v.begin() + a, v.begin() + b, comp); PBT_CHECK(is_perm_of(idx, b - a), "argsort of a subrange does not return the indices in the subrange"); for (size_t i = 1; i < idx.size(); i++) PBT_CHECK(!comp(v[a + idx[i]], v[a + idx[i - 1]]), "argsort of a subrange is not sorted");
    }
    PBT_CHECK(v == orig, "the sequence was modified");
}
PBT_PROP(sorting, 6000, 300000)
{
    const V v = gen(c);
    switch (c.raw(4))
    {
        case 0: sorts(c, v, std::less<>{}, "less"); break;
        case 1: sorts(c, v, std::greater<>{}, "greater"); break;
        case 2: sorts(c, v, Mod{ int(c.range(1, 4)) }, "mod"); break;
        default: sorts(c, v, [](int a, int b) { return std::abs(a) < std::abs(b); }, "abs");
    }
    PBT_CHECK(detail::argsort(v.begin(), v.end()).size() == v.size(), "default comparator"); { const auto idx = detail::argsort(v.begin(), v.end()); for (size_t i = 1; i < idx.size(); i++) PBT_CHECK(v[idx[i - 1]] <= v[idx[i]], "argsort with the default comparator is not ascending"); }
    const size_t n = c.range<size_t>(0, 40), first = c.range<size_t>(0, 5); const auto iv = detail::index_vector(n, first); PBT_CHECK(iv.size() == n, "index_vector has ", iv.size(), " elements"); for (size_t i = 0; i < n; i++) PBT_CHECK(iv[i] == first + i, "index_vector[", i, "] is ", iv[i]);
}
PBT_PROP(searching, 6000, 300000)
{
    const V v = gen(c); const size_t n = v.size(); auto probe = [&] { return n && c.chance(2, 3) ? v[c.raw(n)] + int(c.range(-1, 1)) * int(c.chance(1, 2)) : int(c.range(-1100, 1100)); };
    { // the bounds
        V s = v; std::sort(s.begin(), s.end()); const int x = probe();
        PBT_CHECK(detail::lower_bound(s.begin(), s.end(), x) == std::lower_bound(s.begin(), s.end(), x), "lower_bound of ", x, " is at ", detail::lower_bound(s.begin(), s.end(), x) - s.begin(), " in ", pbt::str(s));
        PBT_CHECK(detail::lower_bound(s.rbegin(), s.rend(), x, std::greater<>{}) == std::lower_bound(s.rbegin(), s.rend(), x, std::greater<>{}), "lower_bound of ", x, " in the descending sequence ", pbt::str(s));
        const Mod m{ int(c.range(1, 4)) }; std::sort(s.begin(), s.end(), m); PBT_CHECK(detail::lower_bound(s.begin(), s.end(), x, m) == std::lower_bound(s.begin(), s.end(), x, m), "lower_bound with equivalent elements in ", pbt::str(s));
        const double sum = c.unit(); std::vector<double> cdf; double acc = 0; for (int y : v) { acc += std::abs(y); cdf.push_back(acc); } if (n) PBT_CHECK(detail::lower_bound(cdf.begin(), cdf.end(), sum * acc) == std::lower_bound(cdf.begin(), cdf.end(), sum * acc), "lower_bound in a cumulative sum");
    }
    { // the extremes: the first one of equal elements
        auto f = [](int x) { return std::abs(x) % 7; }; const std::list<int> l(v.begin(), v.end());
        auto firstmax = [&](auto b, auto e, auto fn) { auto r = b; for (auto it = b; it != e; ++it) if (fn(*it) > fn(*r)) r = it; return r; }; auto firstmin = [&](auto b, auto e, auto fn) { auto r = b; for (auto it = b; it != e; ++it) if (fn(*it) < fn(*r)) r = it; return r; };
        PBT_CHECK(detail::max_element(v.begin(), v.end()) == std::max_element(v.begin(), v.end()) && detail::min_element(v.begin(), v.end()) == std::min_element(v.begin(), v.end()), "max_element or min_element of ", pbt::str(v));
        PBT_CHECK(detail::max_element(v.begin(), v.end(), f) == firstmax(v.begin(), v.end(), f) && detail::min_element(l.begin(), l.end(), f) == firstmin(l.begin(), l.end(), f), "max_element or min_element with a transform");
        if (n)
        {
            PBT_CHECK(detail::argmax(v.begin(), v.end(), f) == size_t(firstmax(v.begin(), v.end(), f) - v.begin()) && detail::argmin(v.begin(), v.end(), f) == size_t(firstmin(v.begin(), v.end(), f) - v.begin()), "argmax or argmin with a transform");
            PBT_CHECK(detail::argmax(v.rbegin(), v.rend()) == size_t(v.rend() - std::max_element(v.rbegin(), v.rend())) - 1, "argmax of the reversed sequence is ", detail::argmax(v.rbegin(), v.rend())); PBT_CHECK(detail::argmin(v.rbegin(), v.rend()) == size_t(v.rend() - std::min_element(v.rbegin(), v.rend())) - 1, "argmin of the reversed sequence is ", detail::argmin(v.rbegin(), v.rend()));
        }
    }
    { const int a = c.range(-3, 3), b = c.range(-3, 3), d = c.range(-3, 3), e = c.range(-3, 3); PBT_CHECK(detail::max(a, b) == std::max(a, b) && detail::min(a, b) == std::min(a, b) && detail::max(a, b, d) == std::max({ a, b, d }) && detail::min(a, b, d) == std::min({ a, b, d }) && detail::max(a, b, d, e) == std::max({ a, b, d, e }) && detail::min(a, b, d, e) == std::min({ a, b, d, e }), "min or max of ", a, " ", b, " ", d, " ", e); }
    const int x = probe(); const std::forward_list<int> fl(v.begin(), v.end()); const auto pos = std::find(v.begin(), v.end(), x); const std::optional<size_t> want = pos == v.end() ? std::optional<size_t>() : size_t(pos - v.begin());
    PBT_CHECK(detail::contains(v.begin(), v.end(), x) == want.has_value() && detail::contains(fl.begin(), fl.end(), x) == want.has_value(), "contains(", x, ")"); PBT_CHECK(detail::index_of(v, x) == want, "index_of(", x, ")");
    const int m = c.range(1, 4); auto pred = [m](int y) { return y % m == 0; }; V all; std::vector<size_t> idx; for (size_t i = 0; i < n; i++) if (pred(v[i])) { all.push_back(v[i]); idx.push_back(i); }
    const auto fi = detail::find_index(v, pred); PBT_CHECK(fi == (idx.empty() ? std::optional<size_t>() : idx[0]), "find_index"); const auto fis = detail::find_indices(v, pred); PBT_CHECK(std::vector<size_t>(fis.begin(), fis.end()) == idx, "find_indices gives ", pbt::str(std::vector<size_t>(fis.begin(), fis.end())));
    const auto fa = detail::find_all(v.begin(), v.end(), pred), fb = detail::find_all(fl.begin(), fl.end(), pred); PBT_CHECK(V(fa.begin(), fa.end()) == all && V(fb.begin(), fb.end()) == all, "find_all gives ", pbt::str(V(fa.begin(), fa.end())));
}
PBT_PROP(modifying, 6000, 300000)
{
    using E = el::E<el::NoThrow>; el::w().reset(); const V v = gen(c); const size_t n = v.size();
    {
        V a = v, b = v, r(n); for (auto& x : r) x = c.range(-10, 10); const small_vector<int> sr(r.begin(), r.end()); detail::elementwise_min(a, r, detail::inplace_t{}); detail::elementwise_max(b, sr, detail::inplace_t{});
        for (size_t i = 0; i < n; i++) PBT_CHECK(a[i] == std::min(v[i], r[i]) && b[i] == std::max(v[i], r[i]), "elementwise_min or elementwise_max at ", i); PBT_CHECK(a.size() == n && b.size() == n, "elementwise operations change the size");
    }
    { const int x = n && c.chance(3, 4) ? v[c.raw(n)] : 5000; V a = v, w = v; std::list<int> l(v.begin(), v.end()); const auto it = std::find(w.begin(), w.end(), x); const bool has = it != w.end(); if (has) w.erase(it); PBT_CHECK(detail::erase_first_stable(a, x) == has && a == w && detail::erase_first_stable(l, x) == has && V(l.begin(), l.end()) == w, "erase_first_stable(", x, ") gives ", pbt::str(a)); small_vector<int, 4> s(v.begin(), v.end()); PBT_CHECK(detail::erase_first_stable(s, x) == has && V(s.begin(), s.end()) == w, "erase_first_stable from a small_vector"); }
    { V a = v; small_vector<int, 4> s(v.begin(), v.end()); const std::set<int> u(v.begin(), v.end()); detail::erase_duplicates(a); detail::erase_duplicates(s); PBT_CHECK(a == V(u.begin(), u.end()) && V(s.begin(), s.end()) == a, "erase_duplicates gives ", pbt::str(a)); }
    {
        std::vector<E> src; for (int x : v) src.push_back(el::make<E>(x)); std::vector<size_t> idx; if (n) { const size_t k = c.size(0, 20); for (size_t i = 0; i < k; i++) idx.push_back(c.raw(n)); }
        auto want = [&] { V w; for (size_t i : idx) w.push_back(v[i]); return w; };
        const auto& cs = src; PBT_CHECK(ints(detail::select(cs, idx)) == want() && ints(detail::select(src, idx)) == want(), "select of a const or lvalue sequence"); PBT_CHECK(ints(src) == v, "select changed an lvalue sequence");
        std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end()); if (c.flip()) { std::mt19937 g(unsigned(c.raw(1000))); std::shuffle(idx.begin(), idx.end(), g); }
        small_vector<E> sv; for (int x : v) sv.push_back(el::make<E>(x)); PBT_CHECK(ints(detail::select(std::move(sv), idx)) == want(), "select from an rvalue small_vector"); const auto moved = detail::select(std::move(src), idx); PBT_CHECK(ints(moved) == want(), "select from an rvalue sequence");
        std::vector<el::E<el::MoveOnly>> mo; for (int x : v) mo.emplace_back(x); const auto got = detail::select(std::move(mo), idx); PBT_CHECK(ints(got) == want(), "select of move-only elements");
    }
    PBT_CHECK(el::w().live.empty() && el::w().bad.empty(), el::w().bad, " ", el::w().live.size(), " elements leaked");
}
PBT_PROP(shuffles, 400, 12000)
{
    std::mt19937_64 g(c.raw(1u << 30)); const V v = gen(c); const size_t n = v.size(), k = c.range<size_t>(0, n);
    V a = v; detail::partial_shuffle(a.begin(), a.begin() + k, a.end(), g); { V s = a, t = v; std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end()); PBT_CHECK(s == t, "partial_shuffle gives ", pbt::str(a), " from ", pbt::str(v)); }
    if (k == 0) PBT_CHECK(a == v, "an empty partial_shuffle changed the sequence");
    const size_t m = c.range<size_t>(2, 5), p = c.range<size_t>(1, std::min<size_t>(m, 3)); const int N = 3000; std::map<V, int> seen; c.show("m", m).show("p", p);
    for (int i = 0; i < N; i++) { V b(m); std::iota(b.begin(), b.end(), 0); detail::partial_shuffle(b.begin(), b.begin() + p, b.end(), g); V pre(b.begin(), b.begin() + p); std::sort(b.begin(), b.end()); for (size_t j = 0; j < m; j++) PBT_CHECK(b[j] == int(j), "not a permutation"); seen[pre]++; }
    double outcomes = 1; for (size_t i = 0; i < p; i++) outcomes *= double(m - i); PBT_CHECK(double(seen.size()) == outcomes, seen.size(), " of the ", outcomes, " arrangements of ", p, " out of ", m, " occur"); for (auto& [k2, cnt] : seen) PBT_CHECK(pbt::plausible_count(cnt, N, 1 / outcomes), "the arrangement ", pbt::str(k2), " occurs ", cnt, " times in ", N, ", 1 in ", outcomes, " expected");
}
// Longer sequences: each element is equally likely at each of the shuffled positions, and the rest keeps what was not picked.
PBT_PROP(shuffles_long, 400, 12000)
{
    std::mt19937_64 g(c.raw(1u << 30)); const size_t m = c.size(2, 70), p = c.range<size_t>(1, m), pos = c.range<size_t>(0, p - 1); const int N = 60 * int(m); c.show("m", m).show("p", p).show("position", pos);
    std::vector<int> seen(m); V b(m);
    for (int i = 0; i < N; i++) { std::iota(b.begin(), b.end(), 0); detail::partial_shuffle(b.begin(), b.begin() + p, b.end(), g); seen[b[pos]]++; }
    for (size_t v = 0; v < m; v++) PBT_CHECK(pbt::plausible_count(seen[v], N, 1.0 / double(m)), "element ", v, " is at position ", pos, " in ", seen[v], " of ", N, " shuffles, 1 in ", m, " expected");
    c.nontrivial();
}
// A random walk with an iterator, next to the index that it should be at.
template<typename It, typename Get> static void walk(pbt::Case& c, It first, It last, std::ptrdiff_t n, Get get, const char* what)
{
    PBT_CHECK(last - first == n && first - last == -n, what, ": the distance of the ends is ", last - first, " and ", first - last, ", not ", n); It a = first, b = last; std::ptrdiff_t i = 0, j = n; c.os << " " << what << ":";
    const size_t steps = c.size(1, 25);
    for (size_t s = 0; s < steps; s++)
    {
        const auto op = c.raw(10); const std::ptrdiff_t to = c.range<std::ptrdiff_t>(0, n), d = to - i; c.os << op << "(" << d << ")";
        switch (op)
        {
            case 0: if (i < n) { auto& r = ++a; i++; PBT_CHECK(&r == &a, what, ": ++ does not return the iterator"); } break;
            case 1: if (i > 0) { auto& r = --a; i--; PBT_CHECK(&r == &a, what, ": -- does not return the iterator"); } break;
            case 2: if (i < n) { It old = a++; PBT_CHECK(old - first == i, what, ": postfix ++ returns the iterator at ", old - first); i++; } break;
            case 3: if (i > 0) { It old = a--; PBT_CHECK(old - first == i, what, ": postfix -- returns the iterator at ", old - first); i--; } break;
            case 4: a += d; i = to; break;
            case 5: a -= -d; i = to; break;
            case 6: a = a + d; i = to; break;
            case 7: a = d + a; i = to; break;
            case 8: a = a - (-d); i = to; break;
            default: std::swap(a, b); std::swap(i, j);
        }
        PBT_CHECK(a - first == i && first - a == -i && last - a == n - i && a - last == i - n, what, ": the iterator is at ", a - first, " (", first - a, ") instead of ", i); PBT_CHECK(a - b == i - j && b - a == j - i, what, ": the distance from ", j, " to ", i, " is ", a - b);
        PBT_CHECK((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), what, ": the iterators at ", i, " and ", j, " compare wrong");
        if (i < n) PBT_CHECK(get(*a) == get(*(first + i)) && get(a[0]) == get(*a), what, ": wrong element at ", i); if (n) { const auto k = c.range<std::ptrdiff_t>(0, n - 1); PBT_CHECK(get(a[k - i]) == get(first[k]), what, ": wrong element at offset ", k - i, " from ", i); }
    }
}
PBT_PROP(iterators, 4000, 200000)
{
    const V v = gen(c); const auto n = std::ptrdiff_t(v.size()); auto id = [](int x) { return x; }; V w = v; const V& cv = v;
    switch (c.raw(5))
    {
        case 0: walk(c, detail::stable_begin(w), detail::stable_end(w), n, id, "stable"); { auto it = detail::stable_begin(w); for (int x : v) PBT_CHECK(*it++ == x, "wrong element of a stable iterator"); const auto cap = w.capacity(); auto keep = detail::stable_begin(w); if (n) { keep += n - 1; w.reserve(cap * 2 + 10); PBT_CHECK(*keep == v.back(), "the iterator did not survive a reallocation"); *keep = 77; PBT_CHECK(w.back() == 77, "assignment through the iterator"); } detail::const_stable_iterator<V> conv = keep; PBT_CHECK(conv - detail::stable_cbegin(w) == (n ? n - 1 : 0), "conversion to a const iterator"); } break;
        case 1: walk(c, detail::stable_begin(cv), detail::stable_end(cv), n, id, "const stable"); walk(c, detail::stable_cbegin(w), detail::stable_cend(w), n, id, "cstable"); break;
        case 2:
        {
            detail::circular_buffer<int> r(v.size() + c.range<size_t>(1, 5)); const size_t pre = c.range<size_t>(0, 10); for (size_t i = 0; i < pre; i++) r.push_back(-1); for (int x : v) r.push_back(x); while (r.size() > v.size()) r.pop_front();
            walk(c, r.begin(), r.end(), n, id, "ring"); walk(c, r.cbegin(), r.cend(), n, id, "const ring"); walk(c, r.rbegin(), r.rend(), n, id, "reversed ring"); size_t i = 0; for (int x : r) PBT_CHECK(x == v[i++], "wrong element of a ring");
            V s(r.begin(), r.end()); std::sort(s.begin(), s.end()); std::sort(r.begin(), r.end()); PBT_CHECK(V(r.begin(), r.end()) == s, "sorting a ring"); std::reverse(r.begin(), r.end()); std::reverse(s.begin(), s.end()); PBT_CHECK(V(r.begin(), r.end()) == s, "reversing a ring"); break;
        }
        case 3:
        {
            detail::Matrix<int> m; for (int x : v) m.append_row(std::vector<int>{ x, x + 1 }); auto row = [](auto&& r) { return std::pair(int(r[0]), int(r[1])); };
            walk(c, m.begin(), m.end(), n, row, "rows"); walk(c, std::as_const(m).begin(), std::as_const(m).end(), n, row, "const rows"); break;
        }
        default:
        {
            const int lo = c.range(-1000, 1000); walk(c, detail::iota_iterator<int>(lo), detail::iota_iterator<int>(lo + int(n)), n, id, "iota"); const size_t ul = c.pick({ size_t(0), size_t(5), size_t(1) << 62, ~size_t(0) - 400 }); walk(c, detail::iota_iterator<size_t>(ul), detail::iota_iterator<size_t>(ul + size_t(n)), n, [](size_t x) { return x; }, "unsigned iota");
            int k = lo; for (auto it = detail::iota_iterator<int>(lo); it != detail::iota_iterator<int>(lo + int(n)); ++it) PBT_CHECK(*it == k++, "wrong value of an iota iterator");
        }
    }
}
struct CountedFn { int* calls; std::unique_ptr<int> state; int operator()(int x) { ++*calls; return x * *state; } };
PBT_PROP(functionals, 3000, 100000)
{
    const V v = gen(c); const int a = c.range(-9, 9), b = c.range(-9, 9), lo = std::min(a, b), hi = std::max(a, b); c.show("a", a).show("b", b);
    auto all = [&](auto f, auto g, const char* what) { const auto r = detail::map(v, f); PBT_CHECK(r.size() == v.size(), what, ": map changes the size"); for (size_t i = 0; i < v.size(); i++) PBT_CHECK(r[i] == g(v[i]), what, " of ", v[i], " is ", r[i]); };
    all(detail::multiply_by(a), [&](int x) { return x * a; }, "multiply_by"); all(detail::add(a), [&](int x) { return x + a; }, "add"); all(detail::subtract(a), [&](int x) { return x - a; }, "subtract"); all(detail::multiply_add(a, b), [&](int x) { return a * x + b; }, "multiply_add"); if (a) all(detail::divide_by(a), [&](int x) { return x / a; }, "divide_by");
    all(detail::equal_to(a), [&](int x) { return x == a; }, "equal_to"); all(detail::not_equal_to(a), [&](int x) { return x != a; }, "not_equal_to"); all(detail::greater_than(a), [&](int x) { return x > a; }, "greater_than"); all(detail::greater_eq_than(a), [&](int x) { return x >= a; }, "greater_eq_than"); all(detail::less_than(a), [&](int x) { return x < a; }, "less_than"); all(detail::less_eq_than(a), [&](int x) { return x <= a; }, "less_eq_than"); all(detail::between(lo, hi), [&](int x) { return lo <= x && x <= hi; }, "between");
    { std::vector<V> vv; for (size_t i = 0; i < v.size() && i < 10; i++) vv.emplace_back(v.begin(), v.begin() + i + 1); const auto r = detail::map(vv, detail::element_at(0)); for (int x : r) PBT_CHECK(x == v[0], "element_at(0)"); const size_t k = c.range<size_t>(0, 10); for (auto& x : vv) PBT_CHECK(detail::is_size(k)(x) == (x.size() == k), "is_size"); const std::array<int, 3> arr{ a, b, 7 }; const auto ra = detail::map(arr, detail::add(1)); PBT_CHECK(ra[0] == a + 1 && ra[1] == b + 1 && ra[2] == 8, "map of an array"); }
    // callables: the reference calls the original, the owner keeps its callable alive and destroys it once
    int calls = 0; { CountedFn f{ &calls, std::make_unique<int>(a) }; detail::function_ref<int(int)> r; PBT_CHECK(!r, "a default function_ref is not empty"); r = f; auto r2 = r; PBT_CHECK(r && r2 && r(b) == a * b && r2(3) == 3 * a && calls == 2, "function_ref calls something else"); *f.state = 5; PBT_CHECK(r(2) == 10, "function_ref does not refer to the original callable"); r = nullptr; PBT_CHECK(!r && r2, "function_ref reset"); auto g = [&](int x) { return x + b; }; r2 = g; PBT_CHECK(r2(1) == 1 + b, "function_ref reassigned"); }
    el::w().reset(); using E = el::E<el::MoveOnly>;
    { calls = 0; detail::move_only_function<int(E)> f, g; PBT_CHECK(!f, "a default move_only_function is not empty"); f = [e = E(a), &calls](E x) { calls++; return e.get() + x.get(); }; PBT_CHECK(f && f(E(b)) == a + b, "move_only_function calls something else"); const size_t live = el::w().live.size(); g = std::move(f); PBT_CHECK(g && !f && el::w().live.size() == live && g(E(1)) == a + 1, "moving a move_only_function"); f = [e = E(7)](E x) { return e.get() * x.get(); }; f.swap(g); PBT_CHECK(f(E(2)) == a + 2 && g(E(2)) == 14, "swapping move_only_functions"); detail::move_only_function<int(E)> h(std::move(g)); PBT_CHECK(h(E(3)) == 21 && calls == 3, "move constructing a move_only_function"); f = nullptr; PBT_CHECK(!f && el::w().live.size() == 1, "resetting a move_only_function leaves ", el::w().live.size(), " captured elements"); f = std::move(h); PBT_CHECK(f(E(1)) == 7, "move assigning to an empty move_only_function"); }
    PBT_CHECK(el::w().live.empty() && el::w().bad.empty(), "a captured element leaked or was destroyed twice ", el::w().bad);
    // guards
    int x = a, y = b, ran = 0; std::string s = "old"; { detail::restore_on_exit guard(x, s); x = 1000; s = "new"; y++; } PBT_CHECK(x == a && s == "old" && y == b + 1, "restore_on_exit leaves ", x, " ", s);
    const bool rel = c.flip(), thr = c.flip(); try { detail::scope_exit guard([&] { ran++; }); if (rel) guard.release(); PBT_CHECK(ran == 0, "scope_exit ran early"); if (thr) throw 1; } catch (int) {} PBT_CHECK(ran == (rel ? 0 : 1), "scope_exit ran ", ran, " times");
    { const auto live = el::w().live.size(); alignas(16) static unsigned char mem[sizeof(detail::Indestructible<el::E<el::NoThrow>>)]; auto* p = new (mem) detail::Indestructible<el::E<el::NoThrow>>(a); PBT_CHECK((*p)->get() == a && p->get().get() == a, "Indestructible holds another value"); p->~Indestructible(); PBT_CHECK(el::w().live.size() == live + 1, "Indestructible destroyed its value"); el::w().reset(); }
}
template<typename T> static void word(pbt::Case& c)
{
    constexpr size_t W = sizeof(T) * 8; using U = std::make_unsigned_t<T>; U u = 0; const unsigned k = unsigned(c.raw(3)); for (size_t i = 0; i < W; i++) u = U(u << 1 | U(k == 0 ? c.flip() : k == 1 ? 0 : 1)); if (c.flip()) u ^= U(U(1) << c.raw(W)); const T t = static_cast<T>(u); c.show("bits", W).show("word", uint64_t(u)); c.nontrivial(u != 0 && U(~u) != 0);
    auto bit = [](U x, size_t i) { return (x >> i) & 1; };
    PBT_CHECK(detail::bitsizeof<T> == W && detail::lsb(t) == bit(u, 0) && detail::msb(t) == bit(u, W - 1), "msb or lsb"); for (size_t i = 0; i < W; i++) PBT_CHECK(detail::is_nth_bit_set(t, i) == bit(u, i), "is_nth_bit_set(", i, ")");
    const size_t n = c.range<size_t>(0, W); const U r = U(detail::mask_right_n<T>(n)), l = U(detail::mask_left_n<T>(n)); for (size_t i = 0; i < W; i++) { PBT_CHECK(bit(r, i) == (i < n), "bit ", i, " of mask_right_n(", n, ") is ", bit(r, i)); PBT_CHECK(bit(l, i) == (i >= W - n), "bit ", i, " of mask_left_n(", n, ") is ", bit(l, i)); }
    const bool f = c.flip(); PBT_CHECK(U(detail::block_of<T>(f)) == (f ? U(~U(0)) : U(0)) && U(detail::ones<T>) == U(~U(0)) && detail::zeros<T> == 0 && detail::lsb_mask<T> == 1 && U(detail::msb_mask<T>) == U(U(1) << (W - 1)), "constant words");
    T a = static_cast<T>(u), b = static_cast<T>(c.raw(1u << 20)); if (b < a) std::swap(a, b); PBT_CHECK(detail::range_length(a, b) == uint64_t(b) - uint64_t(a), "range_length"); if (W < 64 || std::is_unsigned_v<T>) { unsigned __int128 d = (unsigned __int128)((__int128)b - (__int128)a); PBT_CHECK(detail::range_length(a, b) == uint64_t(d), "range_length(", +a, ", ", +b, ") is ", detail::range_length(a, b)); }
    const T mod = static_cast<T>(c.range<int>(1, 100)), x = static_cast<T>(c.range<int>(0, int(mod) - 1)); PBT_CHECK(detail::next_mod(x, mod) == (int(x) + 1) % int(mod) && detail::prev_mod(x, mod) == (int(x) + int(mod) - 1) % int(mod), "next_mod or prev_mod of ", +x, " mod ", +mod); T y = x; detail::increment_mod(y, mod); PBT_CHECK(y == detail::next_mod(x, mod), "increment_mod"); detail::decrement_mod(y, mod); PBT_CHECK(y == x, "decrement_mod");
    const T big = std::numeric_limits<T>::max(); PBT_CHECK(detail::next_mod(T(big - 1), big) == 0 && detail::prev_mod(T(0), big) == big - 1 && detail::next_mod(T(big - 2), big) == big - 1, "next_mod or prev_mod at the limit of the type");
}
PBT_PROP(words, 5000, 200000)
{
    switch (c.raw(8)) { case 0: word<uint8_t>(c); break; case 1: word<uint16_t>(c); break; case 2: word<uint32_t>(c); break; case 3: word<uint64_t>(c); break; case 4: word<int8_t>(c); break; case 5: word<int16_t>(c); break; case 6: word<int32_t>(c); break; default: word<int64_t>(c); }
}
