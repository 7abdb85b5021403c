#include "pbt.hpp"
#include "utility/dynamic_bitset.hpp"
#include "utility/matrix.hpp"
#include <string>
#include <vector>
using namespace gapp;
PBT_RULE("A case is a history of operations on several bitsets (or matrices); it is non-trivial if at least 4 operations were run and a container held at least 2 words of bits (2 rows of 2 columns).");
PBT_ASSUME("Moved-from containers are only assigned to, cleared or destroyed; a row appended to a matrix is not a row of that matrix.");
using Bits = detail::dynamic_bitset;
static size_t gen_bits(pbt::Case& c) { switch (c.raw(4)) { case 0: return c.size(0, 70); case 1: return 64 * c.range<size_t>(0, 6); case 2: return size_t(std::max<long>(0, 64 * c.range<long>(0, 6) + c.range<long>(-2, 2))); default: return c.wide(0, 400, 5000); } }
static void verify(const Bits& b, const std::vector<bool>& m)
{
    const size_t n = m.size(); PBT_CHECK(b.size() == n && b.empty() == !n, "size ", b.size(), " instead of ", n);
    for (size_t i = 0; i < n; i++) PBT_CHECK(bool(b[i]) == m[i], "bit ", i, " of ", n, " is ", bool(b[i]));
    const size_t ones = size_t(std::count(m.begin(), m.end(), true)), f1 = size_t(std::find(m.begin(), m.end(), true) - m.begin()), f0 = size_t(std::find(m.begin(), m.end(), false) - m.begin());
    PBT_CHECK(b.popcount() == ones, "popcount() is ", b.popcount(), " instead of ", ones, " of ", n);
    PBT_CHECK(b.any_set() == (ones > 0) && b.none_set() == !ones && b.all_set() == (ones == n), "any ", b.any_set(), " none ", b.none_set(), " all ", b.all_set(), " with ", ones, " of ", n, " bits set");
    PBT_CHECK(b.find_first(true) == f1 && b.find_first(false) == f0, "first one at ", b.find_first(true), " instead of ", f1, ", first zero at ", b.find_first(false), " instead of ", f0, " of ", n);
}
PBT_PROP(bitsets, 30000, 1000000)
{
    const size_t nb = c.range<size_t>(1, 3), nops = c.wide(1, 30, 200); std::vector<Bits> bs; std::vector<std::vector<bool>> ms; bool big = false;
    for (size_t i = 0; i < nb; i++) { const size_t n = gen_bits(c); switch (c.raw(3)) { case 0: bs.emplace_back(); ms.emplace_back(); break; case 1: bs.emplace_back(n); ms.emplace_back(n); break; default: { const bool v = c.flip(); bs.emplace_back(n, v); ms.emplace_back(n, v); } } c.os << ms.back().size() << " "; }
    for (size_t op = 0; op < nops; op++)
    {
        const size_t i = c.raw(nb), j = c.raw(nb); Bits& b = bs[i]; auto& m = ms[i]; const size_t n = m.size(), k = n ? c.raw(n) : 0; const unsigned what = unsigned(c.raw(13)); const bool val = c.flip(); c.os << what << (val ? "t" : "f") << "@" << i << " ";
        switch (what)
        {
            case 0: if (n) { b[k] = val; m[k] = val; } break;
            case 1: if (n) { b[k].flip(); m[k] = !m[k]; } break;
            case 2: if (n) { if (val) b[k].set(); else b[k].clear(); m[k] = val; } break;
            case 3: if (n && ms[j].size()) { const size_t q = c.raw(ms[j].size()); b[k] = bs[j][q]; m[k] = ms[j][q]; } break;
            case 4: if (n) { const size_t a = c.raw(n), e = a + c.raw(n - a + 1); for (size_t q = a; q < e; q++) { b[q] = val; m[q] = val; } } break;
            case 5: case 6: case 7: { const size_t s = gen_bits(c); c.os << s << " "; if (!val && c.flip()) b.resize(s); else b.resize(s, val); m.resize(s, val); break; }
            case 8: b.fill(val); m.assign(n, val); break;
            case 9: if (c.chance(1, 3)) { b.clear(); m.clear(); } break;
            case 10: { const Bits x = ~b; std::vector<bool> y = m; y.flip(); verify(x, y); PBT_CHECK(~x == b, "the complement of the complement differs"); if (n) PBT_CHECK(!(x == b), "the complement equals the bitset"); if (val) { b = x; m = y; } break; }
            case 11: b = bs[j]; m = ms[j]; break;
            default: if (i != j) { b = std::move(bs[j]); m = std::move(ms[j]); bs[j].clear(); ms[j].clear(); } else { Bits y(b); Bits z(std::move(y)); b = std::move(z); } break;
        }
        for (size_t q = 0; q < nb; q++) verify(bs[q], ms[q]);
        PBT_CHECK((bs[i] == bs[j]) == (ms[i] == ms[j]) && (bs[i] != bs[j]) == (ms[i] != ms[j]), "equality");
        if (val && n) { const Bits copy = b; PBT_CHECK(copy == b, "a copy differs"); if (!m.empty()) { Bits d = b; d[c.raw(m.size())].flip(); PBT_CHECK(!(d == b), "bitsets that differ in one bit compare equal"); } }
        // equal contents with another history
        if (what == 8 || what == 5) { Bits d(m.size()); for (size_t q = 0; q < m.size(); q++) d[q] = m[q]; PBT_CHECK(d == b && b == d, "bitsets with the same bits compare unequal"); }
        big |= m.size() > 64;
    }
    c.nontrivial(nops >= 4 && big);
}
// ---- matrices ------------------------------------------------------------------------------------------------------
template<typename T> struct Mat
{
    using M = detail::Matrix<T>; struct Model { std::vector<std::vector<T>> r; size_t cols = 0; bool known = true; };
    static T val(int x) { if constexpr (std::is_same_v<T, std::string>) return "v" + std::to_string(x) + (x % 4 ? "" : std::string(30, '-')); else return T(x) / 2; }
    static void same_row(const auto& row, const std::vector<T>& w)
    {
        PBT_CHECK(row.size() == w.size() && row.ncols() == w.size() && row.empty() == w.empty(), "row size ", row.size(), " instead of ", w.size());
        for (size_t k = 0; k < w.size(); k++) PBT_CHECK(row[k] == w[k], "column ", k, " of a row");
        PBT_CHECK(std::equal(row.begin(), row.end(), w.begin(), w.end()) && std::equal(row.rbegin(), row.rend(), w.rbegin(), w.rend()) && row == w && w == row && std::vector<T>(row) == w, "a row differs from its elements");
        const small_vector<T> sv = row; PBT_CHECK(std::equal(sv.begin(), sv.end(), w.begin(), w.end()), "a row converted to a small_vector differs");
        if (!w.empty()) PBT_CHECK(row.front() == w.front() && row.back() == w.back(), "front or back of a row");
    }
    static void verify(M& m, const Model& w)
    {
        const M& cm = m; const size_t n = w.cols ? w.r.size() : 0;
        PBT_CHECK(m.nrows() == n && m.size() == n && m.empty() == !n, "rows ", m.nrows(), " instead of ", n); if (n || w.known) PBT_CHECK(m.ncols() == w.cols, "columns ", m.ncols(), " instead of ", w.cols);
        for (size_t i = 0; i < n; i++) { same_row(m[i], w.r[i]); same_row(cm[i], w.r[i]); for (size_t k = 0; k < w.cols; k++) PBT_CHECK(m(i, k) == w.r[i][k] && cm(i, k) == w.r[i][k] && cm.data()[i * w.cols + k] == w.r[i][k], "element ", i, ",", k); }
        size_t i = 0; for (auto row : m) same_row(row, w.r[i++]); PBT_CHECK(i == n, "iteration ends after ", i); i = 0; for (auto row : cm) same_row(row, w.r[i++]); PBT_CHECK(i == n, "iteration ends after ", i);
        for (auto it = cm.rbegin(); it != cm.rend(); ++it) same_row(*it, w.r[--i]); PBT_CHECK(i == 0, "reverse iteration");
        if (n) { same_row(m.front(), w.r.front()); same_row(cm.front(), w.r.front()); same_row(m.back(), w.r.back()); same_row(cm.back(), w.r.back()); const size_t k = n / 2; PBT_CHECK(size_t(m.end() - m.begin()) == n, "iterator distance"); same_row(*(m.begin() + std::ptrdiff_t(k)), w.r[k]); same_row(cm.begin()[std::ptrdiff_t(k)], w.r[k]); }
        for (size_t k = 0; n && k < w.cols; k++) { auto col = cm.column(k); for (size_t q = 0; q < n; q++) PBT_CHECK(col[q] == w.r[q][k], "column ", k); PBT_CHECK(col.size() == n, "column size"); }
    }
    static void run(pbt::Case& c)
    {
        const size_t nm = c.range<size_t>(1, 3), nops = c.wide(1, 30, 200); std::vector<M> xs; std::vector<Model> ws; int next = 1; bool big = false;
        auto fill = [&](size_t r, size_t k) { Model w{ std::vector(r, std::vector<T>(k)), k }; for (auto& row : w.r) for (auto& e : row) e = val(next++); return w; };
        auto build = [&](const Model& w) { M x; for (auto& row : w.r) x.append_row(row); if (w.r.empty() || !w.cols) x = M(w.r.size(), w.cols); return x; };
        for (size_t i = 0; i < nm; i++) { Model w = fill(c.wide(0, 8, 60), c.wide(0, 6, 30)); xs.push_back(build(w)); ws.push_back(w); c.os << w.r.size() << "x" << w.cols << " "; }
        for (size_t op = 0; op < nops; op++)
        {
            const size_t i = c.raw(nm), j = c.raw(nm); M& x = xs[i]; Model& w = ws[i]; const size_t n = w.cols ? w.r.size() : 0, on = ws[j].cols ? ws[j].r.size() : 0, k = n ? c.raw(n) : 0, q = on ? c.raw(on) : 0; const unsigned what = unsigned(c.raw(18)); c.os << what << "@" << i << " ";
            switch (what)
            {
                case 0: case 1: case 2: { const size_t cols = n ? w.cols : c.range<size_t>(1, 6); std::vector<T> row(cols); for (auto& e : row) e = val(next++); x.append_row(row); if (!n) w = { {}, cols }; w.r.push_back(row); w.known = true; break; }
                case 3: if (i != j && n && on && ws[j].cols == w.cols) { x.append_row(xs[j][q]); w.r.push_back(ws[j].r[q]); } break;
                case 4: if (n) { x.pop_back(); w.r.resize(n - 1); } break;
                case 5: { const size_t r = c.wide(0, 10, 80); const T v = val(next++); const size_t cols = w.known ? w.cols : x.ncols(); if (c.flip()) { x.resize(r, cols, v); w.r.resize(r, std::vector<T>(cols, v)); } else { x.resize(r, cols); w.r.resize(r, std::vector<T>(cols)); } w.cols = cols; if (!n && cols) w.r.assign(r, w.r.empty() ? std::vector<T>(cols) : w.r.back()); break; }
                case 6: { const size_t r = c.size(0, 8), cols = c.size(0, 6); const T v = val(next++); std::vector<T> flat; if (w.cols) for (auto& row : w.r) flat.insert(flat.end(), row.begin(), row.end()); flat.resize(r * cols, v); x.resize(r, cols, v); w = { std::vector(r, std::vector<T>(cols)), cols }; for (size_t a = 0; a < r * cols; a++) w.r[a / cols][a % cols] = flat[a]; break; }
                case 7: if (c.chance(1, 3)) { x.clear(); w = { {}, 0 }; } break;
                case 8: if (c.flip()) x.swap(xs[j]); else { using std::swap; swap(x, xs[j]); } if (i != j) std::swap(w, ws[j]); break;
                case 9: x = xs[j]; w = ws[j]; break;
                case 10: if (i != j) { x = std::move(xs[j]); w = ws[j]; xs[j].clear(); ws[j] = { {}, 0 }; } else { M y(x); M z(std::move(y)); x = std::move(z); } break;
                case 11: if (n) { const size_t a = c.raw(w.cols); const T v = val(next++); if (c.flip()) x(k, a) = v; else x[k][a] = v; w.r[k][a] = v; } break;
                case 12: if (n && on && ws[j].cols == w.cols) { const M& cx = xs[j]; if (c.flip()) x[k] = xs[j][q]; else x[k] = cx[q]; w.r[k] = std::vector<T>(ws[j].r[q]); } break;
                case 13: if (n) { std::vector<T> row(w.cols); for (auto& e : row) e = val(next++); if (c.flip()) x[k] = std::span<const T>(row); else std::copy(row.begin(), row.end(), x[k].begin()); w.r[k] = row; } break;
                case 14: if (n && on && ws[j].cols == w.cols) { if (c.flip()) x[k].swap(xs[j][q]); else { using std::swap; swap(x[k], xs[j][q]); } if (&w.r[k] != &ws[j].r[q]) std::swap(w.r[k], ws[j].r[q]); } break;
                case 15: if (n) { const size_t a = k, b = a + c.raw(n - a + 1); const M& cx = x; M y(cx.begin() + std::ptrdiff_t(a), cx.begin() + std::ptrdiff_t(b)); Model v{ { w.r.begin() + std::ptrdiff_t(a), w.r.begin() + std::ptrdiff_t(b) }, a == b ? 0 : w.cols }; verify(y, v); if (c.flip()) { x = y; w = v; } } break;
                case 16: { const size_t r = c.size(0, 8), cols = c.size(0, 6); const T v = val(next++); const bool init = c.flip(); x = init ? M(r, cols, v) : M(r, cols); w = { std::vector(r, std::vector<T>(cols, init ? v : T{})), cols }; break; }
                default: if (n && c.flip()) { std::vector<T> o(w.cols); for (auto& e : o) e = val(next++); auto p = o; x[k].swap(std::span<T>(p)); PBT_CHECK(p == w.r[k], "swapping a row with a span"); w.r[k] = o; } else { x.reserve(c.size(0, 20), c.size(0, 20)); } break;
            }
            for (size_t a = 0; a < nm; a++) verify(xs[a], ws[a]);
            auto flat = [](const Model& a) { return a.cols ? a.r : std::vector<std::vector<T>>{}; };
            const bool eq = flat(ws[i]) == flat(ws[j]);
            PBT_CHECK((xs[i] == xs[j]) == eq && (xs[i] != xs[j]) != eq, "matrices with ", eq ? "the same" : "different", " rows compare ", eq ? "unequal" : "equal");
            const size_t n2 = w.cols ? w.r.size() : 0, on2 = ws[j].cols ? ws[j].r.size() : 0; if (n2 && on2) { const size_t a = n2 / 2, b = on2 / 2; PBT_CHECK((xs[i][a] == xs[j][b]) == (ws[i].r[a] == ws[j].r[b]), "row comparison"); }
            big |= w.cols >= 2 && w.r.size() >= 2;
        }
        c.nontrivial(nops >= 4 && big);
    }
};
PBT_PROP(matrices, 30000, 1000000) { if (c.chance(2, 3)) Mat<double>::run(c); else Mat<std::string>::run(c); }
