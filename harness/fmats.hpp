// Generated fitness matrices and brute-force dominance oracles.
#pragma once
#include "pbt.hpp"
#include "gapp.hpp"

namespace fm
{
    using namespace gapp;
    using Row = std::vector<double>;
    using Rows = std::vector<Row>;

    inline FitnessMatrix mat(const Rows& r) { FitnessMatrix m; for (auto& x : r) m.append_row(FitnessVector(x.begin(), x.end())); return m; }

    struct Gen { Rows rows; size_t n = 0, m = 0; bool exact = false; };

    // Values are equal or differ by more than the default tolerances unless exact is set (zero tolerances).
    inline Gen gen(pbt::Case& c, size_t min_rows, size_t max_rows, size_t min_obj, size_t max_obj, bool infs = true)
    {
        Gen g;
        g.n = c.size(min_rows, max_rows); g.m = c.range<size_t>(min_obj, max_obj);
        const int kind = c.raw(8);
        g.exact = c.chance(1, 2);
        if (kind == 6) g.exact = true;
        const int K = c.pick({ 2, 3, 5, 12 });
        for (size_t i = 0; i < g.n; i++)
        {
            Row r(g.m);
            if (i && c.chance(1, 8)) { r = g.rows[c.raw(i)]; if (c.flip()) r[c.raw(g.m)] += 1; g.rows.push_back(r); continue; }
            switch (kind)
            {
                case 0: case 1: case 2: for (auto& x : r) x = double(c.range(0, K)) - (kind == 1 ? K / 2 : 0); break;
                case 3: { double s = 0; for (auto& x : r) { x = double(c.range(1, 100)); s += x; } for (auto& x : r) x = std::round(x / s * 1e6); break; } // near a simplex: large first front
                case 4: { const double t = double(c.range(0, 30)); for (size_t k = 0; k < g.m; k++) r[k] = k + 1 < g.m ? t + double(c.range(0, 1)) : (c.flip() ? t : -t); break; } // chains
                case 5: for (auto& x : r) x = std::round(c.real(-1e9, 1e9)); break;
                case 6: { const double b = c.pick({ 0.0, 1.0 }); for (auto& x : r) x = b + 1e-13 * c.range(0, 5); break; } // exact only
                default: for (auto& x : r) x = infs ? c.pick({ 0.0, 1.0, -1.0, 2.0, math::inf<double>, -math::inf<double>, 1e300, -1e300 }) : c.pick({ 0.0, 1.0, -1.0, 2.0, 1e100, -1e100 }); break;
            }
            g.rows.push_back(r);
        }
        c.os << "rows=" << g.n << " obj=" << g.m << (g.exact ? " exact " : " ");
        for (size_t i = 0; i < std::min<size_t>(g.n, 40); i++) { c.os << "("; for (double x : g.rows[i]) c.os << x << " "; c.os << ")"; }
        return g;
    }
    inline bool dominates(const Row& a, const Row& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; s |= a[i] > b[i]; } return s; }
    inline std::vector<size_t> ranks(const Rows& r)
    {
        std::vector<size_t> k(r.size(), SIZE_MAX); size_t left = r.size();
        for (size_t level = 0; left; level++)
        {
            std::vector<size_t> now;
            for (size_t i = 0; i < r.size(); i++)
            {
                if (k[i] != SIZE_MAX) continue;
                bool d = false; for (size_t j = 0; j < r.size() && !d; j++) d = k[j] == SIZE_MAX && dominates(r[j], r[i]);
                if (!d) now.push_back(i);
            }
            for (size_t i : now) k[i] = level;
            left -= now.size();
        }
        return k;
    }
    struct Tol { std::optional<math::ScopedTolerances> t; Tol(bool e) { if (e) t.emplace(0.0, 0.0); } };
    inline void threads(size_t n) { if (execution_threads() != n) execution_threads(n); }
}
