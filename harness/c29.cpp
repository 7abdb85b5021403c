#include "pbt.hpp"
#include "utility/cone_tree.hpp"
#include <algorithm>
#include <numeric>
#include <vector>
using namespace gapp;
PBT_RULE("A case is a set of points and up to 20 queries; it is non-trivial if the set is larger than one leaf of the tree (at least 9 points).");
PBT_ASSUME("Coordinates are finite and below 1e100; inner products within 1e-11 |query| max|point| of each other are interchangeable (the bounds used for pruning are rounded).");
using Tree = detail::ConeTree; using Point = Tree::Point;
static double prod(const std::vector<double>& a, const auto& b) { double s = 0; auto it = b.begin(); for (double x : a) s += x * *it++; return s; }
static void check_tree(const Tree& t, const std::vector<std::vector<double>>& pts, const std::vector<double>& q, double maxnorm)
{
    const double qn = std::sqrt(std::inner_product(q.begin(), q.end(), q.begin(), 0.0)), tol = 1e-11 * qn * maxnorm;
    const auto r = t.findBestMatch(q);
    PBT_CHECK(r.elem - t.begin() >= 0 && r.elem - t.begin() < t.end() - t.begin(), "the match is not a point of the tree");
    double best = -INFINITY; size_t arg = 0; for (size_t i = 0; i < pts.size(); i++) if (const double p = prod(q, pts[i]); p > best) { best = p; arg = i; }
    const std::vector<double> found((*r.elem).begin(), (*r.elem).end());
    PBT_CHECK(std::abs(r.prod - prod(q, found)) <= tol, "the returned product is ", r.prod, ", that of the returned point is ", prod(q, found));
    PBT_CHECK(r.prod >= best - tol && r.prod <= best + tol, "the tree finds ", pbt::str(found), " with product ", r.prod, ", but ", pbt::str(pts[arg]), " has ", best, " for the query ", pbt::str(q), " (", pts.size(), " points)");
    PBT_CHECK(std::find(pts.begin(), pts.end(), found) != pts.end(), "the match ", pbt::str(found), " is not one of the points");
}
PBT_PROP(searches, 12000, 500000)
{
    const size_t n = c.chance(1, 6) ? c.size(1, 23) : c.chance(1, 8) ? c.range<size_t>(200, 900) : c.range<size_t>(1, 150), d = c.range<size_t>(1, c.chance(1, 5) ? 10 : 4);
    const unsigned kind = unsigned(c.raw(8)); const int lim = int(c.pick({ 1, 2, 5, 20 })); c.show("n", n).show("d", d).show("kind", kind);
    std::vector<std::vector<double>> pts(n, std::vector<double>(d)); const double scale = c.pick({ 1.0, 1.0, 1e-3, 1e30, 1e-30 });
    auto coord = [&]() -> double { switch (kind) { case 0: return c.range(-lim, lim); case 1: return c.range(0, lim); case 2: return c.unit(); case 3: return c.unit() * 2 - 1; case 4: return std::ldexp(c.unit() - 0.5, int(c.range(-20, 20))); default: return c.range(-lim, lim); } };
    std::vector<double> dir(d), base(d); for (auto& x : dir) x = coord(); for (auto& x : base) x = coord();
    const size_t uniq = kind == 6 ? c.range<size_t>(1, 4) : n;
    for (size_t i = 0; i < n; i++)
    {
        if (i >= uniq) pts[i] = pts[c.raw(uniq)];
        else if (kind == 5) { const double k = c.range(-lim, lim); for (size_t a = 0; a < d; a++) pts[i][a] = base[a] + k * dir[a]; } // collinear
        else if (kind == 7) { double s = 0; for (auto& x : pts[i]) { x = double(c.range(0, lim)); s += x * x; } if (s > 0) for (auto& x : pts[i]) x /= std::sqrt(s); } // directions
        else for (auto& x : pts[i]) x = coord();
    }
    if (c.chance(1, 8)) for (size_t i = 0; i < n; i++) if (c.chance(1, 3)) std::fill(pts[i].begin(), pts[i].end(), 0.0);
    if (c.chance(1, 10)) std::sort(pts.begin(), pts.end());
    double maxnorm = 0; for (auto& p : pts) { double s = 0; for (auto& x : p) { x *= scale; s += x * x; } maxnorm = std::max(maxnorm, std::sqrt(s)); }
    c.nontrivial(n >= 9);
    std::vector<Point> in; for (auto& p : pts) in.emplace_back(p.begin(), p.end());
    Tree tree(in); PBT_CHECK(tree.size() == n && tree.empty() == !n, "size ", tree.size());
    if (c.chance(1, 8)) { Tree copy(tree); Tree moved(std::move(tree)); tree = copy; if (c.flip()) tree = std::move(moved); }
    { std::vector<std::vector<double>> a, b = pts; for (auto row : tree) a.emplace_back(row.begin(), row.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); PBT_CHECK(a == b, "the tree does not hold the points it was made of"); }
    const size_t nq = c.size(1, 20);
    for (size_t k = 0; k < nq; k++)
    {
        std::vector<double> q(d); const unsigned qk = unsigned(c.raw(4));
        for (auto& x : q) x = qk == 0 ? coord() : qk == 1 ? c.range(-1, 1) : c.unit() * 2 - 1; if (qk == 3) { q = pts[c.raw(n)]; if (c.flip()) for (auto& x : q) x = -x; }
        check_tree(tree, pts, q, maxnorm);
    }
}
PBT_PROP(empty_tree, 20, 100)
{
    const Tree t; std::vector<double> q(c.range<size_t>(1, 5)); for (auto& x : q) x = c.unit(); const auto r = t.findBestMatch(q); PBT_CHECK(t.empty() && t.size() == 0 && r.elem == t.end(), "an empty tree returned a match"); const Tree u(std::span<const Point>{}); PBT_CHECK(u.empty() && u.findBestMatch(q).elem == u.end(), "an empty tree returned a match"); c.nontrivial();
}
