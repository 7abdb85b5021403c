#include "stops.hpp"
using namespace gapp; using namespace stops;
PBT_RULE("A case is a run under a generated expression of composite stop conditions; it is non-trivial if the expression has at least two operators and two leaves, and the leaves and the expression take both values in the run before its last generation.");
PBT_ASSUME("In the last allowed generation every condition requests a stop.");

// A leaf with a scripted answer for each generation, or a condition of the library, observed.
struct Leaf
{
    std::vector<char> script; Params p; bool real = false;
    size_t inits = 0, calls = 0; std::vector<size_t> gens; bool bad_order = false;
    std::shared_ptr<stopping::StopCondition> inner;
};
struct LeafCond final : stopping::StopCondition
{
    std::shared_ptr<Leaf> l;
    LeafCond(std::shared_ptr<Leaf> x) : l(std::move(x)) {}
private:
    void initialize(const GaInfo& ga) override { l->inits++; if (l->calls) l->bad_order = true; if (l->real) l->inner->initialize(ga); }
    bool stop_condition(const GaInfo& ga) override { if (l->inits != 1) l->bad_order = true; l->calls++; l->gens.push_back(ga.generation_cntr()); return l->real ? (*l->inner)(ga) : l->script[ga.generation_cntr() % l->script.size()]; }
};
// Any condition by value.
struct Any final : stopping::StopCondition
{
    std::shared_ptr<stopping::StopCondition> inner;
    template<typename S> static Any of(S s) { Any a; a.inner = std::make_shared<S>(std::move(s)); return a; }
    void initialize(const GaInfo& ga) override { inner->initialize(ga); }
    bool stop_condition(const GaInfo& ga) override { return (*inner)(ga); }
};
struct Node { int op; size_t leaf = 0; std::shared_ptr<Node> l, r; }; // 0 leaf, 1 not, 2 and, 3 or
static std::shared_ptr<Node> gen_tree(pbt::Case& c, size_t& leaves, size_t depth)
{
    auto n = std::make_shared<Node>(); n->op = depth == 0 ? 0 : int(c.raw(4));
    if (n->op == 0) { n->leaf = leaves++; return n; }
    n->l = gen_tree(c, leaves, depth - 1); if (n->op > 1) n->r = gen_tree(c, leaves, depth - 1);
    return n;
}
static std::string text(const Node& n) { switch (n.op) { case 0: return "c" + std::to_string(n.leaf); case 1: return "!" + text(*n.l); default: return "(" + text(*n.l) + (n.op == 2 ? " && " : " || ") + text(*n.r) + ")"; } }
static size_t ops(const Node& n) { return n.op == 0 ? 0 : 1 + ops(*n.l) + (n.r ? ops(*n.r) : 0); }
static bool eval(const Node& n, const std::vector<char>& v) { switch (n.op) { case 0: return v[n.leaf]; case 1: return !eval(*n.l, v); case 2: return eval(*n.l, v) && eval(*n.r, v); default: return eval(*n.l, v) || eval(*n.r, v); } }
static Any build(const Node& n, const std::vector<std::shared_ptr<Leaf>>& leaves)
{
    using namespace stopping;
    switch (n.op)
    {
        case 0: return Any::of(LeafCond(leaves[n.leaf]));
        case 1: return Any::of(!build(*n.l, leaves));
        case 2: return Any::of(build(*n.l, leaves) && build(*n.r, leaves));
        default: return Any::of(build(*n.l, leaves) || build(*n.r, leaves));
    }
}
static std::shared_ptr<Node> N(int op, std::shared_ptr<Node> l, std::shared_ptr<Node> r = {}) { auto n = std::make_shared<Node>(); n->op = op; n->l = l; n->r = r; return n; }
static std::shared_ptr<Node> LF(size_t i) { auto n = std::make_shared<Node>(); n->op = 0; n->leaf = i; return n; }

PBT_PROP(expressions, 40000, 2000000)
{
    ctx::one_thread();
    using namespace stopping;
    const size_t gens = c.wide(1, 20, 200), pop = c.pick({ 2, 1, 3 }), nobj = c.pick({ 1, 2 });
    size_t nleaves = 0; const int shape = c.raw(11); std::shared_ptr<Node> tree;
    if (shape < 5) tree = gen_tree(c, nleaves, c.range<size_t>(1, 4));
    else
    {
        nleaves = 3;
        tree = shape == 5 ? N(2, N(3, LF(0), LF(1)), LF(2)) : shape == 6 ? N(1, N(3, LF(0), N(2, LF(1), LF(2)))) : shape == 7 ? N(3, N(2, N(1, LF(0)), LF(1)), N(1, LF(2))) : shape == 8 ? N(2, N(1, N(1, LF(0))), N(1, N(1, N(1, N(3, LF(1), LF(2)))))) : shape == 9 ? N(2, N(2, LF(0), LF(1)), N(3, N(3, LF(2), LF(3)), LF(4))) : N(1, N(2, N(1, N(3, LF(0), LF(1))), N(1, LF(2))));
        if (shape == 9) nleaves = 5;
    }
    std::vector<std::shared_ptr<Leaf>> leaves; std::vector<Model> models(nleaves);
    c.show("gens", gens).show("pop", pop).show("nobj", nobj); c.os << "expression " << text(*tree) << ' ';
    for (size_t i = 0; i < nleaves; i++)
    {
        auto l = std::make_shared<Leaf>(); l->real = c.chance(1, 3);
        if (l->real) { l->p = gen_params(c, nobj, pop, gens); l->inner = make(l->p); models[i].p = l->p; }
        else { const int dens = c.raw(3); for (size_t g = 0; g < gens; g++) l->script.push_back(dens == 0 ? c.chance(1, 2) : dens == 1 ? c.chance(1, 8) : c.chance(7, 8)); c.showv("script", l->script); }
        leaves.push_back(l);
    }
    IntegerGA ga(1); ga.population_size(pop); ga.algorithm(std::make_unique<KeepKids>());
    // The whole expression is either built from type-erased parts, or directly.
    if (shape < 5 || c.flip()) ga.stop_condition(build(*tree, leaves));
    else { LeafCond a(leaves[0]), b(leaves[1]), d(leaves[2]); if (shape == 5) ga.stop_condition((a || b) && d); else if (shape == 6) ga.stop_condition(!(a || (b && d))); else if (shape == 7) ga.stop_condition((!a && b) || !d); else if (shape == 8) ga.stop_condition(!!a && !!!(b || d)); else if (shape == 9) { LeafCond e(leaves[3]), f(leaves[4]); ga.stop_condition((a && b) && ((d || e) || f)); } else ga.stop_condition(!(!(a || b) && !d)); }
    rng::prng.seed(c.raw(1u << 30));
    const size_t runs = c.pick({ 1, 1, 2 });
    for (size_t r = 0; r < runs; r++)
    {
        for (auto& l : leaves) { l->inits = l->calls = 0; l->gens.clear(); }
        for (auto& m : models) m.start(nobj);
        std::vector<Seen> seen; run(ga, std::make_shared<Rows>(gen_script(c, 2 * pop * (gens + 2), pop, nobj)), c.flip(), gens, seen);
        const size_t done = seen.size();
        std::vector<std::vector<char>> vals(done, std::vector<char>(nleaves)); std::vector<char> want(done); bool sure = true;
        for (size_t g = 0; g < done; g++)
        {
            for (size_t i = 0; i < nleaves; i++) { vals[g][i] = leaves[i]->real ? models[i].step(seen[g].fit, seen[g].evals) : leaves[i]->script[g]; sure = sure && !models[i].ambiguous; }
            want[g] = eval(*tree, vals[g]);
        }
        for (size_t i = 0; i < nleaves; i++)
        {
            PBT_CHECK(leaves[i]->inits == 1, "condition c", i, " was initialized ", leaves[i]->inits, " times in run ", r);
            PBT_CHECK(!leaves[i]->bad_order, "condition c", i, " was queried before its initialization");
            bool ok = leaves[i]->gens.size() == done; for (size_t g = 0; ok && g < done; g++) ok = leaves[i]->gens[g] == g;
            PBT_CHECK(ok, "condition c", i, " was queried in generations ", pbt::str(leaves[i]->gens), " of a run of ", done, " generations");
        }
        PBT_CHECK(done >= 1 && done <= gens, done, " generations");
        if (!sure) continue;
        for (size_t g = 0; g + 1 < done; g++) PBT_CHECK(!want[g], "the run was not stopped in generation ", g, " where the components were ", pbt::str(vals[g]), stops::text(seen));
        PBT_CHECK(done == gens || want[done - 1], "the run was stopped in generation ", done - 1, " of ", gens, " where the components were ", pbt::str(vals[done - 1]));
        bool t = false, f = false; for (size_t g = 0; g < done; g++) for (char v : vals[g]) (v ? t : f) = true;
        c.nontrivial(ops(*tree) >= 2 && nleaves >= 2 && t && f && done >= 2);
        c.label(done < gens ? "stopped early" : "all generations");
    }
}
// Every answer of the composite, also after it would have stopped the run.
struct Watch final : stopping::StopCondition
{
    Any inner; std::shared_ptr<std::vector<char>> got;
    Watch(Any i, std::shared_ptr<std::vector<char>> g) : inner(std::move(i)), got(std::move(g)) {}
    void initialize(const GaInfo& ga) override { got->clear(); inner.initialize(ga); }
    bool stop_condition(const GaInfo& ga) override { got->push_back(inner(ga)); return false; }
};
PBT_PROP(every_answer, 30000, 1500000)
{
    ctx::one_thread();
    const size_t gens = c.wide(1, 20, 200); size_t nleaves = 0; auto tree = gen_tree(c, nleaves, c.range<size_t>(1, 5));
    std::vector<std::shared_ptr<Leaf>> leaves; c.show("gens", gens); c.os << "expression " << text(*tree) << ' ';
    for (size_t i = 0; i < nleaves; i++) { auto l = std::make_shared<Leaf>(); for (size_t g = 0; g < gens; g++) l->script.push_back(c.raw(2)); leaves.push_back(l); c.showv("script", l->script); }
    auto got = std::make_shared<std::vector<char>>();
    IntegerGA ga(1); ga.algorithm(std::make_unique<KeepKids>()); ga.stop_condition(std::make_unique<Watch>(build(*tree, leaves), got));
    std::vector<Seen> seen; run(ga, std::make_shared<Rows>(Rows(4, { 1.0 })), false, gens, seen);
    PBT_CHECK(got->size() == gens, "queried ", got->size(), " times in ", gens, " generations");
    bool t = false, f = false;
    for (size_t g = 0; g < gens; g++)
    {
        std::vector<char> v; for (auto& l : leaves) { v.push_back(l->script[g]); PBT_CHECK(l->calls == gens && l->inits == 1, "a component was queried ", l->calls, " times and initialized ", l->inits, " times in ", gens, " generations"); }
        const bool w = eval(*tree, v); (w ? t : f) = true;
        PBT_CHECK(g + 1 == gens || bool((*got)[g]) == w, "the expression answers ", int((*got)[g]), " in generation ", g, " where the components are ", pbt::str(v));
    }
    PBT_CHECK((*got)[gens - 1] || tree->op == 0, "no stop in the last generation");
    c.nontrivial(ops(*tree) >= 2 && nleaves >= 2 && t && f);
}
