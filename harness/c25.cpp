#include "pbt.hpp"
#include "gapp.hpp"
#include "utility/thread_pool.hpp"
#include "utility/concurrent_queue.hpp"
#include "utility/latch.hpp"
#include "utility/spinlock.hpp"
#include "utility/shared_spinlock.hpp"
#include "utility/iterators.hpp"
#include <atomic>
#include <list>
#include <map>
#include <mutex>
#include <numeric>
#include <set>
#include <shared_mutex>
#include <thread>
using namespace gapp;
PBT_RULE("A case is a history of (possibly nested, throwing, concurrent) parallel loops, or of operations of several threads on one queue or lock; it is non-trivial if at least two threads took part or at least two elements were processed.");
PBT_ASSUME("Schedules are sampled: the iterations and queue users spin, yield or sleep for generated times; the operating system decides the rest.");

static void stall(unsigned k) { switch (k % 8) { case 0: case 1: case 2: break; case 3: std::this_thread::yield(); break; case 4: for (volatile int i = 0; i < 200; i = i + 1); break; case 5: for (volatile int i = 0; i < 3000; i = i + 1); break; case 6: std::this_thread::sleep_for(std::chrono::microseconds(20)); break; default: std::this_thread::yield(); std::this_thread::yield(); } }
static unsigned mixu(unsigned a, unsigned b) { a ^= b + 0x9e3779b9u + (a << 6) + (a >> 2); a *= 0x85ebca6bu; return a ^ (a >> 15); }

struct Thrown { size_t id; };
// A plan of a loop: its size, block size (0: default), which iterations throw, and which contain another loop.
struct Plan { size_t n = 0, block = 0; std::vector<char> throws, delay; std::vector<std::shared_ptr<Plan>> inner; int kind = 0; size_t total() const { size_t t = n; for (auto& p : inner) if (p) t += p->total(); return t; } };
static std::shared_ptr<Plan> gen_plan(pbt::Case& c, size_t max_n, int depth, bool throwing)
{
    auto p = std::make_shared<Plan>(); p->n = c.size(0, max_n); p->block = c.chance(1, 2) ? 0 : c.pick({ size_t(1), size_t(2), size_t(3), c.range<size_t>(1, p->n + 2), size_t(1000) }); p->kind = c.raw(3);
    p->throws.resize(p->n); p->delay.resize(p->n); p->inner.resize(p->n);
    const unsigned style = c.raw(3); for (auto& d : p->delay) d = style == 0 ? 0 : style == 1 ? char(c.raw(6)) : char(c.raw(8));
    if (throwing && p->n) { const size_t k = c.range<size_t>(0, 3); for (size_t i = 0; i < k; i++) p->throws[c.raw(p->n)] = 1; if (c.chance(1, 20)) std::fill(p->throws.begin(), p->throws.end(), 1); }
    if (depth > 0 && p->n) { const size_t k = c.range<size_t>(0, 4); for (size_t i = 0; i < k; i++) p->inner[c.raw(p->n)] = gen_plan(c, max_n / 3, depth - 1, throwing); if (c.chance(1, 6) && p->n <= 12) for (auto& x : p->inner) if (!x) x = gen_plan(c, 4, depth - 1, throwing); }
    c.os << "(" << p->n << "/" << p->block; for (size_t i = 0; i < p->n; i++) { if (p->throws[i]) c.os << " !" << i; if (p->inner[i]) c.os << " >" << i; } c.os << ")";
    return p;
}
struct Loop { std::vector<std::atomic<int>> started, ended; Loop(size_t n) : started(n), ended(n) {} };
// Runs the loop and checks it. Problems inside of the tasks are noted, since exceptions are part of the protocol.
struct Notes { std::mutex m; std::string bad; std::set<std::thread::id> ids; size_t serial = counter()++; static std::atomic<size_t>& counter() { static std::atomic<size_t> k = 1; return k; } void here() { thread_local size_t last = 0; if (last == serial) return; last = serial; std::scoped_lock l(m); ids.insert(std::this_thread::get_id()); } void add(const std::string& s) { std::scoped_lock l(m); if (bad.empty()) bad = s; } };
static std::atomic<size_t> next_id;
struct Report { std::multiset<size_t> thrown; std::mutex m; };

static void run_plan(const Plan& p, Notes& notes, int depth)
{
    Loop st(p.n); Report rep; const size_t base = next_id.fetch_add(p.n + 1);
    auto body = [&](size_t i)
    {
        if (st.started[i].fetch_add(1)) notes.add("iteration " + std::to_string(i) + " of " + std::to_string(p.n) + " was started twice");
        struct End { std::atomic<int>& e; ~End() { e.fetch_add(1); } } end{ st.ended[i] };
        notes.here(); stall(unsigned(p.delay[i]));
        auto leave = [&](size_t id) { { std::scoped_lock l(rep.m); rep.thrown.insert(id); } throw Thrown{ id }; };
        if (p.inner[i]) { try { run_plan(*p.inner[i], notes, depth + 1); } catch (const Thrown& t) { leave(t.id); } }
        stall(unsigned(p.delay[i]) >> 1);
        if (p.throws[i]) leave(base + i);
    };
    bool caught = false; size_t id = 0;
    try
    {
        std::vector<size_t> v(p.n); std::iota(v.begin(), v.end(), 0); std::list<size_t> l(v.begin(), v.end());
        auto f = [&](size_t i) { body(i); };
        if (p.kind == 0) { if (p.block) detail::parallel_for(v.begin(), v.end(), p.block, f); else detail::parallel_for(v.begin(), v.end(), f); }
        else if (p.kind == 1) { if (p.block) detail::parallel_for(l.begin(), l.end(), p.block, f); else detail::parallel_for(l.begin(), l.end(), f); }
        else { detail::iota_iterator<size_t> a(0), b(p.n); if (p.block) detail::parallel_for(a, b, p.block, f); else detail::parallel_for(a, b, f); }
    }
    catch (const Thrown& t) { caught = true; id = t.id; }
    std::scoped_lock lk(rep.m);
    size_t not_run = 0;
    for (size_t i = 0; i < p.n; i++)
    {
        const int s = st.started[i].load(), e = st.ended[i].load();
        if (s != e) notes.add("iteration " + std::to_string(i) + " of " + std::to_string(p.n) + " was still running when the loop returned");
        if (s > 1) notes.add("iteration " + std::to_string(i) + " ran twice");
        not_run += s == 0;
    }
    if (caught != !rep.thrown.empty()) notes.add(caught ? "an exception was received although none was thrown" : std::to_string(rep.thrown.size()) + " iterations threw, but the loop of " + std::to_string(p.n) + " returned normally");
    if (caught && !rep.thrown.count(id)) notes.add("the received exception was not thrown by the loop");
    if (!caught && not_run) notes.add(std::to_string(not_run) + " iterations of " + std::to_string(p.n) + " were not run");
    if (caught) throw Thrown{ id };
}
static void loops(pbt::Case& c, size_t max_n, int depth, size_t max_threads)
{
    const size_t rounds = c.range<size_t>(1, 3); size_t work = 0;
    for (size_t r = 0; r < rounds; r++)
    {
        if (!r || c.chance(1, 3)) { const size_t t = c.chance(1, 20) ? 0 : c.range<size_t>(1, max_threads); c.show("threads", t); execution_threads(t); PBT_CHECK(execution_threads() == std::max<size_t>(t, 1), "execution_threads() is ", execution_threads()); }
        auto p = gen_plan(c, max_n, depth, c.flip());
        Notes notes; try { run_plan(*p, notes, 0); } catch (const Thrown&) {}
        PBT_CHECK(notes.bad.empty(), notes.bad, " (", execution_threads(), " threads)");
        PBT_CHECK(notes.ids.size() <= execution_threads(), "the iterations ran on ", notes.ids.size(), " instead of ", execution_threads(), " threads");
        PBT_CHECK(execution_threads() > 1 || notes.ids.empty() || *notes.ids.begin() == std::this_thread::get_id(), "a loop on a single thread did not run on the thread of the caller");
        work = std::max(work, p->total());
    }
    c.nontrivial(work >= 2 && execution_threads() > 1);
}
PBT_PROP(flat_loops, 6000, 300000) { loops(c, 60, 0, 6); }
PBT_PROP(long_loops, 60, 3000) { loops(c, 10000, 0, 16); }
// Very long loops on many threads: every iteration is run once, for every remainder of the division among the threads.
PBT_PROP(huge_loops, 240, 6000)
{
    const size_t t = c.range<size_t>(1, 40), n = c.pick({ c.range<size_t>(0, 400), c.range<size_t>(1000, 70000), c.range<size_t>(60000, 500000), std::max<size_t>(1, t - c.raw(2)) * c.range<size_t>(1, 9000) + c.raw(3) }), block = c.chance(1, 2) ? 0 : c.pick({ size_t(1), size_t(7), c.range<size_t>(1, n + 2), size_t(65536) });
    execution_threads(t); c.show("threads", t).show("n", n).show("block", block);
    std::vector<std::atomic<unsigned char>> ran(n + 1);
    std::atomic<size_t> beyond = 0;
    auto f = [&](size_t i) { if (i < n) ran[i].fetch_add(1, std::memory_order_relaxed); else beyond++; };
    detail::iota_iterator<size_t> a(0), b(n);
    if (block) detail::parallel_for(a, b, block, f); else detail::parallel_for(a, b, f);
    PBT_CHECK(beyond == 0, beyond.load(), " iterations beyond the end of the loop");
    for (size_t i = 0; i < n; i++) if (ran[i] != 1) pbt::fail("iteration ", i, " of ", n, " ran ", int(ran[i]), " times on ", t, " threads");
    execution_threads(2);
    c.nontrivial(n > t && t > 1);
}
PBT_PROP(nested_loops, 4000, 200000) { loops(c, 24, 3, 6); }
// Several user threads run loops on the same pool.
PBT_PROP(concurrent_loops, 1500, 60000)
{
    const size_t t = c.range<size_t>(1, 5), users = c.range<size_t>(2, 4); execution_threads(t); c.show("threads", t).show("users", users);
    std::vector<std::shared_ptr<Plan>> plans; for (size_t u = 0; u < users; u++) plans.push_back(gen_plan(c, 20, 1, c.flip()));
    Notes notes; { std::vector<std::jthread> th; for (auto& p : plans) th.emplace_back([&notes, p] { for (int k = 0; k < 3; k++) try { run_plan(*p, notes, 0); } catch (const Thrown&) {} }); }
    PBT_CHECK(notes.bad.empty(), notes.bad, " (", t, " threads, ", users, " users)");
    c.nontrivial();
}
// ---- the queue --------------------------------------------------------------------------------------------------
PBT_PROP(queue_model, 20000, 500000)
{
    detail::concurrent_queue<std::string> q; std::deque<std::string> m; bool closed = false; const size_t n = c.size(1, 40); c.nontrivial(n >= 4);
    for (size_t i = 0; i < n; i++)
    {
        switch (c.raw(8))
        {
            case 0: case 1: case 2: { const std::string s = std::to_string(i) + (c.chance(1, 4) ? std::string(40, 'x') : ""); c.os << "+"; const bool ok = q.emplace(s); PBT_CHECK(ok == !closed, "emplace returned ", ok); if (!closed) m.push_back(s); break; }
            case 3: case 4: case 5: if (!m.empty() || closed) { c.os << "-"; auto x = q.take(); PBT_CHECK(x.has_value() == !m.empty(), "take returned ", x.has_value() ? "a value" : "nothing"); if (x) { PBT_CHECK(*x == m.front(), "take returned ", *x, " instead of ", m.front()); m.pop_front(); } } break;
            case 6: break;
            default: if (c.chance(1, 4)) { c.os << "X"; q.close(); closed = true; } break;
        }
        PBT_CHECK(q.empty() == m.empty() && q.closed() == closed, "empty() is ", q.empty(), " closed() is ", q.closed());
    }
}
PBT_PROP(queue_threads, 2000, 80000)
{
    const unsigned P = unsigned(c.range(1, 4)), C = unsigned(c.range(1, 4)), N = unsigned(c.size(1, 60)), salt = unsigned(c.raw(1u << 30)), style = unsigned(c.raw(3)); const bool early = c.chance(1, 4);
    c.show("producers", P).show("consumers", C).show("elements", N).show("style", style).show("early", early); c.nontrivial();
    detail::concurrent_queue<std::unique_ptr<std::pair<unsigned, unsigned>>> q; std::vector<std::vector<std::pair<unsigned, unsigned>>> got(C); std::vector<unsigned> accepted(P);
    auto wait = [&](unsigned a, unsigned b) { if (style) stall(mixu(mixu(salt, a), b) % (style == 1 ? 6 : 8)); };
    {
        std::vector<std::jthread> cons, prod;
        for (unsigned k = 0; k < C; k++) cons.emplace_back([&, k] { unsigned i = 0; while (auto x = q.take()) { got[k].push_back(**x); wait(100 + k, i++); } });
        for (unsigned k = 0; k < P; k++) prod.emplace_back([&, k] { for (unsigned i = 0; i < N; i++) { if (q.emplace(std::make_unique<std::pair<unsigned, unsigned>>(k, i))) accepted[k]++; else break; wait(k, i); } });
        if (early) { wait(7, 7); q.close(); }
        prod.clear(); q.close();
    }
    std::vector<std::vector<char>> seen(P, std::vector<char>(N)); size_t total = 0;
    for (unsigned k = 0; k < C; k++) { std::vector<int> last(P, -1); for (auto& [p, i] : got[k]) { PBT_CHECK(p < P && i < N && !seen[p][i], "element ", i, " of producer ", p, " was delivered twice"); seen[p][i] = 1; total++; PBT_CHECK(int(i) > last[p], "element ", i, " of producer ", p, " was delivered after element ", last[p]); last[p] = int(i); } }
    size_t want = 0; for (unsigned k = 0; k < P; k++) { want += accepted[k]; PBT_CHECK(early || accepted[k] == N, "an open queue refused an element"); for (unsigned i = 0; i < accepted[k]; i++) PBT_CHECK(seen[k][i], "element ", i, " of producer ", k, " was lost"); }
    PBT_CHECK(total == want, total, " elements delivered of ", want);
}
// Consumers that take a fixed number of elements each: every element has to reach one of those that still wait.
PBT_PROP(queue_waiters, 1500, 60000)
{
    const unsigned P = unsigned(c.range(1, 3)), C = unsigned(c.range(1, 5)), salt = unsigned(c.raw(1u << 30)), style = unsigned(c.raw(3)); const bool ends = c.flip();
    std::vector<unsigned> quota(C); unsigned total = 0; for (auto& x : quota) total += x = unsigned(c.range(1, 4));
    c.show("producers", P).show("quotas", pbt::str(quota)).show("style", style).show("ends", ends); c.nontrivial(C >= 2);
    detail::concurrent_queue<unsigned> q; std::atomic<unsigned> taken = 0, started = 0, nothing = 0, refused = 0; std::vector<std::atomic<unsigned>> seen(total); bool late = false;
    auto wait = [&](unsigned a, unsigned b) { if (style) stall(mixu(mixu(salt, a), b) % (style == 1 ? 6 : 8)); };
    {
        std::vector<std::jthread> th;
        for (unsigned k = 0; k < C; k++) th.emplace_back([&, k] { started++; for (unsigned i = 0; i < quota[k]; i++) { auto x = q.take(); if (!x) { nothing++; return; } seen[*x]++; taken++; wait(k, i); } if (ends && k == 0) while (auto x = q.take()) seen[*x]++; });
        while (started < C) std::this_thread::yield();
        wait(50, 0); if (salt % 2) std::this_thread::sleep_for(std::chrono::microseconds(salt / 2 % 300)); // most of them wait by now
        for (unsigned p = 0; p < P; p++) th.emplace_back([&, p] { for (unsigned i = p; i < total; i += P) { if (!q.emplace(i)) refused++; if (style == 2) wait(60 + p, i); } });
        // the consumer that goes on until the end may take more than its part
        const auto all = [&] { if (!ends) return taken.load() == total; unsigned n = 0; for (auto& x : seen) n += x; return n >= total; };
        for (auto until = std::chrono::steady_clock::now() + std::chrono::seconds(15); !all() && !late;) { std::this_thread::sleep_for(std::chrono::microseconds(50)); late = std::chrono::steady_clock::now() > until; }
        q.close();
    }
    PBT_CHECK(!late, "elements stayed in the queue although consumers were waiting");
    PBT_CHECK(!refused, "an open queue refused an element"); for (unsigned i = 0; i < total; i++) PBT_CHECK(seen[i] == 1, "element ", i, " was delivered ", seen[i].load(), " times");
    PBT_CHECK(ends || !nothing, "take returned nothing although elements were left");
}
// ---- locks and the latch -----------------------------------------------------------------------------------------
PBT_PROP(locks, 1500, 60000)
{
    const unsigned W = unsigned(c.range(1, 4)), R = unsigned(c.range(0, 4)), N = unsigned(c.size(5, 150)), salt = unsigned(c.raw(1u << 30)), style = unsigned(c.raw(2)); const bool shared = c.flip();
    c.show("writers", W).show("readers", R).show("rounds", N).show("shared", shared); c.nontrivial(W + R >= 2);
    detail::spinlock a; detail::shared_spinlock b; size_t x = 0, y = 0; std::atomic<int> writing = 0, reading = 0; Notes notes; std::atomic<size_t> done = 0;
    auto wait = [&](unsigned p, unsigned q) { stall(mixu(mixu(salt, p), q) % (style ? 7 : 6)); };
    auto write = [&](unsigned k) { for (unsigned i = 0; i < N; i++) { const bool tr = mixu(k, i) % 3 == 0; if (shared) { if (tr) { while (!b.try_lock()) std::this_thread::yield(); } else b.lock(); } else { if (tr) { while (!a.try_lock()) std::this_thread::yield(); } else a.lock(); }
        if (writing.fetch_add(1) || reading.load()) notes.add("two holders of an exclusive lock"); x++; if (mixu(i, k) % 8 == 0) wait(k, i); y++; writing.fetch_sub(1); done++; if (shared) b.unlock(); else a.unlock(); } };
    auto read = [&](unsigned k) { for (unsigned i = 0; i < N; i++) { const bool tr = mixu(k, i) % 3 == 0; if (shared) { if (tr) { while (!b.try_lock_shared()) std::this_thread::yield(); } else b.lock_shared(); } else a.lock();
        reading.fetch_add(1); if (writing.load()) notes.add("a reader holds the lock together with a writer"); const size_t p = x; if (mixu(i, k) % 8 == 1) wait(k, i); if (p != y || x != p) notes.add("a reader saw an incomplete update"); reading.fetch_sub(1); if (shared) b.unlock_shared(); else a.unlock(); } };
    { std::vector<std::jthread> th; for (unsigned k = 0; k < W; k++) th.emplace_back([&, k] { write(k); }); for (unsigned k = 0; k < R; k++) th.emplace_back([&, k] { read(10 + k); }); }
    PBT_CHECK(notes.bad.empty(), notes.bad); PBT_CHECK(x == size_t(W) * N && y == x, "updates were lost: ", x, " ", y, " instead of ", size_t(W) * N);
    PBT_CHECK(a.try_lock() && !a.try_lock(), "a free lock can't be taken or a taken one can"); a.unlock();
    PBT_CHECK(b.try_lock_shared() && b.try_lock_shared() && !b.try_lock(), "shared lock while there are readers"); b.unlock_shared(); b.unlock_shared(); PBT_CHECK(b.try_lock() && !b.try_lock_shared() && !b.try_lock(), "shared lock while there is a writer"); b.unlock(); PBT_CHECK(b.try_lock_shared(), "shared lock after use"); b.unlock_shared();
}
PBT_PROP(latches, 1500, 60000)
{
    const unsigned n = unsigned(c.range(1, 6)), salt = unsigned(c.raw(1u << 30)), per = unsigned(c.range(1, 3)); c.show("threads", n).show("per", per); c.nontrivial(n >= 2);
    detail::latch l(n * per); std::vector<int> data(n); std::string bad;
    PBT_CHECK(!l.try_wait(), "the latch is open at the start");
    { std::vector<std::jthread> th; for (unsigned k = 0; k < n; k++) th.emplace_back([&, k] { stall(mixu(salt, k)); data[k] = int(k) + 1; if (per > 1 && k % 2) { for (unsigned i = 0; i < per; i++) l.count_down(); } else l.count_down(per); }); if (salt % 3) l.wait(); else while (!l.try_wait()) std::this_thread::yield(); for (unsigned k = 0; k < n; k++) if (data[k] != int(k) + 1) bad = "the latch opened before thread " + std::to_string(k) + " arrived"; }
    PBT_CHECK(bad.empty(), bad); PBT_CHECK(l.try_wait(), "the latch is closed at the end");
}
