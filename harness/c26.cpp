#include "pbt.hpp"
#include "elems.hpp"
#include "utility/circular_buffer.hpp"
#include "utility/cache.hpp"
#include <deque>
#include <list>
#include <vector>
using namespace gapp;
PBT_RULE("A case is a history of operations on several ring buffers (or caches) of one element type, some of them with an element operation or an allocation made to fail; it is non-trivial if at least 4 operations were run and at least one container was full.");
PBT_ASSUME("Element types behave like values, hashes agree with equality, allocators are stateless (as the class requires).");

template<typename T> struct Ring
{
    using B = detail::circular_buffer<T, el::A<T>>;
    struct Model { std::deque<int> d; size_t cap = 0; };
    std::vector<std::unique_ptr<B>> bs; std::vector<Model> ms; bool was_full = false;

    void verify(const B& b, const Model& m)
    {
        PBT_CHECK(b.capacity() == m.cap, "capacity ", b.capacity(), " instead of ", m.cap);
        PBT_CHECK(b.size() == m.d.size() && b.empty() == m.d.empty() && b.full() == (m.d.size() == m.cap), "size ", b.size(), " instead of ", m.d.size());
        std::vector<int> x, y, z; for (const T& t : b) x.push_back(el::read(t)); for (size_t i = 0; i < b.size(); i++) y.push_back(el::read(b[i])); for (auto it = b.rbegin(); it != b.rend(); ++it) z.insert(z.begin(), el::read(*it));
        const std::vector<int> w(m.d.begin(), m.d.end());
        PBT_CHECK(x == w, "contents ", pbt::str(x), " instead of ", pbt::str(w));
        PBT_CHECK(y == w && z == w, "index access gives ", pbt::str(y), ", reverse iteration ", pbt::str(z), " instead of ", pbt::str(w));
        if (!w.empty()) { PBT_CHECK(el::read(b.front()) == w.front() && el::read(b.back()) == w.back(), "front ", el::read(b.front()), " back ", el::read(b.back()), " of ", pbt::str(w)); }
        bool threw = false; try { (void)b.at(b.size()); } catch (const std::out_of_range&) { threw = true; } PBT_CHECK(threw, "at(size()) did not throw");
        PBT_CHECK(el::w().bad.empty(), el::w().bad);
        was_full |= m.cap && m.d.size() == m.cap;
    }
    void run(pbt::Case& c)
    {
        const size_t nb = c.range<size_t>(1, 3), nops = c.wide(1, 60, 600); int next = 1;
        for (size_t i = 0; i < nb; i++) { const size_t cap = c.wide(0, 20, 200); ms.push_back({ {}, cap }); bs.push_back(std::make_unique<B>(cap)); }
        for (size_t op = 0; op < nops; op++)
        {
            const size_t i = c.raw(nb), j = c.raw(nb); B* b = bs[i].get(); B* o = bs[j].get(); Model& m = ms[i]; const Model old = m, oldj = ms[j];
            const bool fused = c.chance(1, 5) && (el::may_throw<T> || c.flip()); const long fuse = fused ? long(c.size(0, 10)) : -1;
            // The state before the operation, or that after it: what an operation that throws may leave behind.
            bool strong = true; const unsigned what = unsigned(c.raw(22));
            auto pushb = [&](int v) { if (m.d.size() == m.cap) m.d.pop_front(); m.d.push_back(v); };
            auto pushf = [&](int v) { if (m.d.size() == m.cap) m.d.pop_back(); m.d.push_front(v); };
            c.os << what << (fused ? "!" + std::to_string(fuse) : "") << "@" << i << " ";
            try
            {
                switch (what)
                {
                    case 0: case 1: if (m.cap) { T v = el::make<T>(next); { el::Fuse f(fuse); b->push_back(std::move(v)); } pushb(next++); } break;
                    case 2: if (m.cap) { T v = el::make<T>(next); { el::Fuse f(fuse); b->push_front(std::move(v)); } pushf(next++); } break;
                    case 3: case 4: if constexpr (std::copy_constructible<T>) if (m.cap) { const T v = el::make<T>(next); { el::Fuse f(fuse); b->push_back(v); } PBT_CHECK(el::read(v) == next, "the pushed element was changed"); pushb(next++); } break;
                    case 5: if constexpr (std::copy_constructible<T>) if (m.cap) { const T v = el::make<T>(next); { el::Fuse f(fuse); b->push_front(v); } PBT_CHECK(el::read(v) == next, "the pushed element was changed"); pushf(next++); } break;
                    case 6: if constexpr (std::constructible_from<T, int> && !std::is_same_v<T, std::string>) if (m.cap) { T* r; { el::Fuse f(fuse); r = &b->emplace_back(next); } pushb(next); PBT_CHECK(el::read(*r) == next && r == &b->back(), "emplace_back returned another element"); next++; } break;
                    case 7: if constexpr (std::constructible_from<T, int> && !std::is_same_v<T, std::string>) if (m.cap) { T* r; { el::Fuse f(fuse); r = &b->emplace_front(next); } pushf(next); PBT_CHECK(el::read(*r) == next && r == &b->front(), "emplace_front returned another element"); next++; } break;
                    case 8: case 9: if (!m.d.empty()) { b->pop_front(); m.d.pop_front(); } break;
                    case 10: if (!m.d.empty()) { b->pop_back(); m.d.pop_back(); } break;
                    case 11: case 12: { const size_t cap = c.size(0, 24); strong = std::copy_constructible<T> || std::is_nothrow_move_constructible_v<T>; { el::Fuse f(fuse); b->set_capacity(cap); } m.cap = cap; if (m.d.size() > cap) m.d.resize(cap); break; }
                    case 13: if (c.chance(1, 3)) { b->clear(); m.d.clear(); } break;
                    case 14: if (c.chance(1, 3)) { const size_t cap = c.size(0, 24); strong = false; { el::Fuse f(fuse); b->reset(cap); } m = { {}, cap }; } break;
                    case 15: { if (c.flip()) b->swap(*o); else { using std::swap; swap(*b, *o); } if (i != j) std::swap(ms[i], ms[j]); break; }
                    case 16: if constexpr (std::copy_constructible<T>) { { el::Fuse f(fuse); *b = *o; } m = ms[j]; } break;
                    case 17: if (i != j) { *b = std::move(*o); m = ms[j]; bs[j] = std::make_unique<B>(oldj.cap); ms[j] = { {}, oldj.cap }; } break; // the moved-from buffer is replaced
                    case 18: if constexpr (std::copy_constructible<T>) { std::unique_ptr<B> n; { el::Fuse f(fuse); n = std::make_unique<B>(*o); } bs[i] = std::move(n); m = ms[j]; } break;
                    case 19: if (i != j) { bs[i] = std::make_unique<B>(std::move(*o)); m = oldj; bs[j] = std::make_unique<B>(oldj.cap); ms[j].d.clear(); } break;
                    case 20: if constexpr (std::copy_constructible<T>)
                    {
                        const size_t n = c.size(0, 30), cap = c.size(0, 24); std::list<T> src; Model nm{ {}, cap }; for (size_t k = 0; k < n; k++) { src.push_back(el::make<T>(next)); nm.d.push_back(next++); if (nm.d.size() > cap) nm.d.pop_front(); }
                        std::vector<T> vec(src.begin(), src.end()); std::unique_ptr<B> x; const unsigned kind = unsigned(c.raw(3)); { el::Fuse f(fuse); x = kind == 0 ? std::make_unique<B>(cap, vec.begin(), vec.end()) : kind == 1 ? std::make_unique<B>(cap, src.begin(), src.end()) : std::make_unique<B>(cap, el::Fwd{ src.begin() }, el::Fwd{ src.end() }); } bs[i] = std::move(x); m = nm; break;
                    }
                    break;
                    default: if (!m.d.empty()) // access to one element, also through copies of it
                    {
                        const size_t k = c.raw(m.d.size());
                        if constexpr (std::copy_constructible<T>) { if (c.flip()) { const int v = m.d[k]; { el::Fuse f(fuse); b->push_back((*b)[k]); } pushb(v); break; } if (c.flip()) { const int v = m.d[k]; { el::Fuse f(fuse); b->push_front(b->at(k)); } pushf(v); break; } }
                        T v = el::make<T>(next); *(b->begin() + std::ptrdiff_t(k)) = std::move(v); m.d[k] = next++;
                        PBT_CHECK(size_t(b->end() - b->begin()) == m.d.size() && el::read(b->begin()[std::ptrdiff_t(k)]) == m.d[k] && el::read(*(b->rend() - std::ptrdiff_t(k) - 1)) == m.d[k], "iterator arithmetic");
                        break;
                    }
                    break;
                }
            }
            catch (const el::Boom&)
            {
                b = bs[i].get(); c.label("an operation threw");
                if (strong) m = old;
                else { PBT_CHECK(b->size() <= b->capacity(), "size ", b->size(), " above capacity ", b->capacity()); m = { {}, b->capacity() }; for (const T& t : *b) m.d.push_back(el::read(t)); }
            }
            for (size_t k = 0; k < nb; k++) verify(*bs[k], ms[k]);
            const bool eq = ms[i].d == ms[j].d;
            PBT_CHECK((*bs[i] == *bs[j]) == eq && (*bs[i] != *bs[j]) != eq, "equality of ", pbt::str(ms[i].d), " and ", pbt::str(ms[j].d));
            const auto cmp = *bs[i] <=> *bs[j]; const auto want = std::lexicographical_compare_three_way(ms[i].d.begin(), ms[i].d.end(), ms[j].d.begin(), ms[j].d.end());
            if constexpr (!std::is_same_v<T, std::string>) PBT_CHECK((cmp < 0) == (want < 0) && (cmp > 0) == (want > 0), "ordering of ", pbt::str(ms[i].d), " and ", pbt::str(ms[j].d));
        }
        c.nontrivial(nops >= 4 && was_full);
    }
};
template<typename T> static void ring(pbt::Case& c) { el::w().reset(); { Ring<T> r; r.run(c); } el::at_end(); }
PBT_PROP(rings, 60000, 2000000)
{
    switch (c.raw(7))
    {
        case 0: ring<int>(c); break;
        case 1: ring<el::E<el::CopyThrows>>(c); break;
        case 2: ring<el::E<el::AllThrow>>(c); break;
        case 3: ring<el::E<el::MoveOnly>>(c); break;
        case 4: ring<el::E<el::NoThrow>>(c); break;
        case 5: ring<el::E<el::AssignThrows>>(c); break;
        default: ring<std::string>(c); break;
    }
}
// ---- the cache ---------------------------------------------------------------------------------------------------
struct Key { int k; int pad; friend bool operator==(const Key& a, const Key& b) { return a.k == b.k; } };
static unsigned hash_mod = 0;
template<> struct std::hash<Key> { size_t operator()(const Key& k) const noexcept { return hash_mod ? size_t(k.k) % hash_mod : size_t(k.k) * 0x9e3779b97f4a7c15ull; } };
struct Rec { int k; std::string v; operator Key() const { return Key{ k, 1 }; } };

PBT_PROP(caches, 60000, 2000000)
{
    using C = detail::fifo_cache<Key, std::string>;
    struct Model { std::deque<std::pair<int, std::string>> d; size_t cap = 0; std::string* find(int k) { for (auto& e : d) if (e.first == k) return &e.second; return nullptr; } };
    hash_mod = c.pick({ 0u, 0u, 1u, 3u });
    const size_t n = c.range<size_t>(1, 3), nops = c.wide(1, 60, 600); const int keys = c.pick({ 3, 8, 30, 1000 }); int ver = 0; bool evicted = false;
    std::vector<C> cs; std::vector<Model> ms; cs.reserve(n);
    for (size_t i = 0; i < n; i++) { const size_t cap = c.wide(0, 12, 100); if (c.chance(1, 4)) { cs.emplace_back(); cs.back().reset(cap); } else if (c.chance(1, 5)) { cs.emplace_back(); ms.push_back({}); continue; } else cs.emplace_back(cap); ms.push_back({ {}, cap }); }
    auto put = [&](Model& m, int k, const std::string& v, bool keep) { if (!m.cap) return; if (auto* p = m.find(k)) { if (!keep) *p = v; return; } m.d.emplace_back(k, v); if (m.d.size() > m.cap) { m.d.pop_front(); evicted = true; } };
    auto text = [&] { std::string s = "v" + std::to_string(++ver); if (ver % 3 == 0) s += std::string(25, '-'); return s; };
    for (size_t op = 0; op < nops; op++)
    {
        const size_t i = c.raw(n), j = c.raw(n); C& x = cs[i]; Model& m = ms[i]; const unsigned what = unsigned(c.raw(14)); c.os << what << "@" << i << " ";
        switch (what)
        {
            case 0: case 1: case 2: { const int k = int(c.raw(keys)); const auto v = text(); if (c.flip()) x.insert(Key{ k, 0 }, v); else { const Key kk{ k, 0 }; auto v2 = v; x.insert(kk, std::move(v2)); } put(m, k, v, false); c.os << k << " "; break; }
            case 3: case 4: { const int k = int(c.raw(keys)); const auto v = text(); x.try_insert(Key{ k, 0 }, v); put(m, k, v, true); c.os << k << " "; break; }
            case 5: case 6:
            {
                std::vector<Rec> r; const size_t len = c.wide(0, 20, 120); for (size_t k = 0; k < len; k++) r.push_back({ int(c.raw(keys)), text() });
                const size_t skip = len > m.cap ? len - m.cap : 0; for (size_t k = skip; k < len; k++) put(m, r[k].k, r[k].v, false);
                if (c.flip()) x.insert(r.begin(), r.end(), &Rec::v); else if (c.flip()) x.insert(el::Fwd{ r.begin() }, el::Fwd{ r.end() }, &Rec::v); else { std::list<Rec> l(r.begin(), r.end()); x.insert(l.begin(), l.end(), [](const Rec& e) { return e.v; }); }
                c.os << "[" << len << "] "; break;
            }
            case 7: if (c.chance(1, 3)) { x.clear(); m.d.clear(); } break;
            case 8: if (c.chance(1, 2)) { const size_t cap = c.size(0, 16); x.reset(cap); m = { {}, cap }; } break;
            case 9: if (c.flip()) x.swap(cs[j]); else { using std::swap; swap(x, cs[j]); } if (i != j) std::swap(ms[i], ms[j]); break;
            case 10: x = cs[j]; m = ms[j]; break;
            case 11: if (i != j) { const size_t cap = ms[j].cap; x = std::move(cs[j]); m = ms[j]; cs[j].reset(cap); ms[j] = { {}, cap }; } break;
            case 12: { C y(cs[j]); C z(std::move(y)); x.swap(z); m = ms[j]; break; }
            default: { const int k = int(c.raw(keys)); if (auto* p = x.get(Key{ k, 2 })) { *p = text(); *m.find(k) = *p; } break; } // change a value in place
        }
        for (size_t q = 0; q < n; q++)
        {
            C& y = cs[q]; const C& cy = y; Model& my = ms[q];
            PBT_CHECK(y.size() == my.d.size() && y.capacity() == my.cap && y.empty() == my.d.empty() && y.full() == (my.d.size() == my.cap), "size ", y.size(), " of ", y.capacity(), " instead of ", my.d.size(), " of ", my.cap);
            auto look = [&](int k) { const std::string* w = my.find(k); const std::string* a = y.get(Key{ k, 5 }); const std::string* b = cy.get(Key{ k, 6 }); PBT_CHECK(a == b && bool(a) == bool(w) && cy.contains(Key{ k, 7 }) == bool(w), "key ", k, a ? " was found" : " was not found", " although it is ", w ? "retained" : "not retained"); if (w) PBT_CHECK(*a == *w, "key ", k, " has value ", *a, " instead of ", *w); };
            if (keys <= 30) for (int k = 0; k < keys; k++) look(k); else { for (auto& [k, v] : std::deque(my.d)) look(k); for (int t = 0; t < 4; t++) look(int((op * 37 + t * 411) % 1000)); }
        }
        bool eq = ms[i].d == ms[j].d; PBT_CHECK((cs[i] == cs[j]) == eq, "caches compare ", eq ? "unequal although they hold the same entries in the same order" : "equal although they differ");
    }
    c.nontrivial(nops >= 4 && evicted);
}
