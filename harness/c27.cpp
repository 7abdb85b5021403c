#include "pbt.hpp"
#include "elems.hpp"
#include "utility/small_vector.hpp"
#include <list>
#include <vector>
using namespace gapp;
PBT_RULE("A case is a history of operations on several small vectors of one element type, inline size and allocator, some of them with an element operation or an allocation made to fail; it is non-trivial if at least 4 operations were run and a vector grew beyond its inline storage.");
PBT_ASSUME("Arguments satisfy the preconditions of the same operations of std::vector (ranges do not point into the vector, swapped vectors have equal or propagating allocators).");

template<typename T, size_t Size, typename Al> struct Vec
{
    using V = small_vector<T, Size, Al>;
    struct Model { std::vector<int> d; int id = 0; };
    std::vector<std::unique_ptr<V>> vs; std::vector<Model> ms; bool was_big = false;
    static constexpr bool copyable = std::copy_constructible<T>, stateful = !Al::is_always_equal::value, pocca = Al::propagate_on_container_copy_assignment::value, pocma = Al::propagate_on_container_move_assignment::value, pocs = Al::propagate_on_container_swap::value;
    static constexpr bool strong_type = copyable || std::is_nothrow_move_constructible_v<T>;

    static std::vector<int> values(const V& v) { std::vector<int> x; for (const T& t : v) x.push_back(el::read(t)); return x; }
    void verify(const V& v, const Model& m)
    {
        PBT_CHECK(v.size() == m.d.size() && v.empty() == m.d.empty() && v.ssize() == std::ptrdiff_t(m.d.size()), "size ", v.size(), " instead of ", m.d.size());
        PBT_CHECK(v.capacity() >= v.size() && v.capacity() >= Size && v.inline_capacity() == Size && v.is_small() == (v.capacity() == Size && v.is_small()), "capacity ", v.capacity(), " for ", v.size(), " elements");
        const auto x = values(v); std::vector<int> y, z; for (size_t i = 0; i < v.size(); i++) y.push_back(el::read(v[i])); for (auto it = v.crbegin(); it != v.crend(); ++it) z.insert(z.begin(), el::read(*it));
        PBT_CHECK(x == m.d, "contents ", pbt::str(x), " instead of ", pbt::str(m.d));
        PBT_CHECK(y == m.d && z == m.d, "index access gives ", pbt::str(y), ", reverse iteration ", pbt::str(z), " instead of ", pbt::str(m.d));
        if (!m.d.empty()) PBT_CHECK(el::read(v.front()) == m.d.front() && el::read(v.back()) == m.d.back() && el::read(*v.data()) == m.d.front() && el::read(v.at(m.d.size() - 1)) == m.d.back(), "front or back of ", pbt::str(m.d));
        bool threw = false; try { (void)v.at(v.size()); } catch (const std::out_of_range&) { threw = true; } PBT_CHECK(threw, "at(size()) did not throw");
        if (stateful) PBT_CHECK(v.get_allocator().id == m.id, "allocator ", v.get_allocator().id, " instead of ", m.id);
        PBT_CHECK(el::w().bad.empty(), el::w().bad);
        was_big |= !v.is_small();
    }
    void run(pbt::Case& c)
    {
        const size_t nv = c.range<size_t>(1, 3), nops = c.wide(1, 50, 400); int next = 1;
        const size_t big = c.pick({ Size + 2, 2 * Size + 2, 4 * Size + 8 });
        for (size_t i = 0; i < nv; i++) { ms.push_back({ {}, stateful ? int(c.raw(3)) : 0 }); vs.push_back(std::make_unique<V>(Al(ms.back().id))); }
        for (size_t op = 0; op < nops; op++)
        {
            const size_t i = c.raw(nv), j = c.raw(nv); V* v = vs[i].get(); V* o = vs[j].get(); Model& m = ms[i]; Model& mo = ms[j]; const Model old = m, oldo = mo;
            const bool fused = c.chance(1, 5); const long fuse = fused ? long(c.size(0, 12)) : -1;
            bool strong = false; const unsigned what = unsigned(c.raw(36)); const size_t n = m.d.size(), pos = n ? c.raw(n + 1) : 0, cap = v->capacity(); const T* data = v->data();
            c.os << what << (fused ? "!" + std::to_string(fuse) : "") << "@" << i << (n ? "." + std::to_string(pos) : "") << " ";
            auto fresh = [&](size_t k) { std::vector<int> r(k); for (int& x : r) x = next++; return r; };
            auto elems = [&](const std::vector<int>& r) { std::vector<T> e; e.reserve(r.size()); for (int x : r) e.push_back(el::make<T>(x)); return e; };
            auto put = [&](size_t at, const std::vector<int>& r) { m.d.insert(m.d.begin() + std::ptrdiff_t(at), r.begin(), r.end()); };
            auto replace = [&](std::unique_ptr<V> x, std::vector<int> d, int id) { vs[i] = std::move(x); m.d = std::move(d); m.id = id; };
            const size_t cnt = c.wide(0, big, 100);
            try
            {
                switch (what)
                {
                    case 0: case 1: { strong = strong_type; T e = el::make<T>(next); { el::Fuse f(fuse); v->push_back(std::move(e)); } m.d.push_back(next++); break; }
                    case 2: if constexpr (copyable) { strong = true; const T e = el::make<T>(next); { el::Fuse f(fuse); v->push_back(e); } m.d.push_back(next++); } break;
                    case 3: if constexpr (copyable) if (n) { strong = true; const size_t k = c.raw(n); { el::Fuse f(fuse); v->push_back((*v)[k]); } m.d.push_back(int(m.d[k])); } break;
                    case 4: if constexpr (std::constructible_from<T, int> && !std::is_same_v<T, std::string> && !std::is_same_v<T, el::Pod>) { strong = strong_type; T* r; { el::Fuse f(fuse); r = &v->emplace_back(next); } PBT_CHECK(r == &v->back(), "emplace_back returned another element"); m.d.push_back(next++); } break;
                    case 5: if constexpr (copyable) if (v->size() < cap) { strong = true; const T e = el::make<T>(next); { el::Fuse f(fuse); v->push_back_unchecked(e); } m.d.push_back(next++); } break;
                    case 6: if (n) { v->pop_back(); m.d.pop_back(); } break;
                    case 7: case 8: { const auto r = fresh(1); T e = el::make<T>(r[0]); typename V::iterator it; { el::Fuse f(fuse); it = v->insert(v->cbegin() + std::ptrdiff_t(pos), std::move(e)); } put(pos, r); PBT_CHECK(it == v->begin() + std::ptrdiff_t(pos), "the returned iterator is at ", it - v->begin(), " instead of ", pos); break; }
                    case 9: if constexpr (copyable) { const auto r = fresh(1); const T e = el::make<T>(r[0]); typename V::iterator it; { el::Fuse f(fuse); it = v->insert(v->cbegin() + std::ptrdiff_t(pos), e); } put(pos, r); PBT_CHECK(it == v->begin() + std::ptrdiff_t(pos), "the returned iterator is at ", it - v->begin(), " instead of ", pos); } break;
                    case 10: if constexpr (copyable) if (n) { const size_t k = c.raw(n); const int x = m.d[k]; { el::Fuse f(fuse); v->insert(v->begin() + std::ptrdiff_t(pos), (*v)[k]); } put(pos, { x }); } break;
                    case 11: if constexpr (std::constructible_from<T, int> && !std::is_same_v<T, std::string> && !std::is_same_v<T, el::Pod>) { const auto r = fresh(1); { el::Fuse f(fuse); v->emplace(v->begin() + std::ptrdiff_t(pos), r[0]); } put(pos, r); } break;
                    case 12: case 13: if constexpr (copyable) { const int x = next++; const T e = el::make<T>(x); typename V::iterator it; { el::Fuse f(fuse); it = v->insert(v->begin() + std::ptrdiff_t(pos), cnt, e); } put(pos, std::vector<int>(cnt, x)); PBT_CHECK(it == v->begin() + std::ptrdiff_t(pos), "the returned iterator is at ", it - v->begin(), " instead of ", pos); } break;
                    case 14: if constexpr (copyable) if (n) { const size_t k = c.raw(n); const int x = m.d[k]; { el::Fuse f(fuse); v->insert(v->begin() + std::ptrdiff_t(pos), cnt, (*v)[k]); } put(pos, std::vector<int>(cnt, x)); } break;
                    case 15: case 16: if constexpr (copyable)
                    {
                        const auto r = fresh(cnt); const auto e = elems(r); std::list<T> l(e.begin(), e.end()); const unsigned kind = unsigned(c.raw(5)); typename V::iterator it; const auto at = v->cbegin() + std::ptrdiff_t(pos);
                        { el::Fuse f(fuse); switch (kind) { case 0: it = v->insert(at, e.begin(), e.end()); break; case 1: it = v->insert(at, l.begin(), l.end()); break; case 2: it = v->insert(at, el::Fwd{ e.begin() }, el::Fwd{ e.end() }); break; case 3: it = v->insert(at, el::In{ e.begin() }, el::In{ e.end() }); break; default: it = v->insert(at, e.data(), e.data() + e.size()); break; } }
                        put(pos, r); PBT_CHECK(it == v->begin() + std::ptrdiff_t(pos), "the returned iterator is at ", it - v->begin(), " instead of ", pos);
                    }
                    else { const auto r = fresh(cnt); auto e = elems(r); { el::Fuse f(fuse); v->insert(v->cbegin() + std::ptrdiff_t(pos), std::make_move_iterator(e.begin()), std::make_move_iterator(e.end())); } put(pos, r); }
                    break;
                    case 17: if constexpr (copyable) { const auto r = fresh(3); const std::initializer_list<T> il = { el::make<T>(r[0]), el::make<T>(r[1]), el::make<T>(r[2]) }; const unsigned kind = unsigned(c.raw(3)); { el::Fuse f(fuse); if (kind == 0) v->insert(v->begin() + std::ptrdiff_t(pos), il); else if (kind == 1) v->assign(il); else *v = il; } if (kind == 0) put(pos, r); else m.d = r; } break;
                    case 18: if (n) { const size_t k = c.raw(n); typename V::iterator it; { el::Fuse f(fuse); it = v->erase(v->begin() + std::ptrdiff_t(k)); } m.d.erase(m.d.begin() + std::ptrdiff_t(k)); PBT_CHECK(it == v->begin() + std::ptrdiff_t(k), "the returned iterator is at ", it - v->begin(), " instead of ", k); } break;
                    case 19: { const size_t a = pos, b = a + c.raw(n - a + 1); typename V::iterator it; { el::Fuse f(fuse); it = v->erase(v->begin() + std::ptrdiff_t(a), v->begin() + std::ptrdiff_t(b)); } m.d.erase(m.d.begin() + std::ptrdiff_t(a), m.d.begin() + std::ptrdiff_t(b)); PBT_CHECK(it == v->begin() + std::ptrdiff_t(a), "the returned iterator is at ", it - v->begin(), " instead of ", a); break; }
                    case 20: if constexpr (copyable) { const int x = next++; const T e = el::make<T>(x); { el::Fuse f(fuse); v->assign(cnt, e); } m.d.assign(cnt, x); } break;
                    case 21: if constexpr (copyable)
                    {
                        const auto r = fresh(cnt); const auto e = elems(r); std::list<T> l(e.begin(), e.end()); const unsigned kind = unsigned(c.raw(4));
                        { el::Fuse f(fuse); switch (kind) { case 0: v->assign(e.begin(), e.end()); break; case 1: v->assign(l.begin(), l.end()); break; case 2: v->assign(el::Fwd{ e.begin() }, el::Fwd{ e.end() }); break; default: v->assign(el::In{ e.begin() }, el::In{ e.end() }); break; } } m.d = r;
                    }
                    else { const auto r = fresh(cnt); auto e = elems(r); { el::Fuse f(fuse); v->assign(std::make_move_iterator(e.begin()), std::make_move_iterator(e.end())); } m.d = r; }
                    break;
                    case 22: if constexpr (copyable) { { el::Fuse f(fuse); *v = *o; } m.d = oldo.d; if (pocca) m.id = oldo.id; } break;
                    case 23: case 24: { { el::Fuse f(fuse); *v = std::move(*o); } if (i != j) { m.d = oldo.d; if (stateful && pocma) m.id = oldo.id; resync(j); if (stateful) ms[j].id = vs[j]->get_allocator().id; } break; }
                    case 25: strong = strong_type; { el::Fuse f(fuse); v->resize(cnt); } m.d.resize(cnt, 0); break;
                    case 26: if constexpr (copyable) { strong = true; const int x = next++; const T e = el::make<T>(x); { el::Fuse f(fuse); v->resize(cnt, e); } m.d.resize(cnt, x); } break;
                    case 27: if constexpr (copyable) if (n) { strong = true; const size_t k = cnt < n && cnt ? c.raw(cnt) : c.raw(n); if (cnt < n && k >= cnt) break; const int x = m.d[k]; { el::Fuse f(fuse); v->resize(cnt, (*v)[k]); } m.d.resize(cnt, x); } break;
                    case 28: { strong = strong_type; { el::Fuse f(fuse); v->reserve(cnt); } PBT_CHECK(v->capacity() >= cnt && v->capacity() >= cap, "reserve(", cnt, ") changed the capacity from ", cap, " to ", v->capacity()); if (cnt <= cap) PBT_CHECK(v->data() == data, "reserve(", cnt, ") moved the elements of a vector of capacity ", cap); break; }
                    case 29: strong = strong_type; { el::Fuse f(fuse); v->shrink_to_fit(); } PBT_CHECK(v->capacity() <= cap, "shrink_to_fit() changed the capacity from ", cap, " to ", v->capacity()); break;
                    case 30: if (c.flip()) { v->clear(); PBT_CHECK(v->capacity() == cap, "clear() changed the capacity"); } else { v->reset(); PBT_CHECK(v->is_small() && v->capacity() == Size, "reset() did not release the storage"); } m.d.clear(); break;
                    case 31: case 32: if (!stateful || pocs || m.id == mo.id) { { el::Fuse f(fuse); if (c.flip()) v->swap(*o); else { using std::swap; swap(*v, *o); } } if (i != j) { std::swap(m.d, mo.d); std::swap(m.id, mo.id); } } break;
                    case 33: { std::unique_ptr<V> x; { el::Fuse f(fuse); x = std::make_unique<V>(std::move(*o)); } PBT_CHECK(o->empty(), "a moved-from vector has ", o->size(), " elements"); mo.d.clear(); replace(std::move(x), oldo.d, oldo.id); break; }
                    case 34: if constexpr (copyable) { std::unique_ptr<V> x; const int id = stateful ? int(c.raw(3)) : 0; const bool own = c.flip(); { el::Fuse f(fuse); x = own ? std::make_unique<V>(*o) : std::make_unique<V>(*o, Al(id)); } replace(std::move(x), oldo.d, own ? oldo.id : id); } break;
                    default:
                    {
                        std::unique_ptr<V> x; const int id = stateful ? int(c.raw(3)) : 0; const unsigned kind = unsigned(c.raw(6));
                        if (kind == 0) { { el::Fuse f(fuse); x = std::make_unique<V>(cnt, Al(id)); } replace(std::move(x), std::vector<int>(cnt, 0), id); break; }
                        const auto r = fresh(cnt); auto e = elems(r);
                        if constexpr (copyable)
                        {
                            std::list<T> l(e.begin(), e.end()); std::vector<int> w = r; const T one = el::make<T>(next); const std::initializer_list<T> il = { one, one }; 
                            { el::Fuse f(fuse); switch (kind) { case 1: x = std::make_unique<V>(cnt, one, Al(id)); w.assign(cnt, next); break; case 2: x = std::make_unique<V>(e.begin(), e.end(), Al(id)); break; case 3: x = std::make_unique<V>(l.begin(), l.end(), Al(id)); break; case 4: x = std::make_unique<V>(el::In{ e.begin() }, el::In{ e.end() }, Al(id)); break; default: x = std::make_unique<V>(il, Al(id)); w = { next, next }; break; } }
                            next++; replace(std::move(x), w, id);
                        }
                        else { { el::Fuse f(fuse); x = std::make_unique<V>(std::make_move_iterator(e.begin()), std::make_move_iterator(e.end()), Al(id)); } replace(std::move(x), r, id); }
                        break;
                    }
                }
            }
            catch (const el::Boom&)
            {
                c.label("an operation threw");
                if (strong) { m = old; if (i != j) mo = oldo; } else { resync(i); resync(j); if (stateful) { m.id = vs[i]->get_allocator().id; mo.id = vs[j]->get_allocator().id; } }
            }
            for (size_t k = 0; k < nv; k++) verify(*vs[k], ms[k]);
            PBT_CHECK((*vs[i] == *vs[j]) == (ms[i].d == ms[j].d) && (*vs[i] != *vs[j]) == (ms[i].d != ms[j].d), "equality of ", pbt::str(ms[i].d), " and ", pbt::str(ms[j].d));
            if constexpr (!std::is_same_v<T, std::string>) { const auto cmp = *vs[i] <=> *vs[j]; const auto want = ms[i].d <=> ms[j].d; PBT_CHECK((cmp < 0) == (want < 0) && (cmp > 0) == (want > 0), "ordering of ", pbt::str(ms[i].d), " and ", pbt::str(ms[j].d)); }
            if constexpr (copyable) if (c.chance(1, 10)) { const auto sv = vs[i]->std_vec(); PBT_CHECK(std::equal(sv.begin(), sv.end(), vs[i]->begin(), vs[i]->end()), "std_vec() differs"); }
        }
        c.nontrivial(nops >= 4 && was_big);
    }
    void resync(size_t k) { const V& v = *vs[k]; PBT_CHECK(v.size() <= v.capacity(), "size ", v.size(), " above capacity ", v.capacity()); ms[k].d = values(v); }
};
template<typename T, size_t S, typename Al = el::A<T>> static void vec(pbt::Case& c) { el::w().reset(); { Vec<T, S, Al> v; v.run(c); } el::at_end(); }
template<typename T> using Prop = el::A<T, true, true>; template<typename T> using NonProp = el::A<T, true, false>;
using namespace el;
#if PART == 1
PBT_PROP(trivial_elements, 30000, 1000000) { switch (c.raw(4)) { case 0: vec<int, 1>(c); break; case 1: vec<int, 10>(c); break; case 2: vec<Pod, 3>(c); break; default: vec<int, 4, NonProp<int>>(c); break; } }
#endif
#if PART == 2
PBT_PROP(copyable_elements, 40000, 1500000) { switch (c.raw(5)) { case 0: vec<E<CopyThrows>, 1>(c); break; case 1: vec<E<CopyThrows>, 4>(c); break; case 2: vec<E<AllThrow>, 3>(c); break; case 3: vec<E<NoThrow>, 4>(c); break; default: vec<std::string, 2>(c); break; } }
#endif
#if PART == 1
PBT_PROP(movable_elements, 30000, 1000000) { switch (c.raw(4)) { case 0: vec<E<MoveOnly>, 1>(c); break; case 1: vec<E<MoveOnly>, 4>(c); break; case 2: vec<E<MoveOnlyThrows>, 3>(c); break; default: vec<E<AssignThrows>, 4>(c); break; } }
#endif
#if PART == 2
PBT_PROP(stateful_allocators, 30000, 1000000) { switch (c.raw(4)) { case 0: vec<E<CopyThrows>, 2, Prop<E<CopyThrows>>>(c); break; case 1: vec<E<CopyThrows>, 2, NonProp<E<CopyThrows>>>(c); break; case 2: vec<E<NoThrow>, 3, NonProp<E<NoThrow>>>(c); break; default: vec<E<MoveOnly>, 2, Prop<E<MoveOnly>>>(c); break; } }
#endif
#if PART == 1
// Elements made from a range of another type are converted one by one.
template<typename To, typename From> static void conv(pbt::Case& c)
{
    std::vector<From> src(c.size(0, 30)); for (auto& x : src) x = From(c.raw(120)) + (std::is_floating_point_v<From> ? From(c.raw(4)) / 4 : From(0)); c.showv("src", src); c.nontrivial(src.size() > 1);
    const std::vector<To> want(src.begin(), src.end()); auto same = [&](const char* what, const auto& v) { PBT_CHECK(std::equal(v.begin(), v.end(), want.begin(), want.end()), what, " gives ", pbt::str(v), " instead of ", pbt::str(want)); };
    same("the range constructor", small_vector<To, 4>(src.begin(), src.end())); same("the pointer range constructor", small_vector<To>(src.data(), src.data() + src.size()));
    small_vector<To, 4> a(c.size(0, 10)); a.assign(src.begin(), src.end()); same("assign", a); a.clear(); a.insert(a.begin(), src.begin(), src.end()); same("insert", a);
}
PBT_PROP(conversions, 6000, 100000)
{
    switch (c.raw(7)) { case 0: conv<int, double>(c); break; case 1: conv<double, int>(c); break; case 2: conv<size_t, int>(c); break; case 3: conv<int, char>(c); break; case 4: conv<float, double>(c); break; case 5: conv<char, unsigned>(c); break; default: conv<long, float>(c); break; }
}
// Sizes that no vector can have.
PBT_PROP(too_big, 2000, 50000)
{
    using V = small_vector<int, 4>;
    std::vector<int> m(c.size(0, 12)); for (size_t i = 0; i < m.size(); i++) m[i] = int(i) + 1;
    V v(m.begin(), m.end()); if (c.flip()) v.reserve(c.size(0, 40));
    const size_t cap = v.capacity(), max = v.max_size(), over = c.pick({ size_t(1), c.range<size_t>(1, 100), max / 2 }), pos = c.raw(m.size() + 1);
    const int* d = v.data(); const int what = c.raw(5);
    c.show("n", m.size()).show("over", over).show("what", what);
    bool threw = false;
    try
    {
        switch (what)
        {
            case 0: v.reserve(max + over); break;
            case 1: v.resize(max + over); break;
            case 2: v.resize(max + over, 7); break;
            case 3: v.insert(v.begin() + pos, max - m.size() + 1 + over % (m.size() + 1), 7); break;
            default: v.insert(v.begin() + pos, max, 7); break;
        }
    }
    catch (const std::length_error&) { threw = true; }
    PBT_CHECK(threw, "no length_error");
    PBT_CHECK(std::vector<int>(v.begin(), v.end()) == m && v.capacity() == cap && v.data() == d, "a refused size changed the vector");
    c.nontrivial(!m.empty());
}
#endif
