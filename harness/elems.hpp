// Element types and allocators that keep track of lifetimes, and can be told to throw.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <new>
#include <string>
#include <unordered_map>
#include <utility>
namespace el
{
    struct Boom {};
    struct World
    {
        std::unordered_map<const void*, int> live;
        std::unordered_map<const void*, std::pair<size_t, int>> blocks; // element count, allocator id
        long fuse = -1, burnt = 0; std::string bad;
        void note(const std::string& s) { if (bad.empty()) bad = s; }
        void reset() { live.clear(); blocks.clear(); fuse = -1; burnt = 0; bad.clear(); }
    };
    inline World& w() { static World* x = new World; return *x; }
    inline void burn() { if (w().fuse >= 0 && w().fuse-- == 0) { w().burnt++; throw Boom{}; } }
    // Arms the fuse for the duration of one operation of the container.
    struct Fuse { Fuse(long n) { w().fuse = n; } ~Fuse() { w().fuse = -1; } };
    struct NoFuse { long f; NoFuse() : f(w().fuse) { w().fuse = -1; } ~NoFuse() { w().fuse = f; } };

    enum Kind { CopyThrows, AllThrow, MoveOnly, NoThrow, MoveOnlyThrows, AssignThrows };
    constexpr int moved_from = -1;
    template<int K> class E
    {
        int v;
        static constexpr bool cp = K != MoveOnly && K != MoveOnlyThrows, nx = K == NoThrow || K == AssignThrows, mt = K == AllThrow || K == MoveOnlyThrows, ac = !nx || K == AssignThrows, am = mt || K == AssignThrows;
        void born() { if (!w().live.emplace(this, K).second) w().note("an element was constructed over a live element"); }
        void used(const char* what) const { if (!w().live.count(this)) w().note(std::string("an element that does not exist was ") + what); }
    public:
        E() noexcept(nx || K == MoveOnly) : v(0) { if constexpr (!nx && K != MoveOnly) burn(); born(); }
        E(int x) noexcept(nx) : v(x) { if constexpr (!nx) burn(); born(); }
        E(const E& o) noexcept(nx) requires(cp) : v(o.v) { o.used("copied"); if constexpr (!nx) burn(); born(); }
        E(E&& o) noexcept(!mt) : v(o.v) { o.used("moved"); if constexpr (mt) burn(); born(); o.v = moved_from; }
        E& operator=(const E& o) noexcept(!ac) requires(cp) { used("assigned to"); o.used("copied"); if constexpr (ac) burn(); v = o.v; return *this; }
        E& operator=(E&& o) noexcept(!am) { used("assigned to"); o.used("moved"); if constexpr (am) burn(); v = o.v; if (&o != this) o.v = moved_from; return *this; }
        ~E() { if (!w().live.erase(this)) w().note("an element was destroyed twice or never constructed"); }
        int get() const { used("read"); return v; }
        friend bool operator==(const E& a, const E& b) { return a.get() == b.get(); }
        friend auto operator<=>(const E& a, const E& b) { return a.get() <=> b.get(); }
    };
    template<int K> int read(const E<K>& e) { return e.get(); }
    inline int read(int x) { return x; }
    inline int read(const std::string& s) { return s.empty() ? 0 : std::atoi(s.c_str() + 1); }
    struct Pod { short a; char b; int v; friend bool operator==(const Pod& x, const Pod& y) { return x.v == y.v; } friend auto operator<=>(const Pod& x, const Pod& y) { return x.v <=> y.v; } };
    inline int read(const Pod& p) { return p.v; }
    template<typename T> T make(int x) { NoFuse _; if constexpr (std::is_same_v<T, std::string>) { if (x == 0) return {}; std::string s = "s" + std::to_string(x); if (x % 3 == 0) s += std::string(30, '.'); return s; } else if constexpr (std::is_same_v<T, Pod>) return Pod{ short(x), char(x), x }; else return T(x); }
    template<typename T> constexpr bool tracked = false;
    template<int K> constexpr bool tracked<E<K>> = true;
    template<typename T> constexpr bool may_throw = false;
    template<int K> constexpr bool may_throw<E<K>> = K != NoThrow;

    template<typename T, bool Stateful = false, bool Propagate = true> struct A
    {
        using value_type = T; using is_always_equal = std::bool_constant<!Stateful>;
        using propagate_on_container_copy_assignment = std::bool_constant<Stateful && Propagate>; using propagate_on_container_move_assignment = std::bool_constant<!Stateful || Propagate>; using propagate_on_container_swap = std::bool_constant<Stateful && Propagate>;
        template<typename U> struct rebind { using other = A<U, Stateful, Propagate>; };
        int id = 0;
        A(int i = 0) noexcept : id(Stateful ? i : 0) {}
        template<typename U> A(const A<U, Stateful, Propagate>& o) noexcept : id(o.id) {}
        T* allocate(size_t n) { burn(); if (n > (size_t(1) << 24)) throw std::bad_alloc(); T* p = static_cast<T*>(::operator new(n * sizeof(T) + !n)); w().blocks.emplace(p, std::pair{ n, id }); return p; }
        void deallocate(T* p, size_t n) noexcept
        {
            auto it = w().blocks.find(p);
            if (it == w().blocks.end()) { w().note("memory was released that was not allocated, or released twice"); return; }
            if (it->second.first != n) w().note("memory for " + std::to_string(it->second.first) + " elements was released as " + std::to_string(n));
            if (it->second.second != id) w().note("memory of allocator " + std::to_string(it->second.second) + " was released to allocator " + std::to_string(id));
            w().blocks.erase(it); ::operator delete(p);
        }
        friend bool operator==(const A& a, const A& b) noexcept { return a.id == b.id; }
    };
    inline void at_end() { if (w().bad.empty() && !w().live.empty()) w().note(std::to_string(w().live.size()) + " elements were never destroyed"); if (w().bad.empty() && !w().blocks.empty()) w().note(std::to_string(w().blocks.size()) + " memory blocks were never released"); PBT_CHECK(w().bad.empty(), w().bad); }
    // A forward iterator which is nothing more than that.
    template<typename It> struct Fwd
    {
        using iterator_category = std::forward_iterator_tag; using value_type = std::iter_value_t<It>; using difference_type = std::ptrdiff_t; using reference = std::iter_reference_t<It>; using pointer = void;
        It it{}; reference operator*() const { return *it; } Fwd& operator++() { ++it; return *this; } Fwd operator++(int) { auto t = *this; ++it; return t; } friend bool operator==(const Fwd&, const Fwd&) = default;
    };
    // A bidirectional iterator.
    template<typename It> struct Bidi
    {
        using iterator_category = std::bidirectional_iterator_tag; using value_type = std::iter_value_t<It>; using difference_type = std::ptrdiff_t; using reference = std::iter_reference_t<It>; using pointer = void;
        It it{}; reference operator*() const { return *it; } Bidi& operator++() { ++it; return *this; } Bidi operator++(int) { auto t = *this; ++it; return t; } Bidi& operator--() { --it; return *this; } Bidi operator--(int) { auto t = *this; --it; return t; } friend bool operator==(const Bidi&, const Bidi&) = default;
    };
    // A single pass input iterator.
    template<typename It> struct In
    {
        using iterator_category = std::input_iterator_tag; using iterator_concept = std::input_iterator_tag; using value_type = std::iter_value_t<It>; using difference_type = std::ptrdiff_t; using reference = std::iter_reference_t<It>; using pointer = void;
        It it{}; reference operator*() const { return *it; } In& operator++() { ++it; return *this; } In operator++(int) { auto t = *this; ++it; return t; } friend bool operator==(const In&, const In&) = default;
    };
}
