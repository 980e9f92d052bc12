// Element types, hashes and helpers shared by the harnesses (instrumented code).
#pragma once
#include "rt.h"
#include <cstdint>
#include <utility>
#include <new>

namespace sim {

// how keys hash in this run: 0 = mixed, 1 = identity, 2 = all equal, 3 = four classes, 4 = high bits only
inline int g_hash_mode = 0;
NOINSTR inline size_t hash_i64(int64_t v) {
    uint64_t x = (uint64_t)v;
    switch (g_hash_mode) {
    case 0: x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
    case 1: return x;
    case 2: return 12345;
    case 3: return x & 3;
    default: return x << 56;
    }
}

// An element that owns heap memory, whose construction/copy can fail (allocation or
// injected constructor fault), whose lifetime is registered, and whose payload lives in
// the simulated heap so that stale, torn, racing or dangling uses are detected.
// Moves never throw (the documented fault model).
struct Obj {
    static constexpr uint32_t MAGIC = 0x0b7ec7ed, DEAD = 0xdeadbeef;
    uint32_t magic;
    int32_t  moved;
    int64_t* heap;

    static int64_t* mk(int64_t v) {
        if (t_active > 0 && fault_event(F_CTOR)) throw Injected{ F_CTOR };
        int64_t* p = (int64_t*)arena_alloc(sizeof(int64_t), 8, t_active > 0);
        if (!p) throw std::bad_alloc();
        *p = v;
        return p;
    }
    Obj() : Obj((int64_t)0) {}
    Obj(int64_t v) : heap(mk(v)) { magic = MAGIC; moved = 0; obj_ctor(this); }
    Obj(int64_t v, int) : Obj(v) {}   // containers cannot tell the key from these arguments
    Obj(const Obj& o) {
        obj_alive(&o, "copy");
        heap = mk(o.get_raw());
        magic = MAGIC; moved = 0;
        obj_ctor(this);
    }
    Obj(Obj&& o) noexcept {
        obj_alive(&o, "move");
        heap = o.heap; o.heap = nullptr;
        moved = o.moved; o.moved = 1;
        magic = MAGIC;
        obj_ctor(this);
    }
    Obj& operator=(const Obj& o) {
        obj_alive(this, "assignment to"); obj_alive(&o, "assignment from");
        if (this == &o) return *this;
        int64_t* n = mk(o.get_raw());
        if (heap) arena_free(heap, sizeof(int64_t));
        heap = n; moved = 0;
        return *this;
    }
    Obj& operator=(Obj&& o) noexcept {
        obj_alive(this, "assignment to"); obj_alive(&o, "assignment from");
        if (this == &o) return *this;
        if (heap) arena_free(heap, sizeof(int64_t));
        heap = o.heap; o.heap = nullptr;
        moved = o.moved; o.moved = 1;
        return *this;
    }
    ~Obj() {
        obj_dtor(this);
        if (magic != MAGIC) fail("lifetime", "destructor of a corrupted element");
        magic = DEAD;
        if (heap) arena_free(heap, sizeof(int64_t));
        heap = nullptr;
    }
    int64_t get_raw() const {
        if (!heap) return -777;
        return *heap;
    }
    int64_t get() const {
        obj_alive(this, "read");
        if (magic != MAGIC) fail("lifetime", "read of a corrupted element");
        if (!heap) fail("lifetime", "moved-from element used as a stored value");
        return *heap;
    }
    void set(int64_t v) {
        obj_alive(this, "write");
        if (!heap) fail("lifetime", "moved-from element used as a stored value");
        *heap = v;
    }
    bool operator==(const Obj& o) const { return get() == o.get(); }
    bool operator!=(const Obj& o) const { return get() != o.get(); }
    bool operator<(const Obj& o) const { return get() < o.get(); }
    friend size_t hash_value(const Obj& o) { return hash_i64(o.get()); }
};

inline int64_t val(const Obj& o) { return o.get(); }
inline int64_t val(int64_t v) { return v; }

template<class K> struct HashK { size_t operator()(const K& k) const { return hash_i64(val(k)); } };
template<class K> struct EqK { bool operator()(const K& a, const K& b) const { return val(a) == val(b); } };
template<class K> struct LessK { bool operator()(const K& a, const K& b) const { return val(a) < val(b); } };

// Transparent versions (heterogeneous lookup by int64_t)
struct THash { using is_transparent = void; size_t operator()(const Obj& k) const { return hash_i64(val(k)); } size_t operator()(int64_t k) const { return hash_i64(k); } };
struct TEq { using is_transparent = void; template<class A, class B> bool operator()(const A& a, const B& b) const { return val(a) == val(b); } };
struct TLess { using is_transparent = void; template<class A, class B> bool operator()(const A& a, const B& b) const { return val(a) < val(b); } };

// Functors with state: it has to travel with the elements
template<class K> struct SHash { int seed = 0; size_t operator()(const K& k) const { return hash_i64(val(k) + 1000003 * seed); } };
template<class K> struct SEq { int seed = 0; bool operator()(const K& a, const K& b) const { return val(a) == val(b); } };
template<class K> struct DLess { int dir = 1; bool operator()(const K& a, const K& b) const { return dir > 0 ? val(a) < val(b) : val(b) < val(a); } };

// Stateful allocator over the simulated heap: every block remembers which allocator
// "arena id" produced it; deallocating through an unequal allocator is a violation.
void* tagged_alloc(int id, size_t n, size_t al);
void  tagged_free(int id, void* p, size_t n);

template<class T, bool POCCA = false, bool POCMA = false, bool POCS = false>
struct SAlloc {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<POCCA>;
    using propagate_on_container_move_assignment = std::bool_constant<POCMA>;
    using propagate_on_container_swap = std::bool_constant<POCS>;
    using is_always_equal = std::false_type;
    template<class U> struct rebind { using other = SAlloc<U, POCCA, POCMA, POCS>; };
    int id = 0;
    SAlloc() = default;
    explicit SAlloc(int i) : id(i) {}
    SAlloc(const SAlloc&) = default;
    SAlloc& operator=(const SAlloc&) = default;
    template<class U> SAlloc(const SAlloc<U, POCCA, POCMA, POCS>& o) : id(o.id) {}
    // a copy of a container uses the neighbouring allocator, as the selection says
    SAlloc select_on_container_copy_construction() const { return SAlloc(id ^ 1); }
    T* allocate(size_t n) { return (T*)tagged_alloc(id, n * sizeof(T), alignof(T)); }
    void deallocate(T* p, size_t n) { tagged_free(id, p, n * sizeof(T)); }
    template<class U> friend bool operator==(const SAlloc& a, const SAlloc<U, POCCA, POCMA, POCS>& b) { return a.id == b.id; }
    template<class U> friend bool operator!=(const SAlloc& a, const SAlloc<U, POCCA, POCMA, POCS>& b) { return a.id != b.id; }
};

// heap-allocate a container inside the simulated heap (so its own fields are checked too)
template<class T, class... A> T* sim_new(A&&... a) {
    void* p = arena_alloc(sizeof(T), alignof(T), false);
    if (!p) { fprintf(stderr, "arena exhausted\n"); _Exit(2); }
    struct G { void* p; ~G() { if (p) arena_free(p, sizeof(T)); } } g{ p };
    T* t = ::new (p) T(std::forward<A>(a)...);
    g.p = nullptr;
    return t;
}
template<class T> void sim_delete(T* p) { if (p) { p->~T(); arena_free(p, sizeof(T)); } }

} // namespace sim
