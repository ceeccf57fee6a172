// C15: where the content lives (inside the variant, aligned), what a variant allocates, what it writes outside itself, how big it is.
#include "common.hpp"
#include <boost/functional/hash.hpp>
#include <sstream>
#ifndef PART
#define PART 1
#endif
static long g_mis, g_objs;
// Al<N, size, align, kind>: kind 0 nothrow everything; 1 copy and move may throw; 2 copy may throw, no move; 3 nothrow default, copy and move may throw; 4 copy may throw, nothrow move; 5 trivial
template <std::size_t S, std::size_t A> struct alignas(A) Bytes {
    unsigned char b[S];
    void put(long v, int n) { chk(); for (std::size_t i = 0; i < S; ++i) b[i] = (unsigned char)(v * 31 + (long)i * 7 + n); }
    void chk() const { ++g_objs;
#ifndef __cpp_aligned_new   // before C++17 a new-expression need not align such a type: the heap copy of a backup is then as good as the language allows
        if (A > alignof(std::max_align_t)) return;
#endif
        if ((std::uintptr_t)this % A) { ++g_mis; violation("C15,C19", "misaligned", "object with alignment %d at address with offset %d", (int)A, (int)((std::uintptr_t)this % A)); } }
};
template <int N, std::size_t S, std::size_t A, int K> struct Al : Bytes<S, A> {
    enum { num = N, size = S, align = A, kind = K };
    explicit Al(long v) { this->put(v, N); }
    Al() noexcept(K != 1 && K != 2 && K != 4) { if (K == 1 || K == 2 || K == 4) point(); this->put(0, N); }
    Al(const Al& o) noexcept(K == 0) { if (K != 0) point(); o.chk(); this->chk(); for (std::size_t i = 0; i < S; ++i) this->b[i] = o.b[i]; }
    Al(Al&& o) noexcept(K == 0 || K == 4) { if (K != 0 && K != 4) point(); o.chk(); this->chk(); for (std::size_t i = 0; i < S; ++i) this->b[i] = o.b[i]; }
    Al& operator=(const Al& o) noexcept(K == 0) { if (K != 0) point(); o.chk(); this->chk(); for (std::size_t i = 0; i < S; ++i) this->b[i] = o.b[i]; return *this; }
    Al& operator=(Al&& o) noexcept(K == 0 || K == 4) { if (K != 0 && K != 4) point(); o.chk(); this->chk(); for (std::size_t i = 0; i < S; ++i) this->b[i] = o.b[i]; return *this; }
    ~Al() { this->chk(); for (std::size_t i = 0; i < S; ++i) this->b[i] = 0xEE; }
    bool is(long v) const { this->chk(); for (std::size_t i = 0; i < S; ++i) if (this->b[i] != (unsigned char)(v * 31 + (long)i * 7 + N)) return false; return true; }
};
template <int N, std::size_t S, std::size_t A> struct Al<N, S, A, 2> : Bytes<S, A> {
    enum { num = N, size = S, align = A, kind = 2 };
    explicit Al(long v) { this->put(v, N); }
    Al(const Al& o) { point(); o.chk(); this->chk(); for (std::size_t i = 0; i < S; ++i) this->b[i] = o.b[i]; }
    Al& operator=(const Al& o) { point(); o.chk(); this->chk(); for (std::size_t i = 0; i < S; ++i) this->b[i] = o.b[i]; return *this; }
    ~Al() { this->chk(); for (std::size_t i = 0; i < S; ++i) this->b[i] = 0xEE; }
    bool is(long v) const { this->chk(); for (std::size_t i = 0; i < S; ++i) if (this->b[i] != (unsigned char)(v * 31 + (long)i * 7 + N)) return false; return true; }
};
template <int N, std::size_t S, std::size_t A> struct Al<N, S, A, 5> : Bytes<S, A> {
    enum { num = N, size = S, align = A, kind = 5 };
    Al() = default; explicit Al(long v) { this->put(v, N); }
    bool is(long v) const { if (v == 0) { bool z = true; for (std::size_t i = 0; i < S; ++i) z = z && !this->b[i]; if (z) return true; } this->chk(); for (std::size_t i = 0; i < S; ++i) if (this->b[i] != (unsigned char)(v * 31 + (long)i * 7 + N)) return false; return true; }
};
template <int N, std::size_t S, std::size_t A, int K> bool operator==(const Al<N, S, A, K>& a, const Al<N, S, A, K>& b) { for (std::size_t i = 0; i < S; ++i) if (a.b[i] != b.b[i]) return false; return true; }
template <int N, std::size_t S, std::size_t A, int K> bool operator<(const Al<N, S, A, K>& a, const Al<N, S, A, K>& b) { return a.b[0] < b.b[0]; }
template <int N, std::size_t S, std::size_t A, int K> std::size_t hash_value(const Al<N, S, A, K>& a) { return a.b[0]; }

template <class... Ts> struct MaxOf { enum : std::size_t { size = 1, align = 1 }; };
template <class A, class... R> struct MaxOf<A, R...> { enum : std::size_t { size = sizeof(A) > (std::size_t)MaxOf<R...>::size ? sizeof(A) : (std::size_t)MaxOf<R...>::size, align = alignof(A) > (std::size_t)MaxOf<R...>::align ? alignof(A) : (std::size_t)MaxOf<R...>::align }; };
template <class... Ts> struct Any0 { enum { def = 0, all_copy = 1, wrapped = 0 }; };
template <class A, class... R> struct Any0<A, R...> { typedef typename Unwrap<A>::type U; enum { def = (!Unwrap<A>::wrapped && std::is_nothrow_default_constructible<A>::value) || Any0<R...>::def, all_copy = (!Unwrap<A>::wrapped && std::is_nothrow_copy_constructible<A>::value) && Any0<R...>::all_copy, wrapped = Unwrap<A>::wrapped || Any0<R...>::wrapped }; };

template <class V> struct St;
template <class... Ts> struct St<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; enum { N = sizeof...(Ts) }; const char* name; Rng rng; St(const char* n, std::uint64_t s) : name(n), rng(s) {}
    enum { no_alloc = (Any0<Ts...>::def || Any0<Ts...>::all_copy) && !Any0<Ts...>::wrapped };
    struct Where : boost::static_visitor<void> { const V* v; const char* op; bool wrapped, heap; long val;
        template <class X> void operator()(const X& x) const {
            std::uintptr_t a = (std::uintptr_t)&x, b = (std::uintptr_t)v, e = b + sizeof(V);
            CHECK("C15", a % alignof(X) == 0, "alignment", "%s: content of alignment %d at offset %d", op, (int)alignof(X), (int)(a % alignof(X)));
            if (heap) CHECK("C15", a + sizeof(X) <= b || a >= e || (a >= b && a + sizeof(X) <= e), "straddles", "%s: content straddles the bounds of the variant", op);
            else if (!wrapped) CHECK("C15", a >= b && a + sizeof(X) <= e, "outside", "%s: content of size %d lies outside the variant (offset %ld, variant has %d bytes)", op, (int)sizeof(X), (long)(a - b), (int)sizeof(V));
            else CHECK("C15", a + sizeof(X) <= b || a >= e, "wrapped-inside", "%s: wrapped content overlaps the variant", op);
            CHECK("C15,C01", x.is(val), "content", "%s: content is not the value stored", op);
        } };
    static bool wr(int i) { static const bool w[] = { (bool)Unwrap<Ts>::wrapped... }; return w[i]; }
    struct Is : boost::static_visitor<bool> { long val; template <class X> bool operator()(const X& x) const { return x.is(val); } };
    void look(const V& v, int t, long val, const char* op, bool heap = false) { Where w; w.heap = heap; w.v = &v; w.op = op; w.wrapped = wr(t); w.val = val; CHECK("C15,C01", v.which() == t, "which", "%s: holds type %d, expected %d", op, v.which(), t); if (v.which() == t) boost::apply_visitor(w, v); }
    struct Mk { long val; void* at; V* out; template <class X> void operator()(X*) { typename Unwrap<X>::type x(val); Inside in; out = new (at) V(x); } };
    struct Put { long val; V* v; int how; template <class X> void operator()(X*) { typename Unwrap<X>::type x(val); Inside in; if (how) *v = std::move(x); else *v = x; } };
    template <class F> static void at(int i, F& f) { int k = 0; int d[] = { (k++ == i ? (f(static_cast<Ts*>(0)), 0) : 0)... }; (void)d; }
    // a variant in a guarded buffer at a chosen offset (a multiple of its own alignment and nothing more)
    struct Slot { unsigned char* raw; unsigned char* lo; V* v; std::size_t total; int t; long val; bool heap;
        Slot(int off) : v(0), t(0), val(0), heap(false) { total = 64 + alignof(V) * 16 + sizeof(V) + 64 + alignof(V) * 8; raw = (unsigned char*)std::malloc(total + 4096); std::memset(raw, 0xC7, total + 4096);
            std::uintptr_t base = ((std::uintptr_t)raw + 64 + 2 * alignof(V) * 16) / (alignof(V) * 16) * (alignof(V) * 16); lo = (unsigned char*)(base + alignof(V) * (std::size_t)off); }
        bool intact() const { for (unsigned char* p = raw; p < raw + total + 2048; ++p) { if (p == lo) { p += sizeof(V) - 1; continue; } if (*p != 0xC7) return false; } return true; }
        ~Slot() { std::free(raw); } };
    void go(int rounds) {
        typedef typename std::conditional<(bool)Any0<Ts...>::def, char, void*>::type Bk;
        const std::size_t A = MaxOf<Ts..., Bk>::align, M = MaxOf<Ts..., Bk>::size;
        std::size_t st = (M + A - 1) / A * A, wh = (sizeof(int) + A - 1) / A * A, al = A > alignof(int) ? A : alignof(int), bound = (wh + st + al - 1) / al * al;
        set_case("%s: size", name);
        CHECK("C15", sizeof(V) <= bound, "size", "variant has %d bytes, its largest type %d, strictest alignment %d: expected at most %d", (int)sizeof(V), (int)M, (int)A, (int)bound);
        CHECK("C15", sizeof(V) > MaxOf<Ts...>::size && alignof(V) >= MaxOf<Ts...>::align && alignof(V) <= al, "align", "variant has alignment %d, its types %d", (int)alignof(V), (int)A);
        for (int r = 0; r < rounds; ++r) {
            long total0 = allocs().total, live0 = allocs().live;
            int n = 4; Slot* s[4]; for (int i = 0; i < n; ++i) { s[i] = new Slot(1 + (r * 3 + i) % 8); Mk m; m.val = s[i]->val = 1 + (long)rng.below(200); m.at = s[i]->lo; s[i]->t = (int)rng.below(N); set_case("%s: round %d construct type %d", name, r, s[i]->t); at(s[i]->t, m); s[i]->v = m.out; look(*s[i]->v, s[i]->t, s[i]->val, "construct"); }
            for (int k = 0; k < 30; ++k) {
                Slot &a = *s[rng.below((unsigned)n)], &b = *s[rng.below((unsigned)n)]; int op = (int)rng.below(9);
                static const char* nm[] = { "copy assign", "move assign", "swap", "assign value", "assign rvalue", "recreate by copy", "recreate by move", "read", "self assign" };
                set_case("%s: round %d op %s types %d %d", name, r, nm[op], a.t, b.t); seen(name, op, a.t, b.t); count("ops");
                int t0 = a.t, tb0 = b.t; Put fp; long nv = 1 + (long)rng.below(200); int nt = (int)rng.below(N);
                bool may_fail = (op <= 4 && op != 2) && &a != &b && r % 2;
                if (may_fail && rng.chance(1, 2)) {   // make the operation fail at its n-th throwing point; the target keeps its value (possibly on the heap) or holds the fallback
                    bool threw = false; long n = 1 + (long)rng.below(4); add_case(" fault %ld", n);
                    fp.val = nv; fp.v = a.v; fp.how = op == 4;
                    struct G { ~G() { disarm(); } } g; (void)g; arm(n);
                    try { if (op == 0) { Inside in; *a.v = *b.v; } else if (op == 1) { Inside in; *a.v = std::move(*b.v); } else at(nt, fp); } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
                    disarm(); fault().fired = false; fault_ctx() = false;
                    if (threw) { count("failed_assignments"); seen("failed", shash(name), op, a.t, b.t, n); Is is; is.val = a.val; if (!(a.v->which() == a.t && boost::apply_visitor(is, *a.v))) { a.t = a.v->which(); a.val = 0; a.heap = false; } else { a.heap = true; if (is_outside(*a.v)) count("values_kept_on_heap"); } }
                    else { if (op <= 1) { a.t = b.t; a.val = b.val; } else { a.t = nt; a.val = nv; } if (a.t != t0) a.heap = false; }
                    if (op == 1) { Put p; p.val = b.val; p.v = b.v; p.how = 0; at(b.t, p); }   // the source may hold anything of its type now
                } else switch (op) {
                case 0: { Inside in; *a.v = *b.v; } a.t = b.t; a.val = b.val; break;
                case 1: if (&a == &b) break; { Inside in; *a.v = std::move(*b.v); } { a.t = b.t; a.val = b.val; Put p; p.val = b.val; p.v = b.v; p.how = 0; at(b.t, p); } break;
                case 2: { Inside in; a.v->swap(*b.v); } std::swap(a.t, b.t); std::swap(a.val, b.val); break;
                case 3: case 4: { Put p; p.val = a.val = nv; p.v = a.v; p.how = op == 4; a.t = nt; at(a.t, p); break; }
                case 5: if (&a == &b) break; { Inside in; a.v->~V(); new (a.v) V(*b.v); } a.t = b.t; a.val = b.val; break;
                case 6: if (&a == &b) break; { Inside in; a.v->~V(); new (a.v) V(std::move(*b.v)); } { a.t = b.t; a.val = b.val; Put p; p.val = b.val; p.v = b.v; p.how = 0; at(b.t, p); } break;
                case 7: { Inside in; (void)(*a.v == *b.v); (void)(*a.v < *b.v); (void)a.v->which(); (void)&a.v->type(); (void)boost::hash<V>()(*a.v); V t(*a.v); (void)content_addr(t); } break;
                case 8: { Inside in; V& x = *a.v; x = *&x; } break;
                }
                if (a.t != t0 || ((op == 5 || op == 6) && &a != &b)) a.heap = false;
                if (b.t != tb0) b.heap = false;
                long kept = 0; for (int i = 0; i < n; ++i) kept += s[i]->heap && !wr(s[i]->t) && is_outside(*s[i]->v);
                for (int i = 0; i < n; ++i) { look(*s[i]->v, s[i]->t, s[i]->val, nm[op], s[i]->heap); CHECK("C15,C19", s[i]->intact(), "writes-outside", "%s wrote outside the variant object", nm[op]); }
                if (no_alloc) CHECK("C15", allocs().total == total0, "allocates", "%s allocated memory although no bounded type needs it", nm[op]);
                if (!Any0<Ts...>::wrapped) CHECK("C15,C03", allocs().live == live0 + kept, "keeps-memory", "%s left %ld blocks allocated, %ld kept values account for that many", nm[op], allocs().live - live0, kept);
            }
            for (int i = 0; i < n; ++i) { { Inside in; s[i]->v->~V(); } CHECK("C15,C19", s[i]->intact(), "writes-outside", "destruction wrote outside the variant object"); delete s[i]; }
            CHECK("C15,C03", allocs().live == live0, "leak", "%ld blocks leaked", allocs().live - live0);
        }
        // arrays, members and containers: every element aligned
        { set_case("%s: placements", name); struct Odd { char c; V v; char d; V w; Odd(const V& x) : c(1), v(x), d(2), w(x) {} }; Mk m; alignas(V) unsigned char buf[sizeof(V)]; m.val = 9; m.at = buf;
          for (int t = 0; t < N; ++t) { at(t, m); V& x = *m.out; V a[3] = { x, x, x }; for (int i = 0; i < 3; ++i) look(a[i], t, 9, "array"); Odd o(x); look(o.v, t, 9, "member"); look(o.w, t, 9, "member");
            if (alignof(V) <= alignof(std::max_align_t) || __cplusplus >= 201703L) { V* h = new V(x); look(*h, t, 9, "heap"); delete h; std::vector<V> vec(5, x); vec.push_back(x); for (auto& e : vec) look(e, t, 9, "vector"); }
            x.~V(); } }
    }
};
// a successful assignment leaves nothing on the heap even where assigning needs a backup; and a value kept after a failure comes home
template <class V> void go(const char* n, std::uint64_t seed, int r) { St<V>* s = new St<V>(n, seed); s->go(r); delete s; }
int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; int r = argc > 2 ? std::atoi(argv[2]) : 40;
    using boost::variant;
#if PART == 1
    go<variant<Al<1,1,1,0>, Al<2,3,1,0>, Al<3,7,1,0> > >("odd sizes", seed, r);
    go<variant<Al<1,1,1,0>, Al<2,16,16,0>, Al<3,8,8,0> > >("align 16", seed, r);
    go<variant<Al<1,32,32,0>, Al<2,100,4,0> > >("align 32, size 100", seed, r);
    go<variant<Al<1,5,1,0>, Al<2,64,64,0>, Al<3,129,1,0> > >("align 64, size 129", seed, r);
    go<variant<Al<1,2,2,0> > >("single", seed, r);
#elif PART == 2
    go<variant<Al<1,1,1,1>, Al<2,2,2,1>, Al<3,12,4,1> > >("throwing, small", seed, r);
    go<variant<Al<1,16,16,1>, Al<2,3,1,2>, Al<3,40,8,4> > >("throwing, mixed", seed, r);
    go<variant<Al<1,128,128,2>, Al<2,1,1,2> > >("align 128, copy only", seed, r);
    go<variant<Al<1,3,1,2>, Al<2,5,1,1>, Al<3,7,1,4>, Al<4,9,1,0> > >("bytes, throwing", seed, r);
    go<variant<Al<1,1,1,2>, Al<2,2,1,2>, Al<3,1,1,1> > >("tiny, throwing", seed, r);
    go<variant<Al<1,1,1,2>, Al<2,1,1,1> > >("single bytes, throwing", seed, r);
#elif PART == 3
    go<variant<Al<1,16,16,1>, Al<2,3,1,3>, Al<3,40,8,2> > >("fallback", seed, r);
    go<variant<Al<1,1,1,1>, Al<2,1,1,3> > >("fallback, bytes", seed, r);
    go<variant<Al<1,64,64,5>, Al<2,2,1,5>, Al<3,24,8,1> > >("trivial and throwing", seed, r);
    go<variant<Al<1,6,2,5>, Al<2,10,2,5> > >("trivial", seed, r);
#elif PART == 4
    go<variant<recursive_wrapper<Al<1,16,16,1> >, Al<2,3,1,0>, recursive_wrapper<Al<3,40,8,0> > > >("wrapped", seed, r);
    go<variant<recursive_wrapper<Al<1,200,8,0> >, recursive_wrapper<Al<2,3,1,3> >, Al<3,1,1,3> > >("wrapped with fallback", seed, r);
    go<variant<Al<1,1,1,0>, Al<2,2,1,0>, Al<3,3,1,0>, Al<4,4,4,0>, Al<5,5,1,0>, Al<6,6,2,0>, Al<7,7,1,0>, Al<8,8,8,0>, Al<9,48,16,0>, Al<10,9,1,0> > >("many", seed, r);
#endif
    count("objects", g_objs); finish(); return 0;
}
